// Analysis unit: only names public API of /repo so that the templates are instantiated and
// become visible (type-resolved) to the extractor.  Nothing here is ever executed.
namespace verif_tu {
using namespace ctm;
using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef VectorTemplate< VectorProxy::Block<VD> > VBlock;
typedef VectorTemplate< VectorProxy::Block<const VD> > VCBlock;
typedef VectorTemplate< VectorProxy::Scale<VD> > VScale;
typedef sparse::SparseMatrix<double> M;
typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<double> > FM;
typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixProxy::Block< sparse::SparseMatrixData<double> > > MBlock;
typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixProxy::Transpose< sparse::SparseMatrixData<double> > > MTrans;
typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixProxy::Scale< sparse::SparseMatrixData<double> > > MScale;
typedef sparse::SparseMatrixCommonTypes::Index Index;

void registrators() {
    OdeNumIntClassesRegistrator<VD> r1;
    testmodels::OdeTestModelClassesRegistrator<VD> r2;
    (void)r1; (void)r2;
}

void vectors( V& a, const V& ca, double s ) {
    VBlock b = a.block( 1, 2 );
    VCBlock cb = ca.block( 1, 2 );
    VScale sc = a.scaled( s );
    const VBlock& crb = b;
    b[0] = b.at(0); (void)crb[0]; b.begin(); b.end(); crb.begin(); crb.end(); crb.cbegin(); crb.cend(); b.clear(); b.size();
    b = ca; b = cb; a = cb; a = sc; a = ca;
    sc[0]; sc.at(0); sc.begin(); sc.end(); sc.cbegin(); sc.cend(); sc.size();
    for( auto x : sc ) (void)x;
    a += sc; a -= sc; a += b; a -= b; b += sc; b -= sc; b *= s; a *= s; a += ca; a -= ca;
    a.dot( ca ); a.dot( b ); a.clone(); a.infNorm(); a.oneNorm(); a.euclideanNorm(); a.euclideanNormSquare();
    (void)( a + ca ); (void)( a - ca ); a.toString(); a.empty(); a.resize( 3 ); a.clear();
    b.block( 0, 1 ).size();
    vectorMemberwiseUnaryOp( a, []( double x ) { return x; } );
    vectorMemberwiseBinaryOp( a, ca, []( double x, double y ) { return x*y; } );
}

template< class X > void readMat( X& m ) {
    const X& c = m;
    c.get( Index(0,0) ); c.get( 0, 0 ); c[Index(0,0)]; c.hasIndex( Index(0,0) ); c.checkedGet( Index(0,0) );
    c.count(); c.empty(); c.size(); c.end(); c.cend();
}
void matrices( M& m, const M& cm, FM& f, const FM& cf, V& v, double s ) {
    readMat( m ); readMat( f );
    MBlock b = m.block( 0, 0, 1, 1 ); readMat( b );
    MTrans t = m.transposed(); readMat( t );
    MScale sc = m.scaled( s ); readMat( sc );
    b.at( Index(0,0) ) = 1; t.at( Index(0,0) ) = 1; b.begin(); b.end(); t.begin(); t.end(); sc.begin(); sc.end();
    b.removeAt( Index(0,0) ); t.removeAt( Index(0,0) ); b.clear(); t.clear();
    b.rowBegin( 0 ); b.rowEnd( 0 ); sc.rowBegin( 0 ); sc.rowEnd( 0 );
    for( auto x : b ) (void)x;
    for( auto x : t ) (void)x;
    for( auto x : sc ) (void)x;
    m += sc; m -= sc; m += b; m += t; m -= t; m = sc.clone(); f = m; f -= f.scaled( s );
    m = t; M m2( t ); M m3( b ); m3 = b; M m4( sc ); m = f; M m5( cf );
    (void)( cm * cm ); m *= cm; (void)( cm * v ); (void)( v * cm ); (void)( cf * v );
    f.block( 0, 0, 1, 1 ).mulVectRight( v.begin(), v.begin() );
    m.at( 0, 0 ) = 1; m.at( Index(0,0) ) = 1; f.at( 0, 0 ) = 1;
    m.resize( 2, 2 ); m.resizeFromData(); m.makeZero(); f.makeZero(); m.addScaledIdentity( s ); m.addIdentity();
    m.infNorm(); m.oneNorm(); m.euclideanNorm(); m.clone(); f.clone(); M::identity( 3 ); M::scaledIdentity( 3, s );
    m.rowBegin( 0 ); m.rowEnd( 0 ); m.removeAt( Index(0,0) ); m.clear(); f.clear();
    std::ostringstream os; os << cm << *(&v); sparse::printScilabMatrix( os, cm, "m" );
}

void lu( LUFactorizer<double>& l, const M& m, const FM& f, V& v ) {
    LUFactorizer<double> a( m ), b( f );
    l.setMatrix( m ); l.setMatrix( f ); l.setMatrixFast( m ); l.setMatrixFast( f );
    l.solve( &v[0] ); l.elementAt( 0, 0 ); l.firstCol( 0 ); l.firstRow( 0 ); l.lastCol( 0 );
    l.secantUpdateHart( &v[0], &v[0] ); l.secantUpdateProportional( &v[0], &v[0] );
    l.isFactorized(); l.size(); l.timingStats(); l.clearTimingStats();
}

typedef std::pair< std::pair< unsigned int, unsigned int >, double > LuElement;
void luElements( LUFactorizer<double>& l, const LuElement *a, const LuElement *b ) {
    LUFactorizer<double> c( a, b );
    l.setMatrix( a, b ); l.setMatrixFast( a, b );
}

void config( std::istream& ) {
    OdeSolverConfiguration<VD> cfg;
    const OdeSolverConfiguration<VD>& ccfg = cfg;
    cfg.setValue( "a", 1 ); cfg.setValue( "a", "x" ); cfg.setValue( "a.b", 1.5 );
    cfg.setValue( "a", std::string() );
    auto sc = cfg.apply( std::set<unsigned int>(), 0, V( 2 ) );
    solveOde( &cfg, &sc );
    (void)ccfg;
}
}
#include "entries.inc"
