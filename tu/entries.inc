// Entry points of the analysis of the linear algebra: every function is a use of the public API.  They are analysed, never run.
namespace verif_entry {
using namespace ctm;
using namespace ctm::math;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef sparse::SparseMatrix<double> M;
typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<double> > FM;
typedef sparse::SparseMatrixCommonTypes::Index Index;
typedef unsigned int U;

// ---- vectors
void v_make( V& r, U n ) { V x( n ); r = x; }
void v_put( V& r, U i, double x ) { r[i] = x; }
double v_get( const V& a, U i ) { return a[i]; }
double v_at( const V& a, U i ) { return a.at( i ); }
double v_getm( V& a, U i ) { return a[i]; }
void v_putat( V& r, U i, double x ) { r.at( i ) = x; }
U v_size( const V& a ) { return a.size(); }
bool v_empty( const V& a ) { return a.empty(); }
void v_assign( V& r, const V& a ) { r = a; }
void v_self( V& r ) { V& q = r; r = q; }
void v_copy( V& r, const V& a ) { V x( a ); x.swap( r ); }
void v_clone( V& r, const V& a ) { r = a.clone(); }
void v_cloneIndep( V& r, V& a, double s ) { V x = a.clone(); a *= s; r = x; }
void v_data( V& r, const V& a ) { VD d( a ); V x( d ); r = x; }
void v_resize( V& r, U n ) { r.resize( n ); }
void v_clear( V& r ) { r.clear(); }
void v_swap( V& r, V& a ) { r.swap( a ); }
void v_addTo( V& r, const V& a ) { r += a; }
void v_subFrom( V& r, const V& a ) { r -= a; }
void v_mulBy( V& r, double s ) { r *= s; }
void v_add( V& r, const V& a, const V& b ) { r = a + b; }
void v_sub( V& r, const V& a, const V& b ) { r = a - b; }
void v_scaledTo( V& r, V& a, double s ) { r = a.scaled( s ); }
void v_scaledCopy( V& r, V& a, double s ) { V x( a.scaled( s ) ); r = x; }
void v_scaledAdd( V& r, V& a, double s ) { r += a.scaled( s ); }
void v_scaledSub( V& r, V& a, double s ) { r -= a.scaled( s ); }
void v_scaledPlus( V& r, V& a, V& b, double s ) { r = a.scaled( s ) + b; }
void v_selfScaled( V& r, double s ) { r = r.scaled( s ); }
void v_selfAdd( V& r, double s ) { r += r.scaled( s ); }
void v_selfSub( V& r ) { r -= r; }
double v_scaledGet( V& a, double s, U i ) { return a.scaled( s )[i]; }
double v_scaledAt( V& a, double s, U i ) { return a.scaled( s ).at( i ); }
U v_scaledSize( V& a, double s ) { return a.scaled( s ).size(); }
double v_scaledIter( V& a, double s, double w ) { auto x = a.scaled( s ); double r = 0; for( auto it=x.begin(); it!=x.end(); ++it ) r = r*w + *it; return r; }
double v_dot( const V& a, const V& b ) { return a.dot( b ); }
double v_dotScaled( V& a, const V& b, double s ) { auto x = b; return a.dot( x.scaled( s ) ); }
double v_inf( const V& a ) { return a.infNorm(); }
double v_one( const V& a ) { return a.oneNorm(); }
double v_sqr( const V& a ) { return a.euclideanNormSquare(); }
double v_eucl( const V& a ) { return a.euclideanNorm(); }
double v_iter( const V& a, double w ) { double r = 0; for( auto x : a ) r = r*w + x; return r; }
void v_iterSet( V& r, double s ) { for( auto& x : r ) x *= s; }
void v_memberwise1( V& r, const V& a ) { r = vectorMemberwiseUnaryOp( a, []( double x ) { return 3*x + 1; } ); }
void v_memberwise2( V& r, const V& a, const V& b ) { r = vectorMemberwiseBinaryOp( a, b, []( double x, double y ) { return x - 2*y; } ); }
void v_fabs( V& r, const V& a ) { r = std::fabs( a ); }
void v_max( V& r, const V& a, const V& b ) { r = std::max( a, b ); }
void v_sqrt( V& r, const V& a ) { r = std::sqrt( a ); }
// ---- blocks of vectors
void b_read( V& r, V& a, U i, U n ) { r = a.block( i, n ); }
void b_readc( V& r, const V& a, U i, U n ) { r = a.block( i, n ); }
void b_copy( V& r, const V& a, U i, U n ) { V x( a.block( i, n ) ); r = x; }
void b_write( V& r, U i, U n, const V& a ) { r.block( i, n ) = a; }
void b_writeb( V& r, U i, U n, const V& a, U j ) { r.block( i, n ) = a.block( j, n ); }
void b_writes( V& r, U i, U n, V& a, double s ) { r.block( i, n ) += a.scaled( s ); }
void b_add( V& r, U i, U n, const V& a ) { r.block( i, n ) += a; }
void b_sub( V& r, U i, U n, const V& a ) { r.block( i, n ) -= a; }
void b_mul( V& r, U i, U n, double s ) { r.block( i, n ) *= s; }
void b_clear( V& r, U i, U n ) { r.block( i, n ).clear(); }
void b_put( V& r, U i, U n, U k, double x ) { auto b = r.block( i, n ); b[k] = x; }
void b_putat( V& r, U i, U n, U k, double x ) { auto b = r.block( i, n ); b.at( k ) = x; }
double b_get( const V& a, U i, U n, U k ) { const auto b = a.block( i, n ); return b[k]; }
double b_at( const V& a, U i, U n, U k ) { const auto b = a.block( i, n ); return b.at( k ); }
U b_size( const V& a, U i, U n ) { return a.block( i, n ).size(); }
double b_iter( const V& a, U i, U n, double w ) { double r = 0; const auto b = a.block( i, n ); for( auto x : b ) r = r*w + x; return r; }
double b_dot( const V& a, U i, U n, const V& b ) { return a.block( i, n ).dot( b ); }
double b_sqr( const V& a, U i, U n ) { return a.block( i, n ).euclideanNormSquare(); }
void b_plus( V& r, const V& a, U i, U n, const V& b ) { r = a.block( i, n ) + b; }
void b_minus( V& r, const V& a, U i, U n, const V& b ) { r = a.block( i, n ) - b; }
void b_scaled( V& r, V& a, U i, U n, double s ) { r = a.block( i, n ).scaled( s ); }
void b_nested( V& r, V& a, U i, U n, U j, U k ) { auto x = a.block( i, n ); auto y = x.block( j, k ); r = y; }
void b_self( V& r, U i, U j, U n ) { r.block( i, n ) = r.block( j, n ); }

// ---- sparse matrices
void m_make( M& m, U r, U c ) { M x( r, c ); m = x; }
void m_put( M& m, U r, U c, double x ) { m.at( r, c ) = x; }
void m_putI( M& m, U r, U c, double x ) { m.at( Index( r, c ) ) = x; }
void f_put( FM& m, U r, U c, double x ) { m.at( r, c ) = x; }
void f_putI( FM& m, U r, U c, double x ) { m.at( Index( r, c ) ) = x; }
void f_assign( FM& f, const M& m ) { f = m; }
void f_assignT( FM& f, M& m ) { f = m.transposed(); }
void f_assignF( FM& f, const FM& m ) { f = m; }
void f_copyData( FM& f, const M& m ) { FM x{ sparse::SparseMatrixFastData<double>( m ), m.size() }; f = x; }
void f_copyF( FM& f, const FM& m ) { FM x( static_cast< const sparse::SparseMatrixFastData<double>& >( m ), m.size() ); f = x; }
void m_assign( M& r, const M& m ) { r = m; }
void m_copy( M& r, const M& m ) { M x( m ); r = x; }
void m_assignF( M& r, const FM& m ) { r = m; }
void m_copyF( M& r, const FM& m ) { M x( m ); r = x; }
void m_clone( M& r, const M& m ) { r = m.clone(); }
void f_clone( FM& r, const FM& m ) { r = m.clone(); }
void f_convert( FM& r, const M& m ) { FM x( m ); r = x; }
void m_assignT( M& r, M& m ) { r = m.transposed(); }
void m_copyT( M& r, M& m ) { M x( m.transposed() ); r = x; }
void m_assignS( M& r, M& m, double s ) { r = m.scaled( s ); }
void m_copyS( M& r, M& m, double s ) { M x( m.scaled( s ) ); r = x; }
void m_assignB( M& r, M& m, U i, U j, U k, U l ) { r = m.block( i, j, k, l ); }
void m_copyB( M& r, M& m, U i, U j, U k, U l ) { M x( m.block( i, j, k, l ) ); r = x; }
void m_selfT( M& m ) { m = m.transposed(); }
void m_selfS( M& m, double s ) { m = m.scaled( s ); }
void m_selfB( M& m, U i, U j, U k, U l ) { m = m.block( i, j, k, l ); }
void m_self( M& m ) { M& q = m; m = q; }
void f_self( FM& m ) { FM& q = m; m = q; }
void m_zero( M& m ) { m.makeZero(); }
void f_zero( FM& m ) { m.makeZero(); }
void m_clear( M& m ) { m.clear(); }
void f_clear( FM& m ) { m.clear(); }
void m_remove( M& m, U r, U c ) { m.removeAt( Index( r, c ) ); }
void m_resize( M& m, U r, U c ) { m.resize( r, c ); }
void m_resizeFromData( M& m ) { m.resizeFromData(); }
void m_sid( M& m, double s ) { m.addScaledIdentity( s ); }
void f_sid( FM& m, double s ) { m.addScaledIdentity( s ); }
void m_id( M& m ) { m.addIdentity(); }
void m_newId( M& m, U n ) { m = M::identity( n ); }
void m_newSid( M& m, U n, double s ) { m = M::scaledIdentity( n, s ); }
void m_add( M& r, const M& m ) { r += m; }
void m_sub( M& r, const M& m ) { r -= m; }
void m_addF( M& r, const FM& m ) { r += m; }
void m_addS( M& r, M& m, double s ) { r += m.scaled( s ); }
void m_subT( M& r, M& m ) { r -= m.transposed(); }
void m_addB( M& r, M& m, U i, U j, U k, U l ) { r += m.block( i, j, k, l ); }
void f_subS( FM& r, FM& m, double s ) { r -= m.scaled( s ); }
void f_addM( FM& r, const M& m ) { r += m; }
void m_mul( M& r, const M& a, const M& b ) { r = a * b; }
void m_mulT( M& r, const M& a, M& b ) { r = a * b.transposed(); }
void m_mulF( M& r, const M& a, const FM& b ) { r = a * b; }
void m_mulBy( M& r, const M& b ) { r *= b; }
void m_vec( V& r, const M& m, const V& v ) { r = m * v; }
void f_vec( V& r, const FM& m, const V& v ) { r = m * v; }
void t_vec( V& r, M& m, const V& v ) { r = m.transposed() * v; }
void s_vec( V& r, M& m, double s, const V& v ) { r = m.scaled( s ) * v; }
void bl_vec( V& r, M& m, U i, U j, U k, U l, const V& v ) { r = m.block( i, j, k, l ) * v; }
void blf_vec( V& r, FM& m, U i, U j, U k, U l, const V& v ) { r = m.block( i, j, k, l ) * v; }
void vec_m( V& r, const V& v, const M& m ) { r = v * m; }
void vec_f( V& r, const V& v, const FM& m ) { r = v * m; }
double m_inf( const M& m ) { return m.infNorm(); }
double m_one( const M& m ) { return m.oneNorm(); }
double m_sqr( const M& m ) { return m.euclideanNormSquare(); }
double m_eucl( const M& m ) { return m.euclideanNorm(); }

// ---- read access of every kind of matrix
template< class X > double rd_get( X& m, U r, U c ) { const X& k = m; return k.get( r, c ); }
template< class X > double rd_getI( X& m, U r, U c ) { const X& k = m; return k.get( Index( r, c ) ); }
template< class X > double rd_idx( X& m, U r, U c ) { const X& k = m; return k[ Index( r, c ) ]; }
template< class X > bool rd_has( X& m, U r, U c ) { const X& k = m; return k.hasIndex( Index( r, c ) ); }
template< class X > double rd_chk( X& m, U r, U c ) { const X& k = m; return k.checkedGet( Index( r, c ) ).first; }
template< class X > bool rd_chkHas( X& m, U r, U c ) { const X& k = m; return k.checkedGet( Index( r, c ) ).second; }
template< class X > U rd_rows( X& m ) { const X& k = m; return k.size().first; }
template< class X > U rd_cols( X& m ) { const X& k = m; return k.size().second; }
template< class X > U rd_count( X& m ) { const X& k = m; return k.count(); }
template< class X > bool rd_empty( X& m ) { const X& k = m; return k.empty(); }
template< class X > void rd_all( X& m, M& out ) { const X& k = m; M x( m.size() ); for( auto v : k ) x.at( v.first ) += v.second; out = x; }
template< class X > U rd_order( X& m ) { const X& k = m; U n = 0; Index last; bool bad = false; for( auto it=k.begin(); it!=k.end(); ++it ) { if( n > 0   &&   !( last < it->first ) ) bad = true; last = it->first; ++n; } return bad ?   100 :   n; }
template< class X > void rd_row( X& m, U r, M& out ) { const X& k = m; M x( m.size() ); for( auto it=k.rowBegin( r ), e=k.rowEnd( r ); it!=e; ++it ) x.at( it->first ) += it->second; out = x; }
template< class X > void wr_at( X& m, U r, U c, double x ) { m.at( Index( r, c ) ) = x; }
template< class X > void wr_remove( X& m, U r, U c ) { m.removeAt( Index( r, c ) ); }
template< class X > void wr_clear( X& m ) { m.clear(); }
template< class X > void wr_scale( X& m, double s ) { for( auto v : m ) v.second.get() *= s; }

#define VERIF_KIND( K, OBJ, ... ) \
    double K##_get( __VA_ARGS__, U r, U c ) { OBJ; return rd_get( x, r, c ); } \
    double K##_getI( __VA_ARGS__, U r, U c ) { OBJ; return rd_getI( x, r, c ); } \
    double K##_idx( __VA_ARGS__, U r, U c ) { OBJ; return rd_idx( x, r, c ); } \
    bool K##_has( __VA_ARGS__, U r, U c ) { OBJ; return rd_has( x, r, c ); } \
    double K##_chk( __VA_ARGS__, U r, U c ) { OBJ; return rd_chk( x, r, c ); } \
    bool K##_chkHas( __VA_ARGS__, U r, U c ) { OBJ; return rd_chkHas( x, r, c ); } \
    U K##_rows( __VA_ARGS__ ) { OBJ; return rd_rows( x ); } \
    U K##_cols( __VA_ARGS__ ) { OBJ; return rd_cols( x ); } \
    U K##_count( __VA_ARGS__ ) { OBJ; return rd_count( x ); } \
    bool K##_empty( __VA_ARGS__ ) { OBJ; return rd_empty( x ); } \
    void K##_all( __VA_ARGS__, M& out ) { OBJ; rd_all( x, out ); } \
    U K##_order( __VA_ARGS__ ) { OBJ; return rd_order( x ); }
VERIF_KIND( mm, M& x = m, M& m )
VERIF_KIND( ff, FM& x = m, FM& m )
VERIF_KIND( mb, auto x = m.block( i, j, k, l ), M& m, U i, U j, U k, U l )
VERIF_KIND( mt, auto x = m.transposed(), M& m )
VERIF_KIND( ms, auto x = m.scaled( s ), M& m, double s )
VERIF_KIND( fb, auto x = m.block( i, j, k, l ), FM& m, U i, U j, U k, U l )
VERIF_KIND( ft, auto x = m.transposed(), FM& m )
VERIF_KIND( fs, auto x = m.scaled( s ), FM& m, double s )
VERIF_KIND( mbt, auto y = m.block( i, j, k, l ); auto x = y.transposed(), M& m, U i, U j, U k, U l )
VERIF_KIND( mbs, auto y = m.block( i, j, k, l ); auto x = y.scaled( s ), M& m, U i, U j, U k, U l, double s )
void mm_row( M& m, U r, M& out ) { rd_row( m, r, out ); }
void mb_row( M& m, U i, U j, U k, U l, U r, M& out ) { auto x = m.block( i, j, k, l ); rd_row( x, r, out ); }
void ms_row( M& m, double s, U r, M& out ) { auto x = m.scaled( s ); rd_row( x, r, out ); }
void mb_put( M& m, U i, U j, U k, U l, U r, U c, double x ) { auto b = m.block( i, j, k, l ); wr_at( b, r, c, x ); }
void mb_remove( M& m, U i, U j, U k, U l, U r, U c ) { auto b = m.block( i, j, k, l ); wr_remove( b, r, c ); }
void mb_clear( M& m, U i, U j, U k, U l ) { auto b = m.block( i, j, k, l ); wr_clear( b ); }
void mb_scale( M& m, U i, U j, U k, U l, double s ) { auto b = m.block( i, j, k, l ); wr_scale( b, s ); }
void mb_assign( M& m, U i, U j, U k, U l, const M& a ) { m.block( i, j, k, l ) = a; }
void mb_add( M& m, U i, U j, U k, U l, const M& a ) { m.block( i, j, k, l ) += a; }
void mt_put( M& m, U r, U c, double x ) { auto b = m.transposed(); wr_at( b, r, c, x ); }
void mt_remove( M& m, U r, U c ) { auto b = m.transposed(); wr_remove( b, r, c ); }
void mt_clear( M& m ) { auto b = m.transposed(); wr_clear( b ); }
void mt_scale( M& m, double s ) { auto b = m.transposed(); wr_scale( b, s ); }
void mt_add( M& m, const M& a ) { m.transposed() += a; }

// ---- vector mappings: any( tag, i, x ) stands for an arbitrary function of x, the i-th component of the mapping called tag
double any( U tag, U i, const V& x );
void evaluated( U tag, const V& x );
struct AnyMapping : public VectorMapping<VD>
    {
    U tag, in, out;
    bool strict;    // The result has to have the right size beforehand
    AnyMapping( U tag, U in, U out, bool strict=true ) : tag( tag ), in( in ), out( out ), strict( strict ) {}
    U inputSize() const { return in; }
    U outputSize() const { return out; }
    void map( V& dst, const V& x ) const {
        ASSERT( x.size() == in );
        if( strict ) {
            ASSERT( dst.size() == out );
            }
        else
            dst.resize( out );
        this->vectorMappingPreObservers( x, this );
        evaluated( tag, x );
        for( U i=0; i<out; ++i )
            dst[i] = any( tag, i, x );
        this->vectorMappingPostObservers( x, dst, this );
        }
    };

// ---- Jacobians
void j_dense( M& r, const V& x, U tag, U n ) { AnyMapping m( tag, n, n ); r = computeJacobian( m, x ); }
void j_sparse( FM& J, const V& x, U tag, U n, U k, double delta ) { AnyMapping m( tag, n, k ); computeSparseJacobian<VD>( J, m, x, delta ); }
U j_calculator( FM& J, const V& x, const V& y, U tag, U n, U k, double delta ) {
    AnyMapping m( tag, n, k );
    SparseJacobianCalculator<VD> c( &J );
    c.calculate( m, x, delta );
    c.calculate( m, y, delta );
    return c.mappingEvaluationsRequired();
    }
struct JScene
    {
    std::shared_ptr< JacobianProvider<VD> > jp;
    std::shared_ptr< JacobianTrimmer<VD> > jt;
    };
void js_default( JScene& s ) { s.jp = std::make_shared< DefaultJacobianProvider<VD> >(); }
void js_sparse( JScene& s ) { s.jp = std::make_shared< SparseJacobianProvider<VD> >(); }
void js_threshold( JScene& s ) { s.jt = std::make_shared< JacobianThresholdBasedTrimmer<VD> >(); }
void js_width( JScene& s ) { s.jt = std::make_shared< JacobianWidthBasedTrimmer<VD> >(); }
void js_mapping( JScene& s, U tag, U n ) { s.jp->setMapping( std::make_shared<AnyMapping>( tag, n, n ) ); }
void js_trim( JScene& s ) { s.jp->setJacobianTrimmer( s.jt ); }
void js_notrim( JScene& s ) { s.jp->setJacobianTrimmer( nullptr ); }
void js_compute( JScene& s, const V& x ) { s.jp->computeJacobian( x ); }
void js_hard( JScene& s ) { s.jp->hardReset(); }
void js_get( JScene& s, FM& J ) { J = s.jp->jacobian(); }
bool js_helps( JScene& s ) { return s.jp->hardResetMayHelp(); }
bool js_trimmerMapping( JScene& s ) { return s.jt->mapping() == s.jp->mapping(); }
void jt_trim( JScene& s, M& r, const M& m ) { r = s.jt->trimJacobian( m ); }

// ---- descent directions: anyJ( k, i, j, x ) is element (i,j) of the k-th computed Jacobian, at point x, if stored( k, i, j )
double anyJ( U k, U i, U j, const V& x );
bool stored( U k, U i, U j );
struct AnyJacobian : public JacobianProvider<VD>
    {
    FM J;
    U k, n;
    bool keep;      // The Jacobian stays there after a hard reset
    AnyJacobian( U n, bool keep ) : k( 0 ), n( n ), keep( keep ) {}
    void hardReset() { if( !keep ) J = FM(); }
    bool hardResetMayHelp() const { return false; }
    void computeJacobian( const V& x ) {
        M m( n, n );
        for( U i=0; i<n; ++i )
            for( U j=0; j<n; ++j )
                if( stored( k, i, j ) )
                    m.at( i, j ) = anyJ( k, i, j, x );
        J = m;
        ++k;
        }
    FM& jacobian() { return J; }
    };
struct DScene
    {
    std::shared_ptr< NewtonDescentDirection<VD> > dd;
    std::shared_ptr< JacobianProvider<VD> > jp;
    LUFactorizer<double> lu;
    FM seenJ;
    V seenX, seenF, seenDir;
    };
void ds_simple( DScene& s ) { s.dd = std::make_shared< SimpleNewtonDescentDirection<VD> >(); }
void ds_const( DScene& s ) { s.dd = std::make_shared< ConstJacobianNewtonDescentDirection<VD> >(); }
void ds_broyden( DScene& s ) { s.dd = std::make_shared< JacobianBroydenUpdateNewtonDescentDirection<VD> >(); }
void ds_fake( DScene& s ) { s.dd = std::make_shared< JacobianFakeBroydenUpdateNewtonDescentDirection<VD> >(); }
void ds_lazy( DScene& s ) { s.dd = std::make_shared< JacobianLazyFakeBroydenUpdateNewtonDescentDirection<VD> >(); }
void ds_hart( DScene& s ) { s.dd = std::make_shared< JacobianHartUpdateNewtonDescentDirection<VD> >(); }
void ds_provider( DScene& s, U n, bool keep ) { s.jp = std::make_shared< AnyJacobian >( n, keep ); }
void ds_default( DScene& s ) { s.jp = std::make_shared< DefaultJacobianProvider<VD> >(); }
void ds_sparse( DScene& s ) { s.jp = std::make_shared< SparseJacobianProvider<VD> >(); }
void ds_connect( DScene& s, U tag, U n ) { s.dd->setJacobianProvider( s.jp ); s.dd->setMapping( std::make_shared<AnyMapping>( tag, n, n ) ); }
void ds_connectRev( DScene& s, U tag, U n ) { s.dd->setMapping( std::make_shared<AnyMapping>( tag, n, n ) ); s.dd->setJacobianProvider( s.jp ); }
void ds_mapping( DScene& s, U tag, U n ) { s.dd->setMapping( std::make_shared<AnyMapping>( tag, n, n ) ); }
void ds_again( DScene& s ) { s.dd->setJacobianProvider( s.jp ); }
bool ds_sameMapping( DScene& s ) { return s.jp->mapping() == s.dd->mapping(); }
void ds_observe( DScene& s ) {
    s.dd->jacobianObservers.add( [&s]( const FM& J, const V& x, const V& f ) { s.seenJ = J; s.seenX = x; s.seenF = f; } );
    s.dd->ddirPostObservers.add( [&s]( const V& d ) { s.seenDir = d; } );
    }
void ds_seen( DScene& s, FM& J, V& x, V& f, V& d ) { J = s.seenJ; x = s.seenX; f = s.seenF; d = s.seenDir; }
void ds_reset( DScene& s, bool hard ) { s.dd->reset( hard ); }
void ds_report( DScene& s, bool success ) { s.dd->reportSuccess( success ); }
bool ds_helps( DScene& s ) { return s.dd->hardResetMayHelp(); }
void ds_compute( DScene& s, V& dir, const V& x, const V& f, U it ) { s.dd->computeDescentDirection( dir, x, f, it ); }
void ds_computeRet( DScene& s, V& dir, const V& x, const V& f, U it ) { dir = s.dd->computeDescentDirection( x, f, it ); }
void ds_luSet( DScene& s, const M& m ) { s.lu.setMatrix( m ); }
void ds_luSecant( DScene& s, V& sv, V& y ) { s.lu.secantUpdateHart( &*sv.begin(), &*y.begin() ); }
void ds_luSolve( DScene& s, V& x, const V& b ) { x = b; s.lu.solve( &*x.begin() ); }

// ---- adapters of mappings
std::vector<U> digits( U code, U n ) { std::vector<U> r; for( U i=0; i<n; ++i ) { r.push_back( code % 8 ); code /= 8; } return r; }
struct IdMapping : public AnyMapping
    {
    IdMapping( U tag, U in, U out ) : AnyMapping( tag, in, out, false ) {}
    std::vector<U> inputIds() const { std::vector<U> r( in ); for( U i=0; i<in; ++i ) r[i] = 100 + i; return r; }
    std::vector<U> outputIds() const { std::vector<U> r( out ); for( U i=0; i<out; ++i ) r[i] = 200 + i; return r; }
    };
double anyRhs( U tag, U i, double t, const V& x );
struct AnyRhs : public OdeRhs<VD>
    {
    U tag, n1, n2;
    AnyRhs( U tag, U n1, U n2 ) : tag( tag ), n1( n1 ), n2( n2 ) {}
    unsigned int secondOrderVarCount() const { return n2; }
    unsigned int firstOrderVarCount() const { return n1; }
    std::vector<U> varIds() const { std::vector<U> r( n1 + 2*n2 ); for( U i=0; i<r.size(); ++i ) r[i] = 300 + i; return r; }
    void rhs( V& dst, double t, const V& x ) const { dst.resize( n1 + 2*n2 ); for( U i=0; i<n1+2*n2; ++i ) dst[i] = anyRhs( tag, i, t, x ); }
    OptionalParameters::Parameters parameters() const { return OptionalParameters::Parameters(); }
    void setParameters( const OptionalParameters::Parameters& ) {}
    };
struct AScene
    {
    std::shared_ptr< VectorNarrowingMapping<VD> > nm;
    std::shared_ptr< VectorReorderingMapping<VD> > rm;
    std::shared_ptr< MappingNormalizer<VD> > no;
    std::shared_ptr< DiagonalMapping<VD> > dm;
    std::shared_ptr< OdeRhsVectorMapping<VD> > om;
    std::shared_ptr< VectorMapping<VD> > m;
    };
void a_narrow( AScene& s, U tag, U in, U out ) { s.nm = std::make_shared< VectorNarrowingMapping<VD> >(); s.nm->setMapping( std::make_shared< IdMapping >( tag, in, out ) ); s.m = s.nm; }
void a_in( AScene& s, U code, U n, const V& state ) { s.nm->setInputNarrowing( digits( code, n ), state ); }
void a_out( AScene& s, U code, U n ) { s.nm->setOutputNarrowing( digits( code, n ) ); }
void a_inIdx( AScene& s, V& r ) { auto d = s.nm->disabledInputIndices(); r.resize( d.size() ); for( U i=0; i<d.size(); ++i ) r[i] = d[i]; }
void a_outIdx( AScene& s, V& r ) { auto d = s.nm->disabledOutputIndices(); r.resize( d.size() ); for( U i=0; i<d.size(); ++i ) r[i] = d[i]; }
void a_narrowIn( AScene& s, V& r, const V& x ) { s.nm->narrowInput( r, x ); }
void a_narrowOut( AScene& s, V& r, const V& x ) { s.nm->narrowOutput( r, x ); }
void a_widenIn( AScene& s, V& r, const V& x ) { s.nm->widenInput( r, x ); }
void a_narrowInRet( AScene& s, V& r, const V& x ) { r = s.nm->narrowInput( x ); }
void a_narrowOutRet( AScene& s, V& r, const V& x ) { r = s.nm->narrowOutput( x ); }
void a_widenInRet( AScene& s, V& r, const V& x ) { r = s.nm->widenInput( x ); }
void a_reorder( AScene& s, U tag, U in, U out, U ci, U co ) {
    s.rm = std::make_shared< VectorReorderingMapping<VD> >(); s.rm->setMapping( std::make_shared< IdMapping >( tag, in, out ) );
    s.rm->setInputOrdering( digits( ci, in ) ); s.rm->setOutputOrdering( digits( co, out ) ); s.m = s.rm; }
void a_orderIn( AScene& s, V& r, const V& x ) { s.rm->orderInput( r, x ); }
void a_orderOut( AScene& s, V& r, const V& x ) { s.rm->orderOutput( r, x ); }
void a_unorderIn( AScene& s, V& r, const V& x ) { s.rm->unorderInput( r, x ); }
void a_unorderOut( AScene& s, V& r, const V& x ) { s.rm->unorderOutput( r, x ); }
void a_orderInRet( AScene& s, V& r, const V& x ) { r = s.rm->orderInput( x ); }
void a_orderOutRet( AScene& s, V& r, const V& x ) { r = s.rm->orderOutput( x ); }
void a_unorderInRet( AScene& s, V& r, const V& x ) { r = s.rm->unorderInput( x ); }
void a_unorderOutRet( AScene& s, V& r, const V& x ) { r = s.rm->unorderOutput( x ); }
void a_diag( AScene& s, const V& d ) { s.dm = std::make_shared< DiagonalMapping<VD> >( d ); s.m = s.dm; }
void a_unmap( AScene& s, V& r, const V& x ) { s.dm->unmap( r, x ); }
void a_unmapRet( AScene& s, V& r, const V& x ) { r = static_cast< VectorBijectiveMapping<VD>& >( *s.dm ).unmap( x ); }
void a_invMap( AScene& s, V& r, const V& x ) { s.dm->inv().map( r, x ); }
void a_invUnmap( AScene& s, V& r, const V& x ) { s.dm->inv().unmap( r, x ); }
U a_invIn( AScene& s ) { return s.dm->inv().inputSize(); }
U a_invOut( AScene& s ) { return s.dm->inv().outputSize(); }
void a_normal( AScene& s, U tag, U n, const V& d ) { s.no = std::make_shared< MappingNormalizer<VD> >(); s.no->setMapping( std::make_shared< IdMapping >( tag, n, n ) );
    s.no->setDiagonalMapping( std::make_shared< DiagonalMapping<VD> >( d ) ); s.m = s.no; }
void a_normalize( AScene& s, const V& x0 ) { s.no->normalize( x0 ); }
void a_scales( AScene& s, V& r, const V& ones ) { s.no->diagonalMapping()->map( r, ones ); }
void a_rhs( AScene& s, U tag, U n1, U n2, double t ) { s.om = makeOdeRhsVectorMapping<VD>( std::make_shared< AnyRhs >( tag, n1, n2 ), t ); s.m = s.om; }
void a_rhsTime( AScene& s, double t ) { s.om->setTime( t ); }
double a_time( AScene& s ) { return s.om->time(); }
void a_map( AScene& s, V& r, const V& x ) { s.m->map( r, x ); }
void a_mapRet( AScene& s, V& r, const V& x ) { r = (*s.m)( x ); }
U a_inSize( AScene& s ) { return s.m->inputSize(); }
U a_outSize( AScene& s ) { return s.m->outputSize(); }
void a_inIds( AScene& s, V& r ) { auto d = s.m->inputIds(); r.resize( d.size() ); for( U i=0; i<d.size(); ++i ) r[i] = d[i]; }
void a_outIds( AScene& s, V& r ) { auto d = s.m->outputIds(); r.resize( d.size() ); for( U i=0; i<d.size(); ++i ) r[i] = d[i]; }
// ---- parameters
typedef OptionalParameters OP;
typedef OptionalParameters::Parameters Pm;
void o_set( OP& o, const Pm& p ) { o.setParameters( p ); }
void o_get( const OP& o, Pm& r ) { r = o.parameters(); }
void o_help( const OP& o, Pm& r ) { r = o.helpOnParameters(); }
void s_state( const OdeInitState<VD>& s, V& r ) { r = s.initialState(); }
double s_time( const OdeInitState<VD>& s ) { return s.initialTime(); }
// ---- texts of parameters
int t_int( int x ) { OP::Value v( x ); return v.value<int>(); }
U t_uns( U x ) { OP::Value v( x ); return v.value<U>(); }
double t_dbl( double x ) { OP::Value v( x ); return v.value<double>(); }
bool t_bool( bool x ) { OP::Value v( x ); return v.value<bool>(); }
void t_str( std::string& r, const std::string& x ) { OP::Value v( x ); r = v.value<std::string>(); }
int t_toInt( const std::string& s ) { OP::Value v( s ); return v.value<int>(); }
U t_toUns( const std::string& s ) { OP::Value v( s ); return v.value<U>(); }
double t_toDbl( const std::string& s ) { OP::Value v( s ); return v.value<double>(); }
bool t_toBool( const std::string& s ) { OP::Value v( s ); return v.value<bool>(); }
template< class I > void t_clone( std::shared_ptr<I>& r, const std::shared_ptr<I>& x ) { OP::Value v( x ); r = v.template value< std::shared_ptr<I> >(); }
struct Clones {
    std::shared_ptr< OdeSolver<VD> > so, so2;
    std::shared_ptr< NewtonSolverInterface<VD> > ns, ns2;
    std::shared_ptr< OdeRhs<VD> > rh, rh2;
    std::shared_ptr< OdeInitState<VD> > is, is2;
    };
void t_solver( Clones& c ) { t_clone( c.so2, c.so ); }
void t_newton( Clones& c ) { t_clone( c.ns2, c.ns ); }
void t_rhs( Clones& c ) { t_clone( c.rh2, c.rh ); }
void t_init( Clones& c ) { t_clone( c.is2, c.is ); }
// ---- observers
bool obFails();      // not defined
bool obAnswer( U k, U n );
struct ObLog { std::vector<U> who; std::vector<int> a; std::vector<double> b; ObLog() {} void add( U k, int x, double y ) { who.push_back( k ); a.push_back( x ); b.push_back( y ); } };
struct ObScene
    {
    cxx::Observers<int,double> o, p;
    cxx::TerminatingObservers<int,double> t, q;
    ObLog log;
    ObScene() {}
    };
int ob_add( ObScene& s, U k ) { return s.o.add( [&s, k]( int a, double b ) { s.log.add( k, a, b ); } ); }
void ob_remove( ObScene& s, int id ) { s.o.remove( id ); }
void ob_clear( ObScene& s ) { s.o.clear(); }
bool ob_empty( ObScene& s ) { return s.o.empty(); }
void ob_fire( ObScene& s, int a, double b ) { s.o( a, b ); }
void ob_fireP( ObScene& s, int a, double b ) { s.p( a, b ); }
void ob_forward( ObScene& s ) { cxx::forwardObservers( s.p, s.o ); }
int ob_tadd( ObScene& s, U k ) { return s.t.add( [&s, k]( int a, double b ) -> bool { s.log.add( k, a, b ); return obAnswer( k, s.log.who.size() ); } ); }
void ob_tremove( ObScene& s, int id ) { s.t.remove( id ); }
void ob_tclear( ObScene& s ) { s.t.clear(); }
bool ob_tempty( ObScene& s ) { return s.t.empty(); }
bool ob_tfire( ObScene& s, int a, double b ) { return s.t( a, b ); }
bool ob_tfireQ( ObScene& s, int a, double b ) { return s.q( a, b ); }
void ob_tforward( ObScene& s ) { cxx::forwardObservers( s.q, s.t ); }
void ob_scope( ObScene& s, U k, int a, double b )
    {
    auto x = cxx::makeScopedIdentifiedElement( s.o, [&s, k]( int a, double b ) { s.log.add( k, a, b ); } );
    s.o( a, b );
    if( obFails() ) throw cxx::exception( "failed" );
    s.o( a, b );
    }
void ob_finish( ObScene& s, U k, int a, double b )
    {
    cxx::ScopedIdentifiedElement< cxx::Observers<int,double>::cb_type > x( s.o, [&s, k]( int a, double b ) { s.log.add( k, a, b ); } );
    s.o( a, b );
    x.finish();
    s.o( a, b );
    x.finish();
    }
void ob_move( ObScene& s, U k, int a, double b )
    {
    typedef cxx::ScopedIdentifiedElement< cxx::Observers<int,double>::cb_type > S;
    S x( s.o, [&s, k]( int a, double b ) { s.log.add( k, a, b ); } );
        {
        S y( std::move( x ) );
        s.o( a, b );
        }
    s.o( a, b );
    }
U ob_size( ObScene& s ) { return s.log.who.size(); }
U ob_who( ObScene& s, U i ) { return s.log.who[i]; }
int ob_a( ObScene& s, U i ) { return s.log.a[i]; }
double ob_b( ObScene& s, U i ) { return s.log.b[i]; }
// ---- the driver
struct AutoSolver;
void autoStep( AutoSolver& );
double anyStep( U k );      // step of solver `k`: not defined
struct DrLog { std::vector<U> e; std::vector<double> t; DrLog() {} };
struct LogSolver : public OdeSolver<VD>
    {
    DrLog *log; U id, k, failAt, lastAt; double t, last; V x; std::shared_ptr< OdeRhs<VD> > atInit;
    LogSolver( DrLog& log, U id, U failAt, U lastAt, double last ) : log( &log ), id( id ), k( 0 ), failAt( failAt ), lastAt( lastAt ), t( 0 ), last( last ) {}
    int order() const { return 1; }
    double initialTime() const { return t; }
    V initialState() const { return x; }
    void setInitialState( double t0, const V& x0, bool ) { atInit = this->odeRhs(); t = t0; x = x0; log->e.push_back( 30 + id ); }
    void doStep()
        {
        if( k == failAt ) throw cxx::exception( "failed" );
        if( k == lastAt ) t = last; else t += anyStep( k );
        ++k;
        log->e.push_back( 1 );
        log->t.push_back( t );
        }
    };
struct AutoSolver : public OdeSolver<VD>      // a step of it is not defined
    {
    double t; V x;
    AutoSolver() : t( 0 ) {}
    int order() const { return 1; }
    double initialTime() const { return t; }
    V initialState() const { return x; }
    void setInitialState( double t0, const V& x0, bool ) { t = t0; x = x0; }
    void doStep() { autoStep( *this ); }
    };
struct LogOutput : public OdeSolverOutputOption<VD>
    {
    DrLog *log; U id; const OdeSolverConfiguration<VD> *cfg; const OdeSolverComponents<VD> *comp;
    LogOutput( DrLog& log, U id ) : log( &log ), id( id ), cfg( nullptr ), comp( nullptr ) {}
    void beforeFirstStep( const OdeSolverConfiguration<VD> *c, const OdeSolverComponents<VD> *p ) { cfg = c; comp = p; log->e.push_back( 10 + id ); }
    void afterSolve() { log->e.push_back( 20 + id ); }
    };
struct DrScene
    {
    std::shared_ptr< OdeSolverConfiguration<VD> > cfg;
    std::shared_ptr< OdeSolverComponents<VD> > comp;
    std::shared_ptr< LogSolver > s, rs;
    std::shared_ptr< AutoSolver > as;
    std::shared_ptr< OdeRhs<VD> > rhs;
    std::shared_ptr< LogOutput > o0, o1, o2;
    std::shared_ptr< SpecifiedOdeInitState<VD> > is;
    Pm p;
    DrLog log;
    DrScene() {}
    };
void dr_make( DrScene& s ) { s.cfg = std::make_shared< OdeSolverConfiguration<VD> >(); }
void dr_solver( DrScene& s, U failAt, U lastAt, double last ) { s.s = std::make_shared< LogSolver >( s.log, 0, failAt, lastAt, last ); std::shared_ptr< OdeSolver<VD> > x = s.s; s.p["solver"] = x; }
void dr_autoSolver( DrScene& s ) { s.as = std::make_shared< AutoSolver >(); std::shared_ptr< OdeSolver<VD> > x = s.as; s.p["solver"] = x; }
double dr_autoNow( DrScene& s ) { return s.as->t; }
void dr_noSolver( DrScene& s ) { std::shared_ptr< OdeSolver<VD> > x; s.p["solver"] = x; }
void dr_ref( DrScene& s ) { s.rs = std::make_shared< LogSolver >( s.log, 1, 99, 99, 0 ); std::shared_ptr< OdeSolver<VD> > x = s.rs; s.p["reference_solver"] = x; }
void dr_rhs( DrScene& s, U n1, U n2 ) { s.rhs = std::make_shared< AnyRhs >( 1, n1, n2 ); s.p["rhs"] = s.rhs; }
void dr_out( DrScene& s, U which )
    {
    auto o = std::make_shared< LogOutput >( s.log, which );
    std::shared_ptr< OdeSolverOutputOption<VD> > x = o;
    if( which == 0 ) { s.o0 = o; s.p["output_stats"] = x; }
    if( which == 1 ) { s.o1 = o; s.p["output_con"] = x; }
    if( which == 2 ) { s.o2 = o; s.p["output_file"] = x; }
    }
void dr_time( DrScene& s, double d ) { s.p["time"] = d; }
void dr_init( DrScene& s, const Pm& p ) { s.is = std::make_shared< SpecifiedOdeInitState<VD> >(); s.is->setParameters( p ); std::shared_ptr< OdeInitState<VD> > x = s.is; s.p["init_state"] = x; }
void dr_load( DrScene& s ) { const_cast< OdeSolverConfiguration<VD>::ParameterProvider* >( s.cfg->parameterProvider() )->setParameters( s.p ); }
void dr_apply( DrScene& s, double t, const V& x ) { s.comp = std::make_shared< OdeSolverComponents<VD> >( s.cfg->apply( std::set<U>(), t, x ) ); }
void dr_solve( DrScene& s ) { solveOde<VD>( s.cfg.get(), s.comp.get() ); }
U dr_events( DrScene& s ) { return s.log.e.size(); }
U dr_event( DrScene& s, U i ) { return s.log.e[i]; }
U dr_times( DrScene& s ) { return s.log.t.size(); }
double dr_timeAt( DrScene& s, U i ) { return s.log.t[i]; }
double dr_now( DrScene& s ) { return s.s->t; }
double dr_refNow( DrScene& s ) { return s.rs->t; }
void dr_state( DrScene& s, V& r ) { r = s.s->x; }
void dr_refState( DrScene& s, V& r ) { r = s.rs->x; }
bool dr_hasRhs( DrScene& s ) { return s.s->odeRhs() == s.rhs && s.s->atInit == s.rhs; }
bool dr_refHasRhs( DrScene& s ) { return s.rs->odeRhs() == s.rhs && s.rs->atInit == s.rhs; }
bool dr_comp( DrScene& s ) { return s.comp->solver() == s.s && s.comp->refSolver() == s.rs && s.comp->odeRhs() == s.rhs; }
bool dr_told( DrScene& s ) { return ( !s.o0 || ( s.o0->cfg == s.cfg.get() && s.o0->comp == s.comp.get() ) ) && ( !s.o1 || ( s.o1->cfg == s.cfg.get() && s.o1->comp == s.comp.get() ) ) && ( !s.o2 || ( s.o2->cfg == s.cfg.get() && s.o2->comp == s.comp.get() ) ); }
// ---- outputs
struct OutSolver : public OdeSolver<VD>
    {
    double t; V x;
    OutSolver() : t( 0 ) {}
    int order() const { return 1; }
    double initialTime() const { return t; }
    V initialState() const { return x; }
    void setInitialState( double t0, const V& x0, bool ) { t = t0; x = x0; }
    void doStep() {}
    };
std::string anyDescription( U i );
struct OutRhs : public AnyRhs
    {
    OutRhs( U n1, U n2 ) : AnyRhs( 1, n1, n2 ) {}
    std::string describeZeroFunction( U i ) const { return anyDescription( i ); }
    };
struct OuEst : public ErrorEstimator<VD>
    {
    void reset( const V& ) {}
    void setCurrentSolution( const V&, const V& ) {}
    Status currentStatus() const { return Converged; }
    double absoluteError() const { return 0; }
    double relativeError() const { return 0; }
    double absoluteTolerance() const { return 0; }
    void setAbsoluteTolerance( double ) {}
    double relativeTolerance() const { return 0; }
    void setRelativeTolerance( double ) {}
    std::string currentStatusMessage() const { return anyDescription( 77 ); }
    };
struct OuPerf : public NewtonIterationPerformer<VD>
    {
    V x; double alpha;
    OuPerf() : alpha( 0 ) {}
    void setInitialGuess( const V&, bool ) {}
    void reset( bool ) {}
    ErrorEstimator<VD>::Status iteration( unsigned int ) { return ErrorEstimator<VD>::Converged; }
    const V& currentSolution() const { return x; }
    const V& currentResidual() const { return x; }
    double currentStepRatio() const { return alpha; }
    };
struct OuNewton : public NewtonSolverInterface<VD>
    {
    V x;
    unsigned int iterationCountLimit() const { return 1; }
    void setIterationCountLimit( unsigned int ) {}
    void setInitialGuess( const V&, bool ) {}
    Status run() { return Converged; }
    const V& currentSolution() const { return x; }
    };
struct OuScene
    {
    std::shared_ptr< OuNewton > newton;
    std::shared_ptr< OuPerf > perf;
    std::shared_ptr< OuEst > est;

    std::shared_ptr< OdeSolverConfiguration<VD> > cfg;
    std::shared_ptr< OdeSolverComponents<VD> > comp;
    std::shared_ptr< OutSolver > s;
    std::shared_ptr< OdeRhs<VD> > rhs;
    std::shared_ptr< OdeSolverOutputOption<VD> > out;
    Pm p, q;
    OuScene() {}
    };
void ou_make( OuScene& s, U n1, U n2, double timing, double dur, double t, const V& x )
    {
    s.cfg = std::make_shared< OdeSolverConfiguration<VD> >();
    s.s = std::make_shared< OutSolver >();
    s.rhs = std::make_shared< OutRhs >( n1, n2 );
    std::shared_ptr< OdeSolver<VD> > os = s.s;
    s.p["solver"] = os;
    s.p["rhs"] = s.rhs;
    s.p["time"] = dur;
    s.p["output_timing"] = timing;
    const_cast< OdeSolverConfiguration<VD>::ParameterProvider* >( s.cfg->parameterProvider() )->setParameters( s.p );
    s.comp = std::make_shared< OdeSolverComponents<VD> >( s.cfg->apply( std::set<U>(), t, x ) );
    }
void ou_solution( OuScene& s ) { s.out = std::make_shared< OdeSolverStepSolutionConsoleOutput<VD> >(); }
void ou_columns( OuScene& s ) { s.out = std::make_shared< OdeSolverStepSolutionColumnwiseOutput<VD> >(); }
void ou_general( OuScene& s ) { s.out = std::make_shared< OdeSolverStepGeneralConsoleOutput<VD> >(); }
void ou_stats( OuScene& s ) { s.out = std::make_shared< OdeSolverStatisticsOutput<VD> >(); }
void ou_half( OuScene& s, U n ) { s.q["size_half_lim"] = n; }
void ou_max( OuScene& s, U n ) { s.q["max_steps"] = n; }
void ou_file( OuScene& s ) { s.q["file_name"] = "out.txt"; }
void ou_begin( OuScene& s ) { s.out->setParameters( s.q ); s.out->beforeFirstStep( s.cfg.get(), s.comp.get() ); }
void ou_step( OuScene& s, double t, const V& x, double h, bool acc, bool changed, bool trunc, double err, U izf, int tt )
    {
    s.s->t = t; s.s->x = x;
    s.s->odeSolverPostObservers( OdeSolverPostObserverArg<VD>( h, acc, changed, trunc, err, izf, tt, s.s.get() ) );
    }
void ou_eval( OuScene& s, double t, const V& x ) { V d( x.size() ); s.rhs->odeRhsPreObservers( t, x, s.rhs.get() ); s.rhs->odeRhsPostObservers( t, x, d, s.rhs.get() ); }
bool ou_iter( OuScene& s, U n, double alpha )
    {
    s.newton = std::make_shared< OuNewton >();
    s.perf = std::make_shared< OuPerf >();
    s.est = std::make_shared< OuEst >();
    s.perf->alpha = alpha;
    s.perf->setErrorEstimator( s.est );
    s.newton->setIterationPerformer( s.perf );
    return s.s->iterationObservers( n, s.newton.get() );
    }
void ou_refresh( OuScene& s, bool start ) { s.s->jacobianRefreshObservers( start ); }
void ou_end( OuScene& s ) { s.out->afterSolve(); }
bool ou_silent( OuScene& s ) { return s.s->odeSolverPostObservers.empty() && s.s->iterationObservers.empty() && s.s->jacobianRefreshObservers.empty() && s.rhs->odeRhsPreObservers.empty() && s.rhs->odeRhsPostObservers.empty(); }
}
