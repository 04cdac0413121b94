// extract.cpp -- dumps the type-resolved program (post template instantiation) of /repo as JSON lines.
//
// One JSON object per line:
//   {"rec":"class",...}  {"rec":"fn",...}  {"rec":"var",...}  {"rec":"macro",...}  {"rec":"diag",...}
// Only entities whose definition lies below --root are dumped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Lexer.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;
static std::unique_ptr<llvm::raw_fd_ostream> Out;

static void emit(json::Object O) {
  *Out << json::Value(std::move(O)) << "\n";
}

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> DeclIds;
  std::map<const FunctionDecl *, std::string> FnIds;
  std::map<std::string, const FunctionDecl *> FnIdUse;
  std::set<const FunctionDecl *> DoneFns;
  std::set<const CXXRecordDecl *> DoneRecs;
  std::set<const VarDecl *> DoneVars;
  std::vector<const FunctionDecl *> Pending;

public:
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = SM.getFilename(SM.getExpansionLoc(L)).str();
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  std::string locStr(SourceLocation L) {
    if (L.isInvalid()) return "?";
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str() + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }
  int line(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int n = DeclIds.size() + 1;
    DeclIds[D] = n;
    return n;
  }
  std::string typeStr(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    std::string S = T.getAsString(PP);
    // a local class is known by its unique name
    QualType B = T.getNonReferenceType();
    while (B->isPointerType()) B = B->getPointeeType();
    auto *R = B->getAsCXXRecordDecl();
    if (R && R->isLocalClass() && !R->isLambda()) {
      std::string N = C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
      auto at = S.find(N);
      if (at != std::string::npos) S.replace(at, N.size(), recName(R));
    }
    return S;
  }
  std::string recName(const CXXRecordDecl *R) {
    if (!R) return "";
    if (R->isLambda()) {
      std::string S = "lambda@" + locStr(R->getLocation()) + ":" + std::to_string(SM.getExpansionColumnNumber(R->getLocation()));
      const DeclContext *DC = R->getDeclContext();
      while (DC && !isa<FunctionDecl>(DC) && !DC->isTranslationUnit()) {
        if (auto *PR = dyn_cast<CXXRecordDecl>(DC)) { S += "{" + recName(PR) + "}"; break; }
        DC = DC->getParent();
      }
      if (DC) if (auto *F = dyn_cast<FunctionDecl>(DC)) S += "{" + fnId(F) + "}";
      return S;
    }
    std::string S = C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
    if (S.find("(unnamed") != std::string::npos || S.find("(anonymous") != std::string::npos)
      S += "@" + locStr(R->getLocation());
    // local classes: make unique
    if (auto *F = R->isLocalClass()) S += "@" + locStr(R->getLocation()) + "{" + fnId(F) + "}";
    return S;
  }
  // the name of the pattern, without template arguments
  std::string tmplName(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    const DeclContext *DC = D->getDeclContext();
    std::vector<std::string> parts;
    parts.push_back(D->getNameAsString());
    while (DC && !DC->isTranslationUnit()) {
      if (auto *ND = dyn_cast<NamedDecl>(DC)) {
        if (isa<NamespaceDecl>(ND) || isa<RecordDecl>(ND) || isa<EnumDecl>(ND) || isa<FunctionDecl>(ND)) {
          if (auto *NS = dyn_cast<NamespaceDecl>(ND); !(NS && NS->isInline()))
            parts.push_back(ND->getNameAsString());
        }
      }
      DC = DC->getParent();
    }
    for (int i = parts.size() - 1; i >= 0; --i) { S += parts[i]; if (i) S += "::"; }
    return S;
  }
  std::string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = FnIds.find(F);
    if (it != FnIds.end()) return it->second;
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      OS << recName(M->getParent()) << "::";
      if (isa<CXXConstructorDecl>(M)) OS << "#ctor";
      else if (isa<CXXDestructorDecl>(M)) OS << "#dtor";
      else if (auto *Conv = dyn_cast<CXXConversionDecl>(M)) OS << "operator " << typeStr(Conv->getConversionType());
      else OS << M->getNameAsString();
    } else
      OS << tmplName(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      OS << "<";
      for (unsigned i = 0; i < TA->size(); ++i) { if (i) OS << ","; TA->get(i).print(PP, OS, true); }
      OS << ">";
    }
    OS << "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) { if (i) OS << ","; OS << typeStr(F->getParamDecl(i)->getType()); }
    OS << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isConst()) OS << "c"; if(M->getRefQualifier()==RQ_RValue) OS << "&&"; }
    OS.flush();
    auto u = FnIdUse.find(S);
    if (u != FnIdUse.end() && u->second != F) S += "#" + std::to_string(declId(F));
    FnIdUse[S] = F;
    FnIds[F] = S;
    return S;
  }

  // ---------------------------------------------------------------- classes
  void dumpRecord(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || R->isDependentContext()) return;
    if (!DoneRecs.insert(R).second) return;
    if (R->isInvalidDecl()) return;
    json::Object O;
    O["rec"] = "class";
    O["name"] = recName(R);
    O["tmpl"] = tmplName(R);
    O["loc"] = locStr(R->getLocation());
    O["inroot"] = inRoot(R->getLocation());
    O["lambda"] = R->isLambda();
    O["union"] = R->isUnion();
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      json::Array A;
      for (auto &TA : S->getTemplateArgs().asArray()) {
        std::string T; llvm::raw_string_ostream OS(T); TA.print(PP, OS, true); A.push_back(T);
      }
      O["targs"] = std::move(A);
    }
    json::Array Bases;
    for (auto &B : R->bases()) {
      json::Object BO;
      auto *BR = B.getType()->getAsCXXRecordDecl();
      BO["name"] = BR ? recName(BR) : typeStr(B.getType());
      BO["tmpl"] = BR ? tmplName(BR) : "";
      BO["access"] = (int)B.getAccessSpecifier();
      BO["virtual"] = B.isVirtual();
      Bases.push_back(std::move(BO));
    }
    O["bases"] = std::move(Bases);
    json::Array Fields;
    for (auto *F : R->fields()) {
      json::Object FO;
      FO["name"] = F->getNameAsString();
      FO["type"] = typeStr(F->getType());
      FO["line"] = line(F->getLocation());
      FO["mutable"] = F->isMutable();
      FO["access"] = (int)F->getAccess();
      FO["scalar"] = F->getType()->isScalarType();
      if (F->hasInClassInitializer() && F->getInClassInitializer()) FO["init"] = expr(F->getInClassInitializer());
      FO["hasinit"] = F->hasInClassInitializer();
      Fields.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fields);
    O["abstract"] = R->isAbstract();
    O["poly"] = R->isPolymorphic();
    O["vdtor"] = R->getDestructor() ? R->getDestructor()->isVirtual() : false;
    O["copyctor_deleted"] = R->defaultedCopyConstructorIsDeleted();
    json::Array Ms;
    for (auto *M : R->methods()) {
      json::Object MO;
      MO["id"] = fnId(M);
      MO["name"] = M->getNameAsString();
      MO["virtual"] = M->isVirtual();
      MO["pure"] = M->isPureVirtual();
      MO["deleted"] = M->isDeleted();
      MO["implicit"] = M->isImplicit();
      MO["static"] = M->isStatic();
      MO["const"] = M->isConst();
      MO["access"] = (int)M->getAccess();
      MO["ctor"] = isa<CXXConstructorDecl>(M);
      MO["dtor"] = isa<CXXDestructorDecl>(M);
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(fnId(B));
      MO["overrides"] = std::move(Ov);
      Ms.push_back(std::move(MO));
    }
    O["methods"] = std::move(Ms);
    emit(std::move(O));
    // force dumping of bodies that the visitor reaches only through the pattern
    for (auto *M : R->methods()) noteFn(M);
  }

  void noteFn(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def) Pending.push_back(Def);
  }

  // ---------------------------------------------------------------- functions
  void dumpFn(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def) return;
    F = Def;
    if (!inRoot(F->getLocation())) {
        return;
    }
    if (F->isInvalidDecl()) return;
    if (!DoneFns.insert(F->getCanonicalDecl()).second) return;
    json::Object O;
    O["rec"] = "fn";
    O["id"] = fnId(F);
    O["name"] = F->getNameAsString();
    O["tmpl"] = tmplName(F);
    O["loc"] = locStr(F->getLocation());
    O["endline"] = line(F->getEndLoc());
    O["ret"] = typeStr(F->getReturnType());
    O["retref"] = F->getReturnType()->isReferenceType();
    O["implicit"] = F->isImplicit() || F->isDefaulted();
    O["inline"] = F->isInlined();
    O["linkage"] = (int)F->getFormalLinkage();
    O["istmplinst"] = F->isTemplateInstantiation();
    O["static"] = F->getStorageClass() == SC_Static;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["ctmpl"] = tmplName(M->getParent());
      O["virtual"] = M->isVirtual();
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      O["access"] = (int)M->getAccess();
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(fnId(B));
      O["overrides"] = std::move(Ov);
      O["ctor"] = isa<CXXConstructorDecl>(M);
      O["dtor"] = isa<CXXDestructorDecl>(M);
      if (isa<CXXConstructorDecl>(M)) {
        auto *CD = cast<CXXConstructorDecl>(M);
        O["copy"] = CD->isCopyConstructor();
        O["move"] = CD->isMoveConstructor();
      } else {
        O["copy"] = M->isCopyAssignmentOperator();
        O["move"] = M->isMoveAssignmentOperator();
      }
    }
    json::Array Ps;
    for (auto *P : F->parameters()) {
      json::Object PO;
      PO["id"] = declId(P);
      PO["n"] = P->getNameAsString();
      PO["t"] = typeStr(P->getType());
      PO["ref"] = P->getType()->isReferenceType();
      if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg()) { PO["def"] = true; PO["dv"] = expr(P->getDefaultArg()); }
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array Is;
      for (auto *I : CD->inits()) {
        json::Object IO;
        IO["line"] = line(I->getSourceLocation());
        IO["written"] = I->isWritten();
        if (I->isAnyMemberInitializer()) { IO["field"] = I->getAnyMember()->getNameAsString(); IO["ft"] = typeStr(I->getAnyMember()->getType()); }
        else if (I->isBaseInitializer()) {
          auto *BR = I->getBaseClass()->getAsCXXRecordDecl();
          IO["base"] = BR ? recName(BR) : "?";
        } else if (I->isDelegatingInitializer()) IO["delegating"] = true;
        IO["init"] = expr(I->getInit());
        Is.push_back(std::move(IO));
      }
      O["inits"] = std::move(Is);
    }
    O["body"] = stmt(F->getBody());
    emit(std::move(O));
  }

  // ---------------------------------------------------------------- statements
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object O;
    O["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block";
      json::Array A;
      for (auto *B : X->body()) A.push_back(stmt(B));
      O["b"] = std::move(A);
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      json::Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
        else if (auto *R = dyn_cast<CXXRecordDecl>(D)) dumpRecord(R);
      O["v"] = std::move(A);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (auto *CV = X->getConditionVariable()) O["cv"] = var(CV);
      O["c"] = expr(X->getCond());
      O["t"] = stmt(X->getThen());
      if (X->getElse()) O["e"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      if (auto *CV = X->getConditionVariable()) O["cv"] = var(CV);
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "do";
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (auto *CV = X->getConditionVariable()) O["cv"] = var(CV);
      if (X->getCond()) O["c"] = expr(X->getCond());
      if (X->getInc()) O["inc"] = expr(X->getInc());
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rfor";
      O["r"] = expr(X->getRangeInit());
      O["v"] = var(X->getLoopVariable());
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "ret";
      if (X->getRetValue()) O["e"] = expr(X->getRetValue());
    } else if (isa<BreakStmt>(S)) O["k"] = "brk";
    else if (isa<ContinueStmt>(S)) O["k"] = "cont";
    else if (isa<NullStmt>(S)) O["k"] = "null";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      if (auto *CV = X->getConditionVariable()) O["cv"] = var(CV);
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      O["v"] = expr(X->getLHS());
      if (X->getRHS()) O["v2"] = expr(X->getRHS());
      O["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default";
      O["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try";
      O["b"] = stmt(X->getTryBlock());
      json::Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i);
        json::Object HO;
        HO["l"] = line(H->getBeginLoc());
        if (H->getExceptionDecl()) { HO["v"] = var(H->getExceptionDecl()); HO["t"] = typeStr(H->getCaughtType()); }
        HO["b"] = stmt(H->getHandlerBlock());
        A.push_back(std::move(HO));
      }
      O["h"] = std::move(A);
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      O["k"] = "label"; O["n"] = X->getDecl()->getNameAsString(); O["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<GotoStmt>(S)) {
      O["k"] = "goto"; O["n"] = X->getLabel()->getNameAsString();
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<Expr>(S)) {
      O["k"] = "expr";
      O["e"] = expr(X);
    } else {
      O["k"] = "unkstmt";
      O["cls"] = S->getStmtClassName();
    }
    return O;
  }
  json::Value var(const VarDecl *V) {
    json::Object O;
    O["id"] = declId(V);
    O["n"] = V->getNameAsString();
    O["t"] = typeStr(V->getType());
    O["ref"] = V->getType()->isReferenceType();
    O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getInit()) O["init"] = expr(V->getInit());
    if (auto *R = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) maybeRec(R);
    return O;
  }
  void maybeRec(const CXXRecordDecl *R) {
    if (R && R->hasDefinition()) { if (inRoot(R->getLocation())) dumpRecord(R); }
  }

  // ---------------------------------------------------------------- expressions
  std::string spelling(const Expr *E) {
    SourceLocation B = SM.getSpellingLoc(E->getBeginLoc());
    bool Inv = false;
    unsigned Len = Lexer::MeasureTokenLength(B, SM, C.getLangOpts());
    const char *P = SM.getCharacterData(B, &Inv);
    if (Inv) return "";
    return std::string(P, Len);
  }
  json::Value mk(const char *K, const Expr *E, json::Object O) {
    O["k"] = K;
    if (!O.get("t")) O["t"] = typeStr(E->getType());
    O["l"] = line(E->getExprLoc());
    return O;
  }
  json::Array args(const Expr *const *A, unsigned N) {
    json::Array R;
    for (unsigned i = 0; i < N; ++i) R.push_back(expr(A[i]));
    return R;
  }
  void fnInfo(json::Object &O, const FunctionDecl *F) {
    O["fn"] = fnId(F);
    O["n"] = F->getNameAsString();
    O["q"] = tmplName(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) O["virt"] = true;
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["smeth"] = true;
      O["cls"] = recName(M->getParent());
      maybeRec(M->getParent());
      if (M->isTrivial() && (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator())) O["memcopy"] = true;
      if (M->isDefaulted()) O["defaulted"] = true;
    }
    if (F->isNoReturn()) O["noret"] = true;
    if (F->getReturnType()->isReferenceType()) O["rr"] = F->getReturnType()->getPointeeType().isConstQualified() ? 1 : 2;
    // which reference/pointer params are non-const
    json::Array PT;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      int m = 0;
      if (T->isReferenceType()) { m = T->getPointeeType().isConstQualified() ? 1 : 2; if (T->isRValueReferenceType()) m = 3; }
      else if (T->isPointerType()) m = T->getPointeeType().isConstQualified() ? 4 : 5;
      PT.push_back(m);
    }
    O["pm"] = std::move(PT);
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && !F->isDependentContext()) Pending.push_back(Def);
  }
  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { auto V = expr(X->getExpr()); if (auto *O = V.getAsObject()) (*O)["defarg"] = true; return V; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return X->getSourceExpr() ? expr(X->getSourceExpr()) : mk("unk", E, {});
    if (auto *X = dyn_cast<GenericSelectionExpr>(E)) return expr(X->getResultExpr());
    if (auto *X = dyn_cast<ChooseExpr>(E)) return expr(X->getChosenSubExpr());

    json::Object O;
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      llvm::SmallString<32> S; X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
      O["v"] = std::string(S); O["lk"] = "i"; return mk("lit", E, std::move(O));
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["v"] = spelling(E); O["lk"] = "f";
      llvm::SmallString<64> S; X->getValue().toString(S, 30); O["v2"] = std::string(S);
      return mk("lit", E, std::move(O));
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["v"] = X->getValue(); O["lk"] = "b"; return mk("lit", E, std::move(O)); }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["v"] = (int64_t)X->getValue(); O["lk"] = "c"; return mk("lit", E, std::move(O)); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["v"] = nullptr; O["lk"] = "n"; return mk("lit", E, std::move(O)); }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      if (X->getCharByteWidth() == 1) O["v"] = json::fixUTF8(X->getString()); else O["v"] = "?";
      O["lk"] = "s"; return mk("lit", E, std::move(O));
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { O["v"] = "__func__"; O["lk"] = "s"; (void)X; return mk("lit", E, std::move(O)); }
    if (isa<CXXThisExpr>(E)) return mk("this", E, std::move(O));
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      O["n"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        llvm::SmallString<32> S; EC->getInitVal().toString(S, 10);
        O["v"] = std::string(S); O["lk"] = "e"; O["q"] = tmplName(EC);
        return mk("lit", E, std::move(O));
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { fnInfo(O, F); return mk("fnref", E, std::move(O)); }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        O["id"] = declId(V);
        O["ref"] = V->getType()->isReferenceType();
        if (V->hasGlobalStorage()) {
          O["g"] = tmplName(V); O["gconst"] = V->getType().isConstQualified();
          Expr::EvalResult R;
          if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && !E->isValueDependent() && V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent()) {
            if (!E->isValueDependent() && V->mightBeUsableInConstantExpressions(C)) if (E->EvaluateAsInt(R, C)) { llvm::SmallString<32> S; R.Val.getInt().toString(S, 10); O["cv"] = std::string(S); }
          }
          if (V->getAnyInitializer() && V->getType().isConstQualified() && !V->getAnyInitializer()->isValueDependent() && inRoot(V->getLocation())) O["ginit"] = expr(V->getAnyInitializer());
        }
        return mk("var", E, std::move(O));
      }
      O["id"] = declId(D);
      return mk("var", E, std::move(O));
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      O["b"] = expr(X->getBase());
      O["arrow"] = X->isArrow();
      auto *D = X->getMemberDecl();
      O["f"] = D->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        O["fc"] = recName(dyn_cast<CXXRecordDecl>(FD->getParent()));
        if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent())) maybeRec(R);
        O["fref"] = FD->getType()->isReferenceType();
        O["mut"] = FD->isMutable();
        return mk("mem", E, std::move(O));
      }
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) { fnInfo(O, M); return mk("memfn", E, std::move(O)); }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        O["id"] = declId(V); O["g"] = tmplName(V); O["n"] = D->getNameAsString(); O["gconst"] = V->getType().isConstQualified();
        Expr::EvalResult R; if (V->getType().isConstQualified() && V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent()) if (!E->isValueDependent() && V->mightBeUsableInConstantExpressions(C)) if (E->EvaluateAsInt(R, C)) { llvm::SmallString<32> S; R.Val.getInt().toString(S, 10); O["cv"] = std::string(S); }
        return mk("var", E, std::move(O));
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        llvm::SmallString<32> S; EC->getInitVal().toString(S, 10);
        O["v"] = std::string(S); O["lk"] = "e"; O["q"] = tmplName(EC);
        return mk("lit", E, std::move(O));
      }
      return mk("unk", E, std::move(O));
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = X->getDirectCallee();
      if (F) {
        fnInfo(O, F);
        O["op"] = getOperatorSpelling(X->getOperator());
        unsigned i = 0;
        if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) { O["o"] = expr(X->getArg(0)); i = 1; O["arrow"] = false; }
        json::Array A;
        for (; i < X->getNumArgs(); ++i) A.push_back(expr(X->getArg(i)));
        O["a"] = std::move(A);
        return mk("call", E, std::move(O));
      }
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = X->getMethodDecl();
      if (M) {
        fnInfo(O, M);
        auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
        O["o"] = expr(X->getImplicitObjectArgument());
        O["arrow"] = ME ? ME->isArrow() : false;
        // a qualified call (Base::f()) is not dispatched dynamically
        if (ME && ME->hasQualifier()) O["qual"] = true;
        O["a"] = args(X->getArgs(), X->getNumArgs());
        return mk("call", E, std::move(O));
      }
      // pointer-to-member call
      O["callee"] = expr(X->getCallee());
      O["a"] = args(X->getArgs(), X->getNumArgs());
      return mk("pmcall", E, std::move(O));
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      if (auto *F = X->getDirectCallee()) {
        fnInfo(O, F);
        O["a"] = args(X->getArgs(), X->getNumArgs());
        return mk("call", E, std::move(O));
      }
      if (isa<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens())) return mk("pdtor", E, std::move(O));
      O["callee"] = expr(X->getCallee());
      O["a"] = args(X->getArgs(), X->getNumArgs());
      return mk("icall", E, std::move(O));
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      fnInfo(O, X->getConstructor());
      O["cls"] = recName(X->getConstructor()->getParent());
      O["ct"] = tmplName(X->getConstructor()->getParent());
      maybeRec(X->getConstructor()->getParent());
      O["a"] = args(X->getArgs(), X->getNumArgs());
      O["elide"] = X->isElidable();
      O["copy"] = X->getConstructor()->isCopyOrMoveConstructor();
      O["list"] = X->isListInitialization();
      O["silist"] = X->isStdInitListInitialization();
      O["defaulted"] = X->getConstructor()->isDefaulted();
      return mk("ctor", E, std::move(O));
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      fnInfo(O, X->getConstructor());
      O["a"] = json::Array();
      return mk("ctor", E, std::move(O));
    }
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
      return castExpr(X);
    }
    if (auto *X = dyn_cast<CastExpr>(E)) return castExpr(X);
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      // &Class::method
      O["e"] = expr(X->getSubExpr());
      return mk("un", E, std::move(O));
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) O["ct"] = typeStr(CA->getComputationResultType());
      return mk("bin", E, std::move(O));
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr());
      return mk("cond", E, std::move(O));
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["b"] = expr(X->getBase()); O["i"] = expr(X->getIdx());
      return mk("idx", E, std::move(O));
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto *L = X->getLambdaClass();
      O["cls"] = recName(L);
      auto *Op = X->getCallOperator();
      json::Array Cs;
      auto CI = X->capture_init_begin();
      for (auto &Cap : X->captures()) {
        json::Object CO;
        if (Cap.capturesThis()) CO["this"] = true;
        else if (Cap.capturesVariable()) {
          CO["id"] = declId(Cap.getCapturedVar());
          CO["n"] = Cap.getCapturedVar()->getNameAsString();
          CO["byref"] = Cap.getCaptureKind() == LCK_ByRef;
          CO["init"] = expr(*CI);
        }
        ++CI;
        Cs.push_back(std::move(CO));
      }
      O["caps"] = std::move(Cs);
      if (!Op->getDescribedFunctionTemplate()) {
        O["fn"] = fnId(Op);
        Pending.push_back(Op);
      } else {
        json::Array Sp;
        for (auto *S : Op->getDescribedFunctionTemplate()->specializations()) { Sp.push_back(fnId(S)); noteFn(S); }
        O["generic"] = std::move(Sp);
      }
      return mk("lambda", E, std::move(O));
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      if (X->getSubExpr()) { O["e"] = expr(X->getSubExpr()); O["tt"] = typeStr(X->getSubExpr()->getType()); }
      return mk("throw", E, std::move(O));
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["at"] = typeStr(X->getAllocatedType());
      O["arr"] = X->isArray();
      if (X->getInitializer()) O["init"] = expr(X->getInitializer());
      return mk("new", E, std::move(O));
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["e"] = expr(X->getArgument()); O["dt"] = typeStr(X->getDestroyedType()); return mk("delete", E, std::move(O)); }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      auto *SX = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      json::Array A;
      for (auto *I : SX->inits()) A.push_back(expr(I));
      O["a"] = std::move(A);
      if (auto *R = X->getType()->getAsCXXRecordDecl()) { O["cls"] = recName(R); maybeRec(R); }
      if (auto *AT = C.getAsConstantArrayType(X->getType())) O["asize"] = (int64_t)AT->getSize().getZExtValue();
      return mk("ilist", E, std::move(O));
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("zero", E, std::move(O));
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) { llvm::SmallString<32> S; R.Val.getInt().toString(S, 10); O["v"] = std::string(S); O["lk"] = "i"; return mk("lit", E, std::move(O)); }
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      if (X->isTypeOperand()) O["ty"] = typeStr(X->getTypeOperand(C)); else O["e"] = expr(X->getExprOperand());
      return mk("typeid", E, std::move(O));
    }
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) { O["v"] = X->getValue(); O["lk"] = "b"; return mk("lit", E, std::move(O)); }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { if(!X->isValueDependent()){ O["v"] = X->getValue(); O["lk"] = "b"; return mk("lit", E, std::move(O)); } }
    O["cls"] = E->getStmtClassName();
    json::Array A;
    for (auto *Ch : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(Ch)) A.push_back(expr(CE));
    O["a"] = std::move(A);
    return mk("unk", E, std::move(O));
  }
  json::Value castExpr(const CastExpr *X) {
    // constructor / user conversions: the sub-expression already is the ctor call / conversion call
    auto K = X->getCastKind();
    json::Object O;
    switch (K) {
    case CK_NoOp: {
      if (isa<ExplicitCastExpr>(X)) break;
      return expr(X->getSubExpr());
    }
    case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_ArrayToPointerDecay:
    case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
      return expr(X->getSubExpr());
    case CK_LValueToRValue: {
      json::Object L; L["k"] = "rv"; L["e"] = expr(X->getSubExpr()); L["t"] = typeStr(X->getType()); L["l"] = line(X->getExprLoc());
      return L;
    }
    default: break;
    }
    O["ck"] = X->getCastKindName();
    O["e"] = expr(X->getSubExpr());
    if (auto *EC = dyn_cast<ExplicitCastExpr>(X)) {
      O["ex"] = true;
      if (isa<CXXConstCastExpr>(X)) O["cc"] = "const_cast";
      else if (isa<CXXReinterpretCastExpr>(X)) O["cc"] = "reinterpret_cast";
      else if (isa<CXXDynamicCastExpr>(X)) O["cc"] = "dynamic_cast";
      else if (isa<CXXStaticCastExpr>(X)) O["cc"] = "static_cast";
      else if (isa<CStyleCastExpr>(X)) O["cc"] = "c";
      else O["cc"] = "fn";
      O["tw"] = typeStr(EC->getTypeAsWritten());
    }
    O["st"] = typeStr(X->getSubExpr()->getType());
    return mk("cast", X, std::move(O));
  }

  // ---------------------------------------------------------------- visitors
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && inRoot(R->getLocation())) dumpRecord(R);
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && inRoot(F->getLocation())) dumpFn(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || !inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (isa<ParmVarDecl>(V)) return true;
    if (!DoneVars.insert(V->getCanonicalDecl()).second) return true;
    json::Object O;
    O["rec"] = "var";
    O["id"] = declId(V);
    O["n"] = V->getNameAsString();
    O["q"] = tmplName(V);
    O["t"] = typeStr(V->getType());
    O["const"] = V->getType().isConstQualified();
    O["constexpr"] = V->isConstexpr();
    O["loc"] = locStr(V->getLocation());
    O["local"] = V->isStaticLocal();
    O["member"] = V->isStaticDataMember();
    O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    O["linkage"] = (int)V->getFormalLinkage();
    O["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    O["inst"] = V->getTemplateInstantiationPattern() != nullptr || (V->isStaticDataMember() && isa<ClassTemplateSpecializationDecl>(V->getDeclContext()));
    O["inline"] = V->isInline();
    if (auto *F = dyn_cast<FunctionDecl>(V->getDeclContext())) O["infn"] = fnId(F);
    if (V->getAnyInitializer()) O["init"] = expr(V->getAnyInitializer());
    emit(std::move(O));
    return true;
  }
  void drain() {
    while (!Pending.empty()) {
      auto *F = Pending.back();
      Pending.pop_back();
      dumpFn(F);
    }
  }
};

// Instantiate the remaining member functions of the implicit class template instantiations of the analysed code, so
// that members which nothing in the unit happens to call are analysed too.
class Instantiator : public RecursiveASTVisitor<Instantiator> {
public:
  std::vector<ClassTemplateSpecializationDecl*> Specs;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl *D) {
    if (D->getSpecializationKind() != TSK_ImplicitInstantiation || !D->hasDefinition()) return true;
    std::string Q = D->getQualifiedNameAsString();
    if (Q.compare(0, 5, "ctm::") != 0) return true;
    for (const TemplateArgument &A : D->getTemplateArgs().asArray()) {
      if (A.getKind() != TemplateArgument::Type) return true;
      std::string T = A.getAsType().getAsString();
      if (T.find("Proxy") != std::string::npos || T.find("const") != std::string::npos || T.find("function") != std::string::npos) return true;
    }
    Specs.push_back(D);
    return true;
  }
};

class Consumer : public SemaConsumer {
  Sema *S = nullptr;
public:
  void InitializeSema(Sema &Sm) override { S = &Sm; }
  void ForgetSema() override { S = nullptr; }
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    if (S) {
      C.getDiagnostics().setSuppressAllDiagnostics(true);
      std::set<ClassTemplateSpecializationDecl*> Done;
      for (int Round = 0; Round < 3; ++Round) {
        Instantiator V; V.TraverseDecl(C.getTranslationUnitDecl());
        bool Any = false;
        for (auto *D : V.Specs) {
          if (!Done.insert(D).second) continue;
          Any = true;
          std::vector<CXXMethodDecl*> Ms;
          for (Decl *X : D->decls()) if (auto *M = dyn_cast<CXXMethodDecl>(X)) Ms.push_back(M);
          for (auto *M : Ms) {
            if (M->isDeleted() || M->isDefaulted() || M->doesThisDeclarationHaveABody() || M->isDependentContext()) continue;
            const FunctionDecl *Pat = M->getTemplateInstantiationPattern();
            if (!Pat || !Pat->hasBody()) continue;
            S->InstantiateFunctionDefinition(D->getLocation(), M, true, false);
          }
        }
        S->PerformPendingInstantiations();
        if (!Any) break;
      }
      C.getDiagnostics().setSuppressAllDiagnostics(false);
    }
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
  }
};

// macro expansions (ASSERT / VERIFY) with argument text range
class MacroCB : public PPCallbacks {
  SourceManager &SM;
  const LangOptions &LO;
public:
  MacroCB(SourceManager &SM, const LangOptions &LO) : SM(SM), LO(LO) {}
  void MacroExpands(const Token &T, const MacroDefinition &MD, SourceRange R, const MacroArgs *) override {
    auto *II = T.getIdentifierInfo();
    if (!II) return;
    StringRef N = II->getName();
    if (N != "ASSERT" && N != "VERIFY" && N != "assert") return;
    auto L = SM.getExpansionLoc(R.getBegin());
    std::string F = SM.getFilename(L).str();
    bool In = false;
    for (auto &Rt : Roots) if (F.compare(0, Rt.size(), Rt) == 0) In = true;
    if (!In) return;
    json::Object O;
    O["rec"] = "macro"; O["n"] = N.str();
    O["loc"] = F + ":" + std::to_string(SM.getExpansionLineNumber(L));
    emit(std::move(O));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getPreprocessor().addPPCallbacks(std::make_unique<MacroCB>(CI.getSourceManager(), CI.getLangOpts()));
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char **argv) {
  // extract OUT ROOT[,ROOT...] FILE -- flags
  if (argc < 5) { llvm::errs() << "usage: extract OUT ROOTS FILE -- flags...\n"; return 2; }
  OutPath = argv[1];
  {
    std::string R = argv[2], cur;
    for (char ch : R + ",") if (ch == ',') { if (!cur.empty()) Roots.push_back(cur); cur.clear(); } else cur += ch;
  }
  std::string File = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  std::error_code EC;
  Out = std::make_unique<llvm::raw_fd_ostream>(OutPath, EC);
  if (EC) { llvm::errs() << "cannot write " << OutPath << "\n"; return 2; }
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  Out->flush();
  return rc;
}
