// sqfacts: dumps the type-checked program (AST + CFG of every function defined
// under <root>/SeQuant, class layouts, enums, globals) as JSON lines.
//
// usage: sqfacts OUT.jsonl REPO_ROOT -- file.cpp <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace clang;
namespace J = llvm::json;

static std::string gRoot;     // e.g. /repo
static std::string gOut;
static std::string gSrcDir;   // gRoot + /SeQuant/
static unsigned gErrors = 0;

static std::string utf8(llvm::StringRef s) { return J::fixUTF8(s); }

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  llvm::raw_ostream &OS;
  PrintingPolicy PP;
  llvm::DenseMap<const Decl *, int> declId;
  std::unordered_map<const void *, int> typeId;
  std::unordered_map<std::string, int> typeStr;
  std::unordered_set<std::string> seenFn;
  std::deque<const FunctionDecl *> queue;
  std::unordered_set<const FunctionDecl *> queued;
  std::unordered_set<const CXXRecordDecl *> seenCls;
  std::unordered_set<const Decl *> seenMisc;

  Dumper(ASTContext &c, llvm::raw_ostream &os)
      : C(c), SM(c.getSourceManager()), OS(os), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = false;
    PP.Bool = true;
    PP.TerseOutput = true;
    PP.SuppressInitializers = true;
    PP.AnonymousTagLocations = true;
  }

  // ---------------------------------------------------------------- locations
  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> f(P.getFilename());
    return std::string(f);
  }
  unsigned lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  unsigned colOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionColumnNumber(L);
  }
  llvm::DenseMap<FileID, bool> inRepoCache;
  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = inRepoCache.find(F);
    if (it != inRepoCache.end()) return it->second;
    std::string f = fileOf(L);
    bool r = f.rfind(gSrcDir, 0) == 0 &&
             f.rfind(gSrcDir + "external/", 0) != 0;
    inRepoCache[F] = r;
    return r;
  }
  std::string rel(const std::string &f) {
    if (f.rfind(gRoot + "/", 0) == 0) return f.substr(gRoot.size() + 1);
    return f;
  }
  bool inAssert(SourceLocation L) {
    while (L.isMacroID()) {
      llvm::StringRef n = Lexer::getImmediateMacroName(L, SM, C.getLangOpts());
      if (n == "SEQUANT_ASSERT" || n == "assert") return true;
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return false;
  }

  // -------------------------------------------------------------------- types
  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    void *key = T.getAsOpaquePtr();
    auto it = typeId.find(key);
    if (it != typeId.end()) return it->second;
    // flags
    J::Object o;
    QualType B = T;
    std::string flags;
    if (B->isLValueReferenceType()) flags += "&";
    if (B->isRValueReferenceType()) flags += "R";
    if (B->isReferenceType()) B = B->getPointeeType();
    if (B.isConstQualified()) flags += "c";
    if (B->isPointerType()) flags += "*";
    QualType P = B;
    if (B->isPointerType()) {
      P = B->getPointeeType();
      if (P.isConstQualified()) flags += "k";
    }
    if (B->isIntegerType() || B->isEnumeralType()) flags += "i";
    if (B->isRealFloatingType()) flags += "f";
    if (B->isBooleanType()) flags += "b";
    if (B->isEnumeralType()) flags += "e";
    if (T->isDependentType()) flags += "D";
    std::string s = T.getAsString(PP);
    if (s.size() > 400) s = s.substr(0, 400) + "…";
    o["s"] = utf8(s);
    if (!flags.empty()) o["f"] = flags;
    int id = (int)typeId.size();
    typeId[key] = id;
    if (auto *ET = P->getAs<EnumType>())
      o["r"] = utf8(qual(ET->getDecl()));
    if (B->isIntegerType() && !B->isDependentType() && !B->isIncompleteType())
      o["w"] = (int64_t)C.getTypeSize(B);
    if (auto *RD = P->getAsCXXRecordDecl()) {
      o["r"] = utf8(qual(RD));
      if (RD->isLambda()) {
        if (auto *m = RD->getLambdaCallOperator()) o["lam"] = fnKey(m);
      }
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        J::Array a;
        int n = 0;
        for (auto &A : S->getTemplateArgs().asArray()) {
          if (n++ >= 3) break;
          if (A.getKind() == TemplateArgument::Type)
            a.push_back(type(A.getAsType()));
          else if (A.getKind() == TemplateArgument::Pack) {
            for (auto &X : A.pack_elements())
              if (X.getKind() == TemplateArgument::Type) {
                a.push_back(type(X.getAsType()));
                if (++n >= 4) break;
              }
          } else
            a.push_back(-1);
        }
        o["a"] = std::move(a);
      }
    } else if (auto *TST = P->getAs<TemplateSpecializationType>()) {
      if (auto *TD = TST->getTemplateName().getAsTemplateDecl())
        o["r"] = utf8(TD->getQualifiedNameAsString());
    } else if (auto *ICN = P->getAs<InjectedClassNameType>()) {
      o["r"] = utf8(qual(ICN->getDecl()));
    }
    o["K"] = "type";
    o["i"] = id;
    OS << J::Value(std::move(o)) << "\n";
    return id;
  }

  std::string qual(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os);
    os.flush();
    return s;
  }

  std::string usr(const Decl *D) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(D, b)) return "";
    return std::string(b);
  }
  std::string locKey(const Decl *D) {
    return rel(fileOf(D->getLocation())) + ":" +
           std::to_string(lineOf(D->getLocation())) + ":" +
           std::to_string(colOf(D->getLocation()));
  }
  std::string fnKey(const FunctionDecl *F) {
    std::string u = usr(F);
    bool lam = false;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) lam = true;
    if (u.empty() || lam || F->getParentFunctionOrMethod())
      u += "@" + locKey(F);
    if (!F->isExternallyVisible() && u.find('@') == std::string::npos)
      u += "@" + rel(fileOf(F->getLocation()));
    return u;
  }

  // -------------------------------------------------------------------- decls
  int decl(const NamedDecl *D) {
    if (!D) return -1;
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      if (auto *Can = F->getCanonicalDecl()) D = Can;
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->getPreviousDecl()) D = V->getCanonicalDecl();
    }
    auto it = declId.find(D);
    if (it != declId.end()) return it->second;
    int id = (int)declId.size();
    declId[D] = id;
    J::Object o;
    o["K"] = "decl";
    o["i"] = id;
    o["n"] = utf8(D->getNameAsString());
    if (D->getLocation().isValid()) {
      o["f"] = utf8(rel(fileOf(D->getLocation())));
      o["l"] = lineOf(D->getLocation());
    }
    if (inRepo(D->getLocation())) o["repo"] = 1;
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      o["k"] = "func";
      o["u"] = utf8(fnKey(F));
      o["q"] = utf8(qual(F));
      o["t"] = type(F->getReturnType());
      J::Array ps;
      for (auto *p : F->parameters()) ps.push_back(type(p->getType()));
      o["p"] = std::move(ps);
      J::Array pn;
      if (inRepo(D->getLocation())) {
        for (auto *p : F->parameters()) pn.push_back(utf8(p->getNameAsString()));
        o["pn"] = std::move(pn);
      }
      if (F->isNoReturn()) o["nr"] = 1;
      if (!F->isDependentContext())
        if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
          if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) &&
              !FPT->hasDependentExceptionSpec() && FPT->isNothrow())
            o["nx"] = 1;
      if (F->hasAttr<WarnUnusedResultAttr>()) o["nd"] = 1;
      if (F->isOverloadedOperator())
        o["op"] = getOperatorSpelling(F->getOverloadedOperator());
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        o["k"] = "method";
        o["c"] = utf8(qual(M->getParent()));
        if (M->isStatic()) o["st"] = 1;
        if (M->isConst()) o["co"] = 1;
        if (M->isVirtual()) o["vi"] = 1;
        if (M->getRefQualifier() == RQ_RValue) o["rv"] = 1;
        if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
          o["k"] = "ctor";
          if (K->isCopyConstructor()) o["ck"] = "copy";
          else if (K->isMoveConstructor()) o["ck"] = "move";
          else if (K->isDefaultConstructor()) o["ck"] = "default";
        } else if (isa<CXXDestructorDecl>(M))
          o["k"] = "dtor";
        else if (isa<CXXConversionDecl>(M))
          o["k"] = "conv";
        if (M->isCopyAssignmentOperator()) o["ck"] = "copy=";
        if (M->isMoveAssignmentOperator()) o["ck"] = "move=";
        if (M->getParent()->isLambda()) o["lam"] = 1;
      }
    } else if (auto *FD = dyn_cast<FieldDecl>(D)) {
      o["k"] = "field";
      o["c"] = utf8(qual(FD->getParent()));
      o["t"] = type(FD->getType());
      if (FD->isMutable()) o["mu"] = 1;
    } else if (auto *PD = dyn_cast<ParmVarDecl>(D)) {
      o["k"] = "parm";
      o["t"] = type(PD->getType());
      o["x"] = PD->getFunctionScopeIndex();
    } else if (auto *VD = dyn_cast<VarDecl>(D)) {
      o["k"] = "var";
      o["t"] = type(VD->getType());
      o["q"] = utf8(qual(VD));
      if (VD->isStaticLocal()) o["sc"] = "slocal";
      else if (VD->isStaticDataMember()) o["sc"] = "member";
      else if (VD->hasGlobalStorage()) o["sc"] = "global";
      else o["sc"] = "local";
      if (VD->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
      if (VD->isConstexpr()) o["cx"] = 1;
      if (VD->hasGlobalStorage()) o["u"] = utf8(usr(VD) + "@" + locKey(VD));
    } else if (auto *BD = dyn_cast<BindingDecl>(D)) {
      o["k"] = "bind";
      o["t"] = type(BD->getType());
      if (auto *DD = dyn_cast_or_null<DecompositionDecl>(BD->getDecomposedDecl())) {
        o["of"] = decl(DD);
        int ix = 0;
        for (auto *b : DD->bindings()) {
          if (b == BD) break;
          ++ix;
        }
        o["x"] = ix;
      }
    } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      o["k"] = "enumc";
      o["t"] = type(EC->getType());
      llvm::SmallString<32> v;
      EC->getInitVal().toString(v, 10);
      o["v"] = std::string(v);
      o["q"] = utf8(qual(EC));
    } else {
      o["k"] = D->getDeclKindName();
      o["q"] = utf8(qual(D));
    }
    OS << J::Value(std::move(o)) << "\n";
    return id;
  }

  // ---------------------------------------------------------------- functions
  struct FnCtx {
    std::vector<J::Object> nodes;
    llvm::DenseMap<const Stmt *, int> sid;
    llvm::DenseMap<const VarDecl *, int> vid;
  };

  void enqueue(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def)) return;
    if (!queued.insert(Def).second) return;
    queue.push_back(Def);
  }

  static const Stmt *strip(const Stmt *S) {
    while (S) {
      if (auto *E = dyn_cast<ParenExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<FullExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) { S = E->getReplacement(); continue; }
      if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) { S = E->getExpr(); continue; }
      if (auto *E = dyn_cast<CXXStdInitializerListExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<AttributedStmt>(S)) { S = E->getSubStmt(); continue; }
      if (auto *E = dyn_cast<CastExpr>(S)) {
        bool keep = false;
        switch (E->getCastKind()) {
          case CK_IntegralCast: case CK_IntegralToFloating:
          case CK_FloatingToIntegral: case CK_FloatingCast:
          case CK_IntegralToBoolean: case CK_FloatingToBoolean:
          case CK_PointerToBoolean: case CK_IntegralToPointer:
          case CK_PointerToIntegral: case CK_BitCast:
          case CK_LValueBitCast: case CK_BaseToDerived: case CK_Dynamic:
          case CK_ToVoid: case CK_BooleanToSignedIntegral:
          case CK_Dependent:
            keep = true; break;
          default: break;
        }
        if (!keep && (isa<CXXConstCastExpr>(E))) keep = true;
        if (keep) return S;
        S = E->getSubExpr();
        continue;
      }
      return S;
    }
    return S;
  }

  int node(FnCtx &F, const Stmt *S0) {
    if (!S0) return -1;
    const Stmt *S = strip(S0);
    auto it = F.sid.find(S);
    if (it != F.sid.end()) return it->second;
    int id = (int)F.nodes.size();
    F.nodes.emplace_back();
    F.sid[S] = id;
    if (S != S0) F.sid[S0] = id;
    J::Object o;
    fill(F, S, o);
    SourceLocation L = S->getBeginLoc();
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) L = OC->getOperatorLoc();
    if (auto *ME = dyn_cast<MemberExpr>(S)) L = ME->getMemberLoc().isValid() ? ME->getMemberLoc() : L;
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(S)) L = MC->getExprLoc();
    if (auto *BO = dyn_cast<BinaryOperator>(S)) L = BO->getOperatorLoc();
    if (L.isValid()) {
      o["l"] = lineOf(L);
      if (inAssert(S->getBeginLoc()) ||
          (isa<Expr>(S) && inAssert(cast<Expr>(S)->getExprLoc())))
        o["as"] = 1;
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      if (!E->getType().isNull()) o["t"] = type(E->getType());
      if (E->isLValue()) o["lv"] = 1;
    }
    F.nodes[id] = std::move(o);
    return id;
  }

  void kids(FnCtx &F, J::Object &o, std::initializer_list<const Stmt *> l) {
    J::Array a;
    for (auto *s : l) a.push_back(node(F, s));
    o["c"] = std::move(a);
  }

  int varNode(FnCtx &F, const VarDecl *V) {
    auto it = F.vid.find(V);
    if (it != F.vid.end()) return it->second;
    int id = (int)F.nodes.size();
    F.nodes.emplace_back();
    F.vid[V] = id;
    J::Object o;
    o["k"] = "var";
    o["d"] = decl(V);
    o["l"] = lineOf(V->getLocation());
    o["t"] = type(V->getType());
    J::Array a;
    if (V->getInit()) a.push_back(node(F, V->getInit()));
    o["c"] = std::move(a);
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      J::Array b;
      for (auto *x : DD->bindings()) b.push_back(decl(x));
      o["b"] = std::move(b);
      J::Array h;
      for (auto *x : DD->bindings())
        if (auto *HV = x->getHoldingVar()) h.push_back(varNode(F, HV));
      if (!h.empty()) o["hv"] = std::move(h);
    }
    F.nodes[id] = std::move(o);
    return id;
  }

  void enqueueLambda(const LambdaExpr *LE) {
    auto *CO = LE->getCallOperator();
    enqueue(CO);
    if (auto *FT = CO->getDescribedFunctionTemplate())
      for (auto *sp : FT->specializations()) enqueue(sp);
  }

  void fill(FnCtx &F, const Stmt *S, J::Object &o) {
    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      o["k"] = "ref";
      o["d"] = decl(E->getDecl());
      return;
    }
    if (auto *E = dyn_cast<MemberExpr>(S)) {
      o["k"] = "mem";
      o["d"] = decl(E->getMemberDecl());
      if (E->isArrow()) o["ar"] = 1;
      kids(F, o, {E->getBase()});
      return;
    }
    if (isa<CXXThisExpr>(S)) { o["k"] = "this"; return; }
    if (auto *E = dyn_cast<CXXRewrittenBinaryOperator>(S)) {
      auto D = E->getDecomposedForm();
      o["k"] = "rew";
      o["o"] = BinaryOperator::getOpcodeStr(D.Opcode).str();
      const Stmt *in = strip(D.InnerBinOp);
      if (auto *CE = dyn_cast<CXXOperatorCallExpr>(in)) {
        if (auto *FD = dyn_cast_or_null<FunctionDecl>(CE->getCalleeDecl()))
          o["d"] = decl(FD);
      }
      kids(F, o, {D.LHS, D.RHS});
      return;
    }
    if (auto *E = dyn_cast<CallExpr>(S)) {
      o["k"] = "call";
      const Decl *CD = E->getCalleeDecl();
      J::Array a;
      bool objFirst = false;
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
        objFirst = true;
        if (auto *ob = MC->getImplicitObjectArgument()) {
          a.push_back(node(F, ob));
          if (auto *me = dyn_cast<MemberExpr>(strip(MC->getCallee()))) {
            if (me->isArrow()) o["ar"] = 1;
            if (me->hasQualifier()) o["nv"] = 1;  // qualified: non-virtual
            F.sid[me] = -2;
          }
        } else
          a.push_back(-1);
      } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
        o["o"] = getOperatorSpelling(OC->getOperator());
        if (CD && isa<CXXMethodDecl>(CD)) objFirst = true;
      }
      if (auto *FD = dyn_cast_or_null<FunctionDecl>(CD)) {
        o["d"] = decl(FD);
      } else {
        o["ce"] = node(F, E->getCallee());
      }
      if (objFirst) o["m"] = 1;
      unsigned i0 = 0;
      for (unsigned i = i0; i < E->getNumArgs(); ++i)
        a.push_back(node(F, E->getArg(i)));
      o["c"] = std::move(a);
      return;
    }
    if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      o["k"] = "ctor";
      o["d"] = decl(E->getConstructor());
      if (E->isElidable()) o["el"] = 1;
      if (E->isListInitialization()) o["li"] = 1;
      if (E->requiresZeroInitialization()) o["zi"] = 1;
      J::Array a;
      for (auto *x : E->arguments()) a.push_back(node(F, x));
      o["c"] = std::move(a);
      return;
    }
    if (auto *E = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
      o["k"] = "ctor"; o["d"] = decl(E->getConstructor()); o["c"] = J::Array();
      return;
    }
    if (auto *E = dyn_cast<BinaryOperator>(S)) {
      o["k"] = E->isAssignmentOp() ? "asg" : "bin";
      o["o"] = E->getOpcodeStr().str();
      kids(F, o, {E->getLHS(), E->getRHS()});
      return;
    }
    if (auto *E = dyn_cast<UnaryOperator>(S)) {
      o["k"] = "un";
      o["o"] = (E->isPostfix() ? "post" : "") + UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      kids(F, o, {E->getSubExpr()});
      return;
    }
    if (auto *E = dyn_cast<ArraySubscriptExpr>(S)) {
      o["k"] = "idx";
      kids(F, o, {E->getBase(), E->getIdx()});
      return;
    }
    if (auto *E = dyn_cast<AbstractConditionalOperator>(S)) {
      o["k"] = "cond";
      kids(F, o, {E->getCond(), E->getTrueExpr(), E->getFalseExpr()});
      return;
    }
    if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      llvm::SmallString<32> v;
      E->getValue().toString(v, 10, E->getType()->isSignedIntegerType());
      o["k"] = "int"; o["v"] = std::string(v); return;
    }
    if (auto *E = dyn_cast<FloatingLiteral>(S)) {
      llvm::SmallString<32> v;
      E->getValue().toString(v);
      o["k"] = "flt"; o["v"] = std::string(v); return;
    }
    if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o["k"] = "bool"; o["v"] = E->getValue() ? 1 : 0; return;
    }
    if (auto *E = dyn_cast<CharacterLiteral>(S)) {
      o["k"] = "chr"; o["v"] = (int64_t)E->getValue(); return;
    }
    if (auto *E = dyn_cast<StringLiteral>(S)) {
      o["k"] = "str";
      std::string v;
      if (E->getCharByteWidth() == 1) v = utf8(E->getString());
      else {
        for (unsigned i = 0; i < E->getLength() && i < 200; ++i) {
          unsigned cu = E->getCodeUnit(i);
          if (cu < 0x80) v += (char)cu;
          else { char b[16]; snprintf(b, 16, "\\u%04x", cu); v += b; }
        }
      }
      if (v.size() > 400) v.resize(400);
      o["v"] = utf8(v); return;
    }
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { o["k"] = "null"; return; }
    if (auto *E = dyn_cast<LambdaExpr>(S)) {
      o["k"] = "lambda";
      o["d"] = decl(E->getCallOperator());
      o["fk"] = utf8(fnKey(E->getCallOperator()));
      if (auto *FT = E->getCallOperator()->getDescribedFunctionTemplate()) {
        J::Array sp;
        for (auto *x : FT->specializations()) sp.push_back(utf8(fnKey(x)));
        o["sp"] = std::move(sp);
      }
      J::Array caps;
      auto ci = E->capture_init_begin();
      for (auto &cap : E->captures()) {
        J::Object c;
        if (cap.capturesThis()) {
          c["th"] = 1;
          if (cap.getCaptureKind() == LCK_StarThis) c["cp"] = 1;
        } else if (cap.capturesVariable()) {
          if (auto *vd = dyn_cast<VarDecl>(cap.getCapturedVar())) {
            c["d"] = decl(vd);
            if (vd->isInitCapture()) c["ic"] = 1;
          } else
            c["d"] = decl(cap.getCapturedVar());
          c["r"] = cap.getCaptureKind() == LCK_ByRef ? 1 : 0;
        }
        if (ci != E->capture_init_end() && *ci) c["e"] = node(F, *ci);
        ++ci;
        caps.push_back(std::move(c));
      }
      o["cap"] = std::move(caps);
      if (E->isMutable()) o["mu"] = 1;
      enqueueLambda(E);
      return;
    }
    if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      o["k"] = "new";
      J::Array a;
      if (E->getInitializer()) a.push_back(node(F, E->getInitializer()));
      for (auto *x : const_cast<CXXNewExpr *>(E)->placement_arguments()) a.push_back(node(F, x));
      o["at"] = type(E->getAllocatedType());
      o["c"] = std::move(a);
      return;
    }
    if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      o["k"] = "delete";
      kids(F, o, {E->getArgument()});
      return;
    }
    if (auto *E = dyn_cast<CXXThrowExpr>(S)) {
      o["k"] = "throw";
      if (E->getSubExpr()) kids(F, o, {E->getSubExpr()});
      return;
    }
    if (auto *E = dyn_cast<InitListExpr>(S)) {
      if (E->isSemanticForm() == false && E->getSemanticForm()) E = E->getSemanticForm();
      o["k"] = "ilist";
      J::Array a, di;
      int64_t k = 0;
      for (auto *x : E->inits()) {
        if (x && isa<CXXDefaultInitExpr>(x)) di.push_back(k);
        ++k;
        a.push_back(node(F, x));
      }
      o["c"] = std::move(a);
      if (!di.empty()) o["di"] = std::move(di);
      if (auto *RD = E->getType()->getAsCXXRecordDecl())
        if (RD->isAggregate()) {
          J::Array fs;
          for (auto &b : RD->bases()) { (void)b; fs.push_back(-1); }
          for (auto *fd : RD->fields()) fs.push_back(decl(fd));
          o["fs"] = std::move(fs);
        }
      return;
    }
    if (auto *E = dyn_cast<CXXParenListInitExpr>(S)) {
      o["k"] = "ilist";
      J::Array a;
      for (auto *x : E->getInitExprs()) a.push_back(node(F, x));
      o["c"] = std::move(a);
      return;
    }
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) {
      o["k"] = "defarg";
      (void)E;
      return;
    }
    if (auto *E = dyn_cast<CastExpr>(S)) {
      o["k"] = "cast";
      o["o"] = E->getCastKindName();
      if (isa<ExplicitCastExpr>(E)) o["ex"] = isa<CXXConstCastExpr>(E) ? "const" : "1";
      kids(F, o, {E->getSubExpr()});
      return;
    }
    if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { (void)E; o["k"] = "sizeof"; return; }
    if (auto *E = dyn_cast<CXXTypeidExpr>(S)) { (void)E; o["k"] = "typeid"; return; }
    if (isa<CXXScalarValueInitExpr>(S) || isa<ImplicitValueInitExpr>(S)) { o["k"] = "zero"; return; }
    // --- statements
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      J::Array a;
      for (auto *d : D->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varNode(F, V));
      o["c"] = std::move(a);
      return;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      if (R->getRetValue()) kids(F, o, {R->getRetValue()});
      return;
    }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block";
      J::Array a;
      for (auto *s : X->body()) a.push_back(node(F, s));
      o["c"] = std::move(a);
      return;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (X->isConstexpr()) o["cx"] = 1;
      J::Array a;
      a.push_back(node(F, X->getCond()));
      a.push_back(node(F, X->getThen()));
      a.push_back(X->getElse() ? node(F, X->getElse()) : -1);
      if (X->getInit()) o["in"] = node(F, X->getInit());
      if (auto *cv = X->getConditionVariable()) o["cv"] = varNode(F, cv);
      o["c"] = std::move(a);
      return;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      kids(F, o, {X->getInit(), X->getCond(), X->getInc(), X->getBody()});
      return;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor";
      const VarDecl *LV = X->getLoopVariable();
      J::Array a;
      if (X->getInit()) o["in"] = node(F, X->getInit());
      a.push_back(LV ? varNode(F, LV) : -1);
      const Expr *RI = X->getRangeInit();
      a.push_back(RI ? node(F, RI) : -1);
      a.push_back(node(F, X->getBody()));
      // implicit parts so that CFG elements resolve
      J::Array im;
      for (const Stmt *s : {(const Stmt *)X->getRangeStmt(), (const Stmt *)X->getBeginStmt(),
                            (const Stmt *)X->getEndStmt(), (const Stmt *)X->getCond(),
                            (const Stmt *)X->getInc()})
        if (s) im.push_back(node(F, s));
      o["im"] = std::move(im);
      o["c"] = std::move(a);
      return;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while";
      if (auto *cv = X->getConditionVariable()) o["cv"] = varNode(F, cv);
      kids(F, o, {X->getCond(), X->getBody()});
      return;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do";
      kids(F, o, {X->getBody(), X->getCond()});
      return;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch";
      if (X->getInit()) o["in"] = node(F, X->getInit());
      if (auto *cv = X->getConditionVariable()) o["cv"] = varNode(F, cv);
      kids(F, o, {X->getCond(), X->getBody()});
      return;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case";
      kids(F, o, {X->getLHS(), X->getRHS(), X->getSubStmt()});
      return;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default";
      kids(F, o, {X->getSubStmt()});
      return;
    }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return; }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return; }
    if (isa<NullStmt>(S)) { o["k"] = "nop"; return; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try";
      J::Array a;
      a.push_back(node(F, X->getTryBlock()));
      for (unsigned i = 0; i < X->getNumHandlers(); ++i)
        a.push_back(node(F, X->getHandler(i)));
      o["c"] = std::move(a);
      return;
    }
    if (auto *X = dyn_cast<CXXCatchStmt>(S)) {
      o["k"] = "catch";
      if (X->getCaughtType().isNull()) o["all"] = 1;
      else o["ct"] = type(X->getCaughtType());
      if (X->getExceptionDecl()) o["v"] = varNode(F, X->getExceptionDecl());
      kids(F, o, {X->getHandlerBlock()});
      return;
    }
    // dependent forms
    if (auto *E = dyn_cast<CXXDependentScopeMemberExpr>(S)) {
      o["k"] = "dmem";
      o["n"] = utf8(E->getMember().getAsString());
      if (!E->isImplicitAccess()) kids(F, o, {E->getBase()});
      return;
    }
    if (auto *E = dyn_cast<OverloadExpr>(S)) {
      o["k"] = "dref";
      o["n"] = utf8(E->getName().getAsString());
      if (auto *UM = dyn_cast<UnresolvedMemberExpr>(E))
        if (!UM->isImplicitAccess()) kids(F, o, {UM->getBase()});
      return;
    }
    if (auto *E = dyn_cast<DependentScopeDeclRefExpr>(S)) {
      o["k"] = "dref";
      o["n"] = utf8(E->getDeclName().getAsString());
      return;
    }
    o["k"] = "x";
    o["x"] = S->getStmtClassName();
    J::Array a;
    for (auto *ch : S->children())
      if (ch) a.push_back(node(F, ch));
    if (!a.empty()) o["c"] = std::move(a);
  }

  void emitFn(const FunctionDecl *FD) {
    if (!inRepo(FD->getLocation())) return;
    const Stmt *Body = FD->getBody();
    if (!Body && !FD->isDefaulted()) return;
    std::string key = fnKey(FD);
    bool dep = FD->isDependentContext();
    if (!seenFn.insert(key + (dep ? "#dep" : "")).second) return;
    FnCtx F;
    J::Object o;
    o["K"] = "fn";
    o["u"] = utf8(key);
    o["d"] = decl(FD);
    o["n"] = utf8(FD->getNameAsString());
    o["q"] = utf8(qual(FD));
    o["f"] = utf8(rel(fileOf(FD->getLocation())));
    o["l"] = lineOf(FD->getLocation());
    o["el"] = lineOf(FD->getEndLoc());
    o["col"] = colOf(FD->getLocation());
    if (dep) o["dep"] = 1;
    if (FD->isImplicit()) o["imp"] = 1;
    if (FD->isDefaulted()) o["dflt"] = 1;
    if (FD->isTemplateInstantiation()) o["inst"] = 1;
    if (FD->isNoReturn()) o["nr"] = 1;
    if (FD->isVariadic()) o["va"] = 1;
    if (auto *FPT = FD->getType()->getAs<FunctionProtoType>())
      if (!dep && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) &&
          FPT->isNothrow())
        o["nx"] = 1;
    o["t"] = type(FD->getReturnType());
    J::Array ps;
    for (auto *p : FD->parameters()) {
      J::Object po;
      po["d"] = decl(p);
      po["t"] = type(p->getType());
      po["n"] = utf8(p->getNameAsString());
      if (p->hasDefaultArg()) po["df"] = 1;
      ps.push_back(std::move(po));
    }
    o["p"] = std::move(ps);
    // enclosing function for lambdas / local classes
    if (auto *PC = FD->getParentFunctionOrMethod())
      if (auto *PF = dyn_cast<FunctionDecl>(Decl::castFromDeclContext(PC)))
        o["par"] = utf8(fnKey(PF));
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["c"] = utf8(qual(M->getParent()));
      o["ct"] = type(C.getRecordType(M->getParent()));
      if (M->isStatic()) o["st"] = 1;
      if (M->isConst()) o["co"] = 1;
      if (M->isVirtual()) o["vi"] = 1;
      if (M->getRefQualifier() == RQ_RValue) o["rv"] = 1;
      if (M->getParent()->isLambda()) o["lam"] = 1;
      o["acc"] = (int)M->getAccess();
      if (M->size_overridden_methods()) {
        J::Array ov;
        for (auto *x : M->overridden_methods()) ov.push_back(utf8(fnKey(x)));
        o["ov"] = std::move(ov);
      }
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        o["fk"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : "ctor";
        J::Array in;
        for (auto *I : K->inits()) {
          J::Object io;
          if (I->isMemberInitializer()) io["d"] = decl(I->getMember());
          else if (I->isIndirectMemberInitializer()) io["d"] = decl(I->getIndirectMember()->getAnonField());
          else if (I->isBaseInitializer()) {
            io["b"] = type(QualType(I->getBaseClass(), 0));
          } else io["dg"] = 1;
          if (I->isWritten()) io["w"] = 1;
          io["e"] = node(F, I->getInit());
          io["l"] = lineOf(I->getSourceLocation());
          if (I->getInit() && isa<CXXDefaultInitExpr>(I->getInit())) io["di"] = 1;
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      } else if (isa<CXXDestructorDecl>(M)) o["fk"] = "dtor";
      else if (M->isCopyAssignmentOperator()) o["fk"] = "copy=";
      else if (M->isMoveAssignmentOperator()) o["fk"] = "move=";
      else if (isa<CXXConversionDecl>(M)) o["fk"] = "conv";
    }
    if (FD->isOverloadedOperator()) o["op"] = getOperatorSpelling(FD->getOverloadedOperator());
    if (Body) o["b"] = node(F, Body);
    // CFG
    if (Body && !dep) {
      CFG::BuildOptions BO;
      BO.setAllAlwaysAdd();
      BO.AddImplicitDtors = true;
      BO.AddInitializers = true;
      BO.AddTemporaryDtors = false;
      BO.AddEHEdges = false;
      BO.PruneTriviallyFalseEdges = true;
      BO.AddCXXNewAllocator = false;
      BO.AddLifetime = false;
      BO.AddCXXDefaultInitExprInCtors = true;
      std::unique_ptr<CFG> G = CFG::buildCFG(FD, const_cast<Stmt *>(Body), &C, BO);
      if (G) {
        J::Array blocks;
        for (CFGBlock *B : *G) {
          J::Object bo;
          bo["i"] = (int64_t)B->getBlockID();
          J::Array es;
          for (auto &El : *B) {
            if (auto CS = El.getAs<CFGStmt>()) {
              const Stmt *S = CS->getStmt();
              if (auto *DS = dyn_cast<DeclStmt>(S)) {
                for (auto *d : DS->decls())
                  if (auto *V = dyn_cast<VarDecl>(d)) es.push_back(varNode(F, V));
                continue;
              }
              auto it = F.sid.find(S);
              if (it == F.sid.end()) {
                const Stmt *T = strip(S);
                if (T != S) continue;  // wrapper of a node emitted on its own
                int n = node(F, S);
                es.push_back(n);
              } else if (it->second >= 0) {
                if (strip(S) == S) es.push_back(it->second);
              }
            } else if (auto I = El.getAs<CFGInitializer>()) {
              auto *X = I->getInitializer();
              J::Array a;
              a.push_back("init");
              a.push_back(X->isAnyMemberInitializer() ? decl(X->getAnyMember()) : -1);
              a.push_back(node(F, X->getInit()));
              es.push_back(std::move(a));
            } else if (auto D = El.getAs<CFGAutomaticObjDtor>()) {
              J::Array a;
              a.push_back("dtor");
              a.push_back(decl(D->getVarDecl()));
              es.push_back(std::move(a));
            }
          }
          bo["e"] = std::move(es);
          J::Array su;
          for (auto &s : B->succs()) {
            CFGBlock *t = s.getReachableBlock();
            su.push_back(t ? (int64_t)t->getBlockID() : (int64_t)-1);
          }
          bo["s"] = std::move(su);
          if (const Stmt *T = B->getTerminatorStmt()) {
            auto it = F.sid.find(strip(T));
            if (it != F.sid.end()) bo["t"] = it->second;
            if (const Stmt *TC = B->getTerminatorCondition()) {
              auto ic = F.sid.find(strip(TC));
              if (ic != F.sid.end() && ic->second >= 0) bo["tc"] = ic->second;
            }
          }
          if (const Stmt *Lb = B->getLabel()) {
            auto it = F.sid.find(Lb);
            if (it != F.sid.end()) bo["lb"] = it->second;
          }
          if (B->hasNoReturnElement()) bo["nr"] = 1;
          blocks.push_back(std::move(bo));
        }
        J::Object g;
        g["en"] = (int64_t)G->getEntry().getBlockID();
        g["ex"] = (int64_t)G->getExit().getBlockID();
        g["bl"] = std::move(blocks);
        o["g"] = std::move(g);
      }
    }
    J::Array ns;
    for (auto &n : F.nodes) ns.push_back(std::move(n));
    o["N"] = std::move(ns);
    OS << J::Value(std::move(o)) << "\n";
  }

  void emitCls(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || !inRepo(R->getLocation()) || !seenCls.insert(R).second) return;
    J::Object o;
    o["K"] = "cls";
    o["q"] = utf8(qual(R));
    o["ty"] = type(C.getRecordType(R));
    o["f"] = utf8(rel(fileOf(R->getLocation())));
    o["l"] = lineOf(R->getLocation());
    if (R->isDependentContext()) o["dep"] = 1;
    if (isa<ClassTemplateSpecializationDecl>(R)) o["spec"] = 1;
    if (R->isLambda()) o["lam"] = 1;
    if (!R->isDependentContext() && R->isAbstract()) o["abs"] = 1;
    if (R->isAggregate()) o["agg"] = 1;
    J::Array bs;
    for (auto &b : R->bases()) {
      J::Object bo;
      bo["t"] = type(b.getType());
      if (auto *br = b.getType()->getAsCXXRecordDecl()) bo["q"] = utf8(qual(br));
      bs.push_back(std::move(bo));
    }
    o["bases"] = std::move(bs);
    J::Array fs;
    for (auto *d : R->fields()) {
      J::Object fo;
      fo["d"] = decl(d);
      fo["n"] = utf8(d->getNameAsString());
      fo["t"] = type(d->getType());
      fo["l"] = lineOf(d->getLocation());
      if (d->isMutable()) fo["mu"] = 1;
      if (d->hasInClassInitializer()) fo["in"] = 1;
      fo["acc"] = (int)d->getAccess();
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    J::Array ms;
    for (auto *m : R->methods()) {
      J::Object mo;
      mo["n"] = utf8(m->getNameAsString());
      mo["u"] = utf8(fnKey(m));
      mo["d"] = decl(m);
      if (m->isVirtual()) mo["vi"] = 1;
      if (m->isPureVirtual()) mo["pu"] = 1;
      if (m->isDeleted()) mo["del"] = 1;
      if (m->isDefaulted()) mo["df"] = 1;
      if (m->isImplicit()) mo["imp"] = 1;
      if (m->isConst()) mo["co"] = 1;
      mo["acc"] = (int)m->getAccess();
      if (m->size_overridden_methods()) {
        J::Array ov;
        for (auto *x : m->overridden_methods()) ov.push_back(utf8(fnKey(x)));
        mo["ov"] = std::move(ov);
      }
      if (auto *K = dyn_cast<CXXConstructorDecl>(m))
        mo["ck"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : "ctor";
      else if (m->isCopyAssignmentOperator()) mo["ck"] = "copy=";
      else if (m->isMoveAssignmentOperator()) mo["ck"] = "move=";
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    OS << J::Value(std::move(o)) << "\n";
  }

  void emitEnum(const EnumDecl *E) {
    if (!E->isCompleteDefinition() || !inRepo(E->getLocation())) return;
    if (!seenMisc.insert(E).second) return;
    J::Object o;
    o["K"] = "enum";
    o["q"] = utf8(qual(E));
    o["f"] = utf8(rel(fileOf(E->getLocation())));
    o["l"] = lineOf(E->getLocation());
    J::Array a;
    for (auto *c : E->enumerators()) {
      llvm::SmallString<32> v;
      c->getInitVal().toString(v, 10);
      a.push_back(J::Array{utf8(c->getNameAsString()), std::string(v)});
    }
    o["e"] = std::move(a);
    OS << J::Value(std::move(o)) << "\n";
  }

  void emitVar(const VarDecl *V) {
    if (!V->hasGlobalStorage() || !inRepo(V->getLocation())) return;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
    if (!seenMisc.insert(V).second) return;
    J::Object o;
    o["K"] = "gvar";
    o["d"] = decl(V);
    o["q"] = utf8(qual(V));
    o["t"] = type(V->getType());
    o["f"] = utf8(rel(fileOf(V->getLocation())));
    o["l"] = lineOf(V->getLocation());
    if (V->getType().isConstQualified()) o["co"] = 1;
    if (V->isStaticLocal()) {
      o["sl"] = 1;
      if (auto *PC = V->getParentFunctionOrMethod())
        if (auto *PF = dyn_cast<FunctionDecl>(Decl::castFromDeclContext(PC)))
          o["par"] = utf8(fnKey(PF));
    }
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
    // initializer (as a pseudo function)
    if (V->getInit() && !V->getType()->isDependentType() &&
        !V->getDeclContext()->isDependentContext()) {
      FnCtx F;
      o["b"] = node(F, V->getInit());
      J::Array ns;
      for (auto &n : F.nodes) ns.push_back(std::move(n));
      o["N"] = std::move(ns);
    }
    OS << J::Value(std::move(o)) << "\n";
  }

  void drain() {
    while (!queue.empty()) {
      auto *f = queue.front();
      queue.pop_front();
      emitFn(f);
    }
  }
};

struct Vis : RecursiveASTVisitor<Vis> {
  Dumper &D;
  explicit Vis(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl *d) {
    // prune non-repo top-level namespaces' contents cheaply
    if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) &&
        !isa<LinkageSpecDecl>(d)) {
      SourceLocation L = d->getLocation();
      // an explicit instantiation is located where it is requested
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(d))
        L = S->getSpecializedTemplate()->getLocation();
      if (L.isValid() && !D.inRepo(L)) {
        // system template specialisations may hold repo lambdas, but those are
        // reached through their defining repo function
        return true;
      }
    }
    return RecursiveASTVisitor<Vis>::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && D.inRepo(F->getLocation()))
      D.enqueue(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition()) D.emitCls(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) { D.emitEnum(E); return true; }
  bool VisitVarDecl(VarDecl *V) { D.emitVar(V); return true; }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    Dumper D(C, os);
    {
      J::Object o;
      o["K"] = "tu";
      o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
      os << J::Value(std::move(o)) << "\n";
    }
    Vis V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
    // repo functions referenced as callees but reached only as instantiations
    J::Object o;
    o["K"] = "end";
    o["fns"] = (int64_t)D.seenFn.size();
    os << J::Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    CI.getDiagnostics().setErrorLimit(200);
    return std::make_unique<Cons>();
  }
};

int main(int argc, const char **argv) {
  if (argc < 5) {
    llvm::errs() << "usage: sqfacts OUT ROOT -- file args...\n";
    return 2;
  }
  gOut = argv[1];
  gRoot = argv[2];
  gSrcDir = gRoot + "/SeQuant/";
  std::vector<std::string> args;
  std::string file = argv[4];
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool Tool(DB, {file});
  int r = Tool.run(tooling::newFrontendActionFactory<Act>().get());
  return r;
}
