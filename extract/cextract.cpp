// cextract: dumps a resolved, macro-expanded, compact JSON form of one C
// translation unit (function bodies, global initialisers, enums, records,
// types).  Built by setup_cmd; reads /repo's current sources on every run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/Decl.h"
#include "clang/AST/Expr.h"
#include "clang/AST/Stmt.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
typedef llvm::json::OStream JS;

static std::string Root;
static std::string OutPath;

struct Dumper {
  ASTContext &C; SourceManager &SM; JS &J;
  std::map<const void*, int> typeIds; std::vector<QualType> types;
  std::map<const Decl*, int> localIds; int nextLocal = 1;
  std::map<const RecordDecl*, int> anonIds;
  std::string curFn;
  std::set<const RecordDecl*> recs; std::vector<const RecordDecl*> recList;
  Dumper(ASTContext &C, JS &J): C(C), SM(C.getSourceManager()), J(J) {}

  std::string relFile(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    // normalise
    llvm::SmallString<256> abs(f);
    if (!llvm::sys::path::is_absolute(abs)) { SM.getFileManager().makeAbsolutePath(abs); }
    llvm::sys::path::remove_dots(abs, true);
    f = std::string(abs.str());
    if (f.rfind(Root, 0) == 0) f = f.substr(Root.size());
    return f;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  int typeId(QualType T) {
    T = T.getCanonicalType();
    auto it = typeIds.find(T.getAsOpaquePtr());
    if (it != typeIds.end()) return it->second;
    int id = types.size();
    typeIds[T.getAsOpaquePtr()] = id; types.push_back(T);
    return id;
  }
  std::string recName(const RecordDecl *R) {
    if (R->getDefinition()) R = R->getDefinition();
    if (!R->getName().empty()) return R->getName().str();
    if (auto *TD = R->getTypedefNameForAnonDecl()) return TD->getName().str();
    return "anon@" + relFile(R->getLocation()) + ":" + std::to_string(line(R->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(R->getLocation()));
  }
  void noteRec(const RecordDecl *R) {
    R = R->getDefinition(); if (!R) return;
    if (recs.insert(R).second) recList.push_back(R);
  }
  std::string enumName(const EnumDecl *E) {
    if (E->getDefinition()) E = E->getDefinition();
    if (!E->getName().empty()) return E->getName().str();
    if (auto *TD = E->getTypedefNameForAnonDecl()) return TD->getName().str();
    return "anonenum@" + relFile(E->getLocation()) + ":" + std::to_string(line(E->getLocation()));
  }
  std::string qname(const NamedDecl *D) {
    std::string n = D->getName().str();
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isStaticLocal()) return n + "@" + curFn;
      if (V->getFormalLinkage() == Linkage::Internal) return n + "@" + relFile(V->getCanonicalDecl()->getLocation());
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      if (F->getFormalLinkage() == Linkage::Internal) return n + "@" + relFile(F->getCanonicalDecl()->getLocation());
    }
    return n;
  }
  int localId(const Decl *D) {
    auto it = localIds.find(D); if (it != localIds.end()) return it->second;
    return localIds[D] = nextLocal++;
  }
  // ---------- expressions
  void kv(const char *k, const std::string &v) { J.attribute(k, v); }
  void head(const char *k, const Expr *E) {
    J.attribute("k", k); J.attribute("l", line(E->getExprLoc())); J.attribute("t", typeId(E->getType()));
  }
  void sub(const char *name, const Expr *E) { J.attributeBegin(name); expr(E); J.attributeEnd(); }

  static bool transparentCast(CastKind K) {
    switch (K) {
    case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
    case CK_BuiltinFnToFnPtr: case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic: return true;
    default: return false; }
  }
  std::string bytes(StringRef S) { // latin-1 -> utf8 so JSON stays valid
    std::string o; for (unsigned char c : S) { if (c < 0x80) o += (char)c; else { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 0x3F)); } } return o;
  }
  void expr(const Expr *E) {
    if (!E) { J.value(nullptr); return; }
    E = E->IgnoreParens();
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());
    if (auto *X = dyn_cast<GenericSelectionExpr>(E)) return expr(X->getResultExpr());
    if (auto *X = dyn_cast<ChooseExpr>(E)) return expr(X->getChosenSubExpr());
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { if (X->getFunctionName()) return expr(X->getFunctionName()); }
    if (auto *X = dyn_cast<UnaryOperator>(E)) if (X->getOpcode() == UO_Extension) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CastExpr>(E)) {
      if (transparentCast(X->getCastKind())) return expr(X->getSubExpr());
      if (X->getCastKind() == CK_ArrayToPointerDecay) {
        const Expr *S = X->getSubExpr()->IgnoreParens();
        if (isa<StringLiteral>(S) || isa<PredefinedExpr>(S)) return expr(S);
        J.objectBegin(); head("decay", E); sub("e", S); J.objectEnd(); return;
      }
      J.objectBegin(); head("cast", E); J.attribute("ck", X->getCastKindName());
      J.attribute("imp", isa<ImplicitCastExpr>(X)); sub("e", X->getSubExpr()); J.objectEnd(); return;
    }
    J.objectBegin();
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      head("int", E); llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); kv("v", std::string(s.str()));
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      head("int", E); kv("v", std::to_string((int)X->getValue())); J.attribute("chr", true);
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      head("flt", E); llvm::SmallString<32> s; X->getValue().toString(s); kv("v", std::string(s.str()));
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      head("str", E); kv("v", X->getCharByteWidth() == 1 ? bytes(X->getString()) : std::string("<wide>"));
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        head("int", E); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); kv("v", std::string(s.str())); kv("en", EC->getName().str());
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        head("fn", E); kv("n", qname(F));
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        head("ref", E); 
        if (V->hasGlobalStorage()) { kv("n", qname(V)); J.attribute("g", true); }
        else { kv("n", V->getName().str()); J.attribute("id", localId(V)); }
      } else { head("unk", E); kv("n", D->getNameAsString()); }
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      // flatten anonymous members
      const MemberExpr *M = X; const Expr *B = M->getBase()->IgnoreParens(); bool arrow = M->isArrow();
      while (true) {
        const MemberExpr *BM = dyn_cast<MemberExpr>(B);
        if (BM && BM->getMemberDecl()->getName().empty() && !arrow) { arrow = BM->isArrow(); B = BM->getBase()->IgnoreParens(); }
        else break;
      }
      head("mem", E); kv("n", X->getMemberDecl()->getName().str());
      QualType BT = B->getType(); if (arrow) BT = BT->getPointeeType();
      if (auto *RT = BT->getAs<RecordType>()) { kv("r", recName(RT->getDecl())); noteRec(RT->getDecl()); }
      J.attribute("ar", arrow); sub("b", B);
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      head("idx", E); sub("b", X->getBase()); sub("i", X->getIdx());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      head("un", E); std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op; 
      kv("op", op); sub("e", X->getSubExpr());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (X->isAssignmentOp()) {
        head("asn", E); std::string op = X->getOpcodeStr().str(); op.pop_back(); kv("op", op);
        if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) J.attribute("ct", typeId(CA->getComputationResultType()));
      } else { head("bin", E); kv("op", X->getOpcodeStr().str()); }
      sub("a", X->getLHS()); sub("b", X->getRHS());
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      head("cond", E); sub("c", X->getCond()); sub("a", X->getTrueExpr()); sub("b", X->getFalseExpr());
    } else if (auto *X = dyn_cast<BinaryConditionalOperator>(E)) {
      head("gcond", E); sub("a", X->getCommon()); sub("b", X->getFalseExpr());
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      head("call", E); 
      sub("f", X->getCallee());
      J.attributeArray("a", [&]{ for (auto *A : X->arguments()) expr(A); });
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSyntacticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      head("init", E);
      J.attributeArray("i", [&]{
        QualType T = X->getType();
        if (T->getAs<RecordType>()) {
          recInit(X);
        } else {
          for (unsigned i = 0; i < X->getNumInits(); i++) {
            const Expr *I = X->getInit(i);
            if (!I || isa<ImplicitValueInitExpr>(I)) continue;
            J.arrayBegin(); J.value(i); expr(I); J.arrayEnd();
          }
        }
      });
    } else if (auto *X = dyn_cast<CompoundLiteralExpr>(E)) {
      head("clit", E); sub("e", X->getInitializer());
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C)) { head("int", E); llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); kv("v", std::string(s.str())); J.attribute("so", typeId(X->getTypeOfArgument())); }
      else { head("unk", E); kv("n", "sizeof"); }
    } else if (auto *X = dyn_cast<OffsetOfExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C)) { head("int", E); llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); kv("v", std::string(s.str())); }
      else { head("unk", E); kv("n", "offsetof"); }
    } else if (auto *X = dyn_cast<VAArgExpr>(E)) {
      head("vaarg", E); sub("e", X->getSubExpr());
    } else if (auto *X = dyn_cast<StmtExpr>(E)) {
      head("sexpr", E); J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
    } else if (isa<ImplicitValueInitExpr>(E)) {
      head("zero", E);
    } else {
      head("unk", E); kv("n", E->getStmtClassName());
    }
    J.objectEnd();
  }
  // ---------- statements
  void shead(const char *k, const Stmt *S) { J.attribute("k", k); J.attribute("l", line(S->getBeginLoc())); }
  void ssub(const char *n, const Stmt *S) { J.attributeBegin(n); stmt(S); J.attributeEnd(); }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) { J.objectBegin(); shead("expr", S); sub("e", E); J.objectEnd(); return; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    J.objectBegin();
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      shead("comp", S); J.attribute("el", line(S->getEndLoc())); J.attributeArray("b", [&]{ for (auto *C : X->body()) stmt(C); });
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      shead("if", S); sub("c", X->getCond()); ssub("a", X->getThen()); ssub("b", X->getElse());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      shead("while", S); sub("c", X->getCond()); ssub("b", X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      shead("do", S); sub("c", X->getCond()); ssub("b", X->getBody());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      shead("for", S); ssub("i", X->getInit()); sub("c", X->getCond()); sub("n", X->getInc()); ssub("b", X->getBody());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      shead("switch", S); sub("c", X->getCond()); ssub("b", X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      shead("case", S); 
      auto cv = [&](const char *n, const Expr *E) { Expr::EvalResult R; if (E && E->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); kv(n, std::string(s.str())); } };
      cv("v", X->getLHS()); if (X->getRHS()) cv("v2", X->getRHS());
      const Expr *L = X->getLHS()->IgnoreParenImpCasts(); if (auto *CE = dyn_cast<ConstantExpr>(L)) L = CE->getSubExpr()->IgnoreParenImpCasts();
      if (auto *D = dyn_cast<DeclRefExpr>(L)) kv("en", D->getDecl()->getName().str());
      ssub("s", X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      shead("default", S); ssub("s", X->getSubStmt());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      shead("ret", S); sub("e", X->getRetValue());
    } else if (isa<BreakStmt>(S)) shead("break", S);
    else if (isa<ContinueStmt>(S)) shead("cont", S);
    else if (auto *X = dyn_cast<GotoStmt>(S)) { shead("goto", S); kv("n", X->getLabel()->getName().str()); }
    else if (auto *X = dyn_cast<LabelStmt>(S)) { shead("label", S); kv("n", X->getDecl()->getName().str()); ssub("s", X->getSubStmt()); }
    else if (isa<NullStmt>(S)) shead("null", S);
    else if (auto *X = dyn_cast<DeclStmt>(S)) {
      shead("decl", S);
      J.attributeArray("d", [&]{
        for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) {
          J.objectBegin(); 
          if (V->hasGlobalStorage()) { kv("n", qname(V)); J.attribute("g", true); } else { kv("n", V->getName().str()); J.attribute("id", localId(V)); }
          J.attribute("t", typeId(V->getType())); J.attribute("l", line(V->getLocation()));
          if (V->getType()->isVariableArrayType()) { if (auto *A = C.getAsVariableArrayType(V->getType())) sub("vla", A->getSizeExpr()); }
          if (V->hasInit()) sub("i", V->getInit());
          J.objectEnd();
        }
      });
    } else { shead("unk", S); kv("n", S->getStmtClassName()); }
    J.objectEnd();
  }
  // ---------- top level
  bool inRepo(SourceLocation L) { std::string f = relFile(L); return !f.empty() && f[0] != '/'; }

  void run() {
    J.objectBegin();
    std::vector<const FunctionDecl*> fdecls; std::vector<const VarDecl*> vars; std::vector<const EnumDecl*> enums;
    std::set<const VarDecl*> staticLocals;
    J.attributeArray("functions", [&]{
      for (auto *D : C.getTranslationUnitDecl()->decls()) {
        if (auto *F = dyn_cast<FunctionDecl>(D)) {
          fdecls.push_back(F);
          if (!F->doesThisDeclarationHaveABody() || !inRepo(F->getLocation())) continue;
          curFn = qname(F);
          nextLocal = 1; localIds.clear();
          J.objectBegin();
          kv("n", F->getName().str()); kv("q", qname(F)); kv("f", relFile(F->getLocation())); J.attribute("l", line(F->getLocation())); J.attribute("el", line(F->getEndLoc()));
          J.attribute("st", F->getFormalLinkage() == Linkage::Internal); J.attribute("va", F->isVariadic()); J.attribute("nr", F->isNoReturn());
          J.attribute("rt", typeId(F->getReturnType()));
          J.attributeArray("p", [&]{ for (auto *P : F->parameters()) { J.objectBegin(); kv("n", P->getName().str()); J.attribute("id", localId(P)); J.attribute("t", typeId(P->getType())); J.objectEnd(); } });
          J.attributeBegin("b"); stmt(F->getBody()); J.attributeEnd();
          J.objectEnd();
        } else if (auto *V = dyn_cast<VarDecl>(D)) { if (inRepo(V->getLocation())) vars.push_back(V); }
        else if (auto *E = dyn_cast<EnumDecl>(D)) { if (E->isCompleteDefinition()) enums.push_back(E); }
        else if (auto *R = dyn_cast<RecordDecl>(D)) { if (R->isCompleteDefinition() && inRepo(R->getLocation())) noteRec(R); }
      }
    });
    J.attributeArray("decls", [&]{
      for (auto *F : fdecls) {
        J.objectBegin(); kv("n", F->getName().str()); kv("q", qname(F)); kv("f", relFile(F->getLocation())); J.attribute("nr", F->isNoReturn()); J.attribute("va", F->isVariadic()); J.attribute("rt", typeId(F->getReturnType()));
        J.attributeArray("pt", [&]{ for (auto *P : F->parameters()) J.value(typeId(P->getType())); });
        if (auto *A = F->getAttr<FormatAttr>()) { kv("fmt", A->getType()->getName().str()); J.attribute("fi", A->getFormatIdx()); J.attribute("ff", A->getFirstArg()); }
        J.objectEnd();
      }
    });
    J.attributeArray("globals", [&]{
      curFn = "";
      for (auto *V : vars) {
        J.objectBegin(); kv("n", V->getName().str()); kv("q", qname(V)); kv("f", relFile(V->getLocation())); J.attribute("l", line(V->getLocation())); J.attribute("t", typeId(V->getType()));
        J.attribute("const", V->getType().isConstQualified() || (C.getAsArrayType(V->getType()) && C.getBaseElementType(V->getType()).isConstQualified()));
        J.attribute("st", V->getFormalLinkage() == Linkage::Internal); J.attribute("ext", V->hasExternalStorage()); 
        if (V->hasInit()) sub("i", V->getInit());
        J.objectEnd();
      }
    });
    J.attributeArray("enums", [&]{
      for (auto *E : enums) {
        J.objectBegin(); kv("n", enumName(E)); kv("f", relFile(E->getLocation())); J.attribute("l", line(E->getLocation()));
        J.attributeArray("c", [&]{ for (auto *K : E->enumerators()) { J.arrayBegin(); J.value(K->getName()); llvm::SmallString<32> s; K->getInitVal().toString(s, 10); J.value(std::string(s.str())); J.arrayEnd(); } });
        J.objectEnd();
      }
    });
    J.attributeArray("records", [&]{
      for (size_t i = 0; i < recList.size(); i++) {
        const RecordDecl *R = recList[i]; 
        J.objectBegin(); kv("n", recName(R)); kv("f", relFile(R->getLocation())); J.attribute("l", line(R->getLocation())); J.attribute("u", R->isUnion());
        if (!R->isInvalidDecl()) J.attribute("size", (int64_t)C.getTypeSizeInChars(C.getRecordType(R)).getQuantity());
        J.attributeArray("fl", [&]{ flds(R, 0, R->isUnion() ? 1 : 0); });
        J.objectEnd();
      }
    });
    J.attributeArray("types", [&]{
      for (size_t i = 0; i < types.size(); i++) {
        QualType T = types[i]; J.objectBegin();
        kv("s", T.getAsString()); J.attribute("c", T.isConstQualified());
        const Type *P = T.getTypePtr();
        if (!P->isIncompleteType() && !P->isPlaceholderType() && !P->isFunctionType() && !P->isVariableArrayType() && !P->isDependentType()) J.attribute("sz", (int64_t)C.getTypeSizeInChars(T).getQuantity());
        if (auto *ET = P->getAs<EnumType>()) { kv("k", "enum"); kv("n", enumName(ET->getDecl())); J.attribute("sg", P->isSignedIntegerOrEnumerationType()); }
        else if (P->isBooleanType()) kv("k", "bool");
        else if (P->isIntegerType()) { kv("k", "int"); J.attribute("sg", P->isSignedIntegerType()); }
        else if (P->isFloatingType()) kv("k", "flt");
        else if (P->isVoidType()) kv("k", "void");
        else if (auto *PT = P->getAs<PointerType>()) { kv("k", "ptr"); J.attribute("e", typeId(PT->getPointeeType())); }
        else if (auto *RT = P->getAs<RecordType>()) { kv("k", RT->getDecl()->isUnion() ? "union" : "rec"); kv("n", recName(RT->getDecl())); }
        else if (auto *CA = C.getAsConstantArrayType(T)) { kv("k", "arr"); J.attribute("e", typeId(CA->getElementType())); J.attribute("n", (int64_t)CA->getSize().getZExtValue()); }
        else if (auto *AT = C.getAsArrayType(T)) { kv("k", "arr"); J.attribute("e", typeId(AT->getElementType())); }
        else if (auto *FT = P->getAs<FunctionProtoType>()) { kv("k", "fn"); J.attribute("e", typeId(FT->getReturnType())); }
        else kv("k", "other");
        J.objectEnd();
      }
    });
    J.objectEnd();
  }
  // members of anonymous structs/unions are entries of the enclosing record
  void recInit(const InitListExpr *X) {
    const RecordDecl *R = X->getType()->getAs<RecordType>()->getDecl();
    noteRec(R);
    auto one = [&](const FieldDecl *F, const Expr *I) {
      if (!I || isa<ImplicitValueInitExpr>(I)) return;
      if (F->getName().empty()) { if (auto *L = dyn_cast<InitListExpr>(I)) { if (L->isSyntacticForm() && L->getSemanticForm()) L = L->getSemanticForm(); recInit(L); return; } }
      J.arrayBegin(); J.value(F->getName()); expr(I); J.arrayEnd();
    };
    if (R->isUnion()) {
      if (auto *F = X->getInitializedFieldInUnion()) if (X->getNumInits()) one(F, X->getInit(0));
    } else {
      unsigned i = 0;
      for (auto *F : R->fields()) {
        if (F->isUnnamedBitfield()) continue;
        if (i >= X->getNumInits()) break;
        one(F, X->getInit(i++));
      }
    }
  }
  void flds(const RecordDecl *R, int depth, int inUnion, int64_t base = 0) {
    for (auto *F : R->fields()) {
      if (F->getName().empty()) {
        if (auto *RT = F->getType()->getAs<RecordType>()) { flds(RT->getDecl(), depth + 1, inUnion + RT->getDecl()->isUnion(), base + (int64_t)C.getFieldOffset(F)); }
        continue;
      }
      J.arrayBegin(); J.value(F->getName()); J.value(typeId(F->getType())); J.value(inUnion); J.value(base + (int64_t)C.getFieldOffset(F)); J.value(F->isBitField() ? (int64_t)F->getBitWidthValue(C) : (F->getType()->isIncompleteType() ? 0 : (int64_t)C.getTypeSize(F->getType()))); J.arrayEnd();
    }
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC);
    if (EC) { llvm::errs() << "cannot write " << OutPath << "\n"; return; }
    JS J(OS); Dumper D(C, J); D.run(); 
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char **argv) {
  // cextract ROOT/ OUT.json SRC -- args
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  Root = argv[1]; OutPath = argv[2]; std::string src = argv[3];
  std::vector<std::string> args; for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {src});
  T.setPrintErrorMessage(false);
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
