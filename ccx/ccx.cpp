#include <map>
#include "clang/AST/RecordLayout.h"
// ccx: dumps the resolved AST of one C translation unit as compact JSON.
// Only declarations whose expansion location lies under one of the given roots
// are dumped.  Expressions are normalised: implicit casts, parentheses and
// no-op casts are removed; null pointer constants become {"k":"null"}.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/Expr.h"
#include "clang/AST/Stmt.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  json::OStream &J;
  PrintingPolicy PP;
  Dumper(ASTContext &C, json::OStream &J)
      : C(C), SM(C.getSourceManager()), J(J), PP(C.getLangOpts()) {}

  std::string fileOf(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
    if (P.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)));
    if (FE) {
      StringRef rp = FE->getFileEntry().tryGetRealPathName();
      if (!rp.empty()) return rp.str();
      return FE->getName().str();
    }
    return P.getFilename();
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }

  std::string declId(const ValueDecl *D) {
    // globals and functions: by name; locals: name#line.col
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDeclOrParm()) {
        SourceLocation L = SM.getExpansionLoc(V->getLocation());
        std::string s = V->getNameAsString();
        s += "#" + std::to_string(SM.getExpansionLineNumber(L)) + "." +
             std::to_string(SM.getSpellingColumnNumber(SM.getSpellingLoc(V->getLocation())));
        return s;
      }
    }
    return D->getNameAsString();
  }
  void macros(SourceLocation L) {
    if (!L.isMacroID()) return;
    J.attributeBegin("m");
    J.arrayBegin();
    int n = 0;
    std::string last;
    while (L.isMacroID() && n++ < 12) {
      StringRef name = Lexer::getImmediateMacroName(L, SM, C.getLangOpts());
      if (name.str() != last) J.value(name);
      last = name.str();
      L = SM.getImmediateMacroCallerLoc(L);
    }
    J.arrayEnd();
    J.attributeEnd();
  }
  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *I = dyn_cast<ImplicitCastExpr>(E)) { E = I->getSubExpr(); continue; }
      if (auto *K = dyn_cast<ConstantExpr>(E)) { E = K->getSubExpr(); continue; }
      if (auto *F = dyn_cast<FullExpr>(E)) { E = F->getSubExpr(); continue; }
      if (auto *G = dyn_cast<GenericSelectionExpr>(E)) { E = G->getResultExpr(); continue; }
      if (auto *Ch = dyn_cast<ChooseExpr>(E)) { E = Ch->getChosenSubExpr(); continue; }
      if (auto *O = dyn_cast<OpaqueValueExpr>(E)) { if (O->getSourceExpr()) { E = O->getSourceExpr(); continue; } }
      if (auto *U = dyn_cast<UnaryOperator>(E)) if (U->getOpcode() == UO_Extension) { E = U->getSubExpr(); continue; }
      return E;
    }
  }
  void str(StringRef s) {
    if (llvm::json::isUTF8(s)) J.value(s);
    else J.value(llvm::json::fixUTF8(s));
  }
  void exprAttr(const char *name, const Expr *E) {
    J.attributeBegin(name);
    expr(E);
    J.attributeEnd();
  }
  void expr(const Expr *E0) {
    if (!E0) { J.value(nullptr); return; }
    QualType T0 = E0->getType();
    bool nullptrc = false;
    if (T0->isPointerType() &&
        E0->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNotNull) != Expr::NPCK_NotNull)
      nullptrc = true;
    const Expr *E = strip(E0);
    J.objectBegin();
    J.attribute("l", lineOf(E->getBeginLoc()));
    J.attribute("t", ty(T0));
    if (nullptrc) {
      J.attribute("k", "null");
      J.objectEnd();
      return;
    }
    macros(E->getExprLoc());
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      J.attribute("k", "int");
      J.attribute("v", (int64_t)X->getValue().getLimitedValue());
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      J.attribute("k", "int");
      J.attribute("v", (int64_t)X->getValue());
      J.attribute("chr", true);
    } else if (isa<CXXBoolLiteralExpr>(E)) {
      J.attribute("k", "int");
      J.attribute("v", (int64_t)cast<CXXBoolLiteralExpr>(E)->getValue());
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      J.attribute("k", "float");
      J.attribute("v", X->getValueAsApproximateDouble());
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      J.attribute("k", "str");
      J.attributeBegin("v"); str(X->getBytes()); J.attributeEnd();
    } else if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      J.attribute("k", "str");
      J.attribute("pre", true);
      J.attributeBegin("v"); str(X->getFunctionName()->getBytes()); J.attributeEnd();
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        J.attribute("k", "enum");
        J.attribute("n", EC->getNameAsString());
        J.attribute("v", (int64_t)EC->getInitVal().getExtValue());
      } else if (isa<FunctionDecl>(D)) {
        J.attribute("k", "fn");
        J.attribute("n", D->getNameAsString());
      } else {
        J.attribute("k", "var");
        auto *V = dyn_cast<VarDecl>(D);
        const char *sc = "local";
        if (V) {
          if (isa<ParmVarDecl>(V)) sc = "param";
          else if (!V->isLocalVarDecl()) sc = V->getStorageClass() == SC_Static ? "sglobal" : "global";
          else if (V->isStaticLocal()) sc = "slocal";
        }
        J.attribute("sc", sc);
        J.attribute("n", declId(D));
      }
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      J.attribute("k", "mem");
      const FieldDecl *F = dyn_cast<FieldDecl>(X->getMemberDecl());
      J.attribute("f", X->getMemberDecl()->getNameAsString());
      if (F) J.attribute("rec", F->getParent()->getNameAsString());
      J.attribute("arrow", X->isArrow());
      exprAttr("b", X->getBase());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      J.attribute("k", "idx");
      exprAttr("b", X->getBase());
      exprAttr("i", X->getIdx());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      J.attribute("k", "un");
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      J.attribute("op", op);
      exprAttr("a", X->getSubExpr());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      std::string op = X->getOpcodeStr().str();
      if (X->isAssignmentOp()) {
        J.attribute("k", "asg");
        J.attribute("op", op);
      } else {
        J.attribute("k", "bin");
        J.attribute("op", op);
      }
      exprAttr("a", X->getLHS());
      exprAttr("b", X->getRHS());
    } else if (auto *X = dyn_cast<BinaryConditionalOperator>(E)) {
      J.attribute("k", "cond");
      exprAttr("c", X->getCommon());
      exprAttr("a", X->getCommon());
      exprAttr("b", X->getFalseExpr());
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      J.attribute("k", "cond");
      exprAttr("c", X->getCond());
      exprAttr("a", X->getTrueExpr());
      exprAttr("b", X->getFalseExpr());
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      J.attribute("k", "call");
      const FunctionDecl *FD = X->getDirectCallee();
      if (FD) J.attribute("n", FD->getNameAsString());
      else exprAttr("fn", X->getCallee());
      J.attributeBegin("args");
      J.arrayBegin();
      for (auto *A : X->arguments()) expr(A);
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J.attribute("k", "int");
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C)) J.attribute("v", (int64_t)R.Val.getInt().getExtValue());
      else J.attribute("v", (int64_t)-1);
      J.attribute("sizeof", ty(X->getTypeOfArgument()));
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() && X->getSyntacticForm()) {}
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      J.attribute("k", "init");
      QualType T = S->getType();
      if (auto *RT = T->getAsStructureType()) {
        J.attribute("rec", RT->getDecl()->getNameAsString());
        J.attributeBegin("fields");
        J.objectBegin();
        unsigned i = 0;
        for (auto *F : RT->getDecl()->fields()) {
          if (i >= S->getNumInits()) break;
          if (!isa<ImplicitValueInitExpr>(S->getInit(i)))
            exprAttr(F->getName().empty() ? "_anon" : F->getNameAsString().c_str(), S->getInit(i));
          i++;
        }
        J.objectEnd();
        J.attributeEnd();
      } else if (T->isUnionType()) {
        J.attributeBegin("fields");
        J.objectBegin();
        if (S->getInitializedFieldInUnion() && S->getNumInits() > 0)
          exprAttr(S->getInitializedFieldInUnion()->getNameAsString().c_str(), S->getInit(0));
        J.objectEnd();
        J.attributeEnd();
      } else {
        J.attributeBegin("elems");
        J.arrayBegin();
        for (unsigned i = 0; i < S->getNumInits(); i++) {
          if (isa<ImplicitValueInitExpr>(S->getInit(i))) J.value(nullptr);
          else expr(S->getInit(i));
        }
        J.arrayEnd();
        J.attributeEnd();
        if (auto *AT = C.getAsConstantArrayType(T))
          J.attribute("size", (int64_t)AT->getSize().getZExtValue());
      }
    } else if (auto *X = dyn_cast<CompoundLiteralExpr>(E)) {
      J.attribute("k", "complit");
      exprAttr("a", X->getInitializer());
    } else if (auto *X = dyn_cast<CStyleCastExpr>(E)) {
      J.attribute("k", "cast");
      exprAttr("a", X->getSubExpr());
    } else if (auto *X = dyn_cast<StmtExpr>(E)) {
      J.attribute("k", "stmtexpr");
      J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
    } else if (auto *X = dyn_cast<VAArgExpr>(E)) {
      J.attribute("k", "vaarg");
      exprAttr("a", X->getSubExpr());
    } else if (isa<ImplicitValueInitExpr>(E)) {
      J.attribute("k", "int"); J.attribute("v", (int64_t)0);
    } else {
      Expr::EvalResult R;
      if (E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) {
        J.attribute("k", "int");
        J.attribute("v", (int64_t)R.Val.getInt().getExtValue());
      } else {
        J.attribute("k", "other");
        J.attribute("cls", E->getStmtClassName());
        J.attributeBegin("subs");
        J.arrayBegin();
        for (const Stmt *S : E->children())
          if (S) if (auto *SE = dyn_cast<Expr>(S)) expr(SE);
        J.arrayEnd();
        J.attributeEnd();
      }
    }
    J.objectEnd();
  }
  void varDecl(const VarDecl *V) {
    J.objectBegin();
    J.attribute("n", declId(V));
    J.attribute("t", ty(V->getType()));
    J.attribute("ts", V->getType().getAsString(PP));
    J.attribute("l", lineOf(V->getLocation()));
    if (V->isStaticLocal()) J.attribute("static", true);
    if (V->hasInit()) exprAttr("init", V->getInit());
    J.objectEnd();
  }
  void stmtAttr(const char *n, const Stmt *S) {
    J.attributeBegin(n); stmt(S); J.attributeEnd();
  }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) {
      J.objectBegin();
      J.attribute("s", "expr");
      J.attribute("l", lineOf(E->getBeginLoc()));
      exprAttr("e", E);
      J.objectEnd();
      return;
    }
    J.objectBegin();
    J.attribute("l", lineOf(S->getBeginLoc()));
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      J.attribute("s", "block");
      J.attribute("e", lineOf(X->getRBracLoc()));
      J.attributeBegin("b");
      J.arrayBegin();
      for (auto *c : X->body()) stmt(c);
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      J.attribute("s", "decl");
      J.attributeBegin("v");
      J.arrayBegin();
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) varDecl(V);
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      J.attribute("s", "if");
      exprAttr("c", X->getCond());
      stmtAttr("a", X->getThen());
      stmtAttr("b", X->getElse());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      J.attribute("s", "while");
      exprAttr("c", X->getCond());
      stmtAttr("b", X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      J.attribute("s", "do");
      exprAttr("c", X->getCond());
      stmtAttr("b", X->getBody());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      J.attribute("s", "for");
      stmtAttr("i", X->getInit());
      exprAttr("c", X->getCond());
      exprAttr("n", X->getInc());
      stmtAttr("b", X->getBody());
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      J.attribute("s", "switch");
      exprAttr("c", X->getCond());
      stmtAttr("b", X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      J.attribute("s", "case");
      Expr::EvalResult R;
      if (X->getLHS()->EvaluateAsInt(R, C)) J.attribute("v", (int64_t)R.Val.getInt().getExtValue());
      exprAttr("c", X->getLHS());
      stmtAttr("b", X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      J.attribute("s", "default");
      stmtAttr("b", X->getSubStmt());
    } else if (isa<BreakStmt>(S)) J.attribute("s", "break");
    else if (isa<ContinueStmt>(S)) J.attribute("s", "continue");
    else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      J.attribute("s", "ret");
      if (X->getRetValue()) exprAttr("e", X->getRetValue());
    } else if (auto *X = dyn_cast<GotoStmt>(S)) {
      J.attribute("s", "goto");
      J.attribute("n", X->getLabel()->getName());
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      J.attribute("s", "label");
      J.attribute("n", X->getDecl()->getName());
      stmtAttr("b", X->getSubStmt());
    } else if (isa<NullStmt>(S)) J.attribute("s", "null");
    else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      J.attribute("s", "block");
      J.attributeBegin("b"); J.arrayBegin(); stmt(X->getSubStmt()); J.arrayEnd(); J.attributeEnd();
    } else {
      J.attribute("s", "other");
      J.attribute("cls", S->getStmtClassName());
    }
    J.objectEnd();
  }
  void run() {
    J.objectBegin();
    auto &SMm = SM;
    J.attribute("tu", fileOf(SMm.getLocForStartOfFile(SMm.getMainFileID())));
    auto *TU = C.getTranslationUnitDecl();
    J.attributeBegin("functions");
    J.arrayBegin();
    for (auto *D : TU->decls()) {
      auto *F = dyn_cast<FunctionDecl>(D);
      if (!F || !inRoots(F->getLocation())) continue;
      if (F->getStorageClass() == SC_Static && F->doesThisDeclarationHaveABody() &&
          !F->isReferenced() && !F->isUsed()) continue;
      J.objectBegin();
      J.attribute("name", F->getNameAsString());
      J.attribute("file", fileOf(F->getLocation()));
      J.attribute("line", lineOf(F->getLocation()));
      J.attribute("static", F->getStorageClass() == SC_Static);
      J.attribute("variadic", F->isVariadic());
      J.attribute("ret", ty(F->getReturnType()));
      J.attributeBegin("params");
      J.arrayBegin();
      for (auto *P : F->parameters()) {
        J.objectBegin();
        J.attribute("n", declId(P));
        J.attribute("t", ty(P->getType()));
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      if (F->doesThisDeclarationHaveABody()) stmtAttr("body", F->getBody());
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("globals");
    J.arrayBegin();
    for (auto *D : TU->decls()) {
      auto *V = dyn_cast<VarDecl>(D);
      if (!V || !inRoots(V->getLocation())) continue;
      J.objectBegin();
      J.attribute("n", V->getNameAsString());
      J.attribute("t", ty(V->getType()));
      J.attribute("file", fileOf(V->getLocation()));
      J.attribute("line", lineOf(V->getLocation()));
      J.attribute("static", V->getStorageClass() == SC_Static);
      J.attribute("def", V->isThisDeclarationADefinition() == VarDecl::Definition);
      if (V->hasInit()) exprAttr("init", V->getInit());
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("records");
    J.objectBegin();
    std::set<std::string> seen;
    for (auto *D : TU->decls()) {
      if (auto *R = dyn_cast<RecordDecl>(D)) record(R, seen);
    }
    J.objectEnd();
    J.attributeEnd();
    J.attributeBegin("sizes");
    J.objectBegin();
    for (auto &KV : sizes) J.attribute(KV.first, KV.second);
    J.objectEnd();
    J.attributeEnd();
    J.attributeBegin("enums");
    J.objectBegin();
    std::set<std::string> seene;
    for (auto *D : TU->decls()) {
      auto *R = dyn_cast<EnumDecl>(D);
      if (!R || !R->isThisDeclarationADefinition() || !inRoots(R->getLocation())) continue;
      std::string n = R->getNameAsString();
      if (n.empty()) n = "anon@" + std::to_string(lineOf(R->getLocation()));
      if (!seene.insert(n).second) continue;
      J.attributeBegin(n);
      J.arrayBegin();
      for (auto *E : R->enumerators()) {
        J.arrayBegin(); J.value(E->getNameAsString()); J.value((int64_t)E->getInitVal().getExtValue()); J.arrayEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();
    J.objectEnd();
  }
  std::map<std::string, int64_t> sizes;
  void record(const RecordDecl *R, std::set<std::string> &seen) {
    if (!R->isThisDeclarationADefinition() || !inRoots(R->getLocation())) return;
    if (!R->getName().empty() && seen.insert(R->getNameAsString()).second) {
      recFields(R);
      if (!R->isInvalidDecl()) sizes[R->getNameAsString()] = C.getASTRecordLayout(R).getSize().getQuantity();
    }
    for (auto *D : R->decls())
      if (auto *N = dyn_cast<RecordDecl>(D)) record(N, seen);
  }
  void recFields(const RecordDecl *R) {
    J.attributeBegin(R->getNameAsString());
    J.arrayBegin();
    for (auto *F : R->fields()) {
      J.objectBegin();
      J.attribute("n", F->getNameAsString());
      J.attribute("t", ty(F->getType()));
      if (!R->isInvalidDecl() && R->isCompleteDefinition() && !F->isBitField())
        J.attribute("o", (int64_t)(C.getASTRecordLayout(R).getFieldOffset(F->getFieldIndex()) / 8));
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
  }
};

class Cons : public ASTConsumer {
  std::string Out;
public:
  Cons(std::string O) : Out(O) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code EC;
    llvm::raw_fd_ostream os(Out, EC);
    json::OStream J(os);
    Dumper(C, J).run();
  }
};
static std::string OutFile;
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Cons>(OutFile);
  }
};

// usage: ccx -o OUT -r ROOT[:ROOT..] SRC -- clang args
int main(int argc, const char **argv) {
  std::string src;
  std::vector<std::string> args;
  int i = 1;
  for (; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--") { i++; break; }
    if (a == "-o") OutFile = argv[++i];
    else if (a == "-r") Roots.push_back(argv[++i]);
    else src = a;
  }
  for (; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {src});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
