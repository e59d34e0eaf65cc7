// Exports the (instantiated) AST of every function defined below a source root
// as JSON.  This is a mechanical dump: no simplification beyond dropping
// value-preserving wrapper nodes (parentheses, cleanups, temporaries).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>
#include <iostream>
using namespace clang;
using llvm::json::OStream;

static std::string ROOT, OUT;

struct Dumper {
  ASTContext &C; OStream &J; PrintingPolicy PP; SourceManager &SM;
  std::map<const Decl*, int> ids;
  Dumper(ASTContext &c, OStream &j):C(c),J(j),PP(c.getPrintingPolicy()),SM(c.getSourceManager()){
    PP.SuppressTagKeyword=true; PP.FullyQualifiedName=true; PP.PrintCanonicalTypes=true; PP.SuppressInlineNamespace=false; PP.Bool=true;
  }
  std::string ty(QualType T){ return T.getCanonicalType().getAsString(PP); }
  int id(const Decl*D){ D=D->getCanonicalDecl(); auto it=ids.find(D); if(it!=ids.end()) return it->second; int n=ids.size()+1; ids[D]=n; return n; }
  int line(SourceLocation L){ return SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L){ return SM.getFilename(SM.getExpansionLoc(L)).str(); }
  std::string qn(const NamedDecl*D){ std::string s; llvm::raw_string_ostream o(s); D->printQualifiedName(o,PP); return o.str(); }
  void fnref(const FunctionDecl*F){
    J.attribute("q",qn(F)); J.attribute("fid",fkey(F));
  }
  std::string fkey(const FunctionDecl*F){
    // qualified name (with class template args) + canonical function type
    std::string s;
    if(auto*M=dyn_cast<CXXMethodDecl>(F)){
      s = ty(C.getRecordType(M->getParent()))+"::"+M->getNameAsString();
    } else s=qn(F);
    if(auto*A=F->getTemplateSpecializationArgs()){
      s+="<"; std::string b; llvm::raw_string_ostream o(b);
      for(unsigned i=0;i<A->size();i++){ if(i) o<<","; A->get(i).print(PP,o,true);} s+=o.str()+">"; }
    s+="|"+ty(F->getType());
    return s;
  }
  void expr(const Expr*E){
    if(!E){ J.value(nullptr); return; }
    // wrappers
    while(true){
      if(auto*x=dyn_cast<ParenExpr>(E)) E=x->getSubExpr();
      else if(auto*x=dyn_cast<ExprWithCleanups>(E)) E=x->getSubExpr();
      else if(auto*x=dyn_cast<MaterializeTemporaryExpr>(E)) E=x->getSubExpr();
      else if(auto*x=dyn_cast<CXXBindTemporaryExpr>(E)) E=x->getSubExpr();
      else if(auto*x=dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E=x->getReplacement();
      else if(auto*x=dyn_cast<ConstantExpr>(E)) E=x->getSubExpr();
      else if(auto*x=dyn_cast<CXXDefaultArgExpr>(E)) E=x->getExpr();
      else if(auto*x=dyn_cast<CXXDefaultInitExpr>(E)) E=x->getExpr();
      else if(auto*x=dyn_cast<CXXStdInitializerListExpr>(E)) E=x->getSubExpr();
      else break;
    }
    J.object([&]{
      J.attribute("ln",line(E->getExprLoc()));
      J.attribute("t",ty(E->getType()));
      if(auto*x=dyn_cast<IntegerLiteral>(E)){ J.attribute("k","int"); llvm::SmallString<32> s; x->getValue().toString(s,10,x->getType()->isSignedIntegerType()); J.attribute("v",s.str()); }
      else if(auto*x=dyn_cast<FloatingLiteral>(E)){ J.attribute("k","flt");
        std::string t=Lexer::getSourceText(CharSourceRange::getTokenRange(x->getSourceRange()),SM,C.getLangOpts()).str();
        llvm::SmallString<64> s; x->getValue().toString(s,0,0); J.attribute("v",s.str()); J.attribute("src",t);}
      else if(auto*x=dyn_cast<CXXBoolLiteralExpr>(E)){ J.attribute("k","bool"); J.attribute("v",x->getValue()); }
      else if(isa<CXXNullPtrLiteralExpr>(E)||isa<GNUNullExpr>(E)){ J.attribute("k","null"); }
      else if(auto*x=dyn_cast<StringLiteral>(E)){ J.attribute("k","str"); (void)x; }
      else if(auto*x=dyn_cast<CharacterLiteral>(E)){ J.attribute("k","int"); J.attribute("v",std::to_string(x->getValue())); }
      else if(auto*x=dyn_cast<DeclRefExpr>(E)){
        auto*D=x->getDecl(); J.attribute("k","ref"); J.attribute("name",D->getNameAsString());
        if(auto*ec=dyn_cast<EnumConstantDecl>(D)){ J.attribute("dk","enum"); llvm::SmallString<32> s; ec->getInitVal().toString(s,10); J.attribute("v",s.str()); J.attribute("q",qn(D)); }
        else if(auto*F=dyn_cast<FunctionDecl>(D)){ J.attribute("dk","func"); fnref(F); }
        else if(auto*V=dyn_cast<VarDecl>(D)){ J.attribute("dk",isa<ParmVarDecl>(D)?"parm":"var"); J.attribute("id",id(D)); J.attribute("q",qn(D));
          J.attribute("dt",ty(V->getType()));
          if(V->hasGlobalStorage()){ J.attribute("glob",true); if(V->hasInit()&&V->getType().isConstQualified()&&!V->isStaticDataMember()){ J.attributeBegin("init"); expr(V->getInit()); J.attributeEnd(); } } }
        else { J.attribute("dk","other"); J.attribute("q",qn(D)); J.attribute("id",id(D)); }
        if(!isa<EnumConstantDecl>(D) && x->getType()->isIntegralOrEnumerationType()){ Expr::EvalResult R; if(x->EvaluateAsInt(R,C)){ llvm::SmallString<32> s; R.Val.getInt().toString(s,10); J.attribute("cv",s.str()); } }
      }
      else if(auto*x=dyn_cast<MemberExpr>(E)){
        J.attribute("k","mem"); J.attribute("name",x->getMemberDecl()->getNameAsString()); J.attribute("arrow",x->isArrow());
        J.attribute("mk",isa<FieldDecl>(x->getMemberDecl())?"field":(isa<FunctionDecl>(x->getMemberDecl())?"method":"other"));
        J.attribute("q",qn(x->getMemberDecl()));
        if(auto*F=dyn_cast<FieldDecl>(x->getMemberDecl())){ J.attribute("ft",ty(F->getType())); }
        J.attributeBegin("b"); expr(x->getBase()); J.attributeEnd();
      }
      else if(auto*x=dyn_cast<CXXMemberCallExpr>(E)){
        J.attribute("k","mcall");
        auto*M=x->getMethodDecl();
        if(M){ J.attribute("name",M->getNameAsString()); fnref(M); J.attribute("cls",ty(C.getRecordType(M->getParent())));
          bool qual=false; if(auto*me=dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) qual=me->hasQualifier();
          J.attribute("virt",M->isVirtual()&&!qual);
          if(auto*A=M->getTemplateSpecializationArgs()){ std::string b; llvm::raw_string_ostream o(b); for(unsigned i=0;i<A->size();i++){ if(i) o<<","; A->get(i).print(PP,o,true);} J.attribute("targs",o.str()); }
          const Expr*ob=x->getImplicitObjectArgument(); J.attribute("arrow",ob->getType()->isPointerType());
          J.attributeBegin("obj"); expr(ob); J.attributeEnd();
        } else { J.attributeBegin("callee"); expr(x->getCallee()); J.attributeEnd(); }
        J.attributeArray("args",[&]{ for(auto*a:x->arguments()) expr(a); });
      }
      else if(auto*x=dyn_cast<CXXOperatorCallExpr>(E)){
        J.attribute("k","opcall"); J.attribute("op",getOperatorSpelling(x->getOperator()));
        if(auto*F=x->getDirectCallee()){ fnref(F); J.attribute("member",isa<CXXMethodDecl>(F)); if(auto*M=dyn_cast<CXXMethodDecl>(F)) J.attribute("cls",ty(C.getRecordType(M->getParent()))); }
        J.attributeArray("args",[&]{ for(auto*a:x->arguments()) expr(a); });
      }
      else if(auto*x=dyn_cast<CallExpr>(E)){
        J.attribute("k","call");
        if(auto*F=x->getDirectCallee()){ fnref(F); J.attribute("name",F->getNameAsString());
          if(auto*A=F->getTemplateSpecializationArgs()){ std::string b; llvm::raw_string_ostream o(b); for(unsigned i=0;i<A->size();i++){ if(i) o<<","; A->get(i).print(PP,o,true);} J.attribute("targs",o.str()); } }
        else { J.attributeBegin("callee"); expr(x->getCallee()); J.attributeEnd(); }
        J.attributeArray("args",[&]{ for(auto*a:x->arguments()) expr(a); });
      }
      else if(auto*x=dyn_cast<CXXConstructExpr>(E)){
        J.attribute("k","ctor"); fnref(x->getConstructor()); J.attribute("cls",ty(C.getRecordType(x->getConstructor()->getParent())));
        J.attribute("copy",x->getConstructor()->isCopyOrMoveConstructor());
        J.attribute("list",x->isListInitialization());
        J.attributeArray("args",[&]{ for(auto*a:x->arguments()) expr(a); });
      }
      else if(auto*x=dyn_cast<CXXNewExpr>(E)){
        J.attribute("k","new"); J.attribute("at",ty(x->getAllocatedType()));
        J.attributeBegin("init"); expr(x->getInitializer()); J.attributeEnd();
        J.attributeBegin("size"); if(auto s=x->getArraySize()) expr(*s); else J.value(nullptr); J.attributeEnd();
      }
      else if(auto*x=dyn_cast<CXXDeleteExpr>(E)){ J.attribute("k","delete"); J.attributeBegin("e"); expr(x->getArgument()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<CompoundAssignOperator>(E)){ J.attribute("k","cassign"); std::string o=x->getOpcodeStr().str(); J.attribute("op",o.substr(0,o.size()-1)); J.attribute("ct",ty(x->getComputationResultType())); J.attributeBegin("l"); expr(x->getLHS()); J.attributeEnd(); J.attributeBegin("r"); expr(x->getRHS()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<BinaryOperator>(E)){ J.attribute("k","bin"); J.attribute("op",x->getOpcodeStr()); J.attributeBegin("l"); expr(x->getLHS()); J.attributeEnd(); J.attributeBegin("r"); expr(x->getRHS()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<UnaryOperator>(E)){ J.attribute("k","un"); J.attribute("op",UnaryOperator::getOpcodeStr(x->getOpcode())); J.attribute("post",x->isPostfix()); J.attributeBegin("e"); expr(x->getSubExpr()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<ConditionalOperator>(E)){ J.attribute("k","cond"); J.attributeBegin("c"); expr(x->getCond()); J.attributeEnd(); J.attributeBegin("a"); expr(x->getTrueExpr()); J.attributeEnd(); J.attributeBegin("b"); expr(x->getFalseExpr()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<CastExpr>(E)){ J.attribute("k","cast"); J.attribute("ck",x->getCastKindName()); J.attribute("imp",isa<ImplicitCastExpr>(x)); J.attributeBegin("e"); expr(x->getSubExpr()); J.attributeEnd(); }
      else if(isa<CXXThisExpr>(E)){ J.attribute("k","this"); }
      else if(auto*x=dyn_cast<ArraySubscriptExpr>(E)){ J.attribute("k","idx"); J.attributeBegin("b"); expr(x->getBase()); J.attributeEnd(); J.attributeBegin("i"); expr(x->getIdx()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<InitListExpr>(E)){ const InitListExpr*s=x->isSemanticForm()?x:x->getSemanticForm(); if(!s) s=x; J.attribute("k","ilist"); J.attributeArray("args",[&]{ for(auto*a:s->inits()) expr(a); }); }
      else if(auto*x=dyn_cast<CXXScalarValueInitExpr>(E)){ J.attribute("k","zero"); (void)x; }
      else if(isa<ImplicitValueInitExpr>(E)){ J.attribute("k","zero"); }
      else if(auto*x=dyn_cast<LambdaExpr>(E)){ J.attribute("k","lambda"); J.attributeArray("params",[&]{ for(auto*p:x->getCallOperator()->parameters()) var(p); }); 
        J.attributeArray("caps",[&]{ for(auto&c:x->captures()){ if(c.capturesVariable()) J.object([&]{ J.attribute("id",id(c.getCapturedVar())); J.attribute("name",c.getCapturedVar()->getNameAsString()); J.attribute("byref",c.getCaptureKind()==LCK_ByRef); }); } });
        J.attribute("cls",ty(E->getType()));
        J.attributeBegin("body"); stmt(x->getBody()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<UnaryExprOrTypeTraitExpr>(E)){ J.attribute("k","int"); Expr::EvalResult R; if(x->EvaluateAsInt(R,C)){ llvm::SmallString<32> s; R.Val.getInt().toString(s,10); J.attribute("v",s.str()); } }
      else { J.attribute("k","unsupported"); J.attribute("what",E->getStmtClassName()); }
    });
  }
  void var(const VarDecl*V){
    J.object([&]{ J.attribute("id",id(V)); J.attribute("name",V->getNameAsString()); J.attribute("t",ty(V->getType())); J.attribute("ln",line(V->getLocation()));
      if(V->isStaticLocal()) J.attribute("static",true);
      if(!isa<ParmVarDecl>(V)&&V->hasInit()){ J.attributeBegin("init"); expr(V->getInit()); J.attributeEnd(); } });
  }
  void stmt(const Stmt*S){
    if(!S){ J.value(nullptr); return; }
    if(auto*E=dyn_cast<Expr>(S)){ J.object([&]{ J.attribute("k","expr"); J.attribute("ln",line(E->getExprLoc())); J.attributeBegin("e"); expr(E); J.attributeEnd(); }); return; }
    J.object([&]{
      J.attribute("ln",line(S->getBeginLoc()));
      if(auto*x=dyn_cast<CompoundStmt>(S)){ J.attribute("k","block"); J.attributeArray("b",[&]{ for(auto*s:x->body()) stmt(s); }); }
      else if(auto*x=dyn_cast<DeclStmt>(S)){ J.attribute("k","decl"); J.attributeArray("v",[&]{ for(auto*d:x->decls()) if(auto*v=dyn_cast<VarDecl>(d)) var(v); }); }
      else if(auto*x=dyn_cast<IfStmt>(S)){ J.attribute("k","if"); if(x->getConditionVariable()||x->getInit()) J.attribute("unsup",true); J.attributeBegin("c"); expr(x->getCond()); J.attributeEnd(); J.attributeBegin("a"); stmt(x->getThen()); J.attributeEnd(); J.attributeBegin("e"); stmt(x->getElse()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<ForStmt>(S)){ J.attribute("k","for"); J.attributeBegin("init"); stmt(x->getInit()); J.attributeEnd(); J.attributeBegin("c"); expr(x->getCond()); J.attributeEnd(); J.attributeBegin("inc"); expr(x->getInc()); J.attributeEnd(); J.attributeBegin("b"); stmt(x->getBody()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<WhileStmt>(S)){ J.attribute("k","while"); J.attributeBegin("c"); expr(x->getCond()); J.attributeEnd(); J.attributeBegin("b"); stmt(x->getBody()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<DoStmt>(S)){ J.attribute("k","do"); J.attributeBegin("c"); expr(x->getCond()); J.attributeEnd(); J.attributeBegin("b"); stmt(x->getBody()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<CXXForRangeStmt>(S)){ J.attribute("k","forrange"); J.attributeBegin("range"); expr(x->getRangeInit()); J.attributeEnd(); J.attributeBegin("v"); var(x->getLoopVariable()); J.attributeEnd(); J.attributeBegin("b"); stmt(x->getBody()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<ReturnStmt>(S)){ J.attribute("k","ret"); J.attributeBegin("e"); expr(x->getRetValue()); J.attributeEnd(); }
      else if(isa<BreakStmt>(S)) J.attribute("k","break");
      else if(isa<ContinueStmt>(S)) J.attribute("k","continue");
      else if(isa<NullStmt>(S)) J.attribute("k","null");
      else if(auto*x=dyn_cast<SwitchStmt>(S)){ J.attribute("k","switch"); J.attributeBegin("c"); expr(x->getCond()); J.attributeEnd(); J.attributeBegin("b"); stmt(x->getBody()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<CaseStmt>(S)){ J.attribute("k","case"); Expr::EvalResult R; if(x->getLHS()->EvaluateAsInt(R,C)){ llvm::SmallString<32> s; R.Val.getInt().toString(s,10); J.attribute("v",s.str()); } J.attributeBegin("b"); stmt(x->getSubStmt()); J.attributeEnd(); }
      else if(auto*x=dyn_cast<DefaultStmt>(S)){ J.attribute("k","default"); J.attributeBegin("b"); stmt(x->getSubStmt()); J.attributeEnd(); }
      else { J.attribute("k","unsupported"); J.attribute("what",S->getStmtClassName()); }
    });
  }
  void func(const FunctionDecl*F){
    J.object([&]{
      J.attribute("q",qn(F)); J.attribute("fid",fkey(F)); J.attribute("name",F->getNameAsString()); J.attribute("file",file(F->getLocation())); J.attribute("ln",line(F->getLocation())); J.attribute("endln",line(F->getEndLoc()));
      J.attribute("ret",ty(F->getReturnType()));
      J.attributeArray("params",[&]{ for(auto*p:F->parameters()) var(p); });
      if(auto*M=dyn_cast<CXXMethodDecl>(F)){ J.attribute("cls",ty(C.getRecordType(M->getParent()))); J.attribute("const",M->isConst()); J.attribute("static",M->isStatic()); J.attribute("virt",M->isVirtual());
        J.attributeArray("over",[&]{ for(auto*o:M->overridden_methods()) J.value(fkey(o)); }); }
      if(auto*K=dyn_cast<CXXConstructorDecl>(F)){ J.attribute("ctor",true); J.attribute("implicit",K->isImplicit()||K->isDefaulted());
        J.attributeArray("inits",[&]{ for(auto*i:K->inits()) J.object([&]{ if(i->isMemberInitializer()) J.attribute("field",i->getMember()->getNameAsString()); else if(i->isBaseInitializer()) J.attribute("base",ty(QualType(i->getBaseClass(),0))); else if(i->isDelegatingInitializer()) J.attribute("deleg",true); J.attributeBegin("e"); expr(i->getInit()); J.attributeEnd(); }); }); }
      J.attributeBegin("body"); stmt(F->getBody()); J.attributeEnd();
    });
  }
};

struct V : RecursiveASTVisitor<V> {
  ASTContext &C; std::vector<const FunctionDecl*> fs; std::vector<const CXXRecordDecl*> rs; std::vector<const EnumConstantDecl*> es;
  std::set<const Decl*> seen;
  V(ASTContext&c):C(c){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool inRoot(SourceLocation L){ auto&SM=C.getSourceManager(); auto f=SM.getFilename(SM.getExpansionLoc(L)); return f.starts_with(ROOT); }
  bool VisitFunctionDecl(FunctionDecl*F){
    if(!F->doesThisDeclarationHaveABody()||F->isDependentContext()) return true;
    if(!inRoot(F->getLocation())) return true;
    if(isa<CXXMethodDecl>(F)&&cast<CXXMethodDecl>(F)->getParent()->isLambda()) return true;
    if(isa<CXXDestructorDecl>(F)) return true;
    if(F->isDefaulted()&&!isa<CXXConstructorDecl>(F)) return true;
    if(seen.insert(F).second) fs.push_back(F);
    return true;
  }
  bool VisitEnumConstantDecl(EnumConstantDecl*E){ if(inRoot(E->getLocation())&&seen.insert(E).second) es.push_back(E); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl*R){
    if(!R->isThisDeclarationADefinition()||R->isDependentContext()||R->isLambda()) return true;
    auto L=R->getLocation(); if(auto*S=dyn_cast<ClassTemplateSpecializationDecl>(R)) L=S->getSpecializedTemplate()->getLocation();
    if(!inRoot(L)) return true;
    if(seen.insert(R).second) rs.push_back(R);
    return true;
  }
};
struct Cons : ASTConsumer {
  CompilerInstance &CI; Cons(CompilerInstance&c):CI(c){}
  void HandleTranslationUnit(ASTContext&C) override {
    if(C.getDiagnostics().hasErrorOccurred()) return;
    V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec; llvm::raw_fd_ostream os(OUT,ec); OStream J(os);
    Dumper D(C,J);
    J.object([&]{
      J.attributeArray("functions",[&]{ for(auto*f:v.fs) D.func(f); });
      J.attributeObject("enums",[&]{ for(auto*e:v.es){ llvm::SmallString<32> t; e->getInitVal().toString(t,10); J.attribute(D.qn(e),t.str()); } });
      J.attributeArray("enumtypes",[&]{ std::set<std::string> u; for(auto*e:v.es) u.insert(D.ty(e->getType())); for(auto&x:u) J.value(x); });
      J.attributeArray("records",[&]{ for(auto*r:v.rs) J.object([&]{
        J.attribute("q",D.ty(C.getRecordType(r)));
        J.attributeArray("bases",[&]{ for(auto&b:r->bases()) J.value(D.ty(b.getType())); });
        J.attributeArray("fields",[&]{ for(auto*f:r->fields()) J.object([&]{ J.attribute("name",f->getNameAsString()); J.attribute("t",D.ty(f->getType())); if(f->hasInClassInitializer()){ J.attributeBegin("init"); D.expr(f->getInClassInitializer()); J.attributeEnd(); } }); });
      }); });
    });
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&CI,StringRef) override { return std::make_unique<Cons>(CI); }
};
int main(int argc,char**argv){
  // export ROOT OUT SRC flags...
  if(argc<4) return 2;
  ROOT=argv[1]; OUT=argv[2]; std::string src=argv[3];
  std::vector<std::string> args; for(int i=4;i<argc;i++) args.push_back(argv[i]);
  std::ifstream in(src); std::string code((std::istreambuf_iterator<char>(in)),{});
  bool ok=tooling::runToolOnCodeWithArgs(std::make_unique<Act>(),code,args,src,"ogvexport");
  return ok?0:1;
}
