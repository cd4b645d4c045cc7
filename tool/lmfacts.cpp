// lmfacts: dump the type-checked program (AST + CFG + records) of lightmetrica's own
// sources as JSON lines, one JSON object per line.  No code is executed; this is a
// plain clang LibTooling pass.  The rules live in /verif/lmverif/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string RootDir;                 // source root, with trailing slash
static std::unique_ptr<llvm::raw_fd_ostream> Out;
static std::set<std::string> SeenFuncs, SeenRecords, SeenVars;
static std::map<std::string, int> TypeIds;  // per process
static int Errors = 0;

static void emit(json::Value v) { *Out << v << "\n"; }

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;

    // per function state
    std::map<const Stmt*, int> Ids;
    int NextId = 0;
    std::vector<const LambdaExpr*> Lambdas;

public:
    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    // ------------------------------------------------------------------ locations
    std::pair<std::string, int> loc(SourceLocation l) {
        if (l.isInvalid()) return {"", 0};
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l), false);
        if (p.isInvalid()) return {"", 0};
        llvm::SmallString<256> path(p.getFilename());
        // make absolute, remove dots
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(l)))) {
            auto rp = FE->getFileEntry().tryGetRealPathName();
            if (!rp.empty()) return {rp.str(), (int)p.getLine()};
        }
        return {std::string(path), (int)p.getLine()};
    }
    bool ours(SourceLocation l) {
        auto f = loc(l).first;
        if (f.compare(0, RootDir.size(), RootDir) != 0) return false;
        auto rel = f.substr(RootDir.size());
        return rel.compare(0, 4, "src/") == 0 || rel.compare(0, 8, "include/") == 0 ||
               rel.compare(0, 7, "plugin/") == 0 || rel.compare(0, 8, "selftest") == 0;
    }
    bool thirdParty(SourceLocation l) {
        auto f = loc(l).first;
        return f.find("/src/ext/") != std::string::npos || f.find("/tinyobj") == std::string::npos ? false : f.size() >= 18 && f.find("tiny_obj_loader.h") != std::string::npos;
    }

    // ------------------------------------------------------------------ keys
    std::string usr(const Decl* D) {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(D, b) || b.empty()) {
            auto l = loc(D->getLocation());
            return "loc:" + l.first + ":" + std::to_string(l.second) + ":" +
                   std::to_string(SM.getExpansionColumnNumber(D->getLocation()));
        }
        return std::string(b);
    }
    std::string fkey(const FunctionDecl* F) {
        if (const FunctionDecl* Def = F->getDefinition()) F = Def;
        F = F->getCanonicalDecl();
        std::string k = usr(F);
        // lambdas and members of local classes: USRs may collide; add location
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            auto* P = M->getParent();
            if (P->isLambda() || P->isLocalClass()) {
                auto l = loc(P->getBeginLoc());
                k += "#" + l.first.substr(l.first.find_last_of('/') + 1) + ":" + std::to_string(l.second) + ":" +
                     std::to_string(SM.getExpansionColumnNumber(P->getBeginLoc())) +
                     // enclosing instantiation
                     "#" + enclosing(P);
                if (F->getTemplateSpecializationArgs()) k += "#" + targs(F);
            }
        }
        return k;
    }
    std::string targs(const FunctionDecl* F) {
        std::string s; llvm::raw_string_ostream os(s);
        if (auto* A = F->getTemplateSpecializationArgs())
            for (auto& a : A->asArray()) { a.print(PP, os, true); os << ","; }
        return os.str();
    }
    std::string enclosing(const Decl* D) {
        const DeclContext* DC = D->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (!DC) return "";
        auto* F = cast<FunctionDecl>(DC);
        return fkey(F);
    }
    std::string recName(const RecordDecl* R) {
        if (!R) return "";
        if (auto* CR = dyn_cast<CXXRecordDecl>(R); CR && CR->isLambda()) {
            auto l = loc(CR->getBeginLoc());
            return "lambda@" + l.first + ":" + std::to_string(l.second);
        }
        std::string s; llvm::raw_string_ostream os(s);
        R->printQualifiedName(os, PP);
        std::string r = os.str();
        return r;
    }
    bool isInFunc(const Decl* D) {
        const DeclContext* DC = D->getDeclContext();
        while (DC) { if (isa<FunctionDecl>(DC)) return true; DC = DC->getParent(); }
        return false;
    }
    std::string recFull(const RecordDecl* R) {  // with template args
        if (!R) return "";
        std::string n = recName(R);
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
            std::string s; llvm::raw_string_ostream os(s);
            printTemplateArgumentList(os, S->getTemplateArgs().asArray(), PP);
            n += os.str();
        }
        return n;
    }
    std::string vkey(const ValueDecl* V) {
        if (auto* VD = dyn_cast<VarDecl>(V)) {
            if (VD->isLocalVarDeclOrParm() || VD->isStaticLocal()) {
                auto l = loc(VD->getLocation());
                return VD->getNameAsString() + "@" + std::to_string(l.second) + ":" +
                       std::to_string(SM.getExpansionColumnNumber(VD->getLocation())) + ":" + std::to_string(SM.getSpellingColumnNumber(VD->getLocation()));
            }
        }
        if (isa<BindingDecl>(V)) {
            auto l = loc(V->getLocation());
            return V->getNameAsString() + "@" + std::to_string(l.second) + ":" +
                   std::to_string(SM.getExpansionColumnNumber(V->getLocation()));
        }
        return usr(V->getCanonicalDecl());
    }

    // ------------------------------------------------------------------ types
    int type(QualType T) {
        if (T.isNull()) return -1;
        QualType K = T.getCanonicalType();
        std::string s = K.getAsString(PP);
        // dedupe by canonical string + template identity
        auto it = TypeIds.find(s);
        if (it != TypeIds.end()) return it->second;
        int id = (int)TypeIds.size();
        TypeIds[s] = id;
        json::Object o;
        o["rec_kind"] = "type";
        o["id"] = id;
        o["s"] = s;
        if (K.isConstQualified()) o["const"] = true;
        if (auto* P = K->getAs<PointerType>()) { o["k"] = "ptr"; o["to"] = type(P->getPointeeType()); }
        else if (auto* R = K->getAs<ReferenceType>()) {
            o["k"] = isa<RValueReferenceType>(R) ? "rref" : "ref"; o["to"] = type(R->getPointeeType());
        } else if (auto* RT = K->getAs<RecordType>()) {
            o["k"] = "rec";
            o["rec"] = recName(RT->getDecl());
            o["full"] = recFull(RT->getDecl());
            if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RT->getDecl())) {
                json::Array a;
                for (auto& A : S->getTemplateArgs().asArray()) {
                    if (A.getKind() == TemplateArgument::Type) a.push_back(type(A.getAsType()));
                    else if (A.getKind() == TemplateArgument::Pack) {
                        for (auto& B : A.pack_elements())
                            if (B.getKind() == TemplateArgument::Type) a.push_back(type(B.getAsType()));
                    } else a.push_back(-1);
                }
                o["targs"] = std::move(a);
            }
        } else if (auto* ET = K->getAs<EnumType>()) {
            o["k"] = "enum"; 
            std::string en; llvm::raw_string_ostream os(en); ET->getDecl()->printQualifiedName(os, PP);
            o["rec"] = os.str();
            json::Array a;
            for (auto* E : ET->getDecl()->enumerators()) a.push_back(json::Array{E->getNameAsString(), E->getInitVal().getExtValue()});
            o["enums"] = std::move(a);
        } else if (auto* A = C.getAsConstantArrayType(K)) {
            o["k"] = "array"; o["to"] = type(A->getElementType()); o["size"] = (int64_t)A->getSize().getZExtValue();
        } else if (auto* F = K->getAs<FunctionProtoType>()) {
            o["k"] = "func"; (void)F;
        } else if (K->isBooleanType()) o["k"] = "bool";
        else if (K->isIntegerType()) { o["k"] = "int"; o["bits"] = (int64_t)C.getTypeSize(K); o["uns"] = K->isUnsignedIntegerType(); }
        else if (K->isFloatingType()) { o["k"] = "float"; o["bits"] = (int64_t)C.getTypeSize(K); }
        else if (K->isVoidType()) o["k"] = "void";
        else o["k"] = "other";
        emit(std::move(o));
        return id;
    }

    // ------------------------------------------------------------------ expressions
    const Stmt* strip(const Stmt* S) {
        while (S) {
            if (auto* E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<ImplicitCastExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<ConstantExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<ArrayInitLoopExpr>(S)) S = E->getCommonExpr()->getSourceExpr();
            else if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
            else if (auto* E = dyn_cast<CXXStdInitializerListExpr>(S)) S = E->getSubExpr();
            else if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) S = E->getExpr();
            else if (auto* E = dyn_cast<AttributedStmt>(S)) S = E->getSubStmt();
            else break;
        }
        return S;
    }
    int idOf(const Stmt* S) {
        S = strip(S);
        auto it = Ids.find(S);
        return it == Ids.end() ? -1 : it->second;
    }

    json::Object declRef(const ValueDecl* D) {
        json::Object o;
        o["n"] = D->getNameAsString();
        if (auto* F = dyn_cast<FunctionDecl>(D)) {
            o["dk"] = "func"; o["d"] = fkey(F); o["qn"] = F->getQualifiedNameAsString();
        } else if (auto* E = dyn_cast<EnumConstantDecl>(D)) {
            o["dk"] = "enum"; o["d"] = usr(E); o["v"] = E->getInitVal().getExtValue();
            o["qn"] = E->getQualifiedNameAsString();
        } else if (auto* P = dyn_cast<ParmVarDecl>(D)) {
            o["dk"] = "param"; o["d"] = vkey(P); o["idx"] = (int)P->getFunctionScopeIndex();
        } else if (auto* V = dyn_cast<VarDecl>(D)) {
            if (V->isLocalVarDecl() && !V->isStaticLocal() && V->getTLSKind() == VarDecl::TLS_None) o["dk"] = "local";
            else if (V->getTLSKind() != VarDecl::TLS_None) o["dk"] = "tls";
            else if (V->isStaticLocal()) o["dk"] = "static_local";
            else o["dk"] = "global";
            o["d"] = vkey(V);
            if (V->getType().isConstQualified()) o["cst"] = true;
            if (!V->isLocalVarDecl()) o["qn"] = V->getQualifiedNameAsString();
        } else if (auto* B = dyn_cast<BindingDecl>(D)) {
            o["dk"] = "binding"; o["d"] = vkey(B);
        } else if (auto* Fd = dyn_cast<FieldDecl>(D)) {
            o["dk"] = "field"; o["d"] = usr(Fd); o["cls"] = recFull(Fd->getParent());
        } else {
            o["dk"] = "other"; o["d"] = usr(D);
        }
        return o;
    }

    void calleeInfo(json::Object& o, const FunctionDecl* F) {
        if (!F) return;
        o["f"] = fkey(F);
        o["fn"] = F->getQualifiedNameAsString();
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recFull(M->getParent());
            o["mname"] = M->getNameAsString();
            if (M->isVirtual()) o["vdecl"] = true;
            if (M->isConst()) o["mconst"] = true;
            if (M->isStatic()) o["mstatic"] = true;
        }
        json::Array pt;
        for (auto* P : F->parameters()) pt.push_back(type(P->getType()));
        o["pt"] = std::move(pt);
        if (F->isVariadic()) o["variadic"] = true;
        if (F->isNoReturn()) o["noreturn"] = true;
        if (auto* A = F->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto& a : A->asArray()) {
                if (a.getKind() == TemplateArgument::Type) ta.push_back(type(a.getAsType()));
                else if (a.getKind() == TemplateArgument::Pack) {
                    for (auto& b : a.pack_elements())
                        if (b.getKind() == TemplateArgument::Type) ta.push_back(type(b.getAsType()));
                }
            }
            o["ta"] = std::move(ta);
        }
    }

    json::Value node(const Stmt* S0) {
        const Stmt* S = strip(S0);
        if (!S) return nullptr;
        if (auto* D = dyn_cast<CXXDefaultArgExpr>(S)) {
            // default arguments share sub-expressions between call sites: dump flat
            json::Object o;
            o["k"] = "DefaultArg"; o["id"] = NextId; Ids[S] = NextId++;
            o["t"] = type(D->getType());
            o["l"] = loc(D->getUsedLocation()).second;
            std::string s; llvm::raw_string_ostream os(s);
            D->getExpr()->printPretty(os, nullptr, PP);
            o["v"] = os.str();
            return o;
        }
        json::Object o;
        int id = NextId++;
        Ids[S] = id;
        o["id"] = id;
        std::string K = S->getStmtClassName();
        o["l"] = loc(S->getBeginLoc()).second;
        if (auto* E = dyn_cast<Expr>(S)) o["t"] = type(E->getType());
        json::Array c;
        auto kid = [&](const Stmt* X) { c.push_back(node(X)); };

        if (auto* R = dyn_cast<DeclRefExpr>(S)) {
            for (auto& kv : declRef(R->getDecl())) o[kv.first] = kv.second;
        } else if (auto* M = dyn_cast<MemberExpr>(S)) {
            o["n"] = M->getMemberDecl()->getNameAsString();
            if (auto* Fd = dyn_cast<FieldDecl>(M->getMemberDecl())) {
                o["dk"] = "field"; o["cls"] = recFull(Fd->getParent());
                if (Fd->isMutable()) o["mut"] = true;
            } else if (auto* Fn = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
                o["dk"] = "method"; o["d"] = fkey(Fn);
                if (auto* MM = dyn_cast<CXXMethodDecl>(Fn)) o["cls"] = recFull(MM->getParent());
            } else if (auto* V = dyn_cast<VarDecl>(M->getMemberDecl())) {
                o["dk"] = "global"; o["d"] = vkey(V); o["qn"] = V->getQualifiedNameAsString();
            } else o["dk"] = "other";
            if (M->isArrow()) o["arrow"] = true;
            kid(M->getBase());
        } else if (auto* CE = dyn_cast<CallExpr>(S)) {
            if (auto* F = CE->getDirectCallee()) calleeInfo(o, F);
            if (auto* MC = dyn_cast<CXXMemberCallExpr>(S)) {
                K = "MCall";
                if (auto* ME = dyn_cast_or_null<MemberExpr>(MC->getCallee()->IgnoreParens())) {
                    if (auto* M = dyn_cast<CXXMethodDecl>(ME->getMemberDecl())) {
                        bool v = M->isVirtual() && !ME->hasQualifier();
                        if (v) o["virt"] = true;
                        if (ME->hasQualifier()) o["qual"] = true;
                    }
                    if (ME->isArrow()) o["arrow"] = true;
                    kid(ME->getBase());     // child 0 = object
                } else kid(MC->getCallee());
                for (auto* A : MC->arguments()) kid(A);
            } else if (auto* OC = dyn_cast<CXXOperatorCallExpr>(S)) {
                K = "OpCall";
                o["op"] = getOperatorSpelling(OC->getOperator());
                for (auto* A : OC->arguments()) kid(A);
            } else {
                K = "Call";
                // child 0 = callee
                kid(CE->getCallee());
                for (auto* A : CE->arguments()) kid(A);
            }
        } else if (auto* CC = dyn_cast<CXXConstructExpr>(S)) {
            K = "Construct";
            o["cls"] = recFull(CC->getConstructor()->getParent());
            o["rn"] = recName(CC->getConstructor()->getParent());
            o["f"] = fkey(CC->getConstructor());
            if (CC->getConstructor()->isCopyOrMoveConstructor()) o["cm"] = CC->getConstructor()->isMoveConstructor() ? "move" : "copy";
            if (isa<CXXTemporaryObjectExpr>(S)) o["temp"] = true;
            json::Array pt;
            for (auto* P : CC->getConstructor()->parameters()) pt.push_back(type(P->getType()));
            o["pt"] = std::move(pt);
            for (auto* A : CC->arguments()) kid(A);
        } else if (auto* L = dyn_cast<LambdaExpr>(S)) {
            Lambdas.push_back(L);
            K = "Lambda";
            auto* Op = L->getCallOperator();
            o["f"] = fkey(Op);
            if (L->isGenericLambda()) {
                json::Array sp;
                if (auto* T = Op->getDescribedFunctionTemplate())
                    for (auto* Sp : T->specializations()) sp.push_back(fkey(Sp));
                o["specs"] = std::move(sp);
            }
            json::Array caps;
            auto initIt = L->capture_init_begin();
            for (auto it = L->capture_begin(); it != L->capture_end(); ++it, ++initIt) {
                json::Object co;
                if (it->capturesThis()) { co["this"] = true; co["byref"] = it->getCaptureKind() != LCK_StarThis; }
                else if (it->capturesVariable()) {
                    co["n"] = it->getCapturedVar()->getNameAsString();
                    co["d"] = vkey(it->getCapturedVar());
                    co["byref"] = it->getCaptureKind() == LCK_ByRef;
                    if (auto* VD = dyn_cast<VarDecl>(it->getCapturedVar()); VD && VD->isInitCapture()) {
                        co["init"] = node(*initIt);
                    }
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
        } else if (auto* DS = dyn_cast<DeclStmt>(S)) {
            for (auto* D : DS->decls()) if (auto* V = dyn_cast<VarDecl>(D)) c.push_back(varNode(V));
        } else if (auto* I = dyn_cast<IfStmt>(S)) {
            if (I->isConstexpr()) o["cx"] = true;
            kid(I->getInit());
            if (auto* V = I->getConditionVariable()) c.push_back(varNode(V)); else c.push_back(nullptr);
            kid(I->getCond()); kid(I->getThen()); kid(I->getElse());
        } else if (auto* W = dyn_cast<WhileStmt>(S)) {
            if (auto* V = W->getConditionVariable()) c.push_back(varNode(V)); else c.push_back(nullptr);
            kid(W->getCond()); kid(W->getBody());
        } else if (auto* D = dyn_cast<DoStmt>(S)) {
            kid(D->getBody()); kid(D->getCond());
        } else if (auto* F = dyn_cast<ForStmt>(S)) {
            kid(F->getInit());
            if (auto* V = F->getConditionVariable()) c.push_back(varNode(V)); else c.push_back(nullptr);
            kid(F->getCond()); kid(F->getInc()); kid(F->getBody());
        } else if (auto* F = dyn_cast<CXXForRangeStmt>(S)) {
            kid(F->getInit()); kid(F->getRangeStmt()); kid(F->getBeginStmt()); kid(F->getEndStmt());
            kid(F->getCond()); kid(F->getInc()); kid(F->getLoopVarStmt()); kid(F->getBody());
            o["rng"] = true;
        } else if (auto* W = dyn_cast<SwitchStmt>(S)) {
            kid(W->getInit());
            if (auto* V = W->getConditionVariable()) c.push_back(varNode(V)); else c.push_back(nullptr);
            kid(W->getCond()); kid(W->getBody());
        } else if (auto* CS = dyn_cast<CaseStmt>(S)) {
            Expr::EvalResult r;
            if (CS->getLHS() && CS->getLHS()->EvaluateAsInt(r, C)) o["v"] = r.Val.getInt().getExtValue();
            kid(CS->getLHS()); kid(CS->getSubStmt());
        } else if (auto* B = dyn_cast<BinaryOperator>(S)) {
            K = isa<CompoundAssignOperator>(S) ? "CAssign" : "BinOp";
            o["op"] = B->getOpcodeStr().str();
            kid(B->getLHS()); kid(B->getRHS());
        } else if (auto* U = dyn_cast<UnaryOperator>(S)) {
            K = "UnOp";
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) o["post"] = true;
            kid(U->getSubExpr());
        } else if (auto* IL = dyn_cast<IntegerLiteral>(S)) {
            K = "Int"; 
            llvm::SmallString<32> sb; IL->getValue().toStringSigned(sb); o["v"] = sb.str().str();
        } else if (auto* TT = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            K = S->getStmtClassName();
            clang::Expr::EvalResult er;
            if (!TT->isValueDependent() && TT->EvaluateAsInt(er, C)) o["v"] = (int64_t)er.Val.getInt().getExtValue();
            if (TT->getKind() == UETT_SizeOf) o["szt"] = type(TT->getTypeOfArgument());
        } else if (auto* FL = dyn_cast<FloatingLiteral>(S)) {
            K = "Flt"; o["v"] = FL->getValueAsApproximateDouble();
        } else if (auto* BL = dyn_cast<CXXBoolLiteralExpr>(S)) {
            K = "Bool"; o["v"] = BL->getValue();
        } else if (auto* SL = dyn_cast<clang::StringLiteral>(S)) {
            K = "Str"; o["v"] = SL->isOrdinary() || SL->isUTF8() ? json::fixUTF8(SL->getString()) : std::string("?");
        } else if (auto* CL = dyn_cast<CharacterLiteral>(S)) {
            K = "Char"; o["v"] = (int64_t)CL->getValue();
        } else if (auto* UL = dyn_cast<UserDefinedLiteral>(S)) {
            (void)UL; K = "Udl"; kid(cast<CallExpr>(S)->getArg(0));
        } else if (auto* EC = dyn_cast<ExplicitCastExpr>(S)) {
            K = "Cast"; o["ck"] = EC->getStmtClassName(); o["ckk"] = EC->getCastKindName();
            kid(EC->getSubExpr());
        } else if (auto* IL = dyn_cast<InitListExpr>(S)) {
            K = "InitList";
            auto* Sem = IL->isSemanticForm() ? IL : (IL->getSemanticForm() ? IL->getSemanticForm() : IL);
            if (Sem != IL) Ids[Sem] = id;
            if (auto* RT = Sem->getType()->getAs<RecordType>()) {
                json::Array fl;
                if (auto* CR = dyn_cast<CXXRecordDecl>(RT->getDecl())) {
                    int nb = CR->getNumBases();
                    for (int i = 0; i < nb; i++) fl.push_back("<base>");
                }
                for (auto* Fd : RT->getDecl()->fields()) fl.push_back(Fd->getNameAsString());
                o["flds"] = std::move(fl);
                o["cls"] = recFull(RT->getDecl());
                // explicit count: how many were written
                auto* Syn = IL->isSyntacticForm() ? IL : IL->getSyntacticForm();
                if (Syn) o["nexp"] = (int)Syn->getNumInits();
            }
            for (auto* E : Sem->inits()) kid(E);
        } else if (auto* T = dyn_cast<CXXTryStmt>(S)) {
            kid(T->getTryBlock());
            for (unsigned i = 0; i < T->getNumHandlers(); i++) kid(T->getHandler(i));
        } else if (auto* H = dyn_cast<CXXCatchStmt>(S)) {
            if (!H->getExceptionDecl()) o["all"] = true;
            else { o["ct"] = type(H->getCaughtType()); o["var"] = vkey(H->getExceptionDecl()); }
            kid(H->getHandlerBlock());
        } else if (auto* TE = dyn_cast<CXXThrowExpr>(S)) {
            K = "Throw"; kid(TE->getSubExpr());
        } else if (auto* N = dyn_cast<CXXNewExpr>(S)) {
            K = "New"; o["nt"] = type(N->getAllocatedType());
            if (N->getInitializer()) kid(const_cast<Expr*>(N->getInitializer()));
        } else if (auto* De = dyn_cast<CXXDeleteExpr>(S)) {
            K = "Delete"; kid(De->getArgument());
        } else if (auto* OD = dyn_cast<OMPExecutableDirective>(S)) {
            K = "OMP"; o["dir"] = S->getStmtClassName();
            json::Array cl;
            for (auto* Cl : OD->clauses()) {
                json::Object co; co["kind"] = llvm::omp::getOpenMPClauseName(Cl->getClauseKind()).str();
                json::Array ch;
                for (auto* X : Cl->children()) if (X) ch.push_back(node(X));
                co["c"] = std::move(ch);
                cl.push_back(std::move(co));
            }
            o["clauses"] = std::move(cl);
            if (OD->hasAssociatedStmt()) {
                const Stmt* A = OD->getAssociatedStmt();
                while (auto* CS = dyn_cast_or_null<CapturedStmt>(A)) A = CS->getCapturedStmt();
                kid(A);
            }
        } else if (auto* TI = dyn_cast<CXXTypeidExpr>(S)) {
            (void)TI;
        } else {
            for (auto* X : S->children()) kid(X);
        }
        o["k"] = K;
        if (!c.empty()) o["c"] = std::move(c);
        return o;
    }

    json::Value varNode(const VarDecl* V) {
        json::Object o;
        o["k"] = "Var";
        o["id"] = NextId++;
        o["n"] = V->getNameAsString();
        o["d"] = vkey(V);
        o["t"] = type(V->getType());
        o["l"] = loc(V->getLocation()).second;
        if (V->isStaticLocal()) o["st"] = true;
        if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array b;
            for (auto* B : DD->bindings()) {
                json::Object bo;
                bo["n"] = B->getNameAsString(); bo["d"] = vkey(B); bo["t"] = type(B->getType());
                if (auto* HV = B->getHoldingVar()) { if (HV->getInit()) bo["e"] = node(HV->getInit()); }
                else if (B->getBinding()) bo["e"] = node(B->getBinding());
                b.push_back(std::move(bo));
            }
            o["bind"] = std::move(b);
        }
        json::Array c;
        c.push_back(V->hasInit() ? node(V->getInit()) : json::Value(nullptr));
        o["c"] = std::move(c);
        return o;
    }

    // ------------------------------------------------------------------ functions
    void dumpFunction(const FunctionDecl* F) {
        if (!F->doesThisDeclarationHaveABody()) {
            return;
        }
        if (F->isDependentContext()) return;
        if (!ours(F->getLocation())) {
            // lambdas etc. inside macros from third party never matter
            return;
        }
        std::string key = fkey(F);
        if (!SeenFuncs.insert(key).second) return;
        Ids.clear(); NextId = 0; Lambdas.clear();
        json::Object o;
        o["rec_kind"] = "func";
        o["key"] = key;
        o["name"] = F->getNameAsString();
        o["qn"] = F->getQualifiedNameAsString();
        auto l = loc(F->getLocation());
        o["file"] = l.first; o["line"] = l.second;
        o["ret"] = type(F->getReturnType());
        json::Array ps;
        for (auto* P : F->parameters()) {
            json::Object po; po["n"] = P->getNameAsString(); po["d"] = vkey(P); po["t"] = type(P->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (F->isTemplateInstantiation()) { o["inst"] = true;
            if (auto* Pat = F->getTemplateInstantiationPattern()) o["pattern"] = usr(Pat);
        }
        if (F->isImplicit()) o["implicit"] = true;
        if (F->isDefaulted()) o["defaulted"] = true;
        if (auto* PT = F->getType()->getAs<FunctionProtoType>(); PT && isNoexceptExceptionSpec(PT->getExceptionSpecType()) && PT->canThrow() == CT_Cannot) o["noexcept"] = true;
        if (auto* A = F->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto& a : A->asArray()) if (a.getKind() == TemplateArgument::Type) ta.push_back(type(a.getAsType()));
            o["ta"] = std::move(ta);
        }
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recFull(M->getParent());
            o["clsn"] = recName(M->getParent());
            if (M->getParent()->isLambda()) { o["lambda"] = true; }
            if (M->isVirtual()) o["virtual"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            json::Array ov;
            for (auto* B : M->overridden_methods()) ov.push_back(fkey(B));
            o["over"] = std::move(ov);
            if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
            if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) {
                o["ctor"] = true;
                json::Array in;
                for (auto* I : CD->inits()) {
                    json::Object io;
                    if (I->isMemberInitializer()) io["field"] = I->getMember()->getNameAsString();
                    else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
                    else if (I->isDelegatingInitializer()) io["deleg"] = true;
                    io["written"] = I->isWritten();
                    io["e"] = node(I->getInit());
                    in.push_back(std::move(io));
                }
                o["inits"] = std::move(in);
            }
        }
        // enclosing function (for lambdas and local classes)
        { auto e = enclosing(F); if (!e.empty()) o["parent"] = e; }
        o["body"] = node(F->getBody());
        // CFG
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.AddImplicitDtors = true;
        BO.AddInitializers = true;
        BO.PruneTriviallyFalseEdges = true;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(F, F->getBody(), &C, BO);
        if (cfg) {
            json::Array bs;
            for (auto* B : *cfg) {
                json::Object bo;
                bo["b"] = (int)B->getBlockID();
                json::Array els;
                for (auto& E : *B) {
                    if (auto S = E.getAs<CFGStmt>()) {
                        int i = idOf(S->getStmt());
                        if (i >= 0) els.push_back(i);
                        else if (auto* DS = dyn_cast<DeclStmt>(S->getStmt())) {
                            // synthesized DeclStmt (clang splits multi-declarations)
                            for (auto* D : DS->decls()) if (auto* V = dyn_cast<VarDecl>(D)) els.push_back(json::Object{{"decl", vkey(V)}});
                        }
                    } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
                        els.push_back(json::Object{{"dtor", vkey(D->getVarDecl())}, {"t", type(D->getVarDecl()->getType())}});
                    }
                }
                bo["e"] = std::move(els);
                if (auto* T = B->getTerminatorStmt()) bo["t"] = idOf(T);
                if (auto* T = B->getTerminatorCondition(false)) bo["c"] = idOf(T);
                if (B->hasNoReturnElement()) bo["nr"] = true;
                json::Array su;
                for (auto& s : B->succs()) {
                    const CFGBlock* R = s.getReachableBlock();
                    if (R) su.push_back((int)R->getBlockID());
                    else su.push_back(nullptr);
                }
                bo["s"] = std::move(su);
                if (auto* Lb = B->getLabel()) { int li = idOf(Lb); if (li >= 0) bo["lab"] = li; }
                bs.push_back(std::move(bo));
            }
            o["cfg"] = std::move(bs);
            o["entry"] = (int)cfg->getEntry().getBlockID();
            o["exit"] = (int)cfg->getExit().getBlockID();
        }
        emit(std::move(o));
    }

    bool VisitFunctionDecl(FunctionDecl* F) { dumpFunction(F); return true; }
    bool VisitLambdaExpr(LambdaExpr* L) {
        if (!L->isGenericLambda()) dumpFunction(L->getCallOperator());
        else if (auto* T = L->getCallOperator()->getDescribedFunctionTemplate())
            for (auto* Sp : T->specializations()) dumpFunction(Sp);
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
        if (R->isLambda()) return true;
        if (!ours(R->getLocation())) return true;
        std::string full = recFull(R);
        auto l = loc(R->getLocation());
        std::string dk = full + "@" + l.first + ":" + std::to_string(l.second);
        if (!SeenRecords.insert(dk).second) return true;
        json::Object o;
        o["rec_kind"] = "record";
        o["name"] = recName(R); o["full"] = full;
        o["file"] = l.first; o["line"] = l.second;
        if (R->isUnion()) o["union"] = true;
        if (R->isAbstract()) o["abstract"] = true;
        json::Array bases;
        for (auto& B : R->bases()) bases.push_back(type(B.getType()));
        o["bases"] = std::move(bases);
        json::Array fs;
        for (auto* Fd : R->fields()) {
            json::Object fo;
            fo["n"] = Fd->getNameAsString(); fo["t"] = type(Fd->getType());
            fo["l"] = loc(Fd->getLocation()).second;
            if (Fd->hasInClassInitializer()) fo["init"] = true;
            if (Fd->isMutable()) fo["mut"] = true;
            if (!Fd->getType()->isReferenceType()) {
                QualType ft = C.getBaseElementType(Fd->getType());
                // does default-initialisation leave it indeterminate?
                if (auto* FR = ft->getAsCXXRecordDecl()) {
                    fo["defok"] = defaultInits(FR);
                } else fo["defok"] = false;
            }
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* M : R->methods()) {
            json::Object mo;
            mo["n"] = M->getNameAsString(); mo["f"] = fkey(M);
            if (M->isVirtual()) mo["v"] = true;
            if (M->isPureVirtual()) mo["pure"] = true;
            if (M->isConst()) mo["const"] = true;
            if (M->isStatic()) mo["static"] = true;
            if (M->isImplicit()) mo["implicit"] = true;
            if (M->isDeleted()) mo["deleted"] = true;
            mo["l"] = loc(M->getLocation()).second;
            mo["ret"] = type(M->getReturnType());
            json::Array pt; for (auto* P : M->parameters()) pt.push_back(type(P->getType()));
            mo["pt"] = std::move(pt);
            json::Array ov; for (auto* B : M->overridden_methods()) ov.push_back(fkey(B));
            mo["over"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        emit(std::move(o));
        return true;
    }

    // True if a default-initialised object of this class has no indeterminate scalar.
    bool defaultInits(const CXXRecordDecl* R) {
        if (!R->hasDefinition()) return true;
        R = R->getDefinition();
        if (R->isUnion()) return false;
        auto ns = R->getQualifiedNameAsString();
        if (ns.compare(0, 5, "std::") == 0) return ns != "std::array" ? true : false;
        if (ns.compare(0, 5, "glm::") == 0) return false;   // glm leaves components indeterminate
        bool userCtor = false;
        for (auto* Ct : R->ctors()) if (Ct->isDefaultConstructor() && Ct->isUserProvided()) userCtor = true;
        for (auto& B : R->bases()) if (auto* BR = B.getType()->getAsCXXRecordDecl()) if (!defaultInits(BR)) return false;
        if (userCtor) return true;
        for (auto* Fd : R->fields()) {
            if (Fd->hasInClassInitializer()) continue;
            QualType ft = C.getBaseElementType(Fd->getType());
            if (auto* FR = ft->getAsCXXRecordDecl()) { if (!defaultInits(FR)) return false; }
            else return false;
        }
        return true;
    }

    bool VisitVarDecl(VarDecl* V) {
        if (V->isLocalVarDeclOrParm()) return true;
        if (!ours(V->getLocation()) && !ours(V->getBeginLoc())) return true;
        if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
        if (!V->isThisDeclarationADefinition()) return true;
        std::string k = usr(V);
        auto l = loc(V->getLocation());
        if (!SeenVars.insert(k + l.first).second) return true;
        Ids.clear(); NextId = 0; Lambdas.clear();
        json::Object o;
        o["rec_kind"] = "var"; o["key"] = k; o["n"] = V->getNameAsString(); o["qn"] = V->getQualifiedNameAsString();
        o["file"] = l.first; o["line"] = l.second; o["t"] = type(V->getType());
        if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (V->isConstexpr() || V->getType().isConstQualified()) o["const"] = true;
        if (V->hasInit() && !V->getInit()->isValueDependent()) o["init"] = node(V->getInit());
        emit(std::move(o));
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { Errors++; }
        Dumper d(C);
        d.TraverseDecl(C.getTranslationUnitDecl());
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef F) override {
        json::Object o; o["rec_kind"] = "tu"; o["file"] = F.str(); emit(std::move(o));
        return std::make_unique<Consumer>();
    }
};

class Factory : public tooling::FrontendActionFactory {
public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

}  // namespace

// usage: lmfacts ROOT OUT.jsonl COMPDB_DIR file...
int main(int argc, const char** argv) {
    if (argc < 5) { llvm::errs() << "usage: lmfacts ROOT OUT COMPDB_DIR files...\n"; return 2; }
    RootDir = argv[1];
    if (RootDir.back() != '/') RootDir += '/';
    std::error_code ec;
    Out = std::make_unique<llvm::raw_fd_ostream>(argv[2], ec);
    if (ec) { llvm::errs() << ec.message() << "\n"; return 2; }
    std::string err;
    auto DB = tooling::CompilationDatabase::loadFromDirectory(argv[3], err);
    if (!DB) { llvm::errs() << err << "\n"; return 2; }
    std::vector<std::string> files(argv + 4, argv + argc);
    tooling::ClangTool Tool(*DB, files);
    Tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-w", tooling::ArgumentInsertPosition::END));
    // clang ships no omp.h here; a declaration-only one sits beside the tool
    Tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-idirafter" LMVERIF_INC, tooling::ArgumentInsertPosition::END));
    Factory F;
    int r = Tool.run(&F);
    Out->flush();
    return r || Errors ? 3 : 0;
}
