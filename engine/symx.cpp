// symx: a symbolic executor for LLVM IR deciding harness assertions with Z3.
// Models: byte-level memory (bounds, use-after-free, double free, uninitialised control flow), setjmp/longjmp,
// TLS, signals and masks, exit/atexit, C11/pthread-style threads under a symbolic bounded-preemption scheduler with
// happens-before race detection, allocation failure.  See DESIGN.md for what is stubbed.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <vector>
#include <string>
#include <chrono>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <functional>
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t s64;
typedef std::chrono::steady_clock Clk;

static z3::context *ZC;
static Z3_context Z;
struct Ex { Z3_ast a=nullptr; Ex(){} Ex(Z3_ast x):a(x){ if(a) Z3_inc_ref(Z,a);} Ex(const Ex&o):a(o.a){ if(a) Z3_inc_ref(Z,a);} Ex(Ex&&o):a(o.a){o.a=nullptr;}
  Ex& operator=(const Ex&o){ if(o.a) Z3_inc_ref(Z,o.a); if(a) Z3_dec_ref(Z,a); a=o.a; return *this;} Ex& operator=(Ex&&o){ std::swap(a,o.a); return *this;} ~Ex(){ if(a) Z3_dec_ref(Z,a);} operator Z3_ast() const {return a;} explicit operator bool() const {return a!=nullptr;} };
static u64 maskw(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static s64 sextw(u64 v,unsigned w){ return w>=64? (s64)v : (s64)(v<<(64-w))>>(64-w); }
static std::unordered_map<unsigned,Z3_sort> bvsorts;
static Z3_sort bvs(unsigned w){ auto it=bvsorts.find(w); if(it!=bvsorts.end()) return it->second; Z3_sort s=Z3_mk_bv_sort(Z,w); Z3_inc_ref(Z,Z3_sort_to_ast(Z,s)); bvsorts[w]=s; return s; }
static Ex num(u64 v,unsigned w){ return Ex(Z3_mk_unsigned_int64(Z,v&maskw(w),bvs(w))); }

struct V { u32 w=0; bool sym=false; u64 c=0; Ex e; std::shared_ptr<std::vector<V>> agg;
  V(){} V(u32 w_,u64 c_):w(w_),c(c_&maskw(w_)){} V(u32 w_,Ex e_):w(w_),sym(true),e(std::move(e_)){} };
static Ex ex(const V&v){ return v.sym? v.e : num(v.c,v.w); }
static bool getNum(Z3_ast a,u64&out){ if(Z3_get_ast_kind(Z,a)!=Z3_NUMERAL_AST) return false; uint64_t x; if(!Z3_get_numeral_uint64(Z,a,&x)) return false; out=x; return true; }
static V mkv(u32 w,Ex e){ u64 x; if(getNum(e,x)) return V(w,x); return V(w,std::move(e)); }
static V simp(const V&v){ if(!v.sym) return v; return mkv(v.w,Ex(Z3_simplify(Z,v.e))); }
// bool expr -> i1
static Ex b2v(Z3_ast b){ Ex bb(b); return Ex(Z3_mk_ite(Z,b,num(1,1),num(0,1))); }
static Ex v2b(const V&v){ // i1 value to Bool
  if(!v.sym) return Ex(v.c? Z3_mk_true(Z):Z3_mk_false(Z));
  return Ex(Z3_mk_eq(Z,v.e,num(1,1))); }
static Ex mkNot(Ex b){ return Ex(Z3_mk_not(Z,b)); }

// ---------------------------------------------------------------- options / stats
struct Opt { int probe=0; long maxPaths=2000000, maxInstr=4000000; double maxTime=600; int preempt=2; unsigned qTimeout=20000, hardTimeout=120000; bool races=false; bool ovf=false; int maxViol=8; bool verbose=false, trace=false; std::string out, mode; std::map<std::string,std::string> params; bool dbg=false; bool gpOver=true; std::string dumpq; std::map<std::string,u64> fixed; bool useFixed=false; int samples=6; } O;
struct Stats { u64 paths=0, instrs=0, forks=0, queries=0, unknown=0, asserts=0, branches=0, killed=0, switches=0, sat=0, unsat=0, cacheHits=0; double solver=0; } ST;
static Clk::time_point T0;
static double now(){ return std::chrono::duration<double>(Clk::now()-T0).count(); }
static std::set<std::string> gInconcl; // reasons the run is not conclusive
static std::map<std::string,u64> gCovers; static std::set<const Function*> gFuncs;

#include "lin.inc"
// ---------------------------------------------------------------- memory
enum OK { KGlobal, KStack, KHeap, KFunc, KTls, KMisc };
struct SymB { Ex e; u32 idx; };
struct Obj { u64 base=0,size=0; OK kind=KMisc; bool live=true, ro=false; u32 id=0; std::string name; std::vector<u8> d, st; std::map<u32,SymB> sy; };
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo { std::unordered_map<const Value*,u32> idx; u32 n=0; };
static std::unordered_map<const Function*,std::unique_ptr<FnInfo>> fninfo;
static FnInfo& info(const Function*f){ auto&p=fninfo[f]; if(!p){ p.reset(new FnInfo); for(auto&a:f->args()) p->idx[&a]=p->n++; for(auto&b:*f) for(auto&i:b) if(!i.getType()->isVoidTy()) p->idx[&i]=p->n++; } return *p; }

enum RetK { RNormal, RIgnore, RThread, RExit, RFinish, RSignal };
struct Frame { const Function*f; FnInfo*fi; const BasicBlock*bb; BasicBlock::const_iterator it; const BasicBlock*prev=nullptr; std::vector<V> regs; std::vector<u64> allocas; u64 uid; RetK rk=RNormal; std::vector<std::pair<V,Type*>> va; u64 savedMask=0; };
typedef std::vector<u32> VC;
struct Thread { int id; std::vector<Frame> fr; bool done=false; int joinOn=-1; u64 waitProg=~0ull; u64 mutexOn=0; u64 sigmask=0, pending=0; const Instruction*lastSpin=nullptr; u64 lastSpinProg=0; u64 lastSpinAt=0; int lastSpinVal=-1; int ret=0; VC vc, relF, acqP; bool hasRelF=false; bool detached=false, joined=false; u64 retval=0; std::map<const GlobalVariable*,u64> tls; u64 errnoAddr=0; };
struct Jmp { int tid; u64 fuid; const CallBase*call; u64 mask; bool savemask; size_t depth; };
struct Inp { std::string name; u32 w; Ex e; };
struct Shadow { int wt=-1; u32 wc=0; VC rd; const Instruction*wi=nullptr; };
struct OrdEdge{ unsigned from,to; bool strict,sgn; };
struct State {
  bool pinned=false; // every input so far is fixed by the path condition (--probe)
  std::map<u64,ObjP> mem; u64 nextAddr; std::vector<Thread> th; int cur=0; std::vector<Ex> pc; z3::model *model=nullptr; std::shared_ptr<z3::model> mdl;
  std::vector<Inp> inputs; std::map<u64,Jmp> jmps; u64 nextJmp=1; u64 uidc=1; std::vector<std::pair<u64,V>> atexits; bool exiting=false; int exitCode=0; int exitKind=0; u64 exitHook=0; bool hookRun=false;
  std::map<int,u64> sigact; std::map<int,u64> sigflags; u64 instrs=0; V failAt=V(64,0); u64 allocCnt=0; bool failed=false; int failThread=0, failThr=0; int expectExit=0; bool expectAny=false; u64 progress=1; bool justSched=false; int preemptions=0; u64 schedCnt=0; std::vector<int> sched;
  std::map<u64,int> mutex; std::map<u64,VC> sync; std::map<u64,Shadow> shadow; std::vector<OrdEdge> ord; std::set<std::pair<unsigned,unsigned>> neq; u64 heapLive=0; u64 heapSeq=0; bool dead=false; std::map<u64,u64> tss; u64 tssNext=1; std::map<u64,VC> relVC; bool sigDeath=false; u64 id=0; std::set<std::string> covers; std::map<u64,std::vector<ObjP>> dummy; std::set<u64> onceDone; int depthLimit=400; bool allowCrash=false; bool noPre=false; int yieldRounds=0; u64 yieldProg=0; std::unordered_map<unsigned,std::pair<Ex,bool>> known;
};
static std::vector<std::unique_ptr<State>> work;
static u64 stateIds=1;
static Module*M; static const DataLayout*DL;
static std::map<u64,const Function*> addrFn; static std::map<const Function*,u64> fnAddr; static std::map<const GlobalVariable*,u64> gAddr;
static u64 freshCnt=0;

struct Violation { std::string kind,msg,loc,stack; std::vector<std::pair<std::string,u64>> inputs; std::vector<int> sched; int exitCode=0; u64 count=1; };
static std::vector<Violation> viols;
struct Sample { std::vector<std::pair<std::string,u64>> inputs; std::vector<std::string> covers; bool threads; }; static std::vector<Sample> gSamples; static std::set<std::string> gSampleSig;
static void donePath(struct State&s);
struct PathEnd{}; // thrown to end the current path

static V fresh(const char*pfx,u32 w){ std::string n=std::string(pfx)+"!"+std::to_string(freshCnt++); return V(w,Ex(Z3_mk_const(Z,Z3_mk_string_symbol(Z,n.c_str()),bvs(w)))); }
static Ex namedConst(const std::string&n,u32 w){ return Ex(Z3_mk_const(Z,Z3_mk_string_symbol(Z,n.c_str()),bvs(w))); }
// does expr depend on an "uninit!" constant
static std::unordered_map<unsigned,std::pair<Ex,bool>> unmemo;
static bool hasUninit(Z3_ast a){
  unsigned id=Z3_get_ast_id(Z,a); auto it=unmemo.find(id); if(it!=unmemo.end()) return it->second.second;
  bool r=false; if(Z3_get_ast_kind(Z,a)==Z3_APP_AST){ Z3_app ap=Z3_to_app(Z,a); unsigned n=Z3_get_app_num_args(Z,ap);
    if(n==0){ Z3_func_decl d=Z3_get_app_decl(Z,ap); Z3_symbol s=Z3_get_decl_name(Z,d); if(Z3_get_symbol_kind(Z,s)==Z3_STRING_SYMBOL){ r= strncmp(Z3_get_symbol_string(Z,s),"uninit!",7)==0; } }
    else for(unsigned i=0;i<n&&!r;i++) r=hasUninit(Z3_get_app_arg(Z,ap,i)); }
  unmemo[id]={Ex(a),r}; return r; }

// ---------------------------------------------------------------- solver
static Z3_solver gS=nullptr; static std::vector<Ex> gStack; static bool usesFP=false; static u64 gSinceReset=0;
static void resetSolver(){ if(gS){ Z3_solver_dec_ref(Z,gS);} gS= usesFP? Z3_mk_solver(Z) : Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,gS); gStack.clear(); gSinceReset=0; }
static void setTO(Z3_solver s,unsigned ms){ Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),ms); Z3_solver_set_params(Z,s,p); Z3_params_dec_ref(Z,p); }
// returns 1 sat, 0 unsat, -1 unknown ; on sat stores the model
static int hardCheck(const std::vector<Ex>&pc,Z3_ast extra,std::shared_ptr<z3::model>*m){
  Z3_solver s=nullptr;
  if(!usesFP){ // fresh, one-shot: preprocessing + bit-blasting
    Z3_tactic t=Z3_mk_tactic(Z,"qfbv"); Z3_tactic_inc_ref(Z,t); s=Z3_mk_solver_from_tactic(Z,t); Z3_solver_inc_ref(Z,s); Z3_tactic_dec_ref(Z,t); }
  else { s=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,s); }
  setTO(s,O.hardTimeout);
  for(auto&e:pc) Z3_solver_assert(Z,s,e); if(extra) Z3_solver_assert(Z,s,extra);
  if(!O.dumpq.empty()){ static int dq=0; std::string fn=O.dumpq+"/q"+std::to_string(dq++)+".smt2"; FILE*f=fopen(fn.c_str(),"w"); if(f){ fprintf(f,"%s(check-sat)\n",Z3_solver_to_string(Z,s)); fclose(f);} }
  Z3_lbool r=Z3_solver_check(Z,s);
  if(r==Z3_L_TRUE&&m){ Z3_model zm=Z3_solver_get_model(Z,s); *m=std::make_shared<z3::model>(*ZC,zm); }
  Z3_solver_dec_ref(Z,s); return r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1; }
static int check(const std::vector<Ex>&pc,Z3_ast extra,std::shared_ptr<z3::model>*m){
  auto t=Clk::now(); ST.queries++;
  if(!gS||gSinceReset>4000) resetSolver(); gSinceReset++;
  size_t k=0; while(k<pc.size()&&k<gStack.size()&&pc[k].a==gStack[k].a) k++;
  if(gStack.size()>k){ Z3_solver_pop(Z,gS,gStack.size()-k); gStack.resize(k); }
  while(k<pc.size()){ Z3_solver_push(Z,gS); Z3_solver_assert(Z,gS,pc[k]); gStack.push_back(pc[k]); k++; }
  Z3_lbool r; setTO(gS,O.qTimeout);
  Z3_solver_push(Z,gS); if(extra) Z3_solver_assert(Z,gS,extra); r=Z3_solver_check(Z,gS);
  if(r==Z3_L_TRUE&&m){ Z3_model zm=Z3_solver_get_model(Z,gS); *m=std::make_shared<z3::model>(*ZC,zm); }
  Z3_solver_pop(Z,gS,1);
  int res= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
  if(res<0){ resetSolver(); res=hardCheck(pc,extra,m); }
  ST.solver+=std::chrono::duration<double>(Clk::now()-t).count();
  if(res<0){ ST.unknown++; gInconcl.insert("solver returned unknown (timeout)"); } else if(res) ST.sat++; else ST.unsat++;
  return res; }
static bool evalBool(z3::model&m,Z3_ast b,bool&out){ Z3_ast r; if(!Z3_model_eval(Z,m,b,true,&r)) return false; Ex keep(r); Z3_lbool v=Z3_get_bool_value(Z,r); if(v==Z3_L_UNDEF) return false; out=v==Z3_L_TRUE; return true; }
static bool evalU64(z3::model&m,Z3_ast a,u64&out){ Z3_ast r; if(!Z3_model_eval(Z,m,a,true,&r)) return false; Ex keep(r); return getNum(r,out); }
static void ensureModel(State&s){ if(!s.mdl){ int r=check(s.pc,nullptr,&s.mdl); if(r==0) throw PathEnd(); if(r<0) { throw PathEnd(); } } }
static std::string locOf(const Instruction*I){ if(!I) return "?"; std::string f=I->getFunction()->getName().str(); if(auto&d=I->getDebugLoc()){ std::string fn=d->getFilename().str(); auto p=fn.rfind('/'); if(p!=std::string::npos) fn=fn.substr(p+1); return f+" "+fn+":"+std::to_string(d.getLine()); } return f; }
static std::string stackOf(State&s){ std::string r; if(s.th.empty()) return r; auto&t=s.th[s.cur]; for(size_t i=t.fr.size();i-->0;){ auto&f=t.fr[i]; const Instruction*I = f.it!=f.bb->end()? &*f.it:nullptr; if(i+1<t.fr.size()&&I&&f.it!=f.bb->begin()) { auto q=f.it; --q; I=&*q; } r+=(r.empty()?"":" < ")+locOf(I); if(r.size()>1500) break;} return r; }
static const Instruction*curI=nullptr;
static void violation(State&s,const std::string&kind,const std::string&msg,z3::model*m=nullptr){
  std::shared_ptr<z3::model> keep; if(!m){ if(!s.mdl){ int r=check(s.pc,nullptr,&s.mdl); if(r==0) throw PathEnd(); if(r<0){ throw PathEnd(); } } m=s.mdl.get(); }
  std::string loc=locOf(curI);
  for(auto&v:viols) if(v.kind==kind&&v.msg==msg&&v.loc==loc){ v.count++; if(v.count>3) return; }
  Violation v; v.kind=kind; v.msg=msg; v.loc=loc; v.stack=stackOf(s); v.sched=s.sched; v.exitCode=s.exitCode;
  for(auto&i:s.inputs){ u64 x=0; evalU64(*m,i.e,x); v.inputs.push_back({i.name,x}); }
  viols.push_back(v); }
[[noreturn]] static void vioEnd(State&s,const std::string&kind,const std::string&msg){ violation(s,kind,msg); throw PathEnd(); }
[[noreturn]] static void unsupported(State&s,const std::string&msg){ gInconcl.insert("unsupported: "+msg+" at "+locOf(curI)); throw PathEnd(); }

static std::unique_ptr<State> fork_(State&s){ ST.forks++; auto n=std::make_unique<State>(s); n->id=stateIds++; return n; }
// conditions already decided on this path
static void learn(State&s,Z3_ast b,bool v){ if(Z3_get_ast_kind(Z,b)==Z3_APP_AST){ Z3_app ap=Z3_to_app(Z,b); if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap))==Z3_OP_NOT){ learn(s,Z3_get_app_arg(Z,ap,0),!v); return; } } s.known[Z3_get_ast_id(Z,b)]={Ex(b),v}; }
// order facts (x <= y, x < y over the same terms) on this path, closed under transitivity: spares the solver what follows from them
static bool ordPart(Z3_ast b,unsigned&x,unsigned&y,bool&sgn){ if(Z3_get_ast_kind(Z,b)!=Z3_APP_AST) return false; Z3_app ap=Z3_to_app(Z,b); auto k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); if(k!=Z3_OP_SLEQ&&k!=Z3_OP_ULEQ) return false; Z3_ast p=Z3_get_app_arg(Z,ap,0),q=Z3_get_app_arg(Z,ap,1); if(Z3_is_numeral_ast(Z,p)||Z3_is_numeral_ast(Z,q)) return false; x=Z3_get_ast_id(Z,p); y=Z3_get_ast_id(Z,q); sgn=k==Z3_OP_SLEQ; return true; }
static void ordLearn(State&s,Z3_ast b,bool v){ if(s.ord.size()>600) return; unsigned x,y; bool g; if(ordPart(b,x,y,g)){ if(v) s.ord.push_back({x,y,s.neq.count({std::min(x,y),std::max(x,y)})>0,g}); else s.ord.push_back({y,x,true,g}); return; }
  if(!v&&Z3_get_ast_kind(Z,b)==Z3_APP_AST){ Z3_app ap=Z3_to_app(Z,b); if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap))==Z3_OP_EQ){ Z3_ast p=Z3_get_app_arg(Z,ap,0),q=Z3_get_app_arg(Z,ap,1); if(Z3_is_numeral_ast(Z,p)||Z3_is_numeral_ast(Z,q)) return; x=Z3_get_ast_id(Z,p); y=Z3_get_ast_id(Z,q); s.neq.insert({std::min(x,y),std::max(x,y)}); s.known[Z3_get_ast_id(Z,b)]={Ex(b),false}; for(auto&e:s.ord) if((e.from==x&&e.to==y)||(e.from==y&&e.to==x)) e.strict=true; } } }
// 0 no path, 1 x<=y, 2 x<y
static int ordPath(State&s,unsigned x,unsigned y,bool g){ std::map<unsigned,int> best; std::vector<std::pair<unsigned,int>> q{{x,1}}; best[x]=1; int r=0;
  while(!q.empty()){ auto [u,st]=q.back(); q.pop_back(); if(u==y&&(u!=x||st==2)) r=std::max(r,st); for(auto&e:s.ord) if(e.sgn==g&&e.from==u){ int ns=e.strict?2:st; int&b=best[e.to]; if(ns>b){ b=ns; q.push_back({e.to,ns}); } } } return r; }
static int ordKnown(State&s,Z3_ast b){ if(s.ord.empty()) return -1; unsigned x,y; bool g; if(ordPart(b,x,y,g)){ if(ordPath(s,x,y,g)) return 1; if(ordPath(s,y,x,g)==2) return 0; return -1; }
  if(Z3_get_ast_kind(Z,b)==Z3_APP_AST){ Z3_app ap=Z3_to_app(Z,b); if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap))==Z3_OP_EQ){ x=Z3_get_ast_id(Z,Z3_get_app_arg(Z,ap,0)); y=Z3_get_ast_id(Z,Z3_get_app_arg(Z,ap,1)); for(int i=0;i<2;i++) if(ordPath(s,x,y,i)==2||ordPath(s,y,x,i)==2) return 0; } }
  return -1; }
static int knownCond(State&s,Z3_ast b){ bool neg=false; while(Z3_get_ast_kind(Z,b)==Z3_APP_AST){ Z3_app ap=Z3_to_app(Z,b); if(Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap))!=Z3_OP_NOT) break; b=Z3_get_app_arg(Z,ap,0); neg=!neg; } auto it=s.known.find(Z3_get_ast_id(Z,b)); if(it==s.known.end()){ int o=ordKnown(s,b); return o<0? -1: (int)((o==1)!=neg); } return (int)(it->second.second!=neg); }
static void addPC(State&s,Ex c){ learn(s,c,true); { Ex b(Z3_simplify(Z,c)); Z3_ast a=b; bool v=true; while(Z3_get_ast_kind(Z,a)==Z3_APP_AST&&Z3_get_decl_kind(Z,Z3_get_app_decl(Z,Z3_to_app(Z,a)))==Z3_OP_NOT){ a=Z3_get_app_arg(Z,Z3_to_app(Z,a),0); v=!v; } size_t k=s.ord.size(); ordLearn(s,a,v); if(s.ord.size()>k) s.known[Z3_get_ast_id(Z,a)]={Ex(a),v}; } s.pc.push_back(std::move(c)); }
// feasibility of cond (Bool): bit0 true feasible, bit1 false feasible
static int feas(State&s,Ex c,std::shared_ptr<z3::model>*mt,std::shared_ptr<z3::model>*mf){
  ensureModel(s); bool v; int r=0; bool ok=evalBool(*s.mdl,c,v);
  if(ok&&v){ r|=1; *mt=s.mdl; } else if(ok&&!v){ r|=2; *mf=s.mdl; }
  if(!(r&1)){ int q=check(s.pc,c,mt); if(q!=0) r|=1; if(q<0) mt->reset(); }
  if(!(r&2)){ Ex n=mkNot(c); int q=check(s.pc,n,mf); if(q!=0) r|=2; if(q<0) mf->reset(); }
  return r; }
// Decide a condition; forks when both are feasible. The forked state re-executes the current instruction.
static bool decide(State&s,const V&cv,bool isBranch=false){
  V c=simp(cv); if(!c.sym) return c.c&1;
  Ex b(Z3_simplify(Z,v2b(c))); Z3_lbool kb=Z3_get_bool_value(Z,b); if(kb!=Z3_L_UNDEF) return kb==Z3_L_TRUE;
  { int kn=knownCond(s,b); if(kn>=0){ ST.cacheHits++; return kn; } }
  std::shared_ptr<z3::model> mt,mf; ST.branches++; int r=feas(s,b,&mt,&mf);
  if(r==3){ if(hasUninit(b)){ violation(s,"uninit-branch","control flow depends on uninitialised memory"); throw PathEnd(); }
    auto n=fork_(s); addPC(*n,mkNot(b)); n->mdl=mf; work.push_back(std::move(n)); addPC(s,b); s.mdl=mt; return true; }
  if(r==1) { s.mdl=mt; learn(s,b,true); return true; } if(r==2) { s.mdl=mf; learn(s,b,false); return false; } throw PathEnd(); }
// concretise a value, forking over all feasible values
static u64 concr(State&s,const V&v0){ V v=simp(v0); if(!v.sym) return v.c; ensureModel(s); u64 x=0; if(!evalU64(*s.mdl,v.e,x)) unsupported(s,"cannot evaluate value");
  Ex eq(Z3_mk_eq(Z,v.e,num(x,v.w))); std::shared_ptr<z3::model> mf; Ex ne=mkNot(eq); int q=check(s.pc,ne,&mf);
  if(q!=0){ if(hasUninit(v.e)){ violation(s,"uninit-use","address, size or call target depends on uninitialised memory"); throw PathEnd(); } auto n=fork_(s); addPC(*n,ne); n->mdl= q>0?mf:nullptr; work.push_back(std::move(n)); addPC(s,eq); }
  return x; }

// an integer that is not in linear form but has only one value on this path becomes a constant
static V uniqueV(State&s,const V&v){ Lin l; if(!v.sym||lAtoms.empty()||v.agg||v.w<8||getLin(v,l)||hasUninit(v.e)) return v; ensureModel(s); u64 x=0; if(!evalU64(*s.mdl,v.e,x)) return v; Ex eq(Z3_mk_eq(Z,v.e,num(x,v.w))); Ex ne=mkNot(eq); static std::unordered_map<unsigned,Ex> notU; unsigned id=Z3_get_ast_id(Z,v.e); if(notU.count(id)) return v; int q=check(s.pc,ne,nullptr); if(q==0) return V(v.w,x); notU[id]=v.e; return v; }
static ObjP newObj(State&s,u64 size,OK k,u64 align,const std::string&name,bool init0){
  auto o=std::make_shared<Obj>(); if(align<16) align=16; u64 b=(s.nextAddr+align-1)/align*align; o->base=b; o->size=size; o->kind=k; o->name=name; o->d.assign(size,0); o->st.assign(size,init0?0:1); s.nextAddr=b+size+64; s.mem[b]=o; return o; }
static ObjP find(State&s,u64 a){ auto it=s.mem.upper_bound(a); if(it==s.mem.begin()) return nullptr; --it; auto&o=it->second; if(a<o->base+(o->size?o->size:1)) return o; return nullptr; }
static Obj& wr(State&s,ObjP&o){ auto it=s.mem.find(o->base); if(it->second.use_count()>2||true){ if(it->second.use_count()>2){ it->second=std::make_shared<Obj>(*it->second);} o=it->second; } return *it->second; }
static std::string objDesc(ObjP o,u64 a){ char b[200]; static const char*kn[]={"global","stack","heap","function","tls","misc"}; snprintf(b,sizeof b,"%s object %s of %llu bytes at offset %lld",kn[o->kind],o->name.c_str(),(unsigned long long)o->size,(long long)(a-o->base)); return b; }
static ObjP nearest(State&s,u64 a){ auto it=s.mem.upper_bound(a+16); if(it==s.mem.begin()) return nullptr; --it; return it->second; }
// resolve a concrete access
static ObjP access(State&s,u64 a,u64 n,bool write,bool slackOK){
  if(a<4096) vioEnd(s,"null-deref",write?"write through null pointer":"read through null pointer");
  ObjP o=find(s,a); if(!o){ auto q=nearest(s,a); std::string d=q? " (nearest: "+objDesc(q,a)+")":""; vioEnd(s,"invalid-access",std::string(write?"write to":"read from")+" unallocated memory"+(q&&a-q->base<100000? std::string(" near ")+q->name:std::string())); }
  if(!o->live) vioEnd(s,o->kind==KHeap?"use-after-free":"invalid-access",std::string(write?"write to ":"read from ")+"released memory "+o->name);
  if(o->kind==KFunc) vioEnd(s,"invalid-access","data access to a function");
  if(write&&o->ro) vioEnd(s,"invalid-access","write to constant "+o->name);
  if(a+n>o->base+o->size){ if(!write&&slackOK) return o; vioEnd(s,"out-of-bounds",std::string(write?"write":"read")+" beyond the end of "+o->name); }
  return o; }
static void raceAccess(State&s,u64 a,u64 n,bool write,const Instruction*I);

static bool getLinByte(const Ex&b,u32 i,Lin&sum){ u64 x; Lin l; if(getNum(b,x)) l.k=x; else if(!getLin(V(8,b),l)) return false; lBounds(l); if(!lU(l,8)) return false; for(auto&p:l.t) sum.t[p.first]+=p.second*p2(8*i); sum.k+=l.k*p2(8*i); return true; }
static V loadBytes(State&s,ObjP o,u64 off,u32 n){ // n<=8 -> integer of n*8 bits
  bool allc=true; for(u32 i=0;i<n;i++){ if(off+i>=o->size||o->st[off+i]){ allc=false; break; } }
  if(allc){ u64 v=0; for(u32 i=0;i<n;i++) v|=(u64)o->d[off+i]<<(8*i); return V(n*8,v); }
  // whole expression?
  if(off+n<=o->size&&o->st[off]==2){ auto it=o->sy.find(off); Z3_ast e0=it->second.e; bool same=it->second.idx==0; auto j=it; for(u32 i=0;i<n&&same;i++){ if(o->st[off+i]!=2) {same=false;break;} if(j==o->sy.end()||j->first!=off+i||j->second.e.a!=e0||j->second.idx!=i){same=false;break;} ++j; }
    if(same){ unsigned w=Z3_get_bv_sort_size(Z,Z3_get_sort(Z,e0)); if(w==n*8) return V(w,Ex(e0)); V lx; if(w>n*8&&linExtract(Ex(e0),w,0,n*8,lx)) return lx; if(w>n*8) return V(n*8,Ex(Z3_mk_extract(Z,n*8-1,0,e0))); } }
  bool linok=!lAtoms.empty(); Lin lsum; V lv;
  Ex acc; u32 accw=0; // build from high to low
  for(u32 i=n;i-->0;){ Ex b; if(off+i>=o->size){ b=fresh("slack",8).e; }
    else if(o->st[off+i]==0) b=num(o->d[off+i],8);
    else if(o->st[off+i]==1){ V f=fresh("uninit",8); b=f.e; if(o->kind!=KMisc){ Obj&w=*o; /* remember so that repeated reads agree */ ObjP oo=o; Obj&m=wr(s,oo); m.st[off+i]=2; m.sy[off+i]={b,0}; o=oo; (void)w; } }
    else { auto&sb=o->sy[off+i]; unsigned w=Z3_get_bv_sort_size(Z,Z3_get_sort(Z,sb.e)); V lx; b= w==8? sb.e : linExtract(sb.e,w,sb.idx*8,8,lx)? ex(lx) : Ex(Z3_mk_extract(Z,sb.idx*8+7,sb.idx*8,sb.e)); }
    if(linok&&!getLinByte(b,i,lsum)) linok=false;
    acc= acc? Ex(Z3_mk_concat(Z,acc,b)) : b; accw+=8; }
  if(linok&&n>1&&linV(n*8,lsum,lv)) return lv;
  return mkv(n*8,n>1?Ex(Z3_simplify(Z,acc)):acc); }
static void storeBytes(Obj&o,u64 off,u32 n,const V&v){
  if(!v.sym){ for(u32 i=0;i<n;i++){ if(o.st[off+i]==2) o.sy.erase(off+i); o.d[off+i]=(u8)(v.c>>(8*i)); o.st[off+i]=0; } return; }
  for(u32 i=0;i<n;i++){ o.st[off+i]=2; o.sy[off+i]={v.e,i}; } }
static V toBytesW(const V&v,u32 n){ if(v.w==n*8) return v; if(!v.sym) return V(n*8,v.c); return V(n*8,Ex(Z3_mk_zero_ext(Z,n*8-v.w,v.e))); }

// Resolve a symbolic pointer to an object; forks when several are possible.
static ObjP resolveSym(State&s,const V&p,u64 n,bool write,bool slackOK,Ex&off){
  ensureModel(s); u64 x; if(!evalU64(*s.mdl,p.e,x)) unsupported(s,"pointer evaluation");
  ObjP o=find(s,x); if(!o&&x>=4096){ o=nearest(s,x); if(o&&!(x>=o->base&&x<o->base+o->size)) o=nullptr; }
  if(!o||!o->live||x+n>o->base+o->size+(slackOK?7:0)) { // bad access feasible: report with this model
    addPC(s,Ex(Z3_mk_eq(Z,p.e,num(x,64)))); access(s,x,n,write,false); unsupported(s,"symbolic pointer"); }
  u64 lim=o->size>=n? o->size-n : 0; Ex base=num(o->base,64); off=Ex(Z3_mk_bvsub(Z,p.e,base)); Ex in(Z3_mk_bvule(Z,off,num(lim,64)));
  std::shared_ptr<z3::model> mt,mf; int r=feas(s,in,&mt,&mf);
  if(r==3){ auto ns=fork_(s); addPC(*ns,mkNot(in)); ns->mdl=mf; work.push_back(std::move(ns)); addPC(s,in); s.mdl=mt; }
  else if(r==2){ addPC(s,Ex(Z3_mk_eq(Z,p.e,num(x,64)))); access(s,x,n,write,slackOK); off=num(x-o->base,64); }
  return o; }
static V loadV(State&s,const V&p0,u32 n,const Instruction*I=nullptr){
  V p=simp(p0); if(!p.sym){ ObjP o=access(s,p.c,n,false,n>1&&n<=8); if(O.races&&I) raceAccess(s,p.c,n,false,I); return loadBytes(s,o,p.c-o->base,n); }
  if(hasUninit(p.e)) vioEnd(s,"uninit-use","load address depends on uninitialised memory");
  Ex off; ObjP o=resolveSym(s,p,n,false,false,off); Ex so(Z3_simplify(Z,off)); u64 k; if(getNum(so,k)) { return loadBytes(s,o,k,n); }
  if(o->size>4096) { u64 a=concr(s,p); ObjP o2=access(s,a,n,false,n>1); return loadBytes(s,o2,a-o2->base,n); }
  // ITE over the range; find feasible span by model-free full range (grouped)
  u64 cnt=o->size>=n? o->size-n+1:0; Ex r; V last=loadBytes(s,o,0,n); r=ex(last); o=find(s,o->base);
  // balanced tree on offset bits for constant tables
  std::function<Ex(u64,u64)> build=[&](u64 lo,u64 hi)->Ex{ if(hi-lo==1){ return ex(loadBytes(s,o,lo,n)); } u64 mid=(lo+hi)/2; Ex l=build(lo,mid),h=build(mid,hi); if(l.a==h.a) return l; Ex c(Z3_mk_bvult(Z,so,num(mid,64))); return Ex(Z3_mk_ite(Z,c,l,h)); };
  r=build(0,cnt); return mkv(n*8,r); }
static void storeV(State&s,const V&p0,const V&val,u32 n,const Instruction*I=nullptr){
  V v=toBytesW(val,n); V p=simp(p0);
  if(!p.sym){ ObjP o=access(s,p.c,n,true,false); if(O.races&&I) raceAccess(s,p.c,n,true,I); u64 b=o->base; Obj&w=wr(s,o); storeBytes(w,p.c-b,n,v); return; }
  if(hasUninit(p.e)) vioEnd(s,"uninit-use","store address depends on uninitialised memory");
  Ex off; ObjP o=resolveSym(s,p,n,true,false,off); if(o->ro) vioEnd(s,"invalid-access","write to constant"); Ex so(Z3_simplify(Z,off)); u64 k;
  if(getNum(so,k)){ u64 b=o->base; (void)b; Obj&w=wr(s,o); storeBytes(w,k,n,v); return; }
  if(o->size>2048||n>8){ u64 a=concr(s,p); ObjP o2=access(s,a,n,true,false); u64 b=o2->base; Obj&w=wr(s,o2); storeBytes(w,a-b,n,v); return; }
  std::vector<V> old; for(u64 i=0;i<o->size;i++){ if(o->st[i]==1) old.push_back(V()); else old.push_back(loadBytes(s,o,i,1)); }
  Obj&w=wr(s,o); for(u64 i=0;i<o->size;i++){ Ex acc; V ob=old[i]; Ex cur; if(ob.w==0) cur=fresh("uninit",8).e; else cur=ex(ob);
    for(u32 b=0;b<n;b++){ if(i<b) continue; u64 at=i-b; if(at+n>o->size) continue; Ex c(Z3_mk_eq(Z,so,num(at,64))); Ex vb= n==1? ex(v): Ex(Z3_mk_extract(Z,b*8+7,b*8,ex(v))); cur=Ex(Z3_mk_ite(Z,c,vb,cur)); }
    V nb=mkv(8,Ex(Z3_simplify(Z,cur))); storeBytes(w,i,1,nb); } }
// byte copy preserving uninit/symbolic status
static void copyMem(State&s,u64 d,u64 sA,u64 n,bool slack,const Instruction*I){
  if(!n) return; ObjP so=access(s,sA,n,false,slack); ObjP dO=access(s,d,n,true,false); if(O.races&&I){ raceAccess(s,sA,n,false,I); raceAccess(s,d,n,true,I);} u64 so0=sA-so->base; std::vector<u8> dd(n),ss(n); std::vector<std::pair<u32,SymB>> sb;
  for(u64 i=0;i<n;i++){ if(so0+i>=so->size){ ss[i]=2; sb.push_back({(u32)i,{fresh("slack",8).e,0}}); continue; } dd[i]=so->d[so0+i]; ss[i]=so->st[so0+i]; if(ss[i]==2) sb.push_back({(u32)i,so->sy[so0+i]}); }
  u64 off=d-dO->base; Obj&w=wr(s,dO); for(u64 i=0;i<n;i++){ if(w.st[off+i]==2) w.sy.erase(off+i); w.d[off+i]=dd[i]; w.st[off+i]=ss[i]; } for(auto&p:sb) w.sy[off+p.first]=p.second; }
static void setMem(State&s,u64 d,const V&b,u64 n,const Instruction*I){ if(!n) return; ObjP o=access(s,d,n,true,false); if(O.races&&I) raceAccess(s,d,n,true,I); u64 off=d-o->base; Obj&w=wr(s,o); for(u64 i=0;i<n;i++) storeBytes(w,off+i,1,b); }
static void storeC(State&s,u64 a,u64 v,u32 n){ storeV(s,V(64,a),V(n*8,v),n); }
static u64 loadC(State&s,u64 a,u32 n){ return concr(s,loadV(s,V(64,a),n)); }
static std::string cstr(State&s,u64 a){ std::string r; if(!a) return "(null)"; for(int i=0;i<4096;i++){ ObjP o=find(s,a+i); if(!o||!o->live||a+i>=o->base+o->size||o->st[a+i-o->base]!=0) break; char c=o->d[a+i-o->base]; if(!c) break; r+=c; } return r; }

// ---------------------------------------------------------------- heap
// returns 0 when the allocation is chosen to fail
static bool allocFails(State&s){ if((s.failAt.sym||s.failAt.c)&&s.cur!=s.failThr) return false; s.allocCnt++; if(!s.failAt.sym){ if(s.failAt.c==s.allocCnt&&s.failAt.c){ s.failed=true; return true; } return false; }
  V c=mkv(1,b2v(Z3_mk_eq(Z,s.failAt.e,num(s.allocCnt,64)))); s.allocCnt--; bool r=decide(s,c); s.allocCnt++; if(r) s.failed=true; return r; }
static u64 heapAlloc(State&s,u64 n,bool zero,u64 align=16){ if(n>(1ull<<31)) return 0; auto o=newObj(s,n,KHeap,align,"heap#"+std::to_string(++s.heapSeq)+"("+std::to_string(n)+")",zero); s.heapLive++; return o->base; }
static void heapFree(State&s,u64 a){ if(!a) return; ObjP o=find(s,a); if(!o||o->kind!=KHeap||o->base!=a){ vioEnd(s,"invalid-free",o? "free of a pointer that is not the start of a heap block ("+o->name+")":"free of a wild pointer"); }
  if(!o->live) vioEnd(s,"double-free","block "+o->name+" released twice"); if(O.races&&s.th.size()>1) raceAccess(s,a,o->size?o->size:1,true,curI); auto n=std::make_shared<Obj>(); n->base=o->base; n->size=o->size; n->kind=KHeap; n->live=false; n->name=o->name; s.mem[a]=n; s.heapLive--; }

// ---------------------------------------------------------------- constants
static V evalConst(State&s,const Constant*c);
static V gepOff(State&s,const GEPOperator*g,std::function<V(const Value*)> get){
  V base=get(g->getPointerOperand()); u64 off=0; Ex se; bool sym=false;
  for(auto gi=gep_type_begin(g),e=gep_type_end(g);gi!=e;++gi){ const Value*op=gi.getOperand();
    if(StructType*st=gi.getStructTypeOrNull()){ unsigned f=cast<ConstantInt>(op)->getZExtValue(); off+=DL->getStructLayout(st)->getElementOffset(f); }
    else { u64 sz=DL->getTypeAllocSize(gi.getIndexedType()); V i=get(op); if(!i.sym) off+=(u64)sextw(i.c,i.w)*sz; else { Ex x= i.w<64? Ex(Z3_mk_sign_ext(Z,64-i.w,i.e)):i.e; if(sz!=1) x=Ex(Z3_mk_bvmul(Z,x,num(sz,64))); se= sym? Ex(Z3_mk_bvadd(Z,se,x)):x; sym=true; } } }
  if(!sym&&!base.sym) return V(64,base.c+off);
  Ex r=ex(base); if(off) r=Ex(Z3_mk_bvadd(Z,r,num(off,64))); if(sym) r=Ex(Z3_mk_bvadd(Z,r,se)); return mkv(64,Ex(Z3_simplify(Z,r))); }
static u32 bitsOf(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return DL->getTypeSizeInBits(t); }
static u64 tlsAddr(State&s,const GlobalVariable*g);
static V binop(State&s,unsigned op,const V&a,const V&b,const Instruction*I);
static V castop(State&s,unsigned op,const V&a,u32 w,Type*from,Type*to);
static V evalConst(State&s,const Constant*c){
  Type*t=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) unsupported(s,"wide integer"); return V(ci->getBitWidth(),ci->getZExtValue()); }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); if(b.getBitWidth()>64){ return V(64,0); } return V(b.getBitWidth(),b.getZExtValue()); }
  if(isa<ConstantPointerNull>(c)) return V(64,0);
  if(auto*f=dyn_cast<Function>(c)) return V(64,fnAddr[f]);
  if(auto*g=dyn_cast<GlobalVariable>(c)){ if(g->isThreadLocal()) return V(64,tlsAddr(s,g)); return V(64,gAddr[g]); }
  if(auto*ga=dyn_cast<GlobalAlias>(c)) return evalConst(s,ga->getAliasee());
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantStruct>(c)||isa<ConstantArray>(c)||isa<ConstantDataSequential>(c)){
    if(t->isStructTy()||t->isArrayTy()){ V r; r.agg=std::make_shared<std::vector<V>>(); unsigned n=t->isStructTy()? t->getStructNumElements():t->getArrayNumElements(); for(unsigned i=0;i<n;i++) r.agg->push_back(evalConst(s,c->getAggregateElement(i))); return r; }
    if(isa<UndefValue>(c)) return fresh(isa<PoisonValue>(c)?"poison":"uninit",bitsOf(t)); return V(bitsOf(t),0); }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(auto*g=dyn_cast<GEPOperator>(ce)) return gepOff(s,g,[&](const Value*v){return evalConst(s,cast<Constant>(v));});
    if(ce->isCast()) return castop(s,ce->getOpcode(),evalConst(s,ce->getOperand(0)),bitsOf(t),ce->getOperand(0)->getType(),t);
    if(Instruction::isBinaryOp(ce->getOpcode())) return binop(s,ce->getOpcode(),evalConst(s,ce->getOperand(0)),evalConst(s,ce->getOperand(1)),nullptr); }
  std::string q; raw_string_ostream os(q); c->print(os); unsupported(s,"constant "+q); }
static void initMem(State&s,Obj&o,u64 off,const Constant*c){
  Type*t=c->getType();
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return;
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ u64 es=DL->getTypeAllocSize(cd->getElementType()); for(unsigned i=0;i<cd->getNumElements();i++) initMem(s,o,off+i*es,cd->getElementAsConstant(i)); return; }
  if(auto*ca=dyn_cast<ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(t->getArrayElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initMem(s,o,off+i*es,ca->getOperand(i)); return; }
  if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initMem(s,o,off+sl->getElementOffset(i),cs->getOperand(i)); return; }
  V v=evalConst(s,c); storeBytes(o,off,(v.w+7)/8,toBytesW(v,(v.w+7)/8)); }
static u64 tlsAddr(State&s,const GlobalVariable*g){ auto&t=s.th[s.cur].tls; auto it=t.find(g); if(it!=t.end()) return it->second;
  u64 n=DL->getTypeAllocSize(g->getValueType()); auto o=newObj(s,n,KTls,std::max<u64>(16,DL->getPreferredAlign(g).value()),g->getName().str()+"@t"+std::to_string(s.th[s.cur].id),true); if(g->hasInitializer()) initMem(s,*o,0,g->getInitializer()); s.th[s.cur].tls[g]=o->base; return o->base; }

// ---------------------------------------------------------------- operators
static double bitsD(u64 b){ double d; memcpy(&d,&b,8); return d; } static u64 dBits(double d){ u64 b; memcpy(&b,&d,8); return b; }
static float bitsF(u64 b){ u32 x=(u32)b; float d; memcpy(&d,&x,4); return d; } static u64 fBits(float d){ u32 b; memcpy(&b,&d,4); return b; }
static Z3_sort fps(u32 w){ return w==64? Z3_mk_fpa_sort_double(Z):Z3_mk_fpa_sort_single(Z); }
static Ex toFP(const V&v){ if(!usesFP){ usesFP=true; resetSolver(); } return Ex(Z3_mk_fpa_to_fp_bv(Z,ex(v),fps(v.w))); }
static Ex rne(){ return Ex(Z3_mk_fpa_rne(Z)); }
static V fromFP(Z3_ast a,u32 w){ Ex k(a); return mkv(w,Ex(Z3_simplify(Z,Ex(Z3_mk_fpa_to_ieee_bv(Z,a))))); }
#include "flin.inc"
static V binop(State&s,unsigned op,const V&a,const V&b,const Instruction*I){
  u32 w=a.w; 
  if(op==Instruction::FAdd||op==Instruction::FSub||op==Instruction::FMul||op==Instruction::FDiv){
    if(!a.sym&&!b.sym){ if(w==64){ double x=bitsD(a.c),y=bitsD(b.c),r= op==Instruction::FAdd?x+y:op==Instruction::FSub?x-y:op==Instruction::FMul?x*y:x/y; return V(64,dBits(r)); } float x=bitsF(a.c),y=bitsF(b.c),r= op==Instruction::FAdd?x+y:op==Instruction::FSub?x-y:op==Instruction::FMul?x*y:x/y; return V(32,fBits(r)); }
    Ex x=toFP(a),y=toFP(b),m=rne(); V fr; switch(op){ case Instruction::FAdd: fr=fromFP(Z3_mk_fpa_add(Z,m,x,y),w); break; case Instruction::FSub: fr=fromFP(Z3_mk_fpa_sub(Z,m,x,y),w); break; case Instruction::FMul: fr=fromFP(Z3_mk_fpa_mul(Z,m,x,y),w); break; default: fr=fromFP(Z3_mk_fpa_div(Z,m,x,y),w);} FLin fl; if(w==64&&fOp(op,a,b,fl)) fPut(fr,fl); return fr; }
  u64 M_=maskw(w);
  if(O.ovf&&I&&(op==Instruction::Add||op==Instruction::Sub||op==Instruction::Mul)&&cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()){
    Ex x=ex(a),y=ex(b); Ex o1,o2; if(op==Instruction::Add){ o1=Ex(Z3_mk_bvadd_no_overflow(Z,x,y,true)); o2=Ex(Z3_mk_bvadd_no_underflow(Z,x,y)); } else if(op==Instruction::Sub){ o1=Ex(Z3_mk_bvsub_no_overflow(Z,x,y)); o2=Ex(Z3_mk_bvsub_no_underflow(Z,x,y,true)); } else { o1=Ex(Z3_mk_bvmul_no_overflow(Z,x,y,true)); o2=Ex(Z3_mk_bvmul_no_underflow(Z,x,y)); }
    Z3_ast oo[2]={o1,o2}; Ex ok(Z3_mk_and(Z,2,oo));
    V okv=mkv(1,b2v(Z3_simplify(Z,ok))); if(!decide(s,okv)) vioEnd(s,"signed-overflow","signed integer overflow"); }
  if(op==Instruction::UDiv||op==Instruction::SDiv||op==Instruction::URem||op==Instruction::SRem){ V z; if(!b.sym) z=V(1,b.c==0); else z=mkv(1,b2v(Z3_mk_eq(Z,b.e,num(0,w)))); if(decide(s,z)) vioEnd(s,"div-by-zero","division by zero"); }
  if(!a.sym&&!b.sym){ u64 x=a.c,y=b.c; s64 sx=sextw(x,w),sy=sextw(y,w); switch(op){
    case Instruction::Add: return V(w,x+y); case Instruction::Sub: return V(w,x-y); case Instruction::Mul: return V(w,x*y);
    case Instruction::UDiv: return V(w,x/y); case Instruction::URem: return V(w,x%y);
    case Instruction::SDiv: if(sy==-1) return V(w,-x); return V(w,sx/sy); case Instruction::SRem: if(sy==-1) return V(w,0); return V(w,sx%sy);
    case Instruction::And: return V(w,x&y); case Instruction::Or: return V(w,x|y); case Instruction::Xor: return V(w,x^y);
    case Instruction::Shl: if(y>=w) return fresh("ovshift",w); return V(w,x<<y); case Instruction::LShr: if(y>=w) return fresh("ovshift",w); return V(w,(x&M_)>>y); case Instruction::AShr: if(y>=w) return fresh("ovshift",w); return V(w,sx>>y); } }
  // light algebra
  auto isC=[&](const V&v,u64 k){ return !v.sym&&v.c==(k&M_); };
  switch(op){ case Instruction::Add: if(isC(a,0)) return b; if(isC(b,0)) return a; break; case Instruction::Sub: if(isC(b,0)) return a; break;
    case Instruction::Mul: if(isC(a,0)||isC(b,0)) return V(w,(u64)0); if(isC(a,1)) return b; if(isC(b,1)) return a; break;
    case Instruction::And: if(isC(a,0)||isC(b,0)) return V(w,(u64)0); if(isC(a,M_)) return b; if(isC(b,M_)) return a; break;
    case Instruction::Or: if(isC(a,0)) return b; if(isC(b,0)) return a; if(isC(a,M_)||isC(b,M_)) return V(w,M_); break;
    case Instruction::Xor: if(isC(a,0)) return b; if(isC(b,0)) return a; break;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: if(isC(b,0)) return a; break; default: break; }
  { V lv; if(linBin(op,a,b,w,lv)) return lv; }
  Ex x=ex(a),y=ex(b); Z3_ast r=nullptr; switch(op){
    case Instruction::Add: r=Z3_mk_bvadd(Z,x,y); break; case Instruction::Sub: r=Z3_mk_bvsub(Z,x,y); break; case Instruction::Mul: r=Z3_mk_bvmul(Z,x,y); break;
    case Instruction::UDiv: r=Z3_mk_bvudiv(Z,x,y); break; case Instruction::SDiv: r=Z3_mk_bvsdiv(Z,x,y); break; case Instruction::URem: r=Z3_mk_bvurem(Z,x,y); break; case Instruction::SRem: r=Z3_mk_bvsrem(Z,x,y); break;
    case Instruction::And: r=Z3_mk_bvand(Z,x,y); break; case Instruction::Or: r=Z3_mk_bvor(Z,x,y); break; case Instruction::Xor: r=Z3_mk_bvxor(Z,x,y); break;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { r= op==Instruction::Shl? Z3_mk_bvshl(Z,x,y): op==Instruction::LShr? Z3_mk_bvlshr(Z,x,y):Z3_mk_bvashr(Z,x,y); if(!b.sym){ if(b.c>=w) return fresh("ovshift",w); } else { Ex k(r); Ex ov(Z3_mk_bvuge(Z,y,num(w,w))); V f=fresh("ovshift",w); return mkv(w,Ex(Z3_simplify(Z,Ex(Z3_mk_ite(Z,ov,f.e,k))))); } break; }
    default: unsupported(s,"binop"); }
  Ex e(r); return mkv(w,Ex(Z3_simplify(Z,e))); }
static V icmp(State&s,unsigned p,const V&a,const V&b){ u32 w=a.w;
  if(!a.sym&&!b.sym){ u64 x=a.c,y=b.c; s64 sx=sextw(x,w),sy=sextw(y,w); bool r=false; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_SGT:r=sx>sy;break; case CmpInst::ICMP_SGE:r=sx>=sy;break; case CmpInst::ICMP_SLT:r=sx<sy;break; case CmpInst::ICMP_SLE:r=sx<=sy;break; } return V(1,r); }
  { int q=linCmp(p,a,b); if(q>=0) return V(1,q); }
  Ex x=ex(a),y=ex(b); Z3_ast r; switch(p){ case CmpInst::ICMP_EQ:r=Z3_mk_eq(Z,x,y);break; case CmpInst::ICMP_NE: { Ex t(Z3_mk_eq(Z,x,y)); r=Z3_mk_not(Z,t); Ex k(r); return mkv(1,Ex(Z3_simplify(Z,b2v(k)))); } case CmpInst::ICMP_UGT:r=Z3_mk_bvugt(Z,x,y);break; case CmpInst::ICMP_UGE:r=Z3_mk_bvuge(Z,x,y);break; case CmpInst::ICMP_ULT:r=Z3_mk_bvult(Z,x,y);break; case CmpInst::ICMP_ULE:r=Z3_mk_bvule(Z,x,y);break; case CmpInst::ICMP_SGT:r=Z3_mk_bvsgt(Z,x,y);break; case CmpInst::ICMP_SGE:r=Z3_mk_bvsge(Z,x,y);break; case CmpInst::ICMP_SLT:r=Z3_mk_bvslt(Z,x,y);break; default:r=Z3_mk_bvsle(Z,x,y);break; }
  Ex k(r); return mkv(1,Ex(Z3_simplify(Z,b2v(k)))); }
static V fcmp(State&s,unsigned p,const V&a,const V&b){
  if(!a.sym&&!b.sym){ double x=a.w==64?bitsD(a.c):bitsF(a.c),y=b.w==64?bitsD(b.c):bitsF(b.c); bool un=std::isnan(x)||std::isnan(y),r=false; switch(p){ case CmpInst::FCMP_OEQ:r=!un&&x==y;break; case CmpInst::FCMP_OGT:r=!un&&x>y;break; case CmpInst::FCMP_OGE:r=!un&&x>=y;break; case CmpInst::FCMP_OLT:r=!un&&x<y;break; case CmpInst::FCMP_OLE:r=!un&&x<=y;break; case CmpInst::FCMP_ONE:r=!un&&x!=y;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||x==y;break; case CmpInst::FCMP_UGT:r=un||x>y;break; case CmpInst::FCMP_UGE:r=un||x>=y;break; case CmpInst::FCMP_ULT:r=un||x<y;break; case CmpInst::FCMP_ULE:r=un||x<=y;break; case CmpInst::FCMP_UNE:r=un||x!=y;break; case CmpInst::FCMP_TRUE:r=true;break; } return V(1,r); }
  Ex x=toFP(a),y=toFP(b); Ex nx(Z3_mk_fpa_is_nan(Z,x)),ny(Z3_mk_fpa_is_nan(Z,y)); Z3_ast na[2]={nx,ny}; Ex un(Z3_mk_or(Z,2,na)); Z3_ast r=nullptr; bool neg=false,uno=false; switch(p){ case CmpInst::FCMP_OEQ: r=Z3_mk_fpa_eq(Z,x,y);break; case CmpInst::FCMP_OGT:r=Z3_mk_fpa_gt(Z,x,y);break; case CmpInst::FCMP_OGE:r=Z3_mk_fpa_geq(Z,x,y);break; case CmpInst::FCMP_OLT:r=Z3_mk_fpa_lt(Z,x,y);break; case CmpInst::FCMP_OLE:r=Z3_mk_fpa_leq(Z,x,y);break; case CmpInst::FCMP_UNE:r=Z3_mk_fpa_eq(Z,x,y);neg=true;break; case CmpInst::FCMP_UNO: return mkv(1,b2v(un)); case CmpInst::FCMP_ORD: return mkv(1,b2v(mkNot(un))); case CmpInst::FCMP_ULT:r=Z3_mk_fpa_lt(Z,x,y);uno=true;break; case CmpInst::FCMP_ULE:r=Z3_mk_fpa_leq(Z,x,y);uno=true;break; case CmpInst::FCMP_UGT:r=Z3_mk_fpa_gt(Z,x,y);uno=true;break; case CmpInst::FCMP_UGE:r=Z3_mk_fpa_geq(Z,x,y);uno=true;break; default: unsupported(s,"fcmp"); }
  Ex k(r); if(neg) k=mkNot(k); if(uno){ Z3_ast oa[2]={un,k}; k=Ex(Z3_mk_or(Z,2,oa)); } return mkv(1,Ex(Z3_simplify(Z,b2v(k)))); }
static V castop(State&s,unsigned op,const V&a,u32 w,Type*from,Type*to){
  { V lv; if(a.sym&&(op==Instruction::Trunc||op==Instruction::ZExt||op==Instruction::SExt)&&linCast(op,a,w,lv)) return lv; }
  switch(op){ case Instruction::Trunc: if(!a.sym) return V(w,a.c); return mkv(w,Ex(Z3_simplify(Z,Ex(Z3_mk_extract(Z,w-1,0,a.e)))));
   case Instruction::ZExt: if(!a.sym) return V(w,a.c); return mkv(w,Ex(Z3_simplify(Z,Ex(Z3_mk_zero_ext(Z,w-a.w,a.e)))));
   case Instruction::SExt: if(!a.sym) return V(w,(u64)sextw(a.c,a.w)); return mkv(w,Ex(Z3_simplify(Z,Ex(Z3_mk_sign_ext(Z,w-a.w,a.e)))));
   case Instruction::PtrToInt: case Instruction::IntToPtr: { if(a.w==w) return a; if(a.w>w) return castop(s,Instruction::Trunc,a,w,from,to); return castop(s,Instruction::ZExt,a,w,from,to); }
   case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
   case Instruction::SIToFP: if(!a.sym){ s64 x=sextw(a.c,a.w); return w==64? V(64,dBits((double)x)):V(32,fBits((float)x)); } { if(!usesFP){usesFP=true;resetSolver();} Ex m=rne(); V fr=fromFP(Z3_mk_fpa_to_fp_signed(Z,m,a.e,fps(w)),w); FLin fl; if(w==64&&fFromInt(a,true,fl)) fPut(fr,fl); return fr; }
   case Instruction::UIToFP: if(!a.sym){ return w==64? V(64,dBits((double)a.c)):V(32,fBits((float)a.c)); } { if(!usesFP){usesFP=true;resetSolver();} Ex m=rne(); V fr=fromFP(Z3_mk_fpa_to_fp_unsigned(Z,m,a.e,fps(w)),w); FLin fl; if(w==64&&fFromInt(a,false,fl)) fPut(fr,fl); return fr; }
   case Instruction::FPToSI: if(!a.sym){ double x=a.w==64?bitsD(a.c):bitsF(a.c); return V(w,(u64)(s64)x); } { Ex x=toFP(a),m(Z3_mk_fpa_rtz(Z)); return mkv(w,Ex(Z3_mk_fpa_to_sbv(Z,m,x,w))); }
   case Instruction::FPToUI: if(!a.sym){ double x=a.w==64?bitsD(a.c):bitsF(a.c); return V(w,(u64)x); } { Ex x=toFP(a),m(Z3_mk_fpa_rtz(Z)); return mkv(w,Ex(Z3_mk_fpa_to_ubv(Z,m,x,w))); }
   case Instruction::FPExt: if(!a.sym) return V(64,dBits(bitsF(a.c))); { Ex x=toFP(a),m=rne(); return fromFP(Z3_mk_fpa_to_fp_float(Z,m,x,fps(64)),64); }
   case Instruction::FPTrunc: if(!a.sym) return V(32,fBits((float)bitsD(a.c))); { Ex x=toFP(a),m=rne(); return fromFP(Z3_mk_fpa_to_fp_float(Z,m,x,fps(32)),32); } }
  unsupported(s,"cast"); }

// ---------------------------------------------------------------- frames
static Frame& top(State&s){ return s.th[s.cur].fr.back(); }
static V get(State&s,const Value*v){ if(auto*c=dyn_cast<Constant>(v)) return evalConst(s,c); Frame&f=top(s); auto it=f.fi->idx.find(v); if(it==f.fi->idx.end()) unsupported(s,"operand"); V&r=f.regs[it->second];
  if(s.pinned&&r.sym&&!r.agg&&r.w<=64&&!hasUninit(r.e)){ ensureModel(s); u64 x=0; if(evalU64(*s.mdl,r.e,x)) return V(r.w,x); }
  return r; }
static void setR(State&s,const Instruction*I,V v){ Frame&f=top(s); auto it=f.fi->idx.find(I); if(it!=f.fi->idx.end()) f.regs[it->second]=std::move(v); }
static void pushFrame(State&s,const Function*f,const std::vector<V>&args,RetK rk,std::vector<std::pair<V,Type*>> va={},int tid=-1){
  if(f->isDeclaration()) unsupported(s,"call to undefined function "+f->getName().str());
  auto&t=s.th[tid<0?s.cur:tid]; if((int)t.fr.size()>s.depthLimit){ vioEnd(s,"recursion","call depth limit exceeded"); }
  Frame fr; fr.f=f; fr.fi=&info(f); fr.bb=&f->getEntryBlock(); fr.it=fr.bb->begin(); fr.regs.resize(fr.fi->n); fr.uid=s.uidc++; fr.rk=rk; fr.va=std::move(va); gFuncs.insert(f);
  unsigned k=0; for(auto&a:f->args()){ if(k<args.size()) fr.regs[k]=args[k]; else fr.regs[k]=V(bitsOf(a.getType()),0); k++; }
  t.fr.push_back(std::move(fr)); }
static void killAllocas(State&s,Frame&f){ for(u64 a:f.allocas){ auto it=s.mem.find(a); if(it!=s.mem.end()) { s.mem.erase(it); } if(O.races){ } } f.allocas.clear(); }
static u64 allocaObj(State&s,u64 n,u64 al,const std::string&nm){ auto o=newObj(s,n,KStack,al,nm,false); top(s).allocas.push_back(o->base); return o->base; }

// ---------------------------------------------------------------- threads / races
static void vcJoin(VC&a,const VC&b){ if(a.size()<b.size()) a.resize(b.size(),0); for(size_t i=0;i<b.size();i++) a[i]=std::max(a[i],b[i]); }
static u32 vcGet(const VC&a,int i){ return (size_t)i<a.size()? a[i]:0; }
static void raceAccess(State&s,u64 a,u64 n,bool write,const Instruction*I){
  if(s.th.size()<2) return; auto&T=s.th[s.cur]; ObjP o=find(s,a); if(!o||o->kind==KStack&&false) return; 
  for(u64 i=0;i<n;i++){ auto&sh=s.shadow[a+i]; if(sh.wt>=0&&sh.wt!=s.cur&&vcGet(T.vc,sh.wt)<sh.wc) { vioEnd(s,"data-race",std::string(write?"write":"read")+" of "+o->name+" races with a write in "+locOf(sh.wi)); }
    if(write){ for(size_t t=0;t<sh.rd.size();t++) if((int)t!=s.cur&&sh.rd[t]>vcGet(T.vc,t)) vioEnd(s,"data-race","write of "+o->name+" races with a read by another thread"); sh.wt=s.cur; sh.wc=vcGet(T.vc,s.cur); sh.wi=I; sh.rd.clear(); }
    else { if(sh.rd.size()<=(size_t)s.cur) sh.rd.resize(s.cur+1,0); sh.rd[s.cur]=vcGet(T.vc,s.cur); } } }
static void tick(State&s){ auto&T=s.th[s.cur]; if(T.vc.size()<=(size_t)s.cur) T.vc.resize(s.cur+1,0); T.vc[s.cur]++; }
static void acquire(State&s,u64 a){ if(s.th.size()<2) return; auto it=s.relVC.find(a); if(it!=s.relVC.end()) vcJoin(s.th[s.cur].vc,it->second); }
// fences: a relaxed load keeps what it may have synchronised with for a later acquire fence; a relaxed store publishes what an earlier release fence covered
static void acquireRelaxed(State&s,u64 a){ if(s.th.size()<2) return; auto it=s.relVC.find(a); if(it!=s.relVC.end()) vcJoin(s.th[s.cur].acqP,it->second); }
static void releaseRelaxed(State&s,u64 a,bool rmw){ if(s.th.size()<2) return; auto&T=s.th[s.cur]; if(!rmw){ if(T.hasRelF) s.relVC[a]=T.relF; else s.relVC.erase(a); } else if(T.hasRelF) vcJoin(s.relVC[a],T.relF); }
static void release(State&s,u64 a,bool rmw){ if(s.th.size()<2) return; auto&r=s.relVC[a]; if(rmw) vcJoin(r,s.th[s.cur].vc); else r=s.th[s.cur].vc; tick(s); }
static bool enabled(State&s,int t){ auto&T=s.th[t]; if(T.done) return false; if(T.joinOn>=0&&!s.th[T.joinOn].done) return false; if(T.mutexOn){ auto it=s.mutex.find(T.mutexOn); if(it!=s.mutex.end()&&it->second>=0) return false; } if(T.waitProg!=~0ull&&T.waitProg==s.progress) return false; return true; }
static void recordSched(State&s,int t){ s.sched.push_back(t); Ex v=namedConst("sched!"+std::to_string(s.schedCnt++),8); addPC(s,Ex(Z3_mk_eq(Z,v,num(t,8)))); s.mdl.reset(); ST.switches++; }
static void switchTo(State&s,int t){ s.cur=t; s.th[t].waitProg=~0ull; s.justSched=true; recordSched(s,t); }
// the current thread cannot go on: hand over to any enabled thread (free switch, forks over the choice)
static void mustSwitch(State&s,const char*why){ std::vector<int> en; for(size_t t=0;t<s.th.size();t++) if((int)t!=s.cur&&enabled(s,t)) en.push_back(t);
  if(en.empty()&&(strcmp(why,"yield")==0||strcmp(why,"spin")==0||!enabled(s,s.cur))){ // only yielding threads are left: give each another turn, a few rounds
    bool any=false; if(s.yieldProg!=s.progress){ s.yieldProg=s.progress; s.yieldRounds=0; } if(++s.yieldRounds<=200) { int n=(int)s.th.size(); for(int d=1;d<=n;d++){ int t=(s.cur+d)%n; u64 w=s.th[t].waitProg; s.th[t].waitProg=~0ull; bool e=enabled(s,t); if(e&&!any){ any=true; switchTo(s,t); break; } s.th[t].waitProg=w; } } if(any) return; }
  if(en.empty()){ if(enabled(s,s.cur)&&strcmp(why,"yield")!=0&&strcmp(why,"spin")!=0){ s.justSched=true; return; } vioEnd(s,"deadlock",std::string("no thread can make progress (")+why+")"); }
  if(O.preempt<0){ int b=en[0]; for(int t:en){ if(O.preempt==-2) b=t; else if(O.preempt==-3&&t>s.cur){ b=t; break; } } switchTo(s,b); return; } // one fixed order: lowest, highest, next
  for(size_t i=1;i<en.size();i++){ auto n=fork_(s); switchTo(*n,en[i]); work.push_back(std::move(n)); } switchTo(s,en[0]); }
// visible operation: optionally preempt before it. Returns true when another thread must run first.
static void schedPoint(State&s){ if(s.th.size()<2||s.justSched||s.noPre) return; if(s.preemptions>=O.preempt) return;
  for(size_t t=0;t<s.th.size();t++) if((int)t!=s.cur&&enabled(s,t)){ auto n=fork_(s); n->preemptions++; switchTo(*n,t); work.push_back(std::move(n)); } s.justSched=true; recordSched(s,s.cur); }

// ---------------------------------------------------------------- exit and signals
static void donePath(State&s){ for(auto&c:s.covers) gCovers[c]++; ST.paths++;
  if((int)gSamples.size()<O.samples){ std::string sig; for(auto&c:s.covers) sig+=c+";"; if(gSampleSig.insert(sig).second||(gSamples.size()<2&&ST.paths<50)){ std::shared_ptr<z3::model> m=s.mdl; if(!m){ if(check(s.pc,nullptr,&m)<=0) return; }
    Sample x; x.threads=s.th.size()>1; x.covers.assign(s.covers.begin(),s.covers.end()); for(auto&i:s.inputs){ u64 v=0; evalU64(*m,i.e,v); x.inputs.push_back({i.name,v}); } gSamples.push_back(x); } } }
static void finish(State&s){ 
  if(!s.expectAny&&s.exitCode!=s.expectExit){ violation(s,"unexpected-exit","process ended with status "+std::to_string(s.exitCode)+(s.exitKind==2?" by a signal":s.exitKind==1?" via _Exit":"")); throw PathEnd(); }
  donePath(s); throw PathEnd(); }
static void contExit(State&s){ auto&t=s.th[s.cur];
  if(s.exitKind==0&&!s.atexits.empty()){ auto f=s.atexits.back(); s.atexits.pop_back(); auto it=addrFn.find(f.first); if(it==addrFn.end()) vioEnd(s,"invalid-call","atexit handler"); pushFrame(s,it->second,{},RExit); return; }
  if(s.exitHook&&!s.hookRun){ s.hookRun=true; pushFrame(s,addrFn[s.exitHook],{V(32,(u64)s.exitCode),V(32,(u64)s.exitKind)},RFinish); return; }
  (void)t; finish(s); }
static void startExit(State&s,int code,int kind){ if(s.exiting&&kind==0){ s.exitCode=code; contExit(s); return; } s.exiting=true; s.exitCode=code; s.exitKind=kind; contExit(s); }
static void deliver(State&s,int sig){ u64 h=0; auto it=s.sigact.find(sig); if(it!=s.sigact.end()) h=it->second;
  if(h==1) return; if(h==0){ if(sig==SIGCHLD||sig==SIGWINCH||sig==SIGURG) return; startExit(s,128+sig,2); return; }
  auto f=addrFn.find(h); if(f==addrFn.end()) vioEnd(s,"invalid-call","signal handler is not a function"); auto&T=s.th[s.cur]; u64 old=T.sigmask; u64 fl=s.sigflags.count(sig)? s.sigflags[sig]:0; if(fl&SA_RESETHAND) s.sigact[sig]=0; pushFrame(s,f->second,{V(32,(u64)sig),V(64,(u64)0),V(64,(u64)0)},RSignal); top(s).savedMask=old; if(!(fl&SA_NODEFER)) T.sigmask|=1ull<<(sig-1); }
static void raiseSig(State&s,int sig){ auto&T=s.th[s.cur]; if(T.sigmask&(1ull<<(sig-1))){ T.pending|=1ull<<(sig-1); return; } deliver(s,sig); }
static void checkPending(State&s){ auto&T=s.th[s.cur]; for(int g=1;g<32;g++) if((T.pending&(1ull<<(g-1)))&&!(T.sigmask&(1ull<<(g-1)))){ T.pending&=~(1ull<<(g-1)); deliver(s,g); return; } }

#include "builtins.inc"

// ---------------------------------------------------------------- instruction step
static void doRet(State&s,const V*rv){
  auto&T=s.th[s.cur]; Frame fr=std::move(T.fr.back()); T.fr.pop_back(); killAllocas(s,fr);
  switch(fr.rk){
   case RNormal: { if(T.fr.empty()) { startExit(s,0,0); return; } Frame&c=T.fr.back(); const Instruction*I=&*c.it; if(rv&&!I->getType()->isVoidTy()) setR(s,I,*rv); ++c.it; return; }
   case RIgnore: return;
   case RSignal: T.sigmask=fr.savedMask; checkPending(s); return;
   case RThread: { T.done=true; T.retval= rv&&!rv->sym? rv->c:0; s.progress++; if(T.id!=0) for(auto&kv:T.tls) { auto o=find(s,kv.second); if(o){ auto n=std::make_shared<Obj>(); n->base=o->base;n->size=o->size;n->kind=KTls;n->live=false;n->name=o->name; s.mem[o->base]=n; } } if(T.id==0){ startExit(s,(int)(T.retval&0xff),0); return; } mustSwitch(s,"thread end"); return; }
   case RExit: contExit(s); return;
   case RFinish: finish(s); } }
static void enterBlock(State&s,const BasicBlock*to){ Frame&f=top(s); const BasicBlock*from=f.bb; std::vector<std::pair<const Instruction*,V>> ph; for(auto&phi:to->phis()) ph.push_back({&phi,get(s,phi.getIncomingValueForBlock(from))}); f.prev=from; f.bb=to; f.it=to->begin(); for(auto&p:ph) setR(s,p.first,p.second); while(isa<PHINode>(&*f.it)) ++f.it; }
void doRetFwd(State&s,const V*v){ doRet(s,v); }
static V loadTy(State&s,const V&p,Type*t,const Instruction*I){
  if(t->isStructTy()||t->isArrayTy()){ V r; r.agg=std::make_shared<std::vector<V>>(); unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements(); for(unsigned i=0;i<n;i++){ u64 off=t->isStructTy()? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i): i*DL->getTypeAllocSize(t->getArrayElementType()); Type*et=t->isStructTy()?t->getStructElementType(i):t->getArrayElementType(); V q=p.sym? mkv(64,Ex(Z3_mk_bvadd(Z,p.e,num(off,64)))):V(64,p.c+off); r.agg->push_back(loadTy(s,q,et,I)); } return r; }
  if(t->isX86_FP80Ty()||t->isVectorTy()) unsupported(s,"type"); u32 w=bitsOf(t),n=(w+7)/8; if(n>8) unsupported(s,"wide load"); V v=loadV(s,p,n,I); if(v.w!=w) v=castop(s,Instruction::Trunc,v,w,nullptr,nullptr); return v; }
static void storeTy(State&s,const V&p,const V&v,Type*t,const Instruction*I){
  if(v.agg){ for(unsigned i=0;i<v.agg->size();i++){ u64 off=t->isStructTy()? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i): i*DL->getTypeAllocSize(t->getArrayElementType()); Type*et=t->isStructTy()?t->getStructElementType(i):t->getArrayElementType(); V q=p.sym? mkv(64,Ex(Z3_mk_bvadd(Z,p.e,num(off,64)))):V(64,p.c+off); storeTy(s,q,(*v.agg)[i],et,I); } return; }
  u32 n=(v.w+7)/8; if(n>8) unsupported(s,"wide store"); storeV(s,p,v,n,I); }
static u64 conA(State&s,const Value*v){ return concr(s,get(s,v)); }
static bool ordAcq(AtomicOrdering o){ return o==AtomicOrdering::Acquire||o==AtomicOrdering::AcquireRelease||o==AtomicOrdering::SequentiallyConsistent; }
static bool ordRel(AtomicOrdering o){ return o==AtomicOrdering::Release||o==AtomicOrdering::AcquireRelease||o==AtomicOrdering::SequentiallyConsistent; }
// spin detection: the same visible read with the same value and no progress in between
static bool spinning(State&s,const Instruction*I,u64 at,const V&val){ auto&T=s.th[s.cur]; if(s.th.size()<2) return false; int v= val.sym? -2:(int)(val.c&0x7fffffff); if(T.lastSpin==I&&T.lastSpinProg==s.progress&&T.lastSpinVal==v&&T.lastSpinAt==at){ T.waitProg=s.progress; T.lastSpin=nullptr; return true; } T.lastSpin=I; T.lastSpinProg=s.progress; T.lastSpinVal=v; T.lastSpinAt=at; return false; }
/* --probe N: where an operation is too hard for the solver in general, restrict the query: fork into N restrictions of it, each
   fixing all inputs so far to values that the path condition allows (largest, smallest, then arbitrary ones) */
static void pinAll(State&s,int k){ static u64 rs=0x9e3779b97f4a7c15ull; auto rnd=[&]{ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs; };
  struct W1{ Inp*in; u64 want; }; std::vector<W1> ws; int mode0= k==0?1: k==1?0: k<8? 3: (int)(rnd()%4);
  for(auto&in:s.inputs){ u64 x; if(getNum(in.e,x)) continue; int mode= k<8? mode0: (int)(rnd()%4); u64 lo=0,hi=maskw(in.w); auto it=lAtomOf.find(Z3_get_ast_id(Z,in.e)); if(it!=lAtomOf.end()){ lo=lAtoms[it->second].lo; hi=lAtoms[it->second].hi; }
    u64 sp=hi-lo; ws.push_back({&in, mode==1? hi: mode==0? lo: sp==~0ull? rnd(): lo+rnd()%(sp+1)}); }
  if(!ws.empty()){ ensureModel(s); std::vector<Ex> cs; std::vector<Z3_ast> as; for(auto&w:ws){ cs.push_back(Ex(Z3_mk_eq(Z,w.in->e,num(w.want,w.in->w)))); as.push_back(cs.back()); } std::shared_ptr<z3::model> m; if(check(s.pc,Ex(Z3_mk_and(Z,as.size(),as.data())),&m)>0&&m){ for(auto&c:cs) addPC(s,c); s.mdl=m; s.pinned=true; return; } }
  for(auto&w:ws){ Inp&in=*w.in; u64 want=w.want;
    std::vector<Ex> cs; u64 got=0; bool fast=false; { ensureModel(s); Ex eq(Z3_mk_eq(Z,in.e,num(want,in.w))); std::shared_ptr<z3::model> m; if(check(s.pc,eq,&m)>0){ addPC(s,eq); s.mdl=m; fast=true; } } if(fast) continue;
    for(int b=(int)in.w-1;b>=0;b--){ bool wb=(want>>b)&1; Ex bit(Z3_mk_eq(Z,Ex(Z3_mk_extract(Z,b,b,in.e)),num(wb,1))); ensureModel(s); bool v=false; if(evalBool(*s.mdl,bit,v)&&v){ addPC(s,bit); continue; } std::shared_ptr<z3::model> m; if(check(s.pc,bit,&m)>0){ addPC(s,bit); s.mdl=m; } else addPC(s,mkNot(bit)); } (void)got; (void)cs; }
  s.pinned=true; }
static bool hardOp(State&s,const Instruction*I){ switch(I->getOpcode()){ case Instruction::Mul: { V a=get(s,I->getOperand(0)),b=get(s,I->getOperand(1)); return simp(a).sym&&simp(b).sym; } case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FCmp: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FNeg: break;
   case Instruction::Call: { auto*c=cast<CallBase>(I); auto*f=c->getCalledFunction(); if(!f||(f->getName()!="sx_close"&&f->getName()!="sx_assert")) return false; break; } default: return false; }
  for(unsigned i=0;i<I->getNumOperands();i++){ auto*o=I->getOperand(i); if(isa<Constant>(o)||!o->getType()->isSingleValueType()) continue; V v=get(s,o); if(v.sym&&!v.agg&&simp(v).sym) return true; } return false; }
static void step(State&s){
  Frame&f=top(s); const Instruction*I=&*f.it; curI=I; s.instrs++; ST.instrs++;
  if(O.probe&&!s.pinned&&hardOp(s,I)){ std::vector<std::unique_ptr<State>> q; for(int k=0;k<O.probe;k++){ auto ns=fork_(s); pinAll(*ns,k); q.push_back(std::move(ns)); } for(size_t k=q.size();k-->0;) work.push_back(std::move(q[k])); throw PathEnd(); }
  if(O.trace) fprintf(stderr,"[s%llu t%d] %s\n",(unsigned long long)s.id,s.cur,locOf(I).c_str());
  switch(I->getOpcode()){
   case Instruction::Alloca: { auto*a=cast<AllocaInst>(I); u64 n=DL->getTypeAllocSize(a->getAllocatedType()); if(a->isArrayAllocation()) n*=conA(s,a->getArraySize()); u64 p=allocaObj(s,n,a->getAlign().value(),a->hasName()?(a->getFunction()->getName()+"."+a->getName()).str():a->getFunction()->getName().str()+".tmp"); setR(s,I,V(64,p)); break; }
   case Instruction::Load: { auto*l=cast<LoadInst>(I); if(l->isAtomic()){ schedPoint(s); }
     V p=get(s,l->getPointerOperand()); V v=loadTy(s,p,l->getType(),l->isAtomic()?nullptr:I); if(l->isAtomic()){ u64 a=concr(s,p); if(ordAcq(l->getOrdering())) acquire(s,a); else acquireRelaxed(s,a); setR(s,I,v); ++top(s).it; s.justSched=false; if(spinning(s,I,a,v)) mustSwitch(s,"spin"); return; } setR(s,I,v); break; }
   case Instruction::Store: { auto*st=cast<StoreInst>(I); if(st->isAtomic()){ schedPoint(s); } V p=get(s,st->getPointerOperand()); V v=get(s,st->getValueOperand()); if(v.sym&&v.w>=32&&!lAtoms.empty()&&st->getValueOperand()->getType()->isIntegerTy()) v=uniqueV(s,v); storeTy(s,p,v,st->getValueOperand()->getType(),st->isAtomic()?nullptr:I); if(st->isAtomic()){ u64 a=concr(s,p); if(ordRel(st->getOrdering())) release(s,a,false); else releaseRelaxed(s,a,false); s.progress++; s.justSched=false; s.th[s.cur].lastSpin=nullptr; } else if(s.th.size()>1&&!p.sym){ ObjP po=find(s,p.c); if(po&&po->kind!=KStack) s.progress++; } break; }
   case Instruction::AtomicRMW: { auto*r=cast<AtomicRMWInst>(I); schedPoint(s); V p=get(s,r->getPointerOperand()); V old=loadTy(s,p,r->getType(),nullptr); V b=get(s,r->getValOperand()); V nv; switch(r->getOperation()){ case AtomicRMWInst::Xchg:nv=b;break; case AtomicRMWInst::Add:nv=binop(s,Instruction::Add,old,b,nullptr);break; case AtomicRMWInst::Sub:nv=binop(s,Instruction::Sub,old,b,nullptr);break; case AtomicRMWInst::And:nv=binop(s,Instruction::And,old,b,nullptr);break; case AtomicRMWInst::Or:nv=binop(s,Instruction::Or,old,b,nullptr);break; case AtomicRMWInst::Xor:nv=binop(s,Instruction::Xor,old,b,nullptr);break; case AtomicRMWInst::Nand: nv=binop(s,Instruction::Xor,binop(s,Instruction::And,old,b,nullptr),V(old.w,maskw(old.w)),nullptr); break; default: unsupported(s,"atomicrmw"); }
     storeTy(s,p,nv,r->getType(),nullptr); u64 a=concr(s,p); if(ordAcq(r->getOrdering())) acquire(s,a); else acquireRelaxed(s,a); if(ordRel(r->getOrdering())) release(s,a,true); else releaseRelaxed(s,a,true); bool changed= old.sym||nv.sym||old.c!=nv.c; if(changed) s.progress++; setR(s,I,old); ++top(s).it; s.justSched=false; if(!changed){ if(spinning(s,I,a,old)) mustSwitch(s,"spin"); } else s.th[s.cur].lastSpin=nullptr; return; }
   case Instruction::AtomicCmpXchg: { auto*r=cast<AtomicCmpXchgInst>(I); schedPoint(s); V p=get(s,r->getPointerOperand()); V old=loadTy(s,p,r->getCompareOperand()->getType(),nullptr); V e=get(s,r->getCompareOperand()); V n=get(s,r->getNewValOperand()); V c=icmp(s,CmpInst::ICMP_EQ,old,e); bool ok=decide(s,c); u64 a=concr(s,p); if(ok){ storeTy(s,p,n,r->getCompareOperand()->getType(),nullptr); s.progress++; } if(ordAcq(ok?r->getSuccessOrdering():r->getFailureOrdering())) acquire(s,a); else acquireRelaxed(s,a); if(ok){ if(ordRel(r->getSuccessOrdering())) release(s,a,true); else releaseRelaxed(s,a,true); } V res; res.agg=std::make_shared<std::vector<V>>(); res.agg->push_back(old); res.agg->push_back(V(1,ok)); setR(s,I,res); ++top(s).it; s.justSched=false; if(!ok){ if(spinning(s,I,a,old)) mustSwitch(s,"spin"); } else s.th[s.cur].lastSpin=nullptr; return; }
   case Instruction::Fence: { auto o=cast<FenceInst>(I)->getOrdering(); auto&T=s.th[s.cur]; if(s.th.size()>1){ if(ordAcq(o)){ vcJoin(T.vc,T.acqP); T.acqP.clear(); } if(ordRel(o)){ T.relF=T.vc; T.hasRelF=true; tick(s); } } break; }
   case Instruction::GetElementPtr: setR(s,I,gepOff(s,cast<GEPOperator>(I),[&](const Value*v){return get(s,v);})); break;
   case Instruction::ICmp: { auto*c=cast<ICmpInst>(I); setR(s,I,icmp(s,c->getPredicate(),get(s,c->getOperand(0)),get(s,c->getOperand(1)))); break; }
   case Instruction::FCmp: { auto*c=cast<FCmpInst>(I); setR(s,I,fcmp(s,c->getPredicate(),get(s,c->getOperand(0)),get(s,c->getOperand(1)))); break; }
   case Instruction::FNeg: { V a=get(s,I->getOperand(0)); V r=binop(s,Instruction::Xor,a,V(a.w,1ull<<(a.w-1)),nullptr); FLin fl; if(a.sym&&getF(a,fl)){ for(auto&p:fl.t) p.second.first=-p.second.first; fl.k=-fl.k; fPut(r,fl); } setR(s,I,r); break; }
   case Instruction::Select: { V c=simp(get(s,I->getOperand(0))); V a=get(s,I->getOperand(1)),b=get(s,I->getOperand(2)); if(!c.sym) setR(s,I,c.c?a:b); else if(a.agg) { setR(s,I,decide(s,c)?a:b); } else { Ex cb=v2b(c); setR(s,I,mkv(a.w,Ex(Z3_simplify(Z,Ex(Z3_mk_ite(Z,cb,ex(a),ex(b))))))); } break; }
   case Instruction::Freeze: setR(s,I,get(s,I->getOperand(0))); break;
   case Instruction::ExtractValue: { auto*e=cast<ExtractValueInst>(I); V v=get(s,e->getAggregateOperand()); for(unsigned i:e->indices()){ V t=(*v.agg)[i]; v=t; } setR(s,I,v); break; }
   case Instruction::InsertValue: { auto*e=cast<InsertValueInst>(I); V v=get(s,e->getAggregateOperand()); V x=get(s,e->getInsertedValueOperand()); std::function<V(V,unsigned)> ins=[&](V a,unsigned d)->V{ if(d==e->getNumIndices()) return x; V r=a; r.agg=std::make_shared<std::vector<V>>(*a.agg); (*r.agg)[e->getIndices()[d]]=ins((*r.agg)[e->getIndices()[d]],d+1); return r; }; setR(s,I,ins(v,0)); break; }
   case Instruction::Br: { auto*b=cast<BranchInst>(I); if(b->isUnconditional()){ enterBlock(s,b->getSuccessor(0)); return; } bool c=decide(s,get(s,b->getCondition()),true); enterBlock(s,b->getSuccessor(c?0:1)); return; }
   case Instruction::Switch: { auto*sw=cast<SwitchInst>(I); V c=simp(get(s,sw->getCondition())); if(!c.sym){ for(auto&cs:sw->cases()) if(cs.getCaseValue()->getZExtValue()==c.c){ enterBlock(s,cs.getCaseSuccessor()); return; } enterBlock(s,sw->getDefaultDest()); return; }
     for(auto&cs:sw->cases()){ V eq=mkv(1,b2v(Z3_mk_eq(Z,c.e,num(cs.getCaseValue()->getZExtValue(),c.w)))); if(decide(s,eq)){ enterBlock(s,cs.getCaseSuccessor()); return; } } enterBlock(s,sw->getDefaultDest()); return; }
   case Instruction::Ret: { auto*r=cast<ReturnInst>(I); if(r->getReturnValue()){ V v=get(s,r->getReturnValue()); if(!r->getReturnValue()->getType()->isFloatingPointTy()) v=uniqueV(s,v); doRet(s,&v);} else doRet(s,nullptr); return; }
   case Instruction::Unreachable: vioEnd(s,"unreachable","reached code declared unreachable");
   case Instruction::Call: { if(doCall(s,cast<CallBase>(I))) return; break; }
   default: if(I->isBinaryOp()){ setR(s,I,binop(s,I->getOpcode(),get(s,I->getOperand(0)),get(s,I->getOperand(1)),I)); break; } if(I->isCast()){ setR(s,I,castop(s,I->getOpcode(),get(s,I->getOperand(0)),bitsOf(I->getType()),I->getOperand(0)->getType(),I->getType())); break; } unsupported(s,std::string("instruction ")+I->getOpcodeName()); }
  ++top(s).it; }

static std::string jesc(const std::string&x){ std::string r; for(char c:x){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32||(unsigned char)c>126){ char b[8]; snprintf(b,8,"\\u%04x",(unsigned char)c); r+=b; } else r+=c; } return r; }
static void report(){ std::string j="{\n"; auto kv=[&](const char*k,double v){ char b[100]; snprintf(b,100,"  \"%s\": %.15g,\n",k,v); j+=b; };
  kv("paths",ST.paths); kv("killed",ST.killed); kv("instrs",ST.instrs); kv("forks",ST.forks); kv("branches",ST.branches); kv("asserts",ST.asserts); kv("queries",ST.queries); kv("sat",ST.sat); kv("unsat",ST.unsat); kv("unknown",ST.unknown); kv("solver_s",ST.solver); kv("switches",ST.switches); kv("wall_s",now());
  j+="  \"functions\": ["; bool first=true; for(auto*f:gFuncs){ auto*sp=f->getSubprogram(); std::string fn= sp? sp->getFilename().str():""; auto p=fn.rfind('/'); if(p!=std::string::npos) fn=fn.substr(p+1); j+=std::string(first?"":", ")+"\""+jesc(fn)+":"+jesc(f->getName().str())+"\""; first=false; } j+="],\n  \"covers\": {"; first=true; for(auto&c:gCovers){ j+=std::string(first?"":", ")+"\""+jesc(c.first)+"\": "+std::to_string(c.second); first=false; } j+="},\n  \"inconclusive\": ["; first=true; for(auto&c:gInconcl){ j+=std::string(first?"":", ")+"\""+jesc(c)+"\""; first=false; } j+="],\n  \"violations\": ["; first=true;
  for(auto&v:viols){ j+=std::string(first?"":",")+"\n    {\"kind\": \""+jesc(v.kind)+"\", \"msg\": \""+jesc(v.msg)+"\", \"loc\": \""+jesc(v.loc)+"\", \"stack\": \""+jesc(v.stack)+"\", \"inputs\": ["; bool f2=true; for(auto&i:v.inputs){ j+=std::string(f2?"":", ")+"[\""+jesc(i.first)+"\", "+std::to_string(i.second)+"]"; f2=false; } j+="], \"sched\": ["; f2=true; for(int t:v.sched){ j+=std::string(f2?"":", ")+std::to_string(t); f2=false; } j+="]}"; first=false; } j+="],\n  \"samples\": ["; first=true; for(auto&v:gSamples){ j+=std::string(first?"":",")+"\n    {\"threads\": "+(v.threads?"true":"false")+", \"inputs\": ["; bool f2=true; for(auto&i:v.inputs){ j+=std::string(f2?"":", ")+"[\""+jesc(i.first)+"\", "+std::to_string(i.second)+"]"; f2=false; } j+="], \"covers\": ["; f2=true; for(auto&i:v.covers){ j+=std::string(f2?"":", ")+"\""+jesc(i)+"\""; f2=false; } j+="]}"; first=false; } j+="]\n}\n";
  FILE*f= O.out.empty()? stdout: fopen(O.out.c_str(),"w"); if(f){ fputs(j.c_str(),f); if(f!=stdout) fclose(f); } }

int main(int argc,char**argv){
  T0=Clk::now(); std::string bc; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--probe") O.probe=atoi(nx().c_str()); else if(a=="--max-paths") O.maxPaths=atol(nx().c_str()); else if(a=="--max-instr") O.maxInstr=atol(nx().c_str()); else if(a=="--max-time") O.maxTime=atof(nx().c_str()); else if(a=="--preempt") O.preempt=atoi(nx().c_str()); else if(a=="--qto") O.qTimeout=atoi(nx().c_str()); else if(a=="--hto") O.hardTimeout=atoi(nx().c_str()); else if(a=="--races") O.races=true; else if(a=="--ovf") O.ovf=true; else if(a=="--max-viol") O.maxViol=atoi(nx().c_str()); else if(a=="-o") O.out=nx(); else if(a=="--verbose") O.verbose=true; else if(a=="--trace") O.trace=true; else if(a=="--dumpq") O.dumpq=nx(); else if(a=="--samples") O.samples=atoi(nx().c_str()); else if(a=="--fixed"){ O.useFixed=true; FILE*f=fopen(nx().c_str(),"r"); char k[16],nm[128]; unsigned long long v; while(f&&fscanf(f,"%15s %127s %llu",k,nm,&v)==3){ if(k[0]=='i') O.fixed[nm]=v; else O.params[nm]=std::to_string((long long)v); } if(f) fclose(f); } else if(a=="--p"){ std::string k=nx(); auto p=k.find('='); O.params[k.substr(0,p)]=k.substr(p+1); } else bc=a; }
  z3::config zcfg; ZC=new z3::context(zcfg); Z=*ZC; Z3_set_error_handler(Z,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"symx: z3 error %s\n",Z3_get_error_msg(c,e)); abort(); });
  LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(bc,err,ctx); if(!mod){ err.print("symx",errs()); return 3; } M=mod.get(); DL=&M->getDataLayout();
  auto s0=std::make_unique<State>(); State&s=*s0; s.nextAddr=0x100000; u64 fa=0x10000; for(auto&f:*M){ fnAddr[&f]=fa; addrFn[fa]=&f; fa+=16; }
  Thread t; t.id=0; t.vc={1}; s.th.push_back(t);
  try{
  for(auto&g:M->globals()){ if(g.isThreadLocal()) continue; if(g.getName().starts_with("llvm.")) continue; u64 n=DL->getTypeAllocSize(g.getValueType()); auto o=newObj(s,n,KGlobal,std::max<u64>(16,DL->getPreferredAlign(&g).value()),g.getName().str(),true); gAddr[&g]=o->base; if(g.isDeclaration()) o->name=g.getName().str()+"(extern)"; }
  for(auto&g:M->globals()){ if(g.isThreadLocal()||!g.hasInitializer()||g.getName().starts_with("llvm.")) continue; auto o=find(s,gAddr[&g]); if(!o) continue; initMem(s,*o,0,g.getInitializer()); if(g.isConstant()) o->ro=true; }
  const Function*mn=M->getFunction("main"); if(!mn){ fprintf(stderr,"symx: no main\n"); return 3; }
  std::vector<V> args; if(mn->arg_size()>=2){ auto av=newObj(s,16,KMisc,16,"argv",true); auto a0=newObj(s,8,KMisc,16,"argv0",true); a0->d[0]='h'; storeC(s,av->base,a0->base,8); args={V(32,1),V(64,av->base)}; }
  pushFrame(s,mn,args,RThread); } catch(PathEnd&){ fprintf(stderr,"symx: initialisation failed\n"); report(); return 3; }
  work.push_back(std::move(s0)); double lastP=0;
  while(!work.empty()){
    if(now()>O.maxTime){ gInconcl.insert("time limit"); break; } if((long)(ST.paths+ST.killed)>O.maxPaths){ gInconcl.insert("path limit"); break; } if((int)viols.size()>=O.maxViol){ break; }
    auto cur=std::move(work.back()); work.pop_back();
    try{ for(;;){ if(cur->instrs>(u64)O.maxInstr){ gInconcl.insert("instruction limit on a path at "+locOf(curI)); 
            vioEnd(*cur,"step-limit","execution does not finish within the instruction bound"); } if((cur->instrs&1023)==0&&now()>O.maxTime){ gInconcl.insert("time limit"); throw PathEnd(); } step(*cur); } }
    catch(PathEnd&){ ST.killed++; }
    if(O.verbose&&now()-lastP>2){ lastP=now(); fprintf(stderr,"[%.1fs] paths %llu work %zu instrs %llu queries %llu solver %.1fs viol %zu at %s\n",now(),(unsigned long long)ST.paths,work.size(),(unsigned long long)ST.instrs,(unsigned long long)ST.queries,ST.solver,viols.size(),locOf(curI).c_str()); } }
  ST.killed-=std::min(ST.killed,ST.paths); report(); return viols.empty()? (gInconcl.empty()?0:2):1; }
