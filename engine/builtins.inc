// Calls: user functions, intrinsics, the modelled C library / pthread layer and the sx_* harness API.
static const Function* calleeOf(State&s,const CallBase*cb){
  const Value*cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*f=dyn_cast<Function>(cv)) return f; if(auto*ga=dyn_cast<GlobalAlias>(cv)) if(auto*f=dyn_cast<Function>(ga->getAliasee()->stripPointerCasts())) return f;
  V p=get(s,cb->getCalledOperand()); u64 a=concr(s,p); auto it=addrFn.find(a); if(it==addrFn.end()) vioEnd(s,"invalid-call",a<4096?"call through a null function pointer":"call through a pointer that is not a function"); return it->second; }

static void vaStart(State&s,u64 ap){
  Frame&f=top(s); unsigned gp=0,fp=0; for(auto&a:f.f->args()){ if(a.hasByValAttr()) continue; if(a.getType()->isDoubleTy()||a.getType()->isFloatTy()) fp++; else gp++; }
  if(gp>6) gp=6; if(fp>8) fp=8; u32 gp0=gp*8,fp0=48+fp*16; u64 rs=allocaObj(s,176,16,"va.regs"); std::vector<std::pair<V,Type*>> va=top(s).va; u64 osz=0; for(auto&p:va){ if(p.second->isStructTy()) osz+=(DL->getTypeAllocSize(p.second)+7)/8*8; else osz+=8; }
  u64 ov=allocaObj(s,osz+8,16,"va.over"); u64 oo=0; u32 g=gp0,q=fp0;
  for(auto&p:va){ if(p.second->isStructTy()){ u64 n=DL->getTypeAllocSize(p.second); copyMem(s,ov+oo,concr(s,p.first),n,false,nullptr); oo+=(n+7)/8*8; continue; }
    V v=p.first; if(v.w<64) v=castop(s,Instruction::ZExt,v,64,nullptr,nullptr);
    if(p.second->isDoubleTy()||p.second->isFloatTy()){ if(q<176){ storeV(s,V(64,rs+q),v,8); q+=16; } else { storeV(s,V(64,ov+oo),v,8); oo+=8; } }
    else if(g<48){ storeV(s,V(64,rs+g),v,8); g+=8; } else { storeV(s,V(64,ov+oo),v,8); oo+=8; } }
  storeC(s,ap,gp0,4); storeC(s,ap+4,fp0,4); storeC(s,ap+8,ov,8); storeC(s,ap+16,rs,8); }

static V bitcount(const V&v,bool lead){ u32 w=v.w; if(!v.sym){ if(!v.c) return V(w,w); return V(w,lead? (u64)(__builtin_clzll(v.c)-(64-w)):(u64)__builtin_ctzll(v.c)); }
  Ex r=num(w,w); for(u32 k=0;k<w;k++){ u32 bit= lead? k : w-1-k; Ex b(Z3_mk_eq(Z,Ex(Z3_mk_extract(Z,bit,bit,v.e)),num(1,1))); r=Ex(Z3_mk_ite(Z,b,num(lead? w-1-bit:bit,w),r)); } return mkv(w,Ex(Z3_simplify(Z,r))); }
static u64 uniqName(State&s,std::string&n){ u64 k=1; for(auto&i:s.inputs){ std::string b=i.name; auto p=b.find('['); if(p!=std::string::npos) b=b.substr(0,p); auto q=b.find('~'); if(q!=std::string::npos) b=b.substr(0,q); if(b==n&&(p==std::string::npos||i.name.substr(p)=="[0]")) k++; } if(k>1) n+="~"+std::to_string(k); return k; }
static V newInput(State&s,const std::string&n,u32 w){ if(O.useFixed){ auto it=O.fixed.find(n); u64 x= it==O.fixed.end()?0:it->second; s.inputs.push_back({n,w,num(x,w)}); return V(w,x); } Ex e=namedConst("in:"+n,w); s.inputs.push_back({n,w,e}); s.pinned=false; return V(w,e); }
static V zx(State&s,const V&v,u32 w){ if(v.w==w) return v; if(v.w<w) return castop(s,Instruction::ZExt,v,w,nullptr,nullptr); return castop(s,Instruction::Trunc,v,w,nullptr,nullptr); }
static void assume(State&s,const V&c1){ V c=simp(c1); if(!c.sym){ if(!c.c) throw PathEnd(); return; } Ex b(Z3_simplify(Z,v2b(c))); Z3_lbool k=Z3_get_bool_value(Z,b); if(k==Z3_L_TRUE) return; if(k==Z3_L_FALSE) throw PathEnd();
  bool v; if(s.mdl&&evalBool(*s.mdl,b,v)&&v){ addPC(s,b); return; } std::shared_ptr<z3::model> m; int q=check(s.pc,b,&m); if(q==0) throw PathEnd(); addPC(s,b); s.mdl= q>0?m:nullptr; if(q<0) throw PathEnd(); }
static V nz(State&s,const V&v){ return icmp(s,CmpInst::ICMP_NE,v,V(v.w,(u64)0)); }
static void checkFmt(State&s,const CallBase*cb,unsigned fi){ // the %s operands must be readable strings
  u64 fa=concr(s,get(s,cb->getArgOperand(fi))); std::string f=cstr(s,fa); unsigned a=fi+1;
  for(size_t i=0;i<f.size();i++) if(f[i]=='%'){ i++; while(i<f.size()&&strchr("-+ #0123456789.*lhzjt",f[i])){ if(f[i]=='*') a++; i++; } if(i>=f.size()) break; if(f[i]=='%') continue; if(a>=cb->arg_size()) break;
    if(f[i]=='s'){ u64 p=concr(s,get(s,cb->getArgOperand(a))); if(p) for(u64 k=0;k<4096;k++){ ObjP o=access(s,p+k,1,false,false); u64 off=p+k-o->base; if(o->st[off]==1) vioEnd(s,"uninit-use","string passed to a print function is uninitialised"); if(o->st[off]==0&&o->d[off]==0) break; if(o->st[off]==2) break; } }
    a++; } }
static std::string fmtConc(State&s,const CallBase*cb,unsigned fi){ std::string f=cstr(s,concr(s,get(s,cb->getArgOperand(fi)))),r; unsigned a=fi+1; char buf[600];
  for(size_t i=0;i<f.size();i++){ if(f[i]!='%'){ r+=f[i]; continue; } std::string sp="%"; i++; while(i<f.size()&&strchr("-+ #0123456789.lhzjt",f[i])) sp+=f[i++]; if(i>=f.size()) break; char c=f[i]; sp+=c; if(c=='%'){ r+='%'; continue; } if(a>=cb->arg_size()) break; V v=get(s,cb->getArgOperand(a++)); u64 x=concr(s,v);
    if(c=='s'){ std::string q=cstr(s,x); snprintf(buf,600,sp.c_str(),q.c_str()); } else if(strchr("feEgG",c)) snprintf(buf,600,sp.c_str(),bitsD(x)); else if(v.w==32) snprintf(buf,600,sp.c_str(),(int)x); else snprintf(buf,600,sp.c_str(),x); r+=buf; } return r; }
static s64 argS(State&s,const CallBase*cb,unsigned i){ V v=get(s,cb->getArgOperand(i)); return sextw(concr(s,v),v.w); }
static u64 argU(State&s,const CallBase*cb,unsigned i){ return concr(s,get(s,cb->getArgOperand(i))); }
static u64 sizeArg(State&s,const V&v0){ V v=simp(v0); if(v.sym){ V big=icmp(s,CmpInst::ICMP_UGT,v,V(v.w,1ull<<31)); if(decide(s,big)) return ~0ull; } return concr(s,v); }
static u64 spawn(State&s,const Function*fn,u64 arg){ Thread t; t.id=(int)s.th.size(); t.vc=s.th[s.cur].vc; if(t.vc.size()<=(size_t)t.id) t.vc.resize(t.id+1,0); t.vc[t.id]=1; t.sigmask=s.th[s.cur].sigmask; s.th.push_back(t); pushFrame(s,fn,{V(64,arg)},RThread,{},t.id); tick(s); s.progress++; s.justSched=false; return t.id; }
static void endThread(State&s,u64 rv){ auto&T=s.th[s.cur]; while(T.fr.size()>1){ killAllocas(s,T.fr.back()); T.fr.pop_back(); } T.fr.back().rk=RThread; V v(64,rv); extern void doRetFwd(State&,const V*); doRetFwd(s,&v); }
static const u64 TID0=0x7000;

static bool doSx(State&s,const CallBase*cb,const std::string&n,bool&handled){
  handled=true; auto A=[&](unsigned i){ return get(s,cb->getArgOperand(i)); };
  u32 rw= cb->getType()->isVoidTy()?0: bitsOf(cb->getType());
  if(n=="sx_u64"||n=="sx_u32"||n=="sx_u16"||n=="sx_u8"||n=="sx_s32"||n=="sx_s64"||n=="sx_s8"||n=="sx_double"){ std::string nm=cstr(s,argU(s,cb,0)); uniqName(s,nm); V v=newInput(s,nm,rw); setR(s,cb,v); return false; }
  if(n=="sx_range"){ std::string nm=cstr(s,argU(s,cb,0)); V lo=A(1),hi=A(2); uniqName(s,nm); V v=newInput(s,nm,64); if(v.sym){ assume(s,mkv(1,b2v(Z3_mk_bvuge(Z,v.e,ex(zx(s,lo,64)))))); assume(s,mkv(1,b2v(Z3_mk_bvule(Z,v.e,ex(zx(s,hi,64)))))); } else { assume(s,icmp(s,CmpInst::ICMP_UGE,v,lo)); assume(s,icmp(s,CmpInst::ICMP_ULE,v,hi)); } if(!lo.sym&&!hi.sym) linAtom(v,lo.c,hi.c); setR(s,cb,v); return false; }
  if(n=="sx_choose"){ std::string nm=cstr(s,argU(s,cb,0)); V k=A(1); // forks: continue in place on one value, queue the others
    u64 cnt=concr(s,k); if(!cnt) throw PathEnd(); uniqName(s,nm); V v=newInput(s,nm,32); if(!v.sym){ if(v.c>=cnt) throw PathEnd(); setR(s,cb,v); return false; } for(u64 i=cnt;i-->1;){ auto ns=fork_(s); addPC(*ns,Ex(Z3_mk_eq(Z,v.e,num(i,32)))); ns->mdl.reset(); setR(*ns,cb,V(32,i)); ++top(*ns).it; work.push_back(std::move(ns)); } addPC(s,Ex(Z3_mk_eq(Z,v.e,num(0,32)))); s.mdl.reset(); setR(s,cb,V(32,(u64)0)); return false; }
  if(n=="sx_bytes"){ u64 p=argU(s,cb,0),c=argU(s,cb,1); std::string nm=cstr(s,argU(s,cb,2)); uniqName(s,nm); for(u64 i=0;i<c;i++){ V v=newInput(s,nm+"["+std::to_string(i)+"]",8); storeV(s,V(64,p+i),v,1); } return false; }
  if(n=="sx_conc"){ u64 x=concr(s,A(0)); setR(s,cb,V(rw,x)); return false; }
  if(n=="sx_ite"){ V c=simp(nz(s,A(0))),a=A(1),b=A(2); if(!c.sym){ setR(s,cb,c.c?a:b); return false; } Ex cb1(Z3_simplify(Z,v2b(c))); setR(s,cb,mkv(64,Ex(Z3_mk_ite(Z,cb1,ex(a),ex(b))))); return false; }
  if(n=="sx_is_sym"){ setR(s,cb,V(rw,(u64)simp(A(0)).sym)); return false; }
  if(n=="sx_assume"){ assume(s,nz(s,A(0))); return false; }
  if(n=="sx_assert"){ ST.asserts++; V c=simp(nz(s,A(0))); std::string msg=cstr(s,argU(s,cb,1)); if(!c.sym){ if(!c.c) vioEnd(s,"assertion",msg); return false; }
    Ex b(Z3_simplify(Z,v2b(c))); Z3_lbool k=Z3_get_bool_value(Z,b); if(k==Z3_L_TRUE) return false; if(k==Z3_L_FALSE) vioEnd(s,"assertion",msg);
    if(knownCond(s,b)==1){ ST.cacheHits++; return false; }
    bool v; ensureModel(s); if(evalBool(*s.mdl,b,v)&&!v){ violation(s,"assertion",msg); } else { std::shared_ptr<z3::model> m; int q=check(s.pc,mkNot(b),&m); if(q>0) violation(s,"assertion",msg,m.get()); else { if(q==0) addPC(s,b); return false; } }
    assume(s,c); return false; }
  if(n=="sx_close"){ ST.asserts++; V r=simp(A(0)),v=simp(zx(s,A(1),64)); u64 k10=argU(s,cb,2),neg=argU(s,cb,3); V rv=A(4); if(rv.sym) unsupported(s,"sx_close"); double rel=bitsD(rv.c); std::string msg=cstr(s,argU(s,cb,5));
    auto bad=[&](u64 rb,u64 vv){ q128 sc=1; for(u64 i=0;i<k10;i++) sc*=10; double d=bitsD(rb); if(std::isnan(d)||std::isinf(d)) return true; q128 t=(q128)vv/sc,b=t*rel; if(neg) t=-t; return qabs((q128)d-t)>b; };
    if(!r.sym&&!v.sym){ if(bad(r.c,v.c)) vioEnd(s,"assertion",msg); return false; }
    FLin f; Lin l; if(!getF(r,f)||!getLin(v,l)){ if(getenv("SXD")){ fprintf(stderr,"getF %d getLin %d r=%s\n",getF(r,f),getLin(v,l),r.sym?Z3_ast_to_string(Z,r.e):"const"); } gInconcl.insert("sx_close: no real-number form"); throw PathEnd(); }
    std::map<int,u64> vals; gTight.clear(); int q=fClose(f,l,(u32)k10,neg,rel,vals); if(q>0) return false;
    { // not over all values of the inputs: narrow each to what the path condition leaves
      std::set<int> ids; for(auto&p:f.t) ids.insert(p.first); for(auto&p:l.t) ids.insert(p.first); bool any=false; ensureModel(s);
      for(int i:ids){ auto&a=lAtoms[i]; u64 x=0; if(!evalU64(*s.mdl,a.e,x)) continue; u64 lo=x,hi=x; bool ok=true;
        while(ok&&hi<a.hi){ std::shared_ptr<z3::model> m; int q1=check(s.pc,Ex(Z3_mk_bvugt(Z,a.e,num(hi,a.w))),&m); if(q1==0) break; u64 y; if(q1<0||!m||!evalU64(*m,a.e,y)||y<=hi) ok=false; else hi=y; }
        while(ok&&lo>a.lo){ std::shared_ptr<z3::model> m; int q1=check(s.pc,Ex(Z3_mk_bvult(Z,a.e,num(lo,a.w))),&m); if(q1==0) break; u64 y; if(q1<0||!m||!evalU64(*m,a.e,y)||y>=lo) ok=false; else lo=y; }
        if(!ok) continue;
        if(lo!=a.lo||hi!=a.hi){ gTight[i]={lo,hi}; any=true; } }
      if(any){ vals.clear(); q=fClose(f,l,(u32)k10,neg,rel,vals); gTight.clear(); if(q>0) return false; } }
    if(q<0){ auto pc=s.pc; for(auto&p:vals){ auto&a=lAtoms[p.first]; pc.push_back(Ex(Z3_mk_eq(Z,a.e,num(p.second,a.w)))); } std::shared_ptr<z3::model> m; Ex tr(Z3_mk_true(Z)); if(check(pc,tr,&m)>0&&m){ auto ev=[&](const V&x){ if(!x.sym) return x.c; Z3_ast o; u64 u=0; if(Z3_model_eval(Z,*m,x.e,true,&o)){ Ex k(o); Ex k2(Z3_simplify(Z,k)); Z3_get_numeral_uint64(Z,k2,(uint64_t*)&u); } return u; }; if(bad(ev(r),ev(v))){ violation(s,"assertion",msg,m.get()); throw PathEnd(); } } }
    gInconcl.insert("sx_close: undecided"); return false; }
  if(n=="sx_cover"){ s.covers.insert(cstr(s,argU(s,cb,0))); return false; }
  if(n=="sx_cover_if"){ std::string nm=cstr(s,argU(s,cb,1)); V c=simp(nz(s,A(0))); if(gCovers.count(nm)||s.covers.count(nm)) return false; if(!c.sym){ if(c.c) s.covers.insert(nm); return false; } std::shared_ptr<z3::model> m; if(check(s.pc,v2b(c),&m)>0) s.covers.insert(nm); return false; }
  if(n=="sx_fail_alloc"){ V k=zx(s,A(0),64); if(k.sym||k.c){ // relative to the allocations done so far
      k=binop(s,Instruction::Add,k,V(64,s.allocCnt),nullptr); } s.failAt=k; s.failThr=s.cur; s.failed=false; return false; }
  if(n=="sx_failed"){ setR(s,cb,V(rw,(u64)s.failed)); return false; }
  if(n=="sx_heap_live"){ setR(s,cb,V(rw,s.heapLive)); return false; }
  if(n=="sx_alloc_count"){ setR(s,cb,V(rw,s.allocCnt)); return false; }
  if(n=="sx_is_live"||n=="sx_block_size"||n=="sx_readable"){ u64 p=argU(s,cb,0); ObjP o= p>=4096? find(s,p):nullptr; bool live=o&&o->live; u64 r; if(n=="sx_is_live") r=live; else if(n=="sx_block_size") r= live? o->base+o->size-p:0; else { u64 c=argU(s,cb,1); r= live&&p+c<=o->base+o->size; } setR(s,cb,V(rw,r)); return false; }
  if(n=="sx_on_exit"){ s.exitHook=argU(s,cb,0); return false; }
  if(n=="sx_expect_exit"){ s.expectExit=(int)argS(s,cb,0); s.expectAny=false; return false; }
  if(n=="sx_expect_any_exit"){ s.expectAny=true; return false; }
  if(n=="sx_param"){ std::string k=cstr(s,argU(s,cb,0)); auto it=O.params.find(k); u64 v= it==O.params.end()? (u64)argS(s,cb,1):(u64)strtoll(it->second.c_str(),nullptr,0); setR(s,cb,V(rw,v)); return false; }
  if(n=="sx_end"){ donePath(s); throw PathEnd(); }
  if(n=="sx_nopreempt"){ s.noPre=argS(s,cb,0)!=0; return false; }
  if(n=="sx_undef"){ u64 p=argU(s,cb,0),c=argU(s,cb,1); if(c){ ObjP o=access(s,p,c,true,false); u64 off=p-o->base; Obj&w=wr(s,o); for(u64 i=0;i<c;i++){ if(w.st[off+i]==2) w.sy.erase(off+i); w.st[off+i]=1; } } return false; }
  if(n=="sx_is_init"){ u64 p=argU(s,cb,0),c=argU(s,cb,1); u64 r=1; if(c){ ObjP o=access(s,p,c,false,false); u64 off=p-o->base; for(u64 i=0;i<c;i++){ if(o->st[off+i]==1) r=0; if(o->st[off+i]==2&&hasUninit(o->sy[off+i].e)) r=0; } } setR(s,cb,V(rw,r)); return false; }
  if(n=="sx_tid"){ setR(s,cb,V(rw,(u64)s.cur)); return false; }
  if(n=="sx_note"){ if(O.verbose||O.trace){ std::string m=cstr(s,argU(s,cb,0)); V v=simp(A(1)); if(v.sym) fprintf(stderr,"note %s sym\n",m.c_str()); else fprintf(stderr,"note %s %llu (0x%llx)\n",m.c_str(),(unsigned long long)v.c,(unsigned long long)v.c); } return false; }
  handled=false; return false; }

static bool doIntrinsic(State&s,const CallBase*cb,const Function*f){
  auto A=[&](unsigned i){ return get(s,cb->getArgOperand(i)); }; auto id=f->getIntrinsicID();
  switch(id){
   case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { V nv=A(2); bool cst=isa<ConstantInt>(cb->getArgOperand(2)); u64 n=concr(s,nv); if(!n) return false; u64 d=argU(s,cb,0),q=argU(s,cb,1); copyMem(s,d,q,n,cst&&n<=8,cb); return false; }
   case Intrinsic::memset: { u64 n=argU(s,cb,2); if(!n) return false; u64 d=argU(s,cb,0); setMem(s,d,A(1),n,cb); return false; }
   case Intrinsic::vastart: vaStart(s,argU(s,cb,0)); return false;
   case Intrinsic::vaend: return false;
   case Intrinsic::vacopy: copyMem(s,argU(s,cb,0),argU(s,cb,1),24,false,nullptr); return false;
   case Intrinsic::ctlz: setR(s,cb,bitcount(simp(A(0)),true)); return false;
   case Intrinsic::cttz: setR(s,cb,bitcount(simp(A(0)),false)); return false;
   case Intrinsic::ctpop: { V v=simp(A(0)); V r(v.w,(u64)0); for(u32 i=0;i<v.w;i++){ V b=binop(s,Instruction::And,binop(s,Instruction::LShr,v,V(v.w,i),nullptr),V(v.w,1),nullptr); r=binop(s,Instruction::Add,r,b,nullptr); } setR(s,cb,r); return false; }
   case Intrinsic::bswap: { V v=simp(A(0)); V r(v.w,(u64)0); for(u32 i=0;i<v.w/8;i++){ V b=binop(s,Instruction::And,binop(s,Instruction::LShr,v,V(v.w,i*8),nullptr),V(v.w,255),nullptr); r=binop(s,Instruction::Or,r,binop(s,Instruction::Shl,b,V(v.w,v.w-8-i*8),nullptr),nullptr); } setR(s,cb,r); return false; }
   case Intrinsic::fshl: case Intrinsic::fshr: { V a=A(0),b=A(1),c=A(2); u32 w=a.w; u64 k=concr(s,c)%w; if(id==Intrinsic::fshr) k=(w-k)%w; V r; if(k==0) r= id==Intrinsic::fshl? a: b; else r=binop(s,Instruction::Or,binop(s,Instruction::Shl,a,V(w,k),nullptr),binop(s,Instruction::LShr,b,V(w,w-k),nullptr),nullptr); setR(s,cb,r); return false; }
   case Intrinsic::abs: { V v=simp(A(0)); V neg=icmp(s,CmpInst::ICMP_SLT,v,V(v.w,(u64)0)); V m=binop(s,Instruction::Sub,V(v.w,(u64)0),v,nullptr); if(!v.sym) setR(s,cb,neg.c?m:v); else setR(s,cb,mkv(v.w,Ex(Z3_simplify(Z,Ex(Z3_mk_ite(Z,v2b(neg),ex(m),ex(v))))))); return false; }
   case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { V a=A(0),b=A(1); V c=icmp(s,id==Intrinsic::umax?CmpInst::ICMP_UGT:id==Intrinsic::umin?CmpInst::ICMP_ULT:id==Intrinsic::smax?CmpInst::ICMP_SGT:CmpInst::ICMP_SLT,a,b); if(!c.sym) setR(s,cb,c.c?a:b); else setR(s,cb,mkv(a.w,Ex(Z3_mk_ite(Z,v2b(c),ex(a),ex(b))))); return false; }
   case Intrinsic::fmuladd: case Intrinsic::fma: { V t=binop(s,Instruction::FMul,A(0),A(1),nullptr); setR(s,cb,binop(s,Instruction::FAdd,t,A(2),nullptr)); return false; }
   case Intrinsic::fabs: { V a=A(0); setR(s,cb,binop(s,Instruction::And,a,V(a.w,maskw(a.w-1)),nullptr)); return false; }
   case Intrinsic::copysign: { V a=A(0),b=A(1); u64 sg=1ull<<(a.w-1); setR(s,cb,binop(s,Instruction::Or,binop(s,Instruction::And,a,V(a.w,~sg),nullptr),binop(s,Instruction::And,b,V(a.w,sg),nullptr),nullptr)); return false; }
   case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
     V a=A(0),b=A(1); V r,o; Ex x=ex(a),y=ex(b); Z3_ast ok; bool sg= id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow; unsigned op;
     if(id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow){ op=Instruction::Add; ok=Z3_mk_bvadd_no_overflow(Z,x,y,sg); } else if(id==Intrinsic::usub_with_overflow||id==Intrinsic::ssub_with_overflow){ op=Instruction::Sub; ok= sg? Z3_mk_bvsub_no_overflow(Z,x,y):Z3_mk_bvsub_no_underflow(Z,x,y,false); } else { op=Instruction::Mul; ok=Z3_mk_bvmul_no_overflow(Z,x,y,sg); }
     Ex okk(ok); if(sg){ Z3_ast u= op==Instruction::Add? Z3_mk_bvadd_no_underflow(Z,x,y): op==Instruction::Sub? Z3_mk_bvsub_no_underflow(Z,x,y,true): Z3_mk_bvmul_no_underflow(Z,x,y); Ex uk(u); Z3_ast two[2]={okk,uk}; okk=Ex(Z3_mk_and(Z,2,two)); }
     r=binop(s,op,a,b,nullptr); o=mkv(1,Ex(Z3_simplify(Z,b2v(mkNot(okk))))); V res; res.agg=std::make_shared<std::vector<V>>(); res.agg->push_back(r); res.agg->push_back(o); setR(s,cb,res); return false; }
   case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: setR(s,cb,A(0)); return false;
   case Intrinsic::is_constant: setR(s,cb,V(1,(u64)0)); return false;
   case Intrinsic::objectsize: setR(s,cb,V(bitsOf(cb->getType()),maskw(64))); return false;
   case Intrinsic::stacksave: setR(s,cb,V(64,1ull<<20)); return false;
   case Intrinsic::frameaddress: case Intrinsic::returnaddress: setR(s,cb,V(64,0x9000ull)); return false;
   case Intrinsic::trap: case Intrinsic::debugtrap: vioEnd(s,"trap","trap instruction");
   case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: if(!cb->getType()->isVoidTy()) setR(s,cb,V(64,(u64)0)); return false;
   default: break; }
  unsupported(s,"intrinsic "+f->getName().str()); }

static bool mathFn(State&s,const CallBase*cb,const std::string&n){ // concrete arguments only
  static const std::set<std::string> one={"floor","ceil","sqrt","fabs","trunc","round","log10","log","exp"}; static const std::set<std::string> two={"pow","fmod"};
  if(one.count(n)){ V a=simp(get(s,cb->getArgOperand(0))); if(n=="fabs"){ setR(s,cb,binop(s,Instruction::And,a,V(64,maskw(63)),nullptr)); return true; } if(a.sym) unsupported(s,"symbolic "+n); double x=bitsD(a.c),r= n=="floor"?floor(x):n=="ceil"?ceil(x):n=="sqrt"?sqrt(x):n=="trunc"?trunc(x):n=="round"?round(x):n=="log10"?log10(x):n=="log"?log(x):exp(x); setR(s,cb,V(64,dBits(r))); return true; }
  if(two.count(n)){ V a=simp(get(s,cb->getArgOperand(0))),b=simp(get(s,cb->getArgOperand(1))); if(a.sym||b.sym) unsupported(s,"symbolic "+n); double r= n=="pow"?pow(bitsD(a.c),bitsD(b.c)):fmod(bitsD(a.c),bitsD(b.c)); setR(s,cb,V(64,dBits(r))); return true; }
  return false; }

static bool doCall(State&s,const CallBase*cb){
  if(cb->isInlineAsm()){ auto*ia=cast<InlineAsm>(cb->getCalledOperand()); std::string a=ia->getAsmString().data(); if(cb->getType()->isVoidTy()&&(a.find("pause")!=std::string::npos||a.empty()||a.find("nop")!=std::string::npos||a.find("fence")!=std::string::npos||a=="rep; nop")) return false; unsupported(s,"inline assembly '"+a+"'"); }
  const Function*f=calleeOf(s,cb);
  if(f->isIntrinsic()) return doIntrinsic(s,cb,f);
  if(!f->isDeclaration()){
    std::vector<V> args; std::vector<std::pair<V,Type*>> va; unsigned np=f->arg_size(); std::vector<std::pair<unsigned,Type*>> bv;
    for(unsigned i=0;i<cb->arg_size();i++){ V v=get(s,cb->getArgOperand(i)); Type*by= cb->isByValArgument(i)? cb->getParamByValType(i):nullptr; if(i<np){ u32 w=bitsOf(f->getArg(i)->getType()); if(!v.agg&&v.w!=w) v=zx(s,v,w); if(by) bv.push_back({i,by}); args.push_back(v); } else if(f->isVarArg()) va.push_back({v,by?by:cb->getArgOperand(i)->getType()}); }
    for(auto&b:bv) (void)concr(s,args[b.first]);
    for(unsigned i=0;i<args.size();i++) if(!f->getArg(i)->getType()->isFloatingPointTy()) args[i]=uniqueV(s,args[i]);
    pushFrame(s,f,args,RNormal,va);
    for(auto&b:bv){ u64 n=DL->getTypeAllocSize(b.second); u64 p=allocaObj(s,n,16,"byval"); copyMem(s,p,concr(s,args[b.first]),n,false,nullptr); top(s).regs[b.first]=V(64,p); }
    return true; }
  std::string n=f->getName().str(); auto A=[&](unsigned i){ return get(s,cb->getArgOperand(i)); }; u32 rw= cb->getType()->isVoidTy()||cb->getType()->isStructTy()?0: bitsOf(cb->getType());
  auto R=[&](u64 v){ if(rw) setR(s,cb,V(rw,v)); };
  if(n.rfind("sx_",0)==0){ bool h; bool r=doSx(s,cb,n,h); if(h) return r; }
  // ---- memory
  if(n=="malloc"){ u64 z=sizeArg(s,A(0)); if(z==~0ull||allocFails(s)) { if(z==~0ull) s.failed=true; R(0); return false; } R(heapAlloc(s,z,false)); return false; }
  if(n=="calloc"){ V a=A(0),b=A(1); V ov; { Ex x=ex(a),y=ex(b); if(!a.sym&&!b.sym){ unsigned long long t; ov=V(1,__builtin_mul_overflow((unsigned long long)a.c,(unsigned long long)b.c,&t)); } else ov=mkv(1,Ex(Z3_simplify(Z,b2v(mkNot(Ex(Z3_mk_bvmul_no_overflow(Z,x,y,false))))))); } if(decide(s,ov)){ s.failed=true; R(0); return false; }
    u64 z=sizeArg(s,binop(s,Instruction::Mul,a,b,nullptr)); if(z==~0ull||allocFails(s)){ if(z==~0ull) s.failed=true; R(0); return false; } R(heapAlloc(s,z,true)); return false; }
  if(n=="realloc"){ u64 p=argU(s,cb,0); u64 z=sizeArg(s,A(1)); if(!p){ if(z==~0ull||allocFails(s)){ if(z==~0ull) s.failed=true; R(0); return false; } R(heapAlloc(s,z,false)); return false; }
    ObjP o=find(s,p); if(!o||o->kind!=KHeap||o->base!=p) vioEnd(s,"invalid-free","realloc of a pointer that is not the start of a heap block"); if(!o->live) vioEnd(s,"double-free","realloc of released block "+o->name);
    if(z==0){ heapFree(s,p); R(0); return false; } if(z==~0ull||allocFails(s)){ if(z==~0ull) s.failed=true; R(0); return false; }
    u64 q=heapAlloc(s,z,false); copyMem(s,q,p,std::min<u64>(z,o->size),false,nullptr); heapFree(s,p); R(q); return false; }
  if(n=="memalign"||n=="aligned_alloc"){ u64 al=argU(s,cb,0); u64 z=sizeArg(s,A(1)); if(z==~0ull||allocFails(s)){ R(0); return false; } R(heapAlloc(s,z,false,al)); return false; }
  if(n=="posix_memalign"){ u64 d=argU(s,cb,0),al=argU(s,cb,1); u64 z=sizeArg(s,A(2)); if(z==~0ull||allocFails(s)){ R(12); return false; } u64 q=heapAlloc(s,z,false,al); storeC(s,d,q,8); R(0); return false; }
  if(n=="free"||n=="cfree"){ heapFree(s,argU(s,cb,0)); return false; }
  if(n=="malloc_usable_size"){ u64 p=argU(s,cb,0); ObjP o=find(s,p); R(o?o->size:0); return false; }
  if(n=="memcpy"||n=="memmove"||n=="__memcpy_chk"||n=="mempcpy"){ V nv=A(2); bool cst=isa<ConstantInt>(cb->getArgOperand(2)); u64 c=concr(s,nv),d=argU(s,cb,0),q=argU(s,cb,1); if(c) copyMem(s,d,q,c,cst&&c<=8,cb); R(n=="mempcpy"?d+c:d); return false; }
  if(n=="memset"||n=="__memset_chk"){ u64 c=argU(s,cb,2),d=argU(s,cb,0); setMem(s,d,zx(s,A(1),8),c,cb); R(d); return false; }
  if(n=="bzero"){ setMem(s,argU(s,cb,0),V(8,(u64)0),argU(s,cb,1),cb); return false; }
  // ---- non-local jumps
  if(n=="__sigsetjmp"||n=="_setjmp"||n=="setjmp"||n=="sigsetjmp"){ u64 e=argU(s,cb,0); bool sm= cb->arg_size()>1? argS(s,cb,1)!=0:false; u64 tok=0x5e70000000000000ull+s.nextJmp++; storeC(s,e,tok,8); auto&T=s.th[s.cur]; s.jmps[tok]=Jmp{s.cur,top(s).uid,cb,T.sigmask,sm,T.fr.size()}; R(0); return false; }
  if(n=="siglongjmp"||n=="longjmp"||n=="_longjmp"||n=="__longjmp_chk"){ u64 e=argU(s,cb,0); u64 val=argU(s,cb,1); V tv=loadV(s,V(64,e),8); if(tv.sym) vioEnd(s,"bad-longjmp","longjmp to an uninitialised jump buffer"); auto it=s.jmps.find(tv.c); if(it==s.jmps.end()) vioEnd(s,"bad-longjmp","longjmp to a buffer no setjmp filled"); Jmp j=it->second;
    if(j.tid!=s.cur) vioEnd(s,"bad-longjmp","longjmp into another thread"); auto&T=s.th[s.cur]; if(T.fr.size()<j.depth||T.fr[j.depth-1].uid!=j.fuid) vioEnd(s,"bad-longjmp","longjmp to a function that has already returned");
    while(T.fr.size()>j.depth){ killAllocas(s,T.fr.back()); if(T.fr.back().rk==RExit||T.fr.back().rk==RFinish) vioEnd(s,"bad-longjmp","longjmp out of an exit handler"); T.fr.pop_back(); }
    if(j.savemask) T.sigmask=j.mask; u32 v32=(u32)val; setR(s,j.call,V(32,v32?v32:1)); Frame&fr=T.fr.back(); fr.bb=j.call->getParent(); fr.it=j.call->getIterator(); ++fr.it; if(j.savemask) checkPending(s); return true; }
  // ---- process exit
  if(n=="exit"){ int c=(int)argS(s,cb,0); startExit(s,c&0xff,0); return true; }
  if(n=="_Exit"||n=="_exit"||n=="quick_exit"){ int c=(int)argS(s,cb,0); startExit(s,c&0xff,1); return true; }
  if(n=="abort"){ auto it=s.sigact.find(SIGABRT); if(it!=s.sigact.end()&&it->second>1){ u64 h=it->second; s.sigact[SIGABRT]=0; auto fi=addrFn.find(h); if(fi==addrFn.end()) vioEnd(s,"invalid-call","signal handler"); auto&T=s.th[s.cur]; u64 old=T.sigmask; pushFrame(s,fi->second,{V(32,(u64)SIGABRT),V(64,(u64)0),V(64,(u64)0)},RSignal); top(s).savedMask=old; T.sigmask|=1ull<<(SIGABRT-1); return true; } startExit(s,128+SIGABRT,2); return true; }
  if(n=="atexit"){ u64 a=argU(s,cb,0); s.atexits.push_back({a,V()}); R(0); return false; }
  if(n=="__assert_fail"||n=="__assert"){ std::string m=cstr(s,argU(s,cb,0)); vioEnd(s,"assert-abort","assert("+m+") failed"); }
  if(n=="__stack_chk_fail") vioEnd(s,"out-of-bounds","stack smashing");
  // ---- signals
  if(n=="sigaction"){ int sg=(int)argS(s,cb,0); u64 na=argU(s,cb,1),oa=argU(s,cb,2); if(sg<1||sg>64||((sg==SIGKILL||sg==SIGSTOP)&&na)){ R(maskw(32)); return false; }
    u64 nh=0,nf=0; if(na){ nh=concr(s,loadV(s,V(64,na),8)); nf=concr(s,loadV(s,V(64,na+136),4)); }
    if(oa){ storeC(s,oa,s.sigact.count(sg)?s.sigact[sg]:0,8); setMem(s,oa+8,V(8,(u64)0),128,nullptr); storeC(s,oa+136,s.sigflags.count(sg)?s.sigflags[sg]:0,4); storeC(s,oa+144,0,8); }
    if(na){ s.sigact[sg]=nh; s.sigflags[sg]=nf; } R(0); return false; }
  if(n=="signal"||n=="__sysv_signal"||n=="bsd_signal"){ int sg=(int)argS(s,cb,0); u64 h=argU(s,cb,1); u64 old=s.sigact.count(sg)?s.sigact[sg]:0; if(sg<1||sg>64||sg==SIGKILL||sg==SIGSTOP){ R(~0ull); return false; } s.sigact[sg]=h; s.sigflags[sg]=SA_RESTART; R(old); return false; }
  if(n=="sigemptyset"||n=="sigfillset"){ setMem(s,argU(s,cb,0),V(8,n=="sigfillset"?255ull:0ull),128,cb); R(0); return false; }
  if(n=="sigaddset"||n=="sigdelset"){ u64 p=argU(s,cb,0); int g=(int)argS(s,cb,1); u64 v=concr(s,loadV(s,V(64,p),8)); if(n=="sigaddset") v|=1ull<<(g-1); else v&=~(1ull<<(g-1)); storeC(s,p,v,8); R(0); return false; }
  if(n=="sigismember"){ u64 p=argU(s,cb,0); int g=(int)argS(s,cb,1); u64 v=concr(s,loadV(s,V(64,p),8)); R((v>>(g-1))&1); return false; }
  if(n=="sigpending"){ storeC(s,argU(s,cb,0),s.th[s.cur].pending,8); R(0); return false; }
  if(n=="pthread_sigmask"||n=="sigprocmask"){ int how=(int)argS(s,cb,0); u64 np=argU(s,cb,1),op=argU(s,cb,2); auto&T=s.th[s.cur]; u64 nm=0; if(np) nm=concr(s,loadV(s,V(64,np),8)); if(op){ storeC(s,op,T.sigmask,8); setMem(s,op+8,V(8,(u64)0),120,nullptr); }
    if(np){ nm&=~((1ull<<(SIGKILL-1))|(1ull<<(SIGSTOP-1))); if(how==SIG_BLOCK) T.sigmask|=nm; else if(how==SIG_UNBLOCK) T.sigmask&=~nm; else T.sigmask=nm; } R(0); ++top(s).it; checkPending(s); return true; }
  if(n=="raise"||n=="pthread_kill"||n=="kill"){ int sg=(int)argS(s,cb,n=="raise"?0:1); R(0); ++top(s).it; raiseSig(s,sg); return true; }
  // ---- threads
  if(n=="sx_fail_thread"){ s.failThread=(int)argU(s,cb,0); return false; }
  if(n=="thrd_create"||n=="pthread_create"){ bool pt=n[0]=='p'; schedPoint(s); if(s.failThread>0&&--s.failThread==0){ s.failed=true; s.justSched=false; R(pt?11:2); return false; } u64 tp=argU(s,cb,0),fn=argU(s,cb,pt?2:1),arg=argU(s,cb,pt?3:2); auto it=addrFn.find(fn); if(it==addrFn.end()) vioEnd(s,"invalid-call","thread function"); if(s.th.size()>64) unsupported(s,"too many threads"); storeC(s,tp,TID0+s.th.size(),8); spawn(s,it->second,arg); R(0); return false; }
  if(n=="thrd_join"||n=="pthread_join"){ u64 id=argU(s,cb,0),rp=argU(s,cb,1); if(id<=TID0||id-TID0>=s.th.size()) vioEnd(s,"invalid-join","join of something that is not a thread"); int t=(int)(id-TID0); if(s.th[t].joined||s.th[t].detached) vioEnd(s,"invalid-join","thread joined twice"); auto&T=s.th[s.cur]; if(!s.th[t].done){ T.joinOn=t; mustSwitch(s,"join"); return true; } T.joinOn=-1; s.th[t].joined=true; vcJoin(T.vc,s.th[t].vc); if(rp) storeC(s,rp,(u64)s.th[t].retval,n[0]=='p'?8:4); s.justSched=false; R(0); return false; }
  if(n=="thrd_detach"||n=="pthread_detach"){ u64 id=argU(s,cb,0); if(id>TID0&&id-TID0<s.th.size()) s.th[id-TID0].detached=true; R(0); return false; }
  if(n=="thrd_current"||n=="pthread_self"){ R(TID0+s.cur); return false; }
  if(n=="thrd_equal"||n=="pthread_equal"){ R(argU(s,cb,0)==argU(s,cb,1)); return false; }
  if(n=="thrd_yield"||n=="sched_yield"||n=="pthread_yield"||n=="usleep"||n=="nanosleep"||n=="thrd_sleep"||n=="sleep"){ R(0); if(s.th.size()<2) return false; ++top(s).it; s.justSched=false; s.th[s.cur].waitProg=s.progress; mustSwitch(s,"yield"); return true; }
  if(n=="thrd_exit"||n=="pthread_exit"){ u64 rv=argU(s,cb,0); endThread(s,rv); return true; }
  if(n=="mtx_init"||n=="pthread_mutex_init"){ s.mutex[argU(s,cb,0)]=-1; R(0); return false; }
  if(n=="mtx_destroy"||n=="pthread_mutex_destroy"){ R(0); return false; }
  if(n=="mtx_lock"||n=="pthread_mutex_lock"){ schedPoint(s); u64 a=argU(s,cb,0); auto&T=s.th[s.cur]; T.mutexOn=0; auto it=s.mutex.find(a); if(it!=s.mutex.end()&&it->second>=0){ T.mutexOn=a; mustSwitch(s,"mutex"); return true; } s.mutex[a]=s.cur; acquire(s,a); s.justSched=false; s.progress++; R(0); return false; }
  if(n=="mtx_trylock"||n=="pthread_mutex_trylock"){ schedPoint(s); u64 a=argU(s,cb,0); auto it=s.mutex.find(a); s.justSched=false; if(it!=s.mutex.end()&&it->second>=0){ R(n[0]=='m'?1:16); return false; } s.mutex[a]=s.cur; acquire(s,a); s.progress++; R(0); return false; }
  if(n=="mtx_unlock"||n=="pthread_mutex_unlock"){ schedPoint(s); u64 a=argU(s,cb,0); auto it=s.mutex.find(a); if(it==s.mutex.end()||it->second!=s.cur) vioEnd(s,"invalid-unlock","unlock of a mutex the thread does not hold"); it->second=-1; release(s,a,true); s.justSched=false; s.progress++; R(0); return false; }
  if(n=="tss_create"||n=="pthread_key_create"){ storeC(s,argU(s,cb,0),s.tssNext++,4); R(0); return false; }
  if(n=="tss_set"||n=="pthread_setspecific"){ u64 k=argU(s,cb,0),v=argU(s,cb,1); s.tss[k*64+s.cur]=v; R(0); return false; }
  if(n=="tss_get"||n=="pthread_getspecific"){ u64 k=argU(s,cb,0); R(s.tss.count(k*64+s.cur)?s.tss[k*64+s.cur]:0); return false; }
  if(n=="tss_delete"||n=="pthread_key_delete"){ R(0); return false; }
  if(n=="call_once"||n=="pthread_once"){ u64 a=argU(s,cb,0),h=argU(s,cb,1); R(0); ++top(s).it; if(!s.onceDone.count(a)){ s.onceDone.insert(a); auto it=addrFn.find(h); if(it==addrFn.end()) vioEnd(s,"invalid-call","once handler"); pushFrame(s,it->second,{},RIgnore); } else acquire(s,a); release(s,a,true); return true; }
  // ---- environment stubs
  if(n=="__errno_location"){ auto&T=s.th[s.cur]; if(!T.errnoAddr){ auto o=newObj(s,4,KMisc,16,"errno",true); s.th[s.cur].errnoAddr=o->base; } R(s.th[s.cur].errnoAddr); return false; }
  if(n=="fprintf"||n=="dprintf"){ checkFmt(s,cb,1); R(1); return false; }
  if(n=="snprintf"||n=="sprintf"){ unsigned fi= n=="snprintf"?2:1; std::string r=fmtConc(s,cb,fi); u64 d=argU(s,cb,0); u64 lim= n=="snprintf"? argU(s,cb,1):~0ull; if(lim){ u64 k=std::min<u64>(r.size(),lim-1); for(u64 i=0;i<k;i++) storeC(s,d+i,(u8)r[i],1); storeC(s,d+k,0,1); } R(r.size()); return false; }
  if(n=="printf"){ checkFmt(s,cb,0); R(1); return false; }
  if(n=="vfprintf"||n=="vprintf"||n=="puts"||n=="putchar"||n=="fputs"||n=="fputc"||n=="fwrite"||n=="perror"||n=="fflush"||n=="putc"||n=="setvbuf"||n=="setbuf"||n=="close"||n=="fclose"){ R(n=="fwrite"?(cb->arg_size()>2?argU(s,cb,2):0):0); return false; }
  if(n=="write"){ R(argU(s,cb,2)); return false; }
  if(n=="backtrace"){ R(0); return false; } if(n=="backtrace_symbols_fd") return false; if(n=="backtrace_symbols"){ R(0); return false; }
  if(n=="__sched_cpucount"||n=="sysconf"||n=="get_nprocs"){ auto it=O.params.find("cpus"); R(it==O.params.end()?4:(u64)strtoll(it->second.c_str(),nullptr,0)); return false; } if(n=="sched_getaffinity"){ R(0); return false; }
  if(n=="getenv"||n=="secure_getenv"){ R(0); return false; } if(n=="getpid"||n=="gettid"){ R(4242); return false; }
  if(n=="time"||n=="clock"||n=="random"||n=="rand"){ setR(s,cb,fresh("env",rw)); if(n=="time"){ u64 p=argU(s,cb,0); if(p) storeV(s,V(64,p),fresh("env",64),8); } return false; }
  if(n=="rpmalloc_init"||n=="rpmalloc_thread_finalize"||n=="rpmalloc_initialize"||n=="rpmalloc_thread_initialize"||n=="rpmalloc_finalize"){ R(0); return false; }
  if(mathFn(s,cb,n)) return false;
  unsupported(s,"external function "+n); }
