// Real-number view of doubles: a double expression may carry  sum (c_i +- e_i)*a_i + (k +- ek)  over the non-negative
// input atoms of lin.inc, with e the accumulated rounding error (each operation adds 2^-53 of its exact result; no
// subnormal results occur in the supported range).  sx_close asks the solver, in linear real arithmetic, whether any
// input makes the double differ from an exact decimal fraction by more than the given relative error.
typedef __float128 q128;
struct FLin { std::map<int,std::pair<q128,q128>> t; q128 k=0,ek=0; };
static std::unordered_map<unsigned,std::pair<Ex,FLin>> fOf;
static q128 qabs(q128 x){ return x<0?-x:x; }
static const q128 U53=(q128)1/((q128)(1ull<<53)), UQ=(q128)1/((q128)(1ull<<60)*(q128)(1ull<<40));
static bool getF(const V&v,FLin&f){ if(v.w!=64) return false; if(!v.sym){ double d=bitsD(v.c); if(std::isnan(d)||std::isinf(d)) return false; f=FLin(); f.k=d; return true; } auto it=fOf.find(Z3_get_ast_id(Z,v.e)); if(it==fOf.end()) return false; f=it->second.second; return true; }
static void fRound(FLin&f){ for(auto&p:f.t){ auto&c=p.second; c.second+=(qabs(c.first)+c.second)*(U53+UQ); } f.ek+=(qabs(f.k)+f.ek)*(U53+UQ); }
static void fPut(const V&v,const FLin&f){ if(v.sym) fOf[Z3_get_ast_id(Z,v.e)]={v.e,f}; }
static bool fOp(unsigned op,const V&a,const V&b,FLin&r){ if(lAtoms.empty()) return false; FLin x,y; if(!getF(a,x)||!getF(b,y)) return false;
  switch(op){ case Instruction::FSub: for(auto&p:y.t) p.second.first=-p.second.first; y.k=-y.k; /* fall through */
   case Instruction::FAdd: { for(auto&p:y.t){ auto&c=x.t[p.first]; c.first+=p.second.first; c.second+=p.second.second; } x.k+=y.k; x.ek+=y.ek; // the rounding error is bounded through the sum of magnitudes
     fRound(x); r=x; return true; }
   case Instruction::FMul: case Instruction::FDiv: { if(!y.t.empty()){ if(op==Instruction::FDiv||!x.t.empty()) return false; std::swap(x,y); } if(y.ek!=0) return false; q128 m=y.k; if(op==Instruction::FDiv){ if(m==0) return false; m=1/m; } for(auto&p:x.t){ p.second.first*=m; p.second.second=p.second.second*qabs(m)+qabs(p.second.first)*UQ; } x.k*=m; x.ek=x.ek*qabs(m)+qabs(x.k)*UQ; fRound(x); r=x; return true; } }
  return false; }
static bool fFromInt(const V&a,bool sg,FLin&r){ if(lAtoms.empty()||!a.sym) return false; Lin l; if(!getLin(a,l)) return false; if(sg? !lS(l,a.w):!lU(l,a.w)) return false; r=FLin(); for(auto&p:l.t) r.t[p.first]={(q128)p.second,0}; r.k=(q128)l.k; i128 m=l.mx>-l.mn?l.mx:-l.mn; if(m>((i128)1<<53)) fRound(r); return true; }
static Ex rnum(q128 x){ bool n=x<0; if(n) x=-x; if(x==0) return Ex(Z3_mk_numeral(Z,"0",Z3_mk_real_sort(Z))); int s=0; while(x<(q128)(1ull<<60)*(1ull<<52)){ x*=2; s++; if(s>16000) break; } unsigned __int128 u=(unsigned __int128)x; std::string d; while(u){ d.insert(d.begin(),(char)('0'+(int)(u%10))); u/=10; } if(n) d="-"+d; Ex a(Z3_mk_numeral(Z,d.c_str(),Z3_mk_real_sort(Z))); Ex q=a; while(s>0){ int k=std::min(s,60); s-=k; Ex p(Z3_mk_numeral(Z,std::to_string(1ull<<k).c_str(),Z3_mk_real_sort(Z))); q=Ex(Z3_simplify(Z,Ex(Z3_mk_div(Z,q,p)))); } return q; }
static std::map<int,std::pair<u64,u64>> gTight; // ranges of atoms under the path condition
// 1: within bound for every value, 0: cannot say, -1: candidate values found (vals)
static int fClose1(const FLin&f,const Lin&v,u32 k10,bool neg,q128 rel,std::map<int,u64>&vals,bool ints){
  q128 sc=1; for(u32 i=0;i<k10;i++) sc*=10; std::map<int,Ex> at; Z3_sort R=Z3_mk_real_sort(Z);
  Z3_solver S=Z3_mk_solver(Z); Z3_solver_inc_ref(Z,S); setTO(S,O.qTimeout); Ex r(Z3_mk_fresh_const(Z,"r",R)),lo=rnum(f.k-f.ek),hi=rnum(f.k+f.ek),t=rnum((q128)v.k/sc); std::set<int> ids; for(auto&p:f.t) ids.insert(p.first); for(auto&p:v.t) ids.insert(p.first);
  auto add=[&](Ex a,Ex b){ Z3_ast x[2]={a,b}; return Ex(Z3_mk_add(Z,2,x)); }; auto mul=[&](Ex a,Ex b){ Z3_ast x[2]={a,b}; return Ex(Z3_mk_mul(Z,2,x)); };
  Ex tn=rnum((q128)v.k); for(int i:ids){ Z3_sort IS= ints? Z3_mk_int_sort(Z):R; Ex n(Z3_mk_fresh_const(Z,"a",IS)); Ex ar= ints? Ex(Z3_mk_int2real(Z,n)):n; at[i]=n; auto gt=gTight.find(i); Ex l(Z3_mk_unsigned_int64(Z,gt!=gTight.end()?gt->second.first:lAtoms[i].lo,IS)),h(Z3_mk_unsigned_int64(Z,gt!=gTight.end()?gt->second.second:lAtoms[i].hi,IS)); Z3_solver_assert(Z,S,Ex(Z3_mk_le(Z,l,n))); Z3_solver_assert(Z,S,Ex(Z3_mk_le(Z,n,h)));
    auto it=f.t.find(i); if(it!=f.t.end()){ q128 c=it->second.first,e=it->second.second; lo=add(lo,mul(rnum(c-e),ar)); hi=add(hi,mul(rnum(c+e),ar)); } auto j=v.t.find(i); if(j!=v.t.end()){ tn=add(tn,mul(rnum((q128)j->second),ar)); } }
  t=Ex(Z3_mk_div(Z,tn,rnum(sc))); Ex st= neg? mul(rnum(-1),t):t; Ex b=mul(rnum(rel),t); Z3_ast s2[2]={r,st}; Ex d(Z3_mk_sub(Z,2,s2)); Ex nb=mul(rnum(-1),b); Ex g1(Z3_mk_gt(Z,d,b)),g2(Z3_mk_lt(Z,d,nb)); Z3_ast o2[2]={g1,g2};
  Z3_solver_assert(Z,S,Ex(Z3_mk_le(Z,lo,r))); Z3_solver_assert(Z,S,Ex(Z3_mk_le(Z,r,hi))); Z3_solver_assert(Z,S,Ex(Z3_mk_or(Z,2,o2)));
  if(getenv("SXD")) fprintf(stderr,"%s\n",Z3_solver_to_string(Z,S)); auto t0=std::chrono::steady_clock::now(); Z3_lbool q=Z3_solver_check(Z,S); ST.queries++; ST.solver+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); int res=0;
  if(q==Z3_L_FALSE){ res=1; ST.unsat++; } else if(q==Z3_L_TRUE){ ST.sat++; res=-1; Z3_model m=Z3_solver_get_model(Z,S); Z3_model_inc_ref(Z,m); for(auto&p:at){ Z3_ast o; if(Z3_model_eval(Z,m,p.second,true,&o)){ Ex k(o); uint64_t u=0; if(Z3_get_numeral_uint64(Z,k,&u)) vals[p.first]=u; } } Z3_model_dec_ref(Z,m); } else ST.unknown++;
  Z3_solver_dec_ref(Z,S); return res; }
// over the reals first (a superset of the inputs, and easy), then over the integers
static int fClose(const FLin&f,const Lin&v,u32 k10,bool neg,q128 rel,std::map<int,u64>&vals){ if(fClose1(f,v,k10,neg,rel,vals,false)==1) return 1; vals.clear(); return fClose1(f,v,k10,neg,rel,vals,true); }
