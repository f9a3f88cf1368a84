// Exact linear forms: a bit-vector expression may carry the integer form  sum c_i*a_i + k  over input atoms with known
// ranges (sx_range).  Operators keep the form while its bounds show that nothing wraps; masks, shifts, divisions and
// remainders split it.  This decides decimal digit arithmetic that bit-blasting cannot.  A form is attached only when it
// provably equals the expression (as unsigned or as signed value), so it only simplifies what the solver sees.
typedef __int128 i128;
struct Lin { std::map<int,i128> t; i128 k=0,mn=0,mx=0; };
struct LAtom { Ex e; u32 w; u64 lo,hi; };
static std::vector<LAtom> lAtoms; static std::unordered_map<unsigned,int> lAtomOf; static std::unordered_map<unsigned,std::pair<Ex,Lin>> lOf; static std::map<std::string,Ex> lCanon;
static i128 p2(u32 w){ return (i128)1<<w; }
static void lBounds(Lin&l){ l.mn=l.mx=l.k; for(auto it=l.t.begin();it!=l.t.end();){ if(!it->second){ it=l.t.erase(it); continue; } i128 c=it->second; auto&a=lAtoms[it->first]; if(c>0){ l.mn+=c*(i128)a.lo; l.mx+=c*(i128)a.hi; } else { l.mn+=c*(i128)a.hi; l.mx+=c*(i128)a.lo; } ++it; } }
static bool lU(const Lin&l,u32 w){ return l.mn>=0&&l.mx<p2(w); }
static bool lS(const Lin&l,u32 w){ return l.mn>=-p2(w-1)&&l.mx<p2(w-1); }
static bool lSmall(const Lin&l){ for(auto&p:l.t) if(p.second>((i128)1<<100)||p.second<-((i128)1<<100)) return false; return true; }
static bool getLin(const V&v,Lin&l){ if(!v.sym){ l=Lin(); l.k=v.c; lBounds(l); return true; } if(lOf.empty()) return false; auto it=lOf.find(Z3_get_ast_id(Z,v.e)); if(it==lOf.end()) return false; l=it->second.second; return true; }
static i128 fmodP(i128 a,i128 m){ i128 r=a%m; return r<0? r+m:r; }
// canonical expression of a form, if the form is exact at width w
static bool linV(u32 w,Lin l,V&out){
  if(lAtoms.empty()) return false; lBounds(l); if(!lSmall(l)) return false;
  if(!lU(l,w)&&!lS(l,w)){ for(auto&p:l.t) p.second=fmodP(p.second,p2(w)); l.k=fmodP(l.k,p2(w)); lBounds(l); if(!lU(l,w)) return false; }
  if(l.t.empty()){ out=V(w,(u64)l.k); return true; }
  std::string key=std::to_string(w); for(auto&p:l.t){ key+=","+std::to_string(p.first)+":"+std::to_string((u64)(p.second))+"."+std::to_string((s64)(p.second>>64)); } key+="+"+std::to_string((u64)l.k)+"."+std::to_string((s64)(l.k>>64));
  auto it=lCanon.find(key); if(it==lCanon.end()){ Ex acc; for(auto&p:l.t){ auto&a=lAtoms[p.first]; Ex x= a.w==w? a.e : a.w<w? Ex(Z3_mk_zero_ext(Z,w-a.w,a.e)) : Ex(Z3_mk_extract(Z,w-1,0,a.e)); if(p.second!=1) x=Ex(Z3_mk_bvmul(Z,x,num((u64)p.second,w))); acc= acc? Ex(Z3_mk_bvadd(Z,acc,x)):x; }
    if(l.k) acc=Ex(Z3_mk_bvadd(Z,acc,num((u64)l.k,w))); acc=Ex(Z3_simplify(Z,acc)); it=lCanon.emplace(key,acc).first; if(!lOf.count(Z3_get_ast_id(Z,acc))) lOf[Z3_get_ast_id(Z,acc)]={acc,l}; }
  out=mkv(w,it->second); return true; }
static void linAtom(const V&v,u64 lo,u64 hi){ if(!v.sym) return; unsigned id=Z3_get_ast_id(Z,v.e); auto it=lAtomOf.find(id); if(it!=lAtomOf.end()){ if(lAtoms[it->second].lo!=lo||lAtoms[it->second].hi!=hi){ gInconcl.insert("an input is declared with two ranges"); } return; }
  u32 w=v.w; while(w>8&&hi<(1ull<<(w-1))&&w>1) w--; int n=lAtoms.size(); lAtoms.push_back({v.e,v.w,lo,hi}); lAtomOf[id]=n; Lin l; l.t[n]=1; lBounds(l); lOf[id]={v.e,l}; }
// l = hi*m + lo with 0<=lo<m
static bool lSplit(const Lin&l,i128 m,Lin&hi,Lin&lo){ hi=Lin(); lo=Lin(); for(auto&p:l.t){ i128 r=fmodP(p.second,m); i128 q=(p.second-r)/m; if(r) lo.t[p.first]=r; if(q) hi.t[p.first]=q; } lo.k=fmodP(l.k,m); hi.k=(l.k-lo.k)/m; lBounds(lo); lBounds(hi); return lo.mn>=0&&lo.mx<m; }
// a form that the divisor does not split, with few possible values: the operation in as few bits as they need
static bool linNarrow(bool rem,const Lin&x,i128 m,u32 w,V&out){ if(x.mn<0||x.mx>=4096||m>=4096) return false; u32 k=1; while(p2(k)<=x.mx||p2(k)<=m) k++; V n; if(k>=w||!linV(k,x,n)||!n.sym) return false; Ex d=num((u64)m,k); out=mkv(w,Ex(Z3_simplify(Z,Ex(Z3_mk_zero_ext(Z,w-k, rem? Ex(Z3_mk_bvurem(Z,n.e,d)):Ex(Z3_mk_bvudiv(Z,n.e,d))))))); return true; }
static bool linBin(unsigned op,const V&a,const V&b,u32 w,V&out){
  if(lAtoms.empty()||(!a.sym&&!b.sym)) return false; Lin x,y,h,l; if(!getLin(a,x)||!getLin(b,y)) return false; bool cb=!b.sym;
  switch(op){
   case Instruction::Add: for(auto&p:y.t) x.t[p.first]+=p.second; x.k+=y.k; return linV(w,x,out);
   case Instruction::Sub: for(auto&p:y.t) x.t[p.first]-=p.second; x.k-=y.k; return linV(w,x,out);
   case Instruction::Mul: { if(!cb){ if(a.sym) return false; std::swap(x,y); } i128 c=y.k; i128 cs=sextw((u64)c,w); if(c>p2(62)) c=cs; for(auto&p:x.t){ if(p.second>p2(62)||p.second<-p2(62)) return false; p.second*=c; } if(x.k>p2(62)||x.k<-p2(62)) return false; x.k*=c; return linV(w,x,out); }
   case Instruction::Shl: if(!cb||y.k>=w||y.k>=62) return false; for(auto&p:x.t){ if(p.second>p2(62)||p.second<-p2(62)) { p.second=fmodP(p.second,p2(w)); if(p.second>p2(62)) return false; } p.second*=p2((u32)y.k); if(p.second>p2(w)||p.second<-p2(w)) p.second=fmodP(p.second,p2(w)); } x.k=fmodP(x.k,p2(w)); if(x.k>p2(64)) return false; x.k=fmodP(x.k*p2((u32)y.k),p2(w)); return linV(w,x,out);
   case Instruction::SDiv: case Instruction::SRem: case Instruction::AShr: if(!lS(x,w)||x.mn<0) return false; if(op!=Instruction::AShr&&(!cb||y.k>=p2(w-1))) return false; /* fall through */
   case Instruction::UDiv: case Instruction::URem: case Instruction::LShr: { if(!cb||!lU(x,w)) return false; i128 m=y.k; if(op==Instruction::LShr||op==Instruction::AShr){ if(m>=w) return false; m=p2((u32)m); } if(m<=0) return false; if(!lSplit(x,m,h,l)) return linNarrow((op==Instruction::URem||op==Instruction::SRem),x,m,w,out); return linV(w,(op==Instruction::URem||op==Instruction::SRem)?l:h,out); }
   case Instruction::And: { const V&mv=cb?b:a; if(mv.sym) return false; Lin&f=cb?x:y; if(!lU(f,w)) return false; u64 m=mv.c; Lin r; for(u32 i=0;i<w;){ if(!(m>>i&1)){ i++; continue; } u32 j=i; while(j<w&&(m>>j&1)) j++; Lin h1,l1,h2,l2; if(j>=w) l1=f; else if(!lSplit(f,p2(j),h1,l1)) return false; if(i){ if(!lSplit(l1,p2(i),h2,l2)) return false; for(auto&p:h2.t) r.t[p.first]+=p.second*p2(i); r.k+=h2.k*p2(i); } else { for(auto&p:l1.t) r.t[p.first]+=p.second; r.k+=l1.k; } i=j; } return linV(w,r,out); }
   case Instruction::Or: case Instruction::Xor: { if(!lU(x,w)||!lU(y,w)) return false; auto tz=[&](const Lin&q){ u32 s=w; auto f=[&](i128 c){ if(!c) return; u32 z=0; while(z<w&&!((c>>z)&1)) z++; s=std::min(s,z); }; for(auto&p:q.t) f(p.second); f(q.k); return s; }; if(!(y.mx<p2(tz(x))||x.mx<p2(tz(y)))) return false; for(auto&p:y.t) x.t[p.first]+=p.second; x.k+=y.k; return linV(w,x,out); } }
  return false; }
static bool linCast(unsigned op,const V&a,u32 w,V&out){ if(lAtoms.empty()||!a.sym) return false; Lin x,h,l; if(!getLin(a,x)) return false;
  if(op==Instruction::ZExt){ if(!lU(x,a.w)) return false; return linV(w,x,out); } if(op==Instruction::SExt){ if(!lS(x,a.w)) return false; return linV(w,x,out); }
  if(op==Instruction::Trunc){ if(lU(x,w)||lS(x,w)) return linV(w,x,out); if(!lSplit(x,p2(w),h,l)) return false; return linV(w,l,out); } return false; }
static bool linExtract(const Ex&e,u32 ew,u32 lo,u32 n,V&out){ if(lAtoms.empty()) return false; V v(ew,e),t; if(lo){ if(!linBin(Instruction::LShr,v,V(ew,lo),ew,t)) return false; } else t=v; if(!t.sym){ out=V(n,t.c); return true; } return linCast(Instruction::Trunc,t,n,out); }
static int linCmp(unsigned p,const V&a,const V&b){ // 1 true, 0 false, -1 unknown
  if(lAtoms.empty()||(!a.sym&&!b.sym)) return -1; Lin x,y; if(!getLin(a,x)||!getLin(b,y)) return -1; u32 w=a.w; bool sg= p==CmpInst::ICMP_SGT||p==CmpInst::ICMP_SGE||p==CmpInst::ICMP_SLT||p==CmpInst::ICMP_SLE;
  if(!b.sym&&y.k>=p2(w-1)&&(sg||lS(x,w)&&!lU(x,w))){ y.k-=p2(w); lBounds(y); } if(!a.sym&&x.k>=p2(w-1)&&(sg||lS(y,w)&&!lU(y,w))){ x.k-=p2(w); lBounds(x); }
  bool eq= p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE; if(sg){ if(!lS(x,w)||!lS(y,w)) return -1; } else if(eq){ if(!((lU(x,w)&&lU(y,w))||(lS(x,w)&&lS(y,w)))) return -1; } else if(!lU(x,w)||!lU(y,w)) return -1;
  for(auto&q:y.t) x.t[q.first]-=q.second; x.k-=y.k; lBounds(x);
  switch(p){ case CmpInst::ICMP_EQ: if(x.t.empty()) return x.k==0; if(x.mn>0||x.mx<0) return 0; return -1; case CmpInst::ICMP_NE: if(x.t.empty()) return x.k!=0; if(x.mn>0||x.mx<0) return 1; return -1;
   case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: if(x.mn>0) return 1; if(x.mx<=0) return 0; return -1; case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: if(x.mn>=0) return 1; if(x.mx<0) return 0; return -1;
   case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: if(x.mx<0) return 1; if(x.mn>=0) return 0; return -1; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: if(x.mx<=0) return 1; if(x.mn>0) return 0; return -1; } return -1; }
