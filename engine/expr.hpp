// Hash-consed expression DAG: bit-vectors (width>=1, width 1 = Bool) and exact numerics ("Num",
// polynomials with rational coefficients over integer/real atoms) used for floating point values.
#pragma once
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <string>
#include <cmath>
#include <cstring>
#include <stdexcept>
#include <algorithm>
#include <z3.h>

typedef __int128 i128;
typedef unsigned __int128 u128;

struct EngineLimit { std::string msg; EngineLimit(const std::string& m):msg(m){} };

static inline i128 gcd128(i128 a,i128 b){ if(a<0)a=-a; if(b<0)b=-b;
  while(b){ if((u128)a<=UINT64_MAX && (u128)b<=UINT64_MAX){ uint64_t x=a,y=b; while(y){uint64_t t=x%y;x=y;y=t;} return x;} i128 t=a%b;a=b;b=t;} return a; }
static inline i128 mulo(i128 a,i128 b){ i128 r; if(__builtin_mul_overflow(a,b,&r)) throw EngineLimit("rational overflow"); return r; }
static inline i128 addo(i128 a,i128 b){ i128 r; if(__builtin_add_overflow(a,b,&r)) throw EngineLimit("rational overflow"); return r; }
struct Rat { i128 n=0,d=1;
  Rat(){} Rat(i128 v):n(v){} Rat(i128 a,i128 b):n(a),d(b){norm();}
  void norm(){ if(d<0){n=-n;d=-d;} if(d!=1){ i128 g=gcd128(n,d); if(g>1){n/=g;d/=g;} } }
  bool isInt()const{return d==1;} bool isZero()const{return n==0;}
  int sgn()const{return n<0?-1:n>0?1:0;}
  long double ld()const{return (long double)n/(long double)d;}
};
static inline Rat operator+(const Rat&a,const Rat&b){ if(a.d==1&&b.d==1) return Rat(addo(a.n,b.n)); if(a.d==b.d) return Rat(addo(a.n,b.n),a.d);
  i128 g=gcd128(a.d,b.d); return Rat(addo(mulo(a.n,b.d/g),mulo(b.n,a.d/g)),mulo(a.d,b.d/g)); }
static inline Rat operator-(const Rat&a){ Rat r=a; r.n=-r.n; return r; }
static inline Rat operator-(const Rat&a,const Rat&b){ return a+(-b); }
static inline Rat operator*(const Rat&a,const Rat&b){ if(a.d==1&&b.d==1) return Rat(mulo(a.n,b.n));
  i128 g1=gcd128(a.n,b.d), g2=gcd128(b.n,a.d); if(!g1)g1=1; if(!g2)g2=1; return Rat(mulo(a.n/g1,b.n/g2),mulo(a.d/g2,b.d/g1)); }
static inline Rat operator/(const Rat&a,const Rat&b){ if(b.n==0) throw EngineLimit("rational div0"); return a*Rat(b.d,b.n); }
static inline bool operator==(const Rat&a,const Rat&b){return a.n==b.n&&a.d==b.d;}
static inline bool operator<(const Rat&a,const Rat&b){ if(a.d==b.d) return a.n<b.n; return (a-b).n<0; }
static inline bool operator<=(const Rat&a,const Rat&b){ return !(b<a); }
static inline Rat rfloor(const Rat&a){ if(a.d==1) return a; i128 q=a.n/a.d; if(a.n<0) q-=1; return Rat(q); }
static inline Rat rceil(const Rat&a){ return -rfloor(-a); }
static inline Rat ratFromDouble(double x){ if(x==0) return Rat(0); int e; double m=frexp(x,&e); int64_t mi=(int64_t)ldexp(m,53); e-=53; while(!(mi&1)){mi>>=1;e++;}
  if(e>=0){ if(e>70) throw EngineLimit("double too large for exact rational"); return Rat(mulo((i128)mi,(i128)1<<e)); }
  if(-e>120) throw EngineLimit("double too small for exact rational"); return Rat((i128)mi,(i128)1<<(-e)); }
static std::string i128s(i128 v){ if(v==0) return "0"; bool neg=v<0; u128 u=neg?-(u128)v:(u128)v; std::string s; while(u){ s.push_back('0'+(int)(u%10)); u/=10;} if(neg)s.push_back('-'); std::reverse(s.begin(),s.end()); return s; }
static std::string rats(const Rat&r){ return r.d==1?i128s(r.n):i128s(r.n)+"/"+i128s(r.d); }

enum Kind : uint8_t { KCONST, KVAR, KADD,KSUB,KMUL,KUDIV,KSDIV,KUREM,KSREM,KSHL,KLSHR,KASHR,KAND,KOR,KXOR,KZEXT,KSEXT,KTRUNC,KITE,KEQ,KULT,KULE,KSLT,KSLE,
  KNLE,KNLT,KNEQ,           // Bool from poly: P<=k, P<k, P==k   (a = poly without constant, k in rat table)
  KFPBITS,                  // raw bits of a floating point Num (opaque), width 64/32
  KFP2SI,KFP2UI,            // truncation of poly to integer
  KSHADOW,                  // partially undefined concrete: cval bits, cval2 undefined mask
  KPOLY,                    // numeric polynomial
  KNVAR, KNITE, KNFROMBV, KNUF, KNDIV, KNFLOOR, KMONO };

struct Expr; typedef const Expr* E;
struct Term { E m; Rat c; };
struct Poly { std::vector<Term> t; Rat c0; };
struct Expr {
  Kind k; uint8_t w; bool isInt; bool hasReal; uint32_t id; uint64_t h;
  uint64_t cv, cv2;     // const / var index / extra
  E a,b,c;
  const Poly* p; const Rat* r; const std::vector<E>* args;
  uint64_t ulo,uhi;     // BV unsigned range
  long double nlo,nhi;  // Num range
};
struct EHash{ size_t operator()(E e)const{return e->h;} };
static inline uint64_t mix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>32; return h; }
static inline uint64_t hr(const Rat&r){ return mix((uint64_t)r.n*31+(uint64_t)(r.n>>64),(uint64_t)r.d*17+(uint64_t)(r.d>>64)); }
static bool sameE(const Expr&x,const Expr&y){
  if(x.h!=y.h||x.k!=y.k||x.w!=y.w||x.cv!=y.cv||x.cv2!=y.cv2||x.a!=y.a||x.b!=y.b||x.c!=y.c) return false;
  if((x.r!=nullptr)!=(y.r!=nullptr)) return false; if(x.r && !(*x.r==*y.r)) return false;
  if((x.p!=nullptr)!=(y.p!=nullptr)) return false;
  if(x.p){ if(x.p->t.size()!=y.p->t.size()||!(x.p->c0==y.p->c0)) return false; for(size_t i=0;i<x.p->t.size();++i) if(x.p->t[i].m!=y.p->t[i].m||!(x.p->t[i].c==y.p->t[i].c)) return false; }
  if((x.args!=nullptr)!=(y.args!=nullptr)) return false; if(x.args && *x.args!=*y.args) return false;
  return true; }
struct EEq{ bool operator()(E a,E b)const{return sameE(*a,*b);} };
static std::unordered_set<E,EHash,EEq> gTab; static uint32_t gId=1;
static inline uint64_t msk(unsigned w){ return w>=64?~0ULL:((1ULL<<w)-1); }
static inline int64_t sx(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ULL<<(w-1); v&=msk(w); return (int64_t)((v^m)-m); }

static E intern(Expr& x){
  uint64_t h=mix(x.k*1315423911u+x.w,x.cv); h=mix(h,x.cv2); h=mix(h,x.a?x.a->id:0); h=mix(h,x.b?x.b->id:0); h=mix(h,x.c?x.c->id:0);
  if(x.r) h=mix(h,hr(*x.r));
  if(x.p){ h=mix(h,hr(x.p->c0)); for(auto&t:x.p->t){h=mix(h,t.m->id);h=mix(h,hr(t.c));} }
  if(x.args) for(E e:*x.args) h=mix(h,e->id);
  x.h=h;
  auto it=gTab.find(&x); if(it!=gTab.end()) return *it;
  Expr* e=new Expr(x); e->id=gId++;
  if(x.r) e->r=new Rat(*x.r); if(x.p) e->p=new Poly(*x.p); if(x.args) e->args=new std::vector<E>(*x.args);
  gTab.insert(e); return e; }
static Expr blank(Kind k,unsigned w){ Expr x; memset(&x,0,sizeof x); x.k=k; x.w=w; x.uhi=msk(w?w:64); x.isInt=true; return x; }
static E mkConst(unsigned w,uint64_t v,uint64_t hi=0){ Expr x=blank(KCONST,w); x.cv=v&msk(w); x.cv2=hi; x.ulo=x.uhi=x.cv; return intern(x); }
static E gTrue,gFalse;
static inline bool isC(E e){return e->k==KCONST;}
static E mkNot(E a);
static E mkBin(Kind k,E a,E b);
static E mkIte(E c,E a,E b);

struct VarInfo { std::string name; bool isNum; unsigned w; int64_t lo,hi; E e; };
static std::vector<VarInfo> gVars;
static E mkVar(const std::string&n,unsigned w,uint64_t lo,uint64_t hi){ Expr x=blank(KVAR,w); x.cv=gVars.size(); x.ulo=lo;x.uhi=hi; E e=intern(x); gVars.push_back({n,false,w,(int64_t)lo,(int64_t)hi,e}); return e; }
static E mkNVar(const std::string&n,int64_t lo,int64_t hi){ Expr x=blank(KNVAR,0); x.cv=gVars.size(); x.nlo=lo;x.nhi=hi; E e=intern(x); gVars.push_back({n,true,0,lo,hi,e}); return e; }

static E mkNot(E a){ if(a==gTrue) return gFalse; if(a==gFalse) return gTrue; if(a->k==KXOR&&a->w==1&&a->b==gTrue) return a->a; 
  Expr x=blank(KXOR,1); x.a=a; x.b=gTrue; return intern(x); }
static inline bool isNot(E a){ return a->k==KXOR&&a->w==1&&a->b==gTrue; }

static bool foldBin(Kind k,unsigned w,uint64_t a,uint64_t b,uint64_t&r){
  switch(k){
   case KADD:r=a+b;break; case KSUB:r=a-b;break; case KMUL:r=a*b;break;
   case KUDIV: if(!b) return false; r=a/b;break; case KUREM: if(!b) return false; r=a%b;break;
   case KSDIV: if(!b||(sx(b,w)==-1)) { if(!b) return false; r=-a; break;} r=(uint64_t)(sx(a,w)/sx(b,w));break;
   case KSREM: if(!b) return false; if(sx(b,w)==-1){r=0;break;} r=(uint64_t)(sx(a,w)%sx(b,w));break;
   case KSHL: r=b>=w?0:a<<b;break; case KLSHR:r=b>=w?0:a>>b;break; case KASHR:r=(uint64_t)(sx(a,w)>>(b>=w?w-1:b));break;
   case KAND:r=a&b;break; case KOR:r=a|b;break; case KXOR:r=a^b;break;
   case KEQ:r=a==b;break; case KULT:r=a<b;break; case KULE:r=a<=b;break; case KSLT:r=sx(a,w)<sx(b,w);break; case KSLE:r=sx(a,w)<=sx(b,w);break;
   default:return false; }
  bool cmp=k>=KEQ&&k<=KSLE; r&=msk(cmp?1:w); return true; }
static inline bool isCmp(Kind k){return k>=KEQ&&k<=KSLE;}

static E mkBin(Kind k,E a,E b){
  unsigned w=a->w;
  if(isC(a)&&isC(b)){ uint64_t r; if(foldBin(k,w,a->cv,b->cv,r)) return mkConst(isCmp(k)?1:w,r); }
  if(w==1){ // booleans
    if(k==KAND){ if(a==gFalse||b==gFalse) return gFalse; if(a==gTrue) return b; if(b==gTrue) return a; if(a==b) return a; if(mkNot(a)==b) return gFalse; }
    else if(k==KOR){ if(a==gTrue||b==gTrue) return gTrue; if(a==gFalse) return b; if(b==gFalse) return a; if(a==b) return a; if(mkNot(a)==b) return gTrue; }
    else if(k==KXOR){ if(b==gTrue) return mkNot(a); if(a==gTrue) return mkNot(b); if(b==gFalse) return a; if(a==gFalse) return b; if(a==b) return gFalse; }
    else if(k==KEQ){ return mkNot(mkBin(KXOR,a,b)); }
    else if(k==KULT){ return mkBin(KAND,mkNot(a),b);} else if(k==KULE){return mkBin(KOR,mkNot(a),b);} else if(k==KSLT){return mkBin(KAND,a,mkNot(b));} else if(k==KSLE){return mkBin(KOR,a,mkNot(b));}
    else if(k==KADD||k==KSUB) return mkBin(KXOR,a,b); else if(k==KMUL) return mkBin(KAND,a,b);
  }
  // commutative: constant on the right
  if((k==KADD||k==KMUL||k==KAND||k==KOR||k==KXOR||k==KEQ)){ if(isC(a)||(!isC(b)&&a->id>b->id)) std::swap(a,b); }
  if(isC(b)){ uint64_t v=b->cv;
    if(v==0&&(k==KADD||k==KSUB||k==KOR||k==KXOR||k==KSHL||k==KLSHR||k==KASHR)) return a;
    if(v==0&&(k==KMUL||k==KAND)) return mkConst(w,0);
    if(v==1&&(k==KMUL||k==KUDIV||k==KSDIV)) return a;
    if(k==KAND&&v==msk(w)) return a; if(k==KOR&&v==msk(w)) return b;
    if(k==KSUB) return mkBin(KADD,a,mkConst(w,-v));
    if(k==KADD&&a->k==KADD&&isC(a->b)) return mkBin(KADD,a->a,mkConst(w,a->b->cv+v));
    if(k==KMUL&&a->k==KMUL&&isC(a->b)) return mkBin(KMUL,a->a,mkConst(w,a->b->cv*v));
    if(k==KSHL&&v<w) return mkBin(KMUL,a,mkConst(w,1ULL<<v));
    if(k==KUDIV&&v&&!(v&(v-1))) return mkBin(KLSHR,a,mkConst(w,__builtin_ctzll(v)));
    if(k==KUREM&&v&&!(v&(v-1))) return mkBin(KAND,a,mkConst(w,v-1));
    if(k==KAND&&a->uhi<=v&&((v+1)&v)==0) return a;
    if(k==KLSHR&&v<64&&(a->uhi>>v)==0) return mkConst(w,0);
    if(k==KEQ){
      if(v<a->ulo||v>a->uhi) return gFalse;
      if(a->k==KADD&&isC(a->b)) return mkBin(KEQ,a->a,mkConst(w,v-a->b->cv));
      if(a->k==KXOR&&isC(a->b)) return mkBin(KEQ,a->a,mkConst(w,v^a->b->cv));
      if(a->k==KZEXT) return mkBin(KEQ,a->a,mkConst(a->a->w,v));
      if(a->k==KSEXT) { if((uint64_t)sx(v,a->a->w)!=(uint64_t)sx(v,w)) return gFalse; return mkBin(KEQ,a->a,mkConst(a->a->w,v)); }
      if(a->k==KITE&&(isC(a->b)||isC(a->c))){ E x=mkBin(KEQ,a->b,b),y=mkBin(KEQ,a->c,b); return mkIte(a->a,x,y); }
    }
  }
  if(a==b){ if(k==KSUB||k==KXOR) return mkConst(w,0); if(k==KAND||k==KOR) return a; if(k==KEQ||k==KULE||k==KSLE) return gTrue; if(k==KULT||k==KSLT) return gFalse; }
  if(k==KULT){ if(a->uhi<b->ulo) return gTrue; if(a->ulo>=b->uhi) return gFalse; return mkNot(mkBin(KULE,b,a)); }
  if(k==KULE){ if(a->uhi<=b->ulo) return gTrue; if(a->ulo>b->uhi) return gFalse; }
  uint64_t sgn=1ULL<<(w-1);
  if(k==KSLT||k==KSLE){ if(a->uhi<sgn&&b->uhi<sgn) return mkBin(k==KSLT?KULT:KULE,a,b); if(a->uhi<sgn&&b->ulo>=sgn) return gFalse; if(a->ulo>=sgn&&b->uhi<sgn) return gTrue; if(k==KSLT) return mkNot(mkBin(KSLE,b,a)); }
  if(k==KEQ&&(a->uhi<b->ulo||b->uhi<a->ulo)) return gFalse;
  // ite lifting against constants for small comparisons
  if(isCmp(k)&&isC(b)&&a->k==KITE&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkBin(k,a->b,b),mkBin(k,a->c,b));
  if(isCmp(k)&&isC(a)&&b->k==KITE&&isC(b->b)&&isC(b->c)) return mkIte(b->a,mkBin(k,a,b->b),mkBin(k,a,b->c));
  Expr x=blank(k,isCmp(k)?1:w); x.a=a;x.b=b;
  if(!isCmp(k)){ uint64_t m=msk(w); x.ulo=0;x.uhi=m;
    switch(k){
     case KADD:{ u128 hi=(u128)a->uhi+b->uhi; if(hi<=m){x.ulo=a->ulo+b->ulo;x.uhi=(uint64_t)hi;} break; }
     case KSUB: if(a->ulo>=b->uhi){x.ulo=a->ulo-b->uhi;x.uhi=a->uhi-b->ulo;} break;
     case KMUL:{ u128 hi=(u128)a->uhi*b->uhi; if(hi<=m){x.ulo=a->ulo*b->ulo;x.uhi=(uint64_t)hi;} break; }
     case KUDIV: if(b->ulo){x.ulo=a->ulo/b->uhi;x.uhi=a->uhi/b->ulo;} break;
     case KUREM: if(b->ulo){x.uhi=std::min(a->uhi,b->uhi-1);} break;
     case KLSHR: if(isC(b)&&b->cv<64){x.ulo=a->ulo>>b->cv;x.uhi=a->uhi>>b->cv;} else x.uhi=a->uhi; break;
     case KAND: x.uhi=std::min(a->uhi,b->uhi); break;
     case KOR: case KXOR:{ uint64_t t=a->uhi|b->uhi; t|=t>>1;t|=t>>2;t|=t>>4;t|=t>>8;t|=t>>16;t|=t>>32; x.uhi=t&m; if(k==KOR) x.ulo=std::max(a->ulo,b->ulo); break; }
     default:break; } }
  return intern(x); }
static E mkCast(Kind k,E a,unsigned w){ if(a->w==w) return a;
  if(isC(a)) return mkConst(w,k==KSEXT?(uint64_t)sx(a->cv,a->w):a->cv);
  if(a->k==KITE&&(isC(a->b)&&isC(a->c))) return mkIte(a->a,mkCast(k,a->b,w),mkCast(k,a->c,w));
  if(k==KTRUNC){ if((a->k==KZEXT||a->k==KSEXT)){ if(a->a->w==w) return a->a; if(a->a->w>w) return mkCast(KTRUNC,a->a,w); return mkCast(a->k,a->a,w);} 
    if(w==1){ return mkNot(mkBin(KEQ,mkBin(KAND,a,mkConst(a->w,1)),mkConst(a->w,0))); } }
  if(a->w==1&&(k==KZEXT||k==KSEXT)) return mkIte(a,mkConst(w,k==KZEXT?1:~0ULL),mkConst(w,0));
  if(k==KZEXT&&a->k==KZEXT) a=a->a;
  if(k==KSEXT&&a->uhi<(1ULL<<(a->w-1))) k=KZEXT;
  Expr x=blank(k,w); x.a=a; if(k==KZEXT){x.ulo=a->ulo;x.uhi=a->uhi;} else if(k==KTRUNC&&a->uhi<=msk(w)){x.ulo=a->ulo;x.uhi=a->uhi;} else {x.ulo=0;x.uhi=msk(w);} return intern(x); }
static E mkIte(E c,E a,E b){ if(c==gTrue) return a; if(c==gFalse) return b; if(a==b) return a; if(isNot(c)) return mkIte(c->a,b,a);
  if(a->w==1){ if(a==gTrue) return mkBin(KOR,c,b); if(b==gFalse) return mkBin(KAND,c,a); if(a==gFalse) return mkBin(KAND,mkNot(c),b); if(b==gTrue) return mkBin(KOR,mkNot(c),a); }
  Expr x=blank(KITE,a->w); x.a=c;x.b=a;x.c=b; x.ulo=std::min(a->ulo,b->ulo);x.uhi=std::max(a->uhi,b->uhi); return intern(x); }

// ---------- Num ----------
static void atomRange(E a,long double&lo,long double&hi){ lo=a->nlo;hi=a->nhi; }
static E mkPoly(const Poly& p){ Expr x=blank(KPOLY,0); x.p=&p; long double lo=p.c0.ld(),hi=lo; bool in=true,real=false; 
  for(auto&t:p.t){ long double al,ah; atomRange(t.m,al,ah); long double c=t.c.ld(); long double x1=c*al,x2=c*ah; lo+=std::min(x1,x2); hi+=std::max(x1,x2); if(!t.m->isInt) {in=false;} if(t.m->hasReal) real=true; if(!t.c.isInt()) in=false; }
  if(!p.c0.isInt()) in=false; x.nlo=lo;x.nhi=hi;x.isInt=in;x.hasReal=real; return intern(x); }
static E numConst(const Rat& r){ Poly p; p.c0=r; return mkPoly(p); }
static E polyOfAtom(E a,Rat c=Rat(1)){ Poly p; p.t.push_back({a,c}); return mkPoly(p); }
static inline bool numIsConst(E a){ return a->p->t.empty(); }
static E numAddScaled(E a,E b,const Rat& s){ // a + s*b
  Poly r; r.c0=a->p->c0+s*b->p->c0; auto&x=a->p->t;auto&y=b->p->t; size_t i=0,j=0; r.t.reserve(x.size()+y.size());
  while(i<x.size()||j<y.size()){ if(j>=y.size()||(i<x.size()&&x[i].m->id<y[j].m->id)) r.t.push_back(x[i++]); else if(i>=x.size()||y[j].m->id<x[i].m->id){ r.t.push_back({y[j].m,s*y[j].c}); j++; } else { Rat c=x[i].c+s*y[j].c; if(!c.isZero()) r.t.push_back({x[i].m,c}); i++;j++; } }
  return mkPoly(r); }
static E numAdd(E a,E b){return numAddScaled(a,b,Rat(1));}
static E numSub(E a,E b){return numAddScaled(a,b,Rat(-1));}
static E numScale(E a,const Rat&s){ if(s.isZero()) return numConst(Rat(0)); Poly r; r.c0=a->p->c0*s; for(auto&t:a->p->t) r.t.push_back({t.m,t.c*s}); return mkPoly(r); }
static E mkMono(E a,E b){ // product of two monomials/atoms
  std::vector<E> v; auto ap=[&](E m){ if(m->k==KMONO) v.insert(v.end(),m->args->begin(),m->args->end()); else v.push_back(m); }; ap(a);ap(b);
  std::sort(v.begin(),v.end(),[](E x,E y){return x->id<y->id;});
  Expr x=blank(KMONO,0); x.args=&v; long double lo=1,hi=1; bool in=true,real=false; 
  for(size_t i=0;i<v.size();){ size_t j=i; while(j<v.size()&&v[j]==v[i]) j++; size_t e=j-i; long double l,h; atomRange(v[i],l,h); long double pl=powl(l,e),ph=powl(h,e); long double a1,a2; 
    if(e%2==0){ a2=std::max(pl,ph); a1=(l<=0&&h>=0)?0:std::min(pl,ph);} else {a1=pl;a2=ph;}
    long double c1=lo*a1,c2=lo*a2,c3=hi*a1,c4=hi*a2; lo=std::min(std::min(c1,c2),std::min(c3,c4)); hi=std::max(std::max(c1,c2),std::max(c3,c4)); if(!v[i]->isInt) in=false; if(v[i]->hasReal) real=true; i=j; }
  x.nlo=lo;x.nhi=hi;x.isInt=in;x.hasReal=real; return intern(x); }
static E numMul(E a,E b){ if(numIsConst(a)) return numScale(b,a->p->c0); if(numIsConst(b)) return numScale(a,b->p->c0);
  if(a->p->t.size()*b->p->t.size()>4000) throw EngineLimit("polynomial product too large");
  std::map<uint32_t,Term> acc; auto add=[&](E m,const Rat&c){ auto it=acc.find(m->id); if(it==acc.end()) acc[m->id]={m,c}; else it->second.c=it->second.c+c; };
  for(auto&x:a->p->t){ for(auto&y:b->p->t) add(mkMono(x.m,y.m),x.c*y.c); if(!b->p->c0.isZero()) add(x.m,x.c*b->p->c0); }
  if(!a->p->c0.isZero()) for(auto&y:b->p->t) add(y.m,y.c*a->p->c0);
  Poly r; r.c0=a->p->c0*b->p->c0; for(auto&kv:acc) if(!kv.second.c.isZero()) r.t.push_back(kv.second); return mkPoly(r); }
static i128 commonDen(E p){ i128 d=p->p->c0.d; for(auto&t:p->p->t){ i128 g=gcd128(d,t.c.d); d=mulo(d/g,t.c.d);} return d; }
static E numIte(E c,E a,E b){ if(c==gTrue) return a; if(c==gFalse) return b; if(a==b) return a; if(isNot(c)) return numIte(c->a,b,a);
  // common part factored out is not attempted; scale to integer coefficients
  i128 d=1; if(!a->hasReal&&!b->hasReal){ i128 da=commonDen(a),db=commonDen(b); d=mulo(da/gcd128(da,db),db); }
  E aa=numScale(a,Rat(d)),bb=numScale(b,Rat(d)); Expr x=blank(KNITE,0); x.a=c;x.b=aa;x.c=bb; x.nlo=std::min(aa->nlo,bb->nlo);x.nhi=std::max(aa->nhi,bb->nhi); x.isInt=aa->isInt&&bb->isInt; x.hasReal=aa->hasReal||bb->hasReal; return polyOfAtom(intern(x),Rat(1,d)); }
static E numFromBV(E b,bool sgn){ if(isC(b)) return numConst(Rat(sgn?(i128)sx(b->cv,b->w):(i128)b->cv)); 
  if(b->k==KITE) return numIte(b->a,numFromBV(b->b,sgn),numFromBV(b->c,sgn));
  if(b->uhi-b->ulo<=40&&(!sgn||b->uhi<(1ULL<<(b->w-1)))){ E r=numConst(Rat((i128)b->uhi)); for(uint64_t v=b->uhi;v-->b->ulo;) r=numIte(mkBin(KEQ,b,mkConst(b->w,v)),numConst(Rat((i128)v)),r); return r; }
  Expr x=blank(KNFROMBV,0); x.a=b;x.cv=sgn; long double s=powl(2,b->w-1); if(sgn){ if(b->uhi<(1ULL<<(b->w-1))){x.nlo=b->ulo;x.nhi=b->uhi;} else {x.nlo=-s;x.nhi=s;} } else {x.nlo=b->ulo;x.nhi=b->uhi;} return polyOfAtom(intern(x)); }
// comparisons: returns Bool for  p <= 0 , p < 0, p == 0
static E numCmp0(Kind k,E p){ 
  if(numIsConst(p)){ int s=p->p->c0.sgn(); return (k==KNLE?s<=0:k==KNLT?s<0:s==0)?gTrue:gFalse; }
  if(k==KNLE){ if(p->nhi<=0) return gTrue; if(p->nlo>0) return gFalse; } else if(k==KNLT){ if(p->nhi<0) return gTrue; if(p->nlo>=0) return gFalse; } else { if(p->nlo>0||p->nhi<0) return gFalse; }
  // scale the non-constant part to coprime integers
  i128 d=1; for(auto&t:p->p->t){ i128 g=gcd128(d,t.c.d); d=mulo(d/g,t.c.d);} i128 g=0; for(auto&t:p->p->t) g=gcd128(g,t.c.n*(d/t.c.d));
  Rat s(d,g); if(p->p->t[0].c.sgn()<0) s=-s; bool neg=s.sgn()<0;
  Poly q; bool allInt=true,real=false; for(auto&t:p->p->t){ q.t.push_back({t.m,t.c*s}); if(!t.m->isInt) allInt=false; if(t.m->hasReal) real=true; }
  (void)real; Rat kk=-(p->p->c0*s); E Q=mkPoly(q);
  if(k==KNEQ){ if(allInt&&!kk.isInt()) return gFalse; Expr x=blank(KNEQ,1); x.a=Q; x.r=&kk; return intern(x); }
  // P rel 0 with s>0:  Q <= kk (or <) ; s<0: Q >= kk (or >)
  if(allInt){ if(!neg){ Rat b= k==KNLE? rfloor(kk): rceil(kk)-Rat(1); Expr x=blank(KNLE,1); x.a=Q;x.r=&b; return intern(x);} 
    Rat b= k==KNLE? rceil(kk)-Rat(1): rfloor(kk); // not(Q<=b)
    Expr x=blank(KNLE,1); x.a=Q;x.r=&b; return mkNot(intern(x)); }
  if(!neg){ Expr x=blank(k,1); x.a=Q;x.r=&kk; return intern(x);} 
  Expr x=blank(k==KNLE?KNLT:KNLE,1); x.a=Q;x.r=&kk; return mkNot(intern(x)); }
static E mkFPBits(E p,unsigned w){ Expr x=blank(KFPBITS,w); x.a=p; return intern(x); }
static E mkShadow(unsigned w,uint64_t bits,uint64_t und){ Expr x=blank(KSHADOW,w); x.cv=bits&msk(w)&~und; x.cv2=und&msk(w); return intern(x); }
static E mkUF(int fn,E a,E b,long double lo,long double hi){ Expr x=blank(KNUF,0); x.cv=fn;x.a=a;x.b=b;x.nlo=lo;x.nhi=hi;x.isInt=false;x.hasReal=true; return polyOfAtom(intern(x)); }
static E numFloor(E p){ if(p->isInt) return p; if(numIsConst(p)) return numConst(rfloor(p->p->c0)); Expr x=blank(KNFLOOR,0); x.a=p;x.nlo=floorl(p->nlo);x.nhi=floorl(p->nhi);x.isInt=true;x.hasReal=p->hasReal; return polyOfAtom(intern(x)); }
static E numDivAtom(E a,E b,long double lo,long double hi){ Expr x=blank(KNDIV,0); x.a=a;x.b=b;x.nlo=lo;x.nhi=hi;x.isInt=false;x.hasReal=true; return polyOfAtom(intern(x)); }
