#pragma once
#include "expr.hpp"
#include <chrono>
#include <memory>
static double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Model { std::vector<int64_t> v; }; // indexed by var id
typedef std::shared_ptr<Model> ModelP;
enum UFn { UF_SQRT=1, UF_EXP, UF_LOG, UF_POW, UF_SIN, UF_COS, UF_OTHER };

// ---- concrete evaluation under a model ----
struct Evaluator { const Model* m; std::unordered_map<E,uint64_t> bv; std::unordered_map<E,Rat> num; bool exact=true;
  Evaluator(const Model*mm):m(mm){}
  int64_t var(uint64_t i){ if(i<m->v.size()) return m->v[i]; return gVars[i].lo; }
  Rat atom(E a){ switch(a->k){
     case KNVAR: return Rat((i128)var(a->cv));
     case KMONO:{ Rat r(1); for(E x:*a->args) r=r*atom(x); return r; }
     default:break; }
    auto it=num.find(a); if(it!=num.end()) return it->second; Rat r;
    switch(a->k){
     case KNITE: r=ev(a->a)?nm(a->b):nm(a->c); break;
     case KNFROMBV: r= a->cv?Rat((i128)sx(ev(a->a),a->a->w)):Rat((i128)ev(a->a)); break;
     case KNFLOOR: r=rfloor(nm(a->a)); break;
     case KNDIV:{ Rat d=nm(a->b); if(d.isZero()){exact=false;r=Rat(0);} else r=nm(a->a)/d; break; }
     default: exact=false; { long double x=nm(a->a).ld(),y=a->b?nm(a->b).ld():0; long double z=0; switch((int)a->cv){case UF_SQRT:z=x>=0?sqrtl(x):0;break;case UF_EXP:z=expl(x);break;case UF_LOG:z=x>0?logl(x):-1e4;break;case UF_POW:z=powl(x,y);break;case UF_SIN:z=sinl(x);break;case UF_COS:z=cosl(x);break;} if(!(fabsl(z)<1e15)) z=0; r=ratFromDouble((double)(floorl(z*65536)/65536)); } break; }
    num[a]=r; return r; }
  Rat nm(E p){ Rat r=p->p->c0; for(auto&t:p->p->t) r=r+t.c*atom(t.m); return r; }
  uint64_t ev(E e){ if(isC(e)) return e->cv; if(e->k==KVAR) return (uint64_t)var(e->cv)&msk(e->w);
    auto it=bv.find(e); if(it!=bv.end()) return it->second; uint64_t r=0;
    switch(e->k){
     case KITE: r=ev(e->a)?ev(e->b):ev(e->c);break;
     case KZEXT: r=ev(e->a);break; case KSEXT: r=(uint64_t)sx(ev(e->a),e->a->w)&msk(e->w);break; case KTRUNC: r=ev(e->a)&msk(e->w);break;
     case KNLE: r=nm(e->a)<=*e->r;break; case KNLT: r=nm(e->a)<*e->r;break; case KNEQ: r=nm(e->a)==*e->r;break;
     case KFP2SI: case KFP2UI:{ Rat x=nm(e->a); Rat f=x.n<0?rceil(x):rfloor(x); r=(uint64_t)f.n&msk(e->w); break; }
     case KFPBITS:{ double d=(double)nm(e->a).ld(); if(e->w==64) memcpy(&r,&d,8); else { float f=(float)d; uint32_t u; memcpy(&u,&f,4); r=u;} break; }
     default:{ uint64_t a=ev(e->a),b=ev(e->b); if(!foldBin(e->k,e->a->w,a,b,r)) { exact=false; r=0; } } }
    bv[e]=r; return r; } };

struct Solver {
  Z3_context c; Z3_solver s; std::vector<E> stack; // asserted constraints, one scope each
  std::unordered_map<E,Z3_ast> tr; std::unordered_map<E,Z3_ast> trReal;
  uint64_t queries=0,sat=0,unsat=0,unknown=0; double time=0; unsigned timeoutMs=20000; std::string logFile;
  static void eh(Z3_context c,Z3_error_code e){ throw EngineLimit(std::string("z3: ")+Z3_get_error_msg(c,e)); }
  Solver(){ init(); }
  void init(){ Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); c=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c,eh);
    s=Z3_mk_simple_solver(c); Z3_solver_inc_ref(c,s); setTimeout(timeoutMs); }
  void setTimeout(unsigned ms){ timeoutMs=ms; Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p); Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"timeout"),ms); Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"random_seed"),7); Z3_solver_set_params(c,s,p); Z3_params_dec_ref(c,p); }
  Z3_sort I(){return Z3_mk_int_sort(c);} Z3_sort R(){return Z3_mk_real_sort(c);}
  Z3_ast ilit(i128 v,bool real){ std::string t=i128s(v); return Z3_mk_numeral(c,t.c_str(),real?R():I()); }
  Z3_ast rlit(const Rat&r){ std::string t=rats(r); return Z3_mk_numeral(c,t.c_str(),R()); }
  std::vector<Z3_ast> side; // side constraints for atoms (divisions, uf axioms, bounds)
  Z3_ast atom(E a,bool real){ // returns Int ast if !real
    if(real&&!a->hasReal&&a->isInt){ auto it=trReal.find(a); if(it!=trReal.end()) return it->second; Z3_ast r=Z3_mk_int2real(c,atom(a,false)); trReal[a]=r; return r; }
    auto it=tr.find(a); if(it!=tr.end()) return it->second; Z3_ast r=nullptr;
    switch(a->k){
     case KNVAR: r=Z3_mk_const(c,Z3_mk_string_symbol(c,("v"+std::to_string(a->cv)).c_str()),I()); break;
     case KMONO:{ std::vector<Z3_ast> v; bool rr=!a->isInt; for(E x:*a->args) v.push_back(atom(x,rr)); r=Z3_mk_mul(c,v.size(),v.data()); break; }
     case KNITE: r=Z3_mk_ite(c,b(a->a),poly(a->b,!a->isInt),poly(a->c,!a->isInt)); break;
     case KNFROMBV: r=Z3_mk_bv2int(c,b(a->a),a->cv); break;
     case KNFLOOR: r=Z3_mk_real2int(c,poly(a->a,true)); break;
     case KNDIV:{ r=Z3_mk_fresh_const(c,"q",R()); Z3_ast m[2]={r,poly(a->b,true)}; Z3_ast eq=Z3_mk_eq(c,Z3_mk_mul(c,2,m),poly(a->a,true)); side.push_back(eq); break; }
     case KNUF:{ r=Z3_mk_fresh_const(c,"uf",R()); if(a->cv==UF_SQRT){ Z3_ast m[2]={r,r}; Z3_ast arg=poly(a->a,true); side.push_back(Z3_mk_implies(c,Z3_mk_ge(c,arg,ilit(0,true)),Z3_mk_eq(c,Z3_mk_mul(c,2,m),arg))); side.push_back(Z3_mk_ge(c,r,ilit(0,true))); }
        if(a->cv==UF_EXP){ side.push_back(Z3_mk_gt(c,r,ilit(0,true))); } break; }
     default: throw EngineLimit("atom kind"); }
    Z3_inc_ref(c,r); tr[a]=r; return r; }
  Z3_ast poly(E p,bool real){ 
    bool needReal=real||!p->isInt; std::vector<Z3_ast> v; 
    for(auto&t:p->p->t){ Z3_ast x=atom(t.m,needReal); if(t.c==Rat(1)){v.push_back(x);continue;} Z3_ast m[2]={needReal?rlit(t.c):ilit(t.c.n,false),x}; v.push_back(Z3_mk_mul(c,2,m)); }
    if(!p->p->c0.isZero()||v.empty()) v.push_back(needReal?rlit(p->p->c0):ilit(p->p->c0.n,false));
    return v.size()==1?v[0]:Z3_mk_add(c,v.size(),v.data()); }
  Z3_ast b(E e){ auto it=tr.find(e); if(it!=tr.end()) return it->second; Z3_ast r=nullptr; bool B=e->w==1;
    auto bin=[&](Z3_ast(*f)(Z3_context,Z3_ast,Z3_ast)){ return f(c,b(e->a),b(e->b)); };
    switch(e->k){
     case KCONST: r=B?(e->cv?Z3_mk_true(c):Z3_mk_false(c)):Z3_mk_unsigned_int64(c,e->cv,Z3_mk_bv_sort(c,e->w)); break;
     case KVAR: r=Z3_mk_const(c,Z3_mk_string_symbol(c,("v"+std::to_string(e->cv)).c_str()),B?Z3_mk_bool_sort(c):Z3_mk_bv_sort(c,e->w)); break;
     case KADD:r=bin(Z3_mk_bvadd);break; case KSUB:r=bin(Z3_mk_bvsub);break; case KMUL:r=bin(Z3_mk_bvmul);break;
     case KUDIV:r=bin(Z3_mk_bvudiv);break; case KSDIV:r=bin(Z3_mk_bvsdiv);break; case KUREM:r=bin(Z3_mk_bvurem);break; case KSREM:r=bin(Z3_mk_bvsrem);break;
     case KSHL:r=bin(Z3_mk_bvshl);break; case KLSHR:r=bin(Z3_mk_bvlshr);break; case KASHR:r=bin(Z3_mk_bvashr);break;
     case KAND: if(B){Z3_ast m[2]={b(e->a),b(e->b)}; r=Z3_mk_and(c,2,m);} else r=bin(Z3_mk_bvand); break;
     case KOR: if(B){Z3_ast m[2]={b(e->a),b(e->b)}; r=Z3_mk_or(c,2,m);} else r=bin(Z3_mk_bvor); break;
     case KXOR: if(B){ if(e->b==gTrue) r=Z3_mk_not(c,b(e->a)); else r=Z3_mk_xor(c,b(e->a),b(e->b)); } else r=bin(Z3_mk_bvxor); break;
     case KEQ: r=bin(Z3_mk_eq);break; case KULT:r=bin(Z3_mk_bvult);break; case KULE:r=bin(Z3_mk_bvule);break; case KSLT:r=bin(Z3_mk_bvslt);break; case KSLE:r=bin(Z3_mk_bvsle);break;
     case KZEXT:r=Z3_mk_zero_ext(c,e->w-e->a->w,b(e->a));break; case KSEXT:r=Z3_mk_sign_ext(c,e->w-e->a->w,b(e->a));break; case KTRUNC:r=Z3_mk_extract(c,e->w-1,0,b(e->a));break;
     case KITE:r=Z3_mk_ite(c,b(e->a),b(e->b),b(e->c));break;
     case KNLE: case KNLT: case KNEQ:{ bool real=!e->a->isInt; Z3_ast k=real?rlit(*e->r):(e->r->isInt()?ilit(e->r->n,false):nullptr); if(!k){real=true;k=rlit(*e->r);} Z3_ast p=poly(e->a,real); r=e->k==KNLE?Z3_mk_le(c,p,k):e->k==KNLT?Z3_mk_lt(c,p,k):Z3_mk_eq(c,p,k); break; }
     case KFP2SI: case KFP2UI:{ Z3_ast p; if(e->a->isInt) p=poly(e->a,false); else { Z3_ast x=poly(e->a,true); Z3_ast z=ilit(0,true); p=Z3_mk_ite(c,Z3_mk_ge(c,x,z),Z3_mk_real2int(c,x),Z3_mk_unary_minus(c,Z3_mk_real2int(c,Z3_mk_unary_minus(c,x)))); } r=Z3_mk_int2bv(c,e->w,p); break; }
     default: throw EngineLimit("untranslatable expression kind "+std::to_string(e->k)); }
    Z3_inc_ref(c,r); tr[e]=r; return r; }
  std::unordered_set<E> varsSeen;
  void assertE(E e){ side.clear(); 
    if(e->k==KVAR||e->k==KNVAR){ // bounds entry
      const VarInfo&v=gVars[e->cv]; if(v.isNum){ Z3_ast x=atom(e,false); Z3_solver_assert(c,s,Z3_mk_ge(c,x,ilit(v.lo,false))); Z3_solver_assert(c,s,Z3_mk_le(c,x,ilit(v.hi,false))); }
      else if(v.w>1){ Z3_ast x=b(e); Z3_sort st=Z3_mk_bv_sort(c,v.w); if((uint64_t)v.lo!=0) Z3_solver_assert(c,s,Z3_mk_bvuge(c,x,Z3_mk_unsigned_int64(c,v.lo,st))); if((uint64_t)v.hi!=msk(v.w)) Z3_solver_assert(c,s,Z3_mk_bvule(c,x,Z3_mk_unsigned_int64(c,v.hi,st))); }
      return; }
    Z3_ast a=b(e); addSides(e); Z3_solver_assert(c,s,a); }
  // side constraints must be asserted whenever an atom appears; collect recursively (only when hasReal atoms exist)
  std::unordered_map<E,std::vector<Z3_ast>> sides; // atom -> constraints
  void collect(E e,std::unordered_set<E>&seen,std::vector<E>&out){ if(!e||!seen.insert(e).second) return; if(e->k==KNDIV||e->k==KNUF) out.push_back(e); collect(e->a,seen,out);collect(e->b,seen,out);collect(e->c,seen,out); if(e->p) for(auto&t:e->p->t) collect(t.m,seen,out); if(e->args) for(E x:*e->args) collect(x,seen,out); }
  bool anyReal=false;
  void addSides(E e){ if(!anyReal) return; std::unordered_set<E> seen; std::vector<E> at; collect(e,seen,at); for(E a:at){ auto it=sides.find(a); if(it==sides.end()){ std::vector<Z3_ast> v; side.clear(); // build explicitly
          Z3_ast r=atom(a,true); if(a->k==KNDIV){ Z3_ast m[2]={r,poly(a->b,true)}; v.push_back(Z3_mk_eq(c,Z3_mk_mul(c,2,m),poly(a->a,true))); }
          else { if(a->cv==UF_SQRT){ Z3_ast m[2]={r,r}; Z3_ast arg=poly(a->a,true); v.push_back(Z3_mk_implies(c,Z3_mk_ge(c,arg,ilit(0,true)),Z3_mk_eq(c,Z3_mk_mul(c,2,m),arg))); v.push_back(Z3_mk_ge(c,r,ilit(0,true))); } if(a->cv==UF_EXP) v.push_back(Z3_mk_gt(c,r,ilit(0,true))); }
          for(auto x:v) Z3_inc_ref(c,x); it=sides.emplace(a,v).first; }
        for(auto x:it->second) Z3_solver_assert(c,s,x); } }
  void sync(const std::vector<E>& pc){ size_t n=0; while(n<stack.size()&&n<pc.size()&&stack[n]==pc[n]) n++;
    if(n<stack.size()){ Z3_solver_pop(c,s,stack.size()-n); stack.resize(n); }
    for(size_t i=n;i<pc.size();++i){ Z3_solver_push(c,s); stack.push_back(pc[i]); assertE(pc[i]); } }
  // 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<E>& pc,E extra,ModelP* out){
    double t0=nowS(); int res; 
    sync(pc); if(extra){ Z3_solver_push(c,s); assertE(extra); }
    Z3_lbool r=Z3_solver_check(c,s); queries++;
    if(r==Z3_L_TRUE){ sat++; res=1; if(out){ Z3_model m=Z3_solver_get_model(c,s); Z3_model_inc_ref(c,m); auto M=std::make_shared<Model>(); M->v.resize(gVars.size());
        for(size_t i=0;i<gVars.size();++i){ M->v[i]=gVars[i].lo; E e=gVars[i].e; auto it=tr.find(e); if(it==tr.end()) continue; Z3_ast val; if(!Z3_model_eval(c,m,it->second,true,&val)) continue; 
          if(!gVars[i].isNum&&gVars[i].w==1){ M->v[i]=Z3_get_bool_value(c,val)==Z3_L_TRUE; continue; }
          Z3_string st=Z3_get_numeral_string(c,val); if(gVars[i].isNum) M->v[i]=strtoll(st,0,10); else M->v[i]=(int64_t)strtoull(st,0,10);
          if(gVars[i].isNum){ if(M->v[i]<gVars[i].lo||M->v[i]>gVars[i].hi) M->v[i]=gVars[i].lo; } else { if((uint64_t)M->v[i]<(uint64_t)gVars[i].lo||(uint64_t)M->v[i]>(uint64_t)gVars[i].hi) M->v[i]=gVars[i].lo; } }
        Z3_model_dec_ref(c,m); *out=M; } }
    else if(r==Z3_L_FALSE){ unsat++; res=0; } else { unknown++; res=-1; }
    if(extra) Z3_solver_pop(c,s,1);
    time+=nowS()-t0; return res; }
};
