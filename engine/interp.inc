  // ---------------- calls / unwinding ----------------
  typedef std::function<void(Engine&,vector<Val>&,Val&,Inst*)> BI;
  std::unordered_map<string,int> biIdx; vector<BI> bis; vector<string> biNames;
  void reg(const string&n,BI f){ biIdx[n]=bis.size(); bis.push_back(f); biNames.push_back(n); }
  void pushFrame(FuncInfo*f,vector<Val>&args,int retDst,bool inv,uint32_t nb,uint32_t ub){
    if(!f->decoded) decode(f); if(S->st.size()>2000) pathError("stack","stack overflow (recursion deeper than 2000 frames)"); f->calls++;
    S->st.emplace_back(); Frame&F=S->st.back(); F.f=f;F.ip=f->code.empty()?0:f->bbStart[0]; F.r.resize(f->nregs,Val{0,nullptr}); F.retDst=retDst;F.isInvoke=inv;F.invNormal=nb;F.invUnwind=ub; size_t k=0,ai=0; for(auto&a:f->F->args()){ unsigned n=std::max(1u,flatCount(a.getType())); for(unsigned i=0;i<n&&k<args.size();i++) F.r[f->argSlot[ai]+i]=args[k++]; if(a.hasByValAttr()){ uint64_t sz=DL->getTypeAllocSize(a.getParamByValType()); uint64_t id=S->alloc(sz,2,true); copyMem(addrOf(id),F.r[f->argSlot[ai]].b,sz); F.r[f->argSlot[ai]]={addrOf(id),nullptr}; F.allocas.push_back(id);} ai++; }
    for(;k<args.size();k++) F.va.push_back(args[k]); }
  void popFrame(){ Frame&F=S->st.back(); for(auto id:F.allocas){ S->freeId(id); } S->st.pop_back(); }
  std::map<uint64_t,int> tids;
  int typeId(uint64_t ti){ auto it=tids.find(ti); if(it!=tids.end()) return it->second; int n=tids.size()+1; tids[ti]=n; return n; }
  uint64_t gAddrByName(const char*n){ auto*g=M->getNamedValue(n); if(!g) return 0; auto it=gaddr.find(g); return it==gaddr.end()?0:it->second; }
  uint64_t vtSI=0,vtVMI=0;
  bool tiMatch(uint64_t ti,uint64_t want,int depth=0){ if(ti==want) return true; if(!ti||depth>20) return false; uint64_t id=ti>>32; Obj*o=S->get(id); if(!o||o->size<16) return false; uint64_t vt=loadV(ti,64,0).b; 
    if(vtSI&&vt==vtSI+16) return tiMatch(loadV(ti+16,64,0).b,want,depth+1);
    if(vtVMI&&vt==vtVMI+16){ uint64_t n=loadV(ti+20,32,0).b; for(uint64_t i=0;i<n;i++) if(tiMatch(loadV(ti+24+16*i,64,0).b,want,depth+1)) return true; }
    return false; }
  string tiName(uint64_t ti){ for(auto&kv:gaddr) if(kv.second==ti) return demangle(kv.first->getName().str()); return "?"; }
  int lpMatch(const LandingPadInst*lp,uint64_t ti){ for(unsigned i=0;i<lp->getNumClauses();++i){ if(lp->isCatch(i)){ auto*c=lp->getClause(i); if(isa<ConstantPointerNull>(c)) return typeId(0); uint64_t want=scalarConst(c).b; if(tiMatch(ti,want)) return typeId(want); } } return lp->isCleanup()?0:-1; }
  string excWhat(){ try{ string n=tiName(S->inflight.ti); uint64_t obj=S->inflight.obj; // runtime_error layout: vptr, COW/our string pointer
      string w; if(S->get(obj>>32)&&S->get(obj>>32)->size>=16){ uint64_t p=loadV(obj+8,64,0).b; if(p&&S->get(p>>32)) w=readStr(p); } return n+" "+w; } catch(PathEnd&){ return "?"; } }
  void unwind(){ 
    for(;;){ if(S->st.size()<=1){ string w=excWhat(); if(failUncaught) pathError("exception","uncaught exception: "+w); throw PathEnd{1,"uncaught"}; }
      Frame&F=S->st.back(); bool inv=F.isInvoke; uint32_t ub=F.invUnwind; 
      if(inv){ Frame&P=S->st[S->st.size()-2]; const BasicBlock*pb=P.f->code[P.ip-1].I->getParent(); const Instruction&I0=*P.f->code[P.f->bbStart[ub]].I; auto*lp=dyn_cast<LandingPadInst>(&I0); int m=lp?lpMatch(lp,S->inflight.ti):-1; 
        if(m>=0){ popFrame(); Frame&Q=S->st.back(); gotoBB(Q,Q.f->bbIdx[pb],ub); return; } }
      else { // function attribute nounwind frames: ignore
      }
      popFrame(); } }
  // throw from builtin called by current instruction: the current frame's own invoke must be considered
  void throwHere(Inst*d){ Frame&F=S->st.back(); if(d&&d->op==Instruction::Invoke){ const Instruction&I0=*F.f->code[F.f->bbStart[d->bb1]].I; auto*lp=dyn_cast<LandingPadInst>(&I0); int m=lp?lpMatch(lp,S->inflight.ti):-1; if(m>=0){ gotoBB(F,F.f->bbIdx[d->I->getParent()],d->bb1); return; } } unwind(); }
  bool ctlTransferred=false;

  int inputVar(const string&nm,int kind,int64_t lo,int64_t hi,int64_t den){ // stable variable per (position,name,range)
    string key=std::to_string(S->inputs.size())+"|"+nm+"|"+std::to_string(kind)+"|"+std::to_string(lo)+"|"+std::to_string(hi); auto it=varKeys.find(key); int v; if(it!=varKeys.end()) v=it->second; else { E e; if(kind==2) e=mkNVar(nm,lo,hi); else e=mkVar(nm,64,(uint64_t)lo,(uint64_t)hi); v=gVars.size()-1; (void)e; varKeys[key]=v; }
    S->inputs.push_back({v,kind,den,nm,0}); S->pc.push_back(gVars[v].e); ensureModel(); if((size_t)v<S->model->v.size()){ int64_t x=S->model->v[v]; bool ok=kind==2?(x>=lo&&x<=hi):((uint64_t)x>=(uint64_t)lo&&(uint64_t)x<=(uint64_t)hi); if(!ok){ auto m=std::make_shared<Model>(*S->model); m->v[v]=lo; S->model=m; } }
    return v; }
  std::map<string,int> varKeys;
  void doAssert(E c,const string&msg){ asserts++; S->asserts++; int q=quick(c); if(q==1){ assertsTrivial++; return; }
    if(q==0){ pathError("assert",msg); }
    if(keyExhausted("assert",msg)){ S->model.reset(); addPC(c); return; }
    ensureModel(); assertQ++; Evaluator ev(S->model.get()); bool holds=ev.ev(c); ModelP m; int r;
    if(!holds&&ev.exact){ m=S->model; r=1; } else r=sol.check(S->pc,mkNot(c),&m);
    if(r==1){ addFinding("assert",msg,*m); ModelP m2; int r2=sol.check(S->pc,c,&m2); if(r2!=1) throw PathEnd{3,"assert"}; S->model=m2; addPC(c); }
    else if(r<0){ incReasons["solver unknown on assertion: "+msg]++; if(!ev.exact||!holds) S->model.reset(); addPC(c); }
    else { learn(c,true); } }
  E condOf(const Val&v,unsigned w){ if(!v.e) return v.b?gTrue:gFalse; if(v.e->k==KSHADOW) pathError("uninit","condition depends on uninitialised memory"); if(w==1) return v.e; return mkNot(mkBin(KEQ,v.e,mkConst(w,0))); }
  string fmt(const string&f,vector<Val>&a,size_t ai){ string out; for(size_t i=0;i<f.size();){ if(f[i]!='%'){out+=f[i++];continue;} size_t j=i+1; string spec="%"; while(j<f.size()&&!isalpha(f[j])&&f[j]!='%'){ if(f[j]=='*'){ spec+=std::to_string((int)(ai<a.size()?conc(a[ai],"fmt"):0)); ai++; } else spec+=f[j]; j++; } string len; while(j<f.size()&&strchr("hlzjtL",f[j])) len+=f[j++]; char cv=j<f.size()?f[j++]:'%'; i=j; if(cv=='%'){out+='%';continue;} if(ai>=a.size()) continue; Val v=a[ai++]; char buf[512];
        switch(cv){ case 'd':case 'i': { int64_t x=(int64_t)conc(v,"fmt"); if(len.empty()||len[0]=='h') x=(int32_t)x; snprintf(buf,512,(spec+"ld").c_str(),x); out+=buf; break; } case 'u':case 'x':case 'X':case 'o':{ uint64_t x=conc(v,"fmt"); if(len.empty()) x&=0xffffffff; snprintf(buf,512,(spec+"l"+cv).c_str(),x); out+=buf; break; } case 'c': out+=(char)conc(v,"fmt"); break; case 's': out+=readStr(conc(v,"fmt")); break; case 'p': snprintf(buf,512,"0x%lx",(unsigned long)conc(v,"fmt")); out+=buf; break;
          case 'f':case 'g':case 'e':case 'G':case 'F':case 'E': if(v.e) out+="?"; else { snprintf(buf,512,(spec+cv).c_str(),asD(v.b)); out+=buf; } break; default: break; } } return out; }
  Val heapAlloc(uint64_t n){ uint64_t id=S->alloc(n,1,true); return {addrOf(id),nullptr}; }
  void heapFree(uint64_t a){ if(!a) return; Obj*o=S->get(a>>32); if(!o||(a&0xffffffffULL)!=OBJOFF||o->kind!=1) pathError("memory",o?"invalid free":"double free"); S->freeId(a>>32); }

  void initBuiltins(){
    auto nop=[](Engine&,vector<Val>&,Val&r,Inst*){ r={0,nullptr}; };
    #define B(n) reg(n,[](Engine&e,vector<Val>&a,Val&r,Inst*d)
    B("sym_u64"){ string nm=e.readStr(a[0].b); uint64_t lo=e.conc(a[1],"bound"),hi=e.conc(a[2],"bound"); if(lo>hi) throw PathEnd{1,"empty range"}; int v=e.inputVar(nm,0,lo,hi,0); r=e.mk(gVars[v].e); if(lo==hi) r={lo,nullptr}; });
    B("sym_i64"){ string nm=e.readStr(a[0].b); int64_t lo=e.conc(a[1],"bound"),hi=e.conc(a[2],"bound"); if(lo>hi) throw PathEnd{1,"empty range"}; int v=e.inputVar(nm,1,0,hi-lo,lo); r=e.mk(mkBin(KADD,gVars[v].e,mkConst(64,(uint64_t)lo))); });
    B("sym_num"){ string nm=e.readStr(a[0].b); int64_t lo=e.conc(a[1],"bound"),hi=e.conc(a[2],"bound"),den=e.conc(a[3],"bound"); int v=e.inputVar(nm,2,lo,hi,den); r=e.mkNum(polyOfAtom(gVars[v].e,Rat(1,den)),1); });
    B("sym_choice"){ string nm=e.readStr(a[0].b); uint64_t n=e.conc(a[1],"bound"); if(!n) throw PathEnd{1,"empty choice"}; // re-execution after fork must reuse the same variable
        int v; if(!e.S->notes.empty()&&e.S->notes.back()=="choice"){ v=e.S->inputs.back().var; } else { v=e.inputVar(nm,0,0,n-1,0); e.S->notes.push_back("choice"); } uint64_t x=n==1?0:e.concretize(gVars[v].e,"choice"); e.S->notes.pop_back(); r={x,nullptr}; });
    B("sym_assume"){ E c=e.condOf(a[0],32); int q=e.quick(c); if(q==1) return; if(q==0) throw PathEnd{1,"assume"}; e.ensureModel(); Evaluator ev(e.S->model.get()); bool h=ev.ev(c); if(!h||!ev.exact){ ModelP m; int rr=e.sol.check(e.S->pc,c,&m); if(rr==0) throw PathEnd{1,"assume"}; if(rr<0) throw PathEnd{2,"solver unknown in assume"}; e.S->model=m; } e.addPC(c); });
    B("sym_assert_"){ E c=e.condOf(a[0],32); e.doAssert(c,e.readStr(a[1].b)); });
    B("sym_fail_"){ e.doAssert(gFalse,e.readStr(a[0].b)); });
    B("sym_ite_d"){ E c=e.condOf(a[0],32); if(c==gTrue){r=a[1];return;} if(c==gFalse){r=a[2];return;} int q=e.quick(c); if(q>=0){r=q?a[1]:a[2];return;} r=e.mkNum(numIte(c,e.num(a[1],1),e.num(a[2],1)),1); });
    B("sym_ite_u"){ E c=e.condOf(a[0],32); r=e.mk(mkIte(c,e.ex(a[1],64),e.ex(a[2],64))); });
    B("sym_obs_d"){ e.S->obs.push_back({true,a[0]}); });
    B("sym_obs_u"){ e.S->obs.push_back({false,a[0]}); });
    B("sym_param"){ string nm=e.readStr(a[0].b); auto it=e.params.find(nm); r=it==e.params.end()?a[1]:Val{(uint64_t)it->second,nullptr}; });
    B("sym_reach"){ e.S->reached.push_back(e.readStr(a[0].b)); });
    B("sym_stop"){ throw PathEnd{0,"stop"}; });
    B("sym_discard"){ throw PathEnd{1,"discard"}; });
    B("sym_is_symbolic_run"){ r={1,nullptr}; });
    B("sym_select_merge"){ e.S->selIte=e.conc(a[0],"flag")!=0; });
    B("sym_concretize_u"){ r={e.conc(a[0],"sym_concretize"),nullptr}; });
    for(auto n:{"malloc","_Znwm","_Znam"}) B(n){ r=e.heapAlloc(e.conc(a[0],"allocation size")); });
    for(auto n:{"_ZnwmSt11align_val_t","_ZnamSt11align_val_t","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t"}) B(n){ r=e.heapAlloc(e.conc(a[0],"allocation size")); });
    B("aligned_alloc"){ r=e.heapAlloc(e.conc(a[1],"allocation size")); });
    B("posix_memalign"){ Val v=e.heapAlloc(e.conc(a[2],"allocation size")); e.storeV(a[0].b,v,64,0); r={0,nullptr}; });
    B("calloc"){ uint64_t n=e.conc(a[0],"n")*e.conc(a[1],"n"); uint64_t id=e.S->alloc(n,1,false); r={addrOf(id),nullptr}; });
    B("realloc"){ uint64_t p=e.conc(a[0],"ptr"),n=e.conc(a[1],"size"); r=e.heapAlloc(n); if(p){ Obj*o=e.S->get(p>>32); if(!o) e.pathError("memory","realloc of freed"); e.copyMem(r.b,p,std::min<uint64_t>(n,o->size)); e.heapFree(p);} });
    for(auto n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t","_ZdlPvRKSt9nothrow_t"}) B(n){ e.heapFree(e.conc(a[0],"free pointer")); });
    for(auto n:{"memcpy","memmove"}) B(n){ uint64_t dd=e.conc(a[0],"ptr"),s=e.conc(a[1],"ptr"),k=e.conc(a[2],"len"); e.copyMem(dd,s,k); r={dd,nullptr}; });
    B("memset"){ uint64_t p=e.conc(a[0],"ptr"),k=e.conc(a[2],"len"); e.doMemset(p,a[1],k); r={p,nullptr}; });
    for(auto n:{"memcmp","bcmp"}) B(n){ uint64_t p=e.conc(a[0],"ptr"),q=e.conc(a[1],"ptr"),k=e.conc(a[2],"len"); r={0,nullptr}; for(uint64_t i=0;i<k;i++){ uint64_t x=e.conc(e.loadV(p+i,8,0),"memcmp"),y=e.conc(e.loadV(q+i,8,0),"memcmp"); if(x!=y){ r={x<y?0xffffffffULL:1,nullptr}; return; } } });
    B("strlen"){ r={e.readStr(e.conc(a[0],"ptr")).size(),nullptr}; });
    B("strcmp"){ int c=e.readStr(e.conc(a[0],"p")).compare(e.readStr(e.conc(a[1],"p"))); r={(uint64_t)(uint32_t)(c<0?-1:c>0),nullptr}; });
    B("strncmp"){ string x=e.readStr(e.conc(a[0],"p")),y=e.readStr(e.conc(a[1],"p")); uint64_t k=e.conc(a[2],"n"); int c=x.substr(0,k).compare(y.substr(0,k)); r={(uint64_t)(uint32_t)(c<0?-1:c>0),nullptr}; });
    B("memchr"){ uint64_t p=e.conc(a[0],"p"),c=e.conc(a[1],"c")&255,k=e.conc(a[2],"n"); r={0,nullptr}; for(uint64_t i=0;i<k;i++) if(e.conc(e.loadV(p+i,8,0),"memchr")==c){ r={p+i,nullptr}; return; } });
    B("strchr"){ uint64_t p=e.conc(a[0],"p"); string s=e.readStr(p); size_t k=s.find((char)e.conc(a[1],"c")); r={k==string::npos?0:p+k,nullptr}; });
    B("atoi"){ r={(uint64_t)(uint32_t)atoi(e.readStr(e.conc(a[0],"p")).c_str()),nullptr}; });
    B("strtol"){ uint64_t p=e.conc(a[0],"p"); string s=e.readStr(p); char*en; long v=strtol(s.c_str(),&en,(int)e.conc(a[2],"b")); uint64_t q=e.conc(a[1],"p"); if(q) e.storeV(q,{p+(en-s.c_str()),nullptr},64,0); r={(uint64_t)v,nullptr}; });
    e_alias("strtoul","strtol"); e_alias("strtoll","strtol"); e_alias("__isoc23_strtol","strtol"); e_alias("__isoc23_strtoul","strtol"); e_alias("__isoc23_strtoull","strtol"); e_alias("__isoc23_strtoll","strtol");
    B("strtod"){ uint64_t p=e.conc(a[0],"p"); string s=e.readStr(p); char*en; double v=strtod(s.c_str(),&en); uint64_t q=e.conc(a[1],"p"); if(q) e.storeV(q,{p+(en-s.c_str()),nullptr},64,0); r={fromD(v),nullptr}; });
    for(auto n:{"abort","_ZSt9terminatev","__cxa_pure_virtual","__cxa_bad_cast","_ZSt10unexpectedv"}) { string nn=n; reg(n,[nn](Engine&e,vector<Val>&,Val&,Inst*){ e.pathError("abort",nn+" called"); }); }
    B("__assert_fail"){ e.pathError("abort","assert failed: "+e.readStr(a[0].b)); });
    for(auto n:{"exit","_exit","quick_exit"}) B(n){ e.pathError("abort","exit called"); });
    for(auto n:{"__cxa_atexit","atexit","__cxa_thread_atexit","puts","putchar","fflush","printf","fprintf","fputs","fputc","fwrite","vfprintf","vprintf","putc","perror","setvbuf","__cxa_free_exception","feclearexcept","sched_yield","usleep","nanosleep"}) reg(n,nop);
    B("__cxa_allocate_exception"){ uint64_t id=e.S->alloc(e.conc(a[0],"size"),3,true); r={addrOf(id),nullptr}; });
    B("__cxa_throw"){ e.S->inflight={a[0].b,a[1].b}; e.S->excTi[a[0].b]=a[1].b; e.throwHere(d); e.ctlTransferred=true; });
    B("__cxa_begin_catch"){ uint64_t o=a[0].b; e.S->caught.push_back({o,e.S->excTi[o]}); r={o,nullptr}; });
    B("__cxa_get_exception_ptr"){ r=a[0]; });
    B("__cxa_end_catch"){ if(!e.S->caught.empty()) e.S->caught.pop_back(); });
    B("__cxa_rethrow"){ if(e.S->caught.empty()) e.pathError("abort","rethrow without exception"); e.S->inflight=e.S->caught.back(); e.throwHere(d); e.ctlTransferred=true; });
    B("__clang_call_terminate"){ e.pathError("abort","std::terminate (exception escaped noexcept)"); });
    B("__cxa_guard_acquire"){ uint64_t v=e.loadV(a[0].b,8,0).b; r={v?0ull:1ull,nullptr}; });
    B("__cxa_guard_release"){ e.storeV(a[0].b,{1,nullptr},8,0); });
    reg("__cxa_guard_abort",nop);
    B("__dynamic_cast"){ uint64_t p=a[0].b; if(!p){r={0,nullptr};return;} uint64_t vt=e.loadV(p,64,0).b; uint64_t ti=e.loadV(vt-8,64,0).b; int64_t off=(int64_t)e.loadV(vt-16,64,0).b; r={e.tiMatch(ti,a[2].b)?p+off:0,nullptr}; });
    B("__cxa_bad_typeid"){ e.pathError("abort","bad typeid"); });
    B("rand"){ e.S->rng=e.S->rng*6364136223846793005ULL+1442695040888963407ULL; r={(e.S->rng>>33)&0x7fffffff,nullptr}; });
    B("srand"){ e.S->rng=e.conc(a[0],"seed")*2+1; });
    B("random"){ e.S->rng=e.S->rng*6364136223846793005ULL+1442695040888963407ULL; r={(e.S->rng>>33)&0x7fffffff,nullptr}; });
    B("time"){ r={1000000000+e.S->clk++/1000000,nullptr}; if(a[0].b) e.storeV(a[0].b,r,64,0); });
    B("clock"){ r={e.S->clk++,nullptr}; });
    for(auto n:{"clock_gettime","clock_getres"}) B(n){ e.S->clk++; e.storeV(a[1].b,{1000+e.S->clk/1000000,nullptr},64,0); e.storeV(a[1].b+8,{(e.S->clk%1000000)*1000,nullptr},64,0); r={0,nullptr}; });
    B("gettimeofday"){ e.S->clk++; e.storeV(a[0].b,{1000+e.S->clk/1000000,nullptr},64,0); e.storeV(a[0].b+8,{e.S->clk%1000000,nullptr},64,0); r={0,nullptr}; });
    B("_ZNSt6chrono3_V212system_clock3nowEv"){ e.S->clk++; r={e.S->clk*1000,nullptr}; });
    e_alias("_ZNSt6chrono3_V212steady_clock3nowEv","_ZNSt6chrono3_V212system_clock3nowEv");
    B("getrusage"){ uint64_t p=a[1].b; for(int i=0;i<18;i++) e.storeV(p+8*i,{0,nullptr},64,0); r={0,nullptr}; });
    B("getpid"){ r={1234,nullptr}; });
    B("getenv"){ r={0,nullptr}; });
    B("snprintf"){ uint64_t p=e.conc(a[0],"p"),n=e.conc(a[1],"n"); string s=e.fmt(e.readStr(e.conc(a[2],"p")),a,3); if(n){ size_t k=std::min<size_t>(s.size(),n-1); e.writeBytes(p,s.data(),k); e.storeV(p+k,{0,nullptr},8,0);} r={s.size(),nullptr}; });
    B("sprintf"){ uint64_t p=e.conc(a[0],"p"); string s=e.fmt(e.readStr(e.conc(a[1],"p")),a,2); e.writeBytes(p,s.c_str(),s.size()+1); r={s.size(),nullptr}; });
    B("sym_dbl_to_str"){ uint64_t p=a[0].b; char buf[64]; if(a[1].e) strcpy(buf,"?"); else snprintf(buf,64,"%.*g",(int)a[2].b,asD(a[1].b)); e.writeBytes(p,buf,strlen(buf)+1); r={strlen(buf),nullptr}; });
    // math
    for(auto n:{"sqrt","sqrtf"}) { uint8_t f=string(n)=="sqrt"?1:2; reg(n,[f](Engine&e,vector<Val>&a,Val&r,Inst*){ r=e.ufcall(UF_SQRT,"sqrt",a[0],nullptr,f); }); }
    for(auto n:{"exp","expf"}) { uint8_t f=string(n)=="exp"?1:2; reg(n,[f](Engine&e,vector<Val>&a,Val&r,Inst*){ r=e.ufcall(UF_EXP,"exp",a[0],nullptr,f); }); }
    for(auto n:{"log","logf"}) { uint8_t f=string(n)=="log"?1:2; reg(n,[f](Engine&e,vector<Val>&a,Val&r,Inst*){ r=e.ufcall(UF_LOG,"log",a[0],nullptr,f); }); }
    for(auto n:{"sin","cos"}) { int fn=string(n)=="sin"?UF_SIN:UF_COS; reg(n,[fn](Engine&e,vector<Val>&a,Val&r,Inst*){ r=e.ufcall(fn,"trig",a[0],nullptr,1); }); }
    for(auto n:{"pow","powf"}) { uint8_t f=string(n)=="pow"?1:2; reg(n,[f](Engine&e,vector<Val>&a,Val&r,Inst*){ r=e.ufcall(UF_POW,"pow",a[0],&a[1],f); }); }
    #define CM(n,expr) reg(n,[](Engine&e,vector<Val>&a,Val&r,Inst*){ if(a[0].e) throw PathEnd{2,string("symbolic ")+n}; double x=asD(a[0].b); r={fromD(expr),nullptr}; })
    CM("log2",log2(x)); CM("log10",log10(x)); CM("tan",tan(x)); CM("atan",atan(x)); CM("acos",acos(x)); CM("asin",asin(x)); CM("log1p",log1p(x)); CM("expm1",expm1(x)); CM("exp2",exp2(x)); CM("lgamma",lgamma(x)); CM("cbrt",cbrt(x)); CM("tanh",tanh(x));
    B("atan2"){ if(a[0].e||a[1].e) throw PathEnd{2,"symbolic atan2"}; r={fromD(atan2(asD(a[0].b),asD(a[1].b))),nullptr}; });
    B("fmod"){ r=e.fbin(Instruction::FRem,a[0],a[1],1); });
    B("fabs"){ r=e.fabsV(a[0],1); }); B("fabsf"){ r=e.fabsV(a[0],2); });
    B("floor"){ r=e.roundV(a[0],0,1); }); B("ceil"){ r=e.roundV(a[0],1,1); }); B("round"){ r=e.roundV(a[0],2,1); }); B("trunc"){ r=e.roundV(a[0],3,1); });
    B("floorf"){ r=e.roundV(a[0],0,2); }); B("ceilf"){ r=e.roundV(a[0],1,2); });
    B("fmin"){ r=e.minmaxV(a[0],a[1],true,1); }); B("fmax"){ r=e.minmaxV(a[0],a[1],false,1); });
    B("__gxx_personality_v0"){ r={0,nullptr}; });
    B("_ZSt18uncaught_exceptionv"){ r={0,nullptr}; }); B("_ZSt19uncaught_exceptionsv"){ r={0,nullptr}; });
  }
  void e_alias(const char*n,const char*o){ biIdx[n]=biIdx[o]; }
  Val roundV(const Val&a,int m,uint8_t f){ if(isShadow(a)) return a; if(!a.e){ double x=bitsToD(a.b,f); x=m==0?floor(x):m==1?ceil(x):m==2?round(x):m==4?nearbyint(x):trunc(x); return {dToBits(x,f),nullptr}; } E p=num(a,f); if(p->isInt) return a;
    if(m==0) return mkNum(numFloor(p),f); if(m==1) return mkNum(numScale(numFloor(numScale(p,Rat(-1))),Rat(-1)),f); if(m==3){ return decide(numCmp0(KNLT,p))?roundV(a,1,f):roundV(a,0,f); }
    if(decide(numCmp0(KNLT,p))) return mkNum(numScale(numFloor(numAdd(numScale(p,Rat(-1)),numConst(Rat(1,2)))),Rat(-1)),f); return mkNum(numFloor(numAdd(p,numConst(Rat(1,2)))),f); }
  Val minmaxV(const Val&a,const Val&b,bool mn,uint8_t f){ if(!a.e&&std::isnan(bitsToD(a.b,f))) return b; if(!b.e&&std::isnan(bitsToD(b.b,f))) return a; Val c=fcmp(CmpInst::FCMP_OLT,a,b,f); bool less; if(!c.e) less=c.b; else if(isShadow(c)) return c; else if(S->selIte||!selForkNum) return mkNum(mn?numIte(c.e,num(a,f),num(b,f)):numIte(c.e,num(b,f),num(a,f)),f); else less=decide(c.e); return (less==mn)?a:b; }
  void doMemset(uint64_t p,const Val&v,uint64_t n){ if(!n) return; uint64_t off; resolve(p,n,true,off); Obj*o=S->getW(p>>32); clearCells(o,off,n); if(v.e&&!isShadow(v)&&!isC(v.e)){ E b=v.e->w>8?mkCast(KTRUNC,v.e,8):v.e; for(uint64_t i=0;i<n;i++) o->sym[off+i]={b,1}; if(!o->und.empty()) memset(&o->und[off],0,n); return; } memset(&o->data[off],(int)(v.b&255),n); if(isShadow(v)){ if(o->und.empty()) o->und.assign(o->size,0); memset(&o->und[off],255,n);} else if(!o->und.empty()) memset(&o->und[off],0,n); }

  // ---------------- intrinsics ----------------
  bool intrinsic(Frame&F,Inst&d,unsigned id,vector<Val>&a){ Val r={0,nullptr}; bool has=d.dst>=0; int base=d.dst; unsigned w=d.w;
    auto set=[&](Val v){ if(has) S->st.back().r[base]=v; };
    switch(id){
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::pseudoprobe: case Intrinsic::var_annotation: return true;
      case Intrinsic::invariant_start: case Intrinsic::stacksave: set({0,nullptr}); return true;
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::arithmetic_fence: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability: set(a[0]); return true;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{ uint64_t dd=conc(a[0],"pointer"),s=conc(a[1],"pointer"),n=conc(a[2],"length"); copyMem(dd,s,n); return true; }
      case Intrinsic::memset: case Intrinsic::memset_inline:{ doMemset(conc(a[0],"pointer"),a[1],conc(a[2],"length")); return true; }
      case Intrinsic::trap: pathError("abort","trap"); case Intrinsic::debugtrap: return true;
      case Intrinsic::is_constant: set({0,nullptr}); return true;
      case Intrinsic::objectsize: set({msk(w),nullptr}); return true;
      case Intrinsic::eh_typeid_for: set({(uint64_t)typeId(a[0].b),nullptr}); return true;
      case Intrinsic::fabs: set(fabsV(a[0],d.isF)); return true;
      case Intrinsic::sqrt: set(ufcall(UF_SQRT,"sqrt",a[0],nullptr,d.isF)); return true;
      case Intrinsic::exp: set(ufcall(UF_EXP,"exp",a[0],nullptr,d.isF)); return true;
      case Intrinsic::log: set(ufcall(UF_LOG,"log",a[0],nullptr,d.isF)); return true;
      case Intrinsic::pow: set(ufcall(UF_POW,"pow",a[0],&a[1],d.isF)); return true;
      case Intrinsic::powi:{ Val y={dToBits((double)(int32_t)conc(a[1],"exp"),d.isF),nullptr}; set(ufcall(UF_POW,"pow",a[0],&y,d.isF)); return true; }
      case Intrinsic::sin: set(ufcall(UF_SIN,"sin",a[0],nullptr,d.isF)); return true; case Intrinsic::cos: set(ufcall(UF_COS,"cos",a[0],nullptr,d.isF)); return true;
      case Intrinsic::log2: if(a[0].e) throw PathEnd{2,"symbolic log2"}; set({dToBits(log2(bitsToD(a[0].b,d.isF)),d.isF),nullptr}); return true;
      case Intrinsic::log10: if(a[0].e) throw PathEnd{2,"symbolic log10"}; set({dToBits(log10(bitsToD(a[0].b,d.isF)),d.isF),nullptr}); return true;
      case Intrinsic::exp2: { if(a[0].e) throw PathEnd{2,"symbolic exp2"}; set({dToBits(exp2(bitsToD(a[0].b,d.isF)),d.isF),nullptr}); return true; }
      case Intrinsic::ldexp: { Val y={dToBits(ldexp(1.0,(int32_t)conc(a[1],"ldexp")),d.isF),nullptr}; set(fbin(Instruction::FMul,a[0],y,d.isF)); return true; }
      case Intrinsic::floor: set(roundV(a[0],0,d.isF)); return true; case Intrinsic::ceil: set(roundV(a[0],1,d.isF)); return true; case Intrinsic::round: set(roundV(a[0],2,d.isF)); return true; case Intrinsic::trunc: set(roundV(a[0],3,d.isF)); return true;
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: if(a[0].e&&!num(a[0],d.isF)->isInt) throw PathEnd{2,"symbolic rint"}; set(a[0].e?a[0]:roundV(a[0],4,d.isF)); return true;
      case Intrinsic::minnum: case Intrinsic::minimum: set(minmaxV(a[0],a[1],true,d.isF)); return true; case Intrinsic::maxnum: case Intrinsic::maximum: set(minmaxV(a[0],a[1],false,d.isF)); return true;
      case Intrinsic::copysign:{ Val neg=fcmp(CmpInst::FCMP_OLT,a[1],{0,nullptr},d.isF); bool n=neg.e?decide(neg.e):(a[1].e?neg.b:(bool)std::signbit(bitsToD(a[1].b,d.isF))); Val m=fabsV(a[0],d.isF); set(n?fbin(Instruction::FMul,m,{dToBits(-1.0,d.isF),nullptr},d.isF):m); return true; }
      case Intrinsic::fma: case Intrinsic::fmuladd: set(fbin(Instruction::FAdd,fbin(Instruction::FMul,a[0],a[1],d.isF),a[2],d.isF)); return true;
      case Intrinsic::is_fpclass:{ uint64_t mask=a[1].b; if(a[0].e){ // finite symbolic
            E p=num(a[0],d.fsrc); bool all=(mask&0x1F8)==0x1F8; if((mask&0x1F8)==0){ set({0,nullptr}); return true; } if(all){ set({1,nullptr}); return true; } if(decide(numCmp0(KNEQ,p))) { set({(mask&0x60)?1ull:0ull,nullptr}); return true; } bool ng=decide(numCmp0(KNLT,p)); set({(mask&(ng?0x8:0x100))?1ull:0ull,nullptr}); return true; }
          double x=bitsToD(a[0].b,d.fsrc); uint64_t c=std::isnan(x)?0x3:std::isinf(x)?(x<0?0x4:0x200):x==0?(std::signbit(x)?0x20:0x40):fabs(x)<2.2250738585072014e-308?(x<0?0x10:0x80):(x<0?0x8:0x100); set({(mask&c)?1ull:0ull,nullptr}); return true; }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:{ unsigned p=id==Intrinsic::umin?CmpInst::ICMP_ULT:id==Intrinsic::umax?CmpInst::ICMP_UGT:id==Intrinsic::smin?CmpInst::ICMP_SLT:CmpInst::ICMP_SGT; Val c=icmp(p,a[0],a[1],w); if(isShadow(c)){set({0,mkShadow(w,0,~0ULL)});return true;} set(c.e?mk(mkIte(c.e,ex(a[0],w),ex(a[1],w))):(c.b?a[0]:a[1])); return true; }
      case Intrinsic::abs:{ Val c=icmp(CmpInst::ICMP_SLT,a[0],{0,nullptr},w); if(isShadow(c)){set({0,mkShadow(w,0,~0ULL)});return true;} Val n=ibin(Instruction::Sub,{0,nullptr},a[0],w); set(c.e?mk(mkIte(c.e,ex(n,w),ex(a[0],w))):(c.b?n:a[0])); return true; }
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:{
          unsigned ww=d.wsrc; if(a[0].e||a[1].e){ uint64_t x=conc(a[0],"overflow op"),y=conc(a[1],"overflow op"); a[0]={x,nullptr};a[1]={y,nullptr}; }
          uint64_t x=a[0].b,y=a[1].b,rr; bool o; i128 X=sx(x,ww),Y=sx(y,ww),Z; u128 UX=x,UY=y,UZ;
          switch(id){case Intrinsic::uadd_with_overflow:UZ=UX+UY;rr=(uint64_t)UZ;o=UZ>msk(ww);break;case Intrinsic::usub_with_overflow:rr=x-y;o=x<y;break;case Intrinsic::umul_with_overflow:UZ=UX*UY;rr=(uint64_t)UZ;o=UZ>msk(ww);break;case Intrinsic::sadd_with_overflow:Z=X+Y;rr=(uint64_t)Z;o=Z!=sx((uint64_t)Z,ww);break;case Intrinsic::ssub_with_overflow:Z=X-Y;rr=(uint64_t)Z;o=Z!=sx((uint64_t)Z,ww);break;default:Z=X*Y;rr=(uint64_t)Z;o=Z!=(i128)sx((uint64_t)Z,ww);break;}
          F.r[base]={rr&msk(ww),nullptr};F.r[base+1]={o,nullptr}; return true; }
      case Intrinsic::usub_sat:{ Val c=icmp(CmpInst::ICMP_UGE,a[0],a[1],w); Val s=ibin(Instruction::Sub,a[0],a[1],w); set(c.e?mk(mkIte(c.e,ex(s,w),mkConst(w,0))):(c.b?s:Val{0,nullptr})); return true; }
      case Intrinsic::uadd_sat:{ Val s=ibin(Instruction::Add,a[0],a[1],w); Val c=icmp(CmpInst::ICMP_ULT,s,a[0],w); set(c.e?mk(mkIte(c.e,mkConst(w,msk(w)),ex(s,w))):(c.b?Val{msk(w),nullptr}:s)); return true; }
      case Intrinsic::ctpop: set({(uint64_t)__builtin_popcountll(conc(a[0],"ctpop")),nullptr}); return true;
      case Intrinsic::ctlz:{ uint64_t x=conc(a[0],"ctlz"); set({x?(uint64_t)(__builtin_clzll(x)-(64-w)):w,nullptr}); return true; }
      case Intrinsic::cttz:{ uint64_t x=conc(a[0],"cttz"); set({x?(uint64_t)__builtin_ctzll(x):w,nullptr}); return true; }
      case Intrinsic::bswap:{ uint64_t x=conc(a[0],"bswap"); set({__builtin_bswap64(x)>>(64-w),nullptr}); return true; }
      case Intrinsic::fshl: case Intrinsic::fshr:{ uint64_t x=conc(a[0],"fsh"),y=conc(a[1],"fsh"),s=conc(a[2],"fsh")%w; uint64_t rr; if(id==Intrinsic::fshl) rr=s?(x<<s)|(y>>(w-s)):x; else rr=s?(y>>s)|(x<<(w-s)):y; set({rr&msk(w),nullptr}); return true; }
      case Intrinsic::bitreverse:{ uint64_t x=conc(a[0],"bitrev"),y=0; for(unsigned i=0;i<w;i++) if(x>>i&1) y|=1ULL<<(w-1-i); set({y,nullptr}); return true; }
      case Intrinsic::ptrmask: set({conc(a[0],"ptr")&conc(a[1],"mask"),nullptr}); return true;
      case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: throw PathEnd{2,"varargs"};
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: throw PathEnd{2,"vector reduce"};
      default: return false; } }

  // ---------------- main step ----------------
  Val castOp(unsigned op,const Val&v,unsigned ws,unsigned w,uint8_t fs,uint8_t fd){
    switch(op){
      case Instruction::Trunc: if(!v.e) return {v.b&msk(w),nullptr}; if(isC(v.e)) { if(w<=64) return {v.e->cv&msk(w),nullptr}; return v; } if(isShadow(v)){ uint64_t u=v.e->cv2&msk(w); return u?Val{0,mkShadow(w,v.e->cv,u)}:Val{v.e->cv&msk(w),nullptr}; } if(v.e->k==KFPBITS) throw PathEnd{2,"trunc of float bits"}; return mk(mkCast(KTRUNC,v.e,w));
      case Instruction::ZExt: if(!v.e){ if(w>64) return mkWide(v.b); return v; } if(w>64) return mkWide(conc(v,"zext128")); if(isShadow(v)) return {0,mkShadow(w,v.e->cv,v.e->cv2)}; if(v.e->k==KFPBITS) throw PathEnd{2,"zext of float bits"}; return mk(mkCast(KZEXT,v.e,w));
      case Instruction::SExt: if(!v.e){ if(w>64) return mkWide((u128)(i128)sx(v.b,ws)); return {(uint64_t)sx(v.b,ws)&msk(w),nullptr}; } if(isShadow(v)) return {0,mkShadow(w,v.e->cv,~0ULL)}; return mk(mkCast(KSEXT,v.e,w));
      case Instruction::PtrToInt: case Instruction::IntToPtr: if(!v.e) return {v.b&msk(w),nullptr}; if(ws==w) return v; return castOp(w<ws?Instruction::Trunc:Instruction::ZExt,v,ws,w,0,0);
      case Instruction::BitCast: if(fs&&!fd){ if(v.e&&v.e->k==KPOLY) return {0,mkFPBits(v.e,w)}; return v; } if(!fs&&fd){ if(v.e&&v.e->k==KFPBITS) return {0,v.e->a}; if(v.e&&!isShadow(v)&&!isC(v.e)) throw PathEnd{2,"bitcast symbolic int to float"}; return v; } return v;
      case Instruction::AddrSpaceCast: return v;
      case Instruction::UIToFP: case Instruction::SIToFP: if(!v.e){ double x= op==Instruction::UIToFP?(double)v.b:(double)sx(v.b,ws); if(fd==2){ float f=op==Instruction::UIToFP?(float)v.b:(float)sx(v.b,ws); return {dToBits(f,2),nullptr}; } return {dToBits(x,fd),nullptr}; } if(isShadow(v)) return {0,mkShadow(fd==2?32:64,0,~0ULL)}; if(isC(v.e)){ return {dToBits((double)(((u128)v.e->cv2<<64)|v.e->cv),fd),nullptr}; } { uint64_t k; if(tryConst(v.e,k)) return castOp(op,{k,nullptr},ws,w,fs,fd); if(op==Instruction::SIToFP&&v.e->k==KFP2SI&&v.e->a->isInt&&ws<=64&&v.e->a->nlo>=-ldexpl(1.0L,ws-1)&&v.e->a->nhi<ldexpl(1.0L,ws-1)) return mkNum(v.e->a,fd); return mkNum(numFromBV(v.e,op==Instruction::SIToFP),fd); }
      case Instruction::FPToSI: case Instruction::FPToUI: if(!v.e){ double x=bitsToD(v.b,fs); uint64_t r; if(op==Instruction::FPToSI) r=w==32&&!(x>-2147483649.0&&x<2147483648.0)?0x80000000u:(uint64_t)(int64_t)x; else r=x<0?(uint64_t)(int64_t)x:(uint64_t)x; return {r&msk(w),nullptr}; } if(isShadow(v)) return {0,mkShadow(w,0,~0ULL)}; { E p=num(v,fs); // small ranges: enumerate
          long double lo=truncl(p->nlo),hi=truncl(p->nhi); if(p->isInt&&hi-lo<=64){ E r=mkConst(w,(uint64_t)(int64_t)hi); for(int64_t k=(int64_t)hi-1;k>=(int64_t)lo;--k) r=mkIte(numCmp0(KNEQ,numSub(p,numConst(Rat((i128)k)))),mkConst(w,(uint64_t)k),r); return mk(r); }
          Expr x=blank(op==Instruction::FPToSI?KFP2SI:KFP2UI,w); x.a=p; if(lo>=0){x.ulo=(uint64_t)lo;x.uhi=hi<(long double)msk(w)?(uint64_t)hi:msk(w);} return mk(intern(x)); }
      case Instruction::FPExt: if(!v.e) return {dToBits(bitsToD(v.b,fs),fd),nullptr}; if(isShadow(v)) return {0,mkShadow(64,0,~0ULL)}; return v;
      case Instruction::FPTrunc: if(!v.e) return {dToBits(bitsToD(v.b,fs),fd),nullptr}; if(isShadow(v)) return {0,mkShadow(fd==2?32:64,0,~0ULL)}; return mkNum(num(v,fs),fd);
    } throw PathEnd{2,"cast"}; }

  void doCall(Frame&F,Inst&d){
    auto*cb=cast<CallBase>(d.I); FuncInfo*f=d.callee; if(d.builtin==-3){ // inline asm: only empty barriers are supported
      auto*ia=cast<InlineAsm>(cb->getCalledOperand()); if(!ia->getAsmString().empty()) throw PathEnd{2,"inline asm"}; F.ip++; return; }
    if(!f){ uint64_t t=conc(get(F,d.o[0]),"call target"); if(t<FNBASE||(t-FNBASE)/16>=fnByIdx.size()) pathError("memory","call through invalid function pointer"); f=fnByIdx[(t-FNBASE)/16]; }
    vector<Val> a; unsigned k=0; for(auto&arg:cb->args()){ unsigned n=flatCount(arg->getType()); if(arg->getType()->isMetadataTy()){k++;continue;} for(unsigned i=0;i<n;i++) a.push_back(lane(F,d.ops[k],i)); k++; }
    if(f->F->isIntrinsic()){ unsigned id=f->F->getIntrinsicID(); if(intrinsic(F,d,id,a)){ S->st.back().ip++; if(d.op==Instruction::Invoke){ Frame&G=S->st.back(); gotoBB(G,G.f->bbIdx[d.I->getParent()],d.bb0);} return; } throw PathEnd{2,"intrinsic "+f->name}; }
    if(f->builtin==-2){ auto it=biIdx.find(f->name); f->builtin=it==biIdx.end()?-1:it->second; }
    if(f->builtin>=0&&(f->decl||f->name=="__clang_call_terminate")){ Val r={0,nullptr}; ctlTransferred=false; bis[f->builtin](*this,a,r,&d); if(ctlTransferred) return; Frame&G=S->st.back(); if(d.dst>=0){ if(r.e==nullptr&&d.w<64&&!d.isF) r.b&=msk(d.w); G.r[d.dst]=r; } if(d.op==Instruction::Invoke) gotoBB(G,G.f->bbIdx[d.I->getParent()],d.bb0); else G.ip++; return; }
    if(f->decl){ externals.insert(f->name); throw PathEnd{2,"unsupported external "+demangle(f->name)}; }
    F.ip++; int rd=d.dst; bool inv=d.op==Instruction::Invoke; pushFrame(f,a,rd,inv,d.bb0,d.bb1); }

  void doRet(Inst&d){ Frame&F=S->st.back(); vector<Val> rv; if(d.nops>0){ unsigned n=flatCount(d.I->getOperand(0)->getType()); for(unsigned i=0;i<n;i++) rv.push_back(lane(F,d.o[0],i)); }
    int rd=F.retDst; bool inv=F.isInvoke; uint32_t nb=F.invNormal; popFrame(); if(S->st.empty()) throw PathEnd{0,"done"}; Frame&C=S->st.back(); if(rd>=0) for(size_t i=0;i<rv.size();i++) C.r[rd+i]=rv[i]; if(inv){ const BasicBlock*pb=C.f->code[C.ip-1].I->getParent(); gotoBB(C,C.f->bbIdx[pb],nb); } }

  void runPath(){ // executes S until PathEnd
    for(;;){
      Frame&F=S->st.back(); Inst&d=F.f->code[F.ip]; d.cov=true; insts++; if(++S->insts>instLimit){ pathError("nontermination","instruction limit exceeded on one path"); } if((insts&0xfffff)==0&&nowS()-t0>timeLimit) throw PathEnd{4,"time"};
      switch(d.op){
        case Instruction::Br:{ uint32_t from=F.f->bbIdx[d.I->getParent()]; if(!d.pred){ gotoBB(F,from,d.bb0); break; } Val&c=get(F,d.o[0]); bool t; if(!c.e) t=c.b&1; else { if(isShadow(c)){ if(checkUndef) pathError("uninit","branch depends on uninitialised memory"); t=0; } else t=decide(c.e); } gotoBB(S->st.back(),from,t?d.bb0:d.bb1); break; }
        case Instruction::Switch:{ uint32_t from=F.f->bbIdx[d.I->getParent()]; uint64_t v=conc(get(F,d.o[0]),"switch"); uint32_t to=d.bb0; for(auto&c:d.cases) if(c.first==v){to=c.second;break;} gotoBB(S->st.back(),from,to); break; }
        case Instruction::Ret: doRet(d); break;
        case Instruction::Unreachable: pathError("abort","unreachable executed");
        case Instruction::Call: case Instruction::Invoke: doCall(F,d); break;
        case Instruction::Resume:{ uint64_t o=lane(F,d.o[0],0).b; S->inflight={o,S->excTi[o]}; unwind(); break; }
        case Instruction::LandingPad:{ auto*lp=cast<LandingPadInst>(d.I); int m=lpMatch(lp,S->inflight.ti); F.r[d.dst]={S->inflight.obj,nullptr}; F.r[d.dst+1]={(uint64_t)(uint32_t)std::max(m,0),nullptr}; F.ip++; break; }
        case Instruction::Alloca:{ auto*ai=cast<AllocaInst>(d.I); uint64_t n=conc(get(F,d.o[0]),"alloca"); uint64_t id=S->alloc(n*DL->getTypeAllocSize(ai->getAllocatedType()),2,true); F.allocas.push_back(id); F.r[d.dst]={addrOf(id),nullptr}; F.ip++; break; }
        case Instruction::Load:{ Type*T=d.I->getType(); uint64_t a=conc(get(F,d.o[0]),"load address"); if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){ vector<std::pair<Type*,uint64_t>> fo; flatOffsets(T,0,fo); int i=0; for(auto&p:fo) F.r[d.dst+i++]=loadV(a+p.second,tw(p.first),isFP(p.first)); } else F.r[d.dst]=loadV(a,d.w,d.isF); F.ip++; break; }
        case Instruction::Store:{ Type*T=d.I->getOperand(0)->getType(); uint64_t a=conc(get(F,d.o[1]),"store address"); if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){ vector<std::pair<Type*,uint64_t>> fo; flatOffsets(T,0,fo); int i=0; for(auto&p:fo) storeV(a+p.second,lane(F,d.o[0],i++),tw(p.first),isFP(p.first)); } else storeV(a,get(F,d.o[0]),d.wsrc,d.fsrc); F.ip++; break; }
        case Instruction::GetElementPtr:{ Val b=get(F,d.o[0]); if(!b.e){ uint64_t r=b.b+d.off; bool sym=false; for(size_t i=0;i<d.gep.size();i++){ Val&x=get(F,d.gep[i].first); if(x.e){sym=true;break;} r+=sx(x.b,d.gepw[i])*d.gep[i].second; } if(!sym){ F.r[d.dst]={r,nullptr}; F.ip++; break; } }
          Val r=ibin(Instruction::Add,b,{(uint64_t)d.off,nullptr},64); for(size_t i=0;i<d.gep.size();i++){ Val x=get(F,d.gep[i].first); if(d.gepw[i]<64) x=castOp(Instruction::SExt,x,d.gepw[i],64,0,0); r=ibin(Instruction::Add,r,ibin(Instruction::Mul,x,{(uint64_t)d.gep[i].second,nullptr},64),64); } F.r[d.dst]=r; F.ip++; break; }
        case Instruction::ICmp: for(unsigned i=0;i<d.lanes;i++){ Val r=icmp(d.pred,lane(F,d.o[0],i),lane(F,d.o[1],i),d.wsrc); F.r[d.dst+i]=r; } F.ip++; break;
        case Instruction::FCmp: for(unsigned i=0;i<d.lanes;i++){ Val r=fcmp(d.pred,lane(F,d.o[0],i),lane(F,d.o[1],i),d.fsrc); F.r[d.dst+i]=r; } F.ip++; break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: for(unsigned i=0;i<d.lanes;i++){ Val r=fbin(d.op,lane(F,d.o[0],i),lane(F,d.o[1],i),d.isF); S->st.back().r[d.dst+i]=r; } S->st.back().ip++; break;
        case Instruction::FNeg:{ for(unsigned i=0;i<d.lanes;i++){ Val v=lane(F,d.o[0],i); if(!v.e) F.r[d.dst+i]={dToBits(-bitsToD(v.b,d.isF),d.isF),nullptr}; else if(isShadow(v)) F.r[d.dst+i]=v; else F.r[d.dst+i]=mkNum(numScale(num(v,d.isF),Rat(-1)),d.isF); } F.ip++; break; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
          for(unsigned i=0;i<d.lanes;i++){ Val r=ibin(d.op,lane(F,d.o[0],i),lane(F,d.o[1],i),d.w); S->st.back().r[d.dst+i]=r; } S->st.back().ip++; break;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
          for(unsigned i=0;i<d.lanes;i++){ Val r=castOp(d.op,lane(F,d.o[0],i),d.wsrc,d.w,d.fsrc,d.isF); S->st.back().r[d.dst+i]=r; } S->st.back().ip++; break;
        case Instruction::Freeze:{ unsigned n=std::max(1u,flatCount(d.I->getType())); for(unsigned i=0;i<n;i++){ Val v=lane(F,d.o[0],i); F.r[d.dst+i]=v; } F.ip++; break; }
        case Instruction::Select:{ unsigned n=std::max(1u,flatCount(d.I->getType())); bool vc=d.I->getOperand(0)->getType()->isVectorTy(); for(unsigned i=0;i<n;i++){ Val c=lane(F,d.o[0],vc?i:0); Val x=lane(F,d.o[1],i),y=lane(F,d.o[2],i); Val r; 
            if(!c.e) r=(c.b&1)?x:y; else if(isShadow(c)){ unsigned w=std::min(64u,std::max(1u,d.w)); if(!x.e&&!y.e&&x.b==y.b) r=x; else if(d.w==1&&!x.e&&!y.e) r={0,mkShadow(1,0,1)}; else r={0,mkShadow(w,0,~0ULL)}; }
            else { int q=quick(c.e); if(q>=0) r=q?x:y; else if(!x.e&&!y.e&&x.b==y.b) r=x; else if(x.e==y.e&&x.e&&x.b==y.b) r=x;
              else if(d.w==1&&!isShadow(x)&&!isShadow(y)) r=mk(mkIte(c.e,ex(x,1),ex(y,1)));
              else if((S->selIte||!selForkNum)&&!isShadow(x)&&!isShadow(y)&&!d.I->getType()->isPointerTy()){ if(d.isF){ bool fin=(x.e||std::isfinite(bitsToD(x.b,d.isF)))&&(y.e||std::isfinite(bitsToD(y.b,d.isF))); if(fin) r=mkNum(numIte(c.e,num(x,d.isF),num(y,d.isF)),d.isF); else r=decide(c.e)?x:y; } else if((x.e&&x.e->k==KFPBITS)||(y.e&&y.e->k==KFPBITS)) r=decide(c.e)?x:y; else r=mk(mkIte(c.e,ex(x,d.w),ex(y,d.w))); }
              else r=decide(c.e)?x:y; }
            S->st.back().r[d.dst+i]=r; } S->st.back().ip++; break; }
        case Instruction::ExtractValue:{ unsigned n=std::max(1u,flatCount(d.I->getType())); for(unsigned i=0;i<n;i++) F.r[d.dst+i]=lane(F,d.o[0],d.off+i); F.ip++; break; }
        case Instruction::InsertValue:{ unsigned n=flatCount(d.I->getType()),m=flatCount(d.I->getOperand(1)->getType()); for(unsigned i=0;i<n;i++) F.r[d.dst+i]=(i>=d.off&&i<d.off+m)?lane(F,d.o[1],i-d.off):lane(F,d.o[0],i); F.ip++; break; }
        case Instruction::ExtractElement:{ uint64_t i=conc(get(F,d.o[1]),"lane"); F.r[d.dst]=lane(F,d.o[0],i); F.ip++; break; }
        case Instruction::InsertElement:{ uint64_t ix=conc(get(F,d.o[2]),"lane"); for(unsigned i=0;i<d.lanes;i++) F.r[d.dst+i]=i==ix?get(F,d.o[1]):lane(F,d.o[0],i); F.ip++; break; }
        case Instruction::ShuffleVector:{ auto*sv=cast<ShuffleVectorInst>(d.I); unsigned n0=flatCount(sv->getOperand(0)->getType()); vector<Val> out; for(int m:sv->getShuffleMask()) out.push_back(m<0?Val{0,mkShadow(std::min(64u,d.w),0,~0ULL)}:(unsigned)m<n0?lane(F,d.o[0],m):lane(F,d.o[1],m-n0)); for(size_t i=0;i<out.size();i++) F.r[d.dst+i]=out[i]; F.ip++; break; }
        case Instruction::AtomicRMW:{ auto*rm=cast<AtomicRMWInst>(d.I); uint64_t a=conc(get(F,d.o[0]),"addr"); unsigned w=d.w; Val old=loadV(a,w,0); Val n=get(F,d.o[1]); switch(rm->getOperation()){case AtomicRMWInst::Add:n=ibin(Instruction::Add,old,n,w);break;case AtomicRMWInst::Sub:n=ibin(Instruction::Sub,old,n,w);break;case AtomicRMWInst::Xchg:break;case AtomicRMWInst::And:n=ibin(Instruction::And,old,n,w);break;case AtomicRMWInst::Or:n=ibin(Instruction::Or,old,n,w);break;default:throw PathEnd{2,"atomicrmw"};} storeV(a,n,w,0); F.r[d.dst]=old; F.ip++; break; }
        case Instruction::AtomicCmpXchg:{ uint64_t a=conc(get(F,d.o[0]),"addr"); unsigned w=tw(d.I->getOperand(1)->getType()); uint64_t old=conc(loadV(a,w,0),"cmpxchg"),ex1=conc(get(F,d.o[1]),"cmpxchg"); bool ok=old==ex1; if(ok) storeV(a,get(F,d.o[2]),w,0); F.r[d.dst]={old,nullptr};F.r[d.dst+1]={ok,nullptr}; F.ip++; break; }
        case Instruction::Fence: F.ip++; break;
        default: throw PathEnd{2,string("instruction ")+d.I->getOpcodeName()};
      } } }
