static string jesc(const string&s){ string o; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }
int main(int argc,char**argv){
  static Engine e; gTrue=mkConst(1,1); gFalse=mkConst(1,0); string entry="harness"; vector<string> mods; e.outFile=""; e.witDir="."; bool dumpInc=false;
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if(a=="--entry") entry=nx(); else if(a=="--time") e.timeLimit=atof(nx().c_str()); else if(a=="--paths") e.pathLimit=atoll(nx().c_str()); else if(a=="--insts") e.instLimit=atoll(nx().c_str());
    else if(a=="--out") e.outFile=nx(); else if(a=="--cex") e.cexDir=nx(); else if(a=="--wit") e.witDir=nx(); else if(a=="--maxwit") e.maxWit=atoi(nx().c_str()); else if(a=="--maxfind") e.maxFind=atoi(nx().c_str()); else if(a=="--select") e.selForkNum=nx()=="fork"; else if(a=="--search") e.randomSearch=nx()=="rand"; else if(a=="--seed") e.seed=atoll(nx().c_str());
    else if(a=="--qtimeout") e.sol.setTimeout(atoi(nx().c_str())); else if(a=="--no-undef") e.checkUndef=false; else if(a=="--no-uncaught") e.failUncaught=false; else if(a=="--verbose") dumpInc=true; else if(a=="--param"){ string p=nx(); size_t q=p.find('='); e.params[p.substr(0,q)]=atoll(p.substr(q+1).c_str()); } else mods.push_back(a); }
  SMDiagnostic err; for(auto&m:mods){ auto x=parseIRFile(m,err,e.C); if(!x){ err.print("gmsym",errs()); return 4; } if(!e.M) e.M=std::move(x); else if(Linker::linkModules(*e.M,std::move(x))) { fprintf(stderr,"link failed\n"); return 4; } }
  { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CGAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);PB.crossRegisterProxies(LAM,FAM,CGAM,MAM); FunctionPassManager FPM; ScalarizerPassOptions so; so.ScalarizeLoadStore=true; FPM.addPass(ScalarizerPass(so)); ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.run(*e.M,MAM); }
  e.DL=&e.M->getDataLayout(); e.rg.seed(e.seed); e.initBuiltins(); e.t0=nowS();
  State*s=new State; e.S=s; s->model=std::make_shared<Model>();
  string fatal; 
  try {
    for(auto&g:e.M->globals()){ uint64_t sz=g.getValueType()->isSized()?(uint64_t)e.DL->getTypeAllocSize(g.getValueType()):8; if(g.isDeclaration()) sz=std::max<uint64_t>(sz,256); uint64_t id=s->alloc(sz,0,false); e.gaddr[&g]=addrOf(id); }
    for(auto&f:*e.M) e.fnAddr(&f);
    for(auto&g:e.M->globals()) if(!g.isDeclaration()&&g.hasInitializer()){ const Constant*c=g.getInitializer(); if(c->isNullValue()) continue; vector<std::pair<Type*,uint64_t>> fo; vector<Val> vs; 
        if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ if(cd->getElementType()->isIntegerTy(8)){ auto b=cd->getRawDataValues(); Obj*o=s->getW(e.gaddr[&g]>>32); memcpy(o->data.data(),b.data(),b.size()); if(g.isConstant()) o->ro=true; continue; } }
        e.flatOffsets(c->getType(),0,fo); e.flatConst(c,vs); Obj*o=s->getW(e.gaddr[&g]>>32); for(size_t i=0;i<fo.size();i++){ unsigned w=e.tw(fo[i].first); if(vs[i].e) continue; memcpy(&o->data[fo[i].second],&vs[i].b,std::min(8u,(w+7)/8)); } if(g.isConstant()) o->ro=true; }
    e.vtSI=e.gAddrByName("_ZTVN10__cxxabiv120__si_class_type_infoE"); e.vtVMI=e.gAddrByName("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    // run global constructors, then entry: build a frame stack so that constructors run first
    vector<Function*> seq; if(auto*gc=e.M->getNamedGlobal("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())){ vector<std::pair<uint64_t,Function*>> v; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); if(auto*f=dyn_cast<Function>(cs->getOperand(1))) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),f}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:v) seq.push_back(p.second); }
    Function*ef=e.M->getFunction(entry); if(!ef||ef->isDeclaration()){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 4; }
    for(auto*f:seq){ vector<Val> no; s->st.clear(); e.pushFrame(e.getFI(f),no,-1,false,0,0); try{ e.runPath(); }catch(PathEnd&p){ if(p.kind!=0){ fprintf(stderr,"global ctor failed: %s\n",p.msg.c_str()); } } s->insts=0; }
    s->st.clear(); vector<Val> no; e.pushFrame(e.getFI(ef),no,-1,false,0,0);
  } catch(EngineLimit&l){ fatal=l.msg; } catch(PathEnd&p){ fatal=p.msg; }
  if(fatal.size()){ fprintf(stderr,"fatal: %s\n",fatal.c_str()); return 4; }
  e.pend.push_back(s); bool timedOut=false; uint64_t nextWit=1;
  while(!e.pend.empty()){
    if(nowS()-e.t0>e.timeLimit||e.paths+e.pathsInc+e.errPaths>=e.pathLimit){ timedOut=true; break; }
    if(e.randomSearch){ size_t k=e.rg()%e.pend.size(); auto it=e.pend.begin(); std::advance(it,k); e.S=*it; e.pend.erase(it); } else { e.S=e.pend.back(); e.pend.pop_back(); }
    try { for(;;) e.runPath(); }
    catch(PathEnd&p){
      if(p.kind==0){ e.paths++; for(auto&r:e.S->reached) e.reached[r]++;
        if((int)e.witnesses<e.maxWit&&e.paths>=nextWit){ nextWit=nextWit<4?nextWit+1:nextWit*2; try{ e.ensureModel(); Evaluator ev(e.S->model.get()); string exp; char b[64]; for(auto&o:e.S->obs){ if(o.isD){ double x=o.v.e?(e.isShadow(o.v)?0:(double)ev.nm(o.v.e->k==KFPBITS?o.v.e->a:o.v.e).ld()):Engine::asD(o.v.b); snprintf(b,64,"d %.17g",x); } else { uint64_t x=o.v.e?(e.isShadow(o.v)?0:ev.ev(o.v.e)):o.v.b; snprintf(b,64,"u %llu",(unsigned long long)x); } exp+=string(b)+"\n"; }
            if(ev.exact){ string fn=e.witDir+"/wit_"+std::to_string(e.witnesses)+".txt"; e.writeInputs(fn,e.inputsOf(*e.S,*e.S->model),string("witness inexact=")+(e.S->inexact?"1":"0")); std::ofstream x(fn+".exp"); x<<exp; e.witFiles.push_back(fn); e.witnesses++; } }catch(PathEnd&){}catch(EngineLimit&){} } }
      else if(p.kind==1) e.pathsSilent++; else if(p.kind==3) e.errPaths++; else if(p.kind==4){ timedOut=true; e.incReasons["time limit"]++; e.pathsInc++; } else { e.pathsInc++; e.incReasons[p.msg]++; if(dumpInc) fprintf(stderr,"incomplete: %s @ %s\n",p.msg.c_str(),e.locStr().c_str()); } }
    catch(EngineLimit&l){ e.pathsInc++; e.incReasons[l.msg]++; if(dumpInc) fprintf(stderr,"limit: %s @ %s\n",l.msg.c_str(),e.locStr().c_str()); }
    delete e.S; e.S=nullptr; if(timedOut&&nowS()-e.t0>e.timeLimit) break; }
  bool complete=!timedOut&&e.pend.empty()&&e.pathsInc==0&&e.unknownBranches==0; for(auto&kv:e.incReasons) if(kv.first.rfind("solver unknown",0)==0) complete=false;
  // coverage
  std::map<string,std::set<unsigned>> lines; std::set<string> funcs; for(auto&kv:e.fi){ FuncInfo*f=kv.second; if(!f->decoded) continue; for(auto&d:f->code) if(d.cov){ const DILocation*L=d.I->getDebugLoc().get(); while(L){ string fn=L->getFilename().str(); size_t p=fn.find("include/opengm/"); p=p==string::npos?fn.find("src/converter/"):p+15; if(p!=string::npos){ lines[fn.substr(p)].insert(L->getLine()); if(auto*sp=L->getScope()->getSubprogram()) funcs.insert(fn.substr(p)+": "+sp->getName().str()); } L=L->getInlinedAt(); } } }
  std::ostringstream o; o<<"{\n\"complete\":"<<(complete?"true":"false")<<",\n\"paths\":"<<e.paths<<",\"paths_discarded\":"<<e.pathsSilent<<",\"paths_incomplete\":"<<e.pathsInc<<",\"paths_error\":"<<e.errPaths<<",\"pending\":"<<e.pend.size()<<",\"forks\":"<<e.forks<<",\"instructions\":"<<e.insts<<",\n\"asserts\":"<<e.asserts<<",\"asserts_trivial\":"<<e.assertsTrivial<<",\"assert_queries\":"<<e.assertQ<<",\"queries\":"<<e.sol.queries<<",\"sat\":"<<e.sol.sat<<",\"unsat\":"<<e.sol.unsat<<",\"unknown\":"<<e.sol.unknown<<",\"solver_s\":"<<e.sol.time<<",\"wall_s\":"<<nowS()-e.t0<<",\"inexact_ops\":"<<e.inexactOps<<",\n\"vars\":"<<gVars.size()<<",\"exprs\":"<<gTab.size()<<",\n";
  o<<"\"incomplete_reasons\":{"; bool first=true; for(auto&kv:e.incReasons){ o<<(first?"":",")<<"\""<<jesc(kv.first)<<"\":"<<kv.second; first=false; } o<<"},\n\"uninterpreted\":{"; first=true; for(auto&kv:e.ufUsed){ o<<(first?"":",")<<"\""<<jesc(kv.first)<<"\":"<<kv.second; first=false; } o<<"},\n\"reached\":{"; first=true; for(auto&kv:e.reached){ o<<(first?"":",")<<"\""<<jesc(kv.first)<<"\":"<<kv.second; first=false; } o<<"},\n\"witnesses\":["; first=true; for(auto&w:e.witFiles){ o<<(first?"":",")<<"\""<<jesc(w)<<"\""; first=false; }
  o<<"],\n\"findings\":["; first=true; for(auto&f:e.finds){ o<<(first?"":",")<<"\n{\"kind\":\""<<jesc(f.kind)<<"\",\"msg\":\""<<jesc(f.msg)<<"\",\"loc\":\""<<jesc(f.loc)<<"\",\"file\":\""<<jesc(f.file)<<"\",\"inputs\":["; bool g=true; for(auto&p:f.inputs){ o<<(g?"":",")<<"\""<<jesc(p.first+"="+p.second)<<"\""; g=false; } o<<"]}"; first=false; }
  o<<"],\n\"functions\":["; first=true; for(auto&f:funcs){ o<<(first?"":",")<<"\""<<jesc(f)<<"\""; first=false; } o<<"],\n\"lines\":{"; first=true; for(auto&kv:lines){ o<<(first?"":",")<<"\""<<jesc(kv.first)<<"\":["; bool g=true; for(unsigned l:kv.second){ o<<(g?"":",")<<l; g=false; } o<<"]"; first=false; } o<<"}\n}\n";
  if(e.outFile.size()){ std::ofstream f(e.outFile); f<<o.str(); } else { std::cout<<o.str(); }
  fflush(stdout); _exit(e.finds.empty()?0:1);
}
