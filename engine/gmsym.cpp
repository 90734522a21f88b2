// gmsym: symbolic executor for LLVM 18 bitcode with exact-arithmetic floating point values and Z3 as decision procedure.
#include "expr.hpp"
#include "solver.hpp"
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <deque>
#include <list>
#include <fstream>
#include <sstream>
#include <iostream>
#include <functional>
#include <random>
#include <unistd.h>
#include <cfenv>
using namespace llvm;
using std::string; using std::vector;

struct Val { uint64_t b; E e; };
struct PathEnd { int kind; string msg; }; // 0 normal,1 silent(assume),2 incomplete
static const uint64_t FNBASE=0x7F00000000000000ULL, OBJOFF=0x10000;

// ---------------- memory ----------------
struct Cell { E e; uint8_t n; };
struct Obj { int rc=1; uint32_t size=0; uint8_t kind=0; bool ro=false; vector<uint8_t> data, und; std::map<uint32_t,Cell> sym; };
struct Chunk { int rc=1; Obj* o[128]; Chunk(){memset(o,0,sizeof o);} };
static void decO(Obj*o){ if(o&&--o->rc==0) delete o; }
static void decC(Chunk*c){ if(c&&--c->rc==0){ for(auto*o:c->o) decO(o); delete c; } }

struct FuncInfo; struct Inst;
struct Frame { FuncInfo* f; uint32_t ip; vector<Val> r; vector<uint64_t> allocas; int retDst; bool isInvoke; uint32_t invNormal, invUnwind; vector<Val> va; };
struct Bound { bool hl=false,hh=false; Rat lo,hi; };
struct InputRec { int var; int kind; int64_t den; string name; int64_t fixed; };
struct Obs { bool isD; Val v; };
struct ExcRec { uint64_t obj, ti; };
static uint64_t gStateIds=0;
struct State {
  uint64_t id=gStateIds++;
  vector<Frame> st; vector<Chunk*> mem; uint64_t nextId=1; vector<uint64_t> freeStack; // recycled stack ids
  vector<E> pc; ModelP model; std::unordered_map<E,uint64_t> known; std::unordered_map<E,Bound> bnd;
  vector<InputRec> inputs; vector<Obs> obs; vector<ExcRec> caught; std::map<uint64_t,uint64_t> excTi; ExcRec inflight{0,0}; bool unwinding=false;
  uint64_t insts=0, asserts=0; int depth=0; bool inexact=false; uint64_t rng=1, clk=0; uint64_t heapLive=0; bool validated=true; vector<string> notes; vector<string> reached; bool selIte=false; uint64_t knownSeq=0;
  State(){}
  State(const State&o):id(gStateIds++),st(o.st),mem(o.mem),nextId(o.nextId),freeStack(o.freeStack),pc(o.pc),model(o.model),known(o.known),bnd(o.bnd),inputs(o.inputs),obs(o.obs),caught(o.caught),excTi(o.excTi),inflight(o.inflight),unwinding(o.unwinding),insts(o.insts),asserts(o.asserts),depth(o.depth),inexact(o.inexact),rng(o.rng),clk(o.clk),heapLive(o.heapLive),notes(o.notes),reached(o.reached),selIte(o.selIte){ for(auto*c:mem) if(c) c->rc++; }
  ~State(){ for(auto*c:mem) decC(c); }
  Obj* get(uint64_t id){ uint64_t ci=id>>7; if(ci>=mem.size()||!mem[ci]) return nullptr; return mem[ci]->o[id&127]; }
  Chunk* wchunk(uint64_t ci){ if(ci>=mem.size()) mem.resize(ci+1,nullptr); Chunk*&c=mem[ci]; if(!c) c=new Chunk; else if(c->rc>1){ Chunk*n=new Chunk; for(int i=0;i<128;i++){ n->o[i]=c->o[i]; if(n->o[i]) n->o[i]->rc++; } c->rc--; c=n; } return c; }
  Obj* getW(uint64_t id){ Chunk*c=wchunk(id>>7); Obj*&o=c->o[id&127]; if(o&&o->rc>1){ Obj*n=new Obj(*o); n->rc=1; o->rc--; o=n; } return o; }
  uint64_t alloc(uint64_t size,uint8_t kind,bool undef,uint64_t forced=0){ if(size>(1u<<28)) throw PathEnd{2,"allocation too large"}; uint64_t id=forced?forced:nextId++; Chunk*c=wchunk(id>>7); Obj*o=new Obj; o->size=size;o->kind=kind;o->data.assign(size,0); if(undef) o->und.assign(size,0xff); c->o[id&127]=o; return id; }
  void freeId(uint64_t id){ Chunk*c=wchunk(id>>7); decO(c->o[id&127]); c->o[id&127]=nullptr; }
};
static inline uint64_t addrOf(uint64_t id){ return (id<<32)+OBJOFF; }

// ---------------- decoded code ----------------
struct Inst { const Instruction* I; unsigned op; uint32_t w; int dst; int nops; int o[3]; uint8_t isF; uint8_t pred; vector<int> ops; int64_t off; vector<std::pair<int,int64_t>> gep; vector<uint8_t> gepw; uint32_t bb0,bb1; FuncInfo* callee; int builtin; uint32_t wsrc; uint8_t fsrc; uint32_t lanes; bool cov=false; vector<std::pair<uint64_t,uint32_t>> cases; };
struct PhiCopy { int dst; int src; uint32_t n; };
struct FuncInfo { Function* F; string name; bool decoded=false; int nregs=0; vector<Inst> code; vector<uint32_t> bbStart; std::unordered_map<const BasicBlock*,uint32_t> bbIdx; std::unordered_map<uint64_t,vector<PhiCopy>> phis; vector<int> argSlot; bool decl=false; int builtin=-2; uint64_t calls=0; };

struct Finding { string kind,msg,loc; vector<std::pair<string,string>> inputs; string file; };

struct Engine {
  LLVMContext C; std::unique_ptr<Module> M; const DataLayout* DL; Solver sol;
  std::unordered_map<const Function*,FuncInfo*> fi; vector<FuncInfo*> fnByIdx; std::unordered_map<const GlobalValue*,uint64_t> gaddr;
  vector<Val> consts; std::unordered_map<const Constant*,int> constIdx; std::unordered_map<const Value*,int>* curSlots=nullptr;
  std::list<State*> pend; State* S=nullptr; std::map<string,int64_t> params;
  // config
  double timeLimit=60; uint64_t pathLimit=1000000, instLimit=200000000; bool selForkNum=true; string outFile,cexDir=".",witDir; int maxWit=5; int maxFind=3; bool randomSearch=false; uint64_t seed=1; bool checkUndef=true; bool failUncaught=true;
  // stats
  uint64_t paths=0,pathsSilent=0,pathsInc=0,forks=0,insts=0,asserts=0,assertsTrivial=0,assertQ=0,inexactOps=0,witnesses=0,errPaths=0; vector<Finding> finds; std::map<string,uint64_t> incReasons; std::map<string,uint64_t> reached; double t0; std::map<string,uint64_t> ufUsed; vector<string> witFiles; std::set<string> externals; uint64_t unknownBranches=0; std::map<string,int> findKeys;
  std::mt19937_64 rg;

  // ---- types / slots ----
  static unsigned flatCount(Type*T){ if(auto*s=dyn_cast<StructType>(T)){unsigned n=0;for(auto*e:s->elements()) n+=flatCount(e);return n;} if(auto*a=dyn_cast<ArrayType>(T)) return a->getNumElements()*flatCount(a->getElementType()); if(auto*v=dyn_cast<FixedVectorType>(T)) return v->getNumElements(); if(T->isVoidTy()) return 0; return 1; }
  static unsigned flatIndex(Type*T,ArrayRef<unsigned> idx){ unsigned o=0; for(unsigned i:idx){ if(auto*s=dyn_cast<StructType>(T)){ for(unsigned k=0;k<i;k++) o+=flatCount(s->getElementType(k)); T=s->getElementType(i);} else { auto*a=cast<ArrayType>(T); o+=i*flatCount(a->getElementType()); T=a->getElementType(); } } return o; }
  static void flatTypes(Type*T,vector<Type*>&out){ if(auto*s=dyn_cast<StructType>(T)){for(auto*e:s->elements()) flatTypes(e,out);} else if(auto*a=dyn_cast<ArrayType>(T)){for(unsigned i=0;i<a->getNumElements();++i) flatTypes(a->getElementType(),out);} else if(auto*v=dyn_cast<FixedVectorType>(T)){for(unsigned i=0;i<v->getNumElements();++i) out.push_back(v->getElementType());} else if(!T->isVoidTy()) out.push_back(T); }
  void flatOffsets(Type*T,uint64_t base,vector<std::pair<Type*,uint64_t>>&out){ if(auto*s=dyn_cast<StructType>(T)){ auto*sl=DL->getStructLayout(s); for(unsigned k=0;k<s->getNumElements();k++) flatOffsets(s->getElementType(k),base+sl->getElementOffset(k),out);} else if(auto*a=dyn_cast<ArrayType>(T)){ uint64_t sz=DL->getTypeAllocSize(a->getElementType()); for(unsigned i=0;i<a->getNumElements();++i) flatOffsets(a->getElementType(),base+i*sz,out);} else if(auto*v=dyn_cast<FixedVectorType>(T)){ uint64_t sz=DL->getTypeStoreSize(v->getElementType()); for(unsigned i=0;i<v->getNumElements();++i) out.push_back({v->getElementType(),base+i*sz}); } else out.push_back({T,base}); }
  unsigned tw(Type*T){ if(T->isPointerTy()) return 64; if(T->isIntegerTy()) return T->getIntegerBitWidth(); if(T->isDoubleTy()) return 64; if(T->isFloatTy()) return 32; if(T->isX86_FP80Ty()) return 80; return 0; }
  static uint8_t isFP(Type*T){ return T->isDoubleTy()?1:T->isFloatTy()?2:T->isX86_FP80Ty()?3:0; }

  FuncInfo* getFI(Function*F){ auto it=fi.find(F); if(it!=fi.end()) return it->second; auto*f=new FuncInfo; f->F=F; f->name=F->getName().str(); f->decl=F->isDeclaration(); fi[F]=f; fnByIdx.push_back(f); return f; }
  uint64_t fnAddr(Function*F){ auto*f=getFI(F); auto it=gaddr.find(F); if(it!=gaddr.end()) return it->second; for(size_t i=0;i<fnByIdx.size();++i) if(fnByIdx[i]==f){ uint64_t a=FNBASE+16*i; gaddr[F]=a; return a; } return 0; }

  // flatten a constant into leaf values
  void flatConst(const Constant*c,vector<Val>&out){
    Type*T=c->getType();
    if(isa<UndefValue>(c)){ vector<Type*> ts; flatTypes(T,ts); for(auto*t:ts) out.push_back({0,mkShadow(std::min(tw(t),64u),0,msk(tw(t)))}); return; }
    if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){
      if(isa<ConstantAggregateZero>(c)){ unsigned n=flatCount(T); for(unsigned i=0;i<n;i++) out.push_back({0,nullptr}); return; }
      if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<cd->getNumElements();++i) flatConst(cd->getElementAsConstant(i),out); return; }
      for(unsigned i=0;i<c->getNumOperands();++i) flatConst(cast<Constant>(c->getOperand(i)),out); return; }
    out.push_back(scalarConst(c)); }
  Val scalarConst(const Constant*c){
    if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ Expr x=blank(KCONST,128); x.cv=ci->getValue().extractBitsAsZExtValue(64,0); x.cv2=ci->getValue().extractBitsAsZExtValue(ci->getBitWidth()-64,64); return {x.cv,intern(x)}; } return {ci->getZExtValue(),nullptr}; }
    if(auto*cf=dyn_cast<ConstantFP>(c)){ uint64_t b=0; if(c->getType()->isDoubleTy()){double d=cf->getValueAPF().convertToDouble();memcpy(&b,&d,8);} else if(c->getType()->isFloatTy()){float f=cf->getValueAPF().convertToFloat();uint32_t u;memcpy(&u,&f,4);b=u;} else { APFloat v=cf->getValueAPF(); bool li; v.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); double d=v.convertToDouble(); memcpy(&b,&d,8);} return {b,nullptr}; }
    if(isa<ConstantPointerNull>(c)) return {0,nullptr};
    if(auto*f=dyn_cast<Function>(c)) return {fnAddr(const_cast<Function*>(f)),nullptr};
    if(auto*a=dyn_cast<GlobalAlias>(c)) return scalarConst(a->getAliasee());
    if(auto*g=dyn_cast<GlobalVariable>(c)){ auto it=gaddr.find(g); if(it==gaddr.end()) throw EngineLimit("global without address "+g->getName().str()); return {it->second,nullptr}; }
    if(auto*ce=dyn_cast<ConstantExpr>(c)){
      switch(ce->getOpcode()){
        case Instruction::GetElementPtr:{ auto*go=cast<GEPOperator>(ce); APInt off(64,0); if(!go->accumulateConstantOffset(*DL,off)) throw EngineLimit("const gep"); return {scalarConst(cast<Constant>(ce->getOperand(0))).b+off.getSExtValue(),nullptr}; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v=scalarConst(ce->getOperand(0)); unsigned w=tw(ce->getType()); v.b&=msk(w); return v; }
        case Instruction::Trunc: { Val v=scalarConst(ce->getOperand(0)); v.b&=msk(tw(ce->getType())); return v; }
        case Instruction::Sub: return {(scalarConst(ce->getOperand(0)).b-scalarConst(ce->getOperand(1)).b)&msk(tw(ce->getType())),nullptr};
        case Instruction::Add: return {(scalarConst(ce->getOperand(0)).b+scalarConst(ce->getOperand(1)).b)&msk(tw(ce->getType())),nullptr};
        case Instruction::ICmp:{ Val a=scalarConst(ce->getOperand(0)),b=scalarConst(ce->getOperand(1)); bool r=false; switch(ce->getPredicate()){case CmpInst::ICMP_EQ:r=a.b==b.b;break;case CmpInst::ICMP_NE:r=a.b!=b.b;break;case CmpInst::ICMP_ULT:r=a.b<b.b;break;case CmpInst::ICMP_UGT:r=a.b>b.b;break;default:throw EngineLimit("const icmp");} return {r,nullptr}; }
        default: throw EngineLimit("constant expr opcode"); } }
    if(isa<UndefValue>(c)) return {0,mkShadow(std::min(64u,tw(c->getType())),0,~0ULL)};
    if(c->getType()->isTokenTy()||c->getType()->isMetadataTy()) return {0,nullptr};
    throw EngineLimit("constant kind"); }

  int opnd(const Value*v,std::unordered_map<const Value*,int>&slots){
    if(auto*c=dyn_cast<Constant>(v)){ auto it=constIdx.find(c); if(it!=constIdx.end()) return it->second; vector<Val> vs; flatConst(c,vs); int idx=-(int)consts.size()-1; for(auto&x:vs) consts.push_back(x); 
      constIdx[c]=idx; return idx; }
    if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)) return 0;
    auto it=slots.find(v); if(it==slots.end()) throw EngineLimit("operand slot"); return it->second; }
  // operands that are constants use negative indexes; lane i of constant idx c is c-i
  inline Val& lane(Frame&f,int o,int i){ return o>=0?f.r[o+i]:consts[-o-1+i]; }
  inline Val& get(Frame&f,int o){ return o>=0?f.r[o]:consts[-o-1]; }

  void decode(FuncInfo*f){
    f->decoded=true; Function&F=*f->F; std::unordered_map<const Value*,int> slots; int n=0;
    for(auto&a:F.args()){ slots[&a]=n; f->argSlot.push_back(n); n+=std::max(1u,flatCount(a.getType())); }
    for(auto&B:F) for(auto&I:B) if(!I.getType()->isVoidTy()){ slots[&I]=n; n+=std::max(1u,flatCount(I.getType())); }
    f->nregs=n; uint32_t bi=0; for(auto&B:F){ f->bbIdx[&B]=bi++; }
    for(auto&B:F){ f->bbStart.push_back(f->code.size());
      for(auto&I:B){ if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue;
        Inst d; d.I=&I; d.op=I.getOpcode(); d.dst=I.getType()->isVoidTy()?-1:slots[&I]; d.w=I.getType()->isVoidTy()?0:tw(I.getType()); d.isF=isFP(I.getType()); d.nops=I.getNumOperands(); d.callee=nullptr;d.builtin=-1;d.pred=0;d.off=0;d.bb0=d.bb1=0;d.wsrc=0;d.fsrc=0;d.lanes=1; d.o[0]=d.o[1]=d.o[2]=0;
        if(auto*vt=dyn_cast<FixedVectorType>(I.getType())){ d.lanes=vt->getNumElements(); d.w=tw(vt->getElementType()); d.isF=isFP(vt->getElementType()); }
        if(d.nops>0){ Type*T=I.getOperand(0)->getType(); if(auto*vt=dyn_cast<FixedVectorType>(T)){T=vt->getElementType();} d.wsrc=tw(T); d.fsrc=isFP(T); }
        switch(d.op){
         case Instruction::Br:{ auto*b=cast<BranchInst>(&I); d.bb0=f->bbIdx[b->getSuccessor(0)]; if(b->isConditional()){ d.bb1=f->bbIdx[b->getSuccessor(1)]; d.o[0]=opnd(b->getCondition(),slots); d.pred=1; } break; }
         case Instruction::Switch:{ auto*s=cast<SwitchInst>(&I); d.o[0]=opnd(s->getCondition(),slots); d.bb0=f->bbIdx[s->getDefaultDest()]; for(auto&c:s->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(),f->bbIdx[c.getCaseSuccessor()]}); break; }
         case Instruction::Call: case Instruction::Invoke:{ auto*cb=cast<CallBase>(&I); for(auto&a:cb->args()) d.ops.push_back(opnd(a.get(),slots)); const Value*cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliasee()->stripPointerCasts(); if(auto*cf=dyn_cast<Function>(cv)) d.callee=getFI(const_cast<Function*>(cf)); else if(isa<InlineAsm>(cv)) d.builtin=-3; else d.o[0]=opnd(cb->getCalledOperand(),slots);
            if(auto*iv=dyn_cast<InvokeInst>(&I)){ d.bb0=f->bbIdx[iv->getNormalDest()]; d.bb1=f->bbIdx[iv->getUnwindDest()]; } break; }
         case Instruction::GetElementPtr:{ auto*g=cast<GetElementPtrInst>(&I); d.o[0]=opnd(g->getPointerOperand(),slots); if(isa<VectorType>(g->getType())) {d.op=9999;break;} 
            for(auto gti=gep_type_begin(g);gti!=gep_type_end(g);++gti){ Value*ix=gti.getOperand(); if(auto*st=gti.getStructTypeOrNull()){ d.off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t sz=DL->getTypeAllocSize(gti.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) d.off+=ci->getSExtValue()*sz; else { d.gep.push_back({opnd(ix,slots),sz}); d.gepw.push_back(tw(ix->getType())); } } } break; }
         case Instruction::ICmp: case Instruction::FCmp: d.pred=cast<CmpInst>(&I)->getPredicate(); d.o[0]=opnd(I.getOperand(0),slots); d.o[1]=opnd(I.getOperand(1),slots); break;
         case Instruction::LandingPad: break;
         case Instruction::ExtractValue:{ auto*e=cast<ExtractValueInst>(&I); d.o[0]=opnd(e->getAggregateOperand(),slots); d.off=flatIndex(e->getAggregateOperand()->getType(),e->getIndices()); break; }
         case Instruction::InsertValue:{ auto*e=cast<InsertValueInst>(&I); d.o[0]=opnd(e->getAggregateOperand(),slots); d.o[1]=opnd(e->getInsertedValueOperand(),slots); d.off=flatIndex(e->getAggregateOperand()->getType(),e->getIndices()); break; }
         default: for(int i=0;i<d.nops&&i<3;i++) d.o[i]=opnd(I.getOperand(i),slots); break; }
        f->code.push_back(std::move(d)); } }
    for(auto&B:F) for(auto*P:predecessors(&B)){ uint64_t key=((uint64_t)f->bbIdx[P]<<32)|f->bbIdx[&B]; if(f->phis.count(key)) continue; vector<PhiCopy> v; for(auto&ph:B.phis()) v.push_back({slots[&ph],opnd(ph.getIncomingValueForBlock(P),slots),std::max(1u,flatCount(ph.getType()))}); f->phis[key]=v; }
    // map instruction to its block: store in bb0 of terminators is not enough; keep owner through I->getParent()
  }
  vector<Val> tmpPhi;
  void gotoBB(Frame&f,uint32_t from,uint32_t to){ auto it=f.f->phis.find(((uint64_t)from<<32)|to); if(it!=f.f->phis.end()&&!it->second.empty()){ tmpPhi.clear(); for(auto&p:it->second) for(uint32_t i=0;i<p.n;i++) tmpPhi.push_back(lane(f,p.src,i)); size_t k=0; for(auto&p:it->second) for(uint32_t i=0;i<p.n;i++) f.r[p.dst+i]=tmpPhi[k++]; } f.ip=f.f->bbStart[to]; }

  // ---------------- diagnostics ----------------
  string locStr(){ string s; if(!S||S->st.empty()) return ""; int n=0; for(int i=(int)S->st.size()-1;i>=0&&n<6;--i){ Frame&f=S->st[i]; if(f.ip>=f.f->code.size()) continue; const Instruction*I=f.f->code[i==(int)S->st.size()-1?f.ip:(f.ip?f.ip-1:0)].I; if(auto*dl=I->getDebugLoc().get()){ const DILocation*L=dl; while(L&&n<6){ if(n) s+=" <- "; s+=L->getFilename().str()+":"+std::to_string(L->getLine()); n++; L=L->getInlinedAt(); } } else { if(n) s+=" <- "; s+=f.f->name; n++; } } return s; }
  vector<std::pair<string,string>> inputsOf(State&s,const Model&m){ vector<std::pair<string,string>> r; Evaluator ev(&m); for(auto&i:s.inputs){ int64_t v=i.var>=0?ev.var(i.var):i.fixed; string t; if(i.kind==2){ double d=(double)v/(double)i.den; char b[64]; snprintf(b,64,"d %.17g",d); t=b; } else t="i "+std::to_string(v+(i.kind==1?i.den:0)); r.push_back({i.name,t}); } return r; }
  string writeInputs(const string&path,const vector<std::pair<string,string>>&in,const string&head){ std::ofstream o(path); o<<"# "<<head<<"\n"; for(auto&p:in) o<<p.second<<" # "<<p.first<<"\n"; return path; }
  string oneLine(string s){ for(auto&c:s) if(c=='\n'||c=='\r') c=' '; return s; }
  bool keyExhausted(const string&kind,const string&msg){ auto it=findKeys.find(kind+"|"+msg); return it!=findKeys.end()&&it->second>=maxFind; }
  void addFinding(const string&kind,const string&msg,const Model&m){ string key=kind+"|"+msg; if(findKeys[key]++>=maxFind) return; Finding f; f.kind=kind;f.msg=oneLine(msg);f.loc=locStr(); f.inputs=inputsOf(*S,m); f.file=cexDir+"/cex_"+std::to_string(finds.size())+".txt"; writeInputs(f.file,f.inputs,kind+": "+f.msg+" @ "+f.loc); finds.push_back(f); }
  void pathError(const string&kind,const string&msg){ // definite error on this path
    if(S->model) addFinding(kind,msg,*S->model); else { ModelP m; if(sol.check(S->pc,nullptr,&m)==1) addFinding(kind,msg,*m); } throw PathEnd{3,kind+": "+msg}; }

  // ---------------- constraints ----------------
  int quick(E c,int depth=0){ if(c==gTrue) return 1; if(c==gFalse) return 0; if(isNot(c)){ int r=quick(c->a,depth); return r<0?-1:1-r; }
    auto it=S->known.find(c); if(it!=S->known.end()) return it->second!=0;
    if(c->k==KNLE||c->k==KNLT||c->k==KNEQ){ auto b=S->bnd.find(c->a); if(b!=S->bnd.end()){ Bound&B=b->second; const Rat&k=*c->r; if(c->k==KNLE){ if(B.hh&&B.hi<=k) return 1; if(B.hl&&k<B.lo) return 0; } else if(c->k==KNLT){ if(B.hh&&B.hi<k) return 1; if(B.hl&&k<=B.lo) return 0; } else { if((B.hl&&k<B.lo)||(B.hh&&B.hi<k)) return 0; if(B.hl&&B.hh&&B.lo==k&&B.hi==k) return 1; } } return -1; }
    if(depth<12){ if(c->k==KAND&&c->w==1){ int x=quick(c->a,depth+1); if(x==0) return 0; int y=quick(c->b,depth+1); if(y==0) return 0; if(x==1&&y==1) return 1; return -1; }
      if(c->k==KOR&&c->w==1){ int x=quick(c->a,depth+1); if(x==1) return 1; int y=quick(c->b,depth+1); if(y==1) return 1; if(x==0&&y==0) return 0; return -1; }
      if(c->k==KITE){ int x=quick(c->a,depth+1); if(x>=0) return quick(x?c->b:c->c,depth+1); return -1; } 
      if(c->k==KXOR&&c->w==1){ int x=quick(c->a,depth+1),y=quick(c->b,depth+1); if(x>=0&&y>=0) return x^y; return -1; } }
    if(c->k>=KEQ&&c->k<=KSLE){ uint64_t a,b,r; if(tryConst(c->a,a)&&tryConst(c->b,b)&&foldBin(c->k,c->a->w,a,b,r)) return r; }
    return -1; }
  bool tryConst(E e,uint64_t&v,int depth=0){ if(isC(e)){v=e->cv;return true;} auto it=S->known.find(e); if(it!=S->known.end()){v=it->second;return true;} if(depth>16||e->k==KVAR) return false;
    if(e->w==1){ int q=quick(e,depth); if(q>=0){v=q;return true;} return false; }
    uint64_t a,b; switch(e->k){ case KITE:{ int q=quick(e->a,depth+1); if(q<0) return false; return tryConst(q?e->b:e->c,v,depth+1);} case KZEXT: if(!tryConst(e->a,a,depth+1)) return false; v=a; return true; case KSEXT: if(!tryConst(e->a,a,depth+1)) return false; v=(uint64_t)sx(a,e->a->w)&msk(e->w); return true; case KTRUNC: if(!tryConst(e->a,a,depth+1)) return false; v=a&msk(e->w); return true;
      case KADD:case KSUB:case KMUL:case KUDIV:case KSDIV:case KUREM:case KSREM:case KSHL:case KLSHR:case KASHR:case KAND:case KOR:case KXOR: if(!tryConst(e->a,a,depth+1)||!tryConst(e->b,b,depth+1)) return false; return foldBin(e->k,e->w,a,b,v); default: return false; } }
  void learn(E c,bool val){ if(isNot(c)){ learn(c->a,!val); return; } S->known[c]=val;
    if(c->k==KAND&&c->w==1&&val){ learn(c->a,true); learn(c->b,true); return; }
    if(c->k==KOR&&c->w==1&&!val){ learn(c->a,false); learn(c->b,false); return; }
    if(c->k==KNLE){ Bound&B=S->bnd[c->a]; if(val){ if(!B.hh||*c->r<B.hi){B.hh=true;B.hi=*c->r;} } else { Rat l=c->a->isInt?*c->r+Rat(1):*c->r; if(!B.hl||B.lo<l){B.hl=true;B.lo=l;} } }
    else if(c->k==KNLT){ Bound&B=S->bnd[c->a]; if(val){ if(!B.hh||*c->r<B.hi){B.hh=true;B.hi=*c->r;} } else { if(!B.hl||B.lo<*c->r){B.hl=true;B.lo=*c->r;} } }
    else if(c->k==KNEQ&&val){ Bound&B=S->bnd[c->a]; B.hh=B.hl=true;B.lo=B.hi=*c->r; }
    else if(c->k==KEQ&&val){ if(isC(c->b)) { S->known[c->a]=c->b->cv; if(c->a->k==KZEXT) S->known[c->a->a]=c->b->cv; } else if(isC(c->a)) S->known[c->b]=c->a->cv; }
  }
  void addPC(E c){ if(c==gTrue) return; S->pc.push_back(c); learn(c,true); }
  // decide a boolean: may fork. returns chosen side for the current state.
  int decide(E c){ int q=quick(c); if(q>=0) return q;
    ensureModel(); Evaluator ev(S->model.get()); bool side=ev.ev(c); 
    if(!ev.exact){ // check both sides
      ModelP m1,m0; int r1=sol.check(S->pc,c,&m1); int r0=sol.check(S->pc,mkNot(c),&m0);
      if(r1==0&&r0==0) throw PathEnd{1,"infeasible"}; if(r1<0||r0<0) noteUnknown();
      if(r1==0){ learn(c,false); return 0; } if(r0==0){ learn(c,true); return 1; }
      if(r1<0&&r0<0) throw PathEnd{2,"solver unknown"};
      if(r1<0){ S->model=m0; addPC(mkNot(c)); return 0; } if(r0<0){ S->model=m1; addPC(c); return 1; }
      State*o=fork(); { State*cur=S; S=o; o->model=m0; addPC(mkNot(c)); S=cur; } pend.push_back(o); S->model=m1; addPC(c); return 1; }
    E oc=side?mkNot(c):c; ModelP m; int r=sol.check(S->pc,oc,&m);
    if(r==0){ learn(c,side); return side; }
    if(r<0){ noteUnknown(); addPC(side?c:mkNot(c)); return side; }
    State*o=fork(); { State*cur=S; S=o; o->model=m; addPC(oc); S=cur; } pend.push_back(o); addPC(side?c:mkNot(c)); return side; }
  void noteUnknown(){ unknownBranches++; incReasons["solver unknown on branch"]++; }
  State* fork(){ forks++; return new State(*S); }
  void ensureModel(){ if(S->model){ if(S->model->v.size()<gVars.size()){ auto m=std::make_shared<Model>(*S->model); while(m->v.size()<gVars.size()) m->v.push_back(gVars[m->v.size()].lo); S->model=m; } return; } ModelP m; int r=sol.check(S->pc,nullptr,&m); if(r==0) throw PathEnd{1,"infeasible"}; if(r<0) throw PathEnd{2,"solver unknown"}; S->model=m; }
  uint64_t concretize(E e,const char*why){ uint64_t v; if(e->k==KSHADOW){ if(checkUndef) pathError("uninit",string("use of uninitialised value as ")+why); return e->cv; } if(tryConst(e,v)) return v; if(e->w==1) return decide(e);
    if(e->k==KFPBITS||e->k==KPOLY) throw PathEnd{2,string("symbolic float bits used as ")+why};
    ensureModel(); Evaluator ev(S->model.get()); v=ev.ev(e); if(!ev.exact){ ModelP m; int r=sol.check(S->pc,nullptr,&m); if(r!=1) throw PathEnd{2,"solver unknown"}; S->model=m; Evaluator e2(m.get()); v=e2.ev(e); }
    E eq=mkBin(KEQ,e,mkConst(e->w,v)); int q=quick(eq); if(q==1) return v; ModelP m; int r=sol.check(S->pc,mkNot(eq),&m);
    if(r==1){ State*o=fork(); State*cur=S; S=o; o->model=m; addPC(mkNot(eq)); S=cur; pend.push_back(o); addPC(eq); } else if(r==0){ learn(eq,true);} else { noteUnknown(); addPC(eq); }
    S->known[e]=v; return v; }
  uint64_t conc(Val v,const char*why){ return v.e?concretize(v.e,why):v.b; }

  // ---------------- values ----------------
  E ex(const Val&v,unsigned w){ if(!v.e) return mkConst(w,v.b); return v.e; }
  Val mk(E e){ if(isC(e)&&e->w<=64) return {e->cv,nullptr}; return {0,e}; }
  static double asD(uint64_t b){double d;memcpy(&d,&b,8);return d;} static uint64_t fromD(double d){uint64_t b;memcpy(&b,&d,8);return b;}
  static double bitsToD(uint64_t b,uint8_t f){ if(f==2){uint32_t u=b;float x;memcpy(&x,&u,4);return x;} return asD(b);} 
  static uint64_t dToBits(double d,uint8_t f){ if(f==2){float x=(float)d;uint32_t u;memcpy(&u,&x,4);return u;} return fromD(d);} 
  bool isShadow(const Val&v){ return v.e&&v.e->k==KSHADOW; }
  E num(const Val&v,uint8_t f){ if(v.e){ if(v.e->k==KPOLY) return v.e; if(v.e->k==KFPBITS) return v.e->a; throw PathEnd{2,"symbolic bits used as float"}; } return numConst(ratFromDouble(bitsToD(v.b,f))); }
  Val mkNum(E p,uint8_t f){ if(numIsConst(p)){ const Rat&r=p->p->c0; return {dToBits((double)r.ld(),f),nullptr}; }
    // exactness
    long double mag=std::max(fabsl(p->nlo),fabsl(p->nhi)); i128 d=1; bool ok=!p->hasReal; if(ok){ try{ d=commonDen(p);}catch(EngineLimit&){ok=false;} if(ok&&(d&(d-1))!=0) ok=false; for(auto&t:p->p->t) if(!t.m->isInt) ok=false; if(ok&&mag*(long double)d>=(f==2?16777216.0L:9007199254740992.0L)) ok=false; }
    if(!ok){ inexactOps++; S->inexact=true; }
    return {0,p}; }

  // ---------------- memory access ----------------
  Obj* resolve(uint64_t addr,uint64_t n,bool wr,uint64_t&off){ uint64_t id=addr>>32; off=(addr&0xffffffffULL)-OBJOFF; 
    if(addr>=FNBASE) pathError("memory","access to function memory"); Obj*o=S->get(id);
    if(!o){ pathError("memory",addr<4096?"null pointer dereference":(id&&id<S->nextId)?"use after free":"wild pointer dereference"); }
    if((addr&0xffffffffULL)<OBJOFF||off+n>o->size){ pathError("memory","out of bounds "+string(wr?"write":"read")+" (object size "+std::to_string(o->size)+", offset "+std::to_string((int64_t)off)+", access "+std::to_string(n)+")"); }
    if(wr&&o->ro) pathError("memory","write to constant");
    return o; }
  E cellByte(const Cell&c,unsigned i){ E e=c.e; if(e->k==KPOLY||e->k==KFPBITS||e->k==KSHADOW) throw PathEnd{2,"partial access to symbolic float"}; if(c.n==1) return e; return mkCast(KTRUNC,mkBin(KLSHR,e,mkConst(e->w,8*i)),8); }
  Val loadV(uint64_t addr,unsigned w,uint8_t f){ unsigned n=(w+7)/8; if(f==3) { w=64;n=8; } uint64_t off; Obj*o=resolve(addr,f==3?16:n,false,off);
    if(!o->sym.empty()){ auto it=o->sym.upper_bound(off+n-1); bool any=false; if(it!=o->sym.begin()){ --it; if(it->first+it->second.n>off) any=true; }
      if(any){ auto ex_=o->sym.find(off); if(ex_!=o->sym.end()&&ex_->second.n==n){ E e=ex_->second.e; if(f){ if(e->k==KPOLY) return {0,e}; if(e->k==KFPBITS) return {0,e->a}; if(isC(e)) return {e->cv,nullptr}; throw PathEnd{2,"symbolic int loaded as float"}; } if(e->k==KPOLY) return {0,mkFPBits(e,w)}; if(w<8*n) return mk(mkCast(KTRUNC,e,w)); return mk(e); }
        if(w>64) throw PathEnd{2,"wide symbolic load"};
        // same float symbol covering larger load etc. -> bytewise
        E r=nullptr; for(unsigned i=0;i<n;i++){ uint64_t p=off+i; auto k=o->sym.upper_bound(p); E byte; bool hit=false; if(k!=o->sym.begin()){ --k; if(k->first+k->second.n>p) hit=true; } if(hit) byte=cellByte(k->second,p-k->first); else { byte=mkConst(8,o->data[p]); }
          E z=n==1?byte:mkBin(KSHL,mkCast(KZEXT,byte,8*n),mkConst(8*n,8*i)); r=r?mkBin(KOR,r,z):z; }
        if(w<8*n) r=mkCast(KTRUNC,r,w); if(f) throw PathEnd{2,"symbolic bytes loaded as float"}; return mk(r); } }
    if(w>64){ Expr x=blank(KCONST,128); memcpy(&x.cv,&o->data[off],8); uint64_t hi=0; memcpy(&hi,&o->data[off+8],n-8); x.cv2=hi; return {x.cv,intern(x)}; }
    uint64_t b=0; memcpy(&b,&o->data[off],n); if(w<64) b&=msk(w);
    if(!o->und.empty()){ uint64_t u=0; memcpy(&u,&o->und[off],n); u&=msk(w); if(u) return {0,mkShadow(w,b,u)}; }
    return {b,nullptr}; }
  void clearCells(Obj*o,uint64_t off,uint64_t n){ if(o->sym.empty()) return; auto it=o->sym.upper_bound(off+n-1); vector<std::pair<uint32_t,Cell>> hit; while(it!=o->sym.begin()){ --it; if(it->first+it->second.n<=off){ break; } hit.push_back(*it); }
    // cells have at most 8 bytes so one step back is enough
    for(auto&h:hit){ o->sym.erase(h.first); if(h.first<off||h.first+h.second.n>off+n){ for(unsigned i=0;i<h.second.n;i++){ uint64_t p=h.first+i; if(p>=off&&p<off+n) continue; E b=cellByte(h.second,i); if(isC(b)) o->data[p]=b->cv; else o->sym[p]={b,1}; } } } }
  void storeV(uint64_t addr,const Val&v,unsigned w,uint8_t f){ unsigned n=(w+7)/8; if(f==3){w=64;n=8;} uint64_t off; resolve(addr,f==3?16:n,true,off); Obj*o=S->getW(addr>>32); clearCells(o,off,n);
    if(!v.e){ uint64_t b=v.b; if(w>64){ memcpy(&o->data[off],&b,8); memset(&o->data[off+8],0,n-8);} else memcpy(&o->data[off],&b,n); if(!o->und.empty()) memset(&o->und[off],0,n); return; }
    if(v.e->k==KSHADOW){ memcpy(&o->data[off],&v.e->cv,n); uint64_t u=v.e->cv2; if(w<8*n) u|=0; if(o->und.empty()) o->und.assign(o->size,0); memcpy(&o->und[off],&u,n); return; }
    if(isC(v.e)){ memcpy(&o->data[off],&v.e->cv,std::min(8u,n)); if(n>8) memcpy(&o->data[off+8],&v.e->cv2,n-8); if(!o->und.empty()) memset(&o->und[off],0,n); return; }
    E e=v.e; if(e->k!=KPOLY&&e->k!=KFPBITS&&e->w<8*n) e=mkCast(KZEXT,e,8*n); if(e->k==KFPBITS) e=e->a; o->sym[off]={e,(uint8_t)n}; if(!o->und.empty()) memset(&o->und[off],0,n); }
  void copyMem(uint64_t dst,uint64_t src,uint64_t n){ if(!n) return; uint64_t so,d_o; Obj*s=resolve(src,n,false,so); resolve(dst,n,true,d_o); if(dst==src) return;
    vector<uint8_t> data(s->data.begin()+so,s->data.begin()+so+n), und; if(!s->und.empty()) und.assign(s->und.begin()+so,s->und.begin()+so+n);
    vector<std::pair<uint32_t,Cell>> cells; if(!s->sym.empty()){ auto it=s->sym.lower_bound(so>8?so-8:0); for(;it!=s->sym.end()&&it->first<so+n;++it){ uint32_t p=it->first; if(p+it->second.n<=so) continue; if(p>=so&&p+it->second.n<=so+n) cells.push_back({p-(uint32_t)so,it->second}); else for(unsigned i=0;i<it->second.n;i++) if(p+i>=so&&p+i<so+n){ E b=cellByte(it->second,i); cells.push_back({p+i-(uint32_t)so,{b,1}}); } } }
    Obj*d=S->getW(dst>>32); clearCells(d,d_o,n); memcpy(&d->data[d_o],data.data(),n); if(!und.empty()){ if(d->und.empty()) d->und.assign(d->size,0); memcpy(&d->und[d_o],und.data(),n);} else if(!d->und.empty()) memset(&d->und[d_o],0,n);
    for(auto&c:cells) d->sym[d_o+c.first]=c.second; }
  string readStr(uint64_t a){ string s; for(;;){ Val v=loadV(a++,8,0); uint64_t c=v.e?concretize(v.e,"string byte"):v.b; if(!c) break; s.push_back((char)c); if(s.size()>100000) break; } return s; }
  void writeBytes(uint64_t a,const void*p,size_t n){ const uint8_t*b=(const uint8_t*)p; for(size_t i=0;i<n;i++) storeV(a+i,{b[i],nullptr},8,0); }

  // ---------------- integer ops ----------------
  Val shadowBin(unsigned op,const Val&a,const Val&b,unsigned w){ uint64_t ab=a.e?(a.e->k==KSHADOW?a.e->cv:isC(a.e)?a.e->cv:0):a.b, bb=b.e?(b.e->k==KSHADOW?b.e->cv:isC(b.e)?b.e->cv:0):b.b; uint64_t au=isShadow(a)?a.e->cv2:(a.e&&!isC(a.e)?~0ULL:0), bu=isShadow(b)?b.e->cv2:(b.e&&!isC(b.e)?~0ULL:0); uint64_t m=msk(w); au&=m;bu&=m;
    uint64_t r=0,u=m;
    switch(op){ case Instruction::And: r=ab&bb; u=(au|bu)&(ab|au)&(bb|bu); break; case Instruction::Or: r=ab|bb; u=(au|bu)&(~ab|au)&(~bb|bu)&m; break; case Instruction::Xor: r=ab^bb;u=au|bu;break;
      case Instruction::Shl: if(!bu){ r=bb>=w?0:ab<<bb; u=bb>=w?0:au<<bb; } break; case Instruction::LShr: if(!bu){ r=bb>=w?0:ab>>bb; u=bb>=w?0:au>>bb; } break;
      case Instruction::Mul: if((!au&&ab==0)||(!bu&&bb==0)) {r=0;u=0;} break; default: break; }
    u&=m; if(!u) return {r&m,nullptr}; return {0,mkShadow(w,r,u)}; }
  Val wideBin(unsigned op,const Val&a,const Val&b){ auto W=[&](const Val&v)->u128{ if(!v.e) return v.b; if(isC(v.e)) return ((u128)(v.e->w>64?v.e->cv2:0)<<64)|v.e->cv; throw PathEnd{2,"symbolic i128"}; }; u128 x=W(a),y=W(b),r=0; switch(op){case Instruction::Add:r=x+y;break;case Instruction::Sub:r=x-y;break;case Instruction::Mul:r=x*y;break;case Instruction::And:r=x&y;break;case Instruction::Or:r=x|y;break;case Instruction::Xor:r=x^y;break;case Instruction::Shl:r=x<<(int)y;break;case Instruction::LShr:r=x>>(int)y;break;case Instruction::AShr:r=(u128)((i128)x>>(int)y);break;case Instruction::UDiv:r=x/y;break;case Instruction::URem:r=x%y;break;default:throw PathEnd{2,"i128 op"};} return mkWide(r); }
  Val mkWide(u128 r){ Expr x=blank(KCONST,128); x.cv=(uint64_t)r;x.cv2=(uint64_t)(r>>64); return {x.cv,intern(x)}; }
  Val ibin(unsigned op,const Val&a,const Val&b,unsigned w){
    if(w>64) return wideBin(op,a,b);
    static const std::unordered_map<unsigned,Kind> km={{Instruction::Add,KADD},{Instruction::Sub,KSUB},{Instruction::Mul,KMUL},{Instruction::UDiv,KUDIV},{Instruction::SDiv,KSDIV},{Instruction::URem,KUREM},{Instruction::SRem,KSREM},{Instruction::Shl,KSHL},{Instruction::LShr,KLSHR},{Instruction::AShr,KASHR},{Instruction::And,KAND},{Instruction::Or,KOR},{Instruction::Xor,KXOR}};
    if(!a.e&&!b.e){ uint64_t r; switch(op){ case Instruction::Add: return {(a.b+b.b)&msk(w),nullptr}; case Instruction::Sub: return {(a.b-b.b)&msk(w),nullptr}; case Instruction::Mul: return {(a.b*b.b)&msk(w),nullptr}; case Instruction::And: return {a.b&b.b,nullptr}; case Instruction::Or: return {a.b|b.b,nullptr}; case Instruction::Xor: return {a.b^b.b,nullptr};
        default: if(!foldBin(km.at(op),w,a.b,b.b,r)) pathError("arith","integer division by zero"); return {r,nullptr}; } }
    if(isShadow(a)||isShadow(b)) return shadowBin(op,a,b,w);
    if((a.e&&(a.e->k==KFPBITS))||(b.e&&b.e->k==KFPBITS)){ const Val&x=(a.e&&a.e->k==KFPBITS)?a:b; const Val&y=(&x==&a)?b:a; uint8_t f=w==64?1:2; uint64_t sg=1ULL<<(w-1); if(!y.e){ if(op==Instruction::And&&y.b==(sg-1)){ Val r=fabsV({0,x.e->a},f); if(r.e) r.e=mkFPBits(r.e,w); return r; } if(op==Instruction::Xor&&y.b==sg) return {0,mkFPBits(numScale(x.e->a,Rat(-1)),w)}; if(op==Instruction::And&&y.b==sg){ return decide(numCmp0(KNLT,x.e->a))?Val{sg,nullptr}:Val{0,nullptr}; } if(op==Instruction::LShr&&y.b==w-1) return decide(numCmp0(KNLT,x.e->a))?Val{1,nullptr}:Val{0,nullptr}; } throw PathEnd{2,"integer op on symbolic float bits"}; }
    Kind k=km.at(op); E x=ex(a,w),y=ex(b,w); if(k==KUDIV||k==KSDIV||k==KUREM||k==KSREM){ if(decide(mkBin(KEQ,y,mkConst(w,0)))) pathError("arith","integer division by zero"); }
    return mk(mkBin(k,x,y)); }
  Val icmp(unsigned pred,Val a,Val b,unsigned w){
    if(w>64){ auto W=[&](const Val&v)->u128{ if(!v.e) return v.b; if(isC(v.e)) return ((u128)v.e->cv2<<64)|v.e->cv; throw PathEnd{2,"symbolic i128"}; }; u128 x=W(a),y=W(b); i128 sxx=x,sy=y; bool r; switch(pred){case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_ULT:r=x<y;break;case CmpInst::ICMP_ULE:r=x<=y;break;case CmpInst::ICMP_UGT:r=x>y;break;case CmpInst::ICMP_UGE:r=x>=y;break;case CmpInst::ICMP_SLT:r=sxx<sy;break;case CmpInst::ICMP_SLE:r=sxx<=sy;break;case CmpInst::ICMP_SGT:r=sxx>sy;break;default:r=sxx>=sy;} return {r,nullptr}; }
    if(!a.e&&!b.e){ bool r; int64_t x=sx(a.b,w),y=sx(b.b,w); switch(pred){case CmpInst::ICMP_EQ:r=a.b==b.b;break;case CmpInst::ICMP_NE:r=a.b!=b.b;break;case CmpInst::ICMP_ULT:r=a.b<b.b;break;case CmpInst::ICMP_ULE:r=a.b<=b.b;break;case CmpInst::ICMP_UGT:r=a.b>b.b;break;case CmpInst::ICMP_UGE:r=a.b>=b.b;break;case CmpInst::ICMP_SLT:r=x<y;break;case CmpInst::ICMP_SLE:r=x<=y;break;case CmpInst::ICMP_SGT:r=x>y;break;default:r=x>=y;} return {r,nullptr}; }
    if(isShadow(a)||isShadow(b)){ // definite inequality on defined bits
      uint64_t ab=a.e?a.e->cv:a.b,bb=b.e?b.e->cv:b.b,u=(isShadow(a)?a.e->cv2:0)|(isShadow(b)?b.e->cv2:0); bool sa=a.e&&!isShadow(a)&&!isC(a.e),sb=b.e&&!isShadow(b)&&!isC(b.e); if(!sa&&!sb&&((ab^bb)&~u&msk(w))){ if(pred==CmpInst::ICMP_EQ) return {0,nullptr}; if(pred==CmpInst::ICMP_NE) return {1,nullptr}; } return {0,mkShadow(1,0,1)}; }
    auto fb=[&](const Val&v){return v.e&&v.e->k==KFPBITS;}; if(fb(a)||fb(b)){ E p=fb(a)?a.e->a:b.e->a; uint8_t f=w==64?1:2; const Val&o=fb(a)?b:a; if(pred==CmpInst::ICMP_EQ||pred==CmpInst::ICMP_NE){ E q=num(o.e?o:Val{o.b,nullptr},f); E c=numCmp0(KNEQ,numSub(p,q)); return mk(pred==CmpInst::ICMP_EQ?c:mkNot(c)); } if(fb(a)&&!b.e&&b.b==0&&pred==CmpInst::ICMP_SLT) return mk(numCmp0(KNLT,p)); if(fb(a)&&!b.e&&b.b==msk(w)&&pred==CmpInst::ICMP_SGT) return mk(mkNot(numCmp0(KNLT,p))); throw PathEnd{2,"icmp on symbolic float bits"}; }
    E x=ex(a,w),y=ex(b,w); switch(pred){case CmpInst::ICMP_EQ:return mk(mkBin(KEQ,x,y));case CmpInst::ICMP_NE:return mk(mkNot(mkBin(KEQ,x,y)));case CmpInst::ICMP_ULT:return mk(mkBin(KULT,x,y));case CmpInst::ICMP_ULE:return mk(mkBin(KULE,x,y));case CmpInst::ICMP_UGT:return mk(mkBin(KULT,y,x));case CmpInst::ICMP_UGE:return mk(mkBin(KULE,y,x));case CmpInst::ICMP_SLT:return mk(mkBin(KSLT,x,y));case CmpInst::ICMP_SLE:return mk(mkBin(KSLE,x,y));case CmpInst::ICMP_SGT:return mk(mkBin(KSLT,y,x));default:return mk(mkBin(KSLE,y,x));} }
  Val fcmp(unsigned pred,const Val&a,const Val&b,uint8_t f){
    if(isShadow(a)||isShadow(b)) return {0,mkShadow(1,0,1)};
    if(pred==CmpInst::FCMP_FALSE) return {0,nullptr}; if(pred==CmpInst::FCMP_TRUE) return {1,nullptr};
    auto dec=[&](double x,double y)->bool{ bool uno=std::isnan(x)||std::isnan(y); switch(pred){case CmpInst::FCMP_OEQ:return x==y;case CmpInst::FCMP_OGT:return x>y;case CmpInst::FCMP_OGE:return x>=y;case CmpInst::FCMP_OLT:return x<y;case CmpInst::FCMP_OLE:return x<=y;case CmpInst::FCMP_ONE:return !uno&&x!=y;case CmpInst::FCMP_ORD:return !uno;case CmpInst::FCMP_UNO:return uno;case CmpInst::FCMP_UEQ:return uno||x==y;case CmpInst::FCMP_UGT:return uno||x>y;case CmpInst::FCMP_UGE:return uno||x>=y;case CmpInst::FCMP_ULT:return uno||x<y;case CmpInst::FCMP_ULE:return uno||x<=y;default:return uno||x!=y;} };
    if(!a.e&&!b.e) return {dec(bitsToD(a.b,f),bitsToD(b.b,f)),nullptr};
    // non finite constants against finite symbolic values
    if(!a.e){ double x=bitsToD(a.b,f); if(!std::isfinite(x)||fabs(x)>1e30) return {dec(x,0),nullptr}; } if(!b.e){ double y=bitsToD(b.b,f); if(!std::isfinite(y)||fabs(y)>1e30) return {dec(0,y),nullptr}; }
    if(pred==CmpInst::FCMP_ORD) return {1,nullptr}; if(pred==CmpInst::FCMP_UNO) return {0,nullptr};
    E d=numSub(num(a,f),num(b,f)); switch(pred){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mk(numCmp0(KNEQ,d)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mk(mkNot(numCmp0(KNEQ,d))); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mk(numCmp0(KNLT,d)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mk(numCmp0(KNLE,d)); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mk(mkNot(numCmp0(KNLE,d))); default: return mk(mkNot(numCmp0(KNLT,d))); } }
  Val fabsV(const Val&a,uint8_t f){ if(!a.e) return {dToBits(fabs(bitsToD(a.b,f)),f),nullptr}; if(isShadow(a)) return a; E p=num(a,f); E c=numCmp0(KNLT,p); if(selForkNum&&!S->selIte) return decide(c)?mkNum(numScale(p,Rat(-1)),f):Val{0,p}; return mkNum(numIte(c,numScale(p,Rat(-1)),p),f); }
  Val fbin(unsigned op,const Val&a,const Val&b,uint8_t f){
    if(isShadow(a)||isShadow(b)) return {0,mkShadow(f==2?32:64,0,~0ULL)};
    if(!a.e&&!b.e){ if(f==2){ float x=(float)bitsToD(a.b,2),y=(float)bitsToD(b.b,2),r; switch(op){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;default:r=fmodf(x,y);} return {dToBits(r,2),nullptr}; }
      double x=asD(a.b),y=asD(b.b),r; switch(op){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;default:r=fmod(x,y);} return {fromD(r),nullptr}; }
    auto special=[&](const Val&v){ if(v.e) return false; double x=bitsToD(v.b,f); return !std::isfinite(x)||fabs(x)>1e18||(x!=0&&fabs(x)<1e-30); };
    if(special(a)||special(b)){ double x=a.e?0:bitsToD(a.b,f),y=b.e?0:bitsToD(b.b,f); const Val&sy=a.e?a:b; bool aS=a.e!=nullptr; double c=aS?y:x; 
      if(std::isnan(c)) return {dToBits(c,f),nullptr};
      if(!std::isinf(c)){ // huge or tiny finite constants: only absorb for add/sub
        if((op==Instruction::FAdd||op==Instruction::FSub)&&fabs(c)>1e30){ double r=op==Instruction::FAdd?c:(aS?-c:c); return {dToBits(r,f),nullptr}; }
        if(op==Instruction::FMul&&fabs(c)<1e-30) throw PathEnd{2,"tiny constant"}; if(fabs(c)>1e30) throw PathEnd{2,"huge constant"}; }
      else { if(op==Instruction::FAdd) return {dToBits(c,f),nullptr}; if(op==Instruction::FSub) return {dToBits(aS?-c:c,f),nullptr};
        if(op==Instruction::FDiv&&aS) return {dToBits(0.0,f),nullptr};
        E p=num(sy,f); if(op==Instruction::FMul||op==Instruction::FDiv){ if(decide(numCmp0(KNEQ,p))) return {dToBits(op==Instruction::FMul?NAN:c,f),nullptr}; return decide(numCmp0(KNLT,p))?Val{dToBits(-c,f),nullptr}:Val{dToBits(c,f),nullptr}; } throw PathEnd{2,"special fp"}; } }
    if(op==Instruction::FMul){ if((!a.e&&bitsToD(a.b,f)==0)||(!b.e&&bitsToD(b.b,f)==0)) return {dToBits(0.0,f),nullptr}; }
    E x=num(a,f),y=num(b,f);
    switch(op){ case Instruction::FAdd: return mkNum(numAdd(x,y),f); case Instruction::FSub: return mkNum(numSub(x,y),f); case Instruction::FMul: return mkNum(numMul(x,y),f);
      case Instruction::FDiv:{ if(numIsConst(y)){ if(y->p->c0.isZero()){ if(decide(numCmp0(KNEQ,x))) return {dToBits(NAN,f),nullptr}; return decide(numCmp0(KNLT,x))?Val{dToBits(-INFINITY,f),nullptr}:Val{dToBits(INFINITY,f),nullptr}; } return mkNum(numScale(x,Rat(1)/y->p->c0),f); }
        if(decide(numCmp0(KNEQ,y))){ return fbin(op,a,{dToBits(0.0,f),nullptr},f); }
        // proportional?
        if(x->p->t.size()==y->p->t.size()&&!x->p->t.empty()){ Rat q=x->p->t[0].c/y->p->t[0].c; if(numScale(y,q)==x) return {dToBits((double)q.ld(),f),nullptr}; }
        if(numIsConst(x)&&x->p->c0.isZero()) return {0,nullptr};
        sol.anyReal=true; long double m=std::max(fabsl(x->nlo),fabsl(x->nhi)); long double ymin=y->isInt?1.0L:1e-6L; if(!y->hasReal){ try{ ymin=1.0L/(long double)commonDen(y);}catch(EngineLimit&){} } return mkNum(numDivAtom(x,y,-m/ymin,m/ymin),f); }
      default: throw PathEnd{2,"symbolic frem"}; } }
  Val ufcall(int fn,const char*nm,const Val&a,const Val*b,uint8_t f){ if(isShadow(a)) return a; if(!a.e&&(!b||!b->e)){ double x=bitsToD(a.b,f),y=b?bitsToD(b->b,f):0,r=0; switch(fn){case UF_SQRT:r=sqrt(x);break;case UF_EXP:r=exp(x);break;case UF_LOG:r=log(x);break;case UF_POW:r=pow(x,y);break;case UF_SIN:r=sin(x);break;case UF_COS:r=cos(x);break;} return {dToBits(r,f),nullptr}; }
    if(fn==UF_POW&&b&&!b->e){ double y=bitsToD(b->b,f); if(y==(int)y&&y>=0&&y<=8){ Val r={dToBits(1.0,f),nullptr}; for(int i=0;i<(int)y;i++) r=fbin(Instruction::FMul,r,a,f); return r; } }
    if(fn==UF_POW&&!a.e&&b){ double x=bitsToD(a.b,f); if(x==1.0) return a; }
    ufUsed[nm]++; sol.anyReal=true; E x=num(a,f); long double lo=-1e30L,hi=1e30L; if(fn==UF_EXP||fn==UF_SQRT) lo=0; if(fn==UF_SQRT){ hi=sqrtl(std::max(0.0L,x->nhi))+1; } return mkNum(mkUF(fn,x,b?num(*b,f):nullptr,lo,hi),f); }

#include "interp.inc"
};
#include "main.inc"
