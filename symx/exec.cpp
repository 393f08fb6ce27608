// Symbolic executor: depth-first exploration of every feasible path of a harness, with fork-based work sharing.
#include "ir.h"
#include "solver.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <atomic>
#include <cmath>
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
// ---------------------------------------------------------------- builtins
enum B : int { B_NONE=-1, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_NOP, B_EXPECT, B_ISCONST, B_TRAP, B_TLS, B_LOADREL, B_ABS, B_BITREV, B_BSWAP, B_CTLZ, B_CTTZ, B_CTPOP, B_FSHL, B_FSHR, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO,
  B_UADDS, B_USUBS, B_SADDS, B_SSUBS, B_SCMP, B_UCMP, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_PTRMASK, B_VREDOR, B_VREDAND, B_VREDADD, B_FPTOUIS, B_FPTOSIS, B_FABS, B_FFLOOR, B_FCOPYSIGN, B_FMA, B_FCLASS, B_FUN, B_FMIN, B_FMAX, B_FPOWI, B_USHLS, B_SSHLS, B_VREDUMAX, B_VREDUMIN, B_VREDSMAX, B_VREDSMIN, B_VREDXOR, B_VREDMUL,
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_POSIXMEMALIGN, B_MEMCMP, B_BCMP, B_STRLEN, B_GETRANDOM, B_SYSCALL, B_ERRNO, B_WRITE, B_WRITEV, B_GETENV, B_ABORT, B_ZERO,
  B_VS_SYM, B_VS_ASSUME, B_VS_VIOL, B_VS_OBS, B_VS_COVER, B_VS_CONC, B_VS_TRACE, B_UNKNOWN };
int builtinId(const std::string&n){
  static const std::vector<std::pair<const char*,int>> pre={{"llvm.memcpy.",B_MEMCPY},{"llvm.memmove.",B_MEMMOVE},{"llvm.memset.",B_MEMSET},{"llvm.expect",B_EXPECT},{"llvm.is.constant",B_ISCONST},{"llvm.trap",B_TRAP},{"llvm.debugtrap",B_TRAP},{"llvm.threadlocal",B_TLS},{"llvm.load.relative",B_LOADREL},{"llvm.abs.",B_ABS},{"llvm.bitreverse",B_BITREV},{"llvm.bswap",B_BSWAP},{"llvm.ctlz",B_CTLZ},{"llvm.cttz",B_CTTZ},{"llvm.ctpop",B_CTPOP},{"llvm.fshl",B_FSHL},{"llvm.fshr",B_FSHR},
   {"llvm.uadd.with",B_UADDO},{"llvm.usub.with",B_USUBO},{"llvm.umul.with",B_UMULO},{"llvm.sadd.with",B_SADDO},{"llvm.ssub.with",B_SSUBO},{"llvm.smul.with",B_SMULO},{"llvm.uadd.sat",B_UADDS},{"llvm.usub.sat",B_USUBS},{"llvm.sadd.sat",B_SADDS},{"llvm.ssub.sat",B_SSUBS},{"llvm.scmp",B_SCMP},{"llvm.ucmp",B_UCMP},{"llvm.umax",B_UMAX},{"llvm.umin",B_UMIN},{"llvm.smax",B_SMAX},{"llvm.smin",B_SMIN},{"llvm.ptrmask",B_PTRMASK},{"llvm.vector.reduce.or",B_VREDOR},{"llvm.vector.reduce.and",B_VREDAND},{"llvm.vector.reduce.add",B_VREDADD},
   {"llvm.fptoui.sat",B_FPTOUIS},{"llvm.fptosi.sat",B_FPTOSIS},{"llvm.is.fpclass",B_FCLASS},{"llvm.ceil",B_FUN},{"llvm.trunc.f",B_FUN},{"llvm.rint",B_FUN},{"llvm.nearbyint",B_FUN},{"llvm.roundeven",B_FUN},{"llvm.round.f",B_FUN},{"llvm.sqrt",B_FUN},{"llvm.minnum",B_FMIN},{"llvm.maxnum",B_FMAX},{"llvm.minimumnum",B_FMIN},{"llvm.maximumnum",B_FMAX},{"llvm.powi",B_FPOWI},{"llvm.ushl.sat",B_USHLS},{"llvm.sshl.sat",B_SSHLS},{"llvm.vector.reduce.umax",B_VREDUMAX},{"llvm.vector.reduce.umin",B_VREDUMIN},{"llvm.vector.reduce.smax",B_VREDSMAX},{"llvm.vector.reduce.smin",B_VREDSMIN},{"llvm.vector.reduce.xor",B_VREDXOR},{"llvm.vector.reduce.mul",B_VREDMUL},{"llvm.fabs",B_FABS},{"llvm.floor",B_FFLOOR},{"llvm.copysign",B_FCOPYSIGN},{"llvm.fma",B_FMA},{"llvm.fmuladd",B_FMA},
   {"llvm.x86.sse2.pause",B_NOP},{"llvm.prefetch",B_NOP},{"llvm.dbg",B_NOP},{"llvm.lifetime",B_NOP},{"llvm.assume",B_NOP},{"llvm.experimental.noalias",B_NOP},{"llvm.donothing",B_NOP},{"llvm.pseudoprobe",B_NOP}};
  for(auto&p:pre) if(!n.compare(0,strlen(p.first),p.first)) return p.second;
  static const std::unordered_map<std::string,int> ex={{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"posix_memalign",B_POSIXMEMALIGN},{"memcmp",B_MEMCMP},{"bcmp",B_BCMP},{"memcpy",B_MEMCPY},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"strlen",B_STRLEN},{"getrandom",B_GETRANDOM},{"syscall",B_SYSCALL},{"__errno_location",B_ERRNO},{"write",B_WRITE},{"writev",B_WRITEV},{"getenv",B_GETENV},{"abort",B_ABORT},{"__cxa_thread_atexit_impl",B_ZERO},{"pthread_self",B_ZERO},
   {"vs_make_symbolic",B_VS_SYM},{"vs_assume",B_VS_ASSUME},{"vs_violation",B_VS_VIOL},{"vs_observe",B_VS_OBS},{"vs_cover",B_VS_COVER},{"vs_concretize",B_VS_CONC},{"vs_trace",B_VS_TRACE}};
  auto it=ex.find(n); return it==ex.end()?B_UNKNOWN:it->second; }
// ---------------------------------------------------------------- state
struct Obj { int rc; u32 size; u8*d; Expr**ov; };
static Obj* newObj(u32 size){ Obj*o=(Obj*)malloc(sizeof(Obj)); o->rc=1; o->size=size; o->d=(u8*)calloc(1,size?size:1); o->ov=nullptr; return o; }
static inline void objDec(Obj*o){ if(o&&--o->rc==0){ free(o->d); free(o->ov); free(o); } }
static Obj* objClone(Obj*o){ Obj*n=(Obj*)malloc(sizeof(Obj)); n->rc=1; n->size=o->size; n->d=(u8*)malloc(o->size?o->size:1); memcpy(n->d,o->d,o->size); n->ov=nullptr; if(o->ov){ n->ov=(Expr**)malloc(8ull*o->size); memcpy(n->ov,o->ov,8ull*o->size); } o->rc--; return n; }
struct Frame { int rc; Func*f; u32 pc; u32 callInst; u32 objId; u64 base; SV*regs; };
static Frame* newFrame(Func*f){ Frame*r=(Frame*)malloc(sizeof(Frame)); r->rc=1; r->f=f; r->pc=0; r->callInst=0; r->objId=0xffffffff; r->base=0; r->regs=(SV*)malloc(sizeof(SV)*(f->nregs?f->nregs:1)); return r; }
static void frameDec(Frame*f){ if(--f->rc==0){ free(f->regs); free(f); } }
struct Sym { std::string name; int start,len; };
struct State { PathCond pc; std::vector<Frame*> st; std::vector<Obj*> heap; std::vector<u32> freeIds; std::vector<Obj*> gl; std::vector<Sym> syms; int nsym=0; i64 resumeEdge=-1; u64 steps=0; u64 errnoAddr=0; std::vector<std::vector<SV>> obs; u64 covers=0; u32 forks=0; 
  ~State(){ for(auto f:st) frameDec(f); for(auto o:heap) objDec(o); for(auto o:gl) objDec(o); }
  State(){} State(const State&o):pc(o.pc),st(o.st),heap(o.heap),freeIds(o.freeIds),gl(o.gl),syms(o.syms),nsym(o.nsym),resumeEdge(o.resumeEdge),steps(o.steps),errnoAddr(o.errnoAddr),obs(o.obs),covers(o.covers),forks(o.forks){ for(auto f:st) f->rc++; for(auto x:heap) if(x) x->rc++; for(auto x:gl) if(x) x->rc++; } };
static std::vector<Obj*> constG; static std::vector<int> mutIdx; static std::vector<u32> mutList;
enum End { E_OK, E_ASSUME, E_VIOL, E_PANIC, E_HANG, E_CRASH, E_ENGINE };
static const char* endName[]={"ok","assume","violation","panic","hang","crash","engine"};
struct PathEnd { End k; std::string msg; };
// ---------------------------------------------------------------- run-wide
struct Shared { std::atomic<int> active; int jobs; std::atomic<int> viol[512]; std::atomic<int> parts; std::atomic<int> stop[512]; };
static Shared*sh; static int hIdx; static double deadline; static u64 maxSteps=4000000; static u64 seed=1; static int maxViol=3; static std::string outDir; static std::string hName; static bool trace=false; static int nSamples=8; static bool noSteal=false;
struct Rep { std::string kind,msg,stack; std::vector<std::pair<std::string,std::string>> syms; std::string obs; u64 covers; };
static std::vector<Rep> violations,samples; static u64 nPaths=0,nAssume=0,nForks=0,nInst=0,nSymBr=0,nConc=0,maxPathSteps=0,coversAll=0; static bool incomplete=false; static std::string incompleteWhy; static std::vector<State*> pending; static u64 rng;
static u64 rnd(){ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; }
static State*S; // current
static bool modelDirty=true;
static u64 evalSV(SV v){ if(!v.e) return v.c; return (u64)evalE(v.e); }
static void setModelEpoch(){ S->pc.model.resize(MAXSYM); newEpoch(S->pc.model.data()); }

static Obj** slotFor(u64 addr,u64&off){ if(addr>=(256ull<<24)){ u64 id=(addr>>24)-256; if(id>=S->heap.size()||!S->heap[id]) return nullptr; off=addr&0xffffff; return &S->heap[id]; }
  if(addr>=GBASE&&addr<M.gEnd){ u32 g=M.granule[addr/16-GBASE/16]; if(g==0xffffffff) return nullptr; off=addr-M.globals[g].addr; if(mutIdx[g]>=0) return &S->gl[mutIdx[g]]; return &constG[g]; }
  return nullptr; }
static std::string stackStr();
static Obj* rd(u64 addr,u64 n,u64&off){ Obj**o=slotFor(addr,off); if(!o||off+n>(*o)->size){ char b[96]; snprintf(b,96,"invalid read of %llu at %llx",(unsigned long long)n,(unsigned long long)addr); throw PathEnd{E_CRASH,b}; } return *o; }
static Obj* wr(u64 addr,u64 n,u64&off){ Obj**o=slotFor(addr,off); if(!o||off+n>(*o)->size||(addr<(256ull<<24)&&M.globals[M.granule[addr/16-GBASE/16]].constant)){ char b[96]; snprintf(b,96,"invalid write of %llu at %llx",(unsigned long long)n,(unsigned long long)addr); throw PathEnd{E_CRASH,b}; } if((*o)->rc>1) *o=objClone(*o); return *o; }
static u64 allocObj(u64 size){ if(size>0xffffff){ throw PathEnd{E_ENGINE,"allocation of "+std::to_string(size)+" bytes is outside the engine's limit"}; } u32 id; if(!S->freeIds.empty()){ id=S->freeIds.back(); S->freeIds.pop_back(); S->heap[id]=newObj(size);} else { id=S->heap.size(); S->heap.push_back(newObj(size)); } return ((u64)id+256)<<24; }
static void freeObj(u64 addr){ if(!addr) return; u64 id=(addr>>24)-256; if(addr<(256ull<<24)||id>=S->heap.size()||!S->heap[id]||(addr&0xffffff)) throw PathEnd{E_CRASH,"invalid free"}; objDec(S->heap[id]); S->heap[id]=nullptr; S->freeIds.push_back(id); }
static SV loadFrom(Obj*o,u64 off,int w){ u32 n=(w+7)/8; bool sym=false; if(o->ov) for(u32 i=0;i<n;i++) if(o->ov[off+i]){ sym=true; break; }
  if(!sym&&w<=64){ u64 v=0; memcpy(&v,o->d+off,n); return C(v&m64(w)); }
  Expr*e=nullptr; for(int i=n-1;i>=0;i--){ Expr*b=(o->ov&&o->ov[off+i])?o->ov[off+i]:mkConst(o->d[off+i],8); e=e?mkConcat(e,b):b; } if(e->w!=w) e=mkExtract(e,0,w); return fromE(e); }
static void storeTo(Obj*o,u64 off,SV v,int w){ u32 n=(w+7)/8; 
  if(!v.e){ u64 c=v.c; memcpy(o->d+off,&c,n>8?8:n); if(o->ov) for(u32 i=0;i<n;i++) o->ov[off+i]=nullptr; return; }
  Expr*e=v.e; if((u32)e->w!=n*8) e=mkZext(e,n*8); for(u32 i=0;i<n;i++){ Expr*b=mkExtract(e,i*8,8); if(isC(b)){ o->d[off+i]=b->lo; if(o->ov) o->ov[off+i]=nullptr; } else { if(!o->ov) o->ov=(Expr**)calloc(o->size?o->size:1,8); o->ov[off+i]=b; } } }
// ---------------------------------------------------------------- forking
static int feasible(Expr*c,std::vector<u8>&model){ int r=checkSat(S->pc,c,model); if(r<0){ incomplete=true; incompleteWhy="solver returned unknown"; return 0; } return r; }
static void pushAlt(Expr*c,std::vector<u8>&model,i64 edge){ State*o=new State(*S); addConstraint(o->pc,c); o->pc.model=model; o->resumeEdge=edge; o->forks++; pending.push_back(o); nForks++; S->forks++; }
static void uniqTop(){ Frame*&f=S->st.back(); if(f->rc>1){ Frame*n=(Frame*)malloc(sizeof(Frame)); *n=*f; n->rc=1; n->regs=(SV*)malloc(sizeof(SV)*(f->f->nregs?f->f->nregs:1)); memcpy(n->regs,f->regs,sizeof(SV)*f->f->nregs); f->rc--; f=n; } }
// concretize by lazily forking over every feasible value; caller must not have side effects before this in the current instruction
static u64 concretize(SV v,int w){ if(!v.e) return v.c; nConc++; static int dbg=getenv("SYMX_CONC")?atoi(getenv("SYMX_CONC")):0; if(dbg>0){ dbg--; fprintf(stderr,"concretize %s\n   at %s\n",exprStr(v.e,4).c_str(),stackStr().substr(0,300).c_str()); } u64 c=(u64)evalE(v.e); Expr*eq=mkEq(v.e,mkConst(c,w)); if(isC(eq)) return c; Expr*ne=mkNot(eq); std::vector<u8> m; if(feasible(ne,m)){ pushAlt(ne,m,-1); uniqTop(); } addConstraint(S->pc,eq); return c; }
// decide a condition: returns the side taken now, queues the other if feasible
static bool decide(Expr*c,i64 tEdge,i64 fEdge){ if(isC(c)) return c->lo; nSymBr++; bool v=(bool)evalE(c); Expr*other=v?mkNot(c):c; std::vector<u8> m; if(feasible(other,m)){ pushAlt(other,m,v?fEdge:tEdge); uniqTop(); addConstraint(S->pc,v?c:mkNot(c)); } return v; }
static bool fewValues(Expr*e,int n){ // at most n distinct values over the byte's current domain
  if(e->sup.count()!=1) return false; int s=e->sup.first(); std::set<u64> vs; std::vector<u8> m=S->pc.model; m.resize(MAXSYM); for(int v=0;v<256&&(int)vs.size()<=n;v++){ if(S->pc.dom[s]&&!S->pc.dom[s]->s.get(v)) continue; m[s]=v; newEpoch(m.data()); vs.insert((u64)evalE(e)); } setModelEpoch(); return (int)vs.size()<=n; }
static SV loadAt(SV addr,int w){ u64 off; u32 n=(w+7)/8;
  if(!addr.e){ Obj*o=rd(addr.c,n,off); return loadFrom(o,off,w); }
  u64 a=(u64)evalE(addr.e); Obj**po=slotFor(a,off); if(!po||off+n>(*po)->size){ u64 c=concretize(addr,64); rd(c,n,off); throw PathEnd{E_CRASH,"bad symbolic read"}; }
  Obj*o=*po; u64 base=a-off; Expr*rel=mkBin(O_SUB,addr.e,mkConst(base,64)); u64 lim=o->size-n;
  Expr*inb=mkCmp(O_ULE,rel,mkConst(lim,64)); if(!isC(inb)){ std::vector<u8> m; Expr*nb=mkNot(inb); if(feasible(nb,m)){ pushAlt(nb,m,-1); uniqTop(); addConstraint(S->pc,inb); } }
  if(o->size>8192) return loadFrom(rd(concretize(addr,64),n,off),off,w);
  bool symAny=false; if(o->ov) for(u32 i=0;i<o->size;i++) if(o->ov[i]){ symAny=true; break; }
  if(symAny||w>64||n!=(u32)w/8){ u64 c=concretize(addr,64); o=rd(c,n,off); return loadFrom(o,off,w); }
  // trim the table to the part that can be reached when the index is narrow
  Blob*b=internBlob(std::string((char*)o->d,o->size)); SV r=fromE(mkTable(b,rel,n)); if(n>=4&&r.e) return C(concretize(r,w)); return r; }
// ---------------------------------------------------------------- values
static inline SV* regs(){ return S->st.back()->regs; }
static std::string demangleShort(const std::string&n){ return n; }
static std::string stackStr(){ std::string r; int k=0; for(int i=(int)S->st.size()-1;i>=0&&k<12;i--,k++){ if(!r.empty()) r+=" < "; r+=demangleShort(S->st[i]->f->name); } return r; }
static SV binop(Op op,SV a,SV b,int w){
  if(!a.e&&!b.e){ u64 x=a.c,y=b.c,m=m64(w); switch(op){ case O_ADD:return C((x+y)&m); case O_SUB:return C((x-y)&m); case O_MUL:return C((x*y)&m); case O_AND:return C(x&y); case O_OR:return C(x|y); case O_XOR:return C(x^y);
     case O_SHL:return C(y>=(u64)w?0:(x<<y)&m); case O_LSHR:return C(y>=(u64)w?0:x>>y); case O_ASHR:{ i64 s=(i64)(x<<(64-w))>>(64-w); return C((u64)(s>>(y>=(u64)w?w-1:y))&m); }
     case O_UDIV: if(!y) throw PathEnd{E_CRASH,"division by zero"}; return C(x/y); case O_UREM: if(!y) throw PathEnd{E_CRASH,"division by zero"}; return C(x%y);
     case O_SDIV: case O_SREM: { if(!y) throw PathEnd{E_CRASH,"division by zero"}; i64 s=(i64)(x<<(64-w))>>(64-w), t=(i64)(y<<(64-w))>>(64-w); if(t==-1) return op==O_SDIV?C((0-x)&m):C(0); return C((u64)(op==O_SDIV?s/t:s%t)&m); } default: break; } }
  return fromE(mkBin(op,toE(a,w),toE(b,w))); }
static SV icmp(int p,SV a,SV b,int w){
  if(!a.e&&!b.e){ u64 x=a.c,y=b.c; i64 s=(i64)(x<<(64-w))>>(64-w),t=(i64)(y<<(64-w))>>(64-w); bool r=false; switch(p){ case P_EQ:r=x==y;break; case P_NE:r=x!=y;break; case P_UGT:r=x>y;break; case P_UGE:r=x>=y;break; case P_ULT:r=x<y;break; case P_ULE:r=x<=y;break; case P_SGT:r=s>t;break; case P_SGE:r=s>=t;break; case P_SLT:r=s<t;break; case P_SLE:r=s<=t;break; } return C(r); }
  Expr*x=toE(a,w),*y=toE(b,w); Expr*r; switch(p){ case P_EQ:r=mkEq(x,y);break; case P_NE:r=mkNot(mkEq(x,y));break; case P_UGT:r=mkCmp(O_ULT,y,x);break; case P_UGE:r=mkCmp(O_ULE,y,x);break; case P_ULT:r=mkCmp(O_ULT,x,y);break; case P_ULE:r=mkCmp(O_ULE,x,y);break; case P_SGT:r=mkCmp(O_SLT,y,x);break; case P_SGE:r=mkCmp(O_SLE,y,x);break; case P_SLT:r=mkCmp(O_SLT,x,y);break; default:r=mkCmp(O_SLE,x,y);break; } return fromE(r); }
static SV ite(SV c,SV a,SV b,int w){ if(!c.e) return c.c?a:b; if(!a.e&&!b.e&&a.c==b.c) return a; return fromE(mkIte(c.e,toE(a,w),toE(b,w))); }
static SV extBits(SV v,int from,int to,bool sg){ if(!v.e){ if(to<=64){ if(!sg) return v; i64 s=(i64)(v.c<<(64-from))>>(64-from); return C((u64)s&m64(to)); } } Expr*e=toE(v,from); return fromE(sg?mkSext(e,to):mkZext(e,to)); }
static SV truncBits(SV v,int to){ if(!v.e) return C(v.c&m64(to)); return fromE(mkExtract(v.e,0,to)); }
static void memCopy(u64 d,u64 s,u64 n){ if(!n) return; u64 so,dof; rd(s,n,so); wr(d,n,dof); Obj*D=wr(d,n,dof); Obj*Sx=rd(s,n,so); memmove(D->d+dof,Sx->d+so,n); if(Sx->ov){ if(!D->ov){ bool any=false; for(u64 i=0;i<n;i++) if(Sx->ov[so+i]){any=true;break;} if(any) D->ov=(Expr**)calloc(D->size,8); } if(D->ov) memmove(D->ov+dof,Sx->ov+so,8*n); } else if(D->ov) memset(D->ov+dof,0,8*n); }
static std::string readStr(u64 p,u64 n){ std::string r; u64 off; Obj*o=rd(p,n,off); for(u64 i=0;i<n;i++) r+=(o->ov&&o->ov[off+i])?(char)evalE(o->ov[off+i]):(char)o->d[off+i]; return r; }
static std::string hex(const std::string&s){ static const char*h="0123456789abcdef"; std::string r; for(unsigned char c:s){ r+=h[c>>4]; r+=h[c&15]; } return r; }
static std::string jesc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static Rep report(const std::string&kind,const std::string&msg){ Rep r; r.kind=kind; r.msg=msg; r.stack=stackStr(); for(auto&s:S->syms){ std::string b; for(int i=0;i<s.len;i++) b+=(char)S->pc.model[s.start+i]; r.syms.push_back({s.name,hex(b)}); } for(auto&o:S->obs){ std::string b; for(auto&v:o) b+=(char)evalSV(v); r.obs+=hex(b)+";"; } r.covers=S->covers; return r; }
static double fpGet(u64 v,int w){ if(w==32){ float f; u32 x=v; memcpy(&f,&x,4); return f; } double d; memcpy(&d,&v,8); return d; }
static u64 fpPut(double d,int w){ if(w==32){ float f=d; u32 x; memcpy(&x,&f,4); return x; } u64 x; memcpy(&x,&d,8); return x; }
static void finishPath(const PathEnd&pe);
static void flushPart();
static void maybeShare();

static void doCallBuiltin(Func*f,const CallT&ct,Inst&I,Frame*&fr){
  SV*R=fr->regs; auto A=[&](int i)->SV{ int o=ct.args[i].op; return o>=0?S->st.back()->regs[o]:f->consts[~o]; }; auto W=[&](int i){ return (int)ct.args[i].w; };
  auto conc=[&](int i)->u64{ SV v=A(i); if(!v.e) return v.c; u64 c=concretize(v,W(i)); return c; };
  auto ret=[&](SV v){ if(ct.retN) S->st.back()->regs[I.dst]=v; }; auto retAt=[&](int k,SV v){ S->st.back()->regs[I.dst+k]=v; };
  auto opAt=[&](int arg,int k)->SV{ int o=ct.args[arg].op; return o>=0?S->st.back()->regs[o+k]:f->consts[~o+k]; };
  Func*cal=M.funcs[ct.callee]; int w=ct.args.empty()?0:W(0); (void)R;
  switch(cal->builtin){ case B_BITREV: case B_BSWAP: case B_FABS: case B_FFLOOR: case B_FCOPYSIGN: case B_FMA: case B_FCLASS: case B_FUN: case B_FMIN: case B_FMAX: case B_FPTOUIS: case B_FPTOSIS: if(ct.retN>1) throw PathEnd{E_ENGINE,"vector form of "+cal->name}; default: break; }
  switch(cal->builtin){
   case B_NOP: return;
   case B_MEMCPY: case B_MEMMOVE: { u64 n=conc(2); u64 d=conc(0),s=conc(1); memCopy(d,s,n); ret(C(d)); return; }
   case B_MEMSET: { u64 n=conc(2); u64 d=conc(0); SV v=A(1); if(cal->name=="memset") v=truncBits(v,8); if(n){ u64 off; Obj*o=wr(d,n,off); if(!v.e){ memset(o->d+off,(int)v.c,n); if(o->ov) memset(o->ov+off,0,8*n); } else for(u64 i=0;i<n;i++) storeTo(o,off+i,v,8); } ret(C(d)); return; }
   case B_EXPECT: ret(A(0)); return; case B_ISCONST: ret(C(0)); return;
   case B_TRAP: throw PathEnd{E_PANIC,"trap"};
   case B_TLS: ret(A(0)); return; case B_PTRMASK: ret(binop(O_AND,A(0),A(1),64)); return;
   case B_LOADREL: { u64 p=conc(0); SV off=A(1); SV v=loadAt(binop(O_ADD,C(p),off,64),32); ret(binop(O_ADD,C(p),extBits(v,32,64,true),64)); return; }
   case B_ABS: for(int k=0;k<ct.retN;k++){ SV a=opAt(0,k); retAt(k,ite(icmp(P_SLT,a,C(0),w),binop(O_SUB,C(0),a,w),a,w)); } return;
   case B_BITREV: { SV a=A(0); if(!a.e){ u64 r=0; for(int i=0;i<w;i++) if(a.c>>i&1) r|=1ull<<(w-1-i); ret(C(r)); } else { Expr*e=nullptr; for(int i=0;i<w;i++){ Expr*b=mkExtract(a.e,i,1); e=e?mkConcat(e,b):b; } ret(fromE(e)); } return; }
   case B_BSWAP: { SV a=A(0); if(!a.e){ u64 r=0; for(int i=0;i<w/8;i++) r|=((a.c>>(8*i))&255)<<(w-8-8*i); ret(C(r)); } else { Expr*e=nullptr; for(int i=0;i<w/8;i++){ Expr*b=mkExtract(a.e,8*i,8); e=e?mkConcat(e,b):b; } ret(fromE(e)); } return; }
   case B_CTLZ: case B_CTTZ: case B_CTPOP: for(int k=0;k<ct.retN;k++){ SV a=opAt(0,k); if(!a.e){ int r; if(cal->builtin==B_CTPOP) r=__builtin_popcountll(a.c); else if(!a.c) r=w; else if(cal->builtin==B_CTLZ) r=__builtin_clzll(a.c)-(64-w); else r=__builtin_ctzll(a.c); retAt(k,C(r)); }
       else { Expr*e=a.e; Expr*r; if(cal->builtin==B_CTPOP){ r=mkConst(0,w); for(int i=0;i<w;i++) r=mkBin(O_ADD,r,mkZext(mkExtract(e,i,1),w)); } else { r=mkConst(w,w); if(cal->builtin==B_CTTZ){ for(int i=w-1;i>=0;i--) r=mkIte(mkExtract(e,i,1),mkConst(i,w),r); } else for(int i=0;i<w;i++) r=mkIte(mkExtract(e,i,1),mkConst(w-1-i,w),r); } retAt(k,fromE(r)); } } return;
   case B_FSHL: case B_FSHR: if(ct.retN>1){ for(int k=0;k<ct.retN;k++){ SV a=opAt(0,k),b=opAt(1,k),h=opAt(2,k); u64 s=(h.e?concretize(h,w):h.c)%w; if(s==0){ retAt(k,cal->builtin==B_FSHL?a:b); continue; } u64 l=cal->builtin==B_FSHL?s:w-s; retAt(k,binop(O_OR,binop(O_SHL,a,C(l),w),binop(O_LSHR,b,C(w-l),w),w)); } return; } { u64 s=conc(2)%w; SV a=A(0),b=A(1); if(s==0){ ret(cal->builtin==B_FSHL?a:b); return; } u64 l=cal->builtin==B_FSHL?s:w-s; ret(binop(O_OR,binop(O_SHL,a,C(l),w),binop(O_LSHR,b,C(w-l),w),w)); return; }
   case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: { SV a=A(0),b=A(1); Op op=(cal->builtin==B_UADDO||cal->builtin==B_SADDO)?O_ADD:(cal->builtin==B_USUBO||cal->builtin==B_SSUBO)?O_SUB:O_MUL; bool sg=cal->builtin>=B_SADDO; SV r=binop(op,a,b,w); SV ov;
       if(!a.e&&!b.e&&w<=64){ u128 x=sg?(u128)sx(a.c,w):(u128)a.c,y=sg?(u128)sx(b.c,w):(u128)b.c; u128 z=op==O_ADD?x+y:op==O_SUB?x-y:x*y; bool o=sg? (i128)z!=sx(z,w) : (op==O_SUB? a.c<b.c : z>wmask(w)); ov=C(o); }
       else if(op==O_MUL&&(!a.e||!b.e)&&w<=64){ SV v=a.e?a:b; u64 c=a.e?b.c:a.c; if(!sg){ ov=c? icmp(P_UGT,v,C(m64(w)/c),w):C(0); } else { i64 k=(i64)sx(c,w); i128 mx=sx(m64(w)>>1,w+1>64?64:w), mn=-mx-1; if(k==0) ov=C(0); else if(k==-1) ov=icmp(P_EQ,v,C((u64)mn&m64(w)),w); else { i64 hi=(i64)(k>0?mx/k:mn/k), lo=(i64)(k>0?mn/k:mx/k); ov=fromE(mkBin(O_OR,toE(icmp(P_SGT,v,C((u64)hi&m64(w)),w),1),toE(icmp(P_SLT,v,C((u64)lo&m64(w)),w),1))); } } }
       else if(!sg&&op==O_ADD) ov=icmp(P_ULT,r,a,w); else if(!sg&&op==O_SUB) ov=icmp(P_ULT,a,b,w);
       else { if(w>63){ if(op==O_MUL&&w>64) throw PathEnd{E_ENGINE,"wide symbolic multiply"}; } int W2=op==O_MUL?2*w:w+1; Expr*x=toE(a,w),*y=toE(b,w); x=sg?mkSext(x,W2):mkZext(x,W2); y=sg?mkSext(y,W2):mkZext(y,W2); Expr*z=mkBin(op,x,y); Expr*back=sg?mkSext(mkExtract(z,0,w),W2):mkZext(mkExtract(z,0,w),W2); ov=fromE(mkNot(mkEq(z,back))); }
       retAt(0,r); retAt(1,ov); return; }
   case B_UADDS: for(int k=0;k<ct.retN;k++){ SV a=opAt(0,k),b=opAt(1,k); SV r=binop(O_ADD,a,b,w); retAt(k,ite(icmp(P_ULT,r,a,w),C(m64(w)),r,w)); } return;
   case B_USUBS: for(int k=0;k<ct.retN;k++){ SV a=opAt(0,k),b=opAt(1,k); retAt(k,ite(icmp(P_ULT,a,b,w),C(0),binop(O_SUB,a,b,w),w)); } return;
   case B_SCMP: case B_UCMP: { bool sg=cal->builtin==B_SCMP; int rw=ct.retw; SV a=A(0),b=A(1); ret(ite(icmp(sg?P_SLT:P_ULT,a,b,w),C(m64(rw)),ite(icmp(P_EQ,a,b,w),C(0),C(1),rw),rw)); return; }
   case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN: { int p=cal->builtin==B_UMAX?P_UGE:cal->builtin==B_UMIN?P_ULE:cal->builtin==B_SMAX?P_SGE:P_SLE; for(int k=0;k<ct.retN;k++){ SV a=opAt(0,k),b=opAt(1,k); retAt(k,ite(icmp(p,a,b,w),a,b,w)); } return; }
   case B_VREDOR: case B_VREDAND: case B_VREDADD: { SV r=opAt(0,0); for(int k=1;k<ct.args[0].n;k++) r=binop(cal->builtin==B_VREDOR?O_OR:cal->builtin==B_VREDAND?O_AND:O_ADD,r,opAt(0,k),w); ret(r); return; }
   case B_FPTOUIS: { double d=fpGet(conc(0),w); int rw=ct.retw; double mx=ldexp(1,rw); u64 r= !(d>0)?0: d>=mx?m64(rw):(u64)d; ret(C(r)); return; }
   case B_FPTOSIS: { double d=fpGet(conc(0),w); int rw=ct.retw; double mx=ldexp(1,rw-1); u64 r= std::isnan(d)?0: d>=mx?m64(rw)>>1: d<-mx?(1ull<<(rw-1)):(u64)(i64)d; ret(C(r&m64(rw))); return; }
   case B_FABS: { u64 v=conc(0); ret(C(v&(m64(w)>>1))); return; } case B_FFLOOR: ret(C(fpPut(floor(fpGet(conc(0),w)),w))); return; case B_FCOPYSIGN: { u64 a=conc(0),b=conc(1); u64 sb=1ull<<(w-1); ret(C((a&~sb)|(b&sb))); return; }
   case B_FCLASS: { u64 v=conc(0); u32 m=(u32)conc(1); double x=fpGet(v,w); bool sg=v>>(w-1)&1; u32 c; if(std::isnan(x)){ u64 q=w==32?0x400000ull:0x8000000000000ull; c=v&q?2:1; } else if(std::isinf(x)) c=sg?4:512; else if(x==0) c=sg?32:64; else { bool sub= w==32? !(v&0x7f800000ull) : !(v&0x7ff0000000000000ull); c= sub?(sg?16:128):(sg?8:256); } ret(C((m&c)!=0)); return; }
   case B_FUN: { double x=fpGet(conc(0),w),r; const std::string&n=cal->name; r= n.find(".ceil")!=std::string::npos?ceil(x): n.find(".trunc")!=std::string::npos?trunc(x): n.find(".sqrt")!=std::string::npos?sqrt(x): n.find(".round.")!=std::string::npos?round(x): nearbyint(x); ret(C(fpPut(r,w))); return; }
   case B_FMIN: ret(C(fpPut(fmin(fpGet(conc(0),w),fpGet(conc(1),w)),w))); return; case B_FMAX: ret(C(fpPut(fmax(fpGet(conc(0),w),fpGet(conc(1),w)),w))); return;
   case B_SADDS: case B_SSUBS: for(int k=0;k<ct.retN;k++){ SV a=opAt(0,k),b=opAt(1,k); bool add=cal->builtin==B_SADDS; SV r=binop(add?O_ADD:O_SUB,a,b,w); SV t=binop(O_AND,binop(O_XOR,a,add?r:b,w),binop(O_XOR,add?b:a,r,w),w); SV ov=icmp(P_SLT,t,C(0),w); retAt(k,ite(ov,ite(icmp(P_SLT,a,C(0),w),C(1ull<<(w-1)),C(m64(w)>>1),w),r,w)); } return;
   case B_USHLS: for(int k=0;k<ct.retN;k++){ SV a=opAt(0,k),b=opAt(1,k); SV r=binop(O_SHL,a,b,w); retAt(k,ite(icmp(P_EQ,binop(O_LSHR,r,b,w),a,w),r,C(m64(w)),w)); } return;
   case B_SSHLS: for(int k=0;k<ct.retN;k++){ SV a=opAt(0,k),b=opAt(1,k); SV r=binop(O_SHL,a,b,w); retAt(k,ite(icmp(P_EQ,binop(O_ASHR,r,b,w),a,w),r,ite(icmp(P_SLT,a,C(0),w),C(1ull<<(w-1)),C(m64(w)>>1),w),w)); } return;
   case B_VREDXOR: case B_VREDMUL: { SV r=opAt(0,0); for(int k=1;k<ct.args[0].n;k++) r=binop(cal->builtin==B_VREDXOR?O_XOR:O_MUL,r,opAt(0,k),w); ret(r); return; }
   case B_VREDUMAX: case B_VREDUMIN: case B_VREDSMAX: case B_VREDSMIN: { int p=cal->builtin==B_VREDUMAX?P_UGE:cal->builtin==B_VREDUMIN?P_ULE:cal->builtin==B_VREDSMAX?P_SGE:P_SLE; SV r=opAt(0,0); for(int k=1;k<ct.args[0].n;k++){ SV b=opAt(0,k); r=ite(icmp(p,r,b,w),r,b,w); } ret(r); return; }
   case B_FMA: ret(C(fpPut(fma(fpGet(conc(0),w),fpGet(conc(1),w),fpGet(conc(2),w)),w))); return;
   case B_MALLOC: { u64 n=conc(0); ret(C(allocObj(n))); return; } case B_CALLOC: { u64 a=conc(0),b=conc(1); ret(C(allocObj(a*b))); return; }
   case B_REALLOC: { u64 p=conc(0),n=conc(1); if(!p){ ret(C(allocObj(n))); return; } u64 off; Obj*o=rd(p,0,off); u64 k=std::min<u64>(n,o->size); u64 q=allocObj(n); memCopy(q,p,k); freeObj(p); ret(C(q)); return; }
   case B_FREE: freeObj(conc(0)); return;
   case B_POSIXMEMALIGN: { u64 p=conc(0),n=conc(2); u64 q=allocObj(n); u64 off; Obj*o=wr(p,8,off); storeTo(o,off,C(q),64); ret(C(0)); return; }
   case B_MEMCMP: case B_BCMP: { u64 n=conc(2),p=conc(0),q=conc(1); if(!n){ ret(C(0)); return; } u64 o1,o2; Obj*a=rd(p,n,o1),*b=rd(q,n,o2); bool sym=false; for(u64 i=0;i<n&&!sym;i++) if((a->ov&&a->ov[o1+i])||(b->ov&&b->ov[o2+i])) sym=true;
       if(!sym){ int r=memcmp(a->d+o1,b->d+o2,n); ret(C((u64)(r<0?-1:r>0)&m64(32))); return; }
       if(cal->builtin==B_BCMP){ Expr*eq=mkConst(1,1); for(u64 i=0;i<n;i++) eq=mkBin(O_AND,eq,mkEq(toE(loadFrom(a,o1+i,8),8),toE(loadFrom(b,o2+i,8),8))); ret(fromE(mkZext(mkNot(eq),32))); }
       else { Expr*r=mkConst(0,32); for(i64 i=n-1;i>=0;i--){ Expr*x=toE(loadFrom(a,o1+i,8),8),*y=toE(loadFrom(b,o2+i,8),8); r=mkIte(mkEq(x,y),r,mkIte(mkCmp(O_ULT,x,y),mkConst(m64(32),32),mkConst(1,32))); } ret(fromE(r)); } return; }
   case B_STRLEN: { u64 p=conc(0); u64 n=0; for(;;n++){ SV v=loadAt(C(p+n),8); if(v.e) throw PathEnd{E_ENGINE,"strlen of symbolic data"}; if(!v.c) break; } ret(C(n)); return; }
   case B_GETRANDOM: { u64 p=conc(0),n=conc(1); u64 off; if(n){ Obj*o=wr(p,n,off); for(u64 i=0;i<n;i++) storeTo(o,off+i,fromE(mkTaint(8)),8);} ret(C(n)); return; }
   case B_SYSCALL: { u64 nr=conc(0); if(nr==318){ u64 p=conc(1),n=conc(2); u64 off; Obj*o=wr(p,n,off); for(u64 i=0;i<n;i++) storeTo(o,off+i,fromE(mkTaint(8)),8); ret(C(n)); } else ret(C(0)); return; }
   case B_ERRNO: if(!S->errnoAddr) S->errnoAddr=allocObj(8); ret(C(S->errnoAddr)); return;
   case B_WRITE: { u64 p=conc(1),n=conc(2); if(trace) fprintf(stderr,"[write] %s\n",readStr(p,n).c_str()); ret(C(n)); return; }
   case B_GETENV: case B_ZERO: ret(C(0)); return; case B_ABORT: throw PathEnd{E_PANIC,"abort"};
   case B_VS_SYM: { u64 p=conc(0),n=conc(1),np=conc(2),nn=conc(3); if(S->nsym+(int)n>MAXSYM) throw PathEnd{E_ENGINE,"too many symbolic bytes"}; Sym y; y.name=readStr(np,nn); y.start=S->nsym; y.len=n; S->syms.push_back(y); u64 off; if(n){ Obj*o=wr(p,n,off); for(u64 i=0;i<n;i++) storeTo(o,off+i,SV{0,mkSym(S->nsym+i)},8);} S->nsym+=n; S->pc.dom.resize(std::max<size_t>(S->pc.dom.size(),S->nsym),nullptr); return; }
   case B_VS_ASSUME: { SV c=A(0); if(w!=1) c=icmp(P_NE,c,C(0),w); if(!c.e){ if(!c.c) throw PathEnd{E_ASSUME,""}; return; } if(evalE(c.e)){ addConstraint(S->pc,c.e); return; } std::vector<u8> m; if(!feasible(c.e,m)) throw PathEnd{E_ASSUME,""}; addConstraint(S->pc,c.e); S->pc.model=m; setModelEpoch(); return; }
   case B_VS_VIOL: throw PathEnd{E_VIOL,readStr(conc(0),conc(1))};
   case B_VS_OBS: { u64 p=conc(0),n=conc(1); std::vector<SV> v; if(n){ u64 off; Obj*o=rd(p,n,off); for(u64 i=0;i<n;i++) v.push_back(loadFrom(o,off+i,8)); } S->obs.push_back(v); return; }
   case B_VS_COVER: S->covers|=1ull<<(conc(0)&63); return;
   case B_VS_CONC: ret(C(concretize(A(0),64))); return;
   case B_VS_TRACE: if(trace) fprintf(stderr,"[trace] %s\n",readStr(conc(0),conc(1)).c_str()); return;
   default: throw PathEnd{E_ENGINE,"call of unmodelled external "+cal->name}; } }
static std::string panicLoc(Func*f,const CallT&ct){ try { if(ct.args.empty()) return ""; int o=ct.args.back().op; SV v=o>=0?regs()[o]:f->consts[~o]; if(v.e) return ""; u64 off; Obj*l=rd(v.c,24,off); SV p=loadFrom(l,off,64),n=loadFrom(l,off+8,64),ln=loadFrom(l,off+16,32); if(p.e||n.e||ln.e||n.c>500) return ""; return readStr(p.c,n.c)+":"+std::to_string(ln.c); } catch(PathEnd&){ return ""; } }

static void pushCall(Func*callee,Func*f,const CallT&ct,Inst&I){
  callee->executed=true; Frame*fr=S->st.back(); Frame*n=newFrame(callee); if(S->st.size()>20000){ throw PathEnd{E_CRASH,"stack overflow (unbounded recursion)"}; }
  size_t na=std::min(callee->params.size(),ct.args.size()); for(size_t i=0;i<na;i++){ int o=ct.args[i].op; for(int k=0;k<callee->params[i].second;k++) n->regs[callee->params[i].first+k]=o>=0?fr->regs[o+k]:f->consts[~o+k]; }
  if(callee->frameSize){ u64 a=allocObj(callee->frameSize); n->base=a; n->objId=(a>>24)-256; }
  fr->callInst=fr->pc; S->st.push_back(n); }
static void doMoves(Func*f,Frame*fr,const Edge&E){ static SV tmp[8192]; u32 k=0; SV*R=fr->regs; if(E.moves.size()==1&&E.moves[0].n==1){ auto&m=E.moves[0]; R[m.dst]=m.src>=0?R[m.src]:f->consts[~m.src]; } else { for(auto&m:E.moves) for(int i=0;i<m.n;i++) tmp[k++]=m.src>=0?R[m.src+i]:f->consts[~m.src+i]; k=0; for(auto&m:E.moves) for(int i=0;i<m.n;i++) R[m.dst+i]=tmp[k++]; } fr->pc=E.target; }

static void runState(){
  setModelEpoch(); uniqTop(); Frame*fr=S->st.back(); Func*f=fr->f; SV*R=fr->regs;
  if(S->resumeEdge>=0){ doMoves(f,fr,f->edges[S->resumeEdge]); S->resumeEdge=-1; }
  auto reload=[&]{ fr=S->st.back(); f=fr->f; R=fr->regs; };
  #define OPV(o) ((o)>=0?R[o]:f->consts[~(o)])
  #define OPK(o,k) ((o)>=0?R[(o)+(k)]:f->consts[~(o)+(k)])
  u64 lastCheck=S->steps;
  for(;;){
    Inst&I=f->code[fr->pc]; S->steps++; nInst++;
    if(S->steps-lastCheck>200000){ lastCheck=S->steps; if(S->steps>maxSteps) throw PathEnd{E_HANG,"no end within "+std::to_string(maxSteps)+" executed instructions"}; if(now()>deadline||sh->stop[hIdx]){ throw PathEnd{E_ENGINE,"deadline"}; } }
    switch(I.op){
     case I_BIN: if(I.nc==1){ SV a=OPV(I.a),b=OPV(I.b); if(!b.e&&!a.e){ R[I.dst]=binop((Op)I.sub,a,b,I.w); } else { if(b.e&&(I.sub==O_UDIV||I.sub==O_UREM||I.sub==O_SDIV||I.sub==O_SREM)){ Expr*z=mkEq(b.e,mkConst(0,I.w)); std::vector<u8> m; if(!isC(z)&&feasible(z,m)){ u64 c=concretize(b,I.w); reload(); b=C(c); } } R[I.dst]=binop((Op)I.sub,a,b,I.w); } } else for(int k=0;k<I.nc;k++) R[I.dst+k]=binop((Op)I.sub,OPK(I.a,k),OPK(I.b,k),I.w); break;
     case I_ICMP: for(int k=0;k<I.nc;k++) R[I.dst+k]=icmp(I.sub,OPK(I.a,k),OPK(I.b,k),I.w2); break;
     case I_SELECT: if(I.flags){ for(int k=0;k<I.nc;k++) R[I.dst+k]=ite(OPK(I.a,k),OPK(I.b,k),OPK(I.c,k),I.w); } else { SV c=OPV(I.a); if(c.e&&(I.nc>1||I.w==64)){ bool same=true; for(int k=0;k<I.nc&&same;k++){ SV x=OPK(I.b,k),y=OPK(I.c,k); same=x.e==y.e&&(x.e||x.c==y.c); } if(!same){ bool v=decide(c.e,-1,-1); reload(); c=C(v); } } if(I.nc==1) R[I.dst]=ite(c,OPV(I.b),OPV(I.c),I.w); else { SV t[64]; std::vector<SV> big; SV*x=t; if(I.nc>64){ big.resize(I.nc); x=big.data(); } for(int k=0;k<I.nc;k++) x[k]=ite(c,OPK(I.b,k),OPK(I.c,k),I.ty->comps[k].w); for(int k=0;k<I.nc;k++) R[I.dst+k]=x[k]; } } break;
     case I_ZEXT: case I_SEXT: if(I.nc==1&&I.w==64){ SV a=OPV(I.a); if(a.e&&a.e->op==O_TABLE&&fewValues(a.e,5)){ u64 c=concretize(a,I.w2); reload(); R[I.dst]=extBits(C(c),I.w2,I.w,I.op==I_SEXT); break; } } for(int k=0;k<I.nc;k++) R[I.dst+k]=extBits(OPK(I.a,k),I.w2,I.w,I.op==I_SEXT); break;
     case I_TRUNC: for(int k=0;k<I.nc;k++) R[I.dst+k]=truncBits(OPK(I.a,k),I.w); break;
     case I_COPY: for(int k=0;k<I.nc;k++) R[I.dst+k]=OPK(I.a,k); break;
     case I_BITCAST: { // vector <-> scalar/vector
        int tot=I.x*I.w2; if(tot<=128){ bool sym=false; for(u32 k=0;k<I.x;k++) if(OPK(I.a,k).e) sym=true; if(!sym&&I.w<=64&&I.w2<=64){ u128 v=0; for(int k=I.x-1;k>=0;k--) v=(v<<I.w2)|OPK(I.a,k).c; if(I.w2==64&&I.x==2) v=((u128)OPK(I.a,1).c<<64)|OPK(I.a,0).c; for(int k=0;k<I.nc;k++) R[I.dst+k]=C((u64)((v>>(k*I.w))&wmask(I.w))); }
          else { Expr*e=nullptr; for(int k=I.x-1;k>=0;k--){ Expr*b=toE(OPK(I.a,k),I.w2); e=e?mkConcat(e,b):b; } for(int k=0;k<I.nc;k++) R[I.dst+k]=fromE(mkExtract(e,k*I.w,I.w)); } }
        else throw PathEnd{E_ENGINE,"wide bitcast"}; break; }
     case I_LOAD: { SV a=OPV(I.a); if(I.nc==1){ SV v=loadAt(a,I.w); reload(); R[I.dst]=v; } else { if(a.e){ u64 c=concretize(a,64); reload(); a=C(c); } if(I.w==1&&I.ty->k==T_VEC) throw PathEnd{E_ENGINE,"i1 vector load"}; for(int k=0;k<I.nc;k++){ SV v=loadAt(C(a.c+I.ty->comps[k].off),I.ty->comps[k].w); R[I.dst+k]=v; } } break; }
     case I_STORE: { SV a=OPV(I.b); if(a.e){ u64 c=concretize(a,64); reload(); a=C(c); } if(I.w==1&&I.ty->k==T_VEC) throw PathEnd{E_ENGINE,"i1 vector store"}; for(int k=0;k<I.nc;k++){ int w=I.ty->comps[k].w; u64 off; Obj*o=wr(a.c+I.ty->comps[k].off,(w+7)/8,off); storeTo(o,off,OPK(I.a,k),w); } break; }
     case I_GEP: { Gep&g=f->geps[I.x]; SV b=OPV(I.a); u64 off=g.off; Expr*e=nullptr; for(auto&x:g.idx){ SV v=R[x.op]; if(!v.e){ i64 s=(i64)(v.c<<(64-x.w))>>(64-x.w); off+=(u64)s*(u64)x.scale; } else { Expr*t=mkBin(O_MUL,mkSext(v.e,64),mkConst((u64)x.scale,64)); e=e?mkBin(O_ADD,e,t):t; } }
        if(!e&&!b.e) R[I.dst]=C(b.c+off); else { Expr*r=b.e?b.e:nullptr; if(e) r=r?mkBin(O_ADD,r,e):e; u64 k=off+(b.e?0:b.c); R[I.dst]=fromE(mkBin(O_ADD,r,mkConst(k,64))); } break; }
     case I_ALLOCA: R[I.dst]=C(fr->base+I.x); break;
     case I_EXTRACTV: for(int k=0;k<I.nc;k++) R[I.dst+k]=OPK(I.a,(int)I.x+k); break;
     case I_INSERTV: { SV t[256]; if(I.nc>256) throw PathEnd{E_ENGINE,"big insertvalue"}; for(int k=0;k<I.nc;k++) t[k]=OPK(I.a,k); for(int k=0;k<I.c;k++) t[I.x+k]=OPK(I.b,k); for(int k=0;k<I.nc;k++) R[I.dst+k]=t[k]; break; }
     case I_EXTRACTE: { SV ix=OPV(I.b); if(ix.e){ u64 c=concretize(ix,I.w2); reload(); ix=C(c); } R[I.dst]=OPK(I.a,(int)ix.c); break; }
     case I_INSERTE: { SV ix=OPV(I.c); if(ix.e){ u64 c=concretize(ix,I.w2); reload(); ix=C(c); } SV t[64]; for(int k=0;k<I.nc;k++) t[k]=OPK(I.a,k); t[ix.c]=OPV(I.b); for(int k=0;k<I.nc;k++) R[I.dst+k]=t[k]; break; }
     case I_SHUFFLE: { auto&m=f->switches[I.x].cases; SV t[64]; for(int k=0;k<I.nc;k++){ u64 i=(u64)m[k].v&0xffffffff; t[k]=i<(u64)I.c?OPK(I.a,(int)i):(i<2*(u64)I.c?OPK(I.b,(int)(i-I.c)):C(0)); } for(int k=0;k<I.nc;k++) R[I.dst+k]=t[k]; break; }
     case I_ATOMICRMW: { SV a=OPV(I.a); if(a.e){ u64 c=concretize(a,64); reload(); a=C(c);} SV old=loadAt(a,I.w),v=OPV(I.b),nv; switch(I.sub){ case 0:nv=v;break; case 1:nv=binop(O_ADD,old,v,I.w);break; case 2:nv=binop(O_SUB,old,v,I.w);break; case 3:nv=binop(O_AND,old,v,I.w);break; case 4:nv=binop(O_OR,old,v,I.w);break; case 5:nv=binop(O_XOR,old,v,I.w);break; case 6:nv=ite(icmp(P_UGE,old,v,I.w),old,v,I.w);break; case 7:nv=ite(icmp(P_ULE,old,v,I.w),old,v,I.w);break; default: throw PathEnd{E_ENGINE,"atomicrmw"}; } u64 off; Obj*o=wr(a.c,(I.w+7)/8,off); storeTo(o,off,nv,I.w); R[I.dst]=old; break; }
     case I_CMPXCHG: { SV a=OPV(I.a); if(a.e){ u64 c=concretize(a,64); reload(); a=C(c);} SV old=loadAt(a,I.w2); SV eq=icmp(P_EQ,old,OPV(I.b),I.w2); SV nv=ite(eq,OPV(I.c),old,I.w2); u64 off; Obj*o=wr(a.c,(I.w2+7)/8,off); storeTo(o,off,nv,I.w2); R[I.dst]=old; R[I.dst+1]=eq; break; }
     case I_FCMP: { SV a=OPV(I.a),b=OPV(I.b); if(a.e||b.e){ u64 x=concretize(a,I.w2),y=concretize(b,I.w2); reload(); a=C(x); b=C(y); } double x=fpGet(a.c,I.w2),y=fpGet(b.c,I.w2); bool un=std::isnan(x)||std::isnan(y); bool r=false; int p=I.sub; if(p==0) r=false; else if(p==15) r=true; else if(p==7) r=!un; else if(p==14) r=un; else { bool u=p>=8; int q=u?p-7:p; bool c=q==1?x==y:q==2?x>y:q==3?x>=y:q==4?x<y:q==5?x<=y:x!=y; r=u?(un||c):(!un&&c); } R[I.dst]=C(r); break; }
     case I_FBIN: { SV a=OPV(I.a),b=OPV(I.b); if(a.e||b.e){ u64 x=concretize(a,I.w),y=concretize(b,I.w); reload(); a=C(x); b=C(y); } double x=fpGet(a.c,I.w),y=fpGet(b.c,I.w); double r; if(I.w==32){ float fx=x,fy=y; float q=I.sub==F_ADD?fx+fy:I.sub==F_SUB?fx-fy:I.sub==F_MUL?fx*fy:I.sub==F_DIV?fx/fy:fmodf(fx,fy); r=q; } else r=I.sub==F_ADD?x+y:I.sub==F_SUB?x-y:I.sub==F_MUL?x*y:I.sub==F_DIV?x/y:fmod(x,y); R[I.dst]=C(fpPut(r,I.w)); break; }
     case I_FNEG: { SV a=OPV(I.a); R[I.dst]=binop(O_XOR,a,C(1ull<<(I.w-1)),I.w); break; }
     case I_FPCONV: { SV a=OPV(I.a); if(a.e){ u64 c=concretize(a,I.w2); reload(); a=C(c);} u64 r=0; switch(I.sub){ case FC_FPTOUI: r=(u64)fpGet(a.c,I.w2)&m64(I.w); break; case FC_FPTOSI: r=(u64)(i64)fpGet(a.c,I.w2)&m64(I.w); break; case FC_UITOFP: r=I.w==32?fpPut((float)a.c,32):fpPut((double)a.c,64); break; case FC_SITOFP: { i64 s=(i64)(a.c<<(64-I.w2))>>(64-I.w2); r=I.w==32?fpPut((float)s,32):fpPut((double)s,64); break; } default: r=fpPut(fpGet(a.c,I.w2),I.w); } R[I.dst]=C(r); break; }
     case I_NOP: break;
     case I_BR: doMoves(f,fr,f->edges[I.x]); continue;
     case I_CONDBR: { SV c=OPV(I.a); bool v; if(!c.e) v=c.c; else { v=decide(c.e,I.x,I.b); reload(); } doMoves(f,fr,f->edges[v?I.x:(u32)I.b]); continue; }
     case I_SWITCH: { SwitchT&sw=f->switches[I.x]; SV v=OPV(I.a); u32 e;
        if(!v.e&&I.w<=64){ auto it=sw.map.find(v.c); e=it==sw.map.end()?sw.def:it->second; }
        else { // group cases by edge; explore each feasible target once
          nSymBr++; std::map<u32,Expr*> conds; Expr*any=mkConst(0,1); for(auto&cs:sw.cases){ Expr*q=mkEq(v.e,mkConst(cs.v,I.w)); auto&x=conds[cs.edge]; x=x?mkBin(O_OR,x,q):q; any=mkBin(O_OR,any,q); } auto&dx=conds[sw.def]; dx=dx?mkBin(O_OR,dx,mkNot(any)):mkNot(any);
          e=sw.def; bool found=false; for(auto&p:conds) if(evalE(p.second)){ e=p.first; found=true; break; } if(!found) throw PathEnd{E_ENGINE,"switch"}; Expr*mine=conds[e];
          for(auto&p:conds) if(p.first!=e&&!(isC(p.second)&&!p.second->lo)){ std::vector<u8> m; if(feasible(p.second,m)) pushAlt(p.second,m,p.first); }
          uniqTop(); reload(); if(!isC(mine)) addConstraint(S->pc,mine); }
        doMoves(f,fr,f->edges[e]); continue; }
     case I_RET: { 
        SV t[64]; std::vector<SV> big; SV*x=t; if(I.nc>64){ big.resize(I.nc); x=big.data(); } for(int k=0;k<I.nc;k++) x[k]=OPK(I.a,k);
        if(fr->objId!=0xffffffff){ objDec(S->heap[fr->objId]); S->heap[fr->objId]=nullptr; S->freeIds.push_back(fr->objId); }
        frameDec(fr); S->st.pop_back(); if(S->st.empty()) throw PathEnd{E_OK,""};
        uniqTop(); reload(); Inst&CI=f->code[fr->callInst]; CallT&ct=f->calls[CI.x]; for(int k=0;k<ct.retN;k++) R[CI.dst+k]=k<I.nc?x[k]:C(0);
        if(ct.normalEdge>=0) doMoves(f,fr,f->edges[ct.normalEdge]); else fr->pc=fr->callInst+1; continue; }
     case I_CALL: { CallT&ct=f->calls[I.x]; Func*cal;
        if(ct.indirect){ SV v=OPV(ct.fnop); if(v.e){ u64 c=concretize(v,64); reload(); v=C(c); } auto it=M.faddr.find(v.c); if(it==M.faddr.end()) throw PathEnd{E_CRASH,"indirect call of a non-function"}; cal=M.funcs[it->second]; if(!cal->defined){ CallT c2=ct; c2.callee=cal->idx; if(cal->isPanic) throw PathEnd{E_PANIC,cal->name}; doCallBuiltin(f,c2,I,fr); reload(); if(ct.normalEdge>=0) { doMoves(f,fr,f->edges[ct.normalEdge]); continue; } break; } }
        else cal=M.funcs[ct.callee];
        if(cal->isPanic){ throw PathEnd{E_PANIC,"panic at "+panicLoc(f,ct)+" via "+cal->name}; }
        if(!cal->defined){ doCallBuiltin(f,ct,I,fr); reload(); if(ct.normalEdge>=0){ doMoves(f,fr,f->edges[ct.normalEdge]); continue; } break; }
        pushCall(cal,f,ct,I); reload(); continue; }
     case I_UNREACHABLE: throw PathEnd{E_CRASH,"reached unreachable code"};
     case I_LANDINGPAD: throw PathEnd{E_ENGINE,"landing pad reached"};
     default: throw PathEnd{E_ENGINE,"bad opcode"}; }
    fr->pc++;
  } }
static void finishPath(const PathEnd&pe){
  maxPathSteps=std::max(maxPathSteps,S->steps);
  switch(pe.k){
   case E_OK: nPaths++; coversAll|=S->covers; crossCheck(S->pc); setModelEpoch(); { if((int)samples.size()<nSamples) samples.push_back(report("ok","")); else { u64 r=rnd()%nPaths; if(r<(u64)nSamples) samples[r]=report("ok",""); } } break;
   case E_ASSUME: nAssume++; break;
   case E_ENGINE: incomplete=true; incompleteWhy=pe.msg+" in "+stackStr(); break;
   default: nPaths++; crossCheck(S->pc); setModelEpoch(); violations.push_back(report(endName[pe.k],pe.msg)); if(++sh->viol[hIdx]>=maxViol) sh->stop[hIdx]=1; } }
static std::vector<pid_t> kids; static int partNo=0;
static void maybeShare(){
  if(noSteal||pending.size()<2) return; int a=sh->active.load(); if(a>=sh->jobs) return; if(!sh->active.compare_exchange_strong(a,a+1)) return;
  std::vector<State*> give,keep; size_t n=pending.size(); for(size_t i=0;i<n;i++) ((i%2==0)?give:keep).push_back(pending[i]);
  fflush(stdout); fflush(stderr); pid_t p=fork(); if(p<0){ sh->active--; return; }
  if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); kids.clear(); violations.clear(); samples.clear(); nPaths=nAssume=nForks=nInst=nSymBr=nConc=maxPathSteps=coversAll=0; SS_=SolverStats(); incomplete=false; partNo=++sh->parts; rng^=0x9E3779B97F4A7C15ull*(partNo+1); if(!rng) rng=1; for(auto f:M.funcs) f->executed=false; pending=give; }
  else { kids.push_back(p); for(auto s:give) delete s; pending=keep; } }
static void explore(){
  while(!pending.empty()){
    if(sh->stop[hIdx]){ break; }
    if(now()>deadline){ incomplete=true; incompleteWhy="time limit"; break; }
    maybeShare(); S=pending.back(); pending.pop_back(); 
    try { runState(); } catch(PathEnd&pe){ if(pe.msg=="deadline"){ if(!sh->stop[hIdx]){ incomplete=true; incompleteWhy="time limit"; } } else finishPath(pe); }
    delete S; S=nullptr; } }
static void flushPart(){
  std::string fn=outDir+"/"+hName+"."+std::to_string(partNo)+".json"; FILE*o=fopen((fn+".tmp").c_str(),"w"); if(!o){ perror(fn.c_str()); exit(3);} 
  auto rep=[&](const Rep&r){ fprintf(o,"{\"kind\":\"%s\",\"msg\":\"%s\",\"stack\":\"%s\",\"covers\":%llu,\"obs\":\"%s\",\"syms\":[",r.kind.c_str(),jesc(r.msg).c_str(),jesc(r.stack).c_str(),(unsigned long long)r.covers,r.obs.c_str()); for(size_t i=0;i<r.syms.size();i++) fprintf(o,"%s[\"%s\",\"%s\"]",i?",":"",jesc(r.syms[i].first).c_str(),r.syms[i].second.c_str()); fprintf(o,"]}"); };
  fprintf(o,"{\"harness\":\"%s\",\"paths\":%llu,\"assumed_away\":%llu,\"forks\":%llu,\"instructions\":%llu,\"symbolic_branches\":%llu,\"concretizations\":%llu,\"max_path_steps\":%llu,\"covers\":%llu,\"incomplete\":%s,\"why\":\"%s\",\"z3_queries\":%llu,\"table_proofs\":%llu,\"cache_hits\":%llu,\"domain_decided\":%llu,\"unsat\":%llu,\"sat\":%llu,\"unknown\":%llu,\"z3_s\":%.3f,\"stopped\":%s,",
    hName.c_str(),(unsigned long long)nPaths,(unsigned long long)nAssume,(unsigned long long)nForks,(unsigned long long)nInst,(unsigned long long)nSymBr,(unsigned long long)nConc,(unsigned long long)maxPathSteps,(unsigned long long)coversAll,incomplete?"true":"false",jesc(incompleteWhy).c_str(),(unsigned long long)SS_.z3_queries,(unsigned long long)SS_.tt_proofs,(unsigned long long)SS_.cache_hits,(unsigned long long)SS_.tt_decided,(unsigned long long)SS_.unsat,(unsigned long long)SS_.sat,(unsigned long long)SS_.unknowns,SS_.z3_s,sh->stop[hIdx]?"true":"false");
  fprintf(o,"\"violations\":["); for(size_t i=0;i<violations.size();i++){ if(i) fprintf(o,","); rep(violations[i]); } fprintf(o,"],\"samples\":["); for(size_t i=0;i<samples.size();i++){ if(i) fprintf(o,","); rep(samples[i]); } fprintf(o,"],\"functions\":["); bool first=true; for(auto f:M.funcs) if(f->executed){ fprintf(o,"%s\"%s\"",first?"":",",jesc(f->name).c_str()); first=false; } fprintf(o,"]}\n"); fclose(o); rename((fn+".tmp").c_str(),fn.c_str()); }
static int runHarness(double limit){
  deadline=now()+limit; rng=seed*0x9E3779B97F4A7C15ull+12345; auto it=M.fidx.find(hName); if(it==M.fidx.end()||!M.funcs[it->second]->defined){ fprintf(stderr,"no harness %s\n",hName.c_str()); return 3; }
  Func*f=M.funcs[it->second]; f->executed=true; State*s=new State(); s->pc.model.assign(MAXSYM,0); for(u32 g:mutList){ Obj*o=newObj(M.globals[g].size); memcpy(o->d,M.gdata[g].data(),M.globals[g].size); s->gl.push_back(o); } S=s; Frame*fr=newFrame(f); if(f->frameSize){ u64 a=allocObj(f->frameSize); fr->base=a; fr->objId=(a>>24)-256; } s->st.push_back(fr); pending.push_back(s);
  explore(); flushPart(); sh->active--; int rc=0; for(pid_t k:kids){ int st; waitpid(k,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) rc=4; } return rc; }
int main(int argc,char**argv){
  std::vector<std::string> hs; double limit=600; int jobs=8; const char*ll=nullptr; outDir="/tmp/symx-out";
  for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--out") outDir=argv[++i]; else if(a=="--jobs") jobs=atoi(argv[++i]); else if(a=="--time") limit=atof(argv[++i]); else if(a=="--max-steps") maxSteps=atoll(argv[++i]); else if(a=="--seed") seed=atoll(argv[++i]); else if(a=="--trace") trace=true; else if(a=="--samples") nSamples=atoi(argv[++i]); else if(a=="--max-viol") maxViol=atoi(argv[++i]); else if(a=="--no-share") noSteal=true; else if(a=="--z3-timeout") g_z3_timeout_ms=atoi(argv[++i]); else if(!ll) ll=argv[i]; else hs.push_back(a); }
  if(!ll){ fprintf(stderr,"usage: symx file.ll [--out d] [--jobs n] [--time s] harness...\n"); return 2; }
  loadModule(ll); for(auto f:M.funcs){ const std::string&n=f->name; f->isPanic = n.find("4core9panicking")!=std::string::npos||n.find("rust_begin_unwind")!=std::string::npos||n.find("rust_panic")!=std::string::npos||n=="_Unwind_RaiseException"||n.find("18handle_alloc_error")!=std::string::npos; if(f->defined&&n.find("RandomState")!=std::string::npos&&n.find("8hash_one")!=std::string::npos){ /* any hash function is allowed: all keys collide */ f->defined=false; f->builtin=B_ZERO; } else if(f->defined){ if(!f->isPanic) compileFunc(f); } else f->builtin=builtinId(n); }
  constG.resize(M.globals.size()); mutIdx.assign(M.globals.size(),-1); for(u32 i=0;i<M.globals.size();i++){ if(M.globals[i].constant){ Obj*o=newObj(M.globals[i].size); memcpy(o->d,M.gdata[i].data(),M.globals[i].size); o->rc=1; constG[i]=o; } else { mutIdx[i]=mutList.size(); mutList.push_back(i); } }
  sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sh->jobs=jobs; sh->active=0; sh->parts=0; int bad=0;
  std::map<pid_t,std::string> running; auto reap=[&](bool block){ int st; pid_t p=waitpid(-1,&st,block?0:WNOHANG); if(p>0){ if(!WIFEXITED(st)||WEXITSTATUS(st)){ fprintf(stderr,"worker for %s ended with status %x\n",running[p].c_str(),st); bad=1; if(!WIFEXITED(st)) sh->active--; else if(WEXITSTATUS(st)!=4) sh->active--; } running.erase(p); return true; } return false; };
  for(size_t i=0;i<hs.size();i++){ while(sh->active.load()>=jobs){ if(!reap(false)) usleep(3000); } while(reap(false)); sh->active++; int base=sh->parts.load(); (void)base; pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); hIdx=i; hName=hs[i]; partNo=++sh->parts; double t0=now(); int rc=runHarness(limit); (void)t0; fflush(stderr); _exit(rc); } running[p]=hs[i]; }
  while(!running.empty()) reap(true);
  return bad?3:0; }
