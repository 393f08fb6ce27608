#include "solver.h"
#include <time.h>
SolverStats SS_; unsigned g_z3_timeout_ms=20000;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static Z3_context ctx=nullptr; static Z3_solver slv; static Z3_sort sortOf[129];
static void init(){ if(ctx) return; Z3_config c=Z3_mk_config(); ctx=Z3_mk_context(c); Z3_set_error_handler(ctx,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); exit(3); });
  slv=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,slv); Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),g_z3_timeout_ms); Z3_solver_set_params(ctx,slv,p);
  for(int i=1;i<=128;i++){ sortOf[i]=Z3_mk_bv_sort(ctx,i); Z3_inc_ref(ctx,Z3_sort_to_ast(ctx,sortOf[i])); } }
static void setTimeout(unsigned ms){ static unsigned cur=0; if(cur==ms) return; cur=ms; Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),ms); Z3_solver_set_params(ctx,slv,p); Z3_params_dec_ref(ctx,p); }
static Z3_ast keep(Z3_ast a){ Z3_inc_ref(ctx,a); return a; }
static Z3_ast symAst[MAXSYM];
static Z3_ast zsym(int i){ if(!symAst[i]){ char b[16]; snprintf(b,16,"s%d",i); symAst[i]=keep(Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,b),sortOf[8])); } return symAst[i]; }
static Z3_ast zconst(u128 v,int w){ if(w<=64) return Z3_mk_unsigned_int64(ctx,(u64)v,sortOf[w]); 
  return Z3_mk_concat(ctx,Z3_mk_unsigned_int64(ctx,(u64)(v>>64),sortOf[w-64]),Z3_mk_unsigned_int64(ctx,(u64)v,sortOf[64])); }
static Z3_ast b2v(Z3_ast b){ return Z3_mk_ite(ctx,b,Z3_mk_unsigned_int64(ctx,1,sortOf[1]),Z3_mk_unsigned_int64(ctx,0,sortOf[1])); }
static Z3_ast v2b(Z3_ast v){ return Z3_mk_eq(ctx,v,Z3_mk_unsigned_int64(ctx,1,sortOf[1])); }
static Z3_ast toZ3(Expr*e);
static Z3_ast tableTree(const std::string&d,int n,Z3_ast idx,int bit,u64 off){
  if(off>=d.size()) return zconst(0,n*8);
  if(bit<0){ u128 v=0; for(int i=n-1;i>=0;i--) v=(v<<8)|(u8)(off+i<d.size()?d[off+i]:0); return zconst(v,n*8); }
  Z3_ast l=keep(tableTree(d,n,idx,bit-1,off)), h=keep(tableTree(d,n,idx,bit-1,off|(1ull<<bit)));
  if(l==h) return l;
  return Z3_mk_ite(ctx,v2b(Z3_mk_extract(ctx,bit,bit,idx)),h,l); }
static Z3_ast toZ3b(Expr*e); // boolean view of a 1-bit expr
static std::unordered_map<Expr*,Z3_ast> boolMemo;
static Z3_ast toZ3b_(Expr*e){
  switch(e->op){
   case O_CONST: return e->lo?Z3_mk_true(ctx):Z3_mk_false(ctx);
   case O_EQ: if(e->k[0]->w==1) return Z3_mk_iff(ctx,toZ3b(e->k[0]),toZ3b(e->k[1])); return Z3_mk_eq(ctx,toZ3(e->k[0]),toZ3(e->k[1]));
   case O_ULT: return Z3_mk_bvult(ctx,toZ3(e->k[0]),toZ3(e->k[1])); case O_ULE: return Z3_mk_bvule(ctx,toZ3(e->k[0]),toZ3(e->k[1]));
   case O_SLT: return Z3_mk_bvslt(ctx,toZ3(e->k[0]),toZ3(e->k[1])); case O_SLE: return Z3_mk_bvsle(ctx,toZ3(e->k[0]),toZ3(e->k[1]));
   case O_AND: case O_OR: { Z3_ast x[2]={toZ3b(e->k[0]),toZ3b(e->k[1])}; return e->op==O_AND?Z3_mk_and(ctx,2,x):Z3_mk_or(ctx,2,x); }
   case O_XOR: if(isCv(e->k[1],1)) return Z3_mk_not(ctx,toZ3b(e->k[0])); return Z3_mk_xor(ctx,toZ3b(e->k[0]),toZ3b(e->k[1]));
   case O_ITE: return Z3_mk_ite(ctx,toZ3b(e->k[0]),toZ3b(e->k[1]),toZ3b(e->k[2]));
   default: return v2b(toZ3(e)); } }
static Z3_ast toZ3b(Expr*e){ auto it=boolMemo.find(e); if(it!=boolMemo.end()) return it->second; Z3_ast a=keep(toZ3b_(e)); boolMemo[e]=a; return a; }
static Z3_ast toZ3_(Expr*e){
  int w=e->w;
  switch(e->op){
   case O_CONST: return zconst(cval(e),w);
   case O_SYM: return zsym((int)e->lo); case O_TAINT: return zconst(0,w);
   case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: return b2v(toZ3b(e));
   case O_CONCAT: return Z3_mk_concat(ctx,toZ3(e->k[0]),toZ3(e->k[1]));
   case O_EXTRACT: return Z3_mk_extract(ctx,(unsigned)(e->lo+w-1),(unsigned)e->lo,toZ3(e->k[0]));
   case O_ZEXT: return Z3_mk_zero_ext(ctx,w-e->k[0]->w,toZ3(e->k[0])); case O_SEXT: return Z3_mk_sign_ext(ctx,w-e->k[0]->w,toZ3(e->k[0]));
   case O_ITE: return Z3_mk_ite(ctx,toZ3b(e->k[0]),toZ3(e->k[1]),toZ3(e->k[2]));
   case O_TABLE: { Z3_ast idx=toZ3(e->k[0]); int bits=0; while((1ull<<bits)<e->blob->data.size()) bits++; if(bits>=e->k[0]->w) return tableTree(e->blob->data,(int)e->lo,idx,e->k[0]->w-1,0); Z3_ast t=tableTree(e->blob->data,(int)e->lo,idx,bits-1,0); return Z3_mk_ite(ctx,Z3_mk_bvult(ctx,idx,zconst((u128)1<<bits,e->k[0]->w)),t,zconst(0,w)); }
   default: break; }
  Z3_ast a=toZ3(e->k[0]),b=toZ3(e->k[1]);
  switch(e->op){ case O_ADD:return Z3_mk_bvadd(ctx,a,b); case O_SUB:return Z3_mk_bvsub(ctx,a,b); case O_MUL:return Z3_mk_bvmul(ctx,a,b);
   case O_UDIV:return Z3_mk_bvudiv(ctx,a,b); case O_UREM:return Z3_mk_bvurem(ctx,a,b); case O_SDIV:return Z3_mk_bvsdiv(ctx,a,b); case O_SREM:return Z3_mk_bvsrem(ctx,a,b);
   case O_AND:return Z3_mk_bvand(ctx,a,b); case O_OR:return Z3_mk_bvor(ctx,a,b); case O_XOR:return Z3_mk_bvxor(ctx,a,b);
   case O_SHL:return Z3_mk_bvshl(ctx,a,b); case O_LSHR:return Z3_mk_bvlshr(ctx,a,b); case O_ASHR:return Z3_mk_bvashr(ctx,a,b); default: abort(); } }
static Z3_ast toZ3(Expr*e){ if(!e->z3) e->z3=keep(toZ3_(e)); return e->z3; }

static std::unordered_map<ByteSet,Dom*,BSHash> doms;
Dom* internDom(const ByteSet&s){ auto&d=doms[s]; if(!d) d=new Dom{s,(u32)doms.size()}; return d; }
static std::map<std::pair<int,u32>,Z3_ast> domAst;
static Z3_ast zdom(int s,Dom*d){ auto&a=domAst[{s,d->id}]; if(a) return a; std::vector<Z3_ast> ors; 
  for(int i=0;i<256;){ if(!d->s.get(i)){ i++; continue; } int j=i; while(j+1<256&&d->s.get(j+1)) j++; Z3_ast v=zsym(s);
    if(i==j) ors.push_back(keep(Z3_mk_eq(ctx,v,zconst(i,8)))); else { Z3_ast c[2]={Z3_mk_bvule(ctx,zconst(i,8),v),Z3_mk_bvule(ctx,v,zconst(j,8))}; keep(c[0]);keep(c[1]); ors.push_back(keep(Z3_mk_and(ctx,2,c))); } i=j+1; }
  a=keep(ors.empty()?Z3_mk_false(ctx):Z3_mk_or(ctx,ors.size(),ors.data())); return a; }

static std::unordered_map<Expr*,ByteSet> proven;
// z3 proves, once per distinct single-byte condition, that its value set is the one the byte-domain reasoning uses:
// in one query over all byte values, or (arithmetic-heavy conditions) one value of the current domain at a time.
static void proveTT(Expr*e,Dom*dom){ ByteSet&done=proven[e]; ByteSet all=~ByteSet(); ByteSet need=(dom?dom->s:all)&~done; if(need.empty()) return; init(); const ByteSet&t=truthTable(e); int s=e->sup.first(); double t0=now();
  static std::unordered_map<Expr*,char> hard; Z3_ast x=nullptr; Z3_lbool r=Z3_L_UNDEF;
  if(!e->hasMul&&!hard[e]){ x=keep(Z3_mk_xor(ctx,toZ3b(e),zdom(s,internDom(t))));
    setTimeout(200); Z3_solver_push(ctx,slv); Z3_solver_assert(ctx,slv,x); r=Z3_solver_check(ctx,slv); Z3_solver_pop(ctx,slv,1); setTimeout(g_z3_timeout_ms); SS_.z3_queries++; SS_.tt_proofs++; if(r==Z3_L_FALSE) done=all; else hard[e]=1; }
  if(r==Z3_L_UNDEF){ // one query per byte value
    SS_.tt_proofs++; Z3_ast b=toZ3b(e); r=Z3_L_FALSE; for(int v=0;v<256&&r==Z3_L_FALSE;v++) if(need.get(v)){ Z3_ast from[1]={zsym(s)},to[1]={zconst(v,8)}; Z3_ast y=Z3_simplify(ctx,Z3_substitute(ctx,b,1,from,to)); if(t.get(v)) y=Z3_mk_not(ctx,y); y=Z3_simplify(ctx,y); SS_.z3_queries++; r=Z3_get_bool_value(ctx,y); if(r==Z3_L_UNDEF){ Z3_inc_ref(ctx,y); Z3_solver_push(ctx,slv); Z3_solver_assert(ctx,slv,y); r=Z3_solver_check(ctx,slv); Z3_solver_pop(ctx,slv,1); } if(r==Z3_L_FALSE) done.set(v); } if(getenv("SYMX_SLOW")&&now()-t0>0.1) fprintf(stderr,"split proof %.2fs %s\n",now()-t0,exprStr(e,4).c_str()); }
  SS_.z3_s+=now()-t0;
  if(r!=Z3_L_FALSE){ fprintf(stderr,"solver disagrees with byte-domain table for %s (r=%d)\n",exprStr(e).c_str(),(int)r); exit(3); } SS_.unsat++; }

struct VecHash { size_t operator()(const std::vector<u64>&v) const { u64 h=v.size(); for(u64 x:v){ h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; } return h; } };
struct Res { int r; std::vector<std::pair<int,u8>> asg; };
static std::unordered_map<std::vector<u64>,Res,VecHash> cache;

int checkSat(const PathCond&pc,Expr*extra,std::vector<u8>&model){
  if(isC(extra)){ model=pc.model; return extra->lo?1:0; }
  Mask m=extra->sup; std::vector<Expr*> cs; std::vector<char> used(pc.multi.size(),0);
  for(bool ch=true;ch;){ ch=false; for(size_t i=0;i<pc.multi.size();i++) if(!used[i]&&pc.multi[i]->sup.inter(m)){ used[i]=1; m=m|pc.multi[i]->sup; cs.push_back(pc.multi[i]); ch=true; } }
  if(extra->sup.count()==1){ int s=extra->sup.first(); proveTT(extra,pc.dom[s]); ByteSet d=truthTable(extra); if(pc.dom[s]) d=d&pc.dom[s]->s; 
    if(d.empty()){ SS_.tt_decided++; return 0; }
    if(cs.empty()){ SS_.tt_decided++; model=pc.model; model[s]=d.first(); return 1; } }
  init();
  std::vector<u64> key; std::sort(cs.begin(),cs.end(),[](Expr*a,Expr*b){return a->id<b->id;});
  for(Expr*c:cs) key.push_back(c->id); key.push_back(0); std::vector<int> syms; for(int i=0;i<(int)pc.dom.size();i++) if(m.has(i)){ syms.push_back(i); key.push_back(((u64)i<<32)|(pc.dom[i]?pc.dom[i]->id:0xffffffff)); } key.push_back(((u64)1<<63)|extra->id);
  auto it=cache.find(key);
  if(it==cache.end()){
    double t0=now(); Z3_solver_push(ctx,slv);
    for(int s:syms) if(pc.dom[s]) Z3_solver_assert(ctx,slv,zdom(s,pc.dom[s]));
    for(Expr*c:cs) Z3_solver_assert(ctx,slv,toZ3b(c)); Z3_solver_assert(ctx,slv,toZ3b(extra));
    Z3_lbool r=Z3_solver_check(ctx,slv); SS_.z3_queries++; Res R; R.r=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
    if(r==Z3_L_TRUE){ SS_.sat++; Z3_model mo=Z3_solver_get_model(ctx,slv); Z3_model_inc_ref(ctx,mo);
      for(int s:syms){ Z3_ast o; if(Z3_model_eval(ctx,mo,zsym(s),true,&o)){ uint64_t v; Z3_inc_ref(ctx,o); Z3_get_numeral_uint64(ctx,o,&v); Z3_dec_ref(ctx,o); R.asg.push_back({s,(u8)v}); } }
      Z3_model_dec_ref(ctx,mo); } else if(r==Z3_L_FALSE) SS_.unsat++; else SS_.unknowns++;
    Z3_solver_pop(ctx,slv,1); double dt=now()-t0; SS_.z3_s+=dt; if(getenv("SYMX_SLOW")&&dt>0.3) fprintf(stderr,"slow query %.2fs r=%d %s\n",dt,R.r,exprStr(extra,8).c_str());
    it=cache.emplace(std::move(key),std::move(R)).first;
  } else SS_.cache_hits++;
  Res&R=it->second; if(R.r==1){ model=pc.model; for(auto&p:R.asg) model[p.first]=p.second; }
  return R.r; }
bool addConstraint(PathCond&pc,Expr*e){
  if(isC(e)) return e->lo;
  if(e->op==O_AND){ bool a=addConstraint(pc,e->k[0]); bool b=addConstraint(pc,e->k[1]); return a&&b; }
  if(e->op==O_XOR&&isCv(e->k[1],1)&&e->k[0]->op==O_OR){ bool a=addConstraint(pc,mkNot(e->k[0]->k[0])); bool b=addConstraint(pc,mkNot(e->k[0]->k[1])); return a&&b; }
  if(e->sup.count()==1){ int s=e->sup.first(); proveTT(e,pc.dom[s]); ByteSet d=truthTable(e); if(pc.dom[s]) d=d&pc.dom[s]->s; pc.dom[s]=internDom(d); return !d.empty(); }
  for(Expr*x:pc.multi) if(x==e) return true;
  pc.multi.push_back(e); return true; }
void crossCheck(const PathCond&pc){ // the model must satisfy everything (engine self-check)
  newEpoch(pc.model.data()); for(size_t i=0;i<pc.dom.size();i++) if(pc.dom[i]&&!pc.dom[i]->s.get(pc.model[i])){ fprintf(stderr,"model violates byte domain %zu\n",i); exit(3); }
  for(Expr*e:pc.multi) if(!evalE(e)){ fprintf(stderr,"model violates constraint %s\n",exprStr(e).c_str()); exit(3); } }
