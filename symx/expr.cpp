#include "expr.h"
static u64 mix(u64 h,u64 v){ h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; return h^(h>>32); }
struct EH { size_t operator()(const Expr*e) const { u64 h=mix(e->op*131+e->w,e->lo); h=mix(h,e->hi); for(int i=0;i<e->nk;i++) h=mix(h,e->k[i]->id+1); if(e->blob) h=mix(h,e->blob->id+77); return h; } };
struct EE { bool operator()(const Expr*a,const Expr*b) const { if(a->op!=b->op||a->w!=b->w||a->lo!=b->lo||a->hi!=b->hi||a->nk!=b->nk||a->blob!=b->blob) return false; for(int i=0;i<a->nk;i++) if(a->k[i]!=b->k[i]) return false; return true; } };
static std::unordered_set<Expr*,EH,EE> tab;
static u32 nextId=1;
static std::vector<Expr*> slab; static size_t slabUsed=0; 
static Expr* slabCur=nullptr;
static Expr* intern(Expr&t){
  auto it=tab.find(&t); if(it!=tab.end()) return *it;
  if(!slabCur||slabUsed==4096){ slabCur=(Expr*)malloc(sizeof(Expr)*4096); slabUsed=0; }
  Expr*e=&slabCur[slabUsed++]; *e=t; e->id=nextId++; e->epoch=0; e->tt=nullptr; e->z3=nullptr; 
  Mask m; e->hasMul = (t.op>=O_MUL&&t.op<=O_SREM); for(int i=0;i<t.nk;i++){ m=m|t.k[i]->sup; e->hasMul|=t.k[i]->hasMul; }
  if(t.op==O_SYM) m.set(t.lo); e->sup=m;
  tab.insert(e); return e; }
static Expr* mk(Op op,int w,Expr*a=nullptr,Expr*b=nullptr,Expr*c=nullptr,u64 lo=0,u64 hi=0,Blob*bl=nullptr){
  Expr t; memset((void*)&t,0,sizeof t); t.op=op; t.w=w; t.k[0]=a;t.k[1]=b;t.k[2]=c; t.nk=c?3:b?2:a?1:0; t.lo=lo;t.hi=hi;t.blob=bl; return intern(t); }
u128 cval(Expr*e){ return ((u128)e->hi<<64)|e->lo; }
Expr* mkConst(u128 v,int w){ v&=wmask(w); return mk(O_CONST,w,0,0,0,(u64)v,(u64)(v>>64)); }
Expr* mkTaint(int w){ return w==1?mkConst(0,1):mk(O_TAINT,w); }
static inline Expr* noT(Expr*e){ return isT(e)?mkConst(0,e->w):e; }
Expr* mkSym(int i){ return mk(O_SYM,8,0,0,0,i); }
Expr* toE(SV v,int w){ return v.e?v.e:mkConst(v.c,w); }
static std::unordered_map<std::string,Blob*> blobs;
Blob* internBlob(const std::string&s){ auto&b=blobs[s]; if(!b){ b=new Blob{s,(u32)blobs.size()}; } return b; }

static u128 foldBin(Op op,u128 a,u128 b,int w){
  u128 m=wmask(w);
  switch(op){
   case O_ADD:return (a+b)&m; case O_SUB:return (a-b)&m; case O_MUL:return (a*b)&m;
   case O_UDIV:return b? a/b : m; case O_UREM:return b? a%b : a;
   case O_SDIV:{ i128 x=sx(a,w),y=sx(b,w); if(!y) return x<0?1:m; if(y==-1) return ((u128)0-(u128)x)&m; return (u128)(x/y)&m; }
   case O_SREM:{ i128 x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
   case O_AND:return a&b; case O_OR:return a|b; case O_XOR:return a^b;
   case O_SHL:return b>=(u128)w?0:(a<<(int)b)&m; case O_LSHR:return b>=(u128)w?0:a>>(int)b;
   case O_ASHR:{ i128 x=sx(a,w); int s=b>=(u128)w?w-1:(int)b; return (u128)(x>>s)&m; }
   default: abort(); } }
static bool foldCmp(Op op,u128 a,u128 b,int w){
  switch(op){ case O_EQ:return a==b; case O_ULT:return a<b; case O_ULE:return a<=b; case O_SLT:return sx(a,w)<sx(b,w); case O_SLE:return sx(a,w)<=sx(b,w); default: abort(); } }

Expr* mkExtract(Expr*e,int off,int w){
  if(off==0&&w==e->w) return e;
  if(isC(e)) return mkConst(cval(e)>>off,w);
  if(isT(e)) return mkTaint(w);
  switch(e->op){
   case O_EXTRACT: return mkExtract(e->k[0],off+(int)e->lo,w);
   case O_CONCAT: { Expr*h=e->k[0],*l=e->k[1]; if(off+w<=l->w) return mkExtract(l,off,w); if(off>=l->w) return mkExtract(h,off-l->w,w);
       return mkConcat(mkExtract(h,0,off+w-l->w),mkExtract(l,off,l->w-off)); }
   case O_ZEXT: { Expr*x=e->k[0]; if(off>=x->w) return mkConst(0,w); if(off+w<=x->w) return mkExtract(x,off,w); return mkZext(mkExtract(x,off,x->w-off),w); }
   case O_SEXT: { Expr*x=e->k[0]; if(off+w<=x->w) return mkExtract(x,off,w); if(off==0) return mkSext(x,w); break; }
   case O_AND: case O_OR: case O_XOR: return mkBin(e->op,mkExtract(e->k[0],off,w),mkExtract(e->k[1],off,w));
   case O_ADD: case O_SUB: case O_MUL: if(off==0) return mkBin(e->op,mkExtract(e->k[0],0,w),mkExtract(e->k[1],0,w)); break;
   case O_ITE: if(isC(e->k[1])||isC(e->k[2])) return mkIte(e->k[0],mkExtract(e->k[1],off,w),mkExtract(e->k[2],off,w)); break;
   default: break; }
  return mk(O_EXTRACT,w,e,0,0,off);
}
Expr* mkConcat(Expr*h,Expr*l){
  int w=h->w+l->w; if(w>128){ fprintf(stderr,"concat too wide %d\n",w); abort(); }
  if(isT(h)&&isT(l)) return mkTaint(w);
  h=noT(h); l=noT(l);
  if(isC(h)&&isC(l)) return mkConst((cval(h)<<l->w)|cval(l),w);
  if(isCv(h,0)) return mkZext(l,w);
  if(h->op==O_ZEXT) return mkZext(mkConcat(h->k[0],l),w);
  if(h->op==O_EXTRACT&&l->op==O_EXTRACT&&h->k[0]==l->k[0]&&h->lo==l->lo+l->w) return mkExtract(h->k[0],l->lo,w);
  if(l->op==O_CONCAT && h->op==O_EXTRACT && l->k[0]->op==O_EXTRACT && h->k[0]==l->k[0]->k[0] && h->lo==l->k[0]->lo+l->k[0]->w)
    return mkConcat(mkExtract(h->k[0],l->k[0]->lo,h->w+l->k[0]->w),l->k[1]);
  // canonical: right-nested
  if(h->op==O_CONCAT) return mkConcat(h->k[0],mkConcat(h->k[1],l));
  if(isC(h)&&l->op==O_CONCAT&&isC(l->k[0])) return mkConcat(mkConst((cval(h)<<l->k[0]->w)|cval(l->k[0]),h->w+l->k[0]->w),l->k[1]);
  return mk(O_CONCAT,w,h,l);
}
Expr* mkZext(Expr*e,int w){ if(w==e->w) return e; e=noT(e); if(isC(e)) return mkConst(cval(e),w); if(e->op==O_ZEXT) return mkZext(e->k[0],w);
  return mk(O_ZEXT,w,e); }
Expr* mkSext(Expr*e,int w){ if(w==e->w) return e; e=noT(e); if(isC(e)) return mkConst((u128)sx(cval(e),e->w),w); if(e->op==O_SEXT) return mkSext(e->k[0],w);
  if(e->op==O_ZEXT) return mkZext(e->k[0],w); return mk(O_SEXT,w,e); }
Expr* mkNot(Expr*e){ return mkBin(O_XOR,e,mkConst(~(u128)0,e->w)); }
Expr* mkIte(Expr*c,Expr*a,Expr*b){
  if(isC(c)) return c->lo?a:b; if(a==b) return a;
  a=noT(a); b=noT(b); if(a==b) return a;
  if(c->op==O_XOR&&isC(c->k[1])) return mkIte(c->k[0],b,a);
  if(a->w==1){ 
    if(isCv(a,1)) return mkBin(O_OR,c,b); if(isCv(a,0)) return mkBin(O_AND,mkNot(c),b);
    if(isCv(b,0)) return mkBin(O_AND,c,a); if(isCv(b,1)) return mkBin(O_OR,mkNot(c),a); }
  if(a->op==O_ITE&&a->k[0]==c) return mkIte(c,a->k[1],b);
  if(b->op==O_ITE&&b->k[0]==c) return mkIte(c,a,b->k[2]);
  if(isCv(a,1)&&isCv(b,0)) return mkZext(c,a->w);
  if(isCv(a,0)&&isCv(b,1)) return mkZext(mkNot(c),a->w);
  return mk(O_ITE,a->w,c,a,b);
}
static inline bool comm(Op o){ return o==O_ADD||o==O_MUL||o==O_AND||o==O_OR||o==O_XOR; }
Expr* mkBin(Op op,Expr*a,Expr*b){
  int w=a->w; if(a->w!=b->w){ fprintf(stderr,"mkBin width %d vs %d op %d\n",a->w,b->w,op); abort(); }
  if(isT(a)||isT(b)) switch(op){ case O_ADD: case O_SUB: case O_MUL: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: return mkTaint(w); default: a=noT(a); b=noT(b); }
  if(isC(a)&&isC(b)) return mkConst(foldBin(op,cval(a),cval(b),w),w);
  if(comm(op)){ if(isC(a)) std::swap(a,b); else if(!isC(b)&&a->id>b->id) std::swap(a,b); }
  u128 ones=wmask(w);
  // ite with constant arms against a constant
  if(isC(b)&&a->op==O_ITE&&isC(a->k[1])&&isC(a->k[2])) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
  switch(op){
   case O_ADD: if(isC(b)){ if(cval(b)==0) return a; if(a->op==O_ADD&&isC(a->k[1])) return mkBin(O_ADD,a->k[0],mkConst(cval(a->k[1])+cval(b),w)); }
     break;
   case O_SUB: if(a==b) return mkConst(0,w); if(isC(b)) return mkBin(O_ADD,a,mkConst((u128)0-cval(b),w)); 
     if(a->op==O_ADD&&a->k[0]==b) return a->k[1]; if(a->op==O_ADD&&a->k[1]==b) return a->k[0]; 
     if(a->op==O_ADD&&isC(a->k[1])&&b->op==O_ADD&&isC(b->k[1])) return mkBin(O_ADD,mkBin(O_SUB,a->k[0],b->k[0]),mkConst(cval(a->k[1])-cval(b->k[1]),w)); break;
   case O_MUL: if(isC(b)){ u128 v=cval(b); if(v==0) return b; if(v==1) return a; if((v&(v-1))==0){ int s=0; while(!((v>>s)&1)) s++; return mkBin(O_SHL,a,mkConst(s,w)); } 
       if(a->op==O_MUL&&isC(a->k[1])) return mkBin(O_MUL,a->k[0],mkConst(cval(a->k[1])*v,w)); } break;
   case O_UDIV: case O_UREM: if(isC(b)&&cval(b)){ u128 v=cval(b); if(v==1) return op==O_UDIV?a:mkConst(0,w);
       if((v&(v-1))==0){ int s=0; while(!((v>>s)&1)) s++; return op==O_UDIV? mkBin(O_LSHR,a,mkConst(s,w)) : mkBin(O_AND,a,mkConst(v-1,w)); }
       if(a->op==O_ZEXT){ Expr*x=a->k[0]; if(v<=wmask(x->w)) return mkZext(mkBin(op,x,mkConst(v,x->w)),w); return op==O_UDIV?mkConst(0,w):a; } } break;
   case O_AND: if(a==b) return a; if(isC(b)){ u128 v=cval(b); if(v==0) return b; if(v==ones) return a;
       if(a->op==O_ZEXT){ Expr*x=a->k[0]; return mkZext(mkBin(O_AND,x,mkConst(v,x->w)),w); }
       if(a->op==O_AND&&isC(a->k[1])) return mkBin(O_AND,a->k[0],mkConst(cval(a->k[1])&v,w));
       if((v&(v+1))==0){ int n=0; while(n<w&&((v>>n)&1)) n++; return mkZext(mkExtract(a,0,n),w); }
       if(a->op==O_CONCAT){ Expr*h=a->k[0],*l=a->k[1]; return mkConcat(mkBin(O_AND,h,mkConst(v>>l->w,h->w)),mkBin(O_AND,l,mkConst(v,l->w))); }
     } 
     if(w==1){ if((a->op==O_XOR&&isC(a->k[1])&&a->k[0]==b)||(b->op==O_XOR&&isC(b->k[1])&&b->k[0]==a)) return mkConst(0,1); }
     if(!isC(b)&&a->op==O_ZEXT&&b->op==O_ZEXT){ int m=std::max(a->k[0]->w,b->k[0]->w); if(m<w) return mkZext(mkBin(O_AND,mkZext(a->k[0],m),mkZext(b->k[0],m)),w);} break;
   case O_OR: if(a==b) return a; if(isC(b)){ if(cval(b)==0) return a; if(cval(b)==ones) return b; 
       if(a->op==O_CONCAT){ Expr*h=a->k[0],*l=a->k[1]; return mkConcat(mkBin(O_OR,h,mkConst(cval(b)>>l->w,h->w)),mkBin(O_OR,l,mkConst(cval(b),l->w))); }
       if(a->op==O_ZEXT){ Expr*x=a->k[0]; return mkConcat(mkConst(cval(b)>>x->w,w-x->w),mkBin(O_OR,x,mkConst(cval(b),x->w))); }
       if(a->op==O_OR&&isC(a->k[1])) return mkBin(O_OR,a->k[0],mkConst(cval(a->k[1])|cval(b),w)); }
     else { // disjoint concat
       Expr*x=a,*y=b; for(int t=0;t<2;t++,std::swap(x,y)){
         if(x->op==O_ZEXT&&y->op==O_CONCAT&&isCv(y->k[1],0)&&x->k[0]->w<=y->k[1]->w) return mkConcat(y->k[0],mkZext(x->k[0],y->k[1]->w));
         if(x->op==O_ZEXT&&y->op==O_ZEXT&&y->k[0]->op==O_CONCAT&&isCv(y->k[0]->k[1],0)&&x->k[0]->w<=y->k[0]->k[1]->w) return mkZext(mkConcat(y->k[0]->k[0],mkZext(x->k[0],y->k[0]->k[1]->w)),w);
       }
       if(a->op==O_ZEXT&&b->op==O_ZEXT){ int m=std::max(a->k[0]->w,b->k[0]->w); if(m<w) return mkZext(mkBin(O_OR,mkZext(a->k[0],m),mkZext(b->k[0],m)),w);} 
       if(w==1){ if((a->op==O_XOR&&isC(a->k[1])&&a->k[0]==b)||(b->op==O_XOR&&isC(b->k[1])&&b->k[0]==a)) return mkConst(1,1); } }
     break;
   case O_XOR: if(a==b) return mkConst(0,w); if(isC(b)){ if(cval(b)==0) return a; 
       if(a->op==O_XOR&&isC(a->k[1])) return mkBin(O_XOR,a->k[0],mkConst(cval(a->k[1])^cval(b),w));
       if(w==1){ if(a->op==O_ULT) return mkCmp(O_ULE,a->k[1],a->k[0]); if(a->op==O_ULE) return mkCmp(O_ULT,a->k[1],a->k[0]);
                 if(a->op==O_SLT) return mkCmp(O_SLE,a->k[1],a->k[0]); if(a->op==O_SLE) return mkCmp(O_SLT,a->k[1],a->k[0]); }
       if(a->op==O_ZEXT&&cval(b)<=wmask(a->k[0]->w)) return mkZext(mkBin(O_XOR,a->k[0],mkConst(cval(b),a->k[0]->w)),w);
       if(a->op==O_CONCAT){ Expr*h=a->k[0],*l=a->k[1]; return mkConcat(mkBin(O_XOR,h,mkConst(cval(b)>>l->w,h->w)),mkBin(O_XOR,l,mkConst(cval(b),l->w))); } }
     break;
   case O_SHL: if(isC(b)){ u128 s=cval(b); if(s==0) return a; if(s>=(u128)w) return mkConst(0,w); return mkConcat(mkExtract(a,0,w-(int)s),mkConst(0,(int)s)); } break;
   case O_LSHR: if(isC(b)){ u128 s=cval(b); if(s==0) return a; if(s>=(u128)w) return mkConst(0,w); return mkZext(mkExtract(a,(int)s,w-(int)s),w); } break;
   case O_ASHR: if(isC(b)){ u128 s=cval(b); if(s==0) return a; if(s>=(u128)w) s=w-1; return mkSext(mkExtract(a,(int)s,w-(int)s),w); } break;
   default: break; }
  return mk(op,w,a,b);
}

Expr* mkEq(Expr*a,Expr*b){
  a=noT(a); b=noT(b);
  if(a==b) return mkConst(1,1); if(isC(a)&&isC(b)) return mkConst(cval(a)==cval(b),1);
  if(isC(a)) std::swap(a,b); int w=a->w; if(a->w!=b->w){ fprintf(stderr,"mkEq width\n"); abort(); }
  if(isC(b)){ u128 v=cval(b);
    if(w==1) return v? a : mkNot(a);
    switch(a->op){
      case O_ZEXT: { Expr*x=a->k[0]; if(v>wmask(x->w)) return mkConst(0,1); return mkEq(x,mkConst(v,x->w)); }
      case O_SEXT: { Expr*x=a->k[0]; u128 t=v&wmask(x->w); if(((u128)sx(t,x->w)&wmask(w))!=v) return mkConst(0,1); return mkEq(x,mkConst(t,x->w)); }
      case O_CONCAT: { Expr*h=a->k[0],*l=a->k[1]; return mkBin(O_AND,mkEq(h,mkConst(v>>l->w,h->w)),mkEq(l,mkConst(v,l->w))); }
      case O_ADD: if(isC(a->k[1])) return mkEq(a->k[0],mkConst(v-cval(a->k[1]),w)); break;
      case O_SUB: if(v==0) return mkEq(a->k[0],a->k[1]); break;
      case O_XOR: if(isC(a->k[1])) return mkEq(a->k[0],mkConst(v^cval(a->k[1]),w)); if(v==0) return mkEq(a->k[0],a->k[1]); break;
      case O_OR: if(v==0) return mkBin(O_AND,mkEq(a->k[0],b),mkEq(a->k[1],b)); break;
      case O_ITE: if(isC(a->k[1])||isC(a->k[2])) return mkIte(a->k[0],mkEq(a->k[1],b),mkEq(a->k[2],b)); break;
      default: break; }
  } else if(a->op==O_ZEXT&&b->op==O_ZEXT){ int m=std::max(a->k[0]->w,b->k[0]->w); if(m<w) return mkEq(mkZext(a->k[0],m),mkZext(b->k[0],m)); }
  else if(a->op==O_CONCAT&&b->op==O_CONCAT&&a->k[0]->w==b->k[0]->w) return mkBin(O_AND,mkEq(a->k[0],b->k[0]),mkEq(a->k[1],b->k[1]));
  if(!isC(b)&&a->id>b->id) std::swap(a,b);
  return mk(O_EQ,1,a,b);
}
Expr* mkCmp(Op op,Expr*a,Expr*b){
  if(op==O_EQ) return mkEq(a,b); a=noT(a); b=noT(b); int w=a->w; if(a->w!=b->w){ fprintf(stderr,"mkCmp width\n"); abort(); }
  if(isC(a)&&isC(b)) return mkConst(foldCmp(op,cval(a),cval(b),w),1);
  if(a==b) return mkConst(op==O_ULE||op==O_SLE,1);
  if(op==O_SLT||op==O_SLE){
    bool ap = (a->op==O_ZEXT)||(isC(a)&&sx(cval(a),w)>=0), bp=(b->op==O_ZEXT)||(isC(b)&&sx(cval(b),w)>=0);
    if(ap&&bp) return mkCmp(op==O_SLT?O_ULT:O_ULE,a,b);
    if(ap&&isC(b)) return mkConst(0,1);     // nonneg vs negative constant
    if(bp&&isC(a)) return mkConst(1,1);
    if(a->op==O_SEXT&&isC(b)){ Expr*x=a->k[0]; i128 v=sx(cval(b),w); i128 lo=sx((u128)1<<(x->w-1),x->w), hi=-(lo+1);
       if(v>hi) return mkConst(1,1); if(v<lo) return mkConst(0,1); return mkCmp(op,x,mkConst((u128)v,x->w)); }
    if(b->op==O_SEXT&&isC(a)){ Expr*x=b->k[0]; i128 v=sx(cval(a),w); i128 lo=sx((u128)1<<(x->w-1),x->w), hi=-(lo+1);
       if(v<lo) return mkConst(1,1); if(v>hi) return mkConst(0,1); return mkCmp(op,mkConst((u128)v,x->w),x); }
  } else {
    if(a->op==O_ZEXT&&b->op==O_ZEXT){ int m=std::max(a->k[0]->w,b->k[0]->w); if(m<w) return mkCmp(op,mkZext(a->k[0],m),mkZext(b->k[0],m)); }
    if(a->op==O_ZEXT&&isC(b)){ Expr*x=a->k[0]; if(cval(b)>wmask(x->w)) return mkConst(1,1); return mkCmp(op,x,mkConst(cval(b),x->w)); }
    if(b->op==O_ZEXT&&isC(a)){ Expr*x=b->k[0]; if(cval(a)>wmask(x->w)) return mkConst(0,1); return mkCmp(op,mkConst(cval(a),x->w),x); }
    if(isC(b)){ if(op==O_ULT&&cval(b)==0) return mkConst(0,1); if(op==O_ULT&&cval(b)==1) return mkEq(a,mkConst(0,w)); if(op==O_ULE&&cval(b)==wmask(w)) return mkConst(1,1); if(op==O_ULE&&cval(b)==0) return mkEq(a,b); }
    if(isC(a)){ if(op==O_ULE&&cval(a)==0) return mkConst(1,1); if(op==O_ULT&&cval(a)==wmask(w)) return mkConst(0,1); if(op==O_ULT&&cval(a)==0) return mkNot(mkEq(b,a)); }
  }
  if(a->op==O_ITE&&isC(b)&&isC(a->k[1])&&isC(a->k[2])) return mkIte(a->k[0],mkCmp(op,a->k[1],b),mkCmp(op,a->k[2],b));
  if(b->op==O_ITE&&isC(a)&&isC(b->k[1])&&isC(b->k[2])) return mkIte(b->k[0],mkCmp(op,a,b->k[1]),mkCmp(op,a,b->k[2]));
  return mk(op,1,a,b);
}
Expr* mkTable(Blob*b,Expr*idx,int nbytes){
  idx=noT(idx);
  if(isC(idx)){ u128 v=0; u64 o=idx->lo; for(int i=nbytes-1;i>=0;i--) v=(v<<8)|(u8)(o+i<b->data.size()?b->data[o+i]:0); return mkConst(v,nbytes*8); }
  return mk(O_TABLE,nbytes*8,idx,0,0,nbytes,0,b); }

u32 g_epoch=1; const u8* g_model=nullptr;
void newEpoch(const u8*m){ g_epoch++; g_model=m; }
u128 evalE(Expr*e){
  if(e->op==O_CONST) return cval(e);
  if(e->op==O_SYM) return g_model[e->lo];
  if(e->op==O_TAINT) return 0;
  if(e->epoch==g_epoch) return e->val;
  u128 r; int w=e->w;
  switch(e->op){
   case O_CONCAT: r=(evalE(e->k[0])<<e->k[1]->w)|evalE(e->k[1]); break;
   case O_EXTRACT: r=(evalE(e->k[0])>>e->lo)&wmask(w); break;
   case O_ZEXT: r=evalE(e->k[0]); break;
   case O_SEXT: r=(u128)sx(evalE(e->k[0]),e->k[0]->w)&wmask(w); break;
   case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: r=foldCmp(e->op,evalE(e->k[0]),evalE(e->k[1]),e->k[0]->w); break;
   case O_ITE: r=evalE(e->k[0])?evalE(e->k[1]):evalE(e->k[2]); break;
   case O_TABLE: { u64 o=(u64)evalE(e->k[0]); r=0; const std::string&d=e->blob->data; for(int i=(int)e->lo-1;i>=0;i--) r=(r<<8)|(u8)(o+i<d.size()?d[o+i]:0); break; }
   default: r=foldBin(e->op,evalE(e->k[0]),evalE(e->k[1]),w); }
  e->epoch=g_epoch; e->val=r; return r; }
const ByteSet& truthTable(Expr*e){
  if(e->tt) return *e->tt;
  ByteSet*t=new ByteSet; int s=e->sup.first(); static u8 m[MAXSYM]; const u8*sm=g_model;
  for(int v=0;v<256;v++){ m[s]=v; newEpoch(m); if(evalE(e)) t->set(v); }
  newEpoch(sm); e->tt=t; return *t; }
static const char* opn[]={"const","sym","+","-","*","udiv","urem","sdiv","srem","&","|","^","shl","lshr","ashr","concat","extract","zext","sext","==","u<","u<=","s<","s<=","ite","table","hash"};
std::string exprStr(Expr*e,int d){ char b[64]; if(isC(e)){ snprintf(b,64,"%llu:%d",(unsigned long long)e->lo,e->w); return b; } if(e->op==O_SYM){ snprintf(b,64,"s%llu",(unsigned long long)e->lo); return b; }
  if(!d) return "..."; std::string r=std::string("(")+opn[e->op]; if(e->op==O_EXTRACT){ snprintf(b,64,"[%llu+%d]",(unsigned long long)e->lo,e->w); r+=b; } for(int i=0;i<e->nk;i++) r+=" "+exprStr(e->k[i],d-1); return r+")"; }
