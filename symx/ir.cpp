#include "ir.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
Module M;
static const char*fileBeg,*fileEnd;
[[noreturn]] static void die(const char*p,const char*msg){ const char*b=p; while(b>fileBeg&&b[-1]!='\n') b--; const char*e=p; while(e<fileEnd&&*e!='\n'&&e-b<600) e++; fprintf(stderr,"IR parse error: %s at: %.*s\n  near: %.60s\n",msg,(int)(e-b),b,p); exit(3); }
// ---- types
static std::unordered_map<std::string,Type*> tyTab;
static Type* newType(const std::string&key){ auto&t=tyTab[key]; if(!t) t=new Type(); return t; }
static u64 alignUp(u64 v,u64 a){ return (v+a-1)/a*a; }
static Type* intTy(int w){ std::string k="i"+std::to_string(w); auto it=tyTab.find(k); if(it!=tyTab.end()) return it->second; Type*t=newType(k); t->k=T_INT; t->w=w; u64 by=(w+7)/8; u64 a=1; while(a<by&&a<16) a*=2; t->align=a; t->size=alignUp(by,a); return t; }
static Type* simple(TK k){ const char*n=k==T_PTR?"ptr":k==T_FLOAT?"float":k==T_DOUBLE?"double":k==T_VOID?"void":k==T_LABEL?"label":"metadata"; auto it=tyTab.find(n); if(it!=tyTab.end()) return it->second; Type*t=newType(n); t->k=k; 
  if(k==T_PTR||k==T_DOUBLE){t->w=64;t->size=t->align=8;} if(k==T_FLOAT){t->w=32;t->size=t->align=4;} return t; }
static const std::vector<Comp>& comps(Type*t){ if(t->compsDone) return t->comps; 
  switch(t->k){ case T_INT: case T_PTR: case T_FLOAT: case T_DOUBLE: t->comps.push_back({(u8)t->w,0,(u8)(t->k==T_FLOAT||t->k==T_DOUBLE)}); break;
   case T_VEC: case T_ARR: { auto c=comps(t->el[0]); if(t->n*c.size()>4096){ fprintf(stderr,"huge first-class aggregate\n"); exit(3);} for(u64 i=0;i<t->n;i++) for(auto x:c){ x.off+=i*t->el[0]->size; t->comps.push_back(x); } break; }
   case T_STRUCT: for(size_t i=0;i<t->el.size();i++){ t->compIdx.push_back(t->comps.size()); for(auto x:comps(t->el[i])){ x.off+=t->offs[i]; t->comps.push_back(x);} } break;
   default: break; }
  t->compsDone=true; return t->comps; }
struct P { const char*p; };
static inline void ws(P&s){ for(;;){ while(*s.p==' '||*s.p=='\t') s.p++; if(*s.p!='/'||s.p[1]!='*') return; s.p+=2; while(s.p<fileEnd&&!(*s.p=='*'&&s.p[1]=='/')) s.p++; s.p+=2; } }
static inline bool lit(P&s,const char*t){ ws(s); size_t n=strlen(t); if(strncmp(s.p,t,n)) return false; if(isalnum(t[n-1])&&(isalnum(s.p[n])||s.p[n]=='_'||s.p[n]=='.')) return false; s.p+=n; return true; }
static inline void expect(P&s,const char*t){ if(!lit(s,t)) die(s.p,t); }
static bool looksType(const char*p){ if(*p=='i'&&isdigit(p[1])) return true; if(*p=='{'||*p=='<'||*p=='['||*p=='%') return true; 
  for(const char*k:{"ptr","void","float","double","label","metadata"}){ size_t n=strlen(k); if(!strncmp(p,k,n)&&!isalnum(p[n])&&p[n]!='_') return true; } return false; }
static void parenGroup(P&s){ int d=0; bool q=false; do{ char c=*s.p++; if(c=='"') q=!q; else if(!q){ if(c=='(') d++; if(c==')') d--; } if(s.p>=fileEnd) die(s.p,"paren"); }while(d); }
static u64 num(P&s){ ws(s); if(!isdigit(*s.p)) die(s.p,"number"); u64 v=0; while(isdigit(*s.p)) v=v*10+(*s.p++-'0'); return v; }
static Type* parseType(P&s);
static Type* baseType(P&s){ ws(s); const char*p=s.p;
  if(*p=='i'&&isdigit(p[1])){ s.p++; return intTy(num(s)); }
  if(lit(s,"ptr")){ if(lit(s,"addrspace")){ parenGroup(s);} return simple(T_PTR); } if(lit(s,"void")) return simple(T_VOID); if(lit(s,"float")) return simple(T_FLOAT); if(lit(s,"double")) return simple(T_DOUBLE); if(lit(s,"label")) return simple(T_LABEL); if(lit(s,"metadata")) return simple(T_META);
  if(*p=='['||(*p=='<'&&p[1]!='{')){ bool vec=*p=='<'; s.p++; u64 n=num(s); expect(s,"x"); Type*e=parseType(s); expect(s,vec?">":"]"); 
    char b[64]; snprintf(b,64,"%c%llux%p",vec?'<':'[',(unsigned long long)n,(void*)e); auto it=tyTab.find(b); if(it!=tyTab.end()) return it->second; Type*t=newType(b); t->k=vec?T_VEC:T_ARR; t->n=n; t->el={e}; t->size=n*e->size; t->align=e->align; if(vec){ if(e->w==1) t->size=(n+7)/8; u64 a=1; while(a<t->size&&a<16) a*=2; t->align=a; } return t; }
  if(*p=='{'||(*p=='<'&&p[1]=='{')){ bool pk=*p=='<'; s.p+=pk?2:1; std::vector<Type*> el; ws(s); if(*s.p!='}') for(;;){ el.push_back(parseType(s)); if(!lit(s,",")) break; } expect(s,"}"); if(pk) expect(s,">");
    std::string key=pk?"<{":"{"; for(auto e:el){ char b[32]; snprintf(b,32,"%p,",(void*)e); key+=b; } auto it=tyTab.find(key); if(it!=tyTab.end()) return it->second; Type*t=newType(key); t->k=T_STRUCT; t->el=el; t->packed=pk; u64 off=0; u32 al=1; for(auto e:el){ u32 a=pk?1:e->align; if(a<1)a=1; off=alignUp(off,a); t->offs.push_back(off); off+=e->size; al=std::max(al,a);} t->align=al; t->size=alignUp(off,al); return t; }
  die(p,"type"); }
static Type* parseType(P&s){ Type*t=baseType(s); return t; }
static std::string ident(P&s){ // after % or @
  if(*s.p=='"'){ const char*b=++s.p; while(*s.p!='"') s.p++; std::string r(b,s.p-b); s.p++; return r; }
  const char*b=s.p; while(isalnum(*s.p)||*s.p=='_'||*s.p=='.'||*s.p=='$'||*s.p=='-') s.p++; if(b==s.p) die(b,"identifier"); return std::string(b,s.p-b); }
static u64 symAddr(P&s,const std::string&n){ auto f=M.fidx.find(n); if(f!=M.fidx.end()) return M.funcs[f->second]->addr; auto g=M.gidx.find(n); if(g!=M.gidx.end()) return M.globals[g->second].addr; auto a=M.alias.find(n); if(a!=M.alias.end()) return a->second; die(s.p,("unknown symbol "+n).c_str()); }
// ---- constants
static u128 parseConstScalar(P&s,Type*t);
static void skipFlags(P&s,std::initializer_list<const char*> fl){ for(bool ch=true;ch;){ ch=false; for(auto f:fl) if(lit(s,f)) ch=true; } }
static i64 gepConstOff(P&s,Type*st,std::vector<std::pair<Type*,i64>>&idx){ i64 off=0; Type*t=st; for(size_t i=0;i<idx.size();i++){ i64 v=idx[i].second; if(i==0) off+=v*(i64)t->size; else if(t->k==T_STRUCT){ off+=t->offs[v]; t=t->el[v]; } else { t=t->el[0]; off+=v*(i64)t->size; } } return off; }
static u128 parseConstExpr(P&s,Type*want,bool&ok){ ok=true;
  if(lit(s,"getelementptr")){ skipFlags(s,{"inbounds","nuw","nusw"}); while(lit(s,"inrange")) parenGroup(s); skipFlags(s,{"inbounds","nuw","nusw"}); expect(s,"("); Type*st=parseType(s); expect(s,","); Type*pt=parseType(s); u64 base=(u64)parseConstScalar(s,pt); std::vector<std::pair<Type*,i64>> idx; while(lit(s,",")){ Type*it=parseType(s); u128 v=parseConstScalar(s,it); idx.push_back({it,(i64)sx(v,it->w)}); } expect(s,")"); return base+gepConstOff(s,st,idx); }
  for(const char*k:{"inttoptr","ptrtoint","bitcast","trunc","zext","sext","addrspacecast","ptrtoaddr"}) if(lit(s,k)){ skipFlags(s,{"nuw","nsw","nneg"}); expect(s,"("); Type*a=parseType(s); u128 v=parseConstScalar(s,a); expect(s,"to"); Type*b=parseType(s); expect(s,")"); if(!strcmp(k,"sext")) v=(u128)sx(v,a->w); return v&wmask(b->w); }
  for(const char*k:{"add","sub","mul","xor","and","or","shl"}) if(lit(s,k)){ skipFlags(s,{"nuw","nsw","disjoint"}); expect(s,"("); Type*a=parseType(s); u128 x=parseConstScalar(s,a); expect(s,","); Type*b=parseType(s); u128 y=parseConstScalar(s,b); expect(s,")"); u128 r=*k=='a'&&k[1]=='d'?x+y:*k=='s'&&k[1]=='u'?x-y:*k=='m'?x*y:*k=='x'?x^y:*k=='a'?x&y:*k=='o'?x|y:x<<(int)y; return r&wmask(a->w); }
  ok=false; return 0; }
static u128 parseConstScalar(P&s,Type*t){ ws(s); const char*p=s.p;
  if(*p=='@'){ s.p++; std::string n=ident(s); return symAddr(s,n); }
  if(lit(s,"null")||lit(s,"undef")||lit(s,"poison")||lit(s,"zeroinitializer")||lit(s,"false")||lit(s,"none")) return 0;
  if(lit(s,"true")) return 1;
  if(t->k==T_FLOAT||t->k==T_DOUBLE){ double d; if(p[0]=='0'&&p[1]=='x'){ s.p+=2; u64 v=0; while(isxdigit(*s.p)) v=v*16+(isdigit(*s.p)?*s.p-'0':(tolower(*s.p)-'a'+10)),s.p++; memcpy(&d,&v,8); } else if(p[0]=='f'&&p[1]=='0'&&p[2]=='x'){ s.p+=3; u64 v=0; while(isxdigit(*s.p)) v=v*16+(isdigit(*s.p)?*s.p-'0':(tolower(*s.p)-'a'+10)),s.p++; return v; } else { const char*q=p; bool ng=false; if(*q=='+'||*q=='-'){ ng=*q=='-'; q++; }
   int kind=!strncmp(q,"inf",3)?1:!strncmp(q,"qnan",4)?2:!strncmp(q,"snan",4)?3:!strncmp(q,"nan",3)?4:0;
   if(kind){ q+=kind==1||kind==4?3:4; u64 pay=0; if(*q=='('){ pay=strtoull(q+1,0,16); while(*q!=')') q++; q++; } s.p=q; bool f=t->k==T_FLOAT;
     u64 v=f?0x7f800000ull:0x7ff0000000000000ull; if(kind==2) v|=(f?0x400000ull:0x8000000000000ull)|pay; else if(kind>=3) v|=pay; if(ng) v|=f?0x80000000ull:0x8000000000000000ull; return v; }
   char*e; d=strtod(p,&e); if(e==p) return 0; s.p=e; } if(t->k==T_FLOAT){ float f=d; u32 v; memcpy(&v,&f,4); return v; } u64 v; memcpy(&v,&d,8); return v; }
  if(*p=='-'||isdigit(*p)){ bool neg=*p=='-'; if(neg) s.p++; u128 v=0; while(isdigit(*s.p)) v=v*10+(*s.p++-'0'); if(neg) v=(u128)0-v; return v&wmask(t->w); }
  if(p[0]=='s'&&p[1]=='0'&&p[2]=='x') die(p,"hex int");
  bool ok; u128 v=parseConstExpr(s,t,ok); if(!ok) die(p,"constant"); return v; }
static int hexv(char c){ return isdigit(c)?c-'0':tolower(c)-'a'+10; }
// full constants -> component list
static void parseConst(P&s,Type*t,std::vector<SV>&out){ ws(s); const char*p=s.p;
  if(t->k==T_VEC||t->k==T_ARR||t->k==T_STRUCT){ const auto&cs=comps(t);
    if(lit(s,"zeroinitializer")||lit(s,"undef")||lit(s,"poison")){ for(auto&c:cs) out.push_back(c.w>64?SV{0,mkConst(0,c.w)}:C(0)); return; }
    if(lit(s,"splat")){ expect(s,"("); Type*e=parseType(s); std::vector<SV> v; parseConst(s,e,v); expect(s,")"); for(u64 i=0;i<t->n;i++) out.insert(out.end(),v.begin(),v.end()); return; }
    if(p[0]=='c'&&p[1]=='"'){ s.p+=2; while(*s.p!='"'){ if(*s.p=='\\'&&s.p[1]=='\\'){ out.push_back(C('\\')); s.p+=2; } else if(*s.p=='\\'){ out.push_back(C(hexv(s.p[1])*16+hexv(s.p[2]))); s.p+=3; } else out.push_back(C((u8)*s.p++)); } s.p++; return; }
    if(*p=='['||*p=='{'||*p=='<'){ bool pk=p[0]=='<'&&p[1]=='{'; s.p+=pk?2:1; ws(s); if(*s.p!=']'&&*s.p!='}'&&*s.p!='>') for(;;){ Type*e=parseType(s); parseConst(s,e,out); if(!lit(s,",")) break; } ws(s); s.p++; if(pk) expect(s,">"); return; }
    die(p,"aggregate constant"); }
  u128 v=parseConstScalar(s,t); if(t->w>64) out.push_back(SV{0,mkConst(v,t->w)}); else out.push_back(C((u64)v)); }
static void initBytes(P&s,Type*t,u8*out){ ws(s); const char*p=s.p;
  if(t->k==T_VEC||t->k==T_ARR||t->k==T_STRUCT){
    if(lit(s,"zeroinitializer")||lit(s,"undef")||lit(s,"poison")) return;
    if(p[0]=='c'&&p[1]=='"'){ s.p+=2; while(*s.p!='"'){ if(*s.p=='\\'&&s.p[1]=='\\'){ *out++='\\'; s.p+=2; } else if(*s.p=='\\'){ *out++=hexv(s.p[1])*16+hexv(s.p[2]); s.p+=3; } else *out++=*s.p++; } s.p++; return; }
    if(*p=='['||*p=='{'||*p=='<'){ bool pk=p[0]=='<'&&p[1]=='{'; s.p+=pk?2:1; ws(s); u64 i=0; if(*s.p!=']'&&*s.p!='}'&&*s.p!='>') for(;;){ Type*e=parseType(s); initBytes(s,e,out+(t->k==T_STRUCT?t->offs[i]:i*e->size)); i++; if(!lit(s,",")) break; } ws(s); s.p++; if(pk) expect(s,">"); return; }
    die(p,"aggregate init"); }
  u128 v=parseConstScalar(s,t); u64 n=(t->w+7)/8; for(u64 i=0;i<n;i++) out[i]=(u8)(v>>(8*i)); }

// ---- module scan
static void skipAttrs(P&s){ for(;;){ ws(s); if(looksType(s.p)) return; char c=*s.p; if(c=='@'||c==','||c==')'||c=='\n') return; if(isalpha(c)||c=='_'||c=='"'){ if(c=='"'){ s.p++; while(*s.p!='"') s.p++; s.p++; if(*s.p=='='){ s.p++; if(*s.p=='"'){ s.p++; while(*s.p!='"') s.p++; s.p++; } } } else while(isalnum(*s.p)||*s.p=='_'||*s.p=='-'||*s.p=='.') s.p++; if(*s.p=='(') parenGroup(s); } else if(isdigit(c)) num(s); else if(c=='#'){ s.p++; num(s);} else die(s.p,"attribute"); } }
static Func* addFunc(const std::string&n){ auto it=M.fidx.find(n); if(it!=M.fidx.end()) return M.funcs[it->second]; Func*f=new Func(); f->name=n; f->idx=M.funcs.size(); f->addr=FBASE+16*(u64)f->idx; M.fidx[n]=f->idx; M.faddr[f->addr]=f->idx; M.funcs.push_back(f); return f; }
void loadModule(const char*path){
  int fd=open(path,O_RDONLY); struct stat st; if(fd<0||fstat(fd,&st)){ perror(path); exit(3); } char*buf=(char*)mmap(nullptr,st.st_size+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); size_t got=0; while(got<(size_t)st.st_size){ ssize_t r=read(fd,buf+got,st.st_size-got); if(r<=0){ perror("read"); exit(3);} got+=r; } close(fd); fileBeg=buf; fileEnd=buf+st.st_size;
  std::vector<std::pair<std::string,const char*>> aliases;
  for(const char*l=buf;l<fileEnd;){ const char*e=(const char*)memchr(l,'\n',fileEnd-l); if(!e) e=fileEnd; 
    if(*l=='@'){ P s{l+1}; std::string n=ident(s); expect(s,"="); 
      Global g; g.name=n; g.constant=false; g.ext=false; g.init=nullptr; bool isAlias=false; 
      for(;;){ ws(s); if(lit(s,"constant")){ g.constant=true; break; } if(lit(s,"global")) break; if(lit(s,"alias")){ isAlias=true; break; } if(lit(s,"external")||lit(s,"extern_weak")){ g.ext=true; continue; } const char*b=s.p; while(isalnum(*s.p)||*s.p=='_') s.p++; if(s.p==b) die(l,"global"); if(*s.p=='(') parenGroup(s); }
      if(isAlias){ parseType(s); expect(s,","); parseType(s); ws(s); aliases.push_back({n,s.p}); }
      else { g.ty=parseType(s); g.init=g.ext?nullptr:s.p; g.size=g.ty->size; g.align=std::max<u32>(g.ty->align,1); std::string line(s.p,e-s.p); size_t a=line.rfind(", align "); if(a!=std::string::npos) g.align=std::max<u32>(g.align,atoi(line.c_str()+a+8)); M.gidx[n]=M.globals.size(); M.globals.push_back(g); } }
    else if(!strncmp(l,"define ",7)||!strncmp(l,"declare ",8)){ bool def=l[2]=='f'; const char*a=l; bool q=false; int d=0; for(a=l;a<e;a++){ if(*a=='"') q=!q; if(q) continue; if(*a=='(') d++; if(*a==')') d--; if(*a=='@'&&d==0) break; } P s{a+1}; std::string n=ident(s); Func*f=addFunc(n); f->hdr=l; 
      if(def){ f->defined=true; f->bodyStart=e+1; const char*x=e; while(x<fileEnd&&!(x[0]=='\n'&&x[1]=='}')) x=(const char*)memchr(x+1,'\n',fileEnd-x-1); e=x+1; } }
    l=e+1; }
  u64 addr=GBASE; for(auto&g:M.globals){ u32 al=std::max<u32>(g.align,16); addr=alignUp(addr,al); g.addr=addr; addr+=std::max<u64>(g.size,1)+1; } M.gEnd=alignUp(addr,16);
  M.granule.assign((M.gEnd-GBASE)/16+1,0xffffffff); for(u32 i=0;i<M.globals.size();i++){ auto&g=M.globals[i]; for(u64 a=g.addr/16;a<=(g.addr+g.size)/16;a++) M.granule[a-GBASE/16]=i; }
  for(auto&a:aliases){ P s{a.second}; M.alias[a.first]=(u64)parseConstScalar(s,simple(T_PTR)); }
  M.gdata.resize(M.globals.size()); for(u32 i=0;i<M.globals.size();i++){ auto&g=M.globals[i]; M.gdata[i].assign(g.size,0); if(g.init){ P s{g.init}; initBytes(s,g.ty,(u8*)M.gdata[i].data()); } }
}
// ---- function bodies
struct FC { Func*f; std::unordered_map<std::string,std::pair<u32,Type*>> vals; std::unordered_map<std::string,u32> blk; std::vector<std::string> blkNames; std::vector<u32> blkPc; 
  struct PhiIn { u32 dst; Type*ty; std::vector<std::pair<std::string,int>> in; }; std::vector<std::vector<PhiIn>> phis; struct EdgeRef { std::string from,to; }; std::vector<EdgeRef> erefs; std::map<std::pair<std::string,std::string>,u32> emap; };
static u32 ncomp(Type*t){ return comps(t).size(); }
static u32 slot(FC&c,const std::string&n,Type*t){ auto it=c.vals.find(n); if(it!=c.vals.end()) return it->second.first; u32 s=c.f->nregs; c.f->nregs+=ncomp(t); c.vals[n]={s,t}; return s; }
static int operand(FC&c,P&s,Type*t){ ws(s); if(*s.p=='%'){ s.p++; return (int)slot(c,ident(s),t); } int at=c.f->consts.size(); parseConst(s,t,c.f->consts); if((u32)(c.f->consts.size()-at)!=ncomp(t)) die(s.p,"const comps"); return ~at; }
static u32 edge(FC&c,const std::string&from,const std::string&to){ auto k=std::make_pair(from,to); auto it=c.emap.find(k); if(it!=c.emap.end()) return it->second; u32 i=c.erefs.size(); c.erefs.push_back({from,to}); c.emap[k]=i; return i; }
static std::string labelRef(P&s){ expect(s,"label"); ws(s); if(*s.p!='%') die(s.p,"label"); s.p++; return ident(s); }
static bool isVal(const char*p){ if(*p=='%'||*p=='@'||isdigit(*p)||*p=='-'||*p=='+'||*p=='['||*p=='{'||*p=='<') return true; if(p[0]=='c'&&p[1]=='"') return true; for(const char*k:{"true","false","null","undef","poison","zeroinitializer","none","splat","getelementptr","inttoptr","ptrtoint","trunc","sub","add","xor","bitcast","zext","sext","and","or","mul","ptrtoaddr"}){ size_t n=strlen(k); if(!strncmp(p,k,n)&&!isalnum(p[n])&&p[n]!='_') return true; } return false; }
static void argAttrs(P&s){ for(;;){ ws(s); if(isVal(s.p)) return; char ch=*s.p; if(ch==','||ch==')') return; if(isalpha(ch)||ch=='_'){ const char*b=s.p; while(isalnum(*s.p)||*s.p=='_'||*s.p=='.') s.p++; bool al=(s.p-b==5&&!strncmp(b,"align",5)); if(*s.p=='(') parenGroup(s); else if(al){ ws(s); num(s);} } else if(ch=='"'){ s.p++; while(*s.p!='"') s.p++; s.p++; if(*s.p=='='){ s.p++; s.p++; while(*s.p!='"') s.p++; s.p++; } } else die(s.p,"arg attr"); } }
int builtinId(const std::string&n);
static void typedOp(FC&c,P&s,Type*&t,int&o){ t=parseType(s); o=operand(c,s,t); }
static void parseInst(FC&c,P s,const char*eol,const std::string&cur,u32 curIdx){
  Func*f=c.f; std::string def; ws(s); 
  if(*s.p=='%'){ s.p++; def=ident(s); expect(s,"="); ws(s); }
  Inst I; memset(&I,0,sizeof I); I.nc=1;
  auto setDef=[&](Type*t){ I.ty=t; I.nc=ncomp(t); I.w=I.nc?comps(t)[0].w:0; if(!def.empty()) I.dst=slot(c,def,t); };
  const char*start=s.p; const char*b=s.p; while(isalnum(*s.p)||*s.p=='_') s.p++; std::string op(b,s.p-b);
  static const std::unordered_map<std::string,Op> bins={{"add",O_ADD},{"sub",O_SUB},{"mul",O_MUL},{"udiv",O_UDIV},{"urem",O_UREM},{"sdiv",O_SDIV},{"srem",O_SREM},{"and",O_AND},{"or",O_OR},{"xor",O_XOR},{"shl",O_SHL},{"lshr",O_LSHR},{"ashr",O_ASHR}};
  auto bi=bins.find(op);
  if(bi!=bins.end()){ skipFlags(s,{"nuw","nsw","exact","disjoint"}); Type*t; typedOp(c,s,t,I.a); expect(s,","); I.b=operand(c,s,t); I.op=I_BIN; I.sub=bi->second; setDef(t); f->code.push_back(I); return; }
  if(op=="icmp"){ skipFlags(s,{"samesign"}); ws(s); const char*k=s.p; while(isalpha(*s.p)) s.p++; std::string pr(k,s.p-k); static const std::unordered_map<std::string,Pred> ps={{"eq",P_EQ},{"ne",P_NE},{"ugt",P_UGT},{"uge",P_UGE},{"ult",P_ULT},{"ule",P_ULE},{"sgt",P_SGT},{"sge",P_SGE},{"slt",P_SLT},{"sle",P_SLE}}; I.sub=ps.at(pr); Type*t; typedOp(c,s,t,I.a); expect(s,","); I.b=operand(c,s,t); I.op=I_ICMP; I.w2=comps(t)[0].w; 
    Type*rt=intTy(1); if(t->k==T_VEC){ char nm[64]; snprintf(nm,64,"<%llu x i1>",(unsigned long long)t->n); P q{nm}; rt=parseType(q);} setDef(rt); f->code.push_back(I); return; }
  if(op=="fcmp"){ skipFlags(s,{"fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"}); ws(s); const char*k=s.p; while(isalpha(*s.p)) s.p++; std::string pr(k,s.p-k); static const std::vector<std::string> ps={"false","oeq","ogt","oge","olt","ole","one","ord","ueq","ugt","uge","ult","ule","une","uno","true"}; I.sub=std::find(ps.begin(),ps.end(),pr)-ps.begin(); Type*t; typedOp(c,s,t,I.a); expect(s,","); I.b=operand(c,s,t); I.op=I_FCMP; I.w2=t->w; setDef(intTy(1)); f->code.push_back(I); return; }
  if(op=="fadd"||op=="fsub"||op=="fmul"||op=="fdiv"||op=="frem"){ skipFlags(s,{"fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"}); Type*t; typedOp(c,s,t,I.a); expect(s,","); I.b=operand(c,s,t); I.op=I_FBIN; I.sub=op=="fadd"?F_ADD:op=="fsub"?F_SUB:op=="fmul"?F_MUL:op=="fdiv"?F_DIV:F_REM; setDef(t); f->code.push_back(I); return; }
  if(op=="fneg"){ skipFlags(s,{"fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"}); Type*t; typedOp(c,s,t,I.a); I.op=I_FNEG; setDef(t); f->code.push_back(I); return; }
  if(op=="select"){ skipFlags(s,{"fast","nnan","ninf","nsz"}); Type*ct,*t,*t2; typedOp(c,s,ct,I.a); expect(s,","); typedOp(c,s,t,I.b); expect(s,","); typedOp(c,s,t2,I.c); I.op=I_SELECT; I.flags=ct->k==T_VEC; setDef(t); f->code.push_back(I); return; }
  if(op=="zext"||op=="sext"||op=="trunc"||op=="ptrtoint"||op=="inttoptr"||op=="bitcast"||op=="ptrtoaddr"||op=="addrspacecast"){ skipFlags(s,{"nuw","nsw","nneg"}); Type*t; typedOp(c,s,t,I.a); expect(s,"to"); Type*d=parseType(s); I.w2=comps(t)[0].w; I.x=ncomp(t); setDef(d);
    if(op=="bitcast") I.op=(ncomp(t)==1&&I.nc==1)?I_COPY:I_BITCAST; else if(I.w==I.w2) I.op=I_COPY; else I.op=op=="sext"?I_SEXT:I.w>I.w2?I_ZEXT:I_TRUNC; f->code.push_back(I); return; }
  if(op=="freeze"){ Type*t; typedOp(c,s,t,I.a); setDef(t); I.op=I_COPY; f->code.push_back(I); return; }
  if(op=="fptoui"||op=="fptosi"||op=="uitofp"||op=="sitofp"||op=="fptrunc"||op=="fpext"){ skipFlags(s,{"nneg","fast"}); Type*t; typedOp(c,s,t,I.a); expect(s,"to"); Type*d=parseType(s); I.w2=t->w; setDef(d); I.op=I_FPCONV; I.sub=op=="fptoui"?FC_FPTOUI:op=="fptosi"?FC_FPTOSI:op=="uitofp"?FC_UITOFP:op=="sitofp"?FC_SITOFP:op=="fptrunc"?FC_TRUNC:FC_EXT; f->code.push_back(I); return; }
  if(op=="load"){ skipFlags(s,{"atomic","volatile"}); Type*t=parseType(s); expect(s,","); Type*pt; typedOp(c,s,pt,I.a); I.op=I_LOAD; setDef(t); f->code.push_back(I); return; }
  if(op=="store"){ skipFlags(s,{"atomic","volatile"}); Type*t; typedOp(c,s,t,I.a); expect(s,","); Type*pt; typedOp(c,s,pt,I.b); I.op=I_STORE; I.ty=t; I.nc=ncomp(t); I.w=I.nc?comps(t)[0].w:0; f->code.push_back(I); return; }
  if(op=="alloca"){ Type*t=parseType(s); u64 n=1; u64 al=t->align; while(lit(s,",")){ ws(s); if(lit(s,"align")) al=num(s); else { Type*it=parseType(s); n=(u64)parseConstScalar(s,it); } } u64 off=alignUp(f->frameSize,std::max<u64>(al,1)); f->frameSize=off+std::max<u64>(t->size*n,1); I.op=I_ALLOCA; I.x=off; setDef(simple(T_PTR)); f->code.push_back(I); return; }
  if(op=="getelementptr"){ skipFlags(s,{"inbounds","nuw","nusw"}); Type*st=parseType(s); expect(s,","); Type*pt; typedOp(c,s,pt,I.a); if(pt->k==T_VEC) die(start,"vector gep"); Gep g; g.off=0; Type*t=st; bool first=true; 
    while(lit(s,",")){ ws(s); if(*s.p=='!') break; Type*it=parseType(s); ws(s); i64 scale; if(first) scale=t->size; else if(t->k==T_STRUCT){ u64 v=(u64)parseConstScalar(s,it); g.off+=t->offs[v]; t=t->el[v]; continue; } else { t=t->el[0]; scale=t->size; } first=false;
      if(*s.p=='%'){ s.p++; std::string nm=ident(s); g.idx.push_back({(int)slot(c,nm,it),(u8)it->w,scale}); } else { u128 v=parseConstScalar(s,it); g.off+=(i64)sx(v,it->w)*scale; } }
    I.op=I_GEP; I.x=f->geps.size(); f->geps.push_back(g); setDef(simple(T_PTR)); f->code.push_back(I); return; }
  if(op=="phi"){ Type*t=parseType(s); FC::PhiIn ph; ph.dst=slot(c,def,t); ph.ty=t; do{ ws(s); if(*s.p!='[') break; expect(s,"["); int o=operand(c,s,t); expect(s,","); ws(s); if(*s.p!='%') die(s.p,"phi"); s.p++; std::string l=ident(s); expect(s,"]"); ph.in.push_back({l,o}); }while(lit(s,",")); c.phis[curIdx].push_back(ph); return; }
  if(op=="br"){ ws(s); if(!strncmp(s.p,"label",5)){ I.op=I_BR; I.x=edge(c,cur,labelRef(s)); } else { Type*t; typedOp(c,s,t,I.a); expect(s,","); std::string l1=labelRef(s); expect(s,","); std::string l2=labelRef(s); I.op=I_CONDBR; I.x=edge(c,cur,l1); I.b=(int)edge(c,cur,l2); } f->code.push_back(I); return; }
  if(op=="switch"){ Type*t; typedOp(c,s,t,I.a); expect(s,","); SwitchT sw; sw.def=edge(c,cur,labelRef(s)); expect(s,"["); for(;;){ while(*s.p==' '||*s.p=='\n'||*s.p=='\t') s.p++; if(*s.p==']') break; Type*ct=parseType(s); u128 v=parseConstScalar(s,ct); expect(s,","); u32 e=edge(c,cur,labelRef(s)); sw.cases.push_back({v,e}); if(ct->w<=64) sw.map[(u64)v]=e; } I.op=I_SWITCH; I.w=t->w; I.x=f->switches.size(); f->switches.push_back(sw); f->code.push_back(I); return; }
  if(op=="ret"){ Type*t=parseType(s); I.op=I_RET; if(t->k==T_VOID) I.nc=0; else { I.a=operand(c,s,t); I.nc=ncomp(t); } I.ty=t; f->code.push_back(I); return; }
  if(op=="unreachable"||op=="resume"){ I.op=I_UNREACHABLE; f->code.push_back(I); return; }
  if(op=="landingpad"){ Type*t=parseType(s); I.op=I_LANDINGPAD; setDef(t); f->code.push_back(I); return; }
  if(op=="fence"){ return; }
  if(op=="extractvalue"){ Type*t; typedOp(c,s,t,I.a); u32 ci=0; Type*x=t; while(lit(s,",")){ ws(s); if(*s.p=='!') break; u64 i=num(s); comps(x); if(x->k==T_STRUCT){ ci+=x->compIdx[i]; x=x->el[i]; } else { ci+=i*ncomp(x->el[0]); x=x->el[0]; } } I.op=I_EXTRACTV; I.x=ci; setDef(x); f->code.push_back(I); return; }
  if(op=="insertvalue"){ Type*t,*vt; typedOp(c,s,t,I.a); expect(s,","); typedOp(c,s,vt,I.b); u32 ci=0; Type*x=t; while(lit(s,",")){ ws(s); if(*s.p=='!') break; u64 i=num(s); comps(x); if(x->k==T_STRUCT){ ci+=x->compIdx[i]; x=x->el[i]; } else { ci+=i*ncomp(x->el[0]); x=x->el[0]; } } I.op=I_INSERTV; I.x=ci; I.c=ncomp(vt); setDef(t); f->code.push_back(I); return; }
  if(op=="extractelement"){ Type*t,*it; typedOp(c,s,t,I.a); expect(s,","); typedOp(c,s,it,I.b); I.op=I_EXTRACTE; I.x=t->n; I.w2=it->w; setDef(t->el[0]); f->code.push_back(I); return; }
  if(op=="insertelement"){ Type*t,*vt,*it; typedOp(c,s,t,I.a); expect(s,","); typedOp(c,s,vt,I.b); expect(s,","); typedOp(c,s,it,I.c); I.op=I_INSERTE; I.w2=it->w; setDef(t); f->code.push_back(I); return; }
  if(op=="shufflevector"){ Type*t,*t2,*mt; typedOp(c,s,t,I.a); expect(s,","); typedOp(c,s,t2,I.b); expect(s,","); mt=parseType(s); std::vector<SV> m; parseConst(s,mt,m); SwitchT sw; for(auto&x:m) sw.cases.push_back({x.c,0}); I.op=I_SHUFFLE; I.x=f->switches.size(); I.c=t->n; f->switches.push_back(sw); char nm[32]; snprintf(nm,32,"V%p_%llu",(void*)t->el[0],(unsigned long long)mt->n); 
    // result type <mt.n x el>
    char key[64]; snprintf(key,64,"<%llux%p",(unsigned long long)mt->n,(void*)t->el[0]); auto it=tyTab.find(key); Type*rt; if(it!=tyTab.end()) rt=it->second; else { rt=newType(key); rt->k=T_VEC; rt->n=mt->n; rt->el={t->el[0]}; rt->size=mt->n*t->el[0]->size; u64 a=1; while(a<rt->size&&a<16) a*=2; rt->align=a; } setDef(rt); f->code.push_back(I); return; }
  if(op=="atomicrmw"){ skipFlags(s,{"volatile"}); ws(s); const char*k=s.p; while(isalpha(*s.p)) s.p++; std::string o(k,s.p-k); static const std::vector<std::string> os={"xchg","add","sub","and","or","xor","umax","umin","max","min","nand"}; I.sub=std::find(os.begin(),os.end(),o)-os.begin(); Type*pt,*t; typedOp(c,s,pt,I.a); expect(s,","); typedOp(c,s,t,I.b); I.op=I_ATOMICRMW; setDef(t); f->code.push_back(I); return; }
  if(op=="cmpxchg"){ skipFlags(s,{"weak","volatile"}); Type*pt,*t,*t2; typedOp(c,s,pt,I.a); expect(s,","); typedOp(c,s,t,I.b); expect(s,","); typedOp(c,s,t2,I.c); I.op=I_CMPXCHG; I.w2=t->w; char key[64]; snprintf(key,64,"{ %s, i1 }",t->k==T_PTR?"ptr":("i"+std::to_string(t->w)).c_str()); P q{key}; setDef(parseType(q)); I.w=t->w; I.ty=t; f->code.push_back(I); return; }
  bool inv=false;
  if(op=="tail"||op=="musttail"||op=="notail"){ expect(s,"call"); op="call"; }
  if(op=="invoke"){ inv=true; op="call"; }
  if(op=="call"){ CallT ct; skipAttrs(s); Type*rt=parseType(s); ws(s); 
    if(*s.p=='('){ parenGroup(s); ws(s); }
    std::string callee; bool direct=false; if(*s.p=='@'){ s.p++; callee=ident(s); direct=true; } else if(*s.p=='%'){ s.p++; ct.indirect=true; ct.fnop=(int)slot(c,ident(s),simple(T_PTR)); } else { if(!strncmp(s.p,"asm",3)) { I.op=I_NOP; if(rt->k!=T_VOID) die(s.p,"asm with result"); f->code.push_back(I); return; } ct.indirect=true; ct.fnop=operand(c,s,simple(T_PTR)); }
    if(direct){ auto it=M.fidx.find(callee); if(it==M.fidx.end()) die(start,"unknown callee"); ct.callee=it->second; }
    if(direct&&(callee.rfind("llvm.experimental.noalias",0)==0||callee.rfind("llvm.dbg",0)==0||callee.rfind("llvm.lifetime",0)==0||callee.rfind("llvm.assume",0)==0)) return;
    expect(s,"("); ws(s); if(*s.p!=')') for(;;){ Type*t=parseType(s); if(t->k==T_META){ int d=0; while(!(d==0&&(*s.p==','||*s.p==')'))){ if(*s.p=='(') d++; if(*s.p==')') d--; s.p++; } } else { argAttrs(s); CallArg a; a.op=operand(c,s,t); a.n=ncomp(t); a.w=a.n?comps(t)[0].w:0; ct.args.push_back(a); } if(!lit(s,",")) break; } expect(s,")");
    ct.retN=rt->k==T_VOID?0:ncomp(rt); if(ct.retN){ ct.retw=comps(rt)[0].w; for(auto&x:comps(rt)) ct.retWs.push_back(x.w); setDef(rt); if(def.empty()){ I.dst=f->nregs; f->nregs+=ct.retN; } }
    if(inv){ const char*to=s.p; while(strncmp(to,"to label",8)) { to++; if(to>=fileEnd) die(start,"invoke"); } P q{to+2}; ct.normalEdge=edge(c,cur,labelRef(q)); }
    I.op=I_CALL; I.nc=ct.retN; I.x=f->calls.size(); f->calls.push_back(ct); f->code.push_back(I); return; }
  die(start,"instruction"); }
void compileFunc(Func*f){
  if(f->compiled) return; f->compiled=true; FC c; c.f=f;
  // header params
  const char*a=f->hdr; bool q=false; int d=0; for(;;a++){ if(*a=='"') q=!q; if(q) continue; if(*a=='(') d++; if(*a==')') d--; if(*a=='@'&&d==0) break; } P s{a+1}; ident(s); expect(s,"("); ws(s); int unnamed=0;
  if(*s.p!=')') for(;;){ if(lit(s,"...")) break; Type*t=parseType(s); argAttrs(s); ws(s); std::string n; if(*s.p=='%'){ s.p++; n=ident(s); if(isdigit(n[0])) unnamed++; } else n=std::to_string(unnamed++); u32 sl=slot(c,n,t); f->params.push_back({sl,(u16)ncomp(t)}); if(!lit(s,",")) break; }
  // split into blocks
  const char*l=f->bodyStart; std::string cur; bool have=false; u32 curIdx=0;
  auto startBlock=[&](const std::string&n){ cur=n; curIdx=c.blkNames.size(); c.blk[n]=curIdx; c.blkNames.push_back(n); c.blkPc.push_back(f->code.size()); c.phis.emplace_back(); have=true; };
  while(*l!='}'){ const char*e=(const char*)memchr(l,'\n',fileEnd-l); 
    if(e==l){ l=e+1; continue; }
    if(*l!=' '){ P t{l}; std::string n; if(*l==';'){ l=e+1; continue; } n=ident(t); if(*t.p!=':') die(l,"label"); startBlock(n); l=e+1; continue; }
    if(!have) startBlock(std::to_string(unnamed));
    const char*x=l; while(*x==' ') x++;
    if(*x==';'){ l=e+1; continue; }
    if(!strncmp(x,"cleanup",7)||!strncmp(x,"filter",6)||!strncmp(x,"catch",5)||*x==']'||!strncmp(x,"to label",8)||(*x=='i'&&isdigit(x[1]))||*x=='#'){ l=e+1; continue; } // continuation lines of landingpad / switch / invoke
    parseInst(c,P{x},e,cur,curIdx); l=e+1; }
  f->edges.resize(c.erefs.size());
  for(size_t i=0;i<c.erefs.size();i++){ auto bt=c.blk.find(c.erefs[i].to); if(bt==c.blk.end()){ fprintf(stderr,"no block %s in %s\n",c.erefs[i].to.c_str(),f->name.c_str()); exit(3);} Edge&E=f->edges[i]; E.block=bt->second; E.target=c.blkPc[bt->second]; 
    for(auto&ph:c.phis[bt->second]){ bool ok=false; for(auto&in:ph.in) if(in.first==c.erefs[i].from){ if(in.second!=(int)ph.dst) E.moves.push_back({ph.dst,in.second,(u16)ncomp(ph.ty)}); ok=true; break; } if(!ok){ fprintf(stderr,"phi without incoming %s -> %s in %s\n",c.erefs[i].from.c_str(),c.erefs[i].to.c_str(),f->name.c_str()); exit(3);} } }
  f->frameSize=alignUp(f->frameSize,16);
}
