// Hash-consed bit-vector expressions over symbolic bytes, with simplification, evaluation and z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <bitset>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR,
  O_ASHR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_TABLE,
  O_TAINT /* a value derived from a hash seed: any value is allowed; absorbed by arithmetic, taken as 0 wherever it is looked at */ };

struct Mask { // set of symbol indices (<=192)
  u64 m[3];
  Mask() : m{0,0,0} {}
  bool empty() const { return !(m[0]|m[1]|m[2]); }
  bool inter(const Mask&o) const { return (m[0]&o.m[0])|(m[1]&o.m[1])|(m[2]&o.m[2]); }
  Mask operator|(const Mask&o) const { Mask r; for(int i=0;i<3;i++) r.m[i]=m[i]|o.m[i]; return r; }
  bool operator==(const Mask&o) const { return m[0]==o.m[0]&&m[1]==o.m[1]&&m[2]==o.m[2]; }
  int count() const { return __builtin_popcountll(m[0])+__builtin_popcountll(m[1])+__builtin_popcountll(m[2]); }
  int first() const { for(int i=0;i<3;i++) if(m[i]) return i*64+__builtin_ctzll(m[i]); return -1; }
  void set(int i) { m[i>>6] |= 1ull<<(i&63); }
  bool has(int i) const { return m[i>>6]>>(i&63)&1; }
};
const int MAXSYM = 192;

struct ByteSet { u64 b[4]; ByteSet():b{0,0,0,0}{} 
  bool get(int i) const { return b[i>>6]>>(i&63)&1; } void set(int i){ b[i>>6]|=1ull<<(i&63);} 
  bool empty() const { return !(b[0]|b[1]|b[2]|b[3]); }
  bool operator==(const ByteSet&o) const { return !memcmp(b,o.b,32); }
  ByteSet operator&(const ByteSet&o) const { ByteSet r; for(int i=0;i<4;i++) r.b[i]=b[i]&o.b[i]; return r; }
  ByteSet operator~() const { ByteSet r; for(int i=0;i<4;i++) r.b[i]=~b[i]; return r; }
  int count() const { int c=0; for(int i=0;i<4;i++) c+=__builtin_popcountll(b[i]); return c; }
  int first() const { for(int i=0;i<4;i++) if(b[i]) return i*64+__builtin_ctzll(b[i]); return -1; }
};
struct BSHash { size_t operator()(const ByteSet&s) const { u64 h=0; for(int i=0;i<4;i++) h=(h^s.b[i])*0x9E3779B97F4A7C15ull+(h>>29); return h; } };

struct Blob { std::string data; u32 id; };

struct Expr {
  Op op; u8 nk; u8 w; bool hasMul;
  u32 id;
  Expr* k[3];
  u64 lo, hi;            // constant value; extract offset; symbol index; table element bytes
  Blob* blob;
  Mask sup;
  u32 epoch; u128 val;
  ByteSet* tt;           // truth table (1-bit, single symbol)
  Z3_ast z3;
};

struct SV { u64 c; Expr* e; };
static inline SV C(u64 c){ SV r; r.c=c; r.e=nullptr; return r; }

u128 cval(Expr*e);
static inline u128 wmask(int w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline u64 m64(int w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i128 sx(u128 v,int w){ if(w>=128) return (i128)v; u128 m=wmask(w); v&=m; if(v>>(w-1)&1) v|=~m; return (i128)v; }

Expr* mkConst(u128 v,int w);
Expr* mkSym(int i);
Expr* mkTaint(int w);
Expr* mkBin(Op op,Expr*a,Expr*b);
Expr* mkConcat(Expr*hi,Expr*lo);
Expr* mkExtract(Expr*e,int off,int w);
Expr* mkZext(Expr*e,int w);
Expr* mkSext(Expr*e,int w);
Expr* mkEq(Expr*a,Expr*b);
Expr* mkCmp(Op op,Expr*a,Expr*b);
Expr* mkIte(Expr*c,Expr*a,Expr*b);
Expr* mkNot(Expr*e);
Expr* mkTable(Blob*b,Expr*idx,int nbytes);
Blob* internBlob(const std::string&s);
static inline bool isC(Expr*e){ return e->op==O_CONST; }
static inline bool isT(Expr*e){ return e->op==O_TAINT; }
static inline bool isCv(Expr*e,u64 v){ return e->op==O_CONST && e->lo==v && e->hi==0; }

extern u32 g_epoch;
extern const u8* g_model;     // current model for evaluation
void newEpoch(const u8*model);
u128 evalE(Expr*e);
const ByteSet& truthTable(Expr*e); // e 1-bit, single symbol
std::string exprStr(Expr*e,int depth=6);

Expr* toE(SV v,int w);
static inline SV fromE(Expr*e){ SV r; if(e->op==O_CONST && e->w<=64){ r.c=e->lo; r.e=nullptr; } else { r.c=0; r.e=e; } return r; }
