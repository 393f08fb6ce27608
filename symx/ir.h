// Textual LLVM IR (as printed by rustc --emit=llvm-ir) -> compact executable form.
#pragma once
#include "expr.h"
enum TK : u8 { T_INT, T_PTR, T_FLOAT, T_DOUBLE, T_VEC, T_ARR, T_STRUCT, T_VOID, T_LABEL, T_META };
struct Comp { u8 w; u32 off; u8 fp; };
struct Type { TK k; int w=0; u64 n=0; std::vector<Type*> el; bool packed=false; u64 size=0; u32 align=1; std::vector<Comp> comps; std::vector<u64> offs; std::vector<u32> compIdx; bool compsDone=false; };

enum IOp : u8 { I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_BITCAST, I_FPCONV, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_EXTRACTV, I_INSERTV,
  I_EXTRACTE, I_INSERTE, I_SHUFFLE, I_ATOMICRMW, I_CMPXCHG, I_NOP, I_BR, I_CONDBR, I_SWITCH, I_RET, I_UNREACHABLE, I_LANDINGPAD };
enum Pred : u8 { P_EQ,P_NE,P_UGT,P_UGE,P_ULT,P_ULE,P_SGT,P_SGE,P_SLT,P_SLE };
enum FOp : u8 { F_ADD,F_SUB,F_MUL,F_DIV,F_REM };
enum FPC : u8 { FC_FPTOUI,FC_FPTOSI,FC_UITOFP,FC_SITOFP,FC_TRUNC,FC_EXT };

struct Move { u32 dst; int src; u16 n; };
struct Edge { u32 target; std::vector<Move> moves; u32 block; };
struct GepIdx { int op; u8 w; i64 scale; };
struct Gep { i64 off; std::vector<GepIdx> idx; };
struct CaseT { u128 v; u32 edge; };
struct SwitchT { std::vector<CaseT> cases; u32 def; std::unordered_map<u64,u32> map; };
struct CallArg { int op; u16 n; u8 w; };
struct CallT { int callee=-1; /*func index*/ int fnop=0; bool indirect=false; std::vector<CallArg> args; u16 retN=0; i64 normalEdge=-1; u8 retw=0; std::vector<u8> retWs; };
struct Inst { u8 op; u8 sub; u8 w; u8 w2; u16 nc; u16 flags; u32 dst; int a,b,c; u32 x; Type*ty; };
struct Block { u32 pc; };
struct Func { std::string name; u32 idx; bool defined=false; u64 addr=0; int builtin=-1; bool isPanic=false; std::vector<Inst> code; std::vector<Edge> edges; std::vector<Gep> geps; std::vector<SwitchT> switches; std::vector<CallT> calls; std::vector<SV> consts; u32 nregs=0; std::vector<std::pair<u32,u16>> params; 
  std::vector<std::pair<u64,u64>> allocas; u64 frameSize=0; const char*bodyStart=nullptr; const char*hdr=nullptr; bool compiled=false; bool executed=false; };
struct Global { std::string name; u64 addr; u64 size; bool constant; bool ext; const char*init; Type*ty; u32 align; };
struct Module { std::vector<Func*> funcs; std::unordered_map<std::string,u32> fidx; std::vector<Global> globals; std::unordered_map<std::string,u32> gidx; std::unordered_map<std::string,u64> alias;
  std::vector<std::string> gdata; u64 gEnd=0; std::vector<u32> granule; std::unordered_map<u64,u32> faddr; };
extern Module M;
void loadModule(const char*path);
void compileFunc(Func*f);
const u64 GBASE=0x10000, FBASE=0x40000000ull;
