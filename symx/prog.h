// symx: the executable form of an LLVM module.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>

enum IOp : uint8_t {
  I_BIN, I_ICMP, I_FBIN, I_FNEG, I_FCMP, I_TRUNC, I_ZEXT, I_SEXT, I_FPTOSI, I_FPTOUI, I_SITOFP, I_UITOFP, I_FPTRUNC, I_FPEXT, I_COPY,
  I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_SELECT, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE, I_VASTART, I_NOP,
};
typedef int32_t Opnd;     // >= 0 register, < 0 constant pool index ~x

struct Edge { uint32_t target; std::vector<std::pair<int32_t, Opnd>> copies; };
struct Func;
struct Inst {
  IOp op; uint8_t w, sub, flags;     // sub: operator / predicate / source width; flags: 1 nsw, 2 nuw/exact, 4 pointer, 8 float operands
  int32_t dst; Opnd a, b, c;
  uint32_t x;                        // index into side tables
};
struct CallInfo { int fn; int ext; Opnd target; std::vector<Opnd> args; std::vector<uint8_t> widths; int nret; std::vector<uint8_t> retw; };
struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct GepInfo { Opnd base; int64_t off; struct T { Opnd idx; uint8_t w; int64_t scale; }; std::vector<T> terms; };
struct Func {
  std::string name; int id; bool vararg = false, defined = false, lowered = false; uint8_t poll = 0; // 1, 2: an interrupt may arrive before a call
  int ext = -1;                      // external handler index
  uint32_t nargs = 0, nregs = 0;
  std::vector<uint8_t> argw;
  std::vector<Inst> code;
  std::vector<uint64_t> consts;
  std::vector<Edge> edges;
  std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; std::vector<GepInfo> geps; std::vector<std::vector<Opnd>> rets;
  uint32_t entry = 0;
  std::vector<uint32_t> line;        // source line per instruction (0 unknown)
  std::string file;
  std::vector<uint8_t> covered;
};
struct Global { std::string name; uint64_t addr; uint64_t size; bool constant; std::vector<uint8_t> init; };
struct Program {
  std::vector<std::unique_ptr<Func>> funcs; std::map<std::string, int> fnByName;
  std::vector<Global> globals; std::map<std::string, int> globByName;
  std::set<std::string> sutFuncs, sutGlobals;   // globals of the first module (the code under test)
};
// address layout: object id in the high bits
static const unsigned OBJ_SHIFT = 28;
static const uint64_t OBJ_BIAS = 0x10000;                 // offset of byte 0 within an object's region
inline uint64_t obj_addr(uint32_t id) { return ((uint64_t)(id + 16) << OBJ_SHIFT) + OBJ_BIAS; }
inline uint32_t addr_obj(uint64_t a) { return (uint32_t)(a >> OBJ_SHIFT) - 16; }
inline uint64_t addr_off(uint64_t a) { return (a & ((1ull << OBJ_SHIFT) - 1)) - OBJ_BIAS; }
static const uint64_t FN_BASE = 0x7f00000000000000ull;
inline uint64_t fn_addr(int id) { return FN_BASE + (uint64_t)id * 16; }

void load_program(const std::vector<std::string>& files, Program& P, uint32_t& nextObj);
