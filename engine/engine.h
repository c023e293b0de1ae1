#pragma once
#include "state.h"
#include <llvm/IR/DataLayout.h>
#include <functional>

enum XOp : uint16_t { // decoded opcodes
  X_BIN, X_DIV, X_ICMP, X_FBIN, X_FCMP, X_FNEG, X_SELECT, X_ZEXT, X_SEXT, X_TRUNC, X_COPY, X_BITCAST, X_F2I, X_I2F, X_FPEXT, X_FPTRUNC,
  X_ALLOCA, X_LOAD, X_STORE, X_GEP, X_BR, X_CONDBR, X_SWITCH, X_RET, X_CALL, X_UNREACHABLE, X_EXTRACTELT, X_INSERTELT, X_SHUFFLE, X_EXTRACTVAL, X_INSERTVAL,
  X_ATOMICRMW, X_CMPXCHG, X_FENCE, X_UNSUP
};
struct Inst { uint16_t op; uint8_t sub; uint8_t flag; uint16_t w, wa; int32_t n; int32_t dst; int32_t a, b, c; int32_t x; llvm::Instruction* I; };
struct Copy { int dst, src, n; };
struct Edge { int block, pc; std::vector<Copy> cp; };
struct GepX { int64_t off; std::vector<std::pair<int, std::pair<int, int64_t>>> idx; }; // (ref, (width, scale))
struct CallX { llvm::Function* F; int ref; std::vector<std::pair<int, int>> args; int retN; int retW; std::string name; FnInfo* fi = nullptr; int ext = -1; bool isAsm = false; bool resolved = false; };
struct Leaf { uint64_t off; unsigned bits; };
struct FnInfo {
  llvm::Function* F; std::string name; int nslots = 0; std::vector<int> argSlot, argN;
  std::vector<Inst> code; std::vector<V> pool; std::vector<Edge> edges; std::vector<GepX> geps; std::vector<CallX> calls;
  std::vector<std::vector<int>> shuf; std::vector<std::vector<std::pair<uint64_t, int>>> sw; std::vector<std::vector<Leaf>> leaves;
  std::vector<int> blockPc, ipdom; std::vector<std::vector<char>> livein; bool liveDone = false; std::vector<llvm::BasicBlock*> blocks;
  std::map<llvm::BasicBlock*, int> bidx; std::map<const llvm::Value*, int> slotOf, poolOf; std::vector<uint8_t> slotW;
  uint64_t hits = 0; bool forked = false;
};
struct Barrier { size_t depth = 0; int block = -1; int region = 0; };
