#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <memory>
struct Val { uint64_t b; E e; };
struct Cell { E e; uint8_t sz; };
struct Obj { uint64_t base, size; bool freed; uint8_t kind; std::map<uint32_t, Cell>* sym; };   // kind: 0 heap 1 stack 2 global 3 function
enum TK : uint8_t { T_INT, T_PTR, T_DBL, T_FLT, T_LDBL, T_BAD };
struct Leaf { TK tk; uint16_t w; uint32_t off; };
struct LI { unsigned opc; int dst = -1; int nl = 1; TK tk = T_INT; uint16_t w = 0, sw = 0; TK stk = T_INT; std::vector<int> o; uint64_t imm = 0; const llvm::Instruction* I = nullptr;
  std::vector<std::pair<int, int64_t>> gep; std::vector<int> geps_w; std::vector<Leaf>* leaves = nullptr; int b0 = -1, b1 = -1; llvm::Function* callee = nullptr; int bi = -1; uint32_t pred = 0; std::vector<std::pair<uint64_t,int>> cases; };
struct Copy { int dst, src, n; };
struct LBlock { std::vector<LI> ins; std::map<int, std::vector<Copy>> phi; /* keyed by predecessor */ };
struct LFunc { llvm::Function* F; int id; std::vector<LBlock> blocks; int nregs = 0; std::vector<Val> consts; std::vector<int> args; std::vector<int> argn; int retn = 0; };
struct Frame { LFunc* f; int blk, pc; std::vector<Val> regs; std::vector<Obj*> allocas; int retDst = -1, retN = 0; bool isInvoke = false; int nb = -1, ub = -1; uint64_t va = 0; };
struct PathEnd { };
