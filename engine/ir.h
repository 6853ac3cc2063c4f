// Pre-decoded form of LLVM IR, executed by exec.cpp
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <map>

enum IOp : uint8_t {
    I_BIN, I_ICMP, I_FCMP, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_SELECT,
    I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE, I_LANDINGPAD, I_RESUME, I_EXTRACT, I_INSERT,
    I_RMW, I_CMPXCHG, I_FENCE, I_FNEG, I_F1, I_UNSUPPORTED, I_EXTELT, I_INSELT, I_SHUFFLE, I_VBIN
};

struct DFunc;
struct DInst {
    uint8_t  op = 0, sub = 0;
    uint8_t  neg = 0, swap = 0;
    uint16_t w = 0, w2 = 0;
    int32_t  dst = -1;
    int32_t  a = 0, b = 0, c = 0;   // operands: >=0 register, <0 constant pool ~x
    int32_t  t0 = -1, t1 = -1;
    uint64_t imm = 0;               // offsets, sizes, alignment
    uint8_t  atomic = 0;            // AtomicOrdering
    int32_t  extra = -1;
    llvm::Instruction* I = nullptr;
};
struct GepTerm { int32_t r; uint16_t w; int64_t scale; };
struct DExtra {
    std::vector<GepTerm> gep;
    std::vector<std::pair<u128, int>> cases;
    std::vector<int32_t> args;
    std::vector<uint32_t> byvalSize;
    DFunc* callee = nullptr;
    int builtin = -1;
    std::string calleeName;
    std::vector<unsigned> idx;
    std::vector<int32_t> clauses;   // landingpad: constants (typeinfo) ; INT32_MIN separators
    std::vector<uint8_t> isFilter;
    bool cleanup = false;
    bool isInvoke = false;
    std::vector<uint16_t> argw;
    std::vector<int> mask;
    llvm::Type* ty = nullptr;
};
struct DPhi { int32_t dst; std::vector<std::pair<int, int32_t>> in; uint16_t w; };
struct DBlock { std::vector<DPhi> phis; std::vector<DInst> insts; };
struct DFunc {
    llvm::Function* F;
    std::string name;
    int nregs = 0;
    int nargs = 0;
    bool decoded = false;
    bool varargs = false;
    std::vector<DBlock> blocks;
    uint64_t addr = 0;
    bool executed = false;
    std::vector<std::vector<uint8_t>> hit;
};
