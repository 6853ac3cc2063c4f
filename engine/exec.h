#pragma once
#include "state.h"
#include <llvm/Support/raw_ostream.h>
#include <unordered_map>

enum Builtin {
    B_UNRESOLVED = 0, B_NOP, B_INLINEASM, B_MEMCPY, B_MEMSET, B_ASSUME, B_EXPECT, B_OVF, B_SAT, B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_ABS,
    B_MINMAX, B_FABS, B_FSHL, B_FSHR, B_TRAP, B_VASTART, B_VAEND, B_VACOPY, B_EHTYPEID, B_FRINT, B_FSQRT, B_FMINMAX, B_TLSADDR, B_COPYSIGN, B_OBJSIZE,
    B_STACKSAVE, B_ISCONSTANT, B_FMULADD, B_FPOW, B_BITREV,
    B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_DELETE, B_MEMALIGN, B_POSIX_MEMALIGN, B_MEMCMP, B_MEMMOVE_F, B_MEMSET_F,
    B_SYM_BYTES, B_SYM_VAL, B_SYM_RANGE, B_SYM_CHOOSE, B_SYM_ASSUME, B_SYM_ASSERT, B_SYM_REACH, B_SYM_CONC, B_SYM_ISSYM, B_SYM_FAIL, B_SYM_PRINT, B_SYM_ENGINE, B_SYM_SCHED, B_SYM_DONE, B_SYM_OBJSIZE,
    B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_CXA_GETPTR, B_TERMINATE, B_CXA_CURTYPE, B_UNCAUGHT, B_CURRENT_EXC,
    B_PTHREAD_CREATE, B_PTHREAD_JOIN, B_MUTEX_LOCK, B_MUTEX_UNLOCK, B_MUTEX_TRYLOCK, B_PTHREAD_SELF, B_YIELD, B_TLS_DTOR, B_RET0, B_RETNULL, B_EXIT,
    B_STRTOD, B_FMTDOUBLE, B_TIME, B_FMOD, B_GUARD_ACQ, B_GUARD_REL, B_GUARD_ABORT, B_SYM_SELECT, B_SYM_TRACE
};

extern std::unordered_map<const llvm::Function*, DFunc*> g_funcs;
extern std::vector<DFunc*> g_funcByIdx;
extern std::vector<V> g_consts;
extern std::vector<DExtra> g_extras;
extern std::unordered_map<const llvm::GlobalVariable*, uint64_t> g_gaddr;
extern std::unordered_map<uint64_t, const llvm::GlobalVariable*> g_gByAddr;
extern const llvm::DataLayout* DL;
extern llvm::Module* M;
extern std::map<std::string, int> g_builtins;
extern std::set<std::string> g_forced;

unsigned typeWidth(llvm::Type* t);
DFunc* getFunc(llvm::Function* F);
DFunc* funcAt(uint64_t a);
void decodeFunc(DFunc* d);
V constValue(const llvm::Constant* C);
void writeConst(uint8_t* p, const llvm::Constant* C);
int intrinsicBuiltin(llvm::Function* F);
[[noreturn]] void fatal(const std::string& s);
