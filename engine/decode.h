#pragma once
#include "posym.h"
enum { I_BIN, I_CMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_GEPC, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE, I_LPAD, I_RESUME,
  I_RMW, I_CMPXCHG, I_INTR, I_MEMCPY, I_MEMSET, I_TYPEID, I_UNSUP, I_FBIN, I_FCMP, I_FCVT };
enum { N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_CTPOP, N_CTLZ, N_CTTZ, N_BSWAP, N_USUBSAT, N_UADDSAT, N_FSHL, N_FSHR, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO };
enum { B_NONE, B_SYM, B_CHOICE, B_ASSUME, B_ASSERT, B_COVER, B_OBSERVE, B_UNWIND, B_FAIL, B_CONCRETE, B_ISSYM, B_PRINT, B_DUMP, B_STOP, B_MALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_DYNCAST, B_ABORT, B_ASSERTFAIL, B_OBJSIZE, B_EXIT, B_SHARED, B_GUARD };
extern std::vector<Val> constPool;
extern std::map<std::string, DFunc*> funcByName;
extern std::unordered_map<uint64_t, DFunc*> funcByAddr;
extern std::map<std::string, uint64_t> globalByName; extern std::set<uint32_t> ownGlobals; extern std::set<std::string> ownNames;
extern std::vector<std::string> externGlobals;
extern std::vector<DFunc*> globalCtors;
void loadModule(const char* path, Memory& mem);
void decodeFunc(DFunc* d);
std::string demangled(const std::string& n);
