#define ALG_PART 2
#include "alg_calls.inc"
namespace sim{void alg_reg2(){
REG(AL_MISMATCH)REG(AL_MISMATCH_P)REG(AL_MISMATCH4)REG(AL_MISMATCH4_P)
REG(AL_EQUAL)REG(AL_EQUAL_P)REG(AL_EQUAL4)REG(AL_EQUAL4_P)REG(AL_IS_PERM)
REG(AL_IS_PERM_P)REG(AL_IS_PERM4)REG(AL_IS_PERM4_P)REG(AL_SEARCH)
REG(AL_SEARCH_P)REG(AL_SEARCH_N)REG(AL_SEARCH_N_P)REG(AL_SELF_EQUAL)
REG(AL_SELF_MISMATCH)REG(AL_SELF_SEARCH)REG(AL_SELF_PERM)
}}
