#define ALG_PART 1
#include "alg_calls.inc"
namespace sim{void alg_reg1(){
REG(AL_ALL_OF)REG(AL_ANY_OF)REG(AL_NONE_OF)REG(AL_FOR_EACH)REG(AL_FOR_EACH_N)
REG(AL_FIND)REG(AL_FIND_IF)REG(AL_FIND_IF_NOT)REG(AL_FIND_END)
REG(AL_FIND_END_P)REG(AL_FIND_FIRST_OF)REG(AL_FIND_FIRST_OF_P)
REG(AL_ADJACENT_FIND)REG(AL_ADJACENT_FIND_P)REG(AL_COUNT)REG(AL_COUNT_IF)
}}
