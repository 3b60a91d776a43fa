#define ALG_PART 3
#include "alg_calls.inc"
namespace sim{void alg_reg3(){
REG(AL_COPY)REG(AL_COPY_N)REG(AL_COPY_IF)REG(AL_MOVE)REG(AL_TRANSFORM)
REG(AL_TRANSFORM2)REG(AL_REPLACE_COPY)REG(AL_REPLACE_COPY_IF)
REG(AL_REMOVE_COPY)REG(AL_REMOVE_COPY_IF)REG(AL_UNIQUE_COPY)
REG(AL_UNIQUE_COPY_P)REG(AL_ROTATE_COPY)REG(AL_SAMPLE)REG(AL_SAMPLE_U)
REG(AL_IS_PARTITIONED)REG(AL_PARTITION_COPY)REG(AL_PARTITION_POINT)
}}
