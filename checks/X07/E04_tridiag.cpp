// env: PBT_CPU_LIMIT=120
// flags: -O0 -DPBT_SAN  -DPBT_SCALE=0.05 -D_GLIBCXX_ASSERTIONS 
// libs: -lquadmath
// variant: san -fsanitize=address,undefined -fsanitize=float-cast-overflow -fno-sanitize-recover=all
#include "../E04/tridiag.cpp"
