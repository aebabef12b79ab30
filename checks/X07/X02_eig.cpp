// env: PBT_CPU_LIMIT=120
// flags: -O0 -DPBT_SAN -DPBT_SCALE=0.12 -D_GLIBCXX_ASSERTIONS
// variant: san -fsanitize=address,undefined -fsanitize=float-cast-overflow -fno-sanitize-recover=all
#include "../X02/eig.cpp"
