// env: PBT_CPU_LIMIT=120
// flags: -O0 -DPBT_SAN -D_GLIBCXX_ASSERTIONS
// variant: san -DPBT_SCALE=0.07 -fsanitize=address,undefined -fsanitize=float-cast-overflow -fno-sanitize-recover=all
#include "../X08/eig.cpp"
