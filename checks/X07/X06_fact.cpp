// env: PBT_CPU_LIMIT=120
// flags: -O0 -DPBT_SAN -DPBT_WILD -D_GLIBCXX_ASSERTIONS
// variant: san -DPBT_SCALE=0.3 -fsanitize=address,undefined -fsanitize=float-cast-overflow -fno-sanitize-recover=all
// variant: mem -DPBT_VALGRIND -DPBT_SCALE=0.02 wrap:valgrind,-q,--error-limit=no
#include "../X06/fact.cpp"
