#include "blas3.hpp"
static pbt::Reg h1("herk/cdouble/CC", 30000, 500000, tRank<true, false, CD, CD, CD, D, D, LC, LC, LC>, RULE3());
static pbt::Reg h2("herk/cfloat/RR", 30000, 500000, tRank<true, false, CF, CF, CF, F, F, LR, LR, LR>, RULE3());
static pbt::Reg h3("herk/mixed/RC", 20000, 300000, tRank<true, false, D, D, CD, D, D, LR, LR, LC>, RULE3());
static pbt::Reg h4("herk/double/CR", 15000, 300000, tRank<true, false, D, D, D, D, D, LC, LC, LR>, RULE3());
static pbt::Reg s1("syrk/cdouble/CC", 30000, 500000, tRank<false, false, CD, CD, CD, CD, CD, LC, LC, LC>, RULE3());
static pbt::Reg s2("syrk/double/RR", 30000, 500000, tRank<false, false, D, D, D, D, D, LR, LR, LR>, RULE3());
static pbt::Reg s3("syrk/mixed/RC", 20000, 300000, tRank<false, false, D, D, CD, CD, D, LR, LR, LC>, RULE3());
static pbt::Reg s4("syrk/mixed F->D", 20000, 300000, tRank<false, false, F, F, D, D, F, LC, LR, LC>, RULE3());
