#include "blas3.hpp"
static pbt::Reg h1("her2k/cdouble/CCC", 30000, 500000, tRank<true, true, CD, CD, CD, CD, D, LC, LC, LC>, RULE3());
static pbt::Reg h2("her2k/cfloat/RRR", 30000, 500000, tRank<true, true, CF, CF, CF, CF, F, LR, LR, LR>, RULE3());
static pbt::Reg h3("her2k/mixed/RCR", 20000, 300000, tRank<true, true, CD, D, CD, CD, D, LR, LC, LR>, RULE3());
static pbt::Reg h4("her2k/double/CRC", 15000, 300000, tRank<true, true, D, D, D, D, D, LC, LR, LC>, RULE3());
static pbt::Reg s1("syr2k/cdouble/CCC", 30000, 500000, tRank<false, true, CD, CD, CD, CD, CD, LC, LC, LC>, RULE3());
static pbt::Reg s2("syr2k/float/RRR", 30000, 500000, tRank<false, true, F, F, F, F, F, LR, LR, LR>, RULE3());
static pbt::Reg s3("syr2k/mixed/CRC", 20000, 300000, tRank<false, true, D, CD, CD, CD, D, LC, LR, LC>, RULE3());
