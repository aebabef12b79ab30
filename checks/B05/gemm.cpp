#include "blas3.hpp"
static pbt::Reg r1("gemm/double/CCC", 40000, 600000, tGemm<D, D, D, D, D, LC, LC, LC>, RULE3());
static pbt::Reg r2("gemm/cdouble/RRR", 40000, 600000, tGemm<CD, CD, CD, CD, CD, LR, LR, LR>, RULE3());
static pbt::Reg r3("gemm/cfloat/CRC", 30000, 600000, tGemm<CF, CF, CF, CF, CF, LC, LR, LC>, RULE3());
static pbt::Reg r4("gemm/float/RCR", 30000, 600000, tGemm<F, F, F, F, F, LR, LC, LR>, RULE3());
static pbt::Reg r5("gemm/mixed D-CD->CD", 25000, 400000, tGemm<D, CD, CD, D, CD, LC, LC, LR>, RULE3());
static pbt::Reg r6("gemm/mixed CF-F->CF", 25000, 400000, tGemm<CF, F, CF, CF, F, LC, LC, LC>, RULE3());
static pbt::Reg r7("gemm/mixed F-D->D", 25000, 400000, tGemm<F, D, D, F, D, LR, LC, LC>, RULE3());
