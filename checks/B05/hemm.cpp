#include "blas3.hpp"
static pbt::Reg r1("hemm/cdouble/CCC", 30000, 500000, tHemm<true, CD, CD, CD, CD, CD, LC, LC, LC>, RULE3());
static pbt::Reg r2("hemm/cfloat/RRR", 30000, 500000, tHemm<true, CF, CF, CF, CF, CF, LR, LR, LR>, RULE3());
static pbt::Reg r3("hemm/mixed", 20000, 300000, tHemm<true, CD, D, CD, D, CD, LC, LR, LC>, RULE3());
static pbt::Reg r4("hemm/double", 15000, 300000, tHemm<true, D, D, D, D, D, LR, LC, LC>, RULE3());
static pbt::Reg s1("symm/cdouble/CCC", 30000, 500000, tHemm<false, CD, CD, CD, CD, CD, LC, LC, LC>, RULE3());
static pbt::Reg s2("symm/float/RRR", 30000, 500000, tHemm<false, F, F, F, F, F, LR, LR, LR>, RULE3());
static pbt::Reg s3("symm/mixed", 20000, 300000, tHemm<false, D, CD, CD, CD, D, LC, LR, LR>, RULE3());
