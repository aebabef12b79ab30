#include "blas2.hpp"
static pbt::Reg g1("gemv/cdouble/C", 60000, 900000, tGemv<CD, CD, CD, CD, CD, LC, DF, DF>, RULE2());
static pbt::Reg g2("gemv/cfloat/R", 60000, 900000, tGemv<CF, CF, CF, CF, CF, LR, DB, DF>, RULE2());
static pbt::Reg g3("gemv/double/R", 40000, 900000, tGemv<D, D, D, D, D, LR, DF, DB>, RULE2());
static pbt::Reg g4("gemv/float/C", 40000, 900000, tGemv<F, F, F, F, F, LC, DB, DB>, RULE2());
static pbt::Reg g5("gemv/mixed D-CD-CD", 30000, 400000, tGemv<D, CD, CD, D, CD, LC, DF, DB>, RULE2());
static pbt::Reg g6("gemv/mixed CF-F-CF", 30000, 400000, tGemv<CF, F, CF, CF, F, LR, DF, DF>, RULE2());
static pbt::Reg g7("gemv/mixed F-D-D", 30000, 400000, tGemv<F, D, D, F, D, LC, DF, DF>, RULE2());
static pbt::Reg h1("hemv/cdouble/C", 60000, 900000, tHemv<true, CD, CD, CD, CD, CD, LC, DF, DF>, RULE2());
static pbt::Reg h2("hemv/cfloat/R", 60000, 900000, tHemv<true, CF, CF, CF, CF, CF, LR, DB, DF>, RULE2());
static pbt::Reg h3("hemv/double/R", 30000, 400000, tHemv<true, D, D, D, D, D, LR, DF, DB>, RULE2());
static pbt::Reg h4("hemv/mixed", 30000, 400000, tHemv<true, CD, D, CD, D, CD, LC, DF, DB>, RULE2());
static pbt::Reg s1("symv/cdouble/C", 60000, 900000, tHemv<false, CD, CD, CD, CD, CD, LC, DF, DF>, RULE2());
static pbt::Reg s2("symv/float/R", 40000, 900000, tHemv<false, F, F, F, F, F, LR, DB, DF>, RULE2());
static pbt::Reg s3("symv/mixed", 30000, 400000, tHemv<false, D, CD, CD, CD, D, LC, DF, DB>, RULE2());
