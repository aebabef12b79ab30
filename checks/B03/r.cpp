#include "blas2.hpp"
static pbt::Reg g1("ger/cdouble/C", 40000, 900000, tGer<CD, CD, CD, CD, LC, DF, DF>, RULE2());
static pbt::Reg g2("ger/cfloat/R", 40000, 900000, tGer<CF, CF, CF, CF, LR, DB, DF>, RULE2());
static pbt::Reg g3("ger/double/R", 40000, 900000, tGer<D, D, D, D, LR, DF, DB>, RULE2());
static pbt::Reg g4("ger/float/C", 40000, 900000, tGer<F, F, F, F, LC, DF, DB>, RULE2());
static pbt::Reg g5("ger/mixed D-CD-CD", 30000, 400000, tGer<D, CD, CD, CD, LC, DF, DF>, RULE2());
static pbt::Reg g6("ger/mixed CF-F-CF", 30000, 400000, tGer<CF, F, CF, F, LR, DF, DF>, RULE2());
static pbt::Reg h1("her/cdouble/C", 40000, 900000, tHer<true, false, CD, CD, CD, D, LC, DF, DF>, RULE2());
static pbt::Reg h2("her/cfloat/R", 40000, 900000, tHer<true, false, CF, CF, CF, F, LR, DB, DF>, RULE2());
static pbt::Reg h3("her/mixed D-CD", 30000, 400000, tHer<true, false, D, D, CD, D, LC, DF, DF>, RULE2());
static pbt::Reg s1("syr/cdouble/C", 40000, 900000, tHer<false, false, CD, CD, CD, CD, LC, DF, DF>, RULE2());
static pbt::Reg s2("syr/float/R", 40000, 900000, tHer<false, false, F, F, F, F, LR, DB, DF>, RULE2());
static pbt::Reg s3("syr/mixed F-D", 30000, 400000, tHer<false, false, F, F, D, D, LC, DF, DF>, RULE2());
static pbt::Reg k1("her2/cdouble/C", 40000, 900000, tHer<true, true, CD, CD, CD, CD, LC, DF, DF>, RULE2());
static pbt::Reg k2("her2/cfloat/R", 40000, 900000, tHer<true, true, CF, CF, CF, CF, LR, DB, DF>, RULE2());
static pbt::Reg k3("her2/mixed", 30000, 400000, tHer<true, true, CD, D, CD, D, LC, DF, DB>, RULE2());
static pbt::Reg t1("syr2/cdouble/C", 40000, 900000, tHer<false, true, CD, CD, CD, CD, LC, DF, DF>, RULE2());
static pbt::Reg t2("syr2/double/R", 40000, 900000, tHer<false, true, D, D, D, D, LR, DB, DF>, RULE2());
static pbt::Reg t3("syr2/mixed", 30000, 400000, tHer<false, true, D, CD, CD, CD, LC, DF, DB>, RULE2());
