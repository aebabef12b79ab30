#include "tri.hpp"
static pbt::Reg g1("trmv-trsv/cdouble/C", 60000, 900000, tTrmv<CD, CD, LC, DF>, RULET());
static pbt::Reg g2("trmv-trsv/cfloat/R", 60000, 900000, tTrmv<CF, CF, LR, DB>, RULET());
static pbt::Reg g3("trmv-trsv/double/R", 40000, 900000, tTrmv<D, D, LR, DF>, RULET());
static pbt::Reg g4("trmv-trsv/float/C", 40000, 900000, tTrmv<F, F, LC, DB>, RULET());
static pbt::Reg g5("trmv-trsv/mixed D-CD", 30000, 900000, tTrmv<D, CD, LC, DF>, RULET());
static pbt::Reg r1("real/double/CC", 30000, 400000, tTriReal<D, LC, LC>, RULET());
static pbt::Reg r2("real/cdouble/RR", 30000, 400000, tTriReal<CD, LR, LR>, RULET());
static pbt::Reg r3("real/cfloat/CR", 30000, 400000, tTriReal<CF, LC, LR>, RULET());
static pbt::Reg r4("real/float/RC", 30000, 400000, tTriReal<F, LR, LC>, RULET());
