#include "tri.hpp"
static pbt::Reg g1("trmm-trsm/cdouble/CC", 60000, 900000, tTrmm<CD, CD, CD, LC, LC>, RULET());
static pbt::Reg g2("trmm-trsm/cfloat/RR", 60000, 900000, tTrmm<CF, CF, CF, LR, LR>, RULET());
static pbt::Reg g3("trmm-trsm/double/RC", 40000, 900000, tTrmm<D, D, D, LR, LC>, RULET());
static pbt::Reg g4("trmm-trsm/float/CR", 40000, 900000, tTrmm<F, F, F, LC, LR>, RULET());
static pbt::Reg g5("trmm-trsm/mixed D-CD", 30000, 900000, tTrmm<D, CD, CD, LC, LC>, RULET());
