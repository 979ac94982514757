#include "u.h"

int main(void)
{
    FL2_CCtx* c = FL2_createCCtx();
    FL2_CCtx_setParameter(c, FL2_p_literalPosBits, 3);     /* lc is 3: reported as too much for the moment */
    CHECK(FL2_CCtx_setParameter(c, FL2_p_literalCtxBits, 0) == 0);
    CHECK(FL2_CCtx_getParameter(c, FL2_p_literalCtxBits) == 0);
    CHECK(FL2_CCtx_getParameter(c, FL2_p_literalPosBits) == 3);
    return 0;
}
