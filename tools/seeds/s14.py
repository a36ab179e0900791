import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
mk('P04-jacobian-columns','P04',[('src/diffeq.c','''         pp++, mm++, jcol.data+=J->ld )''','''         pp++, mm++, jcol.data+=m )''')],'''#include <amino.h>
#include <amino/mat.h>
#include <amino/diffeq.h>
static void f(void *cx, const struct aa_dvec *x, struct aa_dvec *y) { (void)cx; for (size_t i = 0; i < y->len; i++) AA_DVEC_REF(y, i) = (double)(i + 1) * AA_DVEC_REF(x, 0) - AA_DVEC_REF(x, 1); }
int main() {
    double xd[2] = {1, 2}, d[16]; for (int i = 0; i < 16; i++) d[i] = 77;
    struct aa_dvec x = AA_DVEC_INIT(2, xd, 1); struct aa_dmat J = AA_DMAT_INIT(3, 2, d, 5); /* a block of a larger matrix */
    aa_de_jac_fd(f, NULL, &x, 1e-3, &J);
    for (int i = 0; i < 3; i++) { if (fabs(AA_DMAT_REF(&J, i, 0) - (i + 1)) > 1e-6 || fabs(AA_DMAT_REF(&J, i, 1) + 1) > 1e-6) return 1; }
    return d[3] != 77 || d[4] != 77;
}
''',"a Jacobian that is a block of a larger matrix (leading dimension above its rows)","columns land at the wrong place, over the elements of the surrounding matrix")
