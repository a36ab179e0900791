import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mk
M='include/amino/mat.hpp'; E='include/amino/mem.hpp'
def cpp(i,ed,body,needs,br): mk(i,'P31',ed,'#include <amino.h>\n#include <amino/mat.hpp>\n#include <cassert>\n#include <cmath>\n#include <cstring>\nusing namespace amino;\n'+body,needs,br,cxx=True,flags="-std=c++14",libs="-lamino")
cpp('P31-col-end',[(M,'''    static col_iterator col_end(struct aa_dmat *x) {
        return col_iterator(x->rows, x->data+x->cols*x->ld, x->ld);''','''    static col_iterator col_end(struct aa_dmat *x) {
        return col_iterator(x->rows, x->data+x->ld*(x->cols*x->rows/x->ld), x->ld);''')],
'''int main() { double d[40]; for (int i = 0; i < 40; i++) d[i] = i; DMat A(2, 3, d, 4); int n = 0; for (auto &v : A.col_container()) { assert(v[1] == 4 * n + 1); n++; if (n > 5) break; } return n != 3; }
''',"iterating over the columns of a block of a larger matrix (leading dimension above the row count)","columns at the end are left out")
cpp('P31-scaled-sum',[(M,'''                          alpha*b.beta, b.y);''','''                          b.beta == 1 ? alpha : b.beta, b.y);''')],
'''int main() { double a[4] = {1, 2, 3, 4}, xd[2] = {1, 1}, yd[2] = {10, 20}, r[2]; DMat A(2, 2, a); DVec x(2, xd), y(2, yd), z(2, r); z = 2 * (A * x + 3 * y); return !(z[0] == 2 * (4 + 30) && z[1] == 2 * (6 + 60)); }
''',"a scaled sum of a product and a vector that is itself scaled","the outer factor is not applied to the vector")
cpp('P31-allocator-length',[(E,'''aa_mem_region_alloc(region, cnt*sizeof(value_type)) );''','''aa_mem_region_alloc(region, cnt*(sizeof(value_type) & ~(size_t)7)) );''')],
'''int main() { aa_mem_region r; aa_mem_region_init(&r, 4096); RegionVector<int>::type v(&r); RegionList<double>::type l(&r); RegionVector<int>::type w(&r); for (int i = 0; i < 20; i++) { v.push_back(i); w.push_back(-i); } for (int i = 0; i < 20; i++) if (v[(size_t)i] != i || w[(size_t)i] != -i) return 1; return 0; }
''',"vectors of elements smaller than eight bytes on a region","their storage overlaps other allocations")
cpp('P31-minus-scaled',[(M,'''        la::axpy(-x.alpha,&x.x,this);''','''        la::axpy(x.alpha > 0 ? -x.alpha : x.alpha,&x.x,this);''')],
'''int main() { double a[2] = {1, 2}, b[2] = {10, 20}; DVec x(2, a), y(2, b); y -= -2 * x; return !(y[0] == 12 && y[1] == 24); }
''',"subtracting a vector scaled by a negative number","the vector is subtracted once more instead of added")
