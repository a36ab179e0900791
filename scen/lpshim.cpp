// Clp and lp_solve asked directly, without Amino: do they find the optimum of this program by themselves?
#include <coin/ClpSimplex.hpp>
#include <coin/ClpSolve.hpp>
#include <coin/CoinPackedMatrix.hpp>
#include <lpsolve/lp_lib.h>
#undef min
#undef max
#include <vector>
#include <cmath>
#include <cfloat>
static bool fin(double v) { return std::isfinite(v) && std::fabs(v) < DBL_MAX; }
/* want: 1 optimum `opt`, 0 infeasible, 2 unbounded.  Number of ways to ask that give another answer. */
extern "C" int lp_clp_wrong(int m, int n, const double *A, int ld, const double *bl, const double *bu, const double *c, const double *xl, const double *xu, int min, int want, double opt, double tol) {
    int bad = 0;
    for (int zeros = 0; zeros < 2; zeros++) for (int how = 0; how < 5; how++) {
        std::vector<int> row, col; std::vector<double> v;
        std::vector<double> l[2], u[2];
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (zeros || A[i + j * ld] != 0) { row.push_back(i); col.push_back(j); v.push_back(A[i + j * ld]); }
        for (int j = 0; j < n; j++) { l[0].push_back(fin(xl[j]) ? xl[j] : -COIN_DBL_MAX); u[0].push_back(fin(xu[j]) ? xu[j] : COIN_DBL_MAX); }
        for (int i = 0; i < m; i++) { l[1].push_back(fin(bl[i]) ? bl[i] : -COIN_DBL_MAX); u[1].push_back(fin(bu[i]) ? bu[i] : COIN_DBL_MAX); }
        CoinPackedMatrix M(true, row.data(), col.data(), v.data(), (CoinBigIndex)v.size()); M.setDimensions(m, n);
        ClpSimplex S; S.setLogLevel(0);
        try {
            if (how == 4) { /* column by column: this way keeps the smallest coefficients */
                std::vector<int> rows; for (int i = 0; i < m; i++) rows.push_back(i);
                S.resize(m, 0); for (int j = 0; j < n; j++) S.addColumn(m, rows.data(), A + j * ld, l[0][(size_t)j], u[0][(size_t)j], c[j]);
                for (int i = 0; i < m; i++) S.setRowBounds(i, l[1][(size_t)i], u[1][(size_t)i]);
            } else S.loadProblem(M, l[0].data(), u[0].data(), c, l[1].data(), u[1].data());
            S.setOptimizationDirection(min ? 1 : -1);
            if (how == 0 || how == 4) S.initialSolve(); else if (how == 1) { ClpSolve o; o.setPresolveType(ClpSolve::presolveOff); S.initialSolve(o); } else if (how == 2) S.primal(); else S.dual();
        } catch (...) { bad++; continue; }
        const double *x = S.getColSolution(); double o = 0; bool ok = S.status() == 0;
        if (want != 1) { bad += ok; continue; }
        for (int j = 0; j < n; j++) { o += c[j] * x[j]; if (x[j] < l[0][(size_t)j] - 1e-6 || x[j] > u[0][(size_t)j] + 1e-6) ok = false; }
        for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += A[i + j * ld] * x[j]; if (s < l[1][(size_t)i] - 1e-5 || s > u[1][(size_t)i] + 1e-5) ok = false; }
        if (!(std::fabs(o - opt) <= tol * (1 + std::fabs(opt)))) ok = false;
        bad += !ok;
    }
    return bad;
}
static int __WINAPI lps_stop(lprec *, void *n) { return ++*(int *)n > 150000; }
extern "C" int lp_lps_wrong(int m, int n, const double *A, int ld, const double *bl, const double *bu, const double *c, const double *xl, const double *xu, int min, int want, double opt, double tol) {
    int bad = 0;
    for (int how = 0; how < 3; how++) {
        lprec *lp = make_lp(m, n); set_verbose(lp, 0); if (min) set_minim(lp); else set_maxim(lp);
        if (how == 1) set_scaling(lp, 0); if (how == 2) set_simplextype(lp, SIMPLEX_PRIMAL_PRIMAL);
        for (int j = 0; j < n; j++) { set_obj(lp, j + 1, c[j]); set_bounds(lp, j + 1, fin(xl[j]) ? xl[j] : -1e30, fin(xu[j]) ? xu[j] : 1e30); }
        bool empty = false;
        for (int i = 0; i < m; i++) {
            bool l = fin(bl[i]), u = fin(bu[i]); if (l && u && bl[i] > bu[i]) empty = true;
            if (!l && !u) continue;
            for (int j = 0; j < n; j++) set_mat(lp, i + 1, j + 1, A[i + j * ld]);
            if (l && u && bl[i] == bu[i]) { set_constr_type(lp, i + 1, EQ); set_rh(lp, i + 1, bl[i]); }
            else if (u) { set_constr_type(lp, i + 1, LE); set_rh(lp, i + 1, bu[i]); if (l) set_rh_range(lp, i + 1, bu[i] - bl[i]); }
            else { set_constr_type(lp, i + 1, GE); set_rh(lp, i + 1, bl[i]); }
        }
        int calls = 0; put_abortfunc(lp, lps_stop, &calls);
        bool ok = !empty && solve(lp) == OPTIMAL; std::vector<double> x((size_t)n); get_variables(lp, x.data()); delete_lp(lp);
        if (want != 1) { if (!empty) bad += ok || calls > 150000; continue; }
        double o = 0; for (int j = 0; j < n; j++) o += c[j] * x[(size_t)j];
        for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += A[i + j * ld] * x[(size_t)j]; if ((fin(bl[i]) && s < bl[i] - 1e-5) || (fin(bu[i]) && s > bu[i] + 1e-5)) ok = false; }
        if (!(std::fabs(o - opt) <= tol * (1 + std::fabs(opt)))) ok = false;
        bad += !ok;
    }
    return bad;
}
