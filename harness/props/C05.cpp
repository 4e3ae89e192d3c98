// Direct solver: residual and forward error in long double for positive, signed and cancelling weights.
#include "lin.h"
using namespace lin;
const char *PROPERTY_ID = "C05";
const char *PROPERTY_RULE = "a history of 1-6 problems J*W*J^T x = b (random block structure, weights of either sign, exact zero and near-cancelling pivots, zero rows, permuted rows) solved with one direct solver object and arbitrary previous/result matrices; each result is checked against the long-double residual and solution; sizes to 130 rows, chains; non-trivial = at least one nonsingular problem with 2 or more rows";
extern const long QUICK_CASES = 150000, THOROUGH_CASES = 4000000;
void run_case(Case &c) {
    Source &s = c.s; GaussianEliminationSleSolver *g = new GaussianEliminationSleSolver; REQUIRE(!g->supportsLimits(), "the direct solver claims to support limits");
    Mx prev, res; int count = s.range(1, 6); bool nt = false;
    for (int k = 0; k < count; ++k) {
        Opt o; o.wkind = s.range(0, 2); o.grid = s.chance(1, 3); bool huge = s.chance(1, 120), vast = huge && s.chance(1, 12); if (vast) c.label("rows_to_130"); o.maxRows = vast ? 130 : huge ? 48 : s.chance(1, 15) ? 16 : s.chance(1, 3) ? 7 : 4; o.maxBodies = vast ? 70 : huge ? 24 : o.maxRows > 8 ? 8 : 5;
        if (s.chance(1, 4)) { o.wscale = s.logreal(1e-18, 1e18); if (s.chance(1, 2)) o.jscale = s.logreal(1e-9, 1e9); c.label("scaled_problem"); }
        if (s.chance(1, 40)) { o.chain = vast ? 130 : huge ? 48 : 24; c.label("chain"); }
        Prob p = gen(s, o); if (s.chance(1, 6)) { c.label("spread_rows"); for (auto &r : p.rows) { double f = s.logreal(1e-3, 1e3); for (auto &e : r.v) for (double &x : e) x *= f; } }
        ref::Mat A = p.A(), B = p.A(true); LD inv = p.n ? invNorm(A) : 1, nB = normInf(B);
        if (p.n && (inv < 0 || !(inv * nB < 1e9L))) { c.label("skipped_singular"); continue; }
        c.label(o.wkind == Positive ? "weights_positive" : o.wkind == Signed ? "weights_signed" : "weights_cancelling");
        if (p.n == 0) c.label("zero_rows"); if (p.n > 8) c.label("rows_9_plus");
        if (p.n && A[0][0] == 0) c.label("zero_first_pivot"); else if (p.n && std::fabs(A[0][0]) < 1e-6L) c.label("tiny_first_pivot");
        c.note("problem %d", k); p.note(c);
        Problem q(p); int gu = genGuess(s, p.n, &prev, 1e3); if (gu == Junk && p.n && s.chance(1, 4)) prev.set(0, 0, NAN);
        if (s.chance(1, 3)) res.initialize(s.range(1, 2), s.range(0, 9), 3.25);
        Matrix *pv = gu == NoGuess ? nullptr : gu == Alias ? (Matrix *)&res : &prev; if (gu == Alias) c.label("previous_is_result");
        REQUIRE(g->solve(q.J, q.W, q.right, pv, &res), "direct solver reports failure on a nonsingular system");
        REQUIRE(res.getWidth() == 1 && res.getHeight() == p.n, "result has size %dx%d instead of 1x%d", res.getWidth(), res.getHeight(), p.n);
        std::vector<LD> x(p.n), bb(p.b.begin(), p.b.end()), t; for (int i = 0; i < p.n; ++i) { x[i] = res.get(0, i); REQUIRE(std::isfinite((double)x[i]), "component %d of the solution is not finite", i); }
        LD tolr = 1e-13L * p.n * p.n * (nB * vmax(x) + vmax(bb));
        for (int i = 0; i < p.n; ++i) { LD r = -bb[i]; for (int j = 0; j < p.n; ++j) r += A[i][j] * x[j]; pbt::near(c, "residual", (double)r, 0, (double)tolr, "problem %d row %d", k, i); }
        if (p.n) { ref::solve(A, bb, t); for (int i = 0; i < p.n; ++i) pbt::near(c, "solution", (double)x[i], (double)t[i], (double)(inv * tolr + 1e-300L), "problem %d component %d", k, i); }
        // inputs are not modified
        for (int i = 0; i < p.n; ++i) REQUIRE(q.right.get(0, i) == p.b[i], "the right-hand side was modified");
        for (int i = 0; i < 3 * p.nb; ++i) REQUIRE(q.W.get(0, i) == p.w[i], "the weights were modified");
        if (gu == Junk || gu == Zero) REQUIRE(prev.getHeight() == p.n && prev.getWidth() == 1, "the previous solution was resized");
        if (p.n >= 2) nt = true;
    }
    if (nt) c.nontrivial(); if (count > 1) c.label("solver_reused");
    delete g;
}
