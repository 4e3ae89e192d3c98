// Conjugate gradient: success implies the promised residual; well-conditioned problems converge.
#include "lin.h"
using namespace lin;
const char *PROPERTY_ID = "C06";
const char *PROPERTY_RULE = "a history of 1-5 problems (well-conditioned, ill-conditioned, singular consistent and inconsistent, indefinite, non-finite) with random tolerances, iteration limits and starting guesses, one solver object; success is checked against the true residual, failure against whether the problem had to be solvable; non-trivial = success reported on a problem with a non-zero solution, or a failure correctly reported";
extern const long QUICK_CASES = 150000, THOROUGH_CASES = 4000000;
void run_case(Case &c) {
    Source &s = c.s; ConjugateGradientSleSolver *g = new ConjugateGradientSleSolver; REQUIRE(!g->supportsLimits(), "the conjugate gradient solver claims to support limits");
    REQUIRE(g->getMaxIterations() == 1000 && g->getMaxError() == 1e-2 && g->getMinError() == 1e-3, "default tolerances changed");
    Mx prev, res; int count = s.range(1, 5);
    for (int k = 0; k < count; ++k) {
        Opt o; o.wkind = s.chance(1, 8) ? Signed : Positive; o.grid = s.chance(1, 3); o.maxRows = s.chance(1, 10) ? 20 : 7; o.maxBodies = s.range(1, 6);
        Prob p = gen(s, o); static const char *const KN[] = { "as_generated", "dependent_rows", "zero_row", "scaled_rows", "non_finite", "spread_rows", "chain" };
        int kind = s.weighted({ 10, 4, 2, 2, 1, 3, 1 }); bool hard = kind == 5 && s.chance(2, 3); if (hard) { o.wkind = Positive; o.grid = false; o.maxBodies = 10; o.maxRows = 20; p = gen(s, o); } if (p.n == 0) kind = 0; if (kind == 6) { o.chain = s.chance(1, 200) ? 120 : 40; o.wkind = Positive; p = gen(s, o); }
        if (kind == 5) for (auto &r : p.rows) { double f = s.logreal(0.1, 10); for (auto &e : r.v) for (double &x : e) x *= f; }
        if (kind == 1 && p.n > 1) { p.rows[p.n - 1] = p.rows[0]; double f = s.chance(1, 2) ? 1 : s.real(-3, 3); for (auto &e : p.rows[p.n - 1].v) for (double &x : e) x *= f; if (s.chance(1, 2)) p.b[p.n - 1] = f * p.b[0]; }
        if (kind == 2) { int i = s.range(0, p.n - 1); for (auto &e : p.rows[i].v) for (double &x : e) x = 0; if (s.chance(1, 2)) p.b[i] = 0; }
        if (kind == 3) { int i = s.range(0, p.n - 1); double f = s.logreal(1e-4, 1e4); for (auto &e : p.rows[i].v) for (double &x : e) x *= f; }
        if (kind == 4) { double bad = s.chance(1, 2) ? NAN : INFINITY; if (s.chance(1, 2)) p.b[s.range(0, p.n - 1)] = bad; else { auto &r = p.rows[s.range(0, p.n - 1)]; int e = r.blk[0] >= 0 ? 0 : 1; r.v[e][s.range(0, 2)] = bad; } }
        double maxErr = s.chance(1, 3) ? 1e-2 : s.chance(1, 8) ? 0 : s.logreal(1e-9, 1e-1), minErr = s.chance(1, 3) ? 1e-3 : s.chance(1, 8) ? 0 : s.logreal(1e-9, 1);
        int iters = s.chance(1, 3) ? s.range(0, 6) : s.chance(1, 4) ? 1000 : 300;
        { LD e0, e1; ref::Mat A0 = p.A(); lin::eigRange(A0, &e0, &e1); if (hard && p.n && e1 > 0) { iters = 1000; double t = (double)(std::max(e1 / std::max(e0, e1 * 1e-5L), (LD)10) * 1e-9L); if (s.chance(1, 2)) { maxErr = 0; minErr = t * s.logreal(1, 100); } c.label("hard_convergent"); } if (!(e0 > 1e-4L * e1) && iters > 60) iters = 12; }
        g->setMaxError(maxErr); g->setMinError(minErr); g->setMaxIterations(iters);
        REQUIRE(g->getMaxError() == maxErr && g->getMinError() == minErr && g->getMaxIterations() == iters, "a tolerance setter was ignored");
        c.note("problem %d (%s): maxError=%.9g minError=%.9g iterations=%d", k, KN[kind], maxErr, minErr, iters); p.note(c); c.label(KN[kind]);
        double gm = s.chance(1, 6) ? 1e6 : 20; int gu = genGuess(s, p.n, &prev, gm); if (gu == Junk && p.n && s.chance(1, 12)) { prev.set(0, 0, NAN); c.label("guess_nan"); }
        if (gu == Alias) { res.initialize(1, p.n); for (int i = 0; i < p.n; ++i) res.set(0, i, prev.get(0, i)); c.label("previous_is_result"); } else if (s.chance(1, 3)) res.initialize(s.range(1, 2), s.range(0, 9), 3.25);
        Matrix *pv = gu == NoGuess ? nullptr : gu == Alias ? (Matrix *)&res : &prev; LD x0 = 0; bool fin = true;
        if (gu == Junk || gu == Alias) for (int i = 0; i < p.n; ++i) { double t = prev.get(0, i); fin &= std::isfinite(t); x0 = std::max(x0, (LD)std::fabs(t)); }
        Problem q(p); bool ok = g->solve(q.J, q.W, q.right, pv, &res);
        ref::Mat A = p.A(), B = p.A(true); LD nB = normInf(B);
        if (ok) {
            REQUIRE(res.getWidth() == 1 && res.getHeight() == p.n, "result has size %dx%d instead of 1x%d", res.getWidth(), res.getHeight(), p.n);
            std::vector<LD> x(p.n); for (int i = 0; i < p.n; ++i) { x[i] = res.get(0, i); REQUIRE(std::isfinite((double)x[i]), "success reported with a non-finite component %d", i); }
            for (int i = 0; i < p.n; ++i) { LD r = p.b[i]; for (int j = 0; j < p.n; ++j) r -= A[i][j] * x[j];
                LD slack = 1e-13L * (nB * vmax(x) + std::fabs(p.b[i])) + 1e-300L;
                pbt::near(c, "residual_on_success", (double)r, 0, (double)(std::max((LD)maxErr * std::fabs((LD)p.b[i]), (LD)minErr) + slack), "problem %d row %d: success with residual out of tolerance", k, i); }
            c.label("success"); if (p.n && vmax(x) > 0) c.nontrivial();
        } else {
            c.label("failure"); c.nontrivial();
            LD mn, mx; eigRange(A, &mn, &mx); std::vector<LD> bb(p.b.begin(), p.b.end()), x;
            bool good = kind != 4 && fin && p.n >= 0 && mn > 0 && mx < 1e6L * mn && iters >= 300;
            if (good && p.n) { good = ref::solve(A, bb, x); LD floor_ = 1e-11L * (1 + mx / mn) * (nB * (vmax(x) + x0) + vmax(bb)); LD worst = 1e300L; for (int i = 0; i < p.n; ++i) worst = std::min(worst, std::max((LD)maxErr * std::fabs(bb[i]), (LD)minErr)); if (worst < floor_) { good = false; c.label("tolerance_below_attainable"); } if (mx > 1e4L * mn) good = false; }
            if (p.n == 0) good = true;
            REQUIRE(!good, "problem %d: no success on a well-conditioned positive definite system (condition %.3Lg, %d rows, %d iterations)", k, mx / mn, p.n, iters);
        }
        if (p.n == 0) c.label("zero_rows");
        for (int i = 0; i < p.n; ++i) REQUIRE(q.right.get(0, i) == p.b[i] || p.b[i] != p.b[i], "the right-hand side was modified");
    }
    if (count > 1) c.label("solver_reused");
    delete g;
}
