// Gauss-Seidel: success implies convergence (residual / complementarity bound), limits always respected.
#include "lin.h"
using namespace lin;
const char *PROPERTY_ID = "C07";
const char *PROPERTY_RULE = "a history of 1-5 problems with or without limits, random tolerance, iteration limit and starting guess, one solver object; success is checked against the residual (or complementarity) bound implied by the tolerance, limits are checked always, failure against whether convergence was due; sizes to 80 rows, chains, hubs and near-identical successive problems; non-trivial = a checked problem with 2 or more rows";
extern const long QUICK_CASES = 300000, THOROUGH_CASES = 4000000;
void run_case(Case &c) {
    Source &s = c.s; GaussSeidelSleSolver *g = new GaussSeidelSleSolver; REQUIRE(g->supportsLimits(), "the Gauss-Seidel solver does not claim to support limits");
    REQUIRE(g->m_maxIterations == 128 && g->m_minDelta == 1e-1, "default tolerance changed");
    Mx prev, res; int count = s.range(1, 5);
    for (int k = 0; k < count; ++k) {
        Opt o; o.wkind = Positive; o.grid = s.chance(1, 3); o.maxRows = s.chance(1, 10) ? 16 : 7; o.maxBodies = s.range(1, 6);
        bool chain = s.chance(1, 60); if (chain) { o.chain = s.chance(1, 30) ? 40 : 16; c.label("chain"); } else if (s.chance(1, 1500)) { o.hub = 80; c.label("hub"); }
        Prob p = gen(s, o); double bs = s.chance(1, 4) ? s.logreal(1e-4, 1e2) : 1; for (double &x : p.b) x *= bs;
        if (p.n && s.chance(1, 20)) { int i = s.range(0, p.n - 1); for (auto &e : p.rows[i].v) for (double &x : e) x = 0; if (s.chance(1, 2)) p.b[i] = 0; c.label("zero_row"); }
        bool lim = s.chance(1, 2); std::vector<double> lo(p.n, -DBL_MAX), hi(p.n, DBL_MAX);
        if (lim) for (int i = 0; i < p.n; ++i) switch (s.range(0, 5)) { case 0: break; case 1: lo[i] = -s.logreal(1e-3, 10); hi[i] = s.logreal(1e-3, 10); break; case 2: lo[i] = 0; hi[i] = s.chance(1, 2) ? DBL_MAX : s.logreal(1e-3, 10); break; case 3: hi[i] = 0; lo[i] = s.chance(1, 2) ? -DBL_MAX : -s.logreal(1e-3, 10); break; case 4: lo[i] = hi[i] = s.chance(1, 2) ? 0 : s.real(-5, 5); break; default: lo[i] = s.real(-5, 5); hi[i] = lo[i] + s.logreal(1e-3, 10); }
        double delta = s.chance(1, 5) ? 0.1 : s.logreal(1e-10, 0.3); if (chain) delta = std::max(delta, 1e-7); int iters = chain ? 30000 : s.chance(1, 4) ? s.range(1, 4) : s.chance(1, 4) ? 128 : 4000;
        { LD e0, e1; ref::Mat A0 = p.A(); lin::eigRange(A0, &e0, &e1); if (!chain && !(e0 > 0.02L * e1) && iters > 300) iters = 300; }
        g->m_minDelta = delta; g->m_maxIterations = iters;
        c.note("problem %d: %s minDelta=%.9g iterations=%d", k, lim ? "limits" : "no limits", delta, iters); p.note(c); if (lim) for (int i = 0; i < p.n; ++i) c.note("  limits of row %d: [%.9g, %.9g]", i, lo[i], hi[i]);
        int gu = genGuess(s, p.n, &prev, s.chance(1, 6) ? 1e4 : 20);
        if (gu == Alias) { res.initialize(1, p.n); for (int i = 0; i < p.n; ++i) res.set(0, i, prev.get(0, i)); c.label("previous_is_result"); } else if (s.chance(1, 3)) { res.initialize(1, s.range(0, 9), 3.25); if ((gu == NoGuess || gu == WrongSize) && s.chance(1, 2)) { res.initialize(1, p.n, s.chance(1, 2) ? std::nan("") : 1e200); c.note("the result matrix holds %.9g", p.n ? res.get(0, 0) : 0); c.label("result_holds_leftovers"); } }
        Matrix *pv = gu == NoGuess ? nullptr : gu == Alias ? (Matrix *)&res : &prev; Problem q(p); Mx L; bool ok;
        if (lim) { L.initialize(2, p.n); for (int i = 0; i < p.n; ++i) { L.set(0, i, lo[i]); L.set(1, i, hi[i]); } ok = g->solveWithLimits(q.J, q.W, q.right, L, &res, pv); }
        else ok = g->solve(q.J, q.W, q.right, pv, &res);
        REQUIRE((res.getWidth() == 1 || p.n == 0) && res.getHeight() == p.n, "result has size %dx%d instead of 1x%d", res.getWidth(), res.getHeight(), p.n);
        ref::Mat A = p.A(), B = p.A(true); LD nB = normInf(B); std::vector<LD> x(p.n); for (int i = 0; i < p.n; ++i) x[i] = res.get(0, i);
        if (lim) for (int i = 0; i < p.n; ++i) REQUIRE(x[i] >= lo[i] && x[i] <= hi[i], "problem %d component %d = %.17g is outside its limits [%.17g, %.17g] (success %d)", k, i, (double)x[i], lo[i], hi[i], ok);
        LD mn, mx; eigRange(A, &mn, &mx);
        if (ok) {
            std::vector<LD> move(p.n); for (int i = 0; i < p.n; ++i) { REQUIRE(std::isfinite((double)x[i]), "success reported with a non-finite component %d", i); move[i] = (LD)delta * std::max((LD)1e-3, std::fabs(x[i]) / (1 - (LD)delta)) * 1.0001L; }
            for (int i = 0; i < p.n; ++i) { if (!(A[i][i] > 0)) continue;
                LD r = p.b[i], bound = 1e-12L * (LD)delta + 1e-12L * (nB * vmax(x) + std::fabs(p.b[i])) + 1e-300L; for (int j = 0; j < p.n; ++j) { r -= A[i][j] * x[j]; if (j != i) bound += (std::fabs(A[i][j]) + 1e-13L * B[i][j]) * move[j]; }
                LD edge = 1e-13L * std::fabs(x[i]); bool atLo = x[i] <= lo[i] + edge, atHi = x[i] >= hi[i] - edge;
                if (atLo && atHi) continue;
                LD bad = atLo ? std::max((LD)0, r) : atHi ? std::max((LD)0, -r) : r;
                pbt::near(c, atLo || atHi ? "complementarity_at_limit" : "residual_on_success", (double)bad, 0, (double)bound, "problem %d row %d (%s): success without convergence", k, i, atLo ? "at lower limit" : atHi ? "at upper limit" : "inside limits"); }
            c.label("success");
            if (mn > 0.02L * mx && delta < 1e-6 && p.n) {             // the solution itself
                std::vector<LD> bb(p.b.begin(), p.b.end()), l(lo.begin(), lo.end()), h(hi.begin(), hi.end()), y;
                if (lim ? ref::solveBox(A, bb, l, h, y) : ref::solve(A, bb, y)) for (int i = 0; i < p.n; ++i) pbt::near(c, "solution", (double)x[i], (double)y[i], (double)(200 * p.n * delta * (vmax(y) + 1e-3L) + 1e-11L * (1 + vmax(y))), "problem %d component %d", k, i);
            }
        } else {
            c.label("failure");
            bool good = (p.n == 0) || (mn > 0.02L * mx && iters >= 4000 && delta >= 1e-9) || (chain && mn > 0.002L * mx && iters >= 30000);
            REQUIRE(!good, "problem %d: no convergence on a well-conditioned positive definite system (condition %.3Lg, %d rows, %d sweeps)", k, mx / mn, p.n, iters);
        }
        c.label(lim ? "limits" : "no_limits"); if (p.n >= 2) c.nontrivial(); if (p.n == 0) c.label("zero_rows");
        { bool wild = false; for (LD v : x) wild |= !(std::fabs(v) < 1e100L); if (wild) res.initialize(1, p.n); }     // a starting guess must be a sane number
        for (int i = 0; i < p.n; ++i) REQUIRE(q.right.get(0, i) == p.b[i], "the right-hand side was modified");
    }
    if (count > 1) c.label("solver_reused");
    delete g;
}
