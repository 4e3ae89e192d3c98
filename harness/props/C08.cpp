// Solvers against each other, against fresh objects, and swapped during a running simulation.
#include "scene.h"
#include "lin.h"
using namespace scene;
const char *PROPERTY_ID = "C08";
const char *PROPERTY_RULE = "either a sequence of 2-6 positive definite problems of varying size given to reused and to fresh solvers of every kind with arbitrary guesses, or a scene run twice, once with one solver and once swapping solver objects between frames; non-trivial = at least one problem or frame with 2 or more rows compared";
extern const long QUICK_CASES = 200000, THOROUGH_CASES = 2000000;
static void problems(Case &c) {
    Source &s = c.s; SleSolver *used[3]; for (int k = 0; k < 3; ++k) used[k] = makeSolver(k); int count = s.range(2, 6); bool nt = false; lin::Mx prev, ra, rb;
    for (int t = 0; t < count; ++t) {
        lin::Opt o; o.maxRows = s.chance(1, 10) ? 20 : 6; o.maxBodies = s.range(1, 6); lin::Prob p = lin::gen(s, o); ref::Mat A = p.A(); LD mn, mx; lin::eigRange(A, &mn, &mx);
        if (p.n && !(mn > 0.01L * mx)) { c.label("skipped_ill_conditioned"); continue; }
        c.note("problem %d", t); p.note(c); std::vector<LD> bb(p.b.begin(), p.b.end()), x; if (p.n) ref::solve(A, bb, x); LD xm = lin::vmax(x), bm = lin::vmax(bb);
        for (int k = 0; k < 3; ++k) {
            lin::Problem q(p); int gu = lin::genGuess(s, p.n, &prev, s.chance(1, 5) ? 1e3 : 10); Matrix *pv = gu == lin::NoGuess ? nullptr : gu == lin::Alias ? (Matrix *)&ra : &prev;
            if (gu == lin::Alias) { ra.initialize(1, p.n); for (int i = 0; i < p.n; ++i) ra.set(0, i, prev.get(0, i)); } else if (s.chance(1, 2)) ra.initialize(1, s.range(0, 8), -4.5);
            REQUIRE(used[k]->solve(q.J, q.W, q.right, pv, &ra), "problem %d: reused %s solver failed", t, SNAME[k]);
            SleSolver *f = makeSolver(k); lin::Problem q2(p); lin::Mx none; none.initialize(1, p.n); bool ok = f->solve(q2.J, q2.W, q2.right, s.chance(1, 2) ? nullptr : (Matrix *)&none, &rb); delete f;
            REQUIRE(ok, "problem %d: fresh %s solver failed", t, SNAME[k]);
            LD tol = (k == GE ? 1e-12L * (1 + mx / mn) * (xm + bm / mx) : k == CG ? (1e-9L + 1e-10L * bm) * 10 / mn + 1e-10L * (1 + mx / mn) * (1 + xm) : 2e-8L * p.n * (mx / mn) * (xm + 1e-3L)) + 1e-14L;
            for (int i = 0; i < p.n; ++i) { pbt::near(c, SNAME[k], ra.get(0, i), (double)x[i], (double)tol, "problem %d: reused %s solver, component %d", t, SNAME[k], i); pbt::near(c, SNAME[k], rb.get(0, i), (double)x[i], (double)tol, "problem %d: fresh %s solver, component %d", t, SNAME[k], i); }
        }
        { GaussSeidelSleSolver *gs = (GaussSeidelSleSolver *)used[GS]; lin::Problem q(p); lin::Mx L; L.initialize(2, p.n); for (int i = 0; i < p.n; ++i) { L.set(0, i, -DBL_MAX); L.set(1, i, DBL_MAX); }
          REQUIRE(gs->solveWithLimits(q.J, q.W, q.right, L, &ra, nullptr), "problem %d: solver with inactive limits failed", t);
          for (int i = 0; i < p.n; ++i) pbt::near(c, "inactive_limits", ra.get(0, i), (double)x[i], (double)(2e-8L * p.n * (mx / mn) * (xm + 1e-3L) + 1e-14L), "problem %d: limit-aware solve without active limits, component %d", t, i); }
        if (p.n >= 2) nt = true;
    }
    for (auto *u : used) delete u; if (nt) c.nontrivial();
}
static void swapping(Case &c) {
    Source &s = c.s; Opt o; o.maxBodies = 4; o.maxCons = 5; o.minEig = 0.05; bool generic = s.chance(1, 2); int sch = generic ? s.range(0, 2) : 1;
    ref::World w = genWorld(c, o); describe(c, w); labelWorld(c, w); ref::World other = genWorld(c, o);
    Sys a(generic, GE, sch), b(generic, s.range(0, 2), sch); Real ra(w), rb(w); ra.registerAll(*a.s, w); rb.registerAll(*b.s, w);
    SleSolver *pool[4] = { b.sle, makeSolver(GE), makeSolver(CG), makeSolver(GS) }; OdeSolver *ode2 = makeOde(sch);
    // the pool is also used by an unrelated system
    Sys u(generic, GE, sch); Real ru(other); ru.registerAll(*u.s, other);
    int frames = s.range(2, 6), done = 0; double growth = 1;
    for (int f = 0; f < frames; ++f) {
        double dt = genDt(s); ref::State st = stateOf(w, ra); std::vector<LD> react; ref::StepInfo info; refFrame(w, a, st, dt, 1, react, info);
        if (!usable(info, 0.01) || info.amag * dt > 300) break;
        int k = s.range(0, 3); c.note("frame dt=%.9g solver %d", dt, k); if (generic) b.g->initialize(pool[k], s.chance(1, 2) ? b.ode : ode2); else b.o->initialize(pool[k]);
        if (s.chance(1, 3)) { ref::State su = stateOf(other, ru); ref::StepInfo iu; refFrame(other, u, su, dt, 1, react, iu); if (usable(iu, 0.01) && iu.amag * dt < 300) { if (generic) u.g->initialize(pool[k], b.ode); else u.o->initialize(pool[k]); u.s->process(dt); c.label("solver_shared_with_another_system"); } }
        a.s->process(dt); b.s->process(dt); ++done;
        growth = growth * (1 + 3 * dt * (1 + (double)info.amag / (1 + (double)info.vmag))) + 1; if (growth > 1e4) break;
        Tol t = tolFor(w, info, 2e-6 / (double)info.mineig * growth, dt); requireBodies(c, "after swapping solvers", w, rb, stateOf(w, ra), t);
    }
    if (done > 1 && w.rows() >= 2) { c.nontrivial(); c.label("frames_compared"); }
    ra.destroy(); rb.destroy(); ru.destroy(); a.destroy(); b.destroy(); u.destroy(); for (int i = 1; i < 4; ++i) delete pool[i]; delete ode2;
}
void run_case(Case &c) { if (c.s.chance(1, 3)) { c.label("swapping"); swapping(c); } else { c.label("problems"); problems(c); } }
