// One frame of k steps against k frames of one step.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C13";
const char *PROPERTY_RULE = "random scene in either system with any solver and integrator; several frames of k steps in one system and of one step in its twin; bodies, reported reactions, the state snapshot and elapsed time must agree; non-trivial = k >= 2 and at least one constraint row or force";
extern const long QUICK_CASES = 60000, THOROUGH_CASES = 1000000;
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.motorKd = false; o.maxBodies = 4; bool gen = s.chance(1, 2); int sol = s.range(0, 2), sch = gen ? s.range(0, 2) : 1; double beta = s.chance(1, 2) ? 1 : s.uniform(0, 2); if (sol != GE) o.minEig = 0.05; o.limits = s.chance(1, 3); o.neutral = o.limits;
    widen(c, o, sol, false);
    ref::World w = genWorld(c, o); describe(c, w); labelWorld(c, w); Sys a(gen, sol, sch, beta), b(gen, sol, sch, beta); c.note("%s beta=%.9g", a.name().c_str(), beta); c.label(a.name());
    Real ra(w), rb(w); ra.registerAll(*a.s, w); rb.registerAll(*b.s, w); int frames = s.range(1, 4), done = 0; double growth = 1, total = 0, e = sol == GE ? 0.003 : 0.01; bool nt = false;
    for (int f = 0; f < frames; ++f) {
        double dt = genDt(s); if (f && s.chance(1, 4)) { for (size_t i = 0; i < ra.b.size(); ++i) { ref::BSpec b = w.bodies[i]; RigidBody *x = ra.b[i]; b.x = x->p_x; b.y = x->p_y; b.th = x->theta; b.vx = x->v_x; b.vy = x->v_y; b.w = x->v_theta; rb.setBody((int)i, b); } mutate(c, o, w, { &ra, &rb }); growth = 1; c.label("changed_between_frames"); } int k = s.range(1, s.chance(1, 200) ? 400 : s.chance(1, 30) ? 60 : s.chance(1, 6) ? 12 : 5); ref::State st = stateOf(w, ra); std::vector<LD> react; ref::StepInfo info; refFrame(w, a, st, dt, k, react, info);
        if (info.singular || info.ambiguous || info.mineig < e || info.amag * dt / k > 100 || info.vmag > 300 || info.pmag > 1e3) { c.label("stopped_outside_domain"); break; }
        growth = growth * (1 + 3 * dt * (1 + (double)info.amag / (1 + (double)info.vmag))) + 1; if (growth > 1e4) { c.label("stopped_growth"); break; }
        c.note("frame dt=%.9g k=%d", dt, k); a.s->process(dt, k); for (int i = 0; i < k; ++i) { if (s.chance(1, 2)) b.s->process(dt / k, 1); else b.s->process(dt / k); } total += dt; ++done;
        double rel = (sol == GE ? 1e-11 : relTol(sol, 1)) / (double)info.mineig * growth; Tol t = tolFor(w, info, rel, dt); ref::State sb = stateOf(w, rb); requireBodies(c, "k steps against k frames", w, ra, sb, t);
        std::vector<LD> rr(6 * w.rows(), 0); size_t j = 0; for (size_t q = 0; q < rb.c.size(); ++q) for (int row = 0; row < ref::rowsOf(w.cons[q].kind); ++row, ++j) for (int bi = 0; bi < ref::bodiesOf(w.cons[q].kind); ++bi) { rr[6 * j + 3 * bi] = rb.c[q]->F_x[row][bi]; rr[6 * j + 3 * bi + 1] = rb.c[q]->F_y[row][bi]; rr[6 * j + 3 * bi + 2] = rb.c[q]->F_t[row][bi]; }
        requireReactions(c, "k steps against k frames", w, ra, rr, t.f + rel * (1 + (gen ? 0 : k / dt)) * (1 + (double)info.vmag + (double)info.amag * dt));
        if (!gen) { pbt::near(c, "elapsed_time", a.o->timeElapsed(), total, 1e-12 * (1 + total), "frame of k steps"); pbt::near(c, "elapsed_time", b.o->timeElapsed(), total, 1e-12 * (1 + total), "k frames"); }
        if (k >= 2 && (w.rows() || !w.forces.empty())) nt = true;
    }
    if (nt) c.nontrivial(); if (done > 1) c.label("several_frames");
    ra.destroy(); rb.destroy(); a.destroy(); b.destroy();
}
