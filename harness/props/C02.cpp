// Velocity-level system: the biased constraint equation, the impulse structure and the reference, per step.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C02";
const char *PROPERTY_RULE = "random scene with unlimited reactions, solver, bias factor, frame length and step count; every frame of the velocity-level system is compared with the reference, and for one-step frames J*v + bias + (beta/dt)*C = 0, the inverse-mass structure of the velocity change and p' = p + dt*v' are checked directly; scenes include far and large ones, chains of up to 40 bodies, light and heavy mass units, changes between frames, and crowds of many small scenes in one system; non-trivial = at least one constraint row and one compared frame";
extern const long QUICK_CASES = 90000, THOROUGH_CASES = 1200000;
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.maxBodies = s.chance(1, 10) ? 9 : 5; o.maxCons = s.chance(1, 10) ? 10 : 6;
    Sys y = genSys(s, false);
    if (y.solver != GE) o.minEig = 0.05; else { o.limits = s.chance(1, 4); o.neutral = o.limits; }   // solvers without limits ignore them
    if (y.solver == CG) o.limits = s.chance(1, 4);
    if (s.chance(1, 500)) { crowd(c, o, y, false); return; }
    bool loose = y.solver == GS && s.chance(1, 3);                                                    // declared limits that are not active
    widen(c, o, y.solver); o.unit = genUnit(s, y.solver); if (o.unit != 1) c.label(o.unit < 1 ? "light_mass_unit" : "heavy_mass_unit");
    ref::World w = genWorld(c, o);
    if (loose) for (auto &k : w.cons) { if (k.kind == ref::Link || k.kind == ref::Clutch || k.kind == ref::Friction || k.kind == ref::ConstRot) { k.lo = -1e21; k.hi = 1e21; } }
    if (s.chance(1, 60)) { y.beta = y.o->m_biasFactor = -s.uniform(0, 1); c.label("negative_bias_factor"); }
    describe(c, w); c.note("%s beta=%.9g", y.name().c_str(), y.beta); labelWorld(c, w); c.label(y.name()); if (loose) c.label("inactive_limits");
    Real r(w); r.registerAll(*y.s, w);
    int frames = s.range(1, 4), compared = 0; double e = y.solver == GE ? 0.003 : 0.01;
    for (int f = 0; f < frames; ++f) {
        double dt = genDt(s); int steps = genSteps(s, 3); if (y.beta < 0 && steps > 4) steps = 4; /* a repelling drift correction doubles any rounding error at every step */ if (f && s.chance(1, 3)) { mutate(c, o, w, { &r }); c.label("changed_between_frames"); }
        if (s.chance(1, 8)) { y.beta = genBeta(s); y.o->m_biasFactor = y.beta; }
        ref::State s0 = stateOf(w, r), st = s0; std::vector<LD> react; ref::StepInfo info; refFrame(w, y, st, dt, steps, react, info);
        double far = steps == 1 ? o.far : 1; if (!usable(info, e, far) && !(info.amag * dt / steps < 300 && !info.singular && !info.ambiguous && info.mineig >= e && info.vmag < 300 && info.pmag < 1e3)) { c.label("stopped_outside_domain"); break; }
        c.note("frame dt=%.9g steps=%d beta=%.6g", dt, steps, y.beta);
        y.s->process(dt, steps); ++compared;
        Tol t = tolFor(w, info, relTol(y.solver, (double)info.mineig), dt);
        requireBodies(c, "after frame", w, r, st, t);
        if (steps == 1) {
            ref::State s1 = stateOf(w, r); std::vector<ref::Row> R = ref::rowsFor(w, s0); size_t n3 = s0.q.size();
            std::vector<LD> F = ref::forces(w, s0, dt), imp(n3);
            for (size_t j = 0; j < R.size(); ++j) {
                LD mag = 0; for (int i = 0; i < R[j].nb; ++i) for (int k = 0; k < 3; ++k) mag += std::fabs(R[j].J[3 * i + k]);
                pbt::near(c, "biased_constraint", (double)(ref::dotRow(R[j], s1.v) + R[j].bias + y.beta / dt * R[j].C), 0, t.v * (double)(1 + mag), "row %zu of step (constraint %d)", j, R[j].con);
            }
            for (size_t k = 0; k < n3; ++k) { if (!w.bodies[k / 3].reg) continue;
                pbt::near(c, "advance", (double)s1.q[k], (double)(s0.q[k] + dt * s1.v[k]), 1e-12 * (double)(1 + std::fabs(s0.q[k]) + std::fabs(s1.v[k])), "coordinate %zu", k);
                LD im = ref::invM(w, (int)k); LD d = (s1.v[k] - s0.v[k]) / im - dt * F[k], sum = 0;
                for (size_t j = 0; j < R.size(); ++j) for (int i = 0; i < R[j].nb; ++i) if (R[j].b[i] == (int)k / 3) { int con = R[j].con, row = R[j].r; Constraint *rc = r.c[con]; sum += dt * (k % 3 == 0 ? rc->F_x[row][i] : k % 3 == 1 ? rc->F_y[row][i] : rc->F_t[row][i]); }
                pbt::near(c, "impulse_balance", (double)d, (double)sum, 1e-10 * (1 + (double)info.pmag * 1e-2) * (double)(std::max(1.0, o.unit) + std::fabs(d) + std::fabs(s1.v[k] / im) + std::fabs(s0.v[k] / im) + dt * std::fabs(F[k]) + dt * (LD)info.amag / im), "coordinate %zu", k); }
        }
    }
    if (compared && w.rows()) c.nontrivial();
    if (compared > 1) c.label("several_frames");
    r.destroy(); y.destroy();
}
