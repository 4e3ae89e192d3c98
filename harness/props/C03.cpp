// Reported reactions: equal to the reactions the reference computed, and they balance momentum.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C03";
const char *PROPERTY_RULE = "random scene in either system, any solver and integrator, limits included; after every frame each F_x/F_y/F_t of each row and body is compared with the reference's reaction of the frame's last step (stage-weighted mean for RK4) and Newton's law is checked from the reported values for one-step frames; scenes include far ones, chains, mass units, changes between frames and crowds; non-trivial = at least one constraint row and one compared frame";
extern const long QUICK_CASES = 120000, THOROUGH_CASES = 1200000;
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.maxBodies = s.chance(1, 10) ? 8 : 5; o.maxCons = s.chance(1, 10) ? 9 : 6;
    Sys y = genSys(s, s.chance(1, 2)); if (y.solver != GE) o.minEig = 0.05;
    if (s.chance(1, 500)) { o.limits = s.chance(1, 2) && y.solver == GS; o.neutral = o.limits; crowd(c, o, y, true); return; }
    widen(c, o, y.solver); o.unit = genUnit(s, y.solver); if (o.unit != 1) c.label(o.unit < 1 ? "light_mass_unit" : "heavy_mass_unit");
    o.limits = s.chance(1, 2); o.neutral = o.limits;
    ref::World w = genWorld(c, o); describe(c, w); c.note("%s beta=%.9g", y.name().c_str(), y.beta); labelWorld(c, w); c.label(y.name());
    Real r(w); r.registerAll(*y.s, w);
    int frames = s.range(1, 3), compared = 0; double e = y.solver == GE ? 0.003 : 0.01;
    for (int f = 0; f < frames; ++f) {
        double dt = genDt(s); int steps = genSteps(s, 3); if (f && s.chance(1, 3)) { mutate(c, o, w, { &r }); c.label("changed_between_frames"); }
        ref::State s0 = stateOf(w, r), st = s0; std::vector<LD> react; ref::StepInfo info; refFrame(w, y, st, dt, steps, react, info);
        double far = steps == 1 ? o.far : 1; if (info.singular || info.ambiguous || info.mineig < e || info.amag * dt / steps > 300 * far * far || info.vmag > 300 * far || info.pmag > 1e3 * far || info.amag > 1e7 * far * far || (y.generic && info.amag > 1e5 * (y.scheme == ref::Rk4 ? 1 : far * far))) { c.label("stopped_outside_domain"); break; }
        c.note("frame dt=%.9g steps=%d", dt, steps);
        // poison the reported values: every one of them must be written
        for (auto *k : r.c) for (int i = 0; i < k->getConstraintCount(); ++i) for (int b = 0; b < k->m_bodyCount; ++b) k->F_x[i][b] = k->F_y[i][b] = k->F_t[i][b] = 12345.678;
        y.s->process(dt, steps); ++compared;
        double rel = relTol(y.solver, (double)info.mineig) * (info.pmag > 1e3 ? 1 + (double)info.pmag * 1e-3 : 1); Tol t = tolFor(w, info, relTol(y.solver, (double)info.mineig), dt);
        double slack = y.generic ? 1 : 1 + steps / dt * 1.0;                       // force = impulse / dt
        double sens = steps > 1 || (y.generic && y.scheme == ref::Rk4) ? (double)reactionSensitivity(w, y, s0, dt, steps, relTol(y.solver, (double)info.mineig), react) : 0;
        requireReactions(c, "after frame", w, r, react, sens + t.f + (y.generic ? 0 : rel * slack * std::max(1.0, o.unit) * (1 + (double)info.vmag + (double)info.amag * dt)));
        // reported values on their own must balance the motion of a one-step frame
        if (steps == 1 && !(y.generic && y.scheme == ref::Rk4)) {
            ref::State s1 = stateOf(w, r); std::vector<LD> F = ref::forces(w, s0, dt); std::vector<LD> mag(F.size(), 0);
            for (size_t k = 0; k < F.size(); ++k) mag[k] = std::fabs(F[k]);
            for (size_t j = 0; j < r.c.size(); ++j) for (int row = 0; row < ref::rowsOf(w.cons[j].kind); ++row) for (int b = 0; b < ref::bodiesOf(w.cons[j].kind); ++b) {
                int i = w.cons[j].b[b]; double v[3] = { r.c[j]->F_x[row][b], r.c[j]->F_y[row][b], r.c[j]->F_t[row][b] };
                for (int d = 0; d < 3; ++d) { F[3 * i + d] += v[d]; mag[3 * i + d] += std::fabs(v[d]); } }
            for (size_t k = 0; k < F.size(); ++k) { if (!w.bodies[k / 3].reg) continue; LD m = 1 / ref::invM(w, (int)k);
                pbt::near(c, "newton_balance", (double)(m * (s1.v[k] - s0.v[k]) / dt), (double)F[k], 1e-10 * (1 + (double)info.pmag * 1e-2) * (double)(mag[k] + m * (std::fabs(s1.v[k]) + std::fabs(s0.v[k])) / dt + std::max(1.0, o.unit)) + (k % 3 == 2 ? 4e-15 * (double)info.pmag * (double)(mag[k - 2] + mag[k - 1]) : 0), "coordinate %zu", k); }
            c.label("balance_checked");
        }
    }
    if (compared && w.rows()) c.nontrivial();
    if (compared > 1) c.label("several_frames");
    r.destroy(); y.destroy();
}
