// Reaction limits: range, interior rows on target, one-sided miss at a limit, agreement with the box-limited reference.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C04";
const char *PROPERTY_RULE = "random scene with limited rows (torque ranges of every kind, link maximum force, gears in neutral, user limits) in the velocity-level system with the limit-aware solver; reactions and velocities of every frame are checked against the limits, the complementarity conditions and the reference; scenes include changes between frames (a gear put in neutral, new limits), mass units and crowds with more than 64 limited rows; non-trivial = at least one row held at a limit in a compared frame";
extern const long QUICK_CASES = 140000, THOROUGH_CASES = 1200000;
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.limits = o.neutral = true; o.maxBodies = s.chance(1, 10) ? 8 : 4; o.maxCons = s.chance(1, 10) ? 9 : 6; o.minEig = 0.05; if (s.chance(1, 2)) o.kinds = (1u << ref::Link) | (1u << ref::Clutch) | (1u << ref::Friction) | (1u << ref::ConstRot) | (1u << ref::Gear) | (1u << ref::FixPos);
    bool loose = s.chance(1, 5); static const double B[] = { 1, 0, 0.5, 0.1 };
    Sys y(false, GS, 1, s.chance(1, 12) ? s.uniform(1, 8) : s.chance(1, 4) ? s.uniform(0, 1) : s.pick(B)); if (loose) { auto *g = (GaussSeidelSleSolver *)y.sle; g->m_minDelta = 0.1; g->m_maxIterations = 5000; c.label("loose_tolerance"); }
    if (!loose && s.chance(1, 500)) { crowd(c, o, y, true); return; }
    widen(c, o, GS, false);
    if (s.chance(1, 6)) { o.unit = s.logreal(1, loose ? 1e8 : 1e4); c.label("heavy_mass_unit"); if (!loose && o.unit > 10) ((GaussSeidelSleSolver *)y.sle)->m_minDelta = 1e-7; }   // the solver's threshold has an absolute floor: rounding of large reactions must stay below it
    ref::World w = genWorld(c, o); describe(c, w); c.note("beta=%.9g%s", y.beta, loose ? " loose" : ""); labelWorld(c, w);
    Real r(w); r.registerAll(*y.s, w); int frames = s.range(1, 4), compared = 0; bool nt = false;
    for (int f = 0; f < frames; ++f) {
        double dt = genDt(s); int steps = s.chance(1, 4) ? s.range(2, 3) : 1; if (f && s.chance(1, 3)) { mutate(c, o, w, { &r }); c.label("changed_between_frames"); }
        if (s.chance(1, 5) && !w.cons.empty()) {                                     // limits change during the run
            size_t k = s.draw(w.cons.size()); ref::CSpec &x = w.cons[k];
            if (x.kind == ref::Gear) { x.neutral = !x.neutral; ((SimpleGearConstraint *)r.c[k])->m_neutral = x.neutral; c.note("gear %zu neutral=%d", k, x.neutral); c.label("gear_shifted"); }
            else if (x.kind == ref::Clutch) { x.hi = s.logreal(0.05, 30); x.lo = -x.hi; auto *q = (ClutchConstraint *)r.c[k]; q->m_minTorque = x.lo; q->m_maxTorque = x.hi; c.note("clutch %zu torque %.9g", k, x.hi); c.label("clutch_changed"); }
        }
        ref::State s0 = stateOf(w, r), st = s0; std::vector<LD> react; ref::StepInfo info; refFrame(w, y, st, dt, steps, react, info);
        if (info.singular || info.ambiguous || info.mineig < 0.01 || info.amag * dt / steps > 300 || info.vmag > 300 || info.pmag > 1e3) { c.label("stopped_outside_domain"); break; }
        c.note("frame dt=%.9g steps=%d", dt, steps);
        y.s->process(dt, steps); ++compared;
        double rel = relTol(GS, (double)info.mineig) * (o.unit > 10 ? 100 : 1); Tol t = tolFor(w, info, rel, dt);
        if (!loose) { requireBodies(c, "after frame", w, r, st, t); requireReactions(c, "after frame", w, r, react, t.f + rel * (1 + steps / dt) * o.unit * (1 + (double)info.vmag + (double)info.amag * dt)); }
        // limits, from the reported reactions alone
        ref::State s1 = stateOf(w, r); std::vector<ref::Row> R = ref::rowsFor(w, s0);
        // (for several steps the rows of the last step are not known exactly: only pure torque rows are checked then)
        for (size_t j = 0; j < R.size(); ++j) {
            int con = R[j].con, row = R[j].r; Constraint *rc = r.c[con]; bool constJ = !ref::positional(w.cons[con].kind); if (steps > 1 && !constJ) continue;
            int bi = -1, bk = -1; LD best = 0; for (int i = 0; i < R[j].nb; ++i) if (w.bodies[R[j].b[i]].reg) for (int k = 0; k < 3; ++k) if (std::fabs(R[j].J[3 * i + k]) > best) { best = std::fabs(R[j].J[3 * i + k]); bi = i; bk = k; }
            if (bi < 0 || best < 0.05) continue;
            double Fv = bk == 0 ? rc->F_x[row][bi] : bk == 1 ? rc->F_y[row][bi] : rc->F_t[row][bi]; LD lam = Fv / R[j].J[3 * bi + bk]; REQUIRE(std::isfinite((double)lam), "row %zu: reaction is not finite", j);
            LD mag = 1 + std::fabs(lam);
            REQUIRE(lam >= R[j].lo - 1e-9L * mag && lam <= R[j].hi + 1e-9L * mag, "row %zu (constraint %d %s): reaction %.12Lg outside its limits [%.12Lg, %.12Lg]", j, con, ref::CNAME[w.cons[con].kind], lam, R[j].lo, R[j].hi);
            if (w.cons[con].kind == ref::Gear && w.cons[con].neutral) REQUIRE(std::fabs(rc->F_t[row][0]) <= 1e-12 && std::fabs(rc->F_t[row][1]) <= 1e-12, "a gear in neutral transmits a torque of %.9g", rc->F_t[row][0]);
            bool atLo = lam <= R[j].lo + 1e-9L * mag, atHi = lam >= R[j].hi - 1e-9L * mag; if ((atLo || atHi) && steps == 1) nt = true; if (atLo != atHi) c.label(atLo ? "row_at_lower_limit" : "row_at_upper_limit"); else if (atLo) c.label("row_with_equal_limits");
            if (loose || steps > 1) continue;
            LD miss = ref::dotRow(R[j], s1.v) + R[j].bias + y.beta / dt * R[j].C, Jm = 0; for (int i = 0; i < 3 * R[j].nb; ++i) Jm += std::fabs(R[j].J[i]); double tol = t.v * (double)(1 + Jm);
            if (atLo && atHi) continue;
            if (atLo) pbt::near(c, "miss_at_lower_limit", (double)std::min(miss, (LD)0), 0, tol, "row %zu held at its lower limit misses its target on the wrong side", j);
            else if (atHi) pbt::near(c, "miss_at_upper_limit", (double)std::max(miss, (LD)0), 0, tol, "row %zu held at its upper limit misses its target on the wrong side", j);
            else pbt::near(c, "interior_target", (double)miss, 0, tol, "row %zu inside its limits misses its target velocity", j);
        }
    }
    if (nt) c.nontrivial(); if (compared > 1) c.label("several_frames");
    r.destroy(); y.destroy();
}
