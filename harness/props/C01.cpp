// General system against the independent reference, frame by frame in lockstep.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C01";
const char *PROPERTY_RULE = "random scene (bodies, anchors, forces, independent constraints), solver, integrator, frame length and step count; every frame of the real general system is compared with the reference started from the same state; scenes include far and large ones, chains of up to 40 bodies, light and heavy mass units, changes between frames, and crowds of many small scenes in one system; non-trivial = at least one constraint row and one compared frame";
extern const long QUICK_CASES = 90000, THOROUGH_CASES = 1200000;
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.maxBodies = s.chance(1, 10) ? 9 : 5; o.maxCons = s.chance(1, 10) ? 10 : 6; o.limits = s.chance(1, 4); o.neutral = true;
    Sys y = genSys(s, true);
    if (y.solver != GE) o.minEig = 0.05;
    if (s.chance(1, 500)) { crowd(c, o, y, false); return; }
    widen(c, o, y.solver); o.unit = genUnit(s, y.solver); if (o.unit != 1) c.label(o.unit < 1 ? "light_mass_unit" : "heavy_mass_unit");
    ref::World w = genWorld(c, o); describe(c, w); c.note("%s", y.name().c_str()); labelWorld(c, w); c.label(y.name());
    Real r(w); r.registerAll(*y.s, w);
    int frames = s.range(1, 4), compared = 0; double e = y.solver == GE ? 0.003 : 0.01;
    for (int f = 0; f < frames; ++f) {
        double dt = genDt(s); int steps = genSteps(s, 3); if (f && s.chance(1, 3)) { mutate(c, o, w, { &r }); c.label("changed_between_frames"); }
        ref::State st = stateOf(w, r); std::vector<LD> react; ref::StepInfo info; refFrame(w, y, st, dt, steps, react, info);
        double far = steps == 1 ? o.far : 1; if (!usable(info, e, far, y.scheme == ref::Rk4) || info.amag * dt > 1e3 * far * far) { c.label("stopped_outside_domain"); break; }
        c.note("frame dt=%.9g steps=%d", dt, steps);
        y.s->process(dt, steps); ++compared;
        Tol t = tolFor(w, info, relTol(y.solver, (double)info.mineig), dt);
        requireBodies(c, "after frame", w, r, st, t);
        for (size_t i = 0; i < r.b.size(); ++i) if (!w.bodies[i].reg) { RigidBody *b = r.b[i]; const ref::BSpec &q = w.bodies[i];
            REQUIRE(b->p_x == q.x && b->p_y == q.y && b->theta == q.th && b->v_x == q.vx && b->v_y == q.vy && b->v_theta == q.w, "a body that is not registered was modified"); }
    }
    if (compared && w.rows()) c.nontrivial();
    if (compared > 1) c.label("several_frames");
    r.destroy(); y.destroy();
}
