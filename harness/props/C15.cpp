// Unregistered bodies as anchors: against the reference and against a registered, immensely heavy body at rest.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C15";
const char *PROPERTY_RULE = "scene with 1-2 unregistered bodies (never added, or added and removed again, with arbitrary velocities and masses) connected by springs, motors, links, rolling contacts, clutches, gears and user constraints; every frame is compared with the reference and with a twin in which the anchors are registered with mass and inertia 1e9 at rest; non-trivial = some connection to an anchor was active in a compared frame";
extern const long QUICK_CASES = 150000, THOROUGH_CASES = 1000000;
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.maxBodies = 4; o.maxCons = 6; o.maxForces = 4; o.minEig = 0.05; o.statics = false; o.fkinds = (1u << ref::FSpring) | (1u << ref::FMotor) | (1u << ref::FStatic); o.user = s.chance(1, 4);
    if (s.chance(2, 3)) o.kinds = (1u << ref::Link) | (1u << ref::Roll) | (1u << ref::Clutch) | (1u << ref::Gear) | (o.user ? 1u << ref::UWeld : 0);
    // the generator sees anchors with plain masses; they may be massless in the library
    ref::World w; int n = s.range(1, o.maxBodies), na = s.range(1, 2); std::vector<ref::BSpec> bs; for (int i = 0; i < n; ++i) bs.push_back(genBody(s, o)); for (int i = 0; i < na; ++i) { ref::BSpec a = genBody(s, o); a.reg = false; bs.insert(bs.begin() + s.range(0, (int)bs.size()), a); }
    w.bodies = bs; int nb = (int)bs.size(); std::vector<int> kinds; for (int k = 0; k < ref::NCKIND; ++k) if ((o.kinds >> k & 1) && (o.user || !ref::userKind(k))) kinds.push_back(k);
    bool limits = s.chance(1, 4); o.limits = limits; int want = s.range(0, 5); bool active = false;
    for (int t = 0; t < want; ++t) { ref::CSpec k; k.kind = s.pick(kinds); k.b[0] = s.range(0, nb - 1); if (ref::bodiesOf(k.kind) > 1) { k.b[1] = s.range(0, nb - 2); if (k.b[1] >= k.b[0]) ++k.b[1]; } bool asm_ = s.chance(1, 2); genParams(s, o, w, k, asm_);
        bool r0 = bs[k.b[0]].reg, r1 = k.b[1] >= 0 && bs[k.b[1]].reg; if (!r0 && !r1) continue; w.cons.push_back(k); if (ref::minEig(ref::gram(w, ref::rowsFor(w, ref::initial(w)))) < o.minEig) w.cons.pop_back(); else if (k.b[1] >= 0 && r0 != r1) { active = true; c.label(std::string("anchored_") + ref::CNAME[k.kind]); } }
    int nf = s.range(0, 4); for (int t = 0; t < nf; ++t) { ref::FSpec f = genForce(s, o, w); if (f.kind == ref::FMotor && f.b[0] == f.b[1]) continue; if (f.kind == ref::FStatic && s.chance(1, 4)) f.b[0] = s.range(0, nb - 1);
        w.forces.push_back(f); if (f.kind != ref::FStatic && f.b[0] != f.b[1] && bs[f.b[0]].reg != bs[f.b[1]].reg) { active = true; c.label(std::string("anchored_") + ref::FNAME[f.kind]); } if (f.kind == ref::FStatic && !bs[f.b[0]].reg) c.label("static_force_on_anchor"); }
    describe(c, w); bool gen = s.chance(1, 2); int sol = s.range(0, 2), sch = gen ? s.range(0, 2) : 1; Sys y(gen, sol, sch), h(gen, sol, sch); c.note("%s", y.name().c_str()); c.label(gen ? "general" : "velocity-level");
    Real r(w); bool removed = s.chance(1, 3); if (removed) { c.label("anchor_was_removed"); c.note("anchors are added and removed again"); }
    for (int i = 0; i < nb; ++i) if (w.bodies[i].reg || removed) y.s->addRigidBody(r.b[i]);
    for (auto *x : r.c) y.s->addConstraint(x); for (auto *x : r.f) y.s->addForceGenerator(x);
    if (removed) for (int i = 0; i < nb; ++i) if (!w.bodies[i].reg) y.s->removeRigidBody(r.b[i]);
    if (s.chance(1, 2)) for (int i = 0; i < nb; ++i) if (!w.bodies[i].reg) { r.b[i]->m = r.b[i]->I = s.chance(1, 2) ? 0 : 1e300; }       // an anchor's mass does not matter
    ref::World hw = w; for (auto &b : hw.bodies) if (!b.reg) { b.reg = true; b.m = b.I = 1e9; b.vx = b.vy = b.w = 0; } for (auto &f : hw.forces) if (f.kind == ref::FStatic && !w.bodies[f.b[0]].reg) f.p[2] = f.p[3] = 0;
    Real hr(hw); hr.registerAll(*h.s, hw); int frames = s.range(1, 4), done = 0; double growth = 1; bool heavyOk = true;
    for (auto &k : w.cons) if (k.kind == ref::Gear && w.bodies[k.b[0]].reg != w.bodies[k.b[1]].reg && !(std::fabs(k.p[0]) > 0.05 && std::fabs(k.p[0]) < 20)) heavyOk = false;   // such a gear makes a heavy anchor light
    for (int f = 0; f < frames; ++f) {
        double dt = genDt(s); int steps = s.chance(1, 4) ? 2 : 1; ref::State st = stateOf(w, r); std::vector<LD> react; ref::StepInfo info; refFrame(w, y, st, dt, steps, react, info);
        if (!usable(info, 0.01) || info.amag * dt / steps > 100) { c.label("stopped_outside_domain"); break; }
        std::vector<RigidBody> anchors; for (int i = 0; i < nb; ++i) anchors.push_back(*r.b[i]);
        c.note("frame dt=%.9g steps=%d", dt, steps); y.s->process(dt, steps); ++done;
        Tol t = tolFor(w, info, relTol(sol, (double)info.mineig), dt); requireBodies(c, "against the reference", w, r, st, t);
        for (int i = 0; i < nb; ++i) if (!w.bodies[i].reg) { RigidBody *b = r.b[i]; const RigidBody &q = anchors[i]; REQUIRE(b->p_x == q.p_x && b->p_y == q.p_y && b->theta == q.theta && b->v_x == q.v_x && b->v_y == q.v_y && b->v_theta == q.v_theta && b->m == q.m && b->I == q.I && b->index == -1, "anchor body %d was modified", i); }
        growth = growth * (1 + 3 * dt * (1 + (double)info.amag / (1 + (double)info.vmag))) + 1; if (growth > 300 || dt / steps < 1e-4) heavyOk = false;      // a position error is divided by the step
        if (heavyOk) { h.s->process(dt, steps); Tol ht = tolFor(w, info, (1e-5 + 20 * relTol(sol, (double)info.mineig)) * growth / std::max(0.01, (double)info.mineig), dt * frames); ref::State hs = stateOf(w, hr); requireBodies(c, "against an immensely heavy body", w, r, hs, ht); c.label("heavy_twin_compared"); }
        // an anchor may be repositioned between frames
        if (s.chance(1, 6)) for (int i = 0; i < nb; ++i) if (!w.bodies[i].reg) { double d = s.real(-0.01, 0.01); r.b[i]->p_x += d; hr.b[i]->p_x = r.b[i]->p_x; hr.b[i]->p_y = r.b[i]->p_y; hr.b[i]->theta = r.b[i]->theta; c.note("anchor %d moved", i); }
    }
    if (done && active) c.nontrivial(); if (done > 1) c.label("several_frames");
    r.destroy(); hr.destroy(); y.destroy(); h.destroy();
}
