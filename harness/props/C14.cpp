// Registration histories against a model: structure after every operation, frames against a freshly built system.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C14";
const char *PROPERTY_RULE = "history of up to 40 add/remove/re-add/reset/move-to-other-system/frame operations on pools of bodies, constraints and force generators; counts, lookup, indices and row counts after every operation, and every frame against a newly built system with copies of the registered objects; registered objects may also be taken over by a new system whose predecessor is destroyed without removing them; non-trivial = a frame was processed after at least one removal or reset";
extern const long QUICK_CASES = 60000, THOROUGH_CASES = 600000;
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.minBodies = 2; o.maxBodies = 6; o.maxCons = 8; o.maxForces = 5; o.minEig = 0.05; o.statics = false; o.limits = s.chance(1, 4); o.neutral = o.limits; o.assembled = 1; o.bigAngles = false; bool longer = s.chance(1, 40); if (longer) { o.minBodies = 8; o.maxBodies = 18; o.maxCons = 16; o.maxForces = 14; c.label("large_pools"); } o.motorKd = true;
    ref::World w = genWorld(c, o); describe(c, w); int nb = (int)w.bodies.size(), nc = (int)w.cons.size(), nf = (int)w.forces.size(); Real r(w);
    Sys *sys[2] = { new Sys(s.chance(1, 2), s.range(0, 2), s.range(0, 2)), new Sys(s.chance(1, 2), s.range(0, 2), s.range(0, 2)) }; int cur = 0; c.note("systems: %s, %s", sys[0]->name().c_str(), sys[1]->name().c_str());
    std::vector<char> B(nb, 0), C(nc, 0), F(nf, 0); int removals = 0, framesAfter = 0, frames = 0; bool dead = false;
    auto check = [&](const char *what) {
        for (int k = 0; k < 2; ++k) { RigidBodySystem *y = sys[k]->s; int b = 0, q = 0, f = 0, rows = 0; if (k == cur) { for (char x : B) b += x; for (char x : F) f += x; for (int i = 0; i < nc; ++i) if (C[i]) { ++q; rows += ref::rowsOf(w.cons[i].kind); } }
            REQUIRE(y->getRigidBodyCount() == b, "after %s: body count %d instead of %d", what, y->getRigidBodyCount(), b); REQUIRE(y->getConstraintCount() == q, "after %s: constraint count %d instead of %d", what, y->getConstraintCount(), q);
            REQUIRE(y->getForceGeneratorCount() == f, "after %s: generator count %d instead of %d", what, y->getForceGeneratorCount(), f); REQUIRE(y->getFullConstraintCount() == rows, "after %s: row count %d instead of %d", what, y->getFullConstraintCount(), rows);
            std::vector<char> seen(nb, 0); for (int i = 0; i < b; ++i) { RigidBody *x = y->getRigidBody(i); REQUIRE(x->index == i, "after %s: body at position %d has index %d", what, i, x->index); int id = -1; for (int j = 0; j < nb; ++j) if (r.b[j] == x) id = j; REQUIRE(id >= 0 && B[id] && !seen[id], "after %s: lookup %d returns a body that is not registered or appears twice", what, i); seen[id] = 1; } }
        for (int j = 0; j < nb; ++j) if (!B[j]) REQUIRE(r.b[j]->index == -1, "after %s: body %d is not registered but has index %d", what, j, r.b[j]->index);
    };
    auto world = [&]() { ref::World v; v.bodies = w.bodies; for (int j = 0; j < nb; ++j) v.bodies[j].reg = B[j]; pullWorld(v, r); for (int i = 0; i < nc; ++i) if (C[i]) v.cons.push_back(w.cons[i]); for (int i = 0; i < nf; ++i) if (F[i]) v.forces.push_back(w.forces[i]); return v; };
    auto frame = [&]() {
        Sys &y = *sys[cur];
        for (int i = 0; i < nc; ++i) if (C[i]) { const ref::CSpec &k = w.cons[i]; bool ok = ref::bodiesOf(k.kind) == 1 ? B[k.b[0]] : B[k.b[0]] || B[k.b[1]]; if (!ok) { y.s->removeConstraint(r.c[i]); C[i] = 0; ++removals; c.note("remove constraint %d (no registered body)", i); check("removing a constraint"); } }
        while (true) { ref::World v = world(); if (v.cons.empty()) break; if (ref::minEig(ref::gram(v, ref::rowsFor(v, ref::initial(v)))) > 0.03) break; int last = -1; for (int i = 0; i < nc; ++i) if (C[i]) last = i; y.s->removeConstraint(r.c[last]); C[last] = 0; ++removals; c.note("remove constraint %d (dependent)", last); check("removing a constraint"); }
        ref::World v = world(); double dt = genDt(s); int steps = s.chance(1, 4) ? 2 : 1; ref::State st = ref::initial(v); std::vector<LD> react; ref::StepInfo info; refFrame(v, y, st, dt, steps, react, info);
        if (!usable(info, 0.005) || info.amag * dt / steps > 100) { dead = true; c.label("stopped_outside_domain"); return; }
        c.note("frame dt=%.9g steps=%d on system %d", dt, steps, cur); Real fr(v); Sys fs(y.generic, y.solver, y.scheme, y.beta); fr.registerAll(*fs.s, v); for (int j = 0; j < nb; ++j) fr.b[j]->index = B[j] ? fr.b[j]->index : -1;
        fs.s->process(dt, steps); y.s->process(dt, steps); ++frames; if (removals) ++framesAfter;
        double rel = relTol(y.solver, (double)info.mineig) * (y.solver == GE ? 1 : 1); Tol t = tolFor(v, info, rel, dt); requireBodies(c, "against a fresh system", v, r, stateOf(v, fr), t);
        for (int j = 0; j < nb; ++j) if (!B[j]) { RigidBody *x = r.b[j]; const ref::BSpec &q = v.bodies[j]; REQUIRE(x->p_x == q.x && x->p_y == q.y && x->theta == q.th && x->v_x == q.vx && x->v_y == q.vy && x->v_theta == q.w, "body %d is not registered but was moved", j); }
        size_t q = 0; double ft = t.f + rel * (1 + (y.generic ? 0 : steps / dt)) * (1 + (double)info.vmag + (double)info.amag * dt);
        for (int i = 0; i < nc; ++i) if (C[i]) { for (int row = 0; row < ref::rowsOf(w.cons[i].kind); ++row) for (int b = 0; b < ref::bodiesOf(w.cons[i].kind); ++b) { pbt::near(c, "reaction", r.c[i]->F_x[row][b], fr.c[q]->F_x[row][b], ft, "constraint %d F_x[%d][%d] against a fresh system", i, row, b); pbt::near(c, "reaction", r.c[i]->F_y[row][b], fr.c[q]->F_y[row][b], ft, "constraint %d F_y", i); pbt::near(c, "reaction", r.c[i]->F_t[row][b], fr.c[q]->F_t[row][b], ft, "constraint %d F_t", i); } ++q; }
        fs.destroy(); fr.destroy(); check("a frame");
    };
    // start with most objects registered
    auto fill = [&](int keepNum) { for (int j = 0; j < nb; ++j) if (!B[j] && s.range(0, 9) < keepNum) { sys[cur]->s->addRigidBody(r.b[j]); B[j] = 1; } for (int i = 0; i < nc; ++i) if (!C[i] && s.range(0, 9) < keepNum) { sys[cur]->s->addConstraint(r.c[i]); C[i] = 1; } for (int i = 0; i < nf; ++i) if (!F[i] && s.range(0, 9) < keepNum) { sys[cur]->s->addForceGenerator(r.f[i]); F[i] = 1; } };
    check("construction"); fill(s.chance(1, 2) ? 10 : 6); check("initial registration");
    int ops = longer ? s.range(40, 120) : s.range(4, 40);
    for (int t = 0; t < ops && !dead; ++t) {
        RigidBodySystem *y = sys[cur]->s; auto some = [&](const std::vector<char> &v, bool want) { std::vector<int> k; for (size_t i = 0; i < v.size(); ++i) if ((bool)v[i] == want) k.push_back((int)i); return k.empty() ? -1 : k[s.chance(1, 3) ? k.size() - 1 : s.draw(k.size())]; };
        switch (s.weighted({ 4, 3, 3, 3, 3, 3, 6, 1, 1, 3 })) {
        case 0: { int j = some(B, false); if (j >= 0) { c.note("add body %d", j); y->addRigidBody(r.b[j]); B[j] = 1; check("adding a body"); } break; }
        case 1: { int j = some(B, true); if (j >= 0) { c.note("remove body %d", j); y->removeRigidBody(r.b[j]); B[j] = 0; ++removals; check("removing a body"); c.label("removed_body"); } break; }
        case 2: { int j = some(C, false); if (j >= 0) { c.note("add constraint %d", j); y->addConstraint(r.c[j]); C[j] = 1; check("adding a constraint"); } break; }
        case 3: { int j = some(C, true); if (j >= 0) { c.note("remove constraint %d", j); y->removeConstraint(r.c[j]); C[j] = 0; ++removals; check("removing a constraint"); c.label("removed_constraint"); } break; }
        case 4: { int j = some(F, false); if (j >= 0) { c.note("add generator %d", j); y->addForceGenerator(r.f[j]); F[j] = 1; check("adding a generator"); } break; }
        case 5: { int j = some(F, true); if (j >= 0) { c.note("remove generator %d", j); y->removeForceGenerator(r.f[j]); F[j] = 0; ++removals; check("removing a generator"); c.label("removed_generator"); } break; }
        case 6: frame(); break;
        case 7: c.note("reset"); y->reset(); std::fill(B.begin(), B.end(), 0); std::fill(C.begin(), C.end(), 0); std::fill(F.begin(), F.end(), 0); ++removals; check("reset"); c.label("reset"); if (s.chance(3, 4)) { fill(8); check("registration after reset"); } break;
        case 8: if (s.chance(1, 2)) {                                                  // the system is given up as it is and its objects go to a new one
                bool gen = s.chance(1, 2); int so = s.range(0, 2), sc = s.range(0, 2); sys[cur]->destroy(); delete sys[cur]; sys[cur] = new Sys(gen, so, sc); ++removals; c.note("a new system takes over: %s", sys[cur]->name().c_str());
                auto order = [&](const std::vector<char> &v) { std::vector<int> k; for (size_t i = 0; i < v.size(); ++i) if (v[i]) k.push_back((int)i); for (size_t i = k.size(); i > 1; --i) std::swap(k[i - 1], k[s.draw(i)]); return k; };
                for (int j : order(B)) sys[cur]->s->addRigidBody(r.b[j]); for (int j : order(C)) sys[cur]->s->addConstraint(r.c[j]); for (int j : order(F)) sys[cur]->s->addForceGenerator(r.f[j]); check("taking over"); c.label("new_system_takes_over"); break; }
            c.note("move to the other system"); y->reset(); std::fill(B.begin(), B.end(), 0); std::fill(C.begin(), C.end(), 0); std::fill(F.begin(), F.end(), 0); cur = 1 - cur; ++removals; check("reset"); fill(9); check("registration in another system"); c.label("moved_to_other_system"); break;
        default: if (s.chance(2, 3)) { mutate(c, o, w, { &r }); check("changing parameters"); break; } { int j = s.range(0, nb - 1); RigidBody *b = r.b[j]; b->v_x = s.real(-3, 3); b->v_y = s.real(-3, 3); b->v_theta = s.real(-3, 3); b->m = s.logreal(0.2, 8); w.bodies[j].m = b->m; c.note("body %d gets a new velocity and mass %.9g", j, b->m); } break;
        }
    }
    if (!dead) frame();
    if (framesAfter) c.nontrivial(); if (frames > 1) c.label("several_frames");
    sys[0]->destroy(); sys[1]->destroy(); delete sys[0]; delete sys[1]; r.destroy();
}
