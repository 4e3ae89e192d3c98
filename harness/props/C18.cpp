// Lifecycle fuzzing under AddressSanitizer / UBSan, with library assertions on and every library allocation counted.
#include "scene.h"
#include "lin.h"
using namespace scene;
const char *PROPERTY_ID = "C18";
const char *PROPERTY_RULE = "history of up to 45 lifecycle operations over three systems, pools of shared solvers and integrators, bodies, constraints, generators, states and matrices (create, use in any size, share, swap, reset, destroy at any point); every library allocation is counted and must be gone at the end; non-trivial = at least two frames or solves happened and something was destroyed or reset in between";
extern const long QUICK_CASES = 90000, THOROUGH_CASES = 1000000;
namespace {
template <class F> auto lib(F f) -> decltype(f()) { pbt::Track t; return f(); }                 // only library calls are counted
struct Slot { RigidBodySystem *s = nullptr; GenericRigidBodySystem *g = nullptr; OptimizedNsvRigidBodySystem *o = nullptr; int sle = -1, ode = -1; };
struct Life {
    Case &c; Source &s; ref::World w; std::vector<RigidBody *> b; std::vector<Constraint *> k; std::vector<ForceGenerator *> f; std::vector<int> ob, ok, of;
    Slot sys[3]; SleSolver *sle[3] = { 0, 0, 0 }; int kind[3] = { 0, 0, 0 }; OdeSolver *ode[3] = { 0, 0, 0 }; int scheme[3] = { 0, 0, 0 };
    SystemState *st[2] = { 0, 0 }; Matrix *mx[2] = { 0, 0 }; SparseMatrix<3> *sp = nullptr; int uses = 0, ends = 0; bool nt = false;
    explicit Life(Case &cc) : c(cc), s(cc.s) {}
    void used() { ++uses; if (ends && uses >= 2) nt = true; }
    void ended() { if (uses) ++ends; }
    int ensureSle(int i) { if (!sle[i]) { kind[i] = s.range(0, 2); sle[i] = lib([&] { return makeSolver(kind[i]); }); c.note("solver %d created (%s)", i, SNAME[kind[i]]); } return i; }
    int ensureOde(int i) { if (!ode[i]) { scheme[i] = s.range(0, 2); ode[i] = lib([&] { return makeOde(scheme[i]); }); c.note("integrator %d created (%s)", i, ONAME[scheme[i]]); } return i; }
    void attach(int i) { Slot &y = sys[i]; y.sle = ensureSle(s.range(0, 2)); if (y.g) y.ode = ensureOde(s.range(0, 2)); c.note("system %d uses solver %d integrator %d", i, y.sle, y.ode); lib([&] { if (y.g) y.g->initialize(sle[y.sle], ode[y.ode]); else y.o->initialize(sle[y.sle]); }); }
    void create(int i) { Slot &y = sys[i]; if (s.chance(1, 2)) { y.g = lib([] { return new GenericRigidBodySystem; }); y.s = y.g; } else { y.o = lib([] { return new OptimizedNsvRigidBodySystem; }); y.s = y.o; } c.note("system %d created (%s)", i, y.g ? "general" : "velocity-level"); if (!s.chance(1, 8)) attach(i); }
    void release(int i) { for (size_t j = 0; j < b.size(); ++j) if (ob[j] == i) ob[j] = -1; for (int &x : ok) if (x == i) x = -1; for (int &x : of) if (x == i) x = -1; }
    void reset(int i) { c.note("system %d reset", i); lib([&] { sys[i].s->reset(); }); release(i); ended(); }
    void kill(int i) { if (!sys[i].s) return; if (s.chance(1, 2)) reset(i); else for (size_t j = 0; j < b.size(); ++j) if (ob[j] == i) b[j]->index = -1; release(i); c.note("system %d destroyed", i); lib([&] { delete sys[i].s; }); sys[i] = Slot(); ended(); c.label("system_destroyed"); }
    bool foreign(int body, int i) { return body >= 0 && ob[body] >= 0 && ob[body] != i; }
    void fill(int i) {
        RigidBodySystem *y = sys[i].s; int pct = s.chance(1, 2) ? 10 : 5;
        for (size_t j = 0; j < b.size(); ++j) if (ob[j] < 0 && s.range(0, 9) < pct) { lib([&] { y->addRigidBody(b[j]); }); ob[j] = i; c.note("body %zu into system %d", j, i); }
        for (size_t j = 0; j < k.size(); ++j) if (ok[j] < 0 && k[j] && s.range(0, 9) < pct) { lib([&] { y->addConstraint(k[j]); }); ok[j] = i; c.note("constraint %zu into system %d", j, i); }
        for (size_t j = 0; j < f.size(); ++j) if (of[j] < 0 && f[j] && s.range(0, 9) < pct) { lib([&] { y->addForceGenerator(f[j]); }); of[j] = i; c.note("generator %zu into system %d", j, i); }
    }
    void dropSome(int i) {
        RigidBodySystem *y = sys[i].s; std::vector<int> rb, rk, rf; for (size_t j = 0; j < b.size(); ++j) if (ob[j] == i) rb.push_back(j); for (size_t j = 0; j < k.size(); ++j) if (ok[j] == i) rk.push_back(j); for (size_t j = 0; j < f.size(); ++j) if (of[j] == i) rf.push_back(j);
        if (!rb.empty() && s.chance(1, 2)) { int j = s.pick(rb); c.note("body %d out of system %d", j, i); lib([&] { y->removeRigidBody(b[j]); }); ob[j] = -1; ended(); }
        if (!rk.empty() && s.chance(1, 2)) { int j = s.pick(rk); c.note("constraint %d out of system %d", j, i); lib([&] { y->removeConstraint(k[j]); }); ok[j] = -1; ended(); }
        if (!rf.empty() && s.chance(1, 2)) { int j = s.pick(rf); c.note("generator %d out of system %d", j, i); lib([&] { y->removeForceGenerator(f[j]); }); of[j] = -1; ended(); }
    }
    void frame(int i) {
        Slot &y = sys[i]; if (y.sle < 0) return;
        for (size_t j = 0; j < k.size(); ++j) if (ok[j] == i) { const ref::CSpec &q = w.cons[j]; bool reg = ob[q.b[0]] == i || (ref::bodiesOf(q.kind) > 1 && ob[q.b[1]] == i); if (!reg || foreign(q.b[0], i) || foreign(ref::bodiesOf(q.kind) > 1 ? q.b[1] : -1, i)) { lib([&] { y.s->removeConstraint(k[j]); }); ok[j] = -1; } }
        for (size_t j = 0; j < f.size(); ++j) if (of[j] == i && (foreign(w.forces[j].b[0], i) || foreign(w.forces[j].b[1], i))) { lib([&] { y.s->removeForceGenerator(f[j]); }); of[j] = -1; }
        auto world = [&]() { ref::World v; v.bodies = w.bodies; for (size_t j = 0; j < b.size(); ++j) { auto &q = v.bodies[j]; q.reg = ob[j] == i; q.x = b[j]->p_x; q.y = b[j]->p_y; q.th = b[j]->theta; q.vx = b[j]->v_x; q.vy = b[j]->v_y; q.w = b[j]->v_theta; } for (size_t j = 0; j < k.size(); ++j) if (ok[j] == i) v.cons.push_back(w.cons[j]); for (size_t j = 0; j < f.size(); ++j) if (of[j] == i) v.forces.push_back(w.forces[j]); return v; };
        while (true) { ref::World v = world(); if (v.cons.empty() || ref::minEig(ref::gram(v, ref::rowsFor(v, ref::initial(v)))) > 0.03) break; int last = -1; for (size_t j = 0; j < k.size(); ++j) if (ok[j] == i) last = (int)j; lib([&] { y.s->removeConstraint(k[last]); }); ok[last] = -1; }
        ref::World v = world(); double dt = genDt(s); int steps = s.chance(1, 4) ? s.range(2, 4) : 1; ref::State state = ref::initial(v); std::vector<LD> react; ref::StepInfo info; LD h = (LD)(dt / steps);
        for (int q = 0; q < steps; ++q) { if (y.g) ref::genericStep(v, state, scheme[y.ode], h, react, info); else ref::nsvStep(v, state, h, 1, kind[y.sle] == GS, react, info); }
        if (!usable(info, 0.005) || info.amag * dt / steps > 100) { c.label("frame_outside_domain"); for (size_t j = 0; j < b.size(); ++j) { const ref::BSpec &q = w.bodies[j]; b[j]->p_x = q.x; b[j]->p_y = q.y; b[j]->theta = q.th; b[j]->v_x = b[j]->v_y = b[j]->v_theta = 0; } return; }
        c.note("frame on system %d: dt=%.9g steps=%d, %d bodies, %d rows", i, dt, steps, v.nreg(), v.rows()); lib([&] { y.s->process(dt, steps); y.s->getOdeSolveMicroseconds(); y.s->getConstraintSolveMicroseconds(); y.s->getForceEvalMicroseconds(); y.s->getConstraintEvalMicroseconds(); }); used();
        c.label(y.g ? "frame_general" : "frame_velocity-level"); c.label(std::string("frame_") + SNAME[kind[y.sle]]); if (y.g) c.label(std::string("frame_") + ONAME[scheme[y.ode]]); if (!v.nreg()) c.label("frame_without_bodies"); if (!v.rows()) c.label("frame_without_constraints");
        for (size_t j = 0; j < b.size(); ++j) if (ob[j] == i) REQUIRE(std::isfinite(b[j]->p_x) && std::isfinite(b[j]->v_theta), "body %zu is not finite after the frame", j);
    }
    void burst(int i) {                                                                            // longer than any internal history
        Slot &y = sys[i]; if (y.sle < 0) return; for (size_t j = 0; j < k.size(); ++j) if (ok[j] == i) { lib([&] { y.s->removeConstraint(k[j]); }); ok[j] = -1; } for (size_t j = 0; j < f.size(); ++j) if (of[j] == i) { lib([&] { y.s->removeForceGenerator(f[j]); }); of[j] = -1; }
        int n = s.range(595, 1300); c.note("%d frames without constraints on system %d", n, i); lib([&] { for (int q = 0; q < n; ++q) { y.s->process(1e-6); if (q % 97 == 0) y.s->getOdeSolveMicroseconds(); } y.s->getForceEvalMicroseconds(); y.s->getConstraintEvalMicroseconds(); y.s->getConstraintSolveMicroseconds(); }); used(); c.label("burst_of_frames");
    }
    void crowd(int i) {                                                                            // several hundred bodies in one system
        Slot &y = sys[i]; if (y.sle < 0) return; reset(i); int n = s.range(255, 320); c.note("crowd of %d bodies, a constraint on body %d and %d", n, 0, n - 1); std::vector<RigidBody *> q; q.reserve(n); lib([&] { for (int j = 0; j < n; ++j) { RigidBody *x = new RigidBody; x->m = x->I = 1; x->v_y = j; q.push_back(x); y.s->addRigidBody(x); } });
        if (s.chance(1, 2)) {                                                                      // several hundred constraint rows, growing and shrinking
            std::vector<FixedPositionConstraint *> fx; int m = s.range(1, 150), keep = s.range(0, m); c.note("%d of them pinned, then %d", m, keep); fx.reserve(m); lib([&] { for (int j = 0; j < m; ++j) { auto *x = new FixedPositionConstraint; x->setBody(q[j]); fx.push_back(x); y.s->addConstraint(x); } y.s->process(0.01); for (int j = m - 1; j >= keep; --j) y.s->removeConstraint(fx[j]); y.s->process(0.01, 2); y.s->reset(); for (auto *x : fx) delete x; for (auto *x : q) y.s->addRigidBody(x); }); c.label("crowd_of_constraints");
        }
        LinkConstraint *l = lib([] { return new LinkConstraint; }); l->setBody1(q[0]); l->setBody2(q[n - 1]); lib([&] { y.s->addConstraint(l); y.s->process(0.01); y.s->reset(); delete l; for (auto *x : q) delete x; }); used(); c.label("crowd");
    }
    void direct(int i) {
        ensureSle(i); lin::Opt o; o.maxRows = s.chance(1, 10) ? 14 : 7; lin::Prob p = lin::gen(s, o); if (p.n) { LD a, z; lin::eigRange(p.A(), &a, &z); if (!(a > 0.02L * z)) { for (auto &r : p.rows) for (int e = 0; e < 2; ++e) for (double &x : r.v[e]) x = 0; for (int q = 0; q < p.n; ++q) { p.rows[q].blk[1] = -1; p.rows[q].blk[0] = q % p.nb; p.rows[q].v[0][q % 3] = 1; } p.n = std::min(p.n, p.nb); p.rows.resize(p.n); p.b.resize(p.n); } }
        c.note("direct solve with solver %d: %d rows, %d blocks", i, p.n, p.nb); bool alias = s.chance(1, 4), lim = s.chance(1, 2); int g = s.range(0, 2), ph = g == 1 ? s.range(0, p.n + 2) : p.n; lib([&] { lin::Problem q(p); lin::Mx res, prev, lims; if (g) prev.initialize(1, ph, 0.5); if (alias) res.initialize(1, ph, 0.25); lims.initialize(2, p.n); for (int r = 0; r < p.n; ++r) { lims.set(0, r, -3); lims.set(1, r, 2); }
            if (sle[i]->supportsLimits() && lim) sle[i]->solveWithLimits(q.J, q.W, q.right, lims, &res, alias ? &res : g ? &prev : nullptr); else if (kind[i] == GE || alias) sle[i]->solve(q.J, q.W, q.right, &res, &res); else sle[i]->solve(q.J, q.W, q.right, g ? &prev : nullptr, &res); }); used(); c.label("direct_solve"); if (!p.n) c.label("direct_solve_zero_rows");
    }
    void states() {
        int i = s.range(0, 1); if (!st[i]) st[i] = lib([] { return new SystemState; });
        switch (s.range(0, 4)) {
        case 0: { bool big = s.chance(1, 12); int n = s.range(0, big ? 300 : 6), m = s.range(0, big ? 300 : 6); if (big) c.label("large_state"); c.note("state %d resized to %d bodies, %d rows", i, n, m); lib([&] { st[i]->resize(n, m); }); zero(*st[i]); break; }
        case 1: if (st[1 - i]) { c.note("state %d copied", i); lib([&] { st[i]->copy(st[1 - i]); }); } break;
        case 2: c.note("state %d destroyed", i); lib([&] { st[i]->destroy(); }); ended(); break;
        case 3: c.note("state %d deleted", i); lib([&] { st[i]->destroy(); delete st[i]; }); st[i] = nullptr; ended(); break;
        default: { int q = ensureOde(s.range(0, 2)); SystemState *x = st[i]; int stop = s.chance(1, 3) ? s.range(0, 4) : 99, rep = s.range(1, 2); c.note("integrator %d run on state %d (%d bodies, %d rows)%s", q, i, x->n, x->n_c, stop < 99 ? " and left in mid-step" : "");
            lib([&] { for (int t = 0; t < rep; ++t) { ode[q]->start(x, 0.01); int d = 0; bool left = false; while (true) { if (d++ == stop) { left = true; break; } bool done = ode[q]->step(x); for (int a = 0; a < x->n; ++a) x->a_x[a] = x->a_y[a] = x->a_theta[a] = 1; for (int a = 0; a < 2 * x->n_c; ++a) x->r_x[a] = x->r_y[a] = x->r_t[a] = 1; ode[q]->solve(x); if (done) break; } if (!left) ode[q]->end(); } }); used(); c.label("integrator_used_directly"); break; }
        }
    }
    void zero(SystemState &x) { double *a[] = { x.a_theta, x.v_theta, x.theta, x.a_x, x.a_y, x.v_x, x.v_y, x.p_x, x.p_y, x.f_x, x.f_y, x.t, x.m }; for (auto *q : a) for (int i = 0; i < x.n; ++i) q[i] = 1; for (int i = 0; i < 2 * x.n_c; ++i) x.r_x[i] = x.r_y[i] = x.r_t[i] = 1; for (int i = 0; i < x.n_c; ++i) x.indexMap[i] = i; }
    void matrices() {
        int i = s.range(0, 1), W = s.range(0, 5), H = s.range(0, 5); if (!mx[i]) { bool sized = s.chance(1, 2); mx[i] = lib([&] { return sized ? new Matrix(W, H, 1.0) : new Matrix; }); }
        switch (s.range(0, 6)) {
        case 0: c.note("matrix %d initialised %dx%d", i, W, H); lib([&] { mx[i]->initialize(W, H, 2.0); }); break;
        case 1: c.note("matrix %d resized %dx%d", i, W, H); lib([&] { mx[i]->resize(W, H); mx[i]->initialize(W, H); }); break;
        case 2: c.note("matrix %d destroyed", i); lib([&] { mx[i]->destroy(); }); ended(); break;
        case 3: c.note("matrix %d deleted", i); lib([&] { mx[i]->destroy(); delete mx[i]; }); mx[i] = nullptr; ended(); break;
        case 4: if (mx[1 - i]) { c.note("matrix %d assigned, transposed and negated", i); lib([&] { mx[i]->set(mx[1 - i]); mx[1 - i]->transpose(mx[i]); mx[1 - i]->negate(mx[i]); }); } break;
        default: { if (!sp) sp = lib([] { return new SparseMatrix<3>; }); bool del = s.chance(1, 3); c.note("sparse matrix %dx%d rows, expanded and scaled%s", 3 * W, H, del ? ", deleted" : ""); lib([&] { sp->initialize(3 * W, H); if (W) for (int r = 0; r < H; ++r) { sp->setBlock(r, 0, r % W); for (int q = 0; q < 3; ++q) sp->set(r, 0, q, 1); sp->setEmpty(r, 1); }
            if (mx[i]) { sp->expand(mx[i]); sp->expandTransposed(mx[i]); sp->multiplyTranspose(*sp, mx[i]); } SparseMatrix<3> t; lin::Mx sc; sc.initialize(1, H, 2.0); sp->leftScale(sc, &t); sc.initialize(1, 3 * W, 2.0); sp->rightScale(sc, &t); t.destroy(); sp->destroy(); if (del) { delete sp; sp = nullptr; } }); if (mx[i]) { bool d = s.chance(1, 4); if (d) lib([&] { mx[i]->destroy(); }); } ended(); break; }
        }
    }
    void objects() {
        if (s.chance(1, 2) && !k.empty()) { int j = s.range(0, (int)k.size() - 1); if (ok[j] >= 0) return; c.note("constraint %d deleted and created again", j); lib([&] { delete k[j]; k[j] = makeConstraint(w.cons[j], b); }); ended(); }
        else if (!f.empty()) { int j = s.range(0, (int)f.size() - 1); if (of[j] >= 0) return; c.note("generator %d deleted and created again", j); lib([&] { delete f[j]; f[j] = makeForce(w.forces[j], b); }); ended(); }
        Spring *q = lib([] { return new Spring; }); if (s.chance(1, 2)) q->m_body1 = b[0]; else q->m_body2 = b[0]; SystemState *x = lib([] { return new SystemState; }); double e[4]; lib([&] { q->apply(x); q->energy(); q->getEnds(e, e + 1, e + 2, e + 3); delete q; delete x; }); c.label("spring_with_one_end");
    }
    void dropSolver() { int i = s.range(0, 2); if (s.chance(1, 2)) { for (auto &y : sys) if (y.sle == i) return; if (sle[i]) { c.note("solver %d destroyed", i); lib([&] { delete sle[i]; }); sle[i] = nullptr; ended(); } } else { for (auto &y : sys) if (y.ode == i) return; if (ode[i]) { c.note("integrator %d destroyed", i); lib([&] { delete ode[i]; }); ode[i] = nullptr; ended(); } } }
    void go() {
        Opt o; o.minBodies = 2; o.maxBodies = 6; o.large = false; o.maxCons = 7; o.maxForces = 5; o.minEig = 0.05; o.statics = false; o.assembled = 1; o.bigAngles = false; o.limits = s.chance(1, 4); o.neutral = o.limits; w = genWorld(c, o); describe(c, w);
        b.reserve(16); k.reserve(16); f.reserve(16);
        for (size_t i = 0; i < w.bodies.size(); ++i) { RigidBody *r = lib([] { return new RigidBody; }); b.push_back(r); const ref::BSpec &q = w.bodies[i]; r->p_x = q.x; r->p_y = q.y; r->theta = q.th; r->v_x = q.vx; r->v_y = q.vy; r->v_theta = q.w; r->m = q.m; r->I = q.I; }
        for (auto &x : w.cons) { Constraint *q = lib([&] { return makeConstraint(x, b); }); k.push_back(q); } for (auto &x : w.forces) { ForceGenerator *q = lib([&] { return makeForce(x, b); }); f.push_back(q); }
        ob.assign(b.size(), -1); ok.assign(k.size(), -1); of.assign(f.size(), -1); create(0); fill(0);
        int ops = s.range(5, 45);
        for (int t = 0; t < ops; ++t) {
            int i = s.chance(1, 2) ? 0 : s.range(0, 2);
            switch (s.weighted({ 6, 3, 3, 2, 2, 1, 1, 2, 2, 2, 1, 1 })) {
            case 0: if (sys[i].s) frame(i); break;
            case 1: if (!sys[i].s) create(i); fill(i); break;
            case 2: if (sys[i].s) dropSome(i); break;
            case 3: if (sys[i].s && s.chance(1, 2)) reset(i); else if (sys[i].s) attach(i); break;
            case 4: if (!sys[i].s) { create(i); fill(i); } break;
            case 5: kill(i); break;
            case 6: dropSolver(); break;
            case 7: direct(s.range(0, 2)); break;
            case 8: states(); break;
            case 9: matrices(); break;
            case 10: objects(); break;
            default: if (sys[i].s && s.chance(1, 16)) { if (s.chance(1, 2)) burst(i); else crowd(i); } break;
            }
        }
        // destruction in any order that keeps a system's solver and integrator alive as long as the system
        std::vector<int> order = { 0, 1, 2, 3, 4, 5 }; for (int i = 5; i > 0; --i) std::swap(order[i], order[s.draw(i + 1)]);
        for (int q : order) switch (q) {
        case 0: kill(0); kill(1); break; case 1: kill(2); break;
        case 2: for (auto *&x : st) if (x) { lib([&] { x->destroy(); delete x; }); x = nullptr; } break;
        case 3: for (auto *&x : mx) if (x) { lib([&] { x->destroy(); delete x; }); x = nullptr; } break;
        case 4: if (sp) lib([&] { sp->destroy(); delete sp; }); break;
        default: for (int i = 0; i < 3; ++i) kill(i); break; }
        lib([&] { for (auto *x : sle) delete x; for (auto *x : ode) delete x; for (auto *x : k) delete x; for (auto *x : f) delete x; for (auto *x : b) delete x; });
        REQUIRE(pbt::tracked_live() == 0, "%ld blocks (%ld bytes) are still allocated after everything was destroyed", pbt::tracked_live(), pbt::tracked_live_bytes());
        if (nt) c.nontrivial();
    }
};
}
void run_case(Case &c) { Life l(c); l.go(); }
