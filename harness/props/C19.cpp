// STACK_PAINT: built without automatic variable initialisation; heap and stack contents are chosen per run instead.
// The same scene run several times with different leftover memory and differently used solvers must agree bit for bit.
#include "scene.h"
#include "lin.h"
#include <cstring>
using namespace scene;
const char *PROPERTY_ID = "C19";
const char *PROPERTY_RULE = "random scene of several frames with constraints and generators removed and re-added in between, run four times: two heap fill patterns, two stack fill patterns, fresh objects and solver/integrator objects that processed other scenes and linear systems before; all bodies, reported reactions, the state snapshot's body arrays and elapsed time compared bit for bit; default-constructed objects likewise; non-trivial = at least one frame with a constraint or force";
extern const long QUICK_CASES = 50000, THOROUGH_CASES = 1000000;
namespace {
__attribute__((noinline, no_sanitize("address", "undefined"))) void paint(uint64_t v) { volatile uint64_t a[6000]; for (int i = 0; i < 6000; ++i) a[i] = v; __asm__ volatile("" : : "r"(a) : "memory"); }
struct Act { int what; int i; double dt; int steps; };                                    // 0 frame, 1 remove constraint, 2 add constraint, 3 remove force, 4 add force
typedef std::vector<uint64_t> Bits;
void put(Bits &b, double x) { uint64_t u; memcpy(&u, &x, 8); b.push_back(u); }
// parameters of default-constructed objects
void defaults(Bits &B) {
    auto con = [&](Constraint *k) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { put(B, k->F_x[i][j]); put(B, k->F_y[i][j]); put(B, k->F_t[i][j]); } for (int j = 0; j < Constraint::MaxBodyCount; ++j) REQUIRE(k->m_bodies[j] == nullptr, "a new constraint refers to body %p in slot %d", (void *)k->m_bodies[j], j); put(B, k->getConstraintCount()); put(B, k->m_bodyCount); };
#define ALL(k, ...) { double t[] = { __VA_ARGS__ }; for (double x : t) put(B, x); con(k); delete k; }
    { auto *k = new FixedPositionConstraint; ALL(k, k->m_local_x, k->m_local_y, k->m_world_x, k->m_world_y, k->m_ks, k->m_kd) } { auto *k = new FixedRotationConstraint; ALL(k, k->m_rotation, k->m_ks, k->m_kd) }
    { auto *k = new LineConstraint; ALL(k, k->m_local_x, k->m_local_y, k->m_p0_x, k->m_p0_y, k->m_dx, k->m_dy, k->m_ks, k->m_kd) } { auto *k = new LinkConstraint; ALL(k, k->m_maxForce, k->m_ks, k->m_kd) }
    { auto *k = new RollingConstraint; ALL(k, k->m_local_x, k->m_local_y, k->m_dx, k->m_dy, k->m_radius, k->m_ks, k->m_kd) } { auto *k = new ClutchConstraint; ALL(k, k->m_maxTorque, k->m_minTorque, k->m_ks, k->m_kd) }
    { auto *k = new SimpleGearConstraint; ALL(k, k->m_ratio, (double)*(const unsigned char *)&k->m_neutral, k->m_ks, k->m_kd) } { auto *k = new ConstantRotationConstraint; ALL(k, k->m_rotationSpeed, k->m_ks, k->m_kd, k->m_minTorque, k->m_maxTorque) } { auto *k = new RotationFrictionConstraint; ALL(k, k->m_maxTorque, k->m_minTorque, k->m_ks, k->m_kd) }
#undef ALL
    { auto *x = new Spring; double t[] = { x->m_restLength, x->m_ks, x->m_kd, x->m_p1_x, x->m_p1_y, x->m_p2_x, x->m_p2_y, x->energy() }; for (double y : t) put(B, y); REQUIRE(!x->m_body1 && !x->m_body2, "a new spring has a body"); delete x; }
    { auto *x = new ConstantSpeedMotor; double t[] = { x->m_ks, x->m_kd, x->m_maxTorque, x->m_speed }; for (double y : t) put(B, y); REQUIRE(!x->m_body0 && !x->m_body1, "a new motor has a body"); delete x; }
    { auto *x = new StaticForceGenerator; double t[] = { x->m_f_x, x->m_f_y, x->m_p_x, x->m_p_y }; for (double y : t) put(B, y); REQUIRE(!x->m_body, "a new static force has a body"); delete x; } { auto *x = new GravityForceGenerator; put(B, x->m_g); delete x; }
    { auto *x = new RigidBody; double t[] = { x->p_x, x->p_y, x->v_x, x->v_y, x->theta, x->v_theta, x->m, x->I, (double)x->index, x->energy() }; for (double y : t) put(B, y); delete x; } { auto *x = new GaussSeidelSleSolver; put(B, x->m_maxIterations); put(B, x->m_minDelta); put(B, x->supportsLimits()); delete x; }
    { auto *x = new OptimizedNsvRigidBodySystem; double t[] = { x->m_biasFactor, x->timeElapsed(), x->getOdeSolveMicroseconds(), x->getConstraintSolveMicroseconds(), x->getForceEvalMicroseconds(), x->getConstraintEvalMicroseconds(), (double)x->getRigidBodyCount(), (double)x->state()->n, (double)x->state()->n_c, x->state()->dt }; for (double y : t) put(B, y); delete x; }
    { auto *x = new GenericRigidBodySystem; double t[] = { x->getOdeSolveMicroseconds(), x->getConstraintSolveMicroseconds(), x->getForceEvalMicroseconds(), x->getConstraintEvalMicroseconds(), (double)x->state()->n }; for (double y : t) put(B, y); delete x; }
    { Matrix *m = new Matrix; m->initialize(3, 2); m->resize(2, 2); m->initialize(2, 3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) put(B, m->get(j, i)); m->destroy(); delete m; m = new Matrix(2, 2); put(B, m->get(1, 1)); m->destroy(); delete m; }
}
struct Run {
    const ref::World &w; Real r; Sys y; std::vector<int> cons, forces;
    Run(const ref::World &ww, bool gen, int sol, int sch, double beta, bool tight) : w(ww), r(ww), y(gen, sol, sch, beta, tight) {}
    void reg() { r.registerAll(*y.s, w); for (size_t i = 0; i < r.c.size(); ++i) cons.push_back((int)i); for (size_t i = 0; i < r.f.size(); ++i) forces.push_back((int)i); }
    ref::World now() { ref::World v = w; pullWorld(v, r); v.cons.clear(); v.forces.clear(); for (int i : cons) v.cons.push_back(w.cons[i]); for (int i : forces) v.forces.push_back(w.forces[i]); return v; }
    void apply(const Act &a, Bits &B) {
        switch (a.what) {
        case 1: y.s->removeConstraint(r.c[a.i]); cons.erase(std::find(cons.begin(), cons.end(), a.i)); return; case 2: y.s->addConstraint(r.c[a.i]); cons.push_back(a.i); return;
        case 3: y.s->removeForceGenerator(r.f[a.i]); forces.erase(std::find(forces.begin(), forces.end(), a.i)); return; case 4: y.s->addForceGenerator(r.f[a.i]); forces.push_back(a.i); return;
        default: y.s->process(a.dt, a.steps);
            for (auto *x : r.b) { double t[] = { x->p_x, x->p_y, x->theta, x->v_x, x->v_y, x->v_theta, x->m, x->I }; for (double q : t) put(B, q); }
            for (int i : cons) for (int row = 0; row < ref::rowsOf(w.cons[i].kind); ++row) for (int k = 0; k < ref::bodiesOf(w.cons[i].kind); ++k) { put(B, r.c[i]->F_x[row][k]); put(B, r.c[i]->F_y[row][k]); put(B, r.c[i]->F_t[row][k]); }
            const SystemState *s = y.s->state(); const double *arr[] = { s->p_x, s->p_y, s->theta, s->v_x, s->v_y, s->v_theta, s->a_x, s->a_y, s->a_theta, s->f_x, s->f_y, s->t, s->m }; for (auto *q : arr) for (int i = 0; i < s->n; ++i) put(B, q[i]); put(B, s->n); put(B, s->n_c); put(B, s->dt); if (y.o) put(B, y.o->timeElapsed());
        }
    }
    void destroy() { r.destroy(); y.destroy(); }
};
}
void run_case(Case &c) {
    Source &s = c.s; bool tight = !s.chance(1, 4); Opt o; o.maxBodies = 5; o.maxCons = 6; o.minEig = tight ? 0.03 : 0.4; o.limits = s.chance(1, 3); o.neutral = o.limits; bool gen = s.chance(1, 2); int sol = s.range(0, 2), sch = gen ? s.range(0, 2) : 1; double beta = s.chance(1, 2) ? 1 : s.uniform(0, 2);
    ref::World w = genWorld(c, o); describe(c, w); labelWorld(c, w);
    // another scene and other linear systems for the used solver and integrator objects
    Opt o2 = o; o2.maxBodies = 7; o2.maxCons = 9; ref::World w2; bool twin = s.chance(1, 2), between = s.chance(1, 2); if (!twin) w2 = genWorld(c, o2); else { w2 = w; static const double E[] = { 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 0.1 }; double e = s.pick(E); int what = s.range(1, 3); for (auto &b : w2.bodies) { if (what & 1) { b.x += s.sym(e); b.y += s.sym(e); b.th += s.sym(e); } if (what & 2) { b.vx += s.sym(e); b.vy += s.sym(e); b.w += s.sym(e); b.m *= 1 + s.sym(0.5 * e); b.I *= 1 + s.sym(0.5 * e); } } c.label("other_scene_is_a_near_twin"); } std::vector<lin::Prob> probs; int np = s.range(0, 2); for (int i = 0; i < np; ++i) { lin::Opt lo; lo.maxRows = 12; lin::Prob p = lin::gen(s, lo); LD a, z; lin::eigRange(p.A(), &a, &z); if (p.n == 0 || a > 0.3L * z) probs.push_back(p); }
    double dt2 = genDt(s); int steps2 = s.range(1, 2), frames2 = s.range(1, 2); bool usable2; { Sys y(gen, sol, sch, beta, tight); ref::State st = ref::initial(w2); std::vector<LD> react; ref::StepInfo info; for (int i = 0; i < frames2; ++i) refFrame(w2, y, st, dt2, steps2, react, info); usable2 = usable(info, tight ? 0.02 : 0.3) && info.amag * dt2 < 100; y.destroy(); }
    const int V = 4; uint64_t fill[V], stk[V]; for (int v = 0; v < V; ++v) { fill[v] = pbt::FILL_PATTERNS[(v + s.draw(2)) % pbt::N_FILL]; stk[v] = pbt::FILL_PATTERNS[(v + 1 + s.draw(3)) % pbt::N_FILL]; }
    Bits d0; for (int v = 0; v < V; ++v) { Bits d; pbt::set_heap_fill(fill[v]); paint(stk[v]); defaults(d); pbt::set_heap_fill(0); if (!v) d0 = d; else REQUIRE(d == d0, "default-constructed objects differ when memory held other values before (value %zu of %zu)", (size_t)(std::mismatch(d.begin(), d.end(), d0.begin()).first - d.begin()), d.size()); }
    std::vector<Act> acts; std::vector<Bits> first; bool nt = false; int frames = 0;
    for (int v = 0; v < V; ++v) {
        pbt::set_heap_fill(fill[v]); paint(stk[v]); Run u(w, gen, sol, sch, beta, tight); bool used = v >= 2; Real *r2 = nullptr; GenericRigidBodySystem *g = nullptr; OptimizedNsvRigidBodySystem *n = nullptr; RigidBodySystem *y2 = nullptr; auto drop = [&] { delete g; delete n; g = nullptr; n = nullptr; if (r2) r2->destroy(); delete r2; r2 = nullptr; };
        if (used) {                                                                       // the same solver and integrator objects process something else first
            if (usable2) { r2 = new Real(w2); if (gen) { g = new GenericRigidBodySystem; g->initialize(u.y.sle, u.y.ode); } else { n = new OptimizedNsvRigidBodySystem; n->initialize(u.y.sle); n->m_biasFactor = beta; } y2 = gen ? (RigidBodySystem *)g : n; r2->registerAll(*y2, w2); for (int i = 0; i < frames2; ++i) y2->process(dt2, steps2); c.label("solver_used_by_another_scene"); if (!between) { drop(); y2 = nullptr; } }
            for (auto &p : probs) { lin::Problem q(p); lin::Mx x; u.y.sle->solve(q.J, q.W, q.right, &x, &x); c.label("solver_used_directly"); }
            if (v == 3 && s.chance(1, 2) && u.y.ode) { SystemState t; t.resize(3, 2); double *a[] = { t.a_theta, t.v_theta, t.theta, t.a_x, t.a_y, t.v_x, t.v_y, t.p_x, t.p_y, t.f_x, t.f_y, t.t, t.m }; for (auto *x : a) for (int i = 0; i < 3; ++i) x[i] = 7; for (int i = 0; i < 4; ++i) t.r_x[i] = t.r_y[i] = t.r_t[i] = 3; u.y.ode->start(&t, 0.5); while (true) { bool d = u.y.ode->step(&t); u.y.ode->solve(&t); if (d) break; } u.y.ode->end(); t.destroy(); c.label("integrator_used_directly"); }
        }
        pbt::set_heap_fill(fill[v]); u.reg(); size_t k = 0, fr = 0;
        auto run = [&](const Act &a) { if (y2 && !a.what) { for (size_t i = 0; i < w2.bodies.size(); ++i) r2->setBody((int)i, w2.bodies[i]); y2->process(dt2, steps2); c.label("other_scene_between_frames"); } Bits b; pbt::set_heap_fill(fill[v]); paint(stk[v]); u.apply(a, b); pbt::set_heap_fill(0); if (a.what) return; if (v == 0) { first.push_back(b); return; }
            if (b != first[fr]) { size_t i = 0; while (i < b.size() && i < first[fr].size() && b[i] == first[fr][i]) ++i; double x = 0, y = 0; if (i < b.size()) memcpy(&x, &b[i], 8); if (i < first[fr].size()) memcpy(&y, &first[fr][i], 8); pbt::fail("run %d (%s objects, other leftover memory) differs from the first run after frame %zu: value %zu is %.17g instead of %.17g", v, used ? "used" : "fresh", fr, i, x, y); } ++fr; };
        if (v == 0) {
            int n = s.range(1, 6);
            for (int t = 0; t < n; ++t) {
                int kind = s.weighted({ 4, 1, 1, 1, 1 }); Act a = { kind, 0, 0, 1 };
                if (kind == 0) { a.dt = genDt(s); a.steps = s.chance(1, 4) ? 2 : 1; ref::World now = u.now(); ref::State st = stateOf(now, u.r); std::vector<LD> react; ref::StepInfo info; refFrame(now, u.y, st, a.dt, a.steps, react, info); if (!usable(info, tight ? 0.005 : 0.3) || info.amag * a.dt / a.steps > 100) { c.label("stopped_outside_domain"); break; } ++frames; nt |= !now.cons.empty() || !now.forces.empty(); }
                else if (kind == 1) { if (u.cons.empty()) continue; a.i = u.cons[s.draw(u.cons.size())]; } else if (kind == 2) { std::vector<int> q; for (int i = 0; i < (int)w.cons.size(); ++i) if (std::find(u.cons.begin(), u.cons.end(), i) == u.cons.end()) q.push_back(i); if (q.empty()) continue; a.i = s.pick(q); }
                else if (kind == 3) { if (u.forces.empty()) continue; a.i = u.forces[s.draw(u.forces.size())]; } else { std::vector<int> q; for (int i = 0; i < (int)w.forces.size(); ++i) if (std::find(u.forces.begin(), u.forces.end(), i) == u.forces.end()) q.push_back(i); if (q.empty()) continue; a.i = s.pick(q); }
                acts.push_back(a); c.note(kind == 0 ? "frame dt=%.9g steps=%d" : "act %g %d", kind == 0 ? a.dt : (double)kind, kind == 0 ? a.steps : a.i); run(a);
            }
        }
        else for (; k < acts.size(); ++k) run(acts[k]);
        drop(); u.destroy();
    }
    c.note("%s system, solver %s, integrator %s, tight=%d, beta=%.9g", gen ? "general" : "velocity-level", SNAME[sol], ONAME[sch], tight, beta); c.label(gen ? "general" : "velocity-level"); c.label(SNAME[sol]); if (frames > 1) c.label("several_frames");
    if (nt) c.nontrivial();
}
