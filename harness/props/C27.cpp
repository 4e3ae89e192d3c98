// User-supplied linear solvers and integrators: what they are given, in which order, and what is made of what they return.
#include "scene.h"
#include <chrono>
#include <array>
#include <algorithm>
using namespace scene;
const char *PROPERTY_ID = "C27";
const char *PROPERTY_RULE = "random scene (dependent constraints allowed) in either system with a user-supplied linear solver that records the problem it is given and returns arbitrary numbers, and in the general system a user-supplied integrator of 1-4 arbitrary stages or a library one; several frames with changes, solvers and integrators exchanged and registrations toggled in between; every problem, every acceleration, the order of calls, the bodies and the reported reactions are compared with the definition for the state of that evaluation, and in some cases the time spent in user code with the reported timings; non-trivial = at least one recorded problem with a constraint row and a registered body";
extern const long QUICK_CASES = 100000, THOROUGH_CASES = 1500000;
namespace {
typedef std::chrono::steady_clock Clock;
double since(Clock::time_point t) { return std::chrono::duration<double, std::micro>(Clock::now() - t).count(); }
void busy(double us) { if (us <= 0) return; Clock::time_point t = Clock::now(); while (since(t) < us) {} }
struct Bench {
    Case *c; ref::World *w; Real *r; RigidBodySystem *s = nullptr; bool generic; double beta = 1, h = 0; std::string log; std::vector<LD> lam; std::vector<LD> F, a; std::vector<ref::Row> R; std::vector<LD> v0, q0; LD gross = 1; std::string err;
    std::vector<double> pool; size_t at = 0; double next() { return pool.empty() ? 0 : pool[at++ % pool.size()]; }
    double us[4] = { 0, 0, 0, 0 }, in[4] = { 0, 0, 0, 0 }; bool lean = false;    // busy time per call of integrator, solver, generator, constraint; time spent inside them
    bool problem = false;
    ref::State snap() { const SystemState *z = s->state(); ref::State x; for (size_t i = 0; i < w->bodies.size(); ++i) { RigidBody *b = r->b[i]; int k = b->index; bool g = w->bodies[i].reg; double q[3], v[3]; if (g) { q[0] = z->p_x[k]; q[1] = z->p_y[k]; q[2] = z->theta[k]; v[0] = z->v_x[k]; v[1] = z->v_y[k]; v[2] = z->v_theta[k]; } else { q[0] = b->p_x; q[1] = b->p_y; q[2] = b->theta; v[0] = v[1] = v[2] = 0; } for (int d = 0; d < 3; ++d) { x.q.push_back(q[d]); x.v.push_back(v[d]); x.aprev.push_back(0); } } return x; }
};
struct Stay { double &d; Clock::time_point t; Stay(Bench *B, int k) : d(B->in[k]), t(Clock::now()) { busy(B->us[k]); } ~Stay() { d += since(t); } };
struct UserSolver : SleSolver {
    Bench *B; bool lim; UserSolver(Bench *b, bool l) : SleSolver(l), B(b), lim(l) {}
    // what the definition prescribes for the state that is being evaluated
    bool problem(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix *limits, Matrix *x, Matrix *y) {
        Stay stay(B, 1); if (B->lean) { x->resize(1, J.getHeight()); y->resize(1, J.getHeight()); for (int i = 0; i < J.getHeight(); ++i) { x->set(0, i, 0); y->set(0, i, 0); } return true; } Case &c = *B->c; const ref::World &w = *B->w; B->log += 'L'; ref::State st = B->snap(); size_t n3 = st.q.size(); int n = w.nreg(); std::vector<ref::Row> R; 
        std::vector<ref::Row> all = ref::rowsFor(w, st); R = all; int m = (int)R.size(); bool amb = false; LD off = B->s->state()->dt; std::vector<LD> F = ref::forces(w, st, off, &amb);
        LD pm = 1; for (LD q : st.q) pm = std::max(pm, std::fabs(q)); LD fg = 1; for (LD f : F) fg = std::max(fg, std::fabs(f)); for (auto &f : w.forces) if (f.kind == ref::FSpring) fg += std::fabs(f.p[5]) * 10 * pm;
        REQUIRE(J.getHeight() == m && J.getWidth() == 3 * n, "the solver is given %d rows and %d columns instead of %d and %d", J.getHeight(), J.getWidth(), m, 3 * n);
        REQUIRE(W.getWidth() == 1 && W.getHeight() == 3 * n, "the solver is given %dx%d weights for %d bodies", W.getWidth(), W.getHeight(), n); REQUIRE(right.getWidth() == 1 && right.getHeight() == m, "the solver is given a %dx%d right side for %d rows", right.getWidth(), right.getHeight(), m);
        REQUIRE((limits != nullptr) == (lim && !B->generic), "the solver %s limits, but is called %s them", lim ? "supports" : "does not support", limits ? "with" : "without");
        if (limits) REQUIRE(limits->getWidth() == 2 && limits->getHeight() == m, "the solver is given %dx%d limits for %d rows", limits->getWidth(), limits->getHeight(), m);
        for (size_t i = 0; i < w.bodies.size(); ++i) if (w.bodies[i].reg) { int k = B->r->b[i]->index; for (int d = 0; d < 3; ++d) pbt::near(c, "weight", W.get(0, 3 * k + d), (double)ref::invM(w, (int)(3 * i + d)), 1e-14 * (double)ref::invM(w, (int)(3 * i + d)), "weight of coordinate %d of body %zu", d, i); }
        Matrix D; J.expand(&D); std::vector<LD> WF(n3); for (size_t k = 0; k < n3; ++k) WF[k] = F[k] * ref::invM(w, (int)k); B->lam.assign(m, 0); B->R = R; B->F = F; LD gf = 0;
        for (int i = 0; i < m; ++i) { const ref::Row &q = R[i]; std::vector<LD> want(3 * n, 0); LD js = 1; for (int b = 0; b < q.nb; ++b) for (int d = 0; d < 3; ++d) { if (w.bodies[q.b[b]].reg) want[3 * B->r->b[q.b[b]]->index + d] += q.J[3 * b + d]; js = std::max(js, std::fabs(q.J[3 * b + d])); }
            LD ps = 1; for (double p : w.cons[q.con].p) ps += std::fabs(p); ps *= ps;
            for (int k = 0; k < 3 * n; ++k) pbt::near(c, "matrix", D.get(k, i), (double)want[k], 1e-12 * (double)((pm + js) * ps), "row %d (%s row %d), column %d of the matrix", i, ref::CNAME[w.cons[q.con].kind], q.r, k);
            LD e = 1e-13L * (pm * pm + js) * ps, g = 0, b; for (int z = 0; z < q.nb; ++z) for (int d = 0; d < 3; ++d) { LD v = std::fabs(st.v[3 * q.b[z] + d]), im = ref::invM(w, 3 * q.b[z] + d); g += B->generic ? (std::fabs(q.Jd[3 * z + d]) + std::fabs(q.kd * q.J[3 * z + d]) + std::fabs(q.kd) * ps) * v + (std::fabs(q.J[3 * z + d]) + 1) * im * fg * (1 + pm) : std::fabs(q.J[3 * z + d]) * v + (std::fabs(q.J[3 * z + d]) + 1) * im * fg * (1 + pm) * B->h; if (!B->generic) g += v * ps; else g += v * v * ps * pm; }
            if (B->generic) { b = -ref::dotRowD(q, st.v) - ref::dotRow(q, WF) - q.ks * q.C - q.kd * ref::dotRow(q, st.v); e = e * (1 + std::fabs(q.ks)) + 1e-12L * (g + std::fabs(q.ks * q.C)); }
            else { b = -(ref::dotRow(q, st.v) + (LD)B->h * ref::dotRow(q, WF) + q.bias + B->beta / B->h * q.C); e = e * (1 + std::fabs(B->beta) / B->h) + 1e-12L * (g + std::fabs(q.bias) + std::fabs(B->beta / B->h * q.C)); }
            if (!amb) pbt::near(c, "right_side", right.get(0, i), (double)b, (double)e, "right side of row %d (%s row %d)", i, ref::CNAME[w.cons[q.con].kind], q.r);
            if (limits) for (int d = 0; d < 2; ++d) { double l = (double)(d ? q.hi : q.lo) * B->h; if (limits->get(d, i) != l) pbt::near(c, "limit", limits->get(d, i), l, 1e-14 * std::fabs(l), "%s limit of row %d (%s row %d)", d ? "upper" : "lower", i, ref::CNAME[w.cons[q.con].kind], q.r); } }
        D.destroy(); for (int i = 0; i < m; ++i) B->lam[i] = B->next() * (B->generic ? 1 : B->h);
        x->resize(1, m); if (y != x) y->resize(1, m); for (int i = 0; i < m; ++i) { x->set(0, i, (double)B->lam[i]); if (y != x) y->set(0, i, (double)B->lam[i]); B->lam[i] = (double)B->lam[i]; }
        // the accelerations that follow
        B->a.assign(n3, 0); LD sc = fg * (1 + pm); for (size_t k = 0; k < n3; ++k) B->a[k] = F[k]; for (int i = 0; i < m; ++i) { ref::addT(R[i], B->lam[i] / (B->generic ? 1 : (LD)B->h), B->a); for (int k = 0; k < 6; ++k) sc += std::fabs(R[i].J[k] * B->lam[i]) / (B->generic ? 1 : (LD)B->h) * (1 + pm); } for (size_t k = 0; k < n3; ++k) B->a[k] *= ref::invM(w, (int)k); B->gross = amb ? 1e30L : sc; B->v0 = st.v; B->q0 = st.q;
        if (m && n) B->problem = true; return true;
    }
    virtual bool solve(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix *a, Matrix *b) { return problem(J, W, right, nullptr, a, b); }
    virtual bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix &limits, Matrix *a, Matrix *b) { return problem(J, W, right, &limits, a, b); }
};
void checkAcceleration(Bench *B, const double *ax, const double *ay, const double *at) {
    for (size_t i = 0; i < B->w->bodies.size(); ++i) if (B->w->bodies[i].reg) { int k = B->r->b[i]->index; double a[3] = { ax[k], ay[k], at[k] }; for (int d = 0; d < 3; ++d) pbt::near(*B->c, "acceleration", a[d], (double)B->a[3 * i + d], 1e-12 * (double)(B->gross * ref::invM(*B->w, (int)(3 * i + d))), "acceleration component %d of body %zu given to the integrator", d, i); }
}
struct UserOde : OdeSolver {
    Bench *B; int stages, k = 0; std::vector<std::vector<double>> out; UserOde(Bench *b, int n) : B(b), stages(n) {}
    void place(SystemState *z) { for (int i = 0; i < z->n; ++i) { z->p_x[i] += 0.05 * B->next(); z->p_y[i] += 0.05 * B->next(); z->theta[i] += 0.05 * B->next(); z->v_x[i] += 0.1 * B->next(); z->v_y[i] += 0.1 * B->next(); z->v_theta[i] += 0.1 * B->next(); } }
    virtual void start(SystemState *z, double dt) { B->log += 'S'; k = 0; Case &c = *B->c; pbt::near(c, "step_length", dt, B->h, 1e-14 * B->h, "step length given to the integrator"); REQUIRE(z->n == B->w->nreg(), "the integrator is started with %d bodies instead of %d", z->n, B->w->nreg()); }
    virtual bool step(SystemState *z) { B->log += 't'; if (k) place(z); z->dt = B->h * k / 3; return ++k == stages; }
    virtual void solve(SystemState *z) { Stay stay(B, 0); if (B->lean) return; B->log += 'v'; if (B->log.find('L') != std::string::npos) checkAcceleration(B, z->a_x, z->a_y, z->a_theta); if (k == stages) { place(z); out.clear(); for (int i = 0; i < z->n; ++i) out.push_back({ z->p_x[i], z->p_y[i], z->theta[i], z->v_x[i], z->v_y[i], z->v_theta[i] }); } }
    virtual void end() { B->log += 'e'; }
};
struct Marker : ForceGenerator { Bench *B; virtual void apply(SystemState *) { Stay stay(B, 2); if (!B->lean) B->log += 'g'; } };
struct SlowField : UserConstraint { Bench *B; SlowField(const ref::CSpec &k, Bench *b) : UserConstraint(k), B(b) {} virtual void calculate(Output *o, SystemState *s) { Stay stay(B, 3); if (!B->lean) B->log += 'c'; UserConstraint::calculate(o, s); } };
}
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.minBodies = s.chance(1, 8) ? 0 : 1; o.maxBodies = 5; o.maxCons = 7; o.minEig = -1; o.motorKd = false; o.limits = s.chance(1, 2); o.neutral = o.limits; bool slow = s.chance(1, 150), longRun = slow && s.chance(1, 12);
    if (s.chance(1, 10)) { o.pos = 100; c.label("wide_positions"); } if (s.chance(1, 10)) { o.vel = 50; c.label("wide_velocities"); } if (s.chance(1, 10)) { o.massLo = 1e-3; o.massHi = 1e3; c.label("wide_masses"); } if (s.chance(1, 10)) { o.maxGain = 1e4; o.maxDamp = 500; c.label("wide_gains"); }
    ref::World w = genWorld(c, o); describe(c, w); labelWorld(c, w); Bench B; B.c = &c; B.generic = s.chance(1, 2); B.w = &w; int np = s.range(1, 40); for (int i = 0; i < np; ++i) B.pool.push_back(s.chance(1, 8) ? 0 : coord(s, s.chance(1, 4) ? 1 : 12));
    Real r(w); B.r = &r; B.beta = B.generic ? 1 : genBeta(s);
    for (size_t i = 0; i < w.cons.size(); ++i) if (ref::userKind(w.cons[i].kind)) { auto *p = new SlowField(w.cons[i], &B); if (slow ? s.chance(3, 4) : s.chance(1, 3)) { p->m_bodies[0] = r.b[w.cons[i].b[0]]; if (w.cons[i].b[1] >= 0) p->m_bodies[1] = r.b[w.cons[i].b[1]]; delete r.c[i]; r.c[i] = p; } else delete p; }
    Marker mark; mark.B = &B; GenericRigidBodySystem *g = B.generic ? new GenericRigidBodySystem : nullptr; OptimizedNsvRigidBodySystem *n = B.generic ? nullptr : new OptimizedNsvRigidBodySystem; B.s = g ? (RigidBodySystem *)g : n; if (n) n->m_biasFactor = B.beta;
    UserSolver plain(&B, false), limited(&B, true), *sol = nullptr; UserOde *ode = nullptr; int libOde = 0; EulerOdeSolver eu; NsvOdeSolver nv; std::vector<std::unique_ptr<UserOde>> made;
    auto choose = [&]() { sol = s.chance(1, 2) ? &plain : &limited; if (g) { libOde = s.chance(1, 4) ? s.range(1, 2) : 0; if (!libOde) { made.emplace_back(new UserOde(&B, s.range(1, 4))); ode = made.back().get(); } else ode = nullptr; g->initialize(sol, libOde == 1 ? (OdeSolver *)&eu : libOde == 2 ? (OdeSolver *)&nv : ode); } else n->initialize(sol); c.note("%s, solver %s limits, integrator %s", g ? "general" : "velocity-level", sol->lim ? "with" : "without", !g ? "built in" : libOde ? ONAME[libOde - 1] : "user"); if (ode) { c.note("%d stages", ode->stages); c.label("user_integrator"); } c.label(sol->lim ? "solver_with_limits" : "solver_without_limits"); };
    choose(); r.registerAll(*B.s, w); B.s->addForceGenerator(&mark);
    if (slow) { for (double &u : B.us) u = s.range(0, 60); c.label("timed"); }
    int frames = slow ? s.range(2, 16) : s.range(1, 4); std::vector<double> wall; std::vector<std::array<double, 4>> spent;
    auto frame = [&](double dt, int steps, bool check) {
        B.h = dt / steps; B.log.clear(); B.log.reserve(1 << 12); for (double &x : B.in) x = 0; Clock::time_point t = Clock::now(); B.s->process(dt, steps); wall.push_back(since(t));
        int L = (int)std::count(B.log.begin(), B.log.end(), 'L'); double ev = (double)steps * (ode ? ode->stages : 1); spent.push_back({ ode ? B.in[0] - ev : 0.0, B.in[1] - ev, B.in[2] - ev, B.in[3] - 2 * ev });
        if (!check) return; std::string seq; for (char q : B.log) if (q != 'c') seq += q; std::string want; int stages = ode ? ode->stages : 1;
        for (int k = 0; k < steps; ++k) { if (ode) want += 'S'; for (int q = 0; q < stages; ++q) { if (ode) want += 't'; want += 'g'; if (w.rows() || L) want += 'L'; if (ode) want += 'v'; } if (ode) want += 'e'; }
        REQUIRE(seq == want, "calls of integrator (S start, t step, v solve, e end), generator (g) and solver (L) are %s instead of %s", seq.substr(0, 200).c_str(), want.substr(0, 200).c_str());
        if (!L) return;
        const double fm = (double)B.gross;
        for (size_t i = 0; i < w.bodies.size(); ++i) if (w.bodies[i].reg) { RigidBody *b = r.b[i]; double got[6] = { b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta };
            if (ode) { for (int d = 0; d < 6; ++d) REQUIRE(got[d] == ode->out[b->index][d], "value %d of body %zu is %.17g after the frame, the integrator left %.17g", d, i, got[d], ode->out[b->index][d]); }
            else for (int d = 0; d < 3; ++d) { LD nv1 = B.v0[3 * i + d] + B.h * B.a[3 * i + d], np1 = B.q0[3 * i + d] + B.h * (libOde == 1 ? B.v0[3 * i + d] : nv1); double e = 1e-12 * (fm * (double)ref::invM(w, (int)(3 * i + d)) * B.h + std::fabs((double)nv1) + std::fabs((double)B.v0[3 * i + d])); pbt::near(c, "velocity", got[3 + d], (double)nv1, e, "velocity component %d of body %zu after the frame", d, i); pbt::near(c, "position", got[d], (double)np1, e * B.h + 1e-14 * (std::fabs((double)np1) + 1), "position component %d of body %zu after the frame", d, i); } }
        for (size_t j = 0; j < w.cons.size(); ++j) { int at = 0; while (B.R[at].con != (int)j) ++at; for (int q = 0; q < ref::rowsOf(w.cons[j].kind); ++q) for (int k = 0; k < ref::bodiesOf(w.cons[j].kind); ++k) { const ref::Row &R = B.R[at + q]; double got[3] = { r.c[j]->F_x[q][k], r.c[j]->F_y[q][k], r.c[j]->F_t[q][k] }; bool reg = w.bodies[w.cons[j].b[k]].reg; for (int d = 0; d < 3; ++d) { LD e = reg ? R.J[3 * k + d] * B.lam[at + q] / (B.generic ? 1 : (LD)B.h) : 0; pbt::near(c, "reaction", got[d], (double)e, 1e-12 * fm, "component %d of the reaction of %s row %d on its body %d", d, ref::CNAME[w.cons[j].kind], q, k); } } }
    };
    auto timings = [&]() { double got[4] = { B.s->getOdeSolveMicroseconds(), B.s->getConstraintSolveMicroseconds(), B.s->getForceEvalMicroseconds(), B.s->getConstraintEvalMicroseconds() }; static const char *const N[] = { "integration", "constraint solve", "force evaluation", "constraint evaluation" }; size_t k = spent.size(), from = k > 600 ? k - 600 : 0; double lo[4] = { 0, 0, 0, 0 }, hi = 0; for (size_t i = from; i < k; ++i) { for (int d = 0; d < 4; ++d) lo[d] += spent[i][d]; hi += wall[i]; } double m = std::max<size_t>(1, k - from), sum = 0; for (int d = 0; d < 4; ++d) { sum += got[d]; REQUIRE(got[d] >= lo[d] / m * (1 - 1e-5) - 1e-3, "average %s time is %.6g microseconds per frame, user code alone took %.6g", N[d], got[d], lo[d] / m); } REQUIRE(sum <= hi / m * (1 + 1e-5) + 1e-3, "the reported average times add up to %.6g microseconds per frame, but processing took %.6g", sum, hi / m); };
    for (int f = 0; f < frames; ++f) {
        if (f && s.chance(1, 3)) { mutate(c, o, w, { &r }); c.label("changed_between_frames"); }
        if (f && s.chance(1, 4)) choose();
        if (slow) for (double &u : B.us) u = s.chance(1, 3) ? s.range(0, 200) : 0;
        double dt = genDt(s); int steps = std::min(genSteps(s, 3), 20); c.note("frame dt=%.9g steps=%d", dt, steps); frame(dt, steps, true); if (slow && spent.size()) timings(); bool wild = false; for (auto *b : r.b) if (!(std::fabs(b->p_x) + std::fabs(b->p_y) + std::fabs(b->theta) < 1e4 && std::fabs(b->v_x) + std::fabs(b->v_y) + std::fabs(b->v_theta) < 1e4)) wild = true; if (wild) { c.label("stopped_far_away"); break; }
    }
    if (slow && s.chance(1, 2)) { c.label("one_busy_frame"); B.lean = true; for (double &u : B.us) u = 0; B.us[s.range(0, 3)] = s.range(500, 2000); frame(1e-6, s.range(1, 2), false); for (double &u : B.us) u = 0; int idle = s.range(20, 80); for (int q = 0; q < idle; ++q) frame(1e-6, 1, false); timings(); B.lean = false; }
    if (longRun) { c.label("beyond_profiling_history"); for (int k = 0; k < 2; ++k) { for (double &u : B.us) u = k ? 0 : s.range(0, 30); int many = s.range(600, 700); for (int q = 0; q < many; ++q) frame(1e-6, 1, false); timings(); } }
    if (B.problem) c.nontrivial(); delete g; delete n; r.destroy();
}
