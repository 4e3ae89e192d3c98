// Probe generators and constraints record every call and the state they are given.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C24";
const char *PROPERTY_RULE = "random scene whose user-defined generators and constraints (1..3 rows, 1..2 bodies) log every call with the whole state snapshot, several frames with registration changes and changed masses in between, either system, any solver and integrator, 0..n bodies, 1..5 steps; the log is compared with the expected stages (counts, order, poses, velocities, masses, total force, time offset), then snapshot, bodies, elapsed time and timers after the frame; non-trivial = at least one probe was called in a frame with a body";
extern const long QUICK_CASES = 60000, THOROUGH_CASES = 1500000;
namespace {
struct Ev { int type, id; std::vector<double> p, v, m, f, a; std::vector<int> map; int n; double dt; };
struct Log { std::vector<Ev> e; bool on = true; int rows = 0;
    void add(int type, int id, SystemState *s) { if (!on) return; Ev x; x.type = type; x.id = id; x.n = s->n; x.dt = s->dt; for (int i = 0; i < s->n; ++i) { double p[] = { s->p_x[i], s->p_y[i], s->theta[i] }, v[] = { s->v_x[i], s->v_y[i], s->v_theta[i] }, f[] = { s->f_x[i], s->f_y[i], s->t[i] }; x.p.insert(x.p.end(), p, p + 3); x.v.insert(x.v.end(), v, v + 3); x.f.insert(x.f.end(), f, f + 3); double a[] = { s->a_x[i], s->a_y[i], s->a_theta[i] }; x.a.insert(x.a.end(), a, a + 3); x.m.push_back(s->m[i]); } if (s->n_c > 0) x.map.assign(s->indexMap, s->indexMap + std::min(rows, s->n_c)); e.push_back(x); } };
class ProbeConstraint : public UserConstraint { public: Log *log; int id; ProbeConstraint(const ref::CSpec &s, Log *l, int i) : UserConstraint(s), log(l), id(i) {} virtual void calculate(Output *o, SystemState *s) { log->add(1, id, s); UserConstraint::calculate(o, s); } };
class ProbeField : public UserField { public: Log *log; int id; virtual void apply(SystemState *s) { log->add(0, id, s); UserField::apply(s); } };
class Silent : public ForceGenerator { public: Log *log; int id; virtual void apply(SystemState *s) { log->add(0, id, s); } };
struct Stage { ref::State s; LD dt; };
}
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.minBodies = 0; o.maxBodies = 5; o.maxCons = 6; bool gen = s.chance(1, 2); int sol = s.range(0, 2), sch = gen ? s.range(0, 2) : 1; double beta = s.chance(1, 2) ? 1 : s.uniform(0, 2); if (sol != GE) o.minEig = 0.05; o.limits = s.chance(1, 4); o.neutral = o.limits; o.assembled = s.chance(1, 2);
    widen(c, o, sol, false);
    ref::World w = genWorld(c, o); describe(c, w); labelWorld(c, w); Sys y(gen, sol, sch, beta); c.note("%s beta=%.9g", y.name().c_str(), beta); c.label(y.name()); Real r(w); Log log; int nb = (int)w.bodies.size(), nc = (int)w.cons.size(), nf = (int)w.forces.size(), silent = s.range(nf || nc ? 0 : 1, 3);
    std::vector<char> probeC(nc, 0), probeF(nf + silent, 0);
    for (int i = 0; i < nc; ++i) if (s.chance(3, 4)) { ref::CSpec k = w.cons[i]; auto *p = new ProbeConstraint(k, &log, i); p->m_bodies[0] = r.b[k.b[0]]; if (ref::bodiesOf(k.kind) > 1) p->m_bodies[1] = r.b[k.b[1]]; delete r.c[i]; r.c[i] = p; probeC[i] = 1; }
    for (int i = 0; i < nf; ++i) if (w.forces[i].kind == ref::FField) { auto *p = new ProbeField; p->log = &log; p->id = i; p->body = r.b[w.forces[i].b[0]]; for (int k = 0; k < 8; ++k) p->p[k] = w.forces[i].p[k]; delete r.f[i]; r.f[i] = p; probeF[i] = 1; }
    for (int i = 0; i < silent; ++i) { auto *p = new Silent; p->log = &log; p->id = nf + i; r.f.push_back(p); probeF[nf + i] = 1; }
    // probes and ordinary objects are registered in any order
    std::vector<char> onB(nb), onC(nc), onF(nf + silent); auto shuffled = [&](int n) { std::vector<int> q; for (int i = 0; i < n; ++i) q.push_back(i); for (int i = n - 1; i > 0; --i) std::swap(q[i], q[s.draw(i + 1)]); return q; };
    for (int i : shuffled(nb)) if (w.bodies[i].reg) { y.s->addRigidBody(r.b[i]); onB[i] = 1; } for (int i : shuffled(nc)) { y.s->addConstraint(r.c[i]); onC[i] = 1; } for (int i : shuffled(nf + silent)) { y.s->addForceGenerator(r.f[i]); onF[i] = 1; }
    int frames = s.range(1, 5); double total = 0; bool nt = false; auto timers = [&]() { double t[] = { y.s->getOdeSolveMicroseconds(), y.s->getConstraintSolveMicroseconds(), y.s->getForceEvalMicroseconds(), y.s->getConstraintEvalMicroseconds() }; static const char *const N[] = { "ode solve", "constraint solve", "force evaluation", "constraint evaluation" }; for (int i = 0; i < 4; ++i) REQUIRE(t[i] >= 0 && t[i] < 1e9, "average %s time is %g microseconds", N[i], t[i]); };
    timers();
    for (int f = 0; f < frames; ++f) {
        if (f) { int ops = s.range(0, 3); for (int q = 0; q < ops; ++q) switch (s.range(0, 4)) {
            case 0: if (nc) { int i = s.range(0, nc - 1); if (onC[i]) y.s->removeConstraint(r.c[i]); else y.s->addConstraint(r.c[i]); onC[i] ^= 1; c.note("%s constraint %d", onC[i] ? "add" : "remove", i); c.label("constraint_toggled"); } break;
            case 1: if (nf + silent) { int i = s.range(0, nf + silent - 1); if (onF[i]) y.s->removeForceGenerator(r.f[i]); else y.s->addForceGenerator(r.f[i]); onF[i] ^= 1; c.note("%s generator %d", onF[i] ? "add" : "remove", i); c.label("generator_toggled"); } break;
            case 2: if (nb) { int i = s.range(0, nb - 1); w.bodies[i].m = r.b[i]->m = s.logreal(0.2, 8); w.bodies[i].I = r.b[i]->I = s.logreal(0.2, 8); c.note("body %d m=%.17g I=%.17g", i, r.b[i]->m, r.b[i]->I); c.label("mass_changed"); } break;
            case 3: if (nb) { int i = s.range(0, nb - 1); if (onB[i]) { y.s->removeRigidBody(r.b[i]); } else if (r.b[i]->m > 0) y.s->addRigidBody(r.b[i]); else break; onB[i] ^= 1; w.bodies[i].reg = onB[i]; c.note("%s body %d", onB[i] ? "add" : "remove", i); c.label("body_toggled"); } break;
            default: if (nb) { int i = s.range(0, nb - 1); r.b[i]->v_x = s.sym(4); r.b[i]->theta += s.sym(0.1); c.note("body %d v_x=%.17g theta=%.17g", i, r.b[i]->v_x, r.b[i]->theta); } break; } }
        for (int i = 0; i < nc; ++i) if (onC[i]) { const ref::CSpec &k = w.cons[i]; if (!(onB[k.b[0]] || (k.b[1] >= 0 && onB[k.b[1]]))) { y.s->removeConstraint(r.c[i]); onC[i] = 0; } }
        ref::World v = w; pullWorld(v, r); v.cons.clear(); v.forces.clear(); for (int i = 0; i < nc; ++i) if (onC[i]) v.cons.push_back(w.cons[i]); for (int i = 0; i < nf; ++i) if (onF[i]) v.forces.push_back(w.forces[i]);
        double dt = genDt(s); int steps = genSteps(s, 3); LD h = dt / steps; ref::State st = ref::initial(v); std::vector<LD> react; ref::StepInfo info; std::vector<Stage> stages;
        for (int k = 0; k < steps; ++k) {
            if (!gen) { stages.push_back({ st, h }); ref::nsvStep(v, st, h, beta, y.limited(), react, info); }
            else if (sch != ref::Rk4) { stages.push_back({ st, h }); ref::genericStep(v, st, sch, h, react, info); }
            else { std::vector<LD> a, lam, pv, pa; std::vector<ref::Row> R; ref::State s0 = st, g = st; static const LD off[] = { 0, 0.5L, 0.5L, 1 }; for (int q = 0; q < 4; ++q) { if (q) for (size_t i = 0; i < g.q.size(); ++i) { g.q[i] = s0.q[i] + off[q] * h * pv[i]; g.v[i] = s0.v[i] + off[q] * h * pa[i]; } stages.push_back({ g, off[q] * h }); ref::acceleration(v, g, off[q] * h, a, lam, R, info); g.aprev = a; pv = g.v; pa = a; } ref::genericStep(v, st, sch, h, react, info); } }
        if (!usable(info, sol == GE ? 0.003 : 0.01) || info.amag * h > 100) { c.label("stopped_outside_domain"); break; }
        c.note("frame dt=%.17g steps=%d", dt, steps); log.e.clear(); std::vector<int> rowAt; { std::vector<const ref::CSpec *> by(v.cons.size()); for (int i = 0; i < nc; ++i) if (onC[i]) { REQUIRE(r.c[i]->m_index >= 0 && r.c[i]->m_index < (int)by.size() && !by[r.c[i]->m_index], "constraint %d has index %d of %zu", i, r.c[i]->m_index, by.size()); by[r.c[i]->m_index] = &w.cons[i]; } int at = 0; for (auto *k : by) { rowAt.push_back(at); at += ref::rowsOf(k->kind); } } log.rows = (int)rowAt.size(); if (steps == 1 && s.chance(1, 2)) y.s->process(dt); else y.s->process(dt, steps); total += dt;
        int np = 0, nq = 0; for (int i = 0; i < nf + silent; ++i) np += onF[i] && probeF[i]; for (int i = 0; i < nc; ++i) nq += onC[i] && probeC[i];
        double rel = relTol(sol, (double)info.mineig) * 4; Tol t = tolFor(v, info, rel, dt); double fmag = 1; { for (auto &b : v.bodies) fmag = std::max(fmag, std::max(b.m, b.I)); fmag *= 1 + (double)info.amag + (double)info.vmag; for (auto &q : v.forces) if (q.kind == ref::FMotor) fmag *= 1 + (q.p[0] + q.p[1] * 20); for (auto &q : v.forces) if (q.kind == ref::FSpring) fmag *= 4; } double tf = (steps == 1 && !(gen && sch == ref::Rk4) ? 1e-10 : rel * 10) * fmag * 60;
        REQUIRE(log.e.size() == (size_t)(np + nq) * stages.size(), "%zu calls of %d registered probe generators and %d probe constraints in %zu evaluations", log.e.size(), np, nq, stages.size()); size_t e = 0;
        for (size_t g = 0; g < stages.size(); ++g) { std::vector<char> seenF(nf + silent, 0), seenC(nc, 0);
            std::vector<LD> F = ref::forces(v, stages[g].s, stages[g].dt);
            for (int q = 0; q < np + nq; ++q, ++e) { const Ev &x = log.e[e]; const char *kind = x.type ? "constraint" : "generator"; REQUIRE(x.type == (q >= np), "evaluation %zu: call %d is for a %s", g, q, kind);
                if (x.type == 0) { REQUIRE(onF[x.id] && !seenF[x.id], "evaluation %zu: generator %d is %s", g, x.id, onF[x.id] ? "applied twice" : "not registered but applied"); seenF[x.id] = 1; } else { REQUIRE(onC[x.id] && !seenC[x.id], "evaluation %zu: constraint %d is %s", g, x.id, onC[x.id] ? "evaluated twice" : "not registered but evaluated"); seenC[x.id] = 1; }
                REQUIRE(x.n == v.nreg(), "evaluation %zu: the state has %d bodies instead of %d", g, x.n, v.nreg()); pbt::near(c, "time_offset", x.dt, (double)stages[g].dt, 1e-12 * dt, "evaluation %zu of %d steps: time offset given to %s %d", g, steps, kind, x.id); std::vector<char> used(x.n, 0); REQUIRE(x.map == rowAt, "evaluation %zu: the first rows of the %zu constraints given to %s %d are wrong", g, rowAt.size(), kind, x.id);
                for (int i = 0; i < nb; ++i) if (onB[i]) { int k = r.b[i]->index; REQUIRE(k >= 0 && k < x.n && !used[k], "body %d has index %d", i, k); used[k] = 1; REQUIRE(x.m[k] == r.b[i]->m, "evaluation %zu: mass of body %d is %.17g instead of %.17g", g, i, x.m[k], r.b[i]->m); static const char *const NP[] = { "p_x", "p_y", "theta" }, *const NV[] = { "v_x", "v_y", "v_theta" };
                    for (int d = 0; d < 3; ++d) { pbt::near(c, "stage_pose", x.p[3 * k + d], (double)stages[g].s.q[3 * i + d], g ? t.p : 0, "evaluation %zu: %s of body %d given to %s %d", g, NP[d], i, kind, x.id); pbt::near(c, "stage_acceleration", x.a[3 * k + d], g ? (double)stages[g].s.aprev[3 * i + d] : 0, g ? t.v / (double)h : 0, "evaluation %zu: acceleration component %d of body %d given to %s %d", g, d, i, kind, x.id); pbt::near(c, "stage_velocity", x.v[3 * k + d], (double)stages[g].s.v[3 * i + d], g ? t.v : 0, "evaluation %zu: %s of body %d given to %s %d", g, NV[d], i, kind, x.id);
                        if (x.type) pbt::near(c, "stage_force", x.f[3 * k + d], (double)F[3 * i + d], tf, "evaluation %zu: total force component %d of body %d given to constraint %d", g, d, i, x.id);
                        else if (np == nf + silent && q == 0) REQUIRE(x.f[3 * k + d] == 0, "evaluation %zu: force component %d of body %d is %.17g before the first generator", g, d, i, x.f[3 * k + d]); } } } }
        const SystemState *z = y.s->state(); REQUIRE(z->n == v.nreg(), "after the frame the snapshot has %d bodies instead of %d", z->n, v.nreg());
        for (int i = 0; i < nb; ++i) if (onB[i]) { RigidBody *b = r.b[i]; int k = b->index; double A[] = { z->p_x[k], z->p_y[k], z->theta[k], z->v_x[k], z->v_y[k], z->v_theta[k], z->m[k] }, B[] = { b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta, b->m }; for (int d = 0; d < 7; ++d) REQUIRE(A[d] == B[d], "after the frame value %d of body %d is %.17g in the snapshot and %.17g in the body", d, i, A[d], B[d]); }
        requireBodies(c, "after the frame", v, r, st, t); timers(); if (!gen) pbt::near(c, "elapsed_time", y.o->timeElapsed(), total, 1e-12 * total, "after frame %d of %d steps", f, steps);
        if ((np || nq) && v.nreg()) nt = true; if (v.nreg() == 0) c.label("no_bodies");
        if (s.chance(1, 2000)) { log.on = false; int many = s.range(590, 700); c.note("%d more frames of 1e-6", many); for (int q = 0; q < many; ++q) y.s->process(1e-6); total += many * 1e-6; timers(); log.on = true; c.label("beyond_profiling_history"); if (!gen) pbt::near(c, "elapsed_time", y.o->timeElapsed(), total, 1e-12 * (1 + total), "after many frames"); break; }
    }
    if (nt) c.nontrivial(); r.destroy(); y.destroy();
}
