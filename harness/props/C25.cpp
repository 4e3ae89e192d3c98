// Many independent mechanisms in one system against each mechanism alone; long runs against fresh systems.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C25";
const char *PROPERTY_RULE = "1..5 random mechanisms, each also run alone, replicated and put together with free bodies in one system of up to several hundred bodies and constraint rows (occasionally tens of thousands of bodies), registered in random order with bodies placed around indices 127/128, 255/256, 32767/32768 and at the end; or a system that has already processed 590..1400 frames against a new one with the same state; any solver and integrator; bodies and reported reactions must agree; non-trivial = more than 100 bodies or rows, or more than 600 frames";
extern const long QUICK_CASES = 4800, THOROUGH_CASES = 60000;
namespace {
struct Lcg { uint64_t x; explicit Lcg(uint64_t s) : x(s * 6364136223846793005ull + 1442695040888963407ull) {} uint64_t next(uint64_t n) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % n; } };
std::vector<int> perm(int n, uint64_t seed) { std::vector<int> q(n); for (int i = 0; i < n; ++i) q[i] = i; if (!seed) return q; Lcg g(seed); for (int i = n - 1; i > 0; --i) std::swap(q[i], q[g.next(i + 1)]); return q; }
std::vector<LD> reactions(const ref::World &w, const Real &r, size_t firstCon) { std::vector<LD> o; for (size_t q = 0; q < w.cons.size(); ++q) for (int row = 0; row < ref::rowsOf(w.cons[q].kind); ++row) for (int k = 0; k < 2; ++k) { Constraint *x = r.c[firstCon + q]; bool h = k < ref::bodiesOf(w.cons[q].kind); o.push_back(h ? x->F_x[row][k] : 0); o.push_back(h ? x->F_y[row][k] : 0); o.push_back(h ? x->F_t[row][k] : 0); } return o; }

void many(Case &c, bool gen, int sol, int sch, double beta, const Opt &base) {
    Source &s = c.s; int T = s.range(1, 5); std::vector<ref::World> tw; std::vector<Real *> tr; std::vector<Sys *> ty; double g = s.chance(1, 3) ? 0 : s.chance(1, 2) ? 9.81 : s.sym(12);
    for (int i = 0; i < T; ++i) { Opt o = base; o.gravity = false; o.minBodies = 1; o.maxBodies = 3; o.maxCons = 4; o.maxForces = 2; ref::World w = genWorld(c, o); c.note("mechanism %d:", i); describe(c, w); labelWorld(c, w); ref::FSpec f; f.kind = ref::FGravity; f.p[0] = g; w.forces.push_back(f); tw.push_back(w); tr.push_back(new Real(w)); ty.push_back(new Sys(gen, sol, sch, beta)); tr[i]->registerAll(*ty[i]->s, w); }
    int rowCap = sol == GE ? 330 : sol == CG ? 600 : 160, copies = s.chance(1, 3) ? s.range(1, 20) : s.range(20, 300); int rows = 0, bodies = 0; ref::World big; std::vector<int> type, fb, fc; int ns = 0;
    for (int k = 0; k < copies; ++k) { int t = k < T ? k : (int)s.draw(T); if (rows + tw[t].rows() > rowCap) break; rows += tw[t].rows(); type.push_back(t); fb.push_back((int)big.bodies.size()); fc.push_back((int)big.cons.size()); int off = (int)big.bodies.size(); for (auto &b : tw[t].bodies) big.bodies.push_back(b);
        for (auto q : tw[t].cons) { for (int i = 0; i < 2; ++i) if (q.b[i] >= 0) q.b[i] += off; big.cons.push_back(q); } for (auto f : tw[t].forces) { if (f.kind == ref::FGravity) continue; for (int i = 0; i < 2; ++i) if (f.b[i] >= 0) f.b[i] += off; big.forces.push_back(f); } ns += tw[t].nreg(); }
    { ref::FSpec f; f.kind = ref::FGravity; f.p[0] = g; big.forces.push_back(f); }
    static const int PAD[] = { 0, 100, 260, 300, 600, 1100 }; int pads = s.chance(1, 3) ? s.range(0, 300) : s.pick(PAD); bool huge = s.chance(1, 60); if (huge) { pads = s.chance(1, 2) ? 33000 : 66000; c.label("tens_of_thousands_of_bodies"); }
    // where the mechanisms' bodies stand among all bodies
    int N = ns + pads; std::vector<int> own; std::vector<char> taken(N, 0); int style = s.range(0, 3); uint64_t seed = s.draw(1000000), seedC = s.draw(1000000), seedF = s.draw(1000000); Lcg lc(seed + 17); static const int MARK[] = { 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 32766, 32767, 32768, 65535, 65536 };
    auto take = [&](int p) { while (taken[p]) p = (p + 1) % N; taken[p] = 1; own.push_back(p); };
    for (int i = 0; i < ns; ++i) { if (style == 0) take((int)lc.next(N)); else if (style == 1) take(N - 1 - i); else if (style == 2) { int m = MARK[lc.next(17)]; take(m < N ? m : (int)lc.next(N)); } else take(i); }
    own = [&] { std::vector<int> o; for (int i : perm(ns, seed)) o.push_back(own[i]); return o; }();
    Real br(big); Sys by(gen, sol, sch, beta); std::vector<RigidBody *> slots(N, nullptr), padv; { int j = 0; for (size_t i = 0; i < big.bodies.size(); ++i) if (big.bodies[i].reg) slots[own[j++]] = br.b[i]; } for (auto *&x : slots) if (!x) { x = new RigidBody; x->m = 1 + padv.size() % 3; x->I = 2; x->v_x = (double)(padv.size() % 7); x->v_y = (double)(padv.size() % 5); x->p_x = (double)padv.size(); padv.push_back(x); }
    for (auto *x : slots) by.s->addRigidBody(x); for (int i : perm((int)br.c.size(), seedC)) by.s->addConstraint(br.c[i]); for (int i : perm((int)br.f.size(), seedF)) by.s->addForceGenerator(br.f[i]);
    c.note("%zu copies, %d bodies (%d free), %d rows, placement style %d, gravity %.9g", type.size(), N, pads, rows, style, g); c.label(N > 255 ? "more_than_255_bodies" : N > 100 ? "101_255_bodies" : "up_to_100_bodies"); c.label(rows > 255 ? "more_than_255_rows" : rows > 100 ? "101_255_rows" : "up_to_100_rows");
    int frames = rows > 150 || huge ? s.range(1, 2) : s.range(1, 4); bool nt = false;
    for (int f = 0; f < frames; ++f) {
        double dt = genDt(s); int steps = s.chance(1, 5) ? 2 : 1; ref::StepInfo m; bool bad = false;
        for (int t = 0; t < T; ++t) { ref::State st = stateOf(tw[t], *tr[t]); std::vector<LD> react; ref::StepInfo in; refFrame(tw[t], *ty[t], st, dt, steps, react, in); bad |= !usable(in, sol == GE ? 0.003 : 0.02) || in.amag * dt / steps > 100; m.mineig = std::min(m.mineig, in.mineig); m.amag = std::max(m.amag, in.amag); m.vmag = std::max(m.vmag, in.vmag); m.pmag = std::max(m.pmag, in.pmag); }
        if (bad) { c.label("stopped_outside_domain"); break; }
        c.note("frame dt=%.9g steps=%d", dt, steps); std::vector<double> pp; for (auto *x : padv) { pp.push_back(x->p_x); pp.push_back(x->v_x); pp.push_back(x->v_y); }
        for (int t = 0; t < T; ++t) ty[t]->s->process(dt, steps); by.s->process(dt, steps); nt |= N > 100 || rows > 100;
        double rel = 4 * relTol(sol, (double)m.mineig); if (sol == CG) rel *= std::sqrt((double)std::max(rows, 1)); 
        for (size_t k = 0; k < type.size(); ++k) { const ref::World &w = tw[type[k]]; const Real &r = *tr[type[k]]; Tol t = tolFor(w, m, rel, dt); if (sol != GE) { double M = 0, I = 1e9; for (auto &q : big.bodies) if (q.reg) { M = std::max(M, std::max(q.m, q.I)); I = std::min(I, std::min(q.m, q.I)); } t.v *= std::sqrt(M / I); t.p *= std::sqrt(M / I); t.f = t.f * M; }
            double tf = t.f + rel * (1 + (gen ? 0 : steps / dt)) * (1 + (double)m.vmag + (double)m.amag * dt) * 8; 
            for (size_t i = 0; i < w.bodies.size(); ++i) { if (!w.bodies[i].reg) continue; RigidBody *a = br.b[fb[k] + i], *b = r.b[i]; double A[] = { a->p_x, a->p_y, a->theta, a->v_x, a->v_y, a->v_theta }, B[] = { b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta }; static const char *const N6[] = { "p_x", "p_y", "theta", "v_x", "v_y", "v_theta" }; for (int d = 0; d < 6; ++d) pbt::near(c, d < 3 ? "position" : "velocity", A[d], B[d], d < 3 ? t.p : t.v, "copy %zu of mechanism %d (body index %d of %d): %s of body %zu against the mechanism alone, frame %d", k, type[k], a->index, N, N6[d], i, f); }
            std::vector<LD> ra = reactions(w, br, fc[k]), rb = reactions(w, r, 0); for (size_t q = 0; q < ra.size(); ++q) pbt::near(c, "reaction", (double)ra[q], (double)rb[q], tf, "copy %zu of mechanism %d: reaction value %zu against the mechanism alone, frame %d", k, type[k], q, f); }
        for (size_t i = 0; i < padv.size(); ++i) { RigidBody *x = padv[i]; pbt::near(c, "free_body", x->p_x, pp[3 * i] + dt * pp[3 * i + 1], 1e-12 * (1 + std::fabs(x->p_x)), "free body %zu p_x", i); pbt::near(c, "free_body", x->v_x, pp[3 * i + 1], 1e-12 * 10, "free body %zu v_x", i); pbt::near(c, "free_body", x->v_y, pp[3 * i + 2] - g * dt, 1e-12 * (20 + std::fabs(x->v_y)), "free body %zu v_y", i); REQUIRE(x->v_theta == 0 && x->theta == 0, "free body %zu turns", i); }
        for (size_t k = 0; k < type.size(); ++k) for (size_t i = 0; i < tw[type[k]].bodies.size(); ++i) { RigidBody *a = br.b[fb[k] + i], *b = tr[type[k]]->b[i]; a->p_x = b->p_x; a->p_y = b->p_y; a->theta = b->theta; a->v_x = b->v_x; a->v_y = b->v_y; a->v_theta = b->v_theta; }
    }
    if (nt) c.nontrivial(); by.destroy(); br.destroy(); for (auto *x : padv) delete x; for (int i = 0; i < T; ++i) { ty[i]->destroy(); delete ty[i]; tr[i]->destroy(); delete tr[i]; }
}
void history(Case &c, bool gen, int sol, int sch, double beta, Opt o) {
    Source &s = c.s; o.maxBodies = 3; o.maxCons = 3; o.maxForces = 3; o.vel = 2; o.springKs = 20; o.minEig = std::max(o.minEig, 0.1); ref::World w = genWorld(c, o); describe(c, w); labelWorld(c, w); Real r(w); Sys y(gen, sol, sch, beta); r.registerAll(*y.s, w); int frames = s.chance(1, 3) ? s.range(590, 610) : s.range(600, 1400), done = 0, compared = 0, next = s.range(1, 40); double dt = s.logreal(3e-4, 4e-3); c.note("history of %d frames of %.9g", frames, dt);
    for (int f = 0; f < frames; ++f) {
        // near the profiling history's end and at random places: a new system takes over the same state for one frame
        bool cmp = f == next || (f >= 597 && f <= 603) || f == frames - 1; if (!cmp) { if (sol != GE) { ref::World v = w; pullWorld(v, r); ref::State st = ref::initial(v); std::vector<LD> react; ref::StepInfo info; refFrame(v, y, st, dt, 1, react, info); if (!usable(info, 0.02) || info.amag * dt > 100) { c.label("stopped_outside_domain"); break; } } y.s->process(dt); ++done; bool ok = true; for (auto *b : r.b) ok &= std::fabs(b->v_x) < 200 && std::fabs(b->v_y) < 200 && std::fabs(b->v_theta) < 200; if (!ok) { c.label("stopped_outside_domain"); break; } if (f % 16 == 0 && sol == GE) { ref::World v = w; pullWorld(v, r); if (ref::minEig(ref::gram(v, ref::rowsFor(v, ref::initial(v)))) < 0.03) { c.label("stopped_singular"); break; } } continue; }
        if (f == next) next += s.range(20, 200); ref::World v = w; pullWorld(v, r); ref::State st = ref::initial(v); std::vector<LD> react; ref::StepInfo info; refFrame(v, y, st, dt, 1, react, info); if (!usable(info, 0.02) || info.amag * dt > 100) { c.label("stopped_outside_domain"); break; }
        Real fr(v); Sys fy(gen, sol, sch, beta); fr.registerAll(*fy.s, v); fy.s->process(dt); y.s->process(dt); ++done; ++compared; double rel = 4 * relTol(sol, (double)info.mineig); Tol t = tolFor(v, info, rel, dt); char what[64]; snprintf(what, sizeof what, "frame %d against a new system", f); requireBodies(c, what, v, r, stateOf(v, fr), t);
        std::vector<LD> ra = reactions(v, r, 0), rb = reactions(v, fr, 0); for (size_t q = 0; q < ra.size(); ++q) pbt::near(c, "reaction", (double)ra[q], (double)rb[q], t.f + rel * (1 + (gen ? 0 : 1 / dt)) * (1 + (double)info.vmag + (double)info.amag * dt) * 8, "%s: reaction value %zu", what, q); fy.destroy(); fr.destroy();
    }
    if (done > 600) { c.label("more_than_600_frames"); if (w.rows() || !w.forces.empty()) c.nontrivial(); } y.destroy(); r.destroy();
}
}
void run_case(Case &c) {
    Source &s = c.s; bool gen = s.chance(1, 2); int sol = s.range(0, 2), sch = gen ? s.range(0, 2) : 1; double beta = s.chance(1, 2) ? 1 : s.uniform(0, 2); Opt o; o.large = false; o.minEig = sol == GE ? 0.05 : 0.1; o.limits = s.chance(1, 4); o.neutral = o.limits; o.motorKd = false; o.bigAngles = false; bool hist = s.chance(1, 4);
    c.label(hist ? "history" : "many"); c.label(std::string(gen ? "general/" : "velocity-level/") + SNAME[sol] + (gen ? std::string("/") + ONAME[sch] : "")); c.note("%s %s %s beta=%.9g", gen ? "general" : "velocity-level", SNAME[sol], ONAME[sch], beta); if (hist) history(c, gen, sol, sch, beta, o); else many(c, gen, sol, sch, beta, o);
}
