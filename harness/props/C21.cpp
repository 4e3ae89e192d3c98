// Metamorphic relations between two runs: frame of reference, registration order, link orientation, unrelated bodies, unit of mass.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C21";
const char *PROPERTY_RULE = "a random scene and its image under any combination of a rotation, a translation, new registration orders, swapped link ends, added bodies/constraints/generators that do not interact with it and a new unit of mass, both processed for several frames (re-aligned after each frame, or left alone with the direct solver); bodies and reported reactions must correspond; non-trivial = at least one frame with a constraint or force under at least one transformation";
extern const long QUICK_CASES = 120000, THOROUGH_CASES = 1500000;
namespace {
struct T {
    double a = 0, tx = 0, ty = 0, k = 1; bool rot = false, trans = false, perm = false, swap = false, extra = false, mass = false;
    void point(LD &x, LD &y) const { if (rot) { LD u = std::cos((LD)a) * x - std::sin((LD)a) * y; y = std::sin((LD)a) * x + std::cos((LD)a) * y; x = u; } if (trans) { x += tx; y += ty; } }
    void dir(LD &x, LD &y) const { if (rot) { LD u = std::cos((LD)a) * x - std::sin((LD)a) * y; y = std::sin((LD)a) * x + std::cos((LD)a) * y; x = u; } }
    void point(double &x, double &y) const { LD X = x, Y = y; point(X, Y); x = (double)X; y = (double)Y; }
    void dir(double &x, double &y) const { LD X = x, Y = y; dir(X, Y); x = (double)X; y = (double)Y; }
    void body(ref::BSpec &b) const { point(b.x, b.y); dir(b.vx, b.vy); if (rot) b.th += a; if (mass) { b.m *= k; b.I *= k; } }
};
}
void run_case(Case &c) {
    Source &s = c.s; T t; Opt o; o.maxBodies = 5; o.limits = s.chance(1, 3); o.neutral = o.limits; int which = s.range(0, 5);
    bool *fl[] = { &t.rot, &t.trans, &t.perm, &t.swap, &t.extra, &t.mass }; *fl[which] = true; for (bool *f : fl) if (s.chance(1, 4)) *f = true;
    static const double ANG[] = { 1.5707963267948966, 3.141592653589793, -1.5707963267948966, 6.283185307179586 };
    if (t.rot) t.a = s.chance(1, 4) ? s.pick(ANG) : s.real(-7, 7); if (t.trans) { double far = s.chance(1, 4) ? 200 : 10; t.tx = s.sym(far); t.ty = s.sym(far); } if (t.mass) t.k = s.chance(1, 3) ? (s.chance(1, 2) ? 4 : 0.125) : s.logreal(0.05, 20);
    o.field = !t.rot && !t.trans; bool gen = s.chance(1, 2); int sol = s.range(0, 2), sch = gen ? s.range(0, 2) : 1; double beta = s.chance(1, 2) ? 1 : s.uniform(0, 2); if (sol != GE) o.minEig = 0.05;
    if (t.mass && sol == GE && s.chance(1, 4)) { t.k = s.logreal(1e-9, 1e9); c.label("extreme_mass_unit"); }
    widen(c, o, sol, false);
    if (which == 3 && s.chance(1, 2)) { o.kinds = 1u << ref::Link | 1u << ref::FixPos | 1u << ref::Gear; o.minBodies = 2; }
    ref::World w = genWorld(c, o);
    if (t.rot) for (auto &q : w.cons) {                                                   // limits and gains per world axis have no meaning in another frame
        if (q.kind == ref::Link) { q.lo = -DBL_MAX; q.hi = DBL_MAX; }
        if (q.kind == ref::UWeld || q.kind == ref::UPin) { q.uks[1] = q.uks[0]; q.ukd[1] = q.ukd[0]; for (int i = 0; i < 2; ++i) { q.ulo[i] = -DBL_MAX; q.uhi[i] = DBL_MAX; } }
    }
    // the image
    ref::World v; int nb = (int)w.bodies.size(); v.bodies = w.bodies; for (auto &b : v.bodies) t.body(b);
    for (auto q : w.cons) { double *p = q.p;
        switch (q.kind) {
        case ref::FixPos: case ref::UPin: t.point(p[2], p[3]); if (q.kind == ref::UPin && t.rot) p[4] += t.a; break;
        case ref::FixRot: if (t.rot) p[0] += t.a; break;
        case ref::Line: t.point(p[2], p[3]); t.dir(p[4], p[5]); break;
        case ref::Link: if (t.swap && s.chance(3, 4)) { std::swap(q.b[0], q.b[1]); std::swap(p[0], p[2]); std::swap(p[1], p[3]); c.label("link_swapped"); } break;
        }
        if (q.kind == ref::UPin || q.kind == ref::UWeld) t.dir(q.ubias[0], q.ubias[1]);
        if (t.mass) { auto sc = [&](double &x) { if (std::fabs(x) < DBL_MAX) x *= t.k; }; sc(q.lo); sc(q.hi); for (int i = 0; i < 3; ++i) { sc(q.ulo[i]); sc(q.uhi[i]); } }
        v.cons.push_back(q); }
    std::vector<ref::FSpec> scaled;
    for (auto f : w.forces) { double *p = f.p; double k = t.mass ? t.k : 1;
        switch (f.kind) {
        case ref::FGravity: if (t.rot) { for (int i = 0; i < nb; ++i) if (w.bodies[i].reg) { ref::FSpec g; g.kind = ref::FStatic; g.b[0] = i; g.p[3] = -v.bodies[i].m * p[0]; t.dir(g.p[2], g.p[3]); v.forces.push_back(g); } continue; } break;
        case ref::FStatic: t.dir(p[2], p[3]); p[2] *= k; p[3] *= k; break;
        case ref::FSpring: p[5] *= k; p[6] *= k; break;
        case ref::FMotor: p[0] *= k; p[1] *= k; p[2] *= k; break;
        default: p[0] *= k; p[1] *= k; p[2] *= k; p[4] *= k; p[5] *= k; p[6] *= k; break;
        }
        v.forces.push_back(f); }
    if (t.extra) {
        Opt q; q.maxBodies = 4; q.minEig = o.minEig; q.limits = o.limits; q.maxCons = 5; if (s.chance(1, 6)) { q.maxBodies = 8; q.maxCons = 10; } ref::World x = genWorld(c, q); std::vector<int> map, anchors; for (int i = 0; i < nb; ++i) if (!w.bodies[i].reg) anchors.push_back(i);
        for (auto &b : x.bodies) { if (!b.reg && !anchors.empty() && s.chance(1, 2)) { map.push_back(s.pick(anchors)); c.label("shared_anchor"); } else { map.push_back((int)v.bodies.size()); v.bodies.push_back(b); } }
        for (auto k : x.cons) { for (int i = 0; i < 2; ++i) if (k.b[i] >= 0) k.b[i] = map[k.b[i]]; v.cons.push_back(k); }
        for (auto f : x.forces) { if (f.kind == ref::FGravity) continue; for (int i = 0; i < 2; ++i) if (f.b[i] >= 0) f.b[i] = map[f.b[i]]; v.forces.push_back(f); }
    }
    auto order = [&](size_t n) { std::vector<int> r; for (size_t i = 0; i < n; ++i) r.push_back((int)i); if (t.perm || t.extra) for (int i = (int)n - 1; i > 0; --i) std::swap(r[i], r[s.draw(i + 1)]); return r; };
    Sys ya(gen, sol, sch, beta), yb(gen, sol, sch, beta); Real ra(w), rb(v); ra.registerAll(*ya.s, w);
    std::vector<int> ob = order(v.bodies.size()), oc = order(v.cons.size()), of = order(v.forces.size());
    if (t.extra && !t.perm) { auto keep = [](std::vector<int> &r, int n) { std::vector<int> own; for (int i : r) if (i < n) own.push_back(i); std::sort(own.begin(), own.end()); size_t j = 0; for (int &i : r) if (i < n) i = own[j++]; }; keep(ob, nb); keep(oc, (int)w.cons.size()); }
    for (int i : ob) if (v.bodies[i].reg) yb.s->addRigidBody(rb.b[i]); for (int i : oc) yb.s->addConstraint(rb.c[i]); for (int i : of) yb.s->addForceGenerator(rb.f[i]);
    describe(c, w); labelWorld(c, w); c.note("%s beta=%.9g", ya.name().c_str(), beta); c.label(ya.name()); c.note("image: rotation %.17g translation (%.17g,%.17g) mass unit %.17g, permuted=%d link swap=%d extra=%d", t.a, t.tx, t.ty, t.k, t.perm, t.swap, t.extra); if (t.perm || t.extra) { std::string q; for (int i : ob) q += " " + std::to_string(i); q += " |"; for (int i : oc) q += " " + std::to_string(i); c.note("registration order:%s", q.c_str()); } if (c.verbose && t.extra) { c.note("image scene:"); describe(c, v); }
    static const char *const NM[] = { "rotation", "translation", "permutation", "link_swap", "extra", "mass_unit" }; for (int i = 0; i < 6; ++i) if (*fl[i]) c.label(NM[i]);
    bool free = sol == GE && s.chance(1, 3); int frames = s.range(1, 5); double slack = 0; bool nt = false;
    for (int f = 0; f < frames; ++f) {
        double dt = genDt(s); int steps = s.chance(1, 5) ? 2 : 1; if (free) dt = std::min(dt, 0.03);
        ref::State sa = stateOf(w, ra), sb = stateOf(v, rb); std::vector<LD> fa, fb; ref::StepInfo ia, ib; refFrame(w, ya, sa, dt, steps, fa, ia); refFrame(v, yb, sb, dt, steps, fb, ib);
        double e = sol == GE ? 0.003 : 0.01; if (!usable(ia, e) || !usable(ib, e) || std::max(ia.amag, ib.amag) * dt / steps > 100) { c.label("stopped_outside_domain"); break; }
        c.note("frame dt=%.9g steps=%d", dt, steps); ya.s->process(dt, steps); yb.s->process(dt, steps);
        ref::StepInfo m = ia; m.amag = std::max(ia.amag, ib.amag); m.vmag = std::max(ia.vmag, ib.vmag); m.pmag = std::max(ia.pmag, ib.pmag); m.err = ia.err + ib.err; m.erra = ia.erra + ib.erra; double mineig = (double)std::min(ia.mineig, ib.mineig);
        double rel = relTol(sol, mineig) * (1 + (t.trans ? (std::fabs(t.tx) + std::fabs(t.ty)) / 10 : 0)); if (sol != GE) rel *= 4; if (free) { slack = slack * 8 + rel; rel = slack * (1 + 40 / mineig * 0.01); if (rel > 1e-4) { c.label("stopped_growth"); break; } }
        Tol tol = tolFor(w, m, rel, dt); double M = 0; for (auto &b : w.bodies) if (b.reg) M = std::max(M, std::max(b.m, b.I)); for (auto &b : v.bodies) if (b.reg) M = std::max(M, std::max(b.m, b.I) / (t.mass ? std::min(t.k, 1.0) : 1)); double tf = rel * M * (double)(m.amag + m.vmag + (gen ? 0 : steps / dt) * (m.vmag + m.amag * dt + 1) * 1.0 + 1) + M * (double)m.erra;
        for (int i = 0; i < nb; ++i) { if (!w.bodies[i].reg) continue; RigidBody *x = ra.b[i], *y = rb.b[i]; LD px = x->p_x, py = x->p_y, vx = x->v_x, vy = x->v_y; t.point(px, py); t.dir(vx, vy);
            pbt::near(c, "position", y->p_x, (double)px, tol.p, "body %d p_x after frame %d", i, f); pbt::near(c, "position", y->p_y, (double)py, tol.p, "body %d p_y after frame %d", i, f); pbt::near(c, "position", y->theta, x->theta + (t.rot ? t.a : 0), tol.p, "body %d theta after frame %d", i, f);
            pbt::near(c, "velocity", y->v_x, (double)vx, tol.v, "body %d v_x after frame %d", i, f); pbt::near(c, "velocity", y->v_y, (double)vy, tol.v, "body %d v_y after frame %d", i, f); pbt::near(c, "velocity", y->v_theta, x->v_theta, tol.v, "body %d v_theta after frame %d", i, f); }
        double k = t.mass ? t.k : 1;
        for (size_t j = 0; j < ra.c.size(); ++j) { int kind = w.cons[j].kind, rows = ref::rowsOf(kind); bool swapped = v.cons[j].b[0] != w.cons[j].b[0]; bool joint = t.rot && (kind == ref::FixPos || kind == ref::Link || kind == ref::UWeld || kind == ref::UPin);
            for (int b = 0; b < ref::bodiesOf(kind); ++b) { int b2 = swapped ? 1 - b : b;
                for (int row = 0; row < rows; ++row) { LD A[3] = { ra.c[j]->F_x[row][b], ra.c[j]->F_y[row][b], ra.c[j]->F_t[row][b] }, B[3] = { rb.c[j]->F_x[row][b2], rb.c[j]->F_y[row][b2], rb.c[j]->F_t[row][b2] };
                    if (joint && row < 2) { if (row == 1) continue; A[0] += ra.c[j]->F_x[1][b]; A[1] += ra.c[j]->F_y[1][b]; A[2] += ra.c[j]->F_t[1][b]; B[0] += rb.c[j]->F_x[1][b2]; B[1] += rb.c[j]->F_y[1][b2]; B[2] += rb.c[j]->F_t[1][b2]; }
                    t.dir(A[0], A[1]); static const char *const N[] = { "F_x", "F_y", "F_t" };
                    for (int d = 0; d < 3; ++d) pbt::near(c, "reaction", (double)(B[d] / k), (double)A[d], tf, "constraint %zu (%s) row %d body %d %s%s after frame %d", j, ref::CNAME[kind], row, b, N[d], k != 1 ? " divided by the mass unit" : "", f); } } }
        nt |= w.rows() || !w.forces.empty();
        if (!free) { for (int i = 0; i < nb; ++i) { ref::BSpec b = w.bodies[i]; RigidBody *x = ra.b[i]; b.x = x->p_x; b.y = x->p_y; b.th = x->theta; b.vx = x->v_x; b.vy = x->v_y; b.w = x->v_theta; t.body(b); if (w.bodies[i].reg) rb.setBody(i, b); } }
        else c.label("frame_left_alone");
    }
    if (nt) c.nontrivial(); ra.destroy(); rb.destroy(); ya.destroy(); yb.destroy();
}
