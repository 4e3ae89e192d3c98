// Constraint error after every velocity-level step against the error before it, over short and long runs.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C22";
const char *PROPERTY_RULE = "random mechanism (assembled or pulled apart) with forces in the velocity-level system with unlimited reactions, any solver, step length and bias factor (both may change during the run), bodies sometimes displaced between frames, runs of up to hundreds (quick) or thousands (thorough) of frames; after every step each fixed-position, link, line and fixed-rotation error is recomputed from the poses and compared with (1 - biasFactor) times the previous one; non-trivial = at least one such constraint and one frame";
extern const long QUICK_CASES = 80000, THOROUGH_CASES = 600000;
namespace {
bool covered(int k) { return k == ref::FixPos || k == ref::Link || k == ref::Line || k == ref::FixRot; }
void errorOf(const ref::CSpec &k, const Real &r, LD *C) { ref::HD q[6], h[3]; for (int i = 0; i < ref::bodiesOf(k.kind); ++i) { RigidBody *b = r.b[k.b[i]]; q[3 * i] = b->p_x; q[3 * i + 1] = b->p_y; q[3 * i + 2] = b->theta; } ref::conError(k, q, h); C[0] = h[0].f; C[1] = h[1].f; }
}
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.maxBodies = 5; o.maxCons = 6; o.motorKd = false; bool lng = s.chance(1, 60); int sol = s.weighted({ 4, 1, 1 }); if (lng) { sol = 0; o.minEig = 0.1; o.kinds = s.chance(1, 2) ? 1u << ref::FixPos | 1u << ref::Link | 1u << ref::FixRot : ~0u; o.maxForces = 6; o.vel = 2; o.springKs = 20; o.maxCons = 4; }
    else { o.minEig = 0.05; if (s.chance(1, 2)) o.kinds = 1u << ref::FixPos | 1u << ref::Link | 1u << ref::Line | 1u << ref::FixRot; }
    ref::World w = genWorld(c, o); double beta = lng ? (s.chance(1, 2) ? 1 : s.uniform(0.1, 1)) : genBeta(s);
    Sys y(false, sol, 1, beta); Real r(w); r.registerAll(*y.s, w); describe(c, w); labelWorld(c, w); c.label(y.name()); c.note("%s beta=%.9g", y.name().c_str(), beta);
    int frames = lng ? s.range(100, THOROUGH_CASES && s.chance(1, 8) ? 3000 : 400) : s.range(1, 25), done = 0; bool any = false; for (auto &k : w.cons) any |= covered(k.kind); double dt = lng ? s.logreal(1e-3, 0.03) : genDt(s); if (lng) c.label("long_run");
    for (int f = 0; f < frames; ++f) {
        if (!lng && s.chance(1, 6)) dt = genDt(s); if (!lng && s.chance(1, 8)) { beta = genBeta(s); y.o->m_biasFactor = y.beta = beta; c.note("biasFactor=%.9g", beta); }
        if (!lng && s.chance(1, 10)) { int i = s.range(0, (int)r.b.size() - 1); r.b[i]->p_x += s.sym(1); r.b[i]->p_y += s.sym(1); r.b[i]->theta += s.sym(1); c.note("body %d displaced to (%.9g,%.9g) %.9g", i, r.b[i]->p_x, r.b[i]->p_y, r.b[i]->theta); c.label("displaced"); }
        ref::State st = stateOf(w, r); std::vector<LD> react; ref::StepInfo info; refFrame(w, y, st, dt, 1, react, info); if (info.singular || info.ambiguous || info.mineig < (sol == GE ? 0.003 : 0.02) || info.vmag > 3000 || info.pmag > 1e3 || info.amag * dt > 3000) { c.label("stopped_outside_domain"); break; }
        std::vector<LD> before; for (auto &k : w.cons) { LD C[3]; errorOf(k, r, C); before.push_back(C[0]); before.push_back(C[1]); }
        c.note("frame dt=%.9g", dt); y.s->process(dt); ++done;
        double rel = relTol(sol, (double)info.mineig), len = 1; for (size_t j = 0; j < w.cons.size(); ++j) if (w.cons[j].kind == ref::Line) len = std::max(len, std::hypot(w.cons[j].p[4], w.cons[j].p[5]));
        for (size_t j = 0; j < w.cons.size(); ++j) { const ref::CSpec &k = w.cons[j]; if (!covered(k.kind)) continue; LD C[3]; errorOf(k, r, C); int rows = ref::rowsOf(k.kind); LD turn = 0, scale = k.kind == ref::Line ? std::hypot((LD)k.p[4], (LD)k.p[5]) : 1;
            if (k.kind != ref::FixRot) for (int i = 0; i < ref::bodiesOf(k.kind); ++i) if (w.bodies[k.b[i]].reg) { LD om = r.b[k.b[i]]->v_theta; turn += 0.5L * dt * dt * om * om * std::hypot((LD)k.p[2 * i], (LD)k.p[2 * i + 1]); }
            LD dx = C[0] - (1 - (LD)beta) * before[2 * j], dy = rows > 1 ? C[1] - (1 - (LD)beta) * before[2 * j + 1] : 0, arm = 4;
            double tol = (double)(scale * (arm * dt * rel * (info.vmag + info.amag * dt + 1) + 1e-13L * (info.pmag + 10 + info.amag * dt * dt + info.vmag * dt)));
            double got = (double)std::hypot(dx, dy), bound = (double)(turn * scale); pbt::near(c, "error_beyond_turning_term", std::max(0.0, got - bound), 0, tol, "%s constraint %zu, frame %d: error went from (%.9Lg,%.9Lg) to (%.9Lg,%.9Lg) with biasFactor %.9g, turning term %.9g", ref::CNAME[k.kind], j, f, before[2 * j], rows > 1 ? before[2 * j + 1] : 0, C[0], rows > 1 ? C[1] : 0, beta, bound); }
    }
    if (done >= 100) c.label("frames_100_plus"); if (done >= 1000) c.label("frames_1000_plus"); if (any && done) c.nontrivial();
    r.destroy(); y.destroy();
}
