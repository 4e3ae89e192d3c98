// Conservation laws of closed scenes, and dissipation by passive constraints.
#include "scene.h"
using namespace scene;
const char *PROPERTY_ID = "C20";
const char *PROPERTY_RULE = "either a closed scene (bodies joined by springs, motors, links, rolling contacts, clutches, gears and user constraints, nothing attached to the world) whose linear and angular momentum are followed over several frames, or a scene of passive constraints without forces in the velocity-level system whose kinetic energy is followed; non-trivial = at least one interaction acted and the bodies moved";
extern const long QUICK_CASES = 120000, THOROUGH_CASES = 3000000;
namespace {
struct Sum { LD px = 0, py = 0, L = 0, ke = 0, magp = 0, magl = 0, far = 0; };
Sum sums(const Real &r) { Sum q; for (auto *b : r.b) { q.px += (LD)b->m * b->v_x; q.py += (LD)b->m * b->v_y; q.L += (LD)b->m * ((LD)b->p_x * b->v_y - (LD)b->p_y * b->v_x) + (LD)b->I * b->v_theta; q.ke += 0.5L * b->m * ((LD)b->v_x * b->v_x + (LD)b->v_y * b->v_y) + 0.5L * b->I * b->v_theta * b->v_theta;
    q.magp += b->m * (std::fabs((LD)b->v_x) + std::fabs((LD)b->v_y)); q.magl += b->m * (std::fabs((LD)b->p_x * b->v_y) + std::fabs((LD)b->p_y * b->v_x)) + b->I * std::fabs((LD)b->v_theta); q.far = std::max(q.far, std::fabs((LD)b->p_x) + std::fabs((LD)b->p_y)); } return q; }
}
void run_case(Case &c) {
    Source &s = c.s; bool energy = s.chance(2, 5); Opt o; o.minBodies = energy ? 1 : 2; o.maxBodies = 5; o.maxCons = 6; o.minEig = 0.02; bool angular = !energy && s.chance(2, 3);
    if (energy) { o.maxForces = 0; o.bias = false; o.limits = s.chance(1, 2); o.neutral = o.limits; }
    else { o.statics = false; o.attachments = false; o.gravity = o.external = o.field = false; o.maxForces = 5; o.limits = s.chance(1, 3); o.neutral = true; if (angular) { o.springKd = 0; o.assembled = s.chance(1, 2); o.kinds &= ~(1u << ref::Gear) | (s.chance(1, 2) ? 1u << ref::Gear : 0); } if (s.chance(1, 3)) o.maxCons = 0; }
    ref::World w = genWorld(c, o);
    if (angular) for (auto &k : w.cons) if (k.kind == ref::Gear) k.p[0] = 1;
    for (auto &k : w.cons) { for (double &x : k.ubias) if (energy) x = 0; if (energy && o.limits) {                     // limits that admit zero
        if (k.lo > 0) k.lo = 0; if (k.hi < 0) k.hi = 0; for (int i = 0; i < 3; ++i) { if (k.ulo[i] > 0) k.ulo[i] = 0; if (k.uhi[i] < 0) k.uhi[i] = 0; } } }
    if (angular && !w.cons.empty() && ref::minEig(ref::gram(w, ref::rowsFor(w, ref::initial(w)))) < 0.01) { c.label("dependent_after_unit_ratio"); return; }
    bool gen = !energy && s.chance(1, 2); int sol = s.range(0, 2), sch = gen ? s.range(0, 2) : 1; double beta = energy ? 0 : s.chance(1, 2) ? 1 : s.uniform(0, 2); Sys y(gen, sol, sch, beta); if (!energy && o.limits && !y.limited()) {}
    describe(c, w); labelWorld(c, w); c.note("%s beta=%.9g", y.name().c_str(), beta); c.label(y.name()); c.label(energy ? "energy" : angular ? "angular_momentum" : "linear_momentum"); if (energy && y.limited() && o.limits) c.label("energy_with_limits");
    bool linky = false; for (auto &k : w.cons) linky |= k.kind == ref::Link || k.kind == ref::UWeld; Real r(w); r.registerAll(*y.s, w); int frames = s.range(1, energy ? 12 : 5); bool nt = false;
    for (int f = 0; f < frames; ++f) {
        double dt = genDt(s); int steps = (angular && (linky || (gen && sch == ref::Euler))) ? 1 : genSteps(s, 4);
        ref::State st = stateOf(w, r); std::vector<LD> react; ref::StepInfo info; std::vector<ref::Row> rows = ref::rowsFor(w, st); Sum a = sums(r); std::vector<double> pv; for (auto *b : r.b) { pv.push_back(b->p_x); pv.push_back(b->p_y); pv.push_back(b->v_x); pv.push_back(b->v_y); }
        refFrame(w, y, st, dt, steps, react, info); double e = sol == GE ? 0.003 : 0.008; if (!usable(info, e) || info.amag * dt / steps > 200) { c.label("stopped_outside_domain"); break; }
        c.note("frame dt=%.9g steps=%d", dt, steps); y.s->process(dt, steps); Sum b = sums(r);
        for (size_t i = 0; i < r.b.size(); ++i) { RigidBody *x = r.b[i]; LD ke = 0.5L * x->m * ((LD)x->v_x * x->v_x + (LD)x->v_y * x->v_y) + 0.5L * x->I * x->v_theta * x->v_theta; pbt::near(c, "body_energy", x->energy(), (double)ke, 1e-13 * (double)ke + 1e-300, "energy of body %zu", i); }
        LD M = 0; for (auto *x : r.b) M += std::max(x->m, x->I); LD F = M * info.amag * dt;
        if (energy) {
            // anchors carry no kinetic energy: only registered bodies count
            LD k0 = 0, k1 = 0; for (size_t i = 0; i < r.b.size(); ++i) if (w.bodies[i].reg) { RigidBody *x = r.b[i]; k0 += 0.5L * x->m * (pv[4 * i + 2] * pv[4 * i + 2] + pv[4 * i + 3] * pv[4 * i + 3]); k1 += x->energy(); (void)x; }
            static thread_local std::vector<double> om; LD r0 = 0; for (size_t i = 0; i < r.b.size(); ++i) if (w.bodies[i].reg) r0 += 0.5L * w.bodies[i].I * (LD)w.bodies[i].w * w.bodies[i].w; k0 += r0;
            double tol = (double)((k0 + 1e-3L) * (sol == GE ? 1e-10L : 1e-6L) / info.mineig); REQUIRE(k1 <= k0 + tol, "kinetic energy grew from %.17Lg to %.17Lg (allowed %.3g) although no force acts", k0, k1, tol); if (k0 > 0 && k1 > k0) c.ratio("energy_growth", (double)((k1 - k0) / tol));
            pullWorld(w, r); nt |= !w.cons.empty() && k0 > 0;
        } else {
            double tp = (double)(1e-12L * (a.magp + b.magp + F) + 1e-14L); pbt::near(c, "linear_momentum", (double)b.px, (double)a.px, tp, "total momentum along x after frame %d", f); pbt::near(c, "linear_momentum", (double)b.py, (double)a.py, tp, "total momentum along y after frame %d", f); nt |= (!w.cons.empty() || !w.forces.empty()) && a.magp > 0;
            if (angular) {
                LD reach = a.far + b.far + 6 + (LD)info.vmag * dt, tl = 1e-12L * (a.magl + b.magl + F * reach + (LD)info.vmag * dt * (a.magp + F)) + 1e-14L, expect = a.L; const char *what = "total angular momentum";
                if (gen && sch == ref::Euler) { for (size_t i = 0; i < r.b.size(); ++i) expect += (LD)dt * r.b[i]->m * ((LD)pv[4 * i + 2] * (r.b[i]->v_y - (LD)pv[4 * i + 3]) - (LD)pv[4 * i + 3] * (r.b[i]->v_x - (LD)pv[4 * i + 2])); what = "total angular momentum (explicit Euler's own drift dt*sum m v x dv allowed for)"; }
                if (gen && sch == ref::Rk4) { expect = 0; for (size_t i = 0; i < r.b.size(); ++i) expect += (LD)r.b[i]->m * (st.q[3 * i] * st.v[3 * i + 1] - st.q[3 * i + 1] * st.v[3 * i]) + (LD)r.b[i]->I * st.v[3 * i + 2]; LD drift = expect - a.L; what = "total angular momentum (RK4's own discretisation drift allowed for)"; tl += (LD)relTol(sol, (double)info.mineig) * (a.magl + b.magl + F * reach + (LD)info.vmag * dt * (a.magp + F) + 1); (void)drift; }
                else if (linky) { size_t j = 0; for (size_t k = 0; k < w.cons.size(); ++k) { const ref::CSpec &q = w.cons[k]; if (q.kind == ref::Link || q.kind == ref::UWeld) { LD cx = rows[j].C, cy = rows[j + 1].C, fx = 0, fy = 0; for (int row = 0; row < ref::rowsOf(q.kind); ++row) { fx += r.c[k]->F_x[row][0]; fy += r.c[k]->F_y[row][0]; } expect += (LD)dt * (cx * fy - cy * fx); what = "total angular momentum (the moment of the links' forces over their separations allowed for)"; tl += 1e-9L * dt * (std::fabs(cx * fy) + std::fabs(cy * fx)); } j += ref::rowsOf(q.kind); } }
                pbt::near(c, "angular_momentum", (double)b.L, (double)expect, (double)tl, "%s after frame %d", what, f);
            }
        }
    }
    if (nt) c.nontrivial();
    r.destroy(); y.destroy();
}
