// Force generators on hand-filled states: the law, superposition on arbitrary prior forces, and nothing else touched.
#include "unit.h"
using namespace unit;
const char *PROPERTY_ID = "C11";
const char *PROPERTY_RULE = "1-4 force generators (any kinds, anchors and null bodies included) applied in sequence to a state with arbitrary prior forces and arbitrary slots; every increment of every slot is compared with the reference law, everything else must be bitwise unchanged, and a spring's elastic force is compared with the gradient of its reported energy; masses from 1e-6 to 1e6 side by side; non-trivial = some generator contributed a force";
extern const long QUICK_CASES = 1000000, THOROUGH_CASES = 8000000;
void run_case(Case &c) {
    Source &s = c.s; Opt o; o.motorDefaults = true; o.pos = 4; o.vel = 5; ref::World w; int n = s.chance(1, 25) ? s.range(5, 24) : s.range(1, 4); if (n > 4) c.label("many_bodies"); if (s.chance(1, 8)) { int f = s.range(1, 15); if (f & 1) o.pos = s.logreal(10, 1e6); if (f & 2) o.angle = s.logreal(10, 1e6); if (f & 4) o.vel = s.logreal(10, 1e4); if (f & 8) { o.force = s.logreal(20, 1e6); o.g = s.logreal(10, 1e4); o.motorKs = s.logreal(20, 1e4); o.motorTorque = s.logreal(30, 1e5); o.motorSpeed = s.logreal(10, 1e4); o.springKs = s.logreal(60, 1e5); o.springKd = s.logreal(3, 1e3); } c.label("wide_ranges"); } if (s.chance(1, 10)) { o.massLo = 1e-6; o.massHi = 1e6; c.label("wide_masses"); }
    for (int i = 0; i < n; ++i) w.bodies.push_back(genBody(s, o));
    if (s.chance(1, 3)) { ref::BSpec a = genBody(s, o); a.reg = false; w.bodies.insert(w.bodies.begin() + s.range(0, (int)w.bodies.size()), a); }
    o.field = false; int nf = s.range(1, 4); bool nt = false;
    for (int i = 0; i < nf; ++i) { ref::FSpec f = genForce(s, o, w); if (f.kind == ref::FMotor && f.b[0] == f.b[1]) continue;
        if (s.chance(1, 20)) { if (f.kind == ref::FSpring) { for (int k = 4; k < 7; ++k) if (s.chance(1, 2)) f.p[k] = -f.p[k]; c.label("negative_coefficients"); } if (f.kind == ref::FMotor) { for (int k = 0; k < 2; ++k) if (s.chance(1, 2)) f.p[k] = -f.p[k]; c.label("negative_coefficients"); } }
        if (f.kind == ref::FSpring && f.b[0] != f.b[1] && s.chance(1, 6)) {                          // attachment points (nearly) coincide
            ref::BSpec &A = w.bodies[f.b[0]], &Bq = w.bodies[f.b[1]]; double x, y; worldPoint(A, f.p[0], f.p[1], &x, &y); double d = s.pick(std::vector<double>{ 0, 0.005, 0.0099, 0.0101, 0.02 }), an = s.uniform(-3, 3); localPoint(Bq, x + d * std::cos(an), y + d * std::sin(an), &f.p[2], &f.p[3]); c.label("spring_near_minimum_length"); }
        w.forces.push_back(f); c.label(ref::FNAME[f.kind]); }
    Bench B(s, w, genSlots(s)); if (B.n > 250) c.label(B.n > 30000 ? "slots_over_30000" : "slots_over_250"); describe(c, w); bool same = s.chance(1, 2); if (same) for (size_t i = 0; i < w.bodies.size(); ++i) B.set((int)i, w.bodies[i], s, true);
    std::vector<ForceGenerator *> g; for (auto &f : w.forces) g.push_back(makeForce(f, B.b));
    ref::State st = ref::initial(w); for (size_t i = 0; i < w.bodies.size(); ++i) { int k = B.b[i]->index; st.aprev[3 * i + 2] = k >= 0 ? B.st.a_theta[k] : 0; st.aprev[3 * i] = st.aprev[3 * i + 1] = 0; }
    SystemState &S = B.st;
    for (size_t j = 0; j < g.size(); ++j) {
        std::vector<double> f0(S.f_x, S.f_x + S.n), f1(S.f_y, S.f_y + S.n), f2(S.t, S.t + S.n), other = dump(B, false); std::vector<LD> F(st.q.size(), 0); bool amb = false; ref::applyForce(w, w.forces[j], st, S.dt, F, &amb);
        g[j]->apply(&S); const char *nm = ref::FNAME[w.forces[j].kind];
        REQUIRE(dump(B, false) == other, "generator %zu (%s) changed something other than accumulated forces", j, nm);
        if (amb) { c.label("ambiguous_threshold"); break; }
        std::vector<int> owner(S.n, -1); for (size_t i = 0; i < B.b.size(); ++i) if (B.b[i]->index >= 0) owner[B.b[i]->index] = (int)i;
        LD mag = 1, far = 0, spin = 0, vel = 1; for (LD x : F) mag = std::max(mag, std::fabs(x)); if (w.forces[j].kind == ref::FGravity) for (int k = 0; k < S.n; ++k) mag = std::max(mag, std::fabs(S.m[k] * (LD)w.forces[j].p[0])); for (auto &q : w.bodies) { far = std::max({ far, (LD)std::fabs(q.x), (LD)std::fabs(q.y) }); spin = std::max(spin, (LD)std::fabs(q.th)); vel = std::max({ vel, (LD)std::fabs(q.vx), (LD)std::fabs(q.vy), (LD)std::fabs(q.w) }); }
        LD stiff = w.forces[j].kind == ref::FSpring ? std::fabs(w.forces[j].p[5]) + std::fabs(w.forces[j].p[6]) * vel : w.forces[j].kind == ref::FMotor ? std::fabs(w.forces[j].p[0]) + std::fabs(w.forces[j].p[1]) : 0; LD arm = 1, len = 1; if (w.forces[j].kind == ref::FSpring || w.forces[j].kind == ref::FStatic) for (int i = 0; i < (w.forces[j].kind == ref::FSpring ? 4 : 2); ++i) arm = std::max(arm, (LD)std::fabs(w.forces[j].p[i])); if (w.forces[j].kind == ref::FSpring) { LD x1, y1, x2, y2; const ref::FSpec &f = w.forces[j]; ref::pointOf(st, f.b[0], f.p[0], f.p[1], &x1, &y1); ref::pointOf(st, f.b[1], f.p[2], f.p[3], &x2, &y2); len = std::max(1e-2L, std::hypot(x2 - x1, y2 - y1)); }
        LD ep = 1e-15L * (far + arm * (1 + spin)), extra = 4 * ep * (stiff * arm * (1 + vel * 1e-3L) + mag * (1 + 1 / std::min(len, (LD)1))) + 1e-15L * stiff * vel * 10;
        for (int k = 0; k < S.n; ++k) { LD want[3] = { 0, 0, 0 }; if (owner[k] >= 0) for (int d = 0; d < 3; ++d) want[d] = F[3 * owner[k] + d]; else if (w.forces[j].kind == ref::FGravity) want[1] = -S.m[k] * (LD)w.forces[j].p[0];
            double got[3] = { S.f_x[k], S.f_y[k], S.t[k] }, old[3] = { f0[k], f1[k], f2[k] }; static const char *const N[] = { "f_x", "f_y", "t" };
            for (int d = 0; d < 3; ++d) { if (want[d] != 0) nt = true;
                bool touched = (owner[k] >= 0 && (w.forces[j].kind == ref::FGravity ? d == 1 : w.forces[j].kind == ref::FMotor ? d == 2 && (w.forces[j].b[0] == owner[k] || w.forces[j].b[1] == owner[k]) : w.forces[j].b[0] == owner[k] || w.forces[j].b[1] == owner[k])) || (owner[k] < 0 && w.forces[j].kind == ref::FGravity && d == 1);
                if (!touched) REQUIRE(got[d] == old[d], "generator %zu (%s) changed %s of slot %d, which is not its own", j, nm, N[d], k);
                pbt::near(c, nm, got[d], (double)(old[d] + want[d]), (double)(1e-11L * mag + extra + 1e-13L * std::fabs(old[d])), "generator %zu (%s): %s of slot %d (body %d), prior value %.9g", j, nm, N[d], k, owner[k], old[d]); } }
        if (w.forces[j].kind == ref::FSpring) {                                                        // energy of the bodies' own poses
            Spring *sp = (Spring *)g[j]; const ref::FSpec &f = w.forces[j]; for (size_t i = 0; i < w.bodies.size(); ++i) B.set((int)i, w.bodies[i], s, true);
            LD x1, y1, x2, y2; ref::pointOf(st, f.b[0], f.p[0], f.p[1], &x1, &y1); ref::pointOf(st, f.b[1], f.p[2], f.p[3], &x2, &y2); double e[4]; sp->getEnds(e, e + 1, e + 2, e + 3);
            LD want[4] = { x1, y1, x2, y2 }; for (int i = 0; i < 4; ++i) pbt::near(c, "spring_ends", e[i], (double)want[i], (double)(1e-11L + 4 * ep), "end coordinate %d", i);
            LD l = std::sqrt((x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1));
            pbt::near(c, "spring_energy", sp->energy(), (double)(0.5L * f.p[5] * (l - f.p[4]) * (l - f.p[4])), (double)(1e-11L * (1 + std::fabs(f.p[5]) * 200) + 4e-15L * std::fabs(f.p[5]) * (l + std::fabs(f.p[4]) + 1) * (l + far + 4 * spin + arm * (1 + spin))), "stored energy");
            if (l > 0.3 && far + spin + arm < 120) { std::vector<LD> E(st.q.size(), 0); ref::FSpec el = f; el.p[6] = 0; 
                // elastic part as applied by the library (damping removed by resting bodies)
                std::vector<double> sv; for (int k = 0; k < S.n; ++k) { sv.push_back(S.v_x[k]); sv.push_back(S.v_y[k]); sv.push_back(S.v_theta[k]); S.v_x[k] = S.v_y[k] = S.v_theta[k] = 0; S.f_x[k] = S.f_y[k] = S.t[k] = 0; }
                sp->apply(&S);
                for (int bi = 0; bi < 2; ++bi) { int body = f.b[bi]; RigidBody *rb = B.b[body]; if (rb->index < 0) continue; double *co[3] = { &rb->p_x, &rb->p_y, &rb->theta }, fo[3] = { S.f_x[rb->index], S.f_y[rb->index], S.t[rb->index] };
                    for (int d = 0; d < 3; ++d) { double x0 = *co[d], D[3]; for (int lv = 0; lv < 3; ++lv) { double h = 4e-3 / (1 << lv); *co[d] = x0 + h; double ep = sp->energy(); *co[d] = x0 - h; double em = sp->energy(); D[lv] = (ep - em) / (2 * h); } *co[d] = x0; double e0 = (4 * D[1] - D[0]) / 3, e1 = (4 * D[2] - D[1]) / 3, gr = (16 * e1 - e0) / 15;
                        pbt::near(c, "energy_gradient", fo[d], -gr, 1e-5 * (1 + std::fabs(f.p[5])) * (far > 20 ? 20 : 1), "spring force component %d on body %d is not minus the gradient of its energy", d, body); } }
                for (int k = 0; k < S.n; ++k) { S.v_x[k] = sv[3 * k]; S.v_y[k] = sv[3 * k + 1]; S.v_theta[k] = sv[3 * k + 2]; } c.label("energy_gradient_checked"); }
            if (!same) for (size_t i = 0; i < w.bodies.size(); ++i) B.set((int)i, w.bodies[i], s);
        }
    }
    if (s.chance(1, 8)) { Spring *sp = new Spring; sp->m_ks = 5; sp->m_kd = 2; sp->m_restLength = 1; if (s.chance(1, 2)) sp->m_body1 = B.b[0]; else sp->m_body2 = B.b[0]; std::vector<double> d0 = dump(B, true); sp->apply(&S); REQUIRE(dump(B, true) == d0, "a spring with only one body changed something"); REQUIRE(sp->energy() == 0, "a spring with only one body stores energy"); delete sp; c.label("half_attached_spring"); }
    if (nt) c.nontrivial();
    for (auto *x : g) delete x; B.destroy();
}
