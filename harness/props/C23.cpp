// Body and state-snapshot geometry, velocity, force and energy against each other and against closed forms.
#include "unit.h"
using namespace unit;
const char *PROPERTY_ID = "C23";
const char *PROPERTY_RULE = "random bodies and state snapshots of 1..6 bodies (poses of any angle, far positions, any velocities, masses), random local points and forces: transforms and their inverse on body and snapshot, distances, point velocity as the derivative of the world position, power of applied forces, untouched neighbours, kinetic energy, new and reset bodies; non-trivial = the point or force is non-zero";
extern const long QUICK_CASES = 3000000, THOROUGH_CASES = 40000000;
void run_case(Case &c) {
    Source &s = c.s; double big = s.chance(1, 10) ? s.logreal(1e-8, 1e8) : s.chance(1, 5) ? 1e4 : s.chance(1, 4) ? 1e-3 : 10; auto ang = [&]() { static const double A[] = { 0, 1.5707963267948966, 3.141592653589793, -1.5707963267948966, 6.283185307179586, 100 }; return s.chance(1, 10) ? 1.5707963267948966 * s.range(-5, 5) + s.sym(s.logreal(1e-12, 1e-1)) : s.chance(1, 30) ? s.sym(s.logreal(1e5, 1e9)) : s.chance(1, 6) ? s.pick(A) : s.chance(1, 8) ? s.real(-1e5, 1e5) : s.real(-7, 7); };
    int n = s.range(1, 6), k = s.range(0, n - 1), extra = s.range(0, 2); bool nt = false;
    pbt::set_heap_fill(pbt::FILL_PATTERNS[s.draw(pbt::N_FILL)]); RigidBody *b = new RigidBody; pbt::set_heap_fill(0);
    auto atRest = [&](const char *what) { double v[] = { b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta, b->energy() }; static const char *const N[] = { "p_x", "p_y", "theta", "v_x", "v_y", "v_theta", "energy()" }; for (int i = 0; i < 7; ++i) REQUIRE(v[i] == 0, "%s body: %s is %.17g", what, N[i], v[i]); };
    atRest("a new"); if (b->index != -1) pbt::fail("a new body has index %d", b->index);
    double p[3] = { s.sym(big), s.sym(big), ang() }, v[3] = { s.sym(big), s.sym(big), s.sym(s.chance(1, 8) ? s.logreal(20, 1e6) : 20) }, lx = s.sym(big), ly = s.sym(big), mx = s.sym(big), my = s.sym(big), fm = s.chance(1, 8) ? s.logreal(1e-6, 1e6) : 50, fx = s.sym(fm), fy = s.sym(fm);
    b->p_x = p[0]; b->p_y = p[1]; b->theta = p[2]; b->v_x = v[0]; b->v_y = v[1]; b->v_theta = v[2]; b->m = s.logreal(1e-3, 1e4); b->I = s.logreal(1e-3, 1e4);
    c.note("pose (%.17g,%.17g) %.17g velocity (%.17g,%.17g) %.17g m=%.17g I=%.17g local (%.17g,%.17g) (%.17g,%.17g) force (%.17g,%.17g) slot %d of %d", p[0], p[1], p[2], v[0], v[1], v[2], b->m, b->I, lx, ly, mx, my, fx, fy, k, n);
    LD C = std::cos((LD)p[2]), S = std::sin((LD)p[2]), ax = C * lx - S * ly, ay = S * lx + C * ly, wx = p[0] + ax, wy = p[1] + ay; double eps = 1e-14 + 4e-16 * std::fabs(p[2]), r = std::fabs(lx) + std::fabs(ly), r2 = std::fabs(mx) + std::fabs(my), far = std::fabs(p[0]) + std::fabs(p[1]), tp = eps * (r + far), tp2 = eps * (r + r2 + far);
    double bx, by, ux, uy, gx, gy; b->localToWorld(lx, ly, &bx, &by); pbt::near(c, "transform", bx, (double)wx, tp, "RigidBody::localToWorld x"); pbt::near(c, "transform", by, (double)wy, tp, "RigidBody::localToWorld y");
    b->worldToLocal(bx, by, &gx, &gy); pbt::near(c, "inverse", gx, lx, 4 * tp, "worldToLocal(localToWorld) x"); pbt::near(c, "inverse", gy, ly, 4 * tp, "worldToLocal(localToWorld) y");
    double hx, hy; b->worldToLocal(mx, my, &hx, &hy); b->localToWorld(hx, hy, &ux, &uy); pbt::near(c, "inverse", ux, mx, 4 * tp2, "localToWorld(worldToLocal) x"); pbt::near(c, "inverse", uy, my, 4 * tp2, "localToWorld(worldToLocal) y");
    double l0 = std::hypot(gx - hx, gy - hy), l1 = std::hypot(bx - mx, by - my); pbt::near(c, "distance", l0, l1, 8 * tp2, "distance between two points, local against world");
    b->localToWorld(mx, my, &ux, &uy); pbt::near(c, "distance", std::hypot(ux - bx, uy - by), std::hypot(mx - lx, my - ly), 8 * tp2, "distance between two points, world against local");
    LD ke = 0.5L * b->m * ((LD)v[0] * v[0] + (LD)v[1] * v[1]) + 0.5L * b->I * (LD)v[2] * v[2]; pbt::near(c, "energy", b->energy(), (double)ke, (double)(1e-14L * ke), "energy()"); c.ratios["energy"] += 0;
    if (b->p_x != p[0] || b->p_y != p[1] || b->theta != p[2] || b->v_x != v[0] || b->v_y != v[1] || b->v_theta != v[2]) pbt::fail("reading a body changed it");
    // the same pose in slot k of a snapshot whose other bodies hold other values
    SystemState st; st.resize(n, extra); double *arr[] = { st.p_x, st.p_y, st.theta, st.v_x, st.v_y, st.v_theta, st.m, st.a_x, st.a_y, st.a_theta, st.f_x, st.f_y, st.t }; for (auto *a : arr) for (int i = 0; i < n; ++i) a[i] = s.sym(5);
    for (int i = 0; i < 2 * extra; ++i) st.r_x[i] = st.r_y[i] = st.r_t[i] = 2; for (int i = 0; i < extra; ++i) st.indexMap[i] = i; st.dt = 0.25;
    st.p_x[k] = p[0]; st.p_y[k] = p[1]; st.theta[k] = p[2]; st.v_x[k] = v[0]; st.v_y[k] = v[1]; st.v_theta[k] = v[2]; st.m[k] = b->m;
    std::vector<double> before; for (auto *a : arr) before.insert(before.end(), a, a + n); auto untouched = [&](int skip, const char *what) { for (int q = 0; q < 13; ++q) for (int i = 0; i < n; ++i) if (!(skip && q >= 10 && i == k) && arr[q][i] != before[q * n + i]) pbt::fail("%s changed array %d of body %d of the snapshot", what, q, i); };
    double sx, sy; st.localToWorld(lx, ly, &sx, &sy, k); pbt::near(c, "transform", sx, (double)wx, tp, "SystemState::localToWorld x"); pbt::near(c, "transform", sy, (double)wy, tp, "SystemState::localToWorld y"); untouched(0, "localToWorld");
    double qx, qy; st.velocityAtPoint(lx, ly, &qx, &qy, k); LD Vx = v[0] - (LD)v[2] * ay, Vy = v[1] + (LD)v[2] * ax; double tv = 4 * eps * (std::fabs(v[0]) + std::fabs(v[1]) + std::fabs(v[2]) * (r + far)); pbt::near(c, "point_velocity", qx, (double)Vx, tv, "velocityAtPoint x"); pbt::near(c, "point_velocity", qy, (double)Vy, tv, "velocityAtPoint y"); untouched(0, "velocityAtPoint");
    int times = s.range(1, 3); LD F0 = st.f_x[k], F1 = st.f_y[k], F2 = st.t[k], tx = 0, ty = 0, tt = 0, P = 0; double mag = std::fabs(st.f_x[k]) + std::fabs(st.f_y[k]) + std::fabs(st.t[k]);
    for (int i = 0; i < times; ++i) { double x = i == 0 ? lx : s.sym(big), y = i == 0 ? ly : s.sym(big), ex = i == 0 ? fx : s.sym(50), ey = i == 0 ? fy : s.sym(50); LD rx = C * x - S * y, ry = S * x + C * y; tx += ex; ty += ey; tt += rx * ey - ry * ex; P += ex * (v[0] - (LD)v[2] * ry) + ey * (v[1] + (LD)v[2] * rx); mag += (std::fabs(ex) + std::fabs(ey)) * (1 + std::fabs(x) + std::fabs(y) + far); st.applyForce(x, y, ex, ey, k); nt |= (ex != 0 || ey != 0) && (x != 0 || y != 0); }
    double tf = 8 * eps * mag; pbt::near(c, "force", st.f_x[k], (double)(F0 + tx), tf, "applyForce f_x"); pbt::near(c, "force", st.f_y[k], (double)(F1 + ty), tf, "applyForce f_y"); pbt::near(c, "force", st.t[k], (double)(F2 + tt), tf, "applyForce t"); untouched(1, "applyForce");
    LD got = (st.f_x[k] - F0) * v[0] + (st.f_y[k] - F1) * v[1] + (st.t[k] - F2) * v[2]; pbt::near(c, "power", (double)got, (double)P, tf * (std::fabs(v[0]) + std::fabs(v[1]) + std::fabs(v[2])), "power of the applied forces");
    st.destroy(); b->reset(); atRest("a reset"); delete b; if (nt) c.nontrivial(); c.label(std::fabs(p[2]) > 7 ? "large_angle" : "small_angle"); c.label(n > 1 ? "several_bodies" : "one_body");
}
