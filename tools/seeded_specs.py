S = "src/"; I = "include/"
SPECS = []
def bug(id, property, edits, needs, breaks, demo, flags="", insert_ok=False):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, insert_ok=insert_ok))

BODY = """
static RigidBody mk(double x, double y, double th, double vx, double vy, double w, double m, double I) {
    RigidBody b; b.p_x = x; b.p_y = y; b.theta = th; b.v_x = vx; b.v_y = vy; b.v_theta = w; b.m = m; b.I = I; return b;
}
"""

bug("c01-gain-row", "C01", [(S+"generic_rigid_body_system.cpp", "m_iv.ks.set(0, j_f, constraintOutput.ks[k]);", "m_iv.ks.set(0, j_f, constraintOutput.ks[0]);")],
 "a constraint whose rows carry different position gains: the rolling constraint (no gain on the no-slip row, a gain on the contact row), started off contact",
 "the stiffness of the first row is used for every row, so the contact error of a rolling constraint is never corrected", BODY + """
int main() {
    RigidBody base = mk(0, 0, 0, 0, 0, 0, 1, 1), roll = mk(0.5, 1.2, 0, 0, 0, 0, 1, 0.5);
    RollingConstraint r; r.m_bodies[0] = &base; r.m_bodies[1] = &roll; r.m_radius = 1.0; r.m_dx = 1; r.m_dy = 0; r.m_local_x = 0; r.m_local_y = 0; r.m_ks = 40; r.m_kd = 3;
    GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
    s.addRigidBody(&roll); s.addConstraint(&r);
    s.process(1e-3);
    // contact error 0.2 above the track: acceleration must be -ks * 0.2
    NEAR(roll.v_y, -40 * 0.2 * 1e-3, 1e-9);
    return bad;
}""")

bug("c01-damping-stale", "C01", [(S+"generic_rigid_body_system.cpp", "m_iv.kd.set(0, i, m_iv.kd.get(0, i) * m_iv.reg0.get(0, i));", "m_iv.kd.set(0, i, m_iv.kd.get(0, i) * m_iv.reg0.get(0, (i < 2) ? i : 2 * (i / 2)));")],
 "at least four constraint rows with different constraint velocities and nonzero damping gain",
 "the damping term of every odd row from the fourth on uses its neighbour's constraint velocity", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0.3, -0.7, 0, 2, 1), b = mk(3, 0, 0, 0.5, 1.5, 0, 1, 1);
    FixedPositionConstraint c0, c1; c0.setBody(&a); c1.setBody(&b); c1.setWorldPosition(3, 0); c0.m_ks = c1.m_ks = 0; c0.m_kd = c1.m_kd = 2;
    GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
    s.addRigidBody(&a); s.addRigidBody(&b); s.addConstraint(&c0); s.addConstraint(&c1);
    s.process(1e-3);
    NEAR(b.v_y, 1.5 - 2 * 1.5e-3, 1e-9); NEAR(b.v_x, 0.5 - 2 * 0.5e-3, 1e-9); NEAR(a.v_y, -0.7 + 2 * 0.7e-3, 1e-9);
    return bad;
}""")

bug("c02-bias-scale", "C02", [(S+"optimized_nsv_rigid_body_system.cpp", "m_iv.C.scale(m_biasFactor / dt, &m_iv.b_err);", "m_iv.C.scale(1 / dt, &m_iv.b_err);"),
  (S+"optimized_nsv_rigid_body_system.cpp", "m_iv.reg1.add(m_iv.b_err, &m_iv.reg0);\n    m_iv.reg0.negate(&m_iv.right);", "m_iv.reg1.madd(m_iv.b_err, std::fmin(m_biasFactor, 1.0));\n    m_iv.reg1.negate(&m_iv.right);")],
 "a bias factor above 1 (the library's default is 1) and a constraint with position error", "bias factors above 1 are silently capped", BODY + """
int main() {
    RigidBody a = mk(0.1, 0, 0, 0, 0, 0, 2, 1);
    FixedPositionConstraint c; c.setBody(&a);
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.m_biasFactor = 1.5;
    s.addRigidBody(&a); s.addConstraint(&c);
    s.process(0.01);
    NEAR(a.v_x, -0.1 * 1.5 / 0.01, 1e-6);
    return bad;
}""")

bug("c02-vbias-first", "C02", [(S+"optimized_nsv_rigid_body_system.cpp", "m_iv.v_bias.set(0, j_f, constraintOutput.v_bias[k]);", "m_iv.v_bias.set(0, j_f, constraintOutput.v_bias[0]);")],
 "a user-defined constraint with several rows whose velocity biases differ", "every row of a constraint gets the first row's velocity bias", BODY + """
struct Conveyor : Constraint {
    Conveyor() : Constraint(2, 1) {}
    void calculate(Output *o, SystemState *) {
        for (int i = 0; i < 2; ++i) { for (int j = 0; j < 3; ++j) { o->J[i][j] = (i == j); o->J_dot[i][j] = 0; } o->C[i] = 0; o->ks[i] = o->kd[i] = 0; o->v_bias[i] = i ? -3 : -1; }
        noLimits(o);
    }
};
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 2, 1);
    Conveyor c; c.m_bodies[0] = &a;
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g);
    s.addRigidBody(&a); s.addConstraint(&c); s.process(0.01);
    NEAR(a.v_x, 1, 1e-9); NEAR(a.v_y, 3, 1e-9);
    return bad;
}""")

bug("c03-torque-row", "C03", [(S+"optimized_nsv_rigid_body_system.cpp", "constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];", "constraint->F_t[j][k] = m_state.r_t[(m_state.indexMap[i] + (k ? 0 : j)) * 2 + k];")],
 "a two-row, two-body constraint (link, rolling) in the velocity-level system: the reported torque of the second row on the second body",
 "the torque reported on the second body for the second row is that of the first row", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 2, 1), b = mk(2, 0, 0, 0, 1, 0.3, 1, 0.5);
    LinkConstraint l; l.setBody1(&a); l.setBody2(&b); l.setLocalPosition1(1, 0); l.setLocalPosition2(-1, 0);
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g);
    s.addRigidBody(&a); s.addRigidBody(&b); s.addConstraint(&l);
    const double dt = 0.01, w0 = b.v_theta; s.process(dt);
    NEAR(b.I * (b.v_theta - w0) / dt, l.F_t[0][1] + l.F_t[1][1], 1e-6);
    return bad;
}""")

bug("c04-row-limit", "C04", [(S+"optimized_nsv_rigid_body_system.cpp", "m_iv.limits.set(1, j_f, constraintOutput.limits[k][1] * dt);", "m_iv.limits.set(1, j_f, constraintOutput.limits[0][1] * dt);")],
 "a user-defined constraint with several rows whose upper limits differ", "the first row's upper limit is applied to every row", BODY + """
struct Holder : Constraint {
    Holder() : Constraint(2, 1) {}
    void calculate(Output *o, SystemState *) {
        for (int i = 0; i < 2; ++i) { for (int j = 0; j < 3; ++j) { o->J[i][j] = (i == j); o->J_dot[i][j] = 0; } o->C[i] = 0; o->ks[i] = o->kd[i] = 0; o->v_bias[i] = 0; o->limits[i][0] = -100; o->limits[i][1] = i ? 1 : 100; }
    }
};
int main() {
    RigidBody a = mk(0, 0, 0, -0.1, -0.1, 0, 1, 1);
    Holder c; c.m_bodies[0] = &a;
    OptimizedNsvRigidBodySystem s; GaussSeidelSleSolver g; g.m_minDelta = 1e-9; s.initialize(&g);
    s.addRigidBody(&a); s.addConstraint(&c); s.process(0.01);
    CHECK(c.F_y[1][0] <= 1 + 1e-6); NEAR(c.F_x[0][0], 10, 1e-6);
    return bad;
}""")

bug("c04-friction-symmetric", "C04", [(S+"rotation_friction_constraint.cpp", "output->limits[0][0] = m_minTorque;", "output->limits[0][0] = -m_maxTorque;")],
 "a rotation friction whose torque range is not symmetric", "the lower torque limit is ignored", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 5, 1, 1);
    RotationFrictionConstraint c; c.m_bodies[0] = &a; c.m_minTorque = -0.5; c.m_maxTorque = 50;
    OptimizedNsvRigidBodySystem s; GaussSeidelSleSolver g; g.m_minDelta = 1e-9; s.initialize(&g);
    s.addRigidBody(&a); s.addConstraint(&c); s.process(0.01);
    CHECK(c.F_t[0][0] >= -0.5 - 1e-9); NEAR(a.v_theta, 5 - 0.005, 1e-9);
    return bad;
}""")

bug("c05-tiny-pivot", "C05", [(S+"gaussian_elimination_sle_solver.cpp", "if (maxV == 0) {", "if (maxV < 1E-12) {")],
 "a system whose coefficients are tiny, such as constraints between very heavy bodies", "small but valid pivots are skipped, so nothing is eliminated", """
int main() {
    // two coupled rows, weights 1e-13
    SparseMatrix<3> J; J.initialize(6, 2);
    J.setBlock(0, 0, 0); J.setBlock(0, 1, 1); J.setBlock(1, 0, 0); J.setBlock(1, 1, 1);
    const double j[2][6] = {{1, 2, 0.5, -1, 0.3, 0.2}, {0.4, -1, 2, 0.7, 1, -0.5}};
    for (int r = 0; r < 2; ++r) for (int e = 0; e < 2; ++e) for (int k = 0; k < 3; ++k) J.set(r, e, k, j[r][e * 3 + k]);
    Matrix W(1, 6, 1e-13), b(1, 2), x; b.set(0, 0, 1e-12); b.set(0, 1, -2e-12);
    GaussianEliminationSleSolver g; CHECK(g.solve(J, W, b, nullptr, &x));
    for (int r = 0; r < 2; ++r) {
        double s = 0; for (int c = 0; c < 2; ++c) { double a = 0; for (int k = 0; k < 6; ++k) a += j[r][k] * 1e-13 * j[c][k]; s += a * x.get(0, c); }
        NEAR(s, b.get(0, r), 1e-18);
    }
    J.destroy(); W.destroy(); b.destroy(); x.destroy();
    return bad;
}""")

bug("c05-small-multiplier", "C05", [(S+"gaussian_elimination_sle_solver.cpp", "const double f = A.get(k, i) / A.get(k, h);", "double f = A.get(k, i) / A.get(k, h);\n                if (fastAbs(f) < 1E-7) f = 0.0;")],
 "a weakly coupled row: an elimination factor below 1e-7 (a light body linked with a very heavy one)", "weak couplings are dropped, leaving a residual far above rounding", """
int main() {
    SparseMatrix<3> J; J.initialize(6, 2);
    J.setBlock(0, 0, 0); J.setEmpty(0, 1); J.setBlock(1, 0, 0); J.setBlock(1, 1, 1);
    const double j[2][6] = {{1, 0, 0, 0, 0, 0}, {5e-8, 0, 0, 1, 0, 0}};
    for (int k = 0; k < 3; ++k) { J.set(0, 0, k, j[0][k]); J.set(1, 0, k, j[1][k]); J.set(1, 1, k, j[1][3 + k]); }
    Matrix W(1, 6, 1.0), b(1, 2), x; b.set(0, 0, 1e4); b.set(0, 1, 1e-3);
    GaussianEliminationSleSolver g; CHECK(g.solve(J, W, b, nullptr, &x));
    for (int r = 0; r < 2; ++r) {
        double s = 0; for (int c = 0; c < 2; ++c) { double a = 0; for (int k = 0; k < 6; ++k) a += j[r][k] * j[c][k]; s += a * x.get(0, c); }
        NEAR(s, b.get(0, r), 1e-11);
    }
    J.destroy(); W.destroy(); b.destroy(); x.destroy();
    return bad;
}""")

bug("c06-last-row", "C06", [(S+"conjugate_gradient_sle_solver.cpp", "for (int i = 0; i < x.getHeight(); ++i) {", "for (int i = (x.getHeight() > 3) ? 1 : 0; i < x.getHeight(); ++i) {")],
 "a system of at least four rows and a starting guess that leaves an error in the first component only", "the first component's residual is not checked", """
int main() {
    SparseMatrix<3> J; J.initialize(12, 4);
    for (int i = 0; i < 4; ++i) { J.setBlock(i, 0, i); for (int k = 0; k < 3; ++k) J.set(i, 0, k, k == 0 ? 1 + i : 0); J.setEmpty(i, 1); }
    Matrix W(1, 12, 1.0), b(1, 4), x, p(1, 4);
    for (int i = 0; i < 4; ++i) { b.set(0, i, 10); p.set(0, i, i ? 10.0 / ((1 + i) * (1 + i)) : 3.0); }
    ConjugateGradientSleSolver g; const bool ok = g.solve(J, W, b, &p, &x);
    CHECK(ok);
    for (int i = 0; i < 4; ++i) CHECK(std::fabs(10 - (1 + i) * (1 + i) * x.get(0, i)) <= 0.1 + 1e-9);
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy();
    return bad;
}""")

bug("c06-alpha-guard", "C06", [(S+"conjugate_gradient_sle_solver.cpp", "const double alpha = rk_mag / m_p.dot(m_Ap);", "const double alpha = rk_mag / std::fmax(m_p.dot(m_Ap), 1E-6);")],
 "a well-conditioned system with small coefficients (heavy bodies), so p'Ap is below 1e-6", "the step length is wrong, so the method converges too slowly and gives up", """
int main() {
    SparseMatrix<3> J; J.initialize(6, 2);
    for (int i = 0; i < 2; ++i) { J.setBlock(i, 0, 0); J.setBlock(i, 1, 1); for (int k = 0; k < 3; ++k) { J.set(i, 0, k, k == i); J.set(i, 1, k, k == i ? -1 : 0); } }
    Matrix W(1, 6, 1e-9), b(1, 2), x; b.set(0, 0, 2e-3); b.set(0, 1, -5e-3);
    ConjugateGradientSleSolver g; g.setMinError(1e-9); g.setMaxError(1e-6);
    CHECK(g.solve(J, W, b, nullptr, &x));
    NEAR(x.get(0, 0), 1e6, 10); NEAR(x.get(0, 1), -2.5e6, 10);
    J.destroy(); W.destroy(); b.destroy(); x.destroy();
    return bad;
}""")

bug("c07-last-delta", "C07", [(S+"gauss_seidel_sle_solver.cpp", """        maxDifference = (delta > maxDifference)
            ? delta
            : maxDifference;""", """        maxDifference = (delta > maxDifference || x == limitMin || x == limitMax)
            ? delta
            : maxDifference;""")],
 "limits, with a later row at its limit while an earlier row is still moving", "a row resting at its limit hides the unfinished change of earlier rows, so convergence is reported too early", """
int main() {
    // two strongly coupled free rows and a last row that saturates at once
    SparseMatrix<3> J; J.initialize(9, 3);
    const double j[3][6] = {{1, 0, 0, 0.1, 0, 0}, {1, 0, 0, -0.3, 0, 0}, {0, 0, 0, 0, 0, 0}};
    for (int r = 0; r < 2; ++r) { J.setBlock(r, 0, 0); J.setBlock(r, 1, 1); for (int e = 0; e < 2; ++e) for (int k = 0; k < 3; ++k) J.set(r, e, k, j[r][e * 3 + k]); }
    J.setBlock(2, 0, 2); for (int k = 0; k < 3; ++k) J.set(2, 0, k, k == 0); J.setEmpty(2, 1);
    Matrix W(1, 9, 1.0), b(1, 3), lim(2, 3), x, p(1, 3, 0.0);
    b.set(0, 0, 1); b.set(0, 1, -2); b.set(0, 2, 100);
    for (int i = 0; i < 3; ++i) { lim.set(0, i, i == 2 ? -1 : -1e9); lim.set(1, i, i == 2 ? 1 : 1e9); }
    GaussSeidelSleSolver g; g.m_minDelta = 1e-9; g.m_maxIterations = 100000;
    CHECK(g.solveWithLimits(J, W, b, lim, &x, &p));
    const double a00 = 1.01, a01 = 0.97, a11 = 1.09;
    NEAR(a00 * x.get(0, 0) + a01 * x.get(0, 1), 1, 1e-5); NEAR(a01 * x.get(0, 0) + a11 * x.get(0, 1), -2, 1e-5); NEAR(x.get(0, 2), 1, 1e-12);
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy(); lim.destroy();
    return bad;
}""")

bug("c07-limit-min-k", "C07", [(S+"gauss_seidel_sle_solver.cpp", "const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));\n\n        const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));", "const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));\n\n        const double min_k = std::fmax(1E-3, std::abs(limitMax - limitMin));")],
 "reactions much smaller than the width of their limit range", "the change is judged relative to the limit range instead of the value, so any unlimited row counts as converged at once", """
int main() {
    SparseMatrix<3> J; J.initialize(6, 2);
    const double j[2][6] = {{1, 0, 0, 0.1, 0, 0}, {1, 0, 0, -0.3, 0, 0}};
    for (int r = 0; r < 2; ++r) { J.setBlock(r, 0, 0); J.setBlock(r, 1, 1); for (int e = 0; e < 2; ++e) for (int k = 0; k < 3; ++k) J.set(r, e, k, j[r][e * 3 + k]); }
    Matrix W(1, 6, 1.0), b(1, 2), lim(2, 2), x, p(1, 2, 0.0);
    b.set(0, 0, 1); b.set(0, 1, -2);
    for (int i = 0; i < 2; ++i) { lim.set(0, i, -1e7); lim.set(1, i, 1e7); }
    GaussSeidelSleSolver g; g.m_minDelta = 1e-6; g.m_maxIterations = 100000;
    CHECK(g.solveWithLimits(J, W, b, lim, &x, &p));
    NEAR(1.01 * x.get(0, 0) + 0.97 * x.get(0, 1), 1, 1e-3); NEAR(0.97 * x.get(0, 0) + 1.09 * x.get(0, 1), -2, 1e-3);
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy(); lim.destroy();
    return bad;
}""")

bug("c08-cg-keep-x", "C08", [(S+"conjugate_gradient_sle_solver.cpp", "m_x.initialize(1, n);", "if (m_x.getHeight() == n) {\n        m_x.scale(0.0, &m_x);\n    }\n    else {\n        m_x.initialize(1, n);\n    }")],
 "a solver object reused after a solve that diverged (its internal vector holds NaN or infinity)", "0 * NaN is NaN: one failed solve poisons every later solve of the same size", """
int main() {
    SparseMatrix<3> J; J.initialize(3, 2);
    for (int i = 0; i < 2; ++i) { J.setBlock(i, 0, 0); for (int k = 0; k < 3; ++k) J.set(i, 0, k, k == i); J.setEmpty(i, 1); }
    Matrix W(1, 3, 0.0), W2(1, 3, 1.0), b(1, 2, 1.0), x;
    ConjugateGradientSleSolver g; g.setMaxIterations(5);
    CHECK(!g.solve(J, W, b, nullptr, &x));          // singular: cannot succeed
    CHECK(g.solve(J, W2, b, nullptr, &x));          // identity
    NEAR(x.get(0, 0), 1, 1e-2); NEAR(x.get(0, 1), 1, 1e-2);
    J.destroy(); W.destroy(); W2.destroy(); b.destroy(); x.destroy();
    return bad;
}""")

bug("c08-gs-cache", "C08", [(S+"gauss_seidel_sle_solver.cpp", """    J.rightScale(W, &m_reg);
    m_reg.multiplyTranspose(J, &m_M);

    for (int i = 0; i < m_maxIterations; ++i) {
        const double maxDelta = solveIteration(
                m_M,
                right,
                result,
                result);
""", """    J.rightScale(W, &m_reg);
    if (previous == nullptr || previous != result || m_M.getHeight() != n || m_M.get(0, 0) <= 0
        || std::abs(m_M.get(0, 0) - W.get(0, 0)) > 0) {
        m_reg.multiplyTranspose(J, &m_M);
    }

    for (int i = 0; i < m_maxIterations; ++i) {
        const double maxDelta = solveIteration(
                m_M,
                right,
                result,
                result);
""")],
 "reusing a Gauss-Seidel solver with the result matrix as its own starting guess, where the first diagonal coefficient of the earlier problem equals the first weight", "the coefficient matrix of an earlier problem is used", """
int main() {
    SparseMatrix<3> J, K; J.initialize(3, 2); K.initialize(3, 2);
    const double j[2][3] = {{1, 0, 0}, {0, 1, 0}}, k2[2][3] = {{1, 0, 0}, {0.5, 1, 0}};
    for (int i = 0; i < 2; ++i) { J.setBlock(i, 0, 0); K.setBlock(i, 0, 0); for (int k = 0; k < 3; ++k) { J.set(i, 0, k, j[i][k]); K.set(i, 0, k, k2[i][k]); } J.setEmpty(i, 1); K.setEmpty(i, 1); }
    Matrix W(1, 3, 1.0), b(1, 2, 1.0), x(1, 2, 0.0);
    GaussSeidelSleSolver g; g.m_minDelta = 1e-9;
    CHECK(g.solve(J, W, b, &x, &x)); CHECK(g.solve(K, W, b, &x, &x));
    NEAR(x.get(0, 0) + 0.5 * x.get(0, 1), 1, 1e-6); NEAR(0.5 * x.get(0, 0) + 1.25 * x.get(0, 1), 1, 1e-6);
    J.destroy(); K.destroy(); W.destroy(); b.destroy(); x.destroy();
    return bad;
}""")

bug("c09-fixed-rate", "C09", [(S+"fixed_position_constraint.cpp", "-sin_q3 * q3_dot * m_local_x - cos_q3 * q3_dot * m_local_y;", "-sin_q3 * q3_dot * m_local_x - std::abs(cos_q3) * q3_dot * m_local_y;")],
 "a pinned point with nonzero local y on a turning body that points backwards (cosine of its angle negative)", "the Jacobian rate of the second row has the wrong sign there", BODY + """
int main() {
    FixedPositionConstraint r; RigidBody b0; b0.index = 0; r.setBody(&b0); r.setLocalPosition(0.3, -0.8);
    double q[3] = {0.2, -0.1, 2.5}, v[3] = {0.3, 0.2, 1.1};
    SystemState s; s.resize(1, 2);
    Constraint::Output a, lo, hi; const double h = 1e-5;
    for (int k = 0; k < 3; ++k) {
        const double t = (k - 1) * h;
        s.p_x[0] = q[0] + t * v[0]; s.p_y[0] = q[1] + t * v[1]; s.theta[0] = q[2] + t * v[2]; s.v_x[0] = v[0]; s.v_y[0] = v[1]; s.v_theta[0] = v[2];
        r.calculate(k == 0 ? &lo : k == 1 ? &a : &hi, &s);
    }
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) NEAR(a.J_dot[i][j], (hi.J[i][j] - lo.J[i][j]) / (2 * h), 1e-6);
    s.destroy(); return bad;
}""")

bug("c09-rolling-rate", "C09", [(S+"rolling_constraint.cpp", "output->J_dot[1][4] = -dx_dot * d_delta_y_dq5;", "output->J_dot[1][4] = -dx_dot * (m_dx < 0 ? -d_delta_y_dq5 : d_delta_y_dq5);")],
 "a rolling constraint whose track points in the negative local x direction, on a turning base", "one Jacobian rate entry has the wrong sign", BODY + """
int main() {
    RollingConstraint r; RigidBody b0, b1; b0.index = 0; b1.index = 1; r.m_bodies[0] = &b0; r.m_bodies[1] = &b1;
    r.m_radius = 0.7; r.m_dx = -0.6; r.m_dy = 0.8; r.m_local_x = 0.3; r.m_local_y = 0.9;
    double q[6] = {0.2, -0.1, 0.5, 1.3, 0.8, -0.4}, v[6] = {0.3, 0.2, 1.1, -0.5, 0.4, 0.9};
    SystemState s; s.resize(2, 2);
    Constraint::Output a, lo, hi; const double h = 1e-5;
    for (int k = 0; k < 3; ++k) {
        const double t = (k - 1) * h;
        for (int i = 0; i < 2; ++i) { s.p_x[i] = q[3*i] + t * v[3*i]; s.p_y[i] = q[3*i+1] + t * v[3*i+1]; s.theta[i] = q[3*i+2] + t * v[3*i+2]; s.v_x[i] = v[3*i]; s.v_y[i] = v[3*i+1]; s.v_theta[i] = v[3*i+2]; }
        r.calculate(k == 0 ? &lo : k == 1 ? &a : &hi, &s);
    }
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 6; ++j) NEAR(a.J_dot[i][j], (hi.J[i][j] - lo.J[i][j]) / (2 * h), 1e-6);
    s.destroy(); return bad;
}""")

bug("c09-link-rate", "C09", [(S+"link_constraint.cpp", "cos_q6 * q6_dot * m_local_x_2 - sin_q6 * q6_dot * m_local_y_2;", "cos_q6 * q6_dot * m_local_x_2 - sin_q3 * q6_dot * m_local_y_2;")],
 "a link whose second anchor has a nonzero local y, bodies at different angles, second body turning", "the Jacobian rate on the second body uses the first body's angle", BODY + """
int main() {
    LinkConstraint r; RigidBody b0, b1; b0.index = 0; b1.index = 1; r.setBody1(&b0); r.setBody2(&b1); r.setLocalPosition1(0.3, -0.2); r.setLocalPosition2(0.4, 0.9);
    double q[6] = {0.2, -0.1, 0.5, 1.3, 0.8, -0.4}, v[6] = {0.3, 0.2, 1.1, -0.5, 0.4, 0.9};
    SystemState s; s.resize(2, 2);
    Constraint::Output a, lo, hi; const double h = 1e-5;
    for (int k = 0; k < 3; ++k) {
        const double t = (k - 1) * h;
        for (int i = 0; i < 2; ++i) { s.p_x[i] = q[3*i] + t * v[3*i]; s.p_y[i] = q[3*i+1] + t * v[3*i+1]; s.theta[i] = q[3*i+2] + t * v[3*i+2]; s.v_x[i] = v[3*i]; s.v_y[i] = v[3*i+1]; s.v_theta[i] = v[3*i+2]; }
        r.calculate(k == 0 ? &lo : k == 1 ? &a : &hi, &s);
    }
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 6; ++j) NEAR(a.J_dot[i][j], (hi.J[i][j] - lo.J[i][j]) / (2 * h), 1e-6);
    s.destroy(); return bad;
}""")

bug("c10-gear-sign", "C10", [(S+"simple_gear_constraint.cpp", "output->J[0][5] = -m_ratio;", "output->J[0][5] = -std::abs(m_ratio);")],
 "a gear with a negative ratio (reverse)", "a reversing gear turns its bodies the same way", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 1, 1, 1), b = mk(0, 0, 0, 0, 0, 2, 1, 3);
    SimpleGearConstraint c; c.setBody1(&a); c.setBody2(&b); c.m_ratio = -2;
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g);
    s.addRigidBody(&a); s.addRigidBody(&b); s.addConstraint(&c); s.process(0.01);
    NEAR(a.v_theta, -2 * b.v_theta, 1e-9);
    return bad;
}""")

bug("c10-line-perp", "C10", [(S+"line_constraint.cpp", "const double C = deltaX * perpX + deltaY * perpY;", "const double C = deltaX * perpX + deltaY * std::abs(perpY);")],
 "a line that runs in the negative x direction", "the error of such a line has the wrong sign in its vertical part and no longer matches its Jacobian", BODY + """
int main() {
    LineConstraint c; RigidBody b0; b0.index = 0; c.setBody(&b0); c.m_dx = -0.6; c.m_dy = 0.8; c.m_p0_x = 1; c.m_p0_y = 2;
    SystemState s; s.resize(1, 1); s.p_x[0] = 1 - 0.6 * 3; s.p_y[0] = 2 + 0.8 * 3; s.theta[0] = 0.3; s.v_x[0] = s.v_y[0] = s.v_theta[0] = 0;
    Constraint::Output o; c.calculate(&o, &s); NEAR(o.C[0], 0, 1e-12);
    s.p_x[0] += 0.8; s.p_y[0] += 0.6; c.calculate(&o, &s); NEAR(std::fabs(o.C[0]), 1, 1e-12);
    s.destroy(); return bad;
}""")

bug("c11-gravity-overwrites", "C11", [(S+"gravity_force_generator.cpp", "state->f_y[i] += -state->m[i] * m_g;", "state->f_y[i] = -state->m[i] * m_g;")],
 "gravity registered after another force generator that acts vertically", "gravity discards forces already accumulated", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 2, 1);
    StaticForceGenerator f; f.m_body = &a; f.setForce(0, 100); GravityForceGenerator g0; g0.m_g = 10;
    GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
    s.addRigidBody(&a); s.addForceGenerator(&f); s.addForceGenerator(&g0); s.process(0.01);
    NEAR(a.v_y, (100 - 20) / 2.0 * 0.01, 1e-9);
    return bad;
}""")

bug("c11-motor-clamp", "C11", [(S+"constant_speed_motor.cpp", "std::fmin(m_maxTorque, std::fmax(-m_maxTorque, totalTorque));", "std::fmin(m_maxTorque, std::fmax(-m_maxTorque, torque)) + dampingTorque;")],
 "a motor whose bodies carry a relative acceleration (evaluated on a mid-step state) while it is saturated", "the damping torque is added after the clamp, so the total exceeds the maximum torque", BODY + """
int main() {
    RigidBody a, b; a.index = 0; b.index = 1;
    ConstantSpeedMotor m; m.m_body0 = &a; m.m_body1 = &b; m.m_ks = 10; m.m_kd = 2; m.m_maxTorque = 5; m.m_speed = 10;
    SystemState s; s.resize(2, 0);
    for (int i = 0; i < 2; ++i) { s.v_theta[i] = 0; s.t[i] = 0; s.a_theta[i] = i ? -3 : 0; }
    m.apply(&s); NEAR(s.t[1], 5, 1e-12); NEAR(s.t[0], -5, 1e-12);
    s.destroy(); return bad;
}""")

bug("c11-spring-short", "C11", [(S+"spring.cpp", "if (std::abs(l) >= 1E-2) {", "if (std::abs(l) >= 0.25 * m_restLength) {")],
 "a spring compressed below a quarter of its rest length", "a strongly compressed spring exerts no force", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(0.2, 0, 0, 0, 0, 0, 1, 1);
    Spring sp; sp.m_body1 = &a; sp.m_body2 = &b; sp.m_ks = 10; sp.m_restLength = 1;
    GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
    s.addRigidBody(&a); s.addRigidBody(&b); s.addForceGenerator(&sp); s.process(0.01);
    NEAR(b.v_x, 0.08, 1e-9); NEAR(a.v_x, -0.08, 1e-9);
    return bad;
}""")

bug("c12-rk4-order", "C12", [(S+"rk4_ode_solver.cpp", """                state->p_y[i] =
                    m_initialState.p_y[i] + m_dt * state->v_y[i];
                state->v_x[i] =
                    m_initialState.v_x[i] + m_dt * state->a_x[i];""", """                state->p_y[i] =
                    m_initialState.p_y[i] + m_dt * (state->v_y[i] + m_initialState.v_y[i]) / 2.0;
                state->v_x[i] =
                    m_initialState.v_x[i] + m_dt * state->a_x[i];""")],
 "RK4 on a problem whose force depends on the vertical position (gravity alone does not show it)", "the fourth stage evaluates the vertical coordinate at the wrong point, so the scheme loses its order", BODY + """
static double err(double h) {
    SystemState s; s.resize(1, 0); s.p_x[0] = s.theta[0] = s.v_x[0] = s.v_theta[0] = 0; s.p_y[0] = 1; s.v_y[0] = 0; s.a_x[0] = s.a_y[0] = s.a_theta[0] = 0; s.f_x[0] = s.f_y[0] = s.t[0] = s.m[0] = 0;
    Rk4OdeSolver r; const int n = (int)std::lround(1.0 / h);
    for (int k = 0; k < n; ++k) { r.start(&s, h); bool done; do { done = r.step(&s); s.a_x[0] = s.a_theta[0] = 0; s.a_y[0] = -4 * s.p_y[0]; r.solve(&s); } while (!done); r.end(); }
    const double e = std::fabs(s.p_y[0] - std::cos(2.0)); s.destroy(); return e;
}
int main() { CHECK(err(0.05) / err(0.1) < 1 / 11.0); return bad; }""")

bug("c12-nsv-theta", "C12", [(S+"nsv_ode_solver.cpp", "system->theta[i] += system->v_theta[i] * m_dt;", "system->theta[i] += (system->v_theta[i] - 0.5 * system->a_theta[i] * m_dt) * m_dt;")],
 "an angular acceleration under the semi-implicit integrator (linear motion is unaffected)", "rotation is advanced with the mean angular velocity while translation uses the new velocity", BODY + """
int main() {
    SystemState s; s.resize(1, 0); s.p_x[0] = s.p_y[0] = s.v_x[0] = s.v_y[0] = s.a_x[0] = s.a_y[0] = 0; s.theta[0] = 0.5; s.v_theta[0] = 2; s.a_theta[0] = 30;
    NsvOdeSolver e; e.start(&s, 0.1); e.step(&s); e.solve(&s); e.end();
    NEAR(s.theta[0], 1.0, 1e-12); NEAR(s.v_theta[0], 5, 1e-12);
    s.destroy(); return bad;
}""")

bug("c13-nsv-substep-dt", "C13", [(S+"optimized_nsv_rigid_body_system.cpp", "processConstraints(dt / steps, &evalTime, &solveTime);", "processConstraints(dt, &evalTime, &solveTime);")],
 "the velocity-level system with more than one substep", "constraints are solved for the whole frame's time step while the substep is shorter", BODY + """
int main() {
    RigidBody a[2]; FixedPositionConstraint c[2]; OptimizedNsvRigidBodySystem s[2]; GaussianEliminationSleSolver g[2]; GravityForceGenerator gr;
    for (int i = 0; i < 2; ++i) { a[i] = mk(0.6, 0.8, 0.2, 0, 0, 1, 2, 1); c[i].setBody(&a[i]); c[i].setLocalPosition(-0.5, 0.2); s[i].initialize(&g[i]); s[i].addRigidBody(&a[i]); s[i].addConstraint(&c[i]); s[i].addForceGenerator(&gr); }
    s[0].process(0.02, 2); s[1].process(0.01, 1); s[1].process(0.01, 1);
    NEAR(a[0].p_x, a[1].p_x, 1e-9); NEAR(a[0].p_y, a[1].p_y, 1e-9); NEAR(a[0].v_x, a[1].v_x, 1e-9); NEAR(a[0].v_theta, a[1].v_theta, 1e-9);
    return bad;
}""")

bug("c13-forces-once", "C13", [(S+"generic_rigid_body_system.cpp", """            auto s0 = std::chrono::steady_clock::now();
            processForces();
            auto s1""", """            auto s0 = std::chrono::steady_clock::now();
            if (i == 0 || (i & 3) != 3) processForces();
            auto s1""")],
 "a frame of at least four substeps with a force that depends on the state", "the fourth substep reuses stale forces", BODY + """
int main() {
    RigidBody a[2], w[2]; Spring sp[2]; GenericRigidBodySystem s[2]; GaussianEliminationSleSolver g[2]; NsvOdeSolver o[2];
    for (int i = 0; i < 2; ++i) { a[i] = mk(1, 0, 0, 0, 0, 0, 1, 1); w[i] = mk(0, 0, 0, 0, 0, 0, 1, 1); sp[i].m_body1 = &w[i]; sp[i].m_body2 = &a[i]; sp[i].m_ks = 100; sp[i].m_restLength = 0.5; s[i].initialize(&g[i], &o[i]); s[i].addRigidBody(&a[i]); s[i].addForceGenerator(&sp[i]); }
    s[0].process(0.08, 8); for (int k = 0; k < 8; ++k) s[1].process(0.01, 1);
    NEAR(a[0].p_x, a[1].p_x, 1e-9); NEAR(a[0].v_x, a[1].v_x, 1e-9);
    return bad;
}""")

bug("c14-generator-index", "C14", [(S+"rigid_body_system.cpp", "m_forceGenerators[forceGenerator->m_index]->m_index = forceGenerator->m_index;", "m_forceGenerators.back()->m_index = (int)m_forceGenerators.size() - 1;")],
 "removing two force generators, the second of which had been moved by the first removal", "the moved generator keeps its old index, so removing it removes another one or writes out of bounds", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1);
    StaticForceGenerator f[4]; GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e); s.addRigidBody(&a);
    for (int i = 0; i < 4; ++i) { f[i].m_body = &a; f[i].setForce(std::pow(10, i), 0); s.addForceGenerator(&f[i]); }
    s.removeForceGenerator(&f[1]); s.addForceGenerator(&f[1]); s.removeForceGenerator(&f[3]);   // f3 had moved into slot 1
    s.process(1.0); NEAR(a.v_x, 111, 1e-9);
    return bad;
}""")

bug("c14-reset-generators", "C14", [(S+"rigid_body_system.cpp", "m_forceGenerators.clear();", "if (m_forceGenerators.size() == m_constraints.size()) m_forceGenerators.clear();"),],
 "reset of a system with registered force generators", "generators registered before a reset go on acting", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1);
    GravityForceGenerator f, f2; GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
    s.addRigidBody(&a); s.addForceGenerator(&f); s.reset(); s.addRigidBody(&a); s.addForceGenerator(&f2); s.process(0.1);
    CHECK(s.getForceGeneratorCount() == 1); NEAR(a.v_y, -0.981, 1e-9);
    return bad;
}""")

bug("c15-anchor-first", "C15", [(S+"generic_rigid_body_system.cpp", """                m_iv.ks.set(0, j_f, constraintOutput.ks[k]);
                m_iv.kd.set(0, j_f, constraintOutput.kd[k]);
                m_iv.C.set(0, j_f, constraintOutput.C[k]);
            }""", """                if (i < 3) m_iv.ks.set(0, j_f, constraintOutput.ks[k]);
                if (i < 3) m_iv.kd.set(0, j_f, constraintOutput.kd[k]);
                if (i < 3) m_iv.C.set(0, j_f, constraintOutput.C[k]);
            }""")],
 "a two-body constraint whose first body is the unregistered anchor, in the general system", "gains and error are only taken over together with the first body's block, so the anchored joint is not corrected", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(0.1, 0, 0, 0, 0, 0, 1, 1);
    LinkConstraint l; l.setBody1(&a); l.setBody2(&b); l.m_ks = 30; l.m_kd = 2;
    GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
    s.addRigidBody(&b); s.addConstraint(&l); s.process(0.01);
    NEAR(b.v_x, -30 * 0.1 * 0.01, 1e-9);
    return bad;
}""")

bug("c15-motor-anchor", "C15", [(S+"constant_speed_motor.cpp", "if (m_body0->index != -1) state->t[m_body0->index] -= limitedTorque;", "if (m_body0->index > 0) state->t[m_body0->index] -= limitedTorque;")],
 "a motor whose first body was the first one registered", "the reaction torque on the body with index 0 is dropped as if it were an anchor", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(0, 0, 0, 0, 0, 0, 1, 1);
    ConstantSpeedMotor m; m.m_body0 = &a; m.m_body1 = &b; m.m_ks = 2; m.m_kd = 0; m.m_speed = 3;
    GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
    s.addRigidBody(&a); s.addRigidBody(&b); s.addForceGenerator(&m); s.process(0.01);
    NEAR(a.v_theta, -0.06, 1e-9); NEAR(b.v_theta, 0.06, 1e-9);
    return bad;
}""")

bug("c16-resize-area", "C16", [(S+"matrix.cpp", "else if (width > m_capacityWidth || height > m_capacityHeight) {", "else if ((long)width * height > (long)m_capacityWidth * m_capacityHeight || height > m_capacityHeight) {"),
   (S+"matrix.cpp", "m_matrix[i] = &m_data[i * width];", "m_matrix[i] = &m_data[i * m_capacityWidth];")],
 "a matrix that becomes wider and flatter than before without needing more elements", "rows overlap, so later rows overwrite earlier ones", """
int main() {
    Matrix m(2, 6, 1.0); m.resize(4, 3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) m.set(j, i, i * 10 + j);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) NEAR(m.get(j, i), i * 10 + j, 0);
    m.destroy(); return bad;
}""")

bug("c16-equals-short", "C16", [(S+"matrix.cpp", """    for (int i = 0; i < getHeight(); ++i) {
        for (int j = 0; j < getWidth(); ++j) {
            if (std::abs(get(j, i) - b.get(j, i)) > err) {
                return false;
            }
        }
    }

    return true;""", """    const int n = (getHeight() < getWidth()) ? getHeight() : getWidth();
    for (int i = 0; i < getHeight(); ++i) {
        for (int j = 0; j < ((n > 1) ? getWidth() : n); ++j) {
            if (std::abs(get(j, i) - b.get(j, i)) > err) {
                return false;
            }
        }
    }

    return true;""")],
 "comparing row vectors that differ only behind the first column", "row vectors are compared in their first column only", """
int main() {
    Matrix a(4, 1, 2.0), b(4, 1, 2.0); CHECK(a.equals(b)); b.set(3, 0, 5); CHECK(!a.equals(b)); b.set(3, 0, 2); b.set(0, 0, 1); CHECK(!a.equals(b));
    a.destroy(); b.destroy(); return bad;
}""")

bug("c16-rightscale-square", "C16", [(S+"matrix.cpp", "target->m_matrix[i][j] = scale.m_matrix[j][0] * m_matrix[i][j];", "target->m_matrix[i][j] = scale.m_matrix[0][j] * m_matrix[i][j];")],
 "a scale vector that is the bottom part of storage whose rows were swapped (data no longer contiguous)", "elements are read through the first row pointer instead of their own row", """
int main() {
    Matrix s(1, 3), m(3, 2, 1.0), t; for (int i = 0; i < 3; ++i) s.set(0, i, i + 1);
    s.fastRowSwap(0, 2);
    m.rightScale(s, &t);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) NEAR(t.get(j, i), 3 - j, 0);
    s.destroy(); m.destroy(); t.destroy(); return bad;
}""")

bug("c17-stale-width", "C17", [(I+"sparse_matrix.h", "if (width == m_width && height == m_height) return;", "if (height == m_height && m_height != 0 && width > m_width) return;\n                else if (width == m_width && height == m_height) return;")],
 "a matrix that grows in width while its height stays the same (bodies added, constraints unchanged)", "the old width is kept", """
int main() {
    SparseMatrix<3> m; Matrix d; m.initialize(3, 1); m.initialize(9, 1);
    CHECK(m.getWidth() == 9); if (m.getWidth() == 9) { m.setBlock(0, 0, 2); for (int k = 0; k < 3; ++k) m.set(0, 0, k, k + 1); m.expand(&d); CHECK(d.getWidth() == 9); NEAR(d.get(8, 0), 3, 0); }
    m.destroy(); d.destroy(); return bad;
}""")

bug("c17-expand-stride", "C17", [(I+"sparse_matrix.h", "matrix->set(i, block * T_Stride + k, m_matrix[i][j * T_Stride + k]);", "matrix->set(i, block * 3 + k, m_matrix[i][j * T_Stride + k]);")],
 "a sparse matrix with a stride other than 3", "the transposed expansion puts blocks at the wrong place", """
int main() {
    SparseMatrix<2, 2> m; Matrix d; m.initialize(8, 2);
    for (int r = 0; r < 2; ++r) for (int e = 0; e < 2; ++e) { m.setBlock(r, e, e + r); for (int k = 0; k < 2; ++k) m.set(r, e, k, 1 + r * 4 + e * 2 + k); }
    m.expandTransposed(&d);
    for (int r = 0; r < 2; ++r) for (int e = 0; e < 2; ++e) for (int k = 0; k < 2; ++k) NEAR(d.get(r, (e + r) * 2 + k), 1 + r * 4 + e * 2 + k, 0);
    m.destroy(); d.destroy(); return bad;
}""")

bug("c17-product-entries", "C17", [(I+"sparse_matrix.h", "if (block0 == block1) {", "if (block0 == block1 && (l >= k || block1 != b_T.m_blockData[i % b_T.m_height * T_Entries])) {")],
 "a body that is the second of one constraint and the first of another", "some couplings between constraints that share a body in different roles are dropped from the product", """
int main() {
    SparseMatrix<3> a; Matrix p; a.initialize(9, 3);
    const int blk[3][2] = {{1, 0}, {0, 2}, {2, 1}};
    double D[3][9] = {};
    for (int r = 0; r < 3; ++r) for (int e = 0; e < 2; ++e) { a.setBlock(r, e, blk[r][e]); for (int k = 0; k < 3; ++k) { const double v = 1 + r + 2 * e + 3 * k; a.set(r, e, k, v); D[r][blk[r][e] * 3 + k] = v; } }
    SparseMatrix<3> b; b.initialize(9, 3); const int bl[3][2] = {{0, 1}, {2, 0}, {1, 2}}; double E[3][9] = {};
    for (int r = 0; r < 3; ++r) for (int e = 0; e < 2; ++e) { b.setBlock(r, e, bl[r][e]); for (int k = 0; k < 3; ++k) { const double v = 2 + 5 * r + e - k; b.set(r, e, k, v); E[r][bl[r][e] * 3 + k] = v; } }
    a.multiplyTranspose(b, &p);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 9; ++k) s += D[i][k] * E[j][k]; NEAR(p.get(j, i), s, 1e-12); }
    a.destroy(); b.destroy(); p.destroy(); return bad;
}""")

bug("c18-blockdata-leak", "C18", [(I+"sparse_matrix.h", "                delete[] m_data;\n                delete[] m_blockData;\n\n                m_matrix = nullptr;", "                delete[] m_data;\n                if (m_height > 0 || m_capacityHeight == 0) delete[] m_blockData;\n\n                m_matrix = nullptr;")],
 "a sparse matrix that is emptied (zero rows) after holding rows, then destroyed or grown", "its block index storage is leaked", """
static long live = 0;
void *operator new[](size_t n) { ++live; return std::malloc(n); }
void operator delete[](void *p) noexcept { if (p) --live; std::free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) --live; std::free(p); }
int main() {
    const long before = live;
    { SparseMatrix<3> m; m.initialize(3, 2); m.initialize(3, 0); m.destroy(); }
    CHECK(live == before); return bad;
}""")

bug("c18-state-shrink", "C18", [(S+"system_state.cpp", "indexMap = new int[n_c];", "indexMap = new int[(n_c > 64) ? 64 : n_c];")],
 "more than 64 constraint rows", "the constraint index map is too small and is overrun", BODY + """
int main() {
    SystemState s, t; s.resize(3, 80); for (int i = 0; i < 80; ++i) s.indexMap[i] = i;
    t.resize(1, 80); for (int i = 0; i < 80; ++i) CHECK(s.indexMap[i] == i);
    s.destroy(); t.destroy(); return bad;
}""", flags="-fsanitize=address")

bug("c19-clutch-error", "C19", [(S+"clutch_constraint.cpp", "output->C[0] = 0;\n", "(void)state;\n")],
 "a clutch registered after (or without) a constraint that leaves something in the shared output record", "the clutch's error is whatever the memory held, so motion depends on leftovers", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 1, 1, 1), b = mk(0, 0, 0, 0, 0, 0, 1, 1), c = mk(0.5, 0.25, 0, 0, 0, 0, 1, 1);
    FixedPositionConstraint fp; fp.setBody(&c); ClutchConstraint cl; cl.setBody1(&a); cl.setBody2(&b);
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g);
    s.addRigidBody(&a); s.addRigidBody(&b); s.addRigidBody(&c); s.addConstraint(&fp); s.addConstraint(&cl); s.process(0.01);
    NEAR(a.v_theta, 0.5, 1e-9); NEAR(b.v_theta, 0.5, 1e-9);
    return bad;
}""")

bug("c19-cg-leftover", "C19", [(S+"conjugate_gradient_sle_solver.cpp", "m_x.initialize(1, n);", "m_x.resize(1, n);")],
 "a conjugate gradient solve without a usable starting guess (first frame, or a changed number of rows)", "the iteration starts from uninitialised memory or from the previous problem's solution, so results differ from run to run", BODY + """
static void run(ConjugateGradientSleSolver &g, double *out) {
    RigidBody a = mk(0, 0, 0.3, 0, 0, 1, 1, 1);
    FixedPositionConstraint fp; fp.setBody(&a); fp.setLocalPosition(0.5, 0.5); fp.setWorldPosition(0.1, 0.6); GravityForceGenerator gr;
    OptimizedNsvRigidBodySystem s; s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&fp); s.addForceGenerator(&gr);
    for (int i = 0; i < 1; ++i) s.process(0.01);
    out[0] = a.v_x; out[1] = a.v_y; out[2] = a.v_theta;
}
int main() {
    ConjugateGradientSleSolver fresh, used; double o0[3], o1[3], t[3];
    { RigidBody a = mk(3, 2, 0, 0, 0, 0, 50, 1); FixedPositionConstraint fp; fp.setBody(&a); OptimizedNsvRigidBodySystem s; s.initialize(&used); s.addRigidBody(&a); s.addConstraint(&fp); s.process(0.01); }
    // a heap full of nonzero bytes for both, so the first allocation is not zero by luck
    run(used, o1); { void *p[64]; for (int i = 0; i < 64; ++i) { p[i] = std::malloc(16); memset(p[i], 0, 16); } for (int i = 0; i < 64; ++i) std::free(p[i]); } run(fresh, o0);
    for (int i = 0; i < 3; ++i) CHECK(o0[i] == o1[i]);
    return bad;
}""")

bug("c20-spring-moment", "C20", [(S+"spring.cpp", "const double x = l - m_restLength;", "const double x = (l > m_restLength) ? l - m_restLength : 0.9 * (l - m_restLength);"),
  (S+"spring.cpp", "state->velocityAtPoint(m_p2_x, m_p2_y, &v_x2, &v_y2, m_body2->index);", "state->velocityAtPoint(m_p1_x, m_p2_y, &v_x2, &v_y2, m_body2->index);")],
 "a damped spring with different attachment offsets on a turning second body", "the damping uses the velocity of the wrong point, so a passive spring can add energy", BODY + """
int main() {
    // points coincide in velocity: body 2 turns about its own attachment point -> no damping force may act
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(2, 0, 0, 0, 0, 1, 1, 1);
    b.v_y = 1;  // attachment (-1,0): v = (0, 1) + 1 * (0, -1) = 0
    Spring sp; sp.m_body1 = &a; sp.m_body2 = &b; sp.m_ks = 0; sp.m_kd = 5; sp.m_p2_x = -1; sp.m_p1_x = 0.7;
    GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
    s.addRigidBody(&a); s.addRigidBody(&b); s.addForceGenerator(&sp); const double e0 = a.energy() + b.energy(); s.process(1e-3);
    NEAR(a.energy() + b.energy(), e0, 1e-9);
    return bad;
}""")

bug("c20-applyforce-moment", "C20", [(S+"system_state.cpp", "(w_x - this->p_x[body]) * f_y;", "(w_x - this->p_x[body]) * f_y * ((body > 6) ? 1.01 : 1.0);")],
 "more than seven bodies, with an off-centre force on a later one", "the moment of a force is one percent off on later bodies, so internal springs change angular momentum", BODY + """
int main() {
    SystemState s; s.resize(9, 0); for (int i = 0; i < 9; ++i) { s.p_x[i] = s.p_y[i] = s.theta[i] = s.f_x[i] = s.f_y[i] = s.t[i] = 0; }
    for (int i = 0; i < 9; ++i) { s.applyForce(2, 0, 0, 3, i); NEAR(s.t[i], 6, 1e-12); }
    s.destroy(); return bad;
}""")

bug("c21-angle-wrap", "C21", [(S+"system_state.cpp", "const double theta = this->theta[body];", "const double theta = std::fmod(this->theta[body], 6.2832);")],
 "a body turned by more than one full revolution", "angles beyond a revolution are reduced with an inexact period, so turning the scene by 2*pi changes it", BODY + """
int main() {
    SystemState s; s.resize(2, 0); for (int i = 0; i < 2; ++i) { s.p_x[i] = s.p_y[i] = 0; s.theta[i] = 0.5 + i * 10 * 3.14159265358979323846; }
    double x0, y0, x1, y1; s.localToWorld(1, 0, &x0, &y0, 0); s.localToWorld(1, 0, &x1, &y1, 1);
    NEAR(x0, x1, 1e-9); NEAR(y0, y1, 1e-9); s.destroy(); return bad;
}""")

bug("c21-spring-order", "C21", [(S+"spring.cpp", "const double rel_v_y = (v_y2 - v_y1);", "const double rel_v_y = (m_body1->index < m_body2->index || rel_v_x == 0) ? (v_y2 - v_y1) : (v_y2 - v_y1) * (1 - 1E-4);")],
 "a damped spring whose first body has the higher index", "the damping depends on the registration order of the bodies", BODY + """
int main() {
    double r[2];
    for (int k = 0; k < 2; ++k) {
        RigidBody a = mk(0, 0, 0, 1, 2, 0, 1, 1), b = mk(2, 0, 0, 0.5, 50, 0, 1, 1);
        Spring sp; sp.m_body1 = &a; sp.m_body2 = &b; sp.m_ks = 1; sp.m_kd = 5;
        GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
        s.addRigidBody(k ? &b : &a); s.addRigidBody(k ? &a : &b); s.addForceGenerator(&sp); s.process(0.01); r[k] = a.v_y;
    }
    NEAR(r[0], r[1], 1e-9); return bad;
}""")

bug("c22-line-correction", "C22", [(S+"line_constraint.cpp", "output->C[0] = C;", "output->C[0] = (std::abs(C) > 1.0) ? C / std::abs(C) : C;")],
 "a line constraint that starts more than one unit off", "large errors are corrected more slowly than the configured rate", BODY + """
int main() {
    RigidBody a = mk(0, 3, 0, 0, 0, 0, 1, 1);
    LineConstraint c; c.setBody(&a); c.m_dx = 1; c.m_dy = 0;
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.m_biasFactor = 0.5; s.addRigidBody(&a); s.addConstraint(&c); s.process(0.01);
    NEAR(a.p_y, 1.5, 1e-9); return bad;
}""")

bug("c22-fixed-drift", "C22", [(S+"optimized_nsv_rigid_body_system.cpp", "m_iv.C.set(0, j_f, constraintOutput.C[k]);", "m_iv.C.set(0, j_f, (std::abs(constraintOutput.C[k]) < 1E-5) ? 0.0 : constraintOutput.C[k]);")],
 "many frames: errors below 1e-5 accumulate without correction", "a dead band lets assembled mechanisms drift and keeps errors above the configured rate", BODY + """
int main() {
    RigidBody a = mk(5e-6, 0, 0, 0, 0, 0, 1, 1);
    FixedPositionConstraint c; c.setBody(&a);
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&c); s.process(0.01);
    NEAR(a.p_x, 0, 1e-10); return bad;
}""")

bug("c23-spring-energy", "C23", [(S+"rigid_body.cpp", "const double E_r = 0.5 * I * v_theta * v_theta;", "const double E_r = 0.5 * I * v_theta * std::abs(v_theta);")],
 "a body turning clockwise", "rotational energy is negative for negative angular velocity", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 1, 0, -3, 2, 4); NEAR(a.energy(), 1 + 18, 1e-12); return bad; }""")

bug("c23-world-local", "C23", [(S+"rigid_body.cpp", "*l_y = -sin_theta * (x - p_x) + cos_theta * (y - p_y);", "*l_y = (std::abs(cos_theta) > 1E-3)\n        ? ((y - p_y) - sin_theta * *l_x) / cos_theta\n        : sin_theta * (p_x - x);")],
 "a body turned to within about 1e-3 of a right angle", "the inverse transformation loses accuracy near a right angle", BODY + """
int main() {
    RigidBody a = mk(1, 2, 1.5707963267948966 + 9e-4, 0, 0, 0, 1, 1); double x, y, u, v; a.localToWorld(0.3, 4.0, &x, &y); a.worldToLocal(x, y, &u, &v);
    NEAR(u, 0.3, 1e-9); NEAR(v, 4.0, 1e-9); return bad;
}""")

bug("c23-point-velocity", "C23", [(S+"system_state.cpp", "*v_y = this->v_y[body] + angularToLinear_y;", "*v_y = this->v_y[body] + ((x == 0.0 && y != 0.0) ? 0.0 : angularToLinear_y);")],
 "a point on the body's own y axis (local x exactly zero) of a body that is turned", "the velocity of such points misses its vertical part", BODY + """
int main() {
    SystemState s; s.resize(1, 0); s.p_x[0] = s.p_y[0] = s.v_x[0] = s.v_y[0] = 0; s.theta[0] = 0.8; s.v_theta[0] = 2; double vx, vy;
    s.velocityAtPoint(0, 1, &vx, &vy, 0); NEAR(vx, -2 * std::cos(0.8), 1e-12); NEAR(vy, -2 * std::sin(0.8), 1e-12); s.destroy(); return bad;
}""")

bug("c24-elapsed", "C24", [(S+"optimized_nsv_rigid_body_system.cpp", "m_t += dt;", "m_t += dt / steps;")],
 "frames with more than one substep", "elapsed time advances by one substep only", BODY + """
int main() { OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1); s.addRigidBody(&a); s.process(0.1, 4); NEAR(s.timeElapsed(), 0.1, 1e-12); return bad; }""")

bug("c24-stale-torque", "C24", [(S+"rigid_body_system.cpp", "        m_state.t[i] = 0.0;\n    }", "        if (n_f > 0) m_state.t[i] = 0.0;\n    }")],
 "a system whose last force generator was removed, or that never had one", "torques are not cleared when no generator is registered, so an old torque goes on acting", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1); StaticForceGenerator f; f.m_body = &a; f.setForce(0, 1); f.setPosition(1, 0);
    GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e); s.addRigidBody(&a); s.addForceGenerator(&f); s.process(0.1); s.removeForceGenerator(&f);
    const double w = a.v_theta; s.process(0.1); NEAR(a.v_theta, w, 1e-12); return bad;
}""")

bug("c25-history-wrap", "C25", [(S+"generic_rigid_body_system.cpp", "m_frameIndex = (m_frameIndex + 1) % ProfilingSamples;", "m_frameIndex = (m_frameIndex < ProfilingSamples) ? m_frameIndex + 1 : 0;")],
 "more than 600 frames", "the 601st frame writes past the end of the timing history", BODY + """
int main() {
    GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e); RigidBody a = mk(0, 0, 0, 1, 0, 0, 1, 1); s.addRigidBody(&a);
    for (int i = 0; i < 700; ++i) s.process(0.001); NEAR(a.p_x, 0.7, 1e-9); return bad;
}""", flags="-fsanitize=address")

bug("c25-index-short", "C25", [(S+"generic_rigid_body_system.cpp", "m_iv.J_dot_sparse.setBlock(j_f, i, index);", "m_iv.J_dot_sparse.setBlock(j_f, i, (short)((index < 512) ? index : index & 511));")],
 "more than 512 bodies in the general system, with a turning constrained body behind them", "the Jacobian rate of later bodies is booked on an earlier body", BODY + """
int main() {
    std::vector<RigidBody> pad(520); GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
    for (auto &p : pad) { p.m = p.I = 1; s.addRigidBody(&p); }
    RigidBody a = mk(1, 0, 0, 0, 2, 2, 1, 1); FixedPositionConstraint c; c.setBody(&a); c.setLocalPosition(-1, 0); s.addRigidBody(&a); s.addConstraint(&c);
    s.process(1e-3);
    NEAR(a.v_x, -4e-3, 1e-9);   // centripetal acceleration w^2 r
    return bad;
}""")

bug("c26-copy-torque", "C26", [(S+"system_state.cpp", "std::memcpy((void *)t, (void *)state->t, sizeof(double) * n);", "std::memcpy((void *)t, (void *)state->t, sizeof(double) * ((n_c > 0 && n_c < n) ? n_c : n));")],
 "a state with more bodies than constraint rows", "the torques of the later bodies are not copied", """
int main() {
    SystemState a, b; a.resize(4, 2); b.resize(4, 2);
    for (int i = 0; i < 4; ++i) { a.t[i] = i + 1; b.t[i] = -1; a.a_x[i] = a.a_y[i] = a.a_theta[i] = a.v_x[i] = a.v_y[i] = a.v_theta[i] = a.p_x[i] = a.p_y[i] = a.theta[i] = a.f_x[i] = a.f_y[i] = a.m[i] = 0; }
    for (int i = 0; i < 4; ++i) { a.r_x[i] = a.r_y[i] = a.r_t[i] = 0; } a.indexMap[0] = a.indexMap[1] = 0;
    b.copy(&a); for (int i = 0; i < 4; ++i) NEAR(b.t[i], i + 1, 0);
    a.destroy(); b.destroy(); return bad;
}""")

bug("c26-copy-map", "C26", [(S+"system_state.cpp", "std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * n_c);", "if (n_c <= 2 * n) std::memcpy((void *)indexMap, (void *)state->indexMap, sizeof(int) * n_c);")],
 "more constraint rows than twice the number of bodies", "the constraint index map is not copied", """
int main() {
    SystemState a, b; a.resize(1, 5); b.resize(1, 5); for (int i = 0; i < 5; ++i) { a.indexMap[i] = i + 7; b.indexMap[i] = -9; }
    for (int i = 0; i < 10; ++i) a.r_x[i] = a.r_y[i] = a.r_t[i] = 0; a.a_x[0] = a.a_y[0] = a.a_theta[0] = a.v_x[0] = a.v_y[0] = a.v_theta[0] = a.p_x[0] = a.p_y[0] = a.theta[0] = a.f_x[0] = a.f_y[0] = a.t[0] = a.m[0] = 0;
    b.copy(&a); for (int i = 0; i < 5; ++i) CHECK(b.indexMap[i] == i + 7);
    a.destroy(); b.destroy(); return bad;
}""")

# ------------------------------------------------------------------ second generation

bug("c14-mass-cache", "C14", [(S+"rigid_body_system.cpp", "    M->initialize(1, 3 * n);\n    M_inv->initialize(1, 3 * n);", "    if (M->getHeight() == 3 * n) return;\n    else M->initialize(1, 3 * n);\n    M_inv->initialize(1, 3 * n);")],
 "a registered body is exchanged for one of another mass (same body count) between frames", "the mass matrices of the old set of bodies are kept", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(0, 0, 0, 0, 0, 0, 4, 4); StaticForceGenerator f, g; f.m_body = &a; g.m_body = &b; f.setForce(1, 0); g.setForce(1, 0);
    GenericRigidBodySystem s; GaussianEliminationSleSolver ge; EulerOdeSolver e; s.initialize(&ge, &e); s.addRigidBody(&a); s.addForceGenerator(&f); s.addForceGenerator(&g);
    s.process(0.1); s.removeRigidBody(&a); s.addRigidBody(&b); s.process(0.1); NEAR(b.v_x, 0.025, 1e-12); return bad;
}""")

bug("c14-stale-block", "C14", [(S+"optimized_nsv_rigid_body_system.cpp", "    m_iv.J_sparse.initialize(3 * n, m_f);", "    if (m_iv.J_sparse.getWidth() != 3 * n || m_iv.J_sparse.getHeight() != m_f) m_iv.J_sparse.initialize(3 * n, m_f);")],
 "a constraint row loses one of its blocks between two frames in which the number of bodies and rows stays the same (one of its bodies was replaced by an unrelated one)", "the motion of the body that took the removed body's place enters the constraint", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(2, 0, 0, 0, 0, 0, 1, 1), c = mk(9, 9, 0, 5, 3, 0, 1, 1);
    LinkConstraint l; l.setBody1(&a); l.setBody2(&b); l.setLocalPosition1(1, 0); l.setLocalPosition2(-1, 0); StaticForceGenerator f; f.m_body = &a; f.setForce(0, 3);
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addRigidBody(&b); s.addConstraint(&l); s.addForceGenerator(&f);
    s.process(0.01); s.removeRigidBody(&b); s.addRigidBody(&c); s.process(0.01); NEAR(c.v_x, 5, 1e-12); NEAR(c.v_y, 3, 1e-12);
    // the anchor b stays where it is: a turns about its own end at (1, 0)
    const double x = a.p_x + std::cos(a.theta), y = a.p_y + std::sin(a.theta); double bx, by; b.localToWorld(-1, 0, &bx, &by); NEAR(x, bx, 1e-3); NEAR(y, by, 1e-3); return bad;
}""")

bug("c02-correction-cap", "C02", [(S+"optimized_nsv_rigid_body_system.cpp", "m_iv.C.set(0, j_f, constraintOutput.C[k]);", "m_iv.C.set(0, j_f, std::fmax(-1000 * dt, std::fmin(1000 * dt, constraintOutput.C[k])));")],
 "a position error so large for the step length that its correction needs more than 1000 units per second", "the correction speed is capped", BODY + """
int main() {
    RigidBody a = mk(3, 0, 0, 0, 0, 0, 2, 1); FixedPositionConstraint c; c.setBody(&a); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&c);
    s.process(0.001); NEAR(a.p_x, 0, 1e-9); return bad;
}""")

bug("c03-small-reaction", "C03", [(S+"generic_rigid_body_system.cpp", "            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);", "            m_state.r_y[i * 2 + j] = (m_iv.sreg0.get(i, j, 1) < 1E-9 && m_iv.sreg0.get(i, j, 1) > -1E-9) ? 0 : m_iv.sreg0.get(i, j, 1);")],
 "bodies light enough that a reaction is below 1e-9 force units", "tiny reactions are dropped, so very light bodies fall out of their constraints", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1e-11, 1e-11); FixedPositionConstraint c; c.setBody(&a); GravityForceGenerator g;
    GenericRigidBodySystem s; GaussianEliminationSleSolver ge; EulerOdeSolver e; s.initialize(&ge, &e); s.addRigidBody(&a); s.addConstraint(&c); s.addForceGenerator(&g);
    s.process(0.01); NEAR(c.F_y[1][0], 1e-11 * g.m_g, 1e-16); return bad;
}""")

bug("c04-limit-delta", "C04", [(S+"gauss_seidel_sle_solver.cpp", "        const double delta = std::abs(x - k->get(0, i)) / min_k;", "        const double delta = (x != k_next_i) ? 0.0 : std::abs(x - k->get(0, i)) / min_k;")],
 "a sweep in which a later row reaches its limit while the earlier rows it is coupled to were already settled for its previous value", "rows that just reached their limit do not count as a change, so the solver stops before the other rows have reacted", """
int main() {
    // row 1 is limited to [-1, 1]; from a starting guess that solves row 0 for x1 = 5
    SparseMatrix<3> J; J.initialize(3, 2); J.setBlock(0, 0, 0); J.setBlock(1, 0, 0); J.set(0, 0, 0, 1); J.set(0, 0, 1, 0); J.set(0, 0, 2, 0); J.set(1, 0, 0, 1); J.set(1, 0, 1, 1); J.set(1, 0, 2, 0);
    Matrix W(1, 3, 1.0), b(1, 2), lim(2, 2), prev(1, 2), x; b.set(0, 0, 10); b.set(0, 1, 20); lim.set(0, 0, -1000); lim.set(1, 0, 1000); lim.set(0, 1, -1); lim.set(1, 1, 1);
    prev.set(0, 0, 5); prev.set(0, 1, 5); GaussSeidelSleSolver g; g.m_minDelta = 1e-9; CHECK(g.solveWithLimits(J, W, b, lim, &x, &prev)); NEAR(x.get(0, 1), 1, 1e-9); NEAR(x.get(0, 0), 9, 1e-6);
    J.destroy(); W.destroy(); b.destroy(); lim.destroy(); prev.destroy(); x.destroy(); return bad;
}""")

bug("c05-skip-factor", "C05", [(S+"gaussian_elimination_sle_solver.cpp", "                const double f = A.get(k, i) / A.get(k, h);\n                A.set(k, i, 0.0);", "                const double r = A.get(k, i) / A.get(k, h), f = (std::abs(r) < 1E-8) ? 0.0 : r;\n                A.set(k, i, 0.0);")],
 "rows of very different scale or almost orthogonal rows, so that an elimination factor is below 1e-8", "small elimination factors are skipped although the entries they multiply are not negligible", """
int main() {
    // J = [1 0 0 ; 1e-9 1 0], W = 1: A = [1 1e-9; 1e-9 1+1e-18]
    SparseMatrix<3> J; J.initialize(3, 2); J.setBlock(0, 0, 0); J.setBlock(1, 0, 0); J.set(0, 0, 0, 1); J.set(0, 0, 1, 0); J.set(0, 0, 2, 0); J.set(1, 0, 0, 1e-9); J.set(1, 0, 1, 1); J.set(1, 0, 2, 0);
    Matrix W(1, 3, 1.0), b(1, 2), x; b.set(0, 0, 1); b.set(0, 1, 1e-9); GaussianEliminationSleSolver g; CHECK(g.solve(J, W, b, nullptr, &x)); NEAR(x.get(0, 0), 1, 1e-12); NEAR(x.get(0, 1), 0, 1e-14);
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); return bad;
}""")

bug("c06-n-iterations", "C06", [(S+"conjugate_gradient_sle_solver.cpp", "for (int k = 0; k < m_maxIterations; ++k) {", "for (int k = 0; k < m_maxIterations && k <= n; ++k) {")],
 "a system whose conditioning needs more iterations than it has rows (rounding destroys the finite termination of conjugate gradients)", "gives up after n+1 iterations", """
int main() {
    const int n = 12; SparseMatrix<3> J; J.initialize(3 * n, n); Matrix W(1, 3 * n, 1.0), b(1, n), x;
    for (int i = 0; i < n; ++i) { J.setBlock(i, 0, i); for (int k = 0; k < 3; ++k) J.set(i, 0, k, k ? 0 : std::pow(1.7, i % 8)); if (i) { J.setBlock(i, 1, i - 1); for (int k = 0; k < 3; ++k) J.set(i, 1, k, k ? 0 : -0.9 * std::pow(1.7, i % 8)); } b.set(0, i, std::sin(3.0 * i) + 2); }
    ConjugateGradientSleSolver g; g.setMaxIterations(4000); g.setMaxError(1e-9); g.setMinError(1e-9); CHECK(g.solve(J, W, b, nullptr, &x));
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); return bad;
}""")

bug("c07-skip-diagonal", "C07", [(S+"gauss_seidel_sle_solver.cpp", "            (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);\n\n        const double min_k", "            (left.get(i, i) > 1E-6) ? (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1) : k->get(0, i);\n\n        const double min_k")],
 "rows with a small diagonal, such as constraints on a body of a million mass units", "such rows are treated as empty: their multiplier stays at the starting guess while success is reported", """
int main() {
    SparseMatrix<3> J; J.initialize(3, 1); J.setBlock(0, 0, 0); J.set(0, 0, 0, 1); J.set(0, 0, 1, 0); J.set(0, 0, 2, 0); Matrix W(1, 3, 1e-7), b(1, 1), x; b.set(0, 0, 2.0);
    GaussSeidelSleSolver g; g.m_minDelta = 1e-9; CHECK(g.solve(J, W, b, nullptr, &x)); NEAR(x.get(0, 0), 2e7, 1e-3); J.destroy(); W.destroy(); b.destroy(); x.destroy(); return bad;
}""")

bug("c07-sweep-cap", "C07", [(S+"gauss_seidel_sle_solver.cpp", "    for (int i = 0; i < m_maxIterations; ++i) {\n        const double maxDelta = solveIteration(\n                m_M,", "    for (int i = 0; i < m_maxIterations && i < 256; ++i) {\n        const double maxDelta = solveIteration(\n                m_M,")],
 "a slowly converging system (a chain of coupled rows) for which the user allowed thousands of sweeps", "no more than 256 sweeps are made", """
int main() {
    const int n = 14; SparseMatrix<3> J; J.initialize(3 * n + 3, n); Matrix W(1, 3 * n + 3, 1.0), b(1, n), x;
    for (int i = 0; i < n; ++i) { J.setBlock(i, 0, i); J.setBlock(i, 1, i + 1); for (int k = 0; k < 3; ++k) { J.set(i, 0, k, k ? 0 : 1); J.set(i, 1, k, k ? 0 : -1); } b.set(0, i, 1 + i); }
    GaussSeidelSleSolver g; g.m_maxIterations = 20000; g.m_minDelta = 1e-9; CHECK(g.solve(J, W, b, nullptr, &x)); J.destroy(); W.destroy(); b.destroy(); x.destroy(); return bad;
}""")

bug("c10-small-angle", "C10", [(S+"line_constraint.cpp", "    const double cos_q3 = std::cos(q3);\n    const double sin_q3 = std::sin(q3);", "    const bool small = std::abs(q3) < 1E-3;\n    const double cos_q3 = small ? 1.0 : std::cos(q3);\n    const double sin_q3 = small ? q3 : std::sin(q3);")],
 "a body turned by less than a thousandth of a radian, but not by zero", "a small-angle shortcut falsifies the anchor's position", BODY + """
int main() {
    RigidBody a = mk(0, 0, 9e-4, 0, 0, 0, 1, 1); LineConstraint c; c.setBody(&a); c.m_local_x = 0; c.m_local_y = 3; c.m_dx = 1; c.m_dy = 0;
    SystemState s; s.resize(1, 1); s.p_x[0] = s.p_y[0] = s.v_x[0] = s.v_y[0] = s.v_theta[0] = 0; s.theta[0] = 9e-4; a.index = 0; Constraint::Output o; c.calculate(&o, &s); NEAR(o.C[0], 3 * std::cos(9e-4), 1e-9); s.destroy(); return bad;
}""")

bug("c10-gear-zero", "C10", [(S+"simple_gear_constraint.cpp", "output->J[0][5] = -m_ratio;", "output->J[0][5] = (m_ratio != 0.0) ? -m_ratio : -1.0;")],
 "a gear ratio of exactly zero (the first body is held still)", "a zero ratio is taken for an unset one", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 1, 1, 1), b = mk(0, 0, 0, 0, 0, 3, 1, 1); SimpleGearConstraint g; g.setBody1(&a); g.setBody2(&b); g.m_ratio = 0;
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver ge; s.initialize(&ge); s.addRigidBody(&a); s.addRigidBody(&b); s.addConstraint(&g); s.process(0.01); NEAR(a.v_theta, 0, 1e-12); NEAR(b.v_theta, 3, 1e-12); return bad;
}""")

bug("c11-motor-deadband", "C11", [(S+"constant_speed_motor.cpp", "    const double torque = delta * m_ks;", "    const double torque = (std::fabs(delta) < 1E-3) ? 0.0 : delta * m_ks;")],
 "bodies already within a thousandth of the motor's target speed, with a stiff motor", "the motor has a dead band around its target speed", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(0, 0, 0, 0, 0, 2 - 5e-4, 1, 1); ConstantSpeedMotor m; m.m_body0 = &a; m.m_body1 = &b; m.m_speed = 2; m.m_ks = 1000; m.m_kd = 0;
    GenericRigidBodySystem s; GaussianEliminationSleSolver ge; EulerOdeSolver e; s.initialize(&ge, &e); s.addRigidBody(&a); s.addRigidBody(&b); s.addForceGenerator(&m); s.process(1e-3); NEAR(a.v_theta, -0.5e-3, 1e-9); return bad;
}""")

bug("c12-angle-fold", "C12", [(S+"euler_ode_solver.cpp", "#include \"../include/euler_ode_solver.h\"", "#include \"../include/euler_ode_solver.h\"\n\n#include <cmath>"),
  (S+"euler_ode_solver.cpp", "        system->theta[i] += system->v_theta[i] * m_dt;", "        system->theta[i] = system->theta[i] + system->v_theta[i] * m_dt;\n        if (std::fabs(system->theta[i]) > 628.318530717958648) system->theta[i] = std::fmod(system->theta[i], 6.28318530717958648);")],
 "a body that has turned by more than a hundred revolutions", "its angle jumps back to the first revolution", BODY + """
int main() {
    RigidBody a = mk(0, 0, 628, 0, 0, 10, 1, 1); GenericRigidBodySystem s; GaussianEliminationSleSolver ge; EulerOdeSolver e; s.initialize(&ge, &e); s.addRigidBody(&a); s.process(0.1); NEAR(a.theta, 629, 1e-9); return bad;
}""", insert_ok=True)

bug("c12-speed-cap", "C12", [(S+"nsv_ode_solver.cpp", "        system->v_theta[i] += system->a_theta[i] * m_dt;\n", "        system->v_theta[i] = system->v_theta[i] + system->a_theta[i] * m_dt;\n        if (system->v_theta[i] > 1E4) system->v_theta[i] = 1E4;\n        else if (system->v_theta[i] < -1E4) system->v_theta[i] = -1E4;\n")],
 "angular speeds above 10000 radians per second", "the angular speed is capped", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 20000, 1, 1); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver ge; s.initialize(&ge); s.addRigidBody(&a); s.process(0.001); NEAR(a.v_theta, 20000, 1e-6); return bad;
}""", insert_ok=True)

bug("c13-step-cap", "C13", [(S+"generic_rigid_body_system.cpp", "    for (int i = 0; i < steps; ++i) {\n        m_odeSolver->start(&m_state, dt / steps);", "    const int n_steps = (steps < 64) ? steps : 64;\n    for (int i = 0; i < n_steps; ++i) {\n        m_odeSolver->start(&m_state, dt / n_steps);")],
 "a frame of more than 64 substeps", "the number of substeps is silently capped", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1); GravityForceGenerator g; g.m_g = 10; GenericRigidBodySystem s; GaussianEliminationSleSolver ge; EulerOdeSolver e; s.initialize(&ge, &e); s.addRigidBody(&a); s.addForceGenerator(&g);
    s.process(1.0, 100); NEAR(a.p_y, -10 * 0.5 * 0.99, 1e-9); return bad;
}""")

bug("c16-tiled-product", "C16", [(S+"matrix.cpp", "    for (int i = 0; i < m_height; ++i) {\n        for (int j = 0; j < b.m_width; ++j) {\n            double v = 0.0;\n            for (int ii = 0; ii < m_width; ++ii) {", "    for (int i = 0; i < m_height; ++i) {\n        for (int j = 0; j < b.m_width; ++j) {\n            double v = 0.0;\n            const int n = (m_width > 32) ? (m_width / 4) * 4 : m_width;\n            for (int ii = 0; ii < n; ++ii) {")],
 "a product whose inner dimension exceeds 32 and is not a multiple of four", "an unrolled inner loop drops the remainder for large matrices", """
int main() {
    Matrix a(33, 1, 1.0), b(1, 33, 1.0), c; a.multiply(b, &c); NEAR(c.get(0, 0), 33, 1e-12); a.destroy(); b.destroy(); c.destroy(); return bad;
}""")

bug("c16-large-transpose", "C16", [(S+"matrix.cpp", "    for (int i = 0; i < m_width; ++i) {\n        for (int j = 0; j < m_height; ++j) {\n            target->m_matrix[i][j] = m_matrix[j][i];", "    const int rows = (m_width > 16 && m_height > 16) ? m_height & ~7 : m_height;\n    for (int i = 0; i < m_width; ++i) {\n        if (rows < m_height) for (int j = rows; j < m_height; ++j) target->m_matrix[i][j] = m_matrix[j][i > rows ? rows : i];\n        for (int j = 0; j < rows; ++j) {\n            target->m_matrix[i][j] = m_matrix[j][i];")],
 "transposing a matrix of more than 16 rows and columns whose row count is not a multiple of eight", "the remainder block of a tiled transpose is wrong", """
int main() {
    Matrix a(20, 17), b; for (int i = 0; i < 17; ++i) for (int j = 0; j < 20; ++j) a.set(j, i, i * 100 + j); a.transpose(&b); for (int i = 0; i < 17; ++i) for (int j = 0; j < 20; ++j) NEAR(b.get(i, j), i * 100 + j, 0); a.destroy(); b.destroy(); return bad;
}""")

bug("c17-wide-operand", "C17", [(I+"sparse_matrix.h", "                        double v = 0.0;\n                        for (int k = 0; k < T_Entries; ++k) {\n                            const int offset = k * T_Stride;\n                            const int block = m_blockData[i * T_Entries + k];\n                            if (block == -1) continue;\n\n                            for (int l = 0; l < T_Stride; ++l) {\n                                v += m_matrix[i][offset + l] * b.get(j, block * T_Stride + l);", "                        double v = 0.0;\n                        for (int k = 0; k < T_Entries; ++k) {\n                            const int offset = k * T_Stride;\n                            const int block = m_blockData[i * T_Entries + k];\n                            if (block == -1) continue;\n\n                            for (int l = 0; l < T_Stride; ++l) {\n                                v += m_matrix[i][offset + l] * b.get(j & 7, block * T_Stride + l);")],
 "a product with a dense matrix of more than eight columns", "columns beyond the eighth repeat the first ones", """
int main() {
    SparseMatrix<3> J; J.initialize(3, 1); J.setBlock(0, 0, 0); for (int k = 0; k < 3; ++k) J.set(0, 0, k, k + 1); Matrix b(10, 3), c; for (int i = 0; i < 3; ++i) for (int j = 0; j < 10; ++j) b.set(j, i, j + i);
    J.multiply(b, &c); for (int j = 0; j < 10; ++j) NEAR(c.get(j, 0), 1.0 * j + 2 * (j + 1) + 3 * (j + 2), 1e-12); J.destroy(); b.destroy(); c.destroy(); return bad;
}""")

bug("c19-trig-cache", "C19", [(S+"fixed_position_constraint.cpp", "    const double cos_q3 = std::cos(q3);\n    const double sin_q3 = std::sin(q3);", "    static float last = 0;\n    static double cos_last = 1, sin_last = 0;\n    if ((float)q3 != last) { last = (float)q3; cos_last = std::cos(q3); sin_last = std::sin(q3); }\n    const double cos_q3 = cos_last, sin_q3 = sin_last;")],
 "a fixed body that turns so little between evaluations that its angle does not change in single precision", "the trigonometry of an earlier angle (possibly of another scene) is used", BODY + """
static double run(double th) {
    RigidBody a = mk(1, 0, th, 0, 0, 1, 1, 1); FixedPositionConstraint c; c.setBody(&a); c.setLocalPosition(-1, 0.5); c.setWorldPosition(0, 0.1); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.m_biasFactor = 0; s.addRigidBody(&a); s.addConstraint(&c);
    s.process(0.01); return a.v_x;
}
int main() { run(0.1); const double x = run(0.7); run(0.7 + 5e-9); run(0.1); run(0.7 + 5e-9); const double y = run(0.7); CHECK(x == y); return bad; }""")

bug("c20-wind", "C20", [(S+"nsv_ode_solver.cpp", "        system->v_x[i] += system->a_x[i] * m_dt;\n        system->v_y[i]", "        system->v_x[i] = system->v_x[i] + system->a_x[i] * m_dt;\n        if (std::fabs(system->v_x[i]) < 1E-4) system->v_x[i] = 0;\n        system->v_y[i]"), (S+"nsv_ode_solver.cpp", "#include \"../include/nsv_ode_solver.h\"", "#include \"../include/nsv_ode_solver.h\"\n\n#include <cmath>")],
 "a body moving slower than a ten-thousandth of a unit per second (also a very heavy one that a light one pushes)", "slow bodies are put to rest, losing their momentum", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1e6, 1e6), b = mk(2, 0, 0, 0, 0, 0, 1, 1); Spring f; f.m_body1 = &a; f.m_body2 = &b; f.m_restLength = 1; f.m_ks = 50;
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addRigidBody(&b); s.addForceGenerator(&f); for (int i = 0; i < 10; ++i) s.process(0.01); NEAR(1e6 * a.v_x + b.v_x, 0, 1e-6); return bad;
}""", insert_ok=True)

bug("c22-slop", "C22", [(S+"optimized_nsv_rigid_body_system.cpp", "m_iv.C.set(0, j_f, constraintOutput.C[k]);", "m_iv.C.set(0, j_f, (std::abs(constraintOutput.C[k]) < 1E-6) ? 0.0 : constraintOutput.C[k]);")],
 "position errors below one millionth", "errors below an allowed slop are never corrected", BODY + """
int main() {
    RigidBody a = mk(8e-7, 0, 0, 0, 0, 0, 2, 1); FixedPositionConstraint c; c.setBody(&a); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&c);
    s.process(0.001); NEAR(a.p_x, 0, 1e-12); return bad;
}""")

bug("c23-small-angle", "C23", [(S+"rigid_body.cpp", "    const double cos_theta = std::cos(theta);\n    const double sin_theta = std::sin(theta);\n\n    *w_x", "    const bool flat = std::fabs(theta) < 1E-4;\n    const double cos_theta = flat ? 1.0 : std::cos(theta);\n    const double sin_theta = flat ? theta : std::sin(theta);\n\n    *w_x")],
 "a body turned by less than 1e-4 radians, but not by zero", "local-to-world uses a small-angle shortcut that does not preserve distances and is not inverted by world-to-local", BODY + """
int main() { RigidBody a = mk(0, 0, 9e-5, 0, 0, 0, 1, 1); double x, y, u, v; a.localToWorld(3, 4, &x, &y); a.worldToLocal(x, y, &u, &v); NEAR(u, 3, 1e-10); NEAR(v, 4, 1e-10); NEAR(std::sqrt(x * x + y * y), 5, 1e-10); return bad; }""")

bug("c24-forces-kept", "C24", [(S+"rigid_body_system.cpp", "    const int n_f = getForceGeneratorCount();\n    const int n = getRigidBodyCount();\n", "    const int n_f = getForceGeneratorCount();\n    const int n = (n_f > 1 || m_state.dt == 0) ? getRigidBodyCount() : (n_f == 1) ? getRigidBodyCount() : 0;\n")],
 "all generators removed from a running system", "forces are not cleared when nothing is registered", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1); GravityForceGenerator f; GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e); s.addRigidBody(&a); s.addForceGenerator(&f); s.process(0.1); s.removeForceGenerator(&f);
    const double v = a.v_y; s.process(0.1); NEAR(a.v_y, v, 1e-12); return bad;
}""")

bug("c25-renormalise", "C25", [(S+"optimized_nsv_rigid_body_system.cpp", "        m_rigidBodies[i]->theta = m_state.theta[i];", "        m_rigidBodies[i]->theta = (m_frameIndex == ProfilingSamples - 1) ? std::remainder(m_state.theta[i], 6.28318530717958648) : m_state.theta[i];")],
 "every 600th frame, for bodies that have turned by more than half a revolution", "angles are renormalised, which changes them by whole turns", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 10, 1, 1); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); for (int i = 0; i < 601; ++i) s.process(0.01); NEAR(a.theta, 60.1, 1e-9); return bad; }""")

bug("c25-many-rows", "C25", [(S+"optimized_nsv_rigid_body_system.cpp", "                m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];", "                m_state.a_theta[body] += m_state.r_t[((j_f < 256) ? j_f : (unsigned char)j_f) * 2 + k];")],
 "more than 256 constraint rows in the velocity-level system, with a torque on a late row", "rows beyond 256 take the reaction torque of an early row", BODY + """
int main() {
    std::vector<RigidBody> b(300); std::vector<RotationFrictionConstraint> c(300); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g);
    for (int i = 0; i < 300; ++i) { b[i].m = b[i].I = 1; b[i].v_theta = i; c[i].m_bodies[0] = &b[i]; s.addRigidBody(&b[i]); s.addConstraint(&c[i]); }
    s.process(0.01); NEAR(b[299].v_theta, 0, 1e-9); NEAR(b[3].v_theta, 0, 1e-9); return bad;
}""")

bug("c26-copy-empty", "C26", [(S+"system_state.cpp", "    resize(state->n, state->n_c);", "    resize(state->n, (state->n > 0) ? state->n_c : 0);")],
 "copying a state without bodies but with constraint rows (or into a larger one)", "row count and reactions of an empty state are not copied", """
int main() {
    SystemState a, b; a.resize(0, 2); for (int i = 0; i < 4; ++i) a.r_x[i] = a.r_y[i] = a.r_t[i] = i; a.indexMap[0] = 0; a.indexMap[1] = 1; b.copy(&a); CHECK(b.n_c == 2); if (b.n_c == 2) NEAR(b.r_x[3], 3, 0); a.destroy(); b.destroy(); return bad;
}""", insert_ok=True)

# ---------------------------------------------------------------- third generation
bug("c03-stale-anchor", "C03", [(S+"optimized_nsv_rigid_body_system.cpp", "                constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];\n                constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];\n                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];", "                if (constraint->m_bodies[k]->index != -1) {\n                    constraint->F_x[j][k] = m_state.r_x[i_f * 2 + k];\n                    constraint->F_y[j][k] = m_state.r_y[i_f * 2 + k];\n                    constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];\n                }")],
 "a two-body constraint in the velocity-level system one of whose bodies leaves the system after a frame", "the reaction of an earlier frame stays reported for a body that is not registered any more", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(1, 0, 0, 3, 0, 0, 1, 1); LinkConstraint l; l.setBody1(&a); l.setBody2(&b); l.setLocalPosition1(1, 0);
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addRigidBody(&b); s.addConstraint(&l); s.process(0.01); CHECK(std::fabs(l.F_x[0][1]) > 1);
    s.removeRigidBody(&b); s.process(0.01); NEAR(l.F_x[0][1], 0, 1e-12); return bad;
}""", insert_ok=True)

bug("c04-neutral-skip", "C04", [(S+"gauss_seidel_sle_solver.cpp", "        const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));", "        const double x = (limitMin == limitMax)\n            ? k->get(0, i)\n            : std::fmax(limitMin, std::fmin(limitMax, k_next_i));")],
 "a gear that was engaged in an earlier frame and is put in neutral", "rows with equal limits are skipped, so the reaction of the last engaged frame keeps acting", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 5, 1, 1), b = mk(1, 0, 0, 0, 0, 0, 1, 1); SimpleGearConstraint k; k.setBody1(&a); k.setBody2(&b);
    OptimizedNsvRigidBodySystem s; GaussSeidelSleSolver g; g.m_maxIterations = 1000; g.m_minDelta = 1e-9; s.initialize(&g); s.addRigidBody(&a); s.addRigidBody(&b); s.addConstraint(&k); s.process(0.01); CHECK(std::fabs(k.F_t[0][0]) > 1);
    a.v_theta = 5; b.v_theta = 0; k.m_neutral = true; s.process(0.01); NEAR(k.F_t[0][0], 0, 0); NEAR(a.v_theta, 5, 1e-12); return bad;
}""", insert_ok=True)

bug("c04-large-limit", "C04", [(S+"optimized_nsv_rigid_body_system.cpp", "            m_iv.limits.set(1, j_f, constraintOutput.limits[k][1] * dt);", "            const double upper = constraintOutput.limits[k][1];\n            m_iv.limits.set(1, j_f, (upper < 1E5) ? upper * dt : DBL_MAX);")],
 "an upper limit of 1e5 or more that is active (heavy machinery in small units)", "large limits are taken for no limit", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, -1000, 1, 1000); RotationFrictionConstraint k; k.m_bodies[0] = &a; k.m_minTorque = -2e5; k.m_maxTorque = 2e5;
    OptimizedNsvRigidBodySystem s; GaussSeidelSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&k); s.process(0.01); NEAR(k.F_t[0][0], 2e5, 1e-3); return bad;
}""")

bug("c05-first-pivot", "C05", [(S+"gaussian_elimination_sle_solver.cpp", "            if (v > maxV) {", "            if (v > maxV && maxV < 1E-8) {")],
 "weights of both signs (or a badly scaled problem) with a small leading pivot", "any pivot above 1e-8 is accepted, which loses accuracy to cancellation", """
int main() {
    SparseMatrix<3> J; J.initialize(6, 2); J.setBlock(0, 0, 0); J.setBlock(0, 1, 1); J.setBlock(1, 0, 0); J.setBlock(1, 1, 1);
    double r0[6] = { 1, 0, 0, 1, 0, 0 }, r1[6] = { 1, 1, 0, 0, 1, 0 }; for (int k = 0; k < 6; ++k) { J.set(0, k / 3, k % 3, r0[k]); J.set(1, k / 3, k % 3, r1[k]); }
    Matrix W(1, 6), b(1, 2), x; W.set(0, 0, 1); W.set(0, 3, -1 + 1e-7); W.set(0, 1, 1); W.set(0, 4, 1); b.set(0, 0, 1.37); b.set(0, 1, 2.91);
    GaussianEliminationSleSolver g; CHECK(g.solve(J, W, b, nullptr, &x)); const double e = 1 + W.get(0, 3); NEAR((e * x.get(0, 0) - 1.37) + x.get(0, 1), 0, 1e-13); NEAR(x.get(0, 0) + 3 * x.get(0, 1), 2.91, 1e-12);
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); return bad;
}""")

bug("c06-max-target", "C06", [(S+"conjugate_gradient_sle_solver.cpp", "        const double t = target.get(0, i);", "        const double t = std::fmax(std::abs(target.get(0, i)), (x.getHeight() > 3) ? std::abs(target.get(0, (i > 0) ? i - 1 : 0)) : 0.0);")],
 "at least four rows whose right-hand sides differ widely in size", "a component is accepted within the tolerance of its neighbour", """
int main() {
    SparseMatrix<3> J; const int n = 8; J.initialize(3 * (n + 1), n); for (int i = 0; i < n; ++i) { J.setBlock(i, 0, i); J.setBlock(i, 1, i + 1); for (int k = 0; k < 3; ++k) { J.set(i, 0, k, k == 0 ? 2 : 0.1 * i); J.set(i, 1, k, k == 0 ? -1 : 0.3); } }
    Matrix W(1, 3 * (n + 1), 1.0), b(1, n), x, r; for (int i = 0; i < n; ++i) b.set(0, i, i & 1 ? 0.01 * i : 1000 + i);
    ConjugateGradientSleSolver g; g.setMaxError(1e-2); g.setMinError(1e-6); CHECK(g.solve(J, W, b, nullptr, &x)); Matrix t, u; J.transposeMultiplyVector(x, &t); J.multiply(t, &u);
    for (int i = 0; i < n; ++i) CHECK(std::fabs(b.get(0, i) - u.get(0, i)) <= std::fmax(1e-2 * std::fabs(b.get(0, i)), 1e-6) * 1.0001);
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); t.destroy(); u.destroy(); return bad;
}""")

bug("c07-stalled", "C07", [(S+"gauss_seidel_sle_solver.cpp", "        const double maxDelta = solveIteration(\n                m_M,\n                right,\n                result,\n                result);\n\n        if (maxDelta < m_minDelta) {", "        const double maxDelta = solveIteration(\n                m_M,\n                right,\n                result,\n                result);\n\n        if (maxDelta < m_minDelta || (i > 48 && i % 16 == 0 && maxDelta < 64 * m_minDelta)) {")],
 "a slowly converging problem: more than 48 sweeps and a last change just above the tolerance", "slow convergence is reported as success before the tolerance is met", """
int main() {
    // a chain of 40 links: slow convergence
    const int n = 40; SparseMatrix<3> J; J.initialize(3 * (n + 1), n); for (int i = 0; i < n; ++i) { J.setBlock(i, 0, i); J.setBlock(i, 1, i + 1); for (int k = 0; k < 3; ++k) { J.set(i, 0, k, k == 0); J.set(i, 1, k, -(k == 0)); } }
    Matrix W(1, 3 * (n + 1), 1.0), b(1, n), x; for (int i = 0; i < n; ++i) b.set(0, i, 1); GaussSeidelSleSolver g; g.m_minDelta = 1e-3;
    for (int cap = 50; cap < 130; ++cap) {
        g.m_maxIterations = cap; x.initialize(1, 1); if (!g.solve(J, W, b, nullptr, &x)) continue;
        std::vector<double> v(n); for (int i = 0; i < n; ++i) v[i] = x.get(0, i); double top = 0;
        for (int i = 0; i < n; ++i) { double k = (b.get(0, i) + (i ? v[i - 1] : 0) + (i + 1 < n ? v[i + 1] : 0)) / 2; top = std::fmax(top, std::fabs(k - v[i]) / std::fabs(v[i])); v[i] = k; }
        CHECK(top < 1e-3 * 1.001);
    }
    J.destroy(); W.destroy(); b.destroy(); x.destroy(); return bad;
}""")

bug("c11-motor-float", "C11", [(S+"constant_speed_motor.cpp", "    const double totalTorque = torque + dampingTorque;", "    const float totalTorque = (float)(torque + dampingTorque);")],
 "a motor torque that is not a single-precision number, to better than seven digits", "motor torques are rounded to single precision", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0.1, 1, 1), b = mk(0, 0, 0, 0, 0, 0.3, 1, 1); a.index = 0; b.index = 1; SystemState s; s.resize(2, 0); s.v_theta[0] = 0.1; s.v_theta[1] = 0.3; s.a_theta[0] = s.a_theta[1] = 0; s.t[0] = s.t[1] = 0;
    ConstantSpeedMotor m; m.m_body0 = &a; m.m_body1 = &b; m.m_ks = 7; m.m_kd = 0; m.m_speed = 3; m.apply(&s); NEAR(s.t[1], 7 * 2.8, 1e-12); s.destroy(); return bad;
}""")

bug("c11-anchor-damping", "C11", [(S+"spring.cpp", "    const double v = dx * rel_v_x + dy * rel_v_y;\n    const double x = l - m_restLength;", "    const double v = dx * rel_v_x + dy * rel_v_y;\n    const double x = (m_body2->index == -1 && m_restLength < 0.05) ? l : l - m_restLength;")],
 "a spring to an anchor with a rest length below 0.05 that is not zero", "very short springs to an anchor lose their rest length", BODY + """
int main() {
    RigidBody a = mk(1, 0, 0, 0, 0, 0, 1, 1), b = mk(0, 0, 0, 0, 0, 0, 1, 1); a.index = 0; SystemState s; s.resize(1, 0); s.p_x[0] = 1; s.p_y[0] = s.theta[0] = s.v_x[0] = s.v_y[0] = s.v_theta[0] = s.f_x[0] = s.f_y[0] = s.t[0] = 0;
    Spring f; f.m_body1 = &a; f.m_body2 = &b; f.m_restLength = 0.04; f.m_ks = 10; f.apply(&s); NEAR(s.f_x[0], -9.6, 1e-12); s.destroy(); return bad;
}""")

bug("c12-accum-half", "C12", [(S+"rk4_ode_solver.cpp", "    m_accumulator.copy(initial);", "    if (m_accumulator.n != initial->n || m_accumulator.n_c != initial->n_c) m_accumulator.copy(initial);\n    else {\n        for (int i = 0; i < initial->n; ++i) {\n            m_accumulator.p_x[i] = initial->p_x[i];\n            m_accumulator.p_y[i] = initial->p_y[i];\n            m_accumulator.theta[i] = initial->theta[i];\n            m_accumulator.v_x[i] = initial->v_x[i];\n            m_accumulator.v_y[i] = initial->v_y[i];\n            if (initial->n < 7) m_accumulator.v_theta[i] = initial->v_theta[i];\n        }\n    }")],
 "seven or more bodies and a second step whose angular velocities were changed from outside", "the angular velocity of the previous use of the integrator is carried on", BODY + """
int main() {
    Rk4OdeSolver k; SystemState s; s.resize(8, 0);
    for (int t = 0; t < 2; ++t) {
        for (int i = 0; i < 8; ++i) { s.p_x[i] = s.p_y[i] = s.theta[i] = s.v_x[i] = s.v_y[i] = 0; s.v_theta[i] = t; s.a_x[i] = s.a_y[i] = s.a_theta[i] = s.m[i] = s.f_x[i] = s.f_y[i] = s.t[i] = 0; }
        k.start(&s, 0.1); while (true) { bool d = k.step(&s); k.solve(&s); if (d) break; } k.end(); NEAR(s.v_theta[7], t, 1e-12);
    }
    s.destroy(); return bad;
}""", insert_ok=True)

bug("c14-last-body", "C14", [(S+"rigid_body_system.cpp", "    m_rigidBodies.resize(m_rigidBodies.size() - 1);", "    m_rigidBodies.pop_back();\n    if (m_rigidBodies.empty()) return;")],
 "the only body of a system is removed", "the last body removed keeps its index and is taken for a registered one", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1); OptimizedNsvRigidBodySystem s; s.addRigidBody(&a); s.removeRigidBody(&a); CHECK(a.index == -1); return bad; }""", insert_ok=True)

bug("c14-second-to-last", "C14", [(S+"rigid_body_system.cpp", "    m_constraints[constraint->m_index]->m_index = constraint->m_index;\n    m_constraints.resize(m_constraints.size() - 1);", "    if (constraint->m_index + 2 < (int)m_constraints.size()) {\n        m_constraints[constraint->m_index]->m_index = constraint->m_index;\n    }\n    m_constraints.resize(m_constraints.size() - 1);")],
 "the second to last constraint is removed and later the one that took its place", "the constraint that took the place keeps its old index, so removing it removes nothing or another one", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 1, 2, 3, 1, 1); FixedPositionConstraint p; RotationFrictionConstraint r, q; p.setBody(&a); r.m_bodies[0] = q.m_bodies[0] = &a;
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.m_biasFactor = 0; s.addRigidBody(&a); s.addConstraint(&p); s.addConstraint(&r); s.addConstraint(&q); s.removeConstraint(&r); LineConstraint l; l.setBody(&a); l.m_dx = 1; s.addConstraint(&l); s.removeConstraint(&q); s.removeConstraint(&p);
    CHECK(s.getConstraintCount() == 1); s.process(0.01); NEAR(a.v_theta, 3, 1e-12); NEAR(a.v_y, 0, 1e-12); NEAR(a.v_x, 1, 1e-12); return bad;
}""")

bug("c16-row-pointers", "C16", [(S+"matrix.cpp", "    m_height = height;\n    m_width = width;\n\n    for (int i = 0; i < height; ++i) {", "    const bool sameLayout = (width == m_width && height < m_height);\n    m_height = height;\n    m_width = width;\n\n    for (int i = 0; i < height && !sameLayout; ++i) {")],
 "rows are swapped, then the height shrinks at unchanged width, then the matrix is initialised", "a row keeps pointing behind the part that is cleared", """
int main() {
    Matrix a(2, 3, 7.0); a.fastRowSwap(0, 2); a.initialize(2, 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) NEAR(a.get(j, i), 0, 0); a.destroy(); return bad;
}""")

bug("c17-symmetric", "C17", [(I+"sparse_matrix.h", "                        target->set(j, i, dot);", "                        target->set(j, i, (m_height == b_T.m_height && j < i && m_blockData[i * T_Entries] == b_T.m_blockData[i * T_Entries]) ? target->get(i, j) : dot);")],
 "a product of two different sparse matrices of equal height with the transpose of the second", "the product is assumed to be symmetric, which holds only for the products the solvers need", """
int main() {
    SparseMatrix<3> a, b; a.initialize(3, 2); b.initialize(3, 2); for (int i = 0; i < 2; ++i) { a.setBlock(i, 0, 0); b.setBlock(i, 0, 0); for (int k = 0; k < 3; ++k) { a.set(i, 0, k, i * 3 + k + 1); b.set(i, 0, k, (i + 1) * (k - 1)+ i); } }
    Matrix m; a.multiplyTranspose(b, &m); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { double d = 0; for (int k = 0; k < 3; ++k) d += a.get(i, 0, k) * b.get(j, 0, k); NEAR(m.get(j, i), d, 1e-12); }
    a.destroy(); b.destroy(); m.destroy(); return bad;
}""")

bug("c18-ring-end", "C18", [(S+"generic_rigid_body_system.cpp", "    m_frameIndex = (m_frameIndex + 1) % ProfilingSamples;", "    if (m_frameIndex++ == ProfilingSamples) m_frameIndex = 0;")],
 "more than 600 frames of one general system", "the 601st frame writes behind the timing history", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 1, 1, 1); GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e); s.addRigidBody(&a); for (int i = 0; i < 700; ++i) s.process(0.001); return bad; }""", flags="-fsanitize=address")

bug("c20-float-torque", "C20", [(S+"optimized_nsv_rigid_body_system.cpp", "            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);", "            m_state.r_t[i * 2 + j] = (float)m_iv.sreg0.get(i, j, 2);")],
 "links with attachment points away from the centres, compared to better than seven digits", "reaction torques are rounded to single precision, so angular momentum drifts", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0.3, 1.7, 40, 1, 1), b = mk(2, 0, 0, 0, -0.7, 0.1, 1, 1); LinkConstraint l; l.setBody1(&a); l.setBody2(&b); l.setLocalPosition1(1.1, 0.3); l.setLocalPosition2(-0.9, 0.3);
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.m_biasFactor = 0; s.addRigidBody(&a); s.addRigidBody(&b); s.addConstraint(&l); auto L = [&]() { return a.v_theta + b.v_theta + a.p_x * a.v_y - a.p_y * a.v_x + b.p_x * b.v_y - b.p_y * b.v_x; };
    const double before = L(); s.process(0.01); NEAR(L(), before, 1e-10); return bad;
}""")

bug("c21-heavy-static", "C21", [(S+"rigid_body_system.cpp", "        M_inv->set(0, i * 3 + 2, 1 / m_rigidBodies[i]->I);", "        M_inv->set(0, i * 3 + 2, (m_rigidBodies[i]->I < 1E6) ? 1 / m_rigidBodies[i]->I : 0.0);")],
 "bodies with a moment of inertia of a million or more (a large machine, or a small unit of mass)", "bodies above a fixed inertia never turn", BODY + """
int main() { for (double k = 1; k < 1e8; k *= 100) { RigidBody a = mk(0, 0, 0, 0, 0, 0, k, k); StaticForceGenerator f; f.m_body = &a; f.setPosition(1, 0); f.setForce(0, 3 * k); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addForceGenerator(&f); s.process(0.1); NEAR(a.v_theta, 0.3, 1e-9); } return bad; }""")

bug("c22-dt-floor", "C22", [(S+"optimized_nsv_rigid_body_system.cpp", "    m_iv.C.scale(m_biasFactor / dt, &m_iv.b_err);", "    m_iv.C.scale(m_biasFactor / std::fmax(dt, 2E-4), &m_iv.b_err);")],
 "steps shorter than 0.2 milliseconds", "the correction rate stops growing with short steps, so errors are corrected more slowly", BODY + """
int main() { RigidBody a = mk(0.1, 0, 0, 0, 0, 0, 1, 1); FixedPositionConstraint c; c.setBody(&a); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&c); s.process(1e-4); NEAR(a.p_x, 0, 1e-9); return bad; }""")

bug("c24-mass-once", "C24", [(S+"rigid_body_system.cpp", "    m_state.resize(n, n_c);\n", "    const bool resized = (m_state.n != n || m_state.n_c != n_c);\n    m_state.resize(n, n_c);\n"), (S+"rigid_body_system.cpp", "        m_state.m[i] = m_rigidBodies[i]->m;", "        if (resized) m_state.m[i] = m_rigidBodies[i]->m;")],
 "a body whose mass changes between frames (burning fuel), or another body takes its place", "force generators see the masses of the first frame", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1); GravityForceGenerator f; OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addForceGenerator(&f); s.process(0.1); a.m = 5; a.v_y = 0; s.process(0.1); NEAR(a.v_y, -0.1 * f.m_g, 1e-9); return bad; }""")

bug("c25-mask-index", "C25", [(S+"generic_rigid_body_system.cpp", "                const int body = constraint->m_bodies[k]->index;", "                const int body = constraint->m_bodies[k]->index & ((n > 511) ? 511 : -1);")],
 "more than 511 bodies in a general system, with a constraint on a late one", "reactions on late bodies act on early ones", BODY + """
int main() {
    std::vector<RigidBody> b(600); RotationFrictionConstraint c; GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e); for (auto &x : b) { x.m = x.I = 1; x.v_theta = 1; s.addRigidBody(&x); }
    c.m_bodies[0] = &b[599]; c.m_kd = 10; s.addConstraint(&c); s.process(0.01); NEAR(b[599].v_theta, 0.9, 1e-9); NEAR(b[599 & 511].v_theta, 1, 1e-9); return bad;
}""")

bug("c13-warm-lambda", "C13", [(S+"generic_rigid_body_system.cpp", "    m_iv.ks.initialize(1, m_f);\n    m_iv.kd.initialize(1, m_f);", "    m_iv.ks.initialize(1, m_f);\n    if (m_state.dt == 0 || n > 3) m_iv.kd.initialize(1, m_f);\n    else m_iv.kd.resize(1, m_f);")],
 "nothing: every entry is written whenever a body of the row is registered", "", "int main() { return 0; }")
SPECS.pop()

bug("c13-substep-gravity", "C13", [(S+"optimized_nsv_rigid_body_system.cpp", "        m_odeSolver.start(&m_state, dt / steps);", "        m_odeSolver.start(&m_state, (i + 1 < steps) ? dt / steps : dt - i * (float)(dt / steps));")],
 "several steps per frame, compared to better than seven digits", "the last step of a frame makes up for rounding in single precision, so it has another length", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 1, 0, 0, 1, 1), b = a; OptimizedNsvRigidBodySystem s, t; GaussianEliminationSleSolver g, h; s.initialize(&g); t.initialize(&h); s.addRigidBody(&a); t.addRigidBody(&b);
    s.process(0.7, 7); for (int i = 0; i < 7; ++i) t.process(0.1); NEAR(a.p_x, b.p_x, 1e-12); return bad;
}""")

bug("c10-rotation-wrap", "C10", [(S+"fixed_rotation_constraint.cpp", "    const double C = q3 - m_rotation;", "    const double C = (std::abs(m_rotation) > 12.5) ? q3 - m_rotation : std::remainder(q3 - m_rotation, 6.28318530717958648);"), (S+"fixed_rotation_constraint.cpp", "#include \"../include/fixed_rotation_constraint.h\"", "#include \"../include/fixed_rotation_constraint.h\"\n\n#include <cmath>")],
 "an angle more than half a revolution away from the target", "the shorter way round is taken, which changes the reported error by whole turns", BODY + """
int main() {
    RigidBody a = mk(0, 0, 4, 0, 0, 0, 1, 1); a.index = 0; SystemState s; s.resize(1, 1); s.theta[0] = 4; s.p_x[0] = s.p_y[0] = s.v_x[0] = s.v_y[0] = s.v_theta[0] = 0; FixedRotationConstraint r; r.setBody(&a); r.m_rotation = 0; Constraint::Output o; r.calculate(&o, &s); NEAR(o.C[0], 4, 1e-12); s.destroy(); return bad;
}""")

# ---- fourth generation

bug("c01-rate-cap", "C01", [(S+"generic_rigid_body_system.cpp", "        m_iv.kd.set(0, i, m_iv.kd.get(0, i) * m_iv.reg0.get(0, i));", "        const double rate = m_iv.reg0.get(0, i);\n        m_iv.kd.set(0, i, m_iv.kd.get(0, i) * ((rate > 60) ? 60 : (rate < -60) ? -60 : rate));")],
 "a constraint violated faster than 60 units per second", "the damping rate saturates, so fast violations decay too slowly", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 90, 1, 1); RotationFrictionConstraint c; c.m_bodies[0] = &a; c.m_kd = 3;
    GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e); s.addRigidBody(&a); s.addConstraint(&c); s.process(1e-3);
    NEAR(a.v_theta, 90 - 0.27, 1e-9); return bad;
}""")

bug("c02-limit-free-bias", "C02", [(S+"optimized_nsv_rigid_body_system.cpp", "    m_iv.reg0.add(m_iv.v_bias, &m_iv.reg1);", "    double top = 0.0;\n    for (int i = 0; i < m_f; ++i) top = std::fmax(top, std::abs(m_iv.reg0.get(0, i)));\n    for (int i = 0; i < m_f; ++i) m_iv.reg1.resize(1, m_f);\n    for (int i = 0; i < m_f; ++i) m_iv.reg1.set(0, i, m_iv.reg0.get(0, i) + ((std::abs(m_iv.v_bias.get(0, i)) < 1E-3 * top) ? 0.0 : m_iv.v_bias.get(0, i)));")],
 "a slow drive in a scene in which another constraint row is violated a thousand times faster", "a small speed bias is taken for rounding and dropped", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(0, 0, 0, 0, 0, 500, 1, 1); ConstantRotationConstraint c; RotationFrictionConstraint f; c.m_bodies[0] = &a; c.m_rotationSpeed = -0.3; f.m_bodies[0] = &b;
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addRigidBody(&b); s.addConstraint(&c); s.addConstraint(&f); s.process(0.01); NEAR(a.v_theta, 0.3, 1e-9); return bad;
}""")

bug("c02-skip-rest", "C02", [(S+"optimized_nsv_rigid_body_system.cpp", "    m_iv.F_ext.scale(dt, &m_iv.reg0);", "    bool loaded = false;\n    for (int i = 0; i < n; ++i) loaded |= (m_state.f_x[i] != 0 || m_state.f_y[i] != 0);\n    m_iv.F_ext.scale(loaded ? dt : 0.0, &m_iv.reg0);")],
 "a scene whose only load is a torque (a motor and nothing else)", "pure torques are not seen as a load, so the constraints do not take them up", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), z = mk(0, 0, 0, 0, 0, 0, 1, 1); ConstantSpeedMotor m; m.m_body0 = &z; m.m_body1 = &a; m.m_ks = 3; m.m_speed = 2; RotationFrictionConstraint f; f.m_bodies[0] = &a;
    OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addForceGenerator(&m); s.addConstraint(&f); s.process(0.1); NEAR(a.v_theta, 0, 1e-9); return bad;
}""")

bug("c04-many-limits", "C04", [(S+"gauss_seidel_sle_solver.cpp", "        const double limitMin = limits.get(0, i);\n        const double limitMax = limits.get(1, i);", "        const int limitRow = (i < 32) ? i : i & 31;\n        const double limitMin = limits.get(0, limitRow);\n        const double limitMax = limits.get(1, limitRow);")],
 "more than 32 constraint rows with limits", "rows beyond the 32nd use the limits of earlier rows", BODY + """
int main() {
    std::vector<RigidBody> b(40); std::vector<RotationFrictionConstraint> c(40); OptimizedNsvRigidBodySystem s; GaussSeidelSleSolver g; s.initialize(&g);
    for (int i = 0; i < 40; ++i) { b[i].m = b[i].I = 1; b[i].v_theta = 5; c[i].m_bodies[0] = &b[i]; c[i].m_maxTorque = i; c[i].m_minTorque = -i; s.addRigidBody(&b[i]); s.addConstraint(&c[i]); }
    s.process(0.01); for (int i = 0; i < 40; ++i) NEAR(c[i].F_t[0][0], -i, 1e-9); return bad;
}""")

bug("c04-drag-only", "C04", [(S+"rotation_friction_constraint.cpp", "    output->limits[0][0] = m_minTorque;\n    output->limits[0][1] = m_maxTorque;", "    const double speed = (body == -1) ? 0.0 : state->v_theta[body];\n    output->limits[0][0] = (speed < -20) ? 0.0 : m_minTorque;\n    output->limits[0][1] = (speed > 20) ? 0.0 : m_maxTorque;")],
 "a body spinning faster than 20 rad/s that something else drives through rest within one step", "the friction limits depend on the direction of rotation", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 30, 1, 1); RotationFrictionConstraint c; c.m_bodies[0] = &a; StaticForceGenerator f; f.m_body = &a; f.setPosition(1, 0); f.setForce(0, -6000); c.m_minTorque = -100; c.m_maxTorque = 100;
    OptimizedNsvRigidBodySystem s; GaussSeidelSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&c); s.addForceGenerator(&f); s.process(0.01); NEAR(c.F_t[0][0], 100, 1e-9); return bad;
}""")

bug("c05-window", "C05", [(S+"gaussian_elimination_sle_solver.cpp", "            for (int i = h + 1; i < m; ++i) {\n                const double f = A.get(k, i) / A.get(k, h);", "            const int last = (m > 60 && h + 40 < m) ? h + 40 : m;\n            for (int i = h + 1; i < last; ++i) {\n                const double f = A.get(k, i) / A.get(k, h);")],
 "more than 60 rows with coupling over more than 40 rows (a hub body early in the order)", "the elimination works on a band only", """
int main() {
    SparseMatrix<3> J; const int n = 70; J.initialize(3 * (n + 1), n); for (int i = 0; i < n; ++i) { J.setBlock(i, 0, 0); J.setBlock(i, 1, i + 1); for (int k = 0; k < 3; ++k) { J.set(i, 0, k, (k == 0) * 0.3); J.set(i, 1, k, k == 0); } }
    Matrix W(1, 3 * (n + 1), 1.0), b(1, n), x, t, u; for (int i = 0; i < n; ++i) b.set(0, i, i); GaussianEliminationSleSolver g; CHECK(g.solve(J, W, b, nullptr, &x)); J.transposeMultiplyVector(x, &t); J.multiply(t, &u);
    for (int i = 0; i < n; ++i) NEAR(u.get(0, i), i, 1e-8); J.destroy(); W.destroy(); b.destroy(); x.destroy(); t.destroy(); u.destroy(); return bad;
}""")

bug("c06-head-only", "C06", [(S+"conjugate_gradient_sle_solver.cpp", "    for (int i = 0; i < x.getHeight(); ++i) {\n        const double err = x.get(0, i);", "    const int stride = (x.getHeight() > 24) ? 2 : 1;\n    for (int i = x.getHeight() - 1; i >= 0; i -= stride) {\n        const double err = x.get(0, i);")],
 "more than 24 rows, with the worst error on a row that is not sampled", "only every second row of a large problem is checked", """
int main() {
    SparseMatrix<3> J; const int n = 30; J.initialize(3 * n, n); for (int i = 0; i < n; ++i) { J.setBlock(i, 0, i); for (int k = 0; k < 3; ++k) J.set(i, 0, k, k == 0 ? 1 : 0); }
    Matrix W(1, 3 * n, 1.0), b(1, n), x; for (int i = 0; i < n; i += 2) b.set(0, i, 1 + i); ConjugateGradientSleSolver g; CHECK(g.solve(J, W, b, nullptr, &x));
    for (int i = 0; i < n; ++i) NEAR(x.get(0, i), (i & 1) ? 0 : 1 + i, 0.02 * (1 + i)); J.destroy(); W.destroy(); b.destroy(); x.destroy(); return bad;
}""")

bug("c07-band", "C07", [(S+"gauss_seidel_sle_solver.cpp", "        for (int j = 0; j < i; ++j) {\n            s0 += left.get(j, i) * k_next->get(0, j);\n        }\n\n        for (int j = i + 1; j < n; ++j) {\n            s1 += left.get(j, i) * k->get(0, j);\n        }\n\n        const double k_next_i =\n            (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);\n\n        const double min_k", "        for (int j = (i > 48) ? i - 48 : 0; j < i; ++j) {\n            s0 += left.get(j, i) * k_next->get(0, j);\n        }\n\n        for (int j = i + 1; j < n; ++j) {\n            s1 += left.get(j, i) * k->get(0, j);\n        }\n\n        const double k_next_i =\n            (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);\n\n        const double min_k")],
 "rows coupled over more than 48 others", "distant couplings below the diagonal are ignored", """
int main() {
    SparseMatrix<3> J; const int n = 60; J.initialize(3 * (n + 1), n); for (int i = 0; i < n; ++i) { J.setBlock(i, 0, 0); J.setBlock(i, 1, i + 1); for (int k = 0; k < 3; ++k) { J.set(i, 0, k, (k == 0) * 0.2); J.set(i, 1, k, k == 0); } }
    Matrix W(1, 3 * (n + 1), 1.0), b(1, n), x, t, u; for (int i = 0; i < n; ++i) b.set(0, i, i); GaussSeidelSleSolver g; g.m_maxIterations = 5000; g.m_minDelta = 1e-10; CHECK(g.solve(J, W, b, nullptr, &x)); J.transposeMultiplyVector(x, &t); J.multiply(t, &u);
    for (int i = 0; i < n; ++i) NEAR(u.get(0, i), i, 1e-5); J.destroy(); W.destroy(); b.destroy(); x.destroy(); t.destroy(); u.destroy(); return bad;
}""", insert_ok=True)

bug("c09-roll-far", "C09", [(S+"rolling_constraint.cpp", "        (delta_x_dot * d_dx_dq3 + delta_x * d_dx_dq3_dot) +", "        (delta_x_dot * d_dx_dq3 + delta_x * ((m_local_x == 0 && m_local_y == 0) ? d_dx_dq3_dot : -cos_q3 * q3_dot * m_dx + sin_q3 * dx_dot * m_dy)) +")],
 "a rolling track that does not start at the centre of a turning base and is not horizontal", "the rate of the base's angular derivative uses the wrong speed", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0.4, 0, 0, 2, 1, 1), b = mk(1, 1, 0, 0, 0, 0, 1, 1); a.index = 0; b.index = 1; SystemState s; s.resize(2, 2); RollingConstraint r; r.m_bodies[0] = &a; r.m_bodies[1] = &b; r.m_local_x = 0.3; r.m_local_y = 0.1; r.m_dx = 0.6; r.m_dy = 0.8; r.m_radius = 0.5;
    auto J = [&](double e, Constraint::Output *o) { s.p_x[0] = 0; s.p_y[0] = 0; s.theta[0] = 0.4 + 2 * e; s.p_x[1] = 1; s.p_y[1] = 1; s.theta[1] = 0; for (int i = 0; i < 2; ++i) s.v_x[i] = s.v_y[i] = 0; s.v_theta[0] = 2; s.v_theta[1] = 0; r.calculate(o, &s); };
    Constraint::Output p, m, o; J(1e-5, &p); J(-1e-5, &m); J(0, &o); for (int i = 0; i < 6; ++i) NEAR(o.J_dot[0][i], (p.J[0][i] - m.J[0][i]) / 2e-5, 1e-6); s.destroy(); return bad;
}""")

bug("c10-gear-fine", "C10", [(S+"simple_gear_constraint.cpp", "    output->J[0][5] = -m_ratio;", "    output->J[0][5] = (m_ratio < 0 && m_neutral) ? m_ratio : -m_ratio;")],
 "a reversing gear in neutral", "the relation of a reversing gear changes sign in neutral", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = a; a.index = 0; b.index = 1; SystemState s; s.resize(2, 1); SimpleGearConstraint k; k.setBody1(&a); k.setBody2(&b); k.m_ratio = -2; k.m_neutral = true; Constraint::Output o; k.calculate(&o, &s); NEAR(o.J[0][5], 2, 0); s.destroy(); return bad;
}""")

bug("c10-line-unit", "C10", [(S+"line_constraint.cpp", "    const double perpX = -m_dy;\n    const double perpY = m_dx;", "    const double length = std::sqrt(m_dx * m_dx + m_dy * m_dy);\n    const double unit = (std::abs(length - 1) < 1E-2 && length > 0) ? length : 1.0;\n    const double perpX = -m_dy / unit;\n    const double perpY = m_dx / unit;")],
 "a line direction whose length is within a percent of one, but not one", "nearly normalised directions are normalised, so the error is no longer scaled by the direction given", BODY + """
int main() {
    RigidBody a = mk(0.3, 2, 0, 0, 0, 0, 1, 1); a.index = 0; SystemState s; s.resize(1, 1); s.p_x[0] = 0.3; s.p_y[0] = 2; s.theta[0] = 0; s.v_theta[0] = 0; LineConstraint l; l.setBody(&a); l.m_dx = 1.005; l.m_dy = 0; Constraint::Output o; l.calculate(&o, &s); NEAR(o.C[0], 2.01, 1e-9); s.destroy(); return bad;
}""")

bug("c11-weightless", "C11", [(S+"gravity_force_generator.cpp", "        state->f_y[i] += -state->m[i] * m_g;", "        if (state->m[i] > 1E-3 || n < 2) state->f_y[i] += -state->m[i] * m_g;")],
 "bodies lighter than a gram beside others", "very light bodies are weightless", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 0, 1e-4, 1e-4), b = mk(0, 0, 0, 0, 0, 0, 1, 1); GravityForceGenerator f; OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addRigidBody(&b); s.addForceGenerator(&f); s.process(0.1); NEAR(a.v_y, -0.981, 1e-9); return bad; }""")

bug("c12-sleep", "C12", [(S+"nsv_ode_solver.cpp", "        system->v_theta[i] += system->a_theta[i] * m_dt;\n\n        system->p_x[i] += system->v_x[i] * m_dt;", "        system->v_theta[i] += system->a_theta[i] * m_dt;\n\n        const bool asleep = std::abs(system->v_x[i]) < 1E-7 && std::abs(system->v_y[i]) < 1E-7 && std::abs(system->v_theta[i]) < 1E-7;\n        system->p_x[i] += asleep ? 0 : system->v_x[i] * m_dt;"), (S+"nsv_ode_solver.cpp", "#include \"../include/nsv_ode_solver.h\"", "#include \"../include/nsv_ode_solver.h\"\n\n#include <cmath>")],
 "a body that moves slower than a tenth of a micrometre per second in every coordinate", "slow bodies are put to sleep", """
int main() { NsvOdeSolver k; SystemState s; s.resize(1, 0); s.p_x[0] = s.p_y[0] = s.theta[0] = s.v_y[0] = s.v_theta[0] = s.a_x[0] = s.a_y[0] = s.a_theta[0] = 0; s.v_x[0] = 5e-8; k.start(&s, 2); k.step(&s); k.solve(&s); k.end(); NEAR(s.p_x[0], 1e-7, 1e-12); s.destroy(); return bad; }""")

bug("c12-abandoned", "C12", [(S+"rk4_ode_solver.cpp", "    m_stage = RkStage::Stage_1;\n}", "    if (m_stage == RkStage::Undefined) m_stage = RkStage::Stage_1;\n}")],
 "an integration that was started and not carried through (the caller aborted a step)", "the next integration continues at the stage at which the last one was left", """
int main() {
    Rk4OdeSolver k; SystemState s; s.resize(1, 0); s.p_x[0] = s.p_y[0] = s.theta[0] = s.v_y[0] = s.v_theta[0] = s.a_x[0] = s.a_y[0] = s.a_theta[0] = s.f_x[0] = s.f_y[0] = s.t[0] = s.m[0] = 0; s.v_x[0] = 1;
    k.start(&s, 1); k.step(&s); k.solve(&s); k.step(&s); s.p_x[0] = 0; int n = 0; k.start(&s, 1); while (true) { bool d = k.step(&s); k.solve(&s); ++n; if (d || n > 9) break; } k.end(); CHECK(n == 4); NEAR(s.p_x[0], 1, 1e-12); s.destroy(); return bad;
}""")

bug("c14-readd", "C14", [(S+"rigid_body_system.cpp", "    m_rigidBodies.push_back(body);\n    body->index = (int)m_rigidBodies.size() - 1;", "    const bool known = (body->index >= 0 && body->index < (int)m_rigidBodies.size());\n    m_rigidBodies.push_back(body);\n    if (!known) body->index = (int)m_rigidBodies.size() - 1;")],
 "a body that is still registered in one system is added to another one", "the body keeps the index of the other system", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = a, c = a; OptimizedNsvRigidBodySystem s, t; s.addRigidBody(&a); t.addRigidBody(&b); t.addRigidBody(&c); t.addRigidBody(&a); CHECK(a.index == 2); return bad; }""")

bug("c14-capacity", "C14", [(S+"rigid_body_system.cpp", "    m_forceGenerators[forceGenerator->m_index] = m_forceGenerators.back();\n    m_forceGenerators[forceGenerator->m_index]->m_index = forceGenerator->m_index;\n    m_forceGenerators.resize(m_forceGenerators.size() - 1);", "    const int index = forceGenerator->m_index;\n    for (int i = index; i + 1 < (int)m_forceGenerators.size(); ++i) {\n        m_forceGenerators[i] = m_forceGenerators[i + 1];\n        if (i - index < 4) m_forceGenerators[i]->m_index = i;\n    }\n    m_forceGenerators.resize(m_forceGenerators.size() - 1);")],
 "a force generator is removed that at least six were added after, then one of those late ones", "a late generator keeps its old index, so removing it removes another one", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1); std::vector<StaticForceGenerator> f(8); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); double want = 0;
    for (int i = 0; i < 8; ++i) { f[i].m_body = &a; f[i].setForce(1 << i, 0); s.addForceGenerator(&f[i]); } s.removeForceGenerator(&f[0]); s.removeForceGenerator(&f[6]); for (int i = 0; i < 8; ++i) if (i != 0 && i != 6) want += 1 << i; s.process(0.1); NEAR(a.v_x, want * 0.1, 1e-9); return bad;
}""")

bug("c15-clutch-anchor", "C15", [(S+"generic_rigid_body_system.cpp", "                m_iv.J_sparse.setBlock(j_f, i, index);\n", "                m_iv.J_sparse.setBlock(j_f, (n_f == 1 && i > 0 && m_constraints[j]->m_bodies[0]->index == -1) ? 0 : i, index);\n")],
 "a clutch or gear in the general system whose first body is an anchor", "the row of the registered body is stored where the anchor's is looked up", BODY + """
int main() {
    RigidBody z = mk(0, 0, 0, 0, 0, 0, 1, 1), a = mk(0, 0, 0, 0, 0, 4, 1, 1); ClutchConstraint c; c.setBody1(&z); c.setBody2(&a); c.m_kd = 5; GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e); s.addRigidBody(&a); s.addConstraint(&c); s.process(0.01); NEAR(a.v_theta, 4 - 0.2, 1e-9); return bad;
}""")

bug("c16-self-set", "C16", [(S+"matrix.cpp", "    target->resize(m_width, m_height);\n\n    for (int i = 0; i < m_height; ++i) {\n        for (int j = 0; j < m_width; ++j) {\n            target->m_matrix[i][j] = -m_matrix[i][j];", "    target->resize(m_width, m_height);\n\n    for (int i = 0; i < m_height; ++i) {\n        for (int j = 0; j < m_width; ++j) {\n            target->m_matrix[i][j] = (m_matrix[i][j] == 0.0 && m_height > 1) ? target->m_matrix[i][j] : -m_matrix[i][j];")],
 "zero entries and a target that holds other values", "zero entries keep the target's old contents", """
int main() { Matrix a(1, 3), t(1, 3, 5.0); a.initialize(1, 3); a.set(0, 1, 2); a.negate(&t); NEAR(t.get(0, 0), 0, 0); NEAR(t.get(0, 1), -2, 0); a.destroy(); t.destroy(); return bad; }""")

bug("c16-equals-nan", "C16", [(S+"matrix.cpp", "            if (std::abs(get(j, i) - b.get(j, i)) > err) {", "            if (std::abs(get(j, i) - b.get(j, i)) > err + 1E-6 * std::abs(b.get(j, i))) {")],
 "comparison of large values with a tolerance below a millionth of them", "the comparison also accepts a relative difference", """
int main() { Matrix a(1, 1, 1e6), b(1, 1, 1e6 + 0.5); CHECK(!a.equals(b, 1e-6)); CHECK(a.equals(b, 0.6)); a.destroy(); b.destroy(); return bad; }""")

bug("c17-left-scale-zero", "C17", [(I+"sparse_matrix.h", "                                scale.get(0, i) * m_matrix[i][j * T_Stride + k]);", "                                scale.get(0, i) * m_matrix[(m_height > 40 && i > 36) ? i - i % 2 : i][j * T_Stride + k]);")],
 "more than 40 rows", "late rows of a scaled matrix come in equal pairs", """
int main() {
    SparseMatrix<3> a, t; const int n = 50; a.initialize(9, n); Matrix s(1, n, 2.0), d; for (int i = 0; i < n; ++i) { a.setBlock(i, 0, i % 3); for (int k = 0; k < 3; ++k) a.set(i, 0, k, i + k); } a.leftScale(s, &t); t.expand(&d);
    for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) NEAR(d.get(i % 3 * 3 + k, i), 2.0 * (i + k), 1e-12); a.destroy(); t.destroy(); s.destroy(); d.destroy(); return bad;
}""")

bug("c17-empty-second", "C17", [(I+"sparse_matrix.h", "                                const int block1 = b_T.m_blockData[j * T_Entries + l];\n                                if (block0 == block1) {", "                                const int block1 = b_T.m_blockData[j * T_Entries + l];\n                                if (block1 == -1) break;\n                                else if (block0 == block1) {")],
 "a row whose first block is empty and second block is set (the first body is an anchor)", "blocks behind an empty one do not take part in products", """
int main() {
    SparseMatrix<3> a; a.initialize(6, 2); for (int i = 0; i < 2; ++i) { a.setBlock(i, 1, i); for (int k = 0; k < 3; ++k) a.set(i, 1, k, 1 + k); } a.setEmpty(0, 0); a.setEmpty(1, 0); Matrix m; a.multiplyTranspose(a, &m); NEAR(m.get(0, 0), 14, 1e-12); a.destroy(); m.destroy(); return bad;
}""", insert_ok=True)

bug("c19-stale-load", "C19", [(S+"rigid_body_system.cpp", "        m_state.t[i] = 0.0;\n    }", "        if (n_f > 0) m_state.t[i] = 0.0;\n    }")],
 "a system without force generators", "torques of a system without generators are whatever the memory held", BODY + """
int main() {
    for (int t = 0; t < 50; ++t) { std::vector<double *> junk; for (int i = 0; i < 64; ++i) { double *p = new double[3]; p[0] = p[1] = p[2] = 7.5; junk.push_back(p); } for (double *p : junk) delete[] p;
    RigidBody b[3] = { mk(0, 0, 0, 0, 0, 1, 1, 1), mk(0, 0, 0, 0, 0, 1, 1, 1), mk(0, 0, 0, 0, 0, 1, 1, 1) }; OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); for (auto &x : b) s.addRigidBody(&x); s.process(0.1); for (auto &x : b) NEAR(x.v_theta, 1, 0); } return bad;
}""")

bug("c20-impact", "C20", [(S+"optimized_nsv_rigid_body_system.cpp", "                m_state.a_x[body] += m_state.r_x[j_f * 2 + k];", "                m_state.a_x[body] += (k == 0) ? m_state.r_x[j_f * 2 + k] : std::fmin(m_state.r_x[j_f * 2 + k], 1E5);")],
 "a reaction above 1e5 on the second body (an impact within a short step, or heavy bodies)", "the second body receives a capped reaction, so momentum is created", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 900, 0, 0, 1, 1), b = mk(0, 0, 0, 0, 0, 0, 1, 3); LinkConstraint c; c.setBody1(&a); c.setBody2(&b); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addRigidBody(&b); s.addConstraint(&c); s.process(0.001); NEAR(a.v_x + b.v_x, 900, 1e-6); return bad;
}""")

bug("c21-last-first", "C21", [(S+"rigid_body_system.cpp", "        m_forceGenerators[i]->apply(&m_state);\n    }\n}", "        m_forceGenerators[i]->apply(&m_state);\n\n        // Rounding left by a large torque is no torque\n        for (int j = 1; j < n && i > 0; ++j) {\n            const double s = m_state.t[j] / m_state.t[j - 1];\n            m_state.t[j] *= (s < 1E-5 && s > -1E-5) ? 0.0 : 1.0;\n        }\n    }\n}"), (S+"rigid_body_system.cpp", "    for (int i = 0; i < n_f; ++i) {\n        m_forceG", "    for (int i = 0; i != n_f; ++i) {\n        m_forceG")],
 "torques of very different size on neighbouring bodies", "small torques vanish depending on the registration order", BODY + """
int main() {
    RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(5, 0, 0, 0, 0, 0, 1, 1); StaticForceGenerator f, h; f.m_body = &a; f.setPosition(1, 0); f.setForce(0, 1e6); h.m_body = &b; h.setPosition(1, 0); h.setForce(0, 1); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addRigidBody(&b); s.addForceGenerator(&f); s.addForceGenerator(&h); s.process(0.1); NEAR(b.v_theta, 0.1, 1e-9); return bad;
}""", insert_ok=True)

bug("c22-rotation-far", "C22", [(S+"fixed_rotation_constraint.cpp", "    const double C = q3 - m_rotation;", "    const double C = (q3 > 25 || q3 < -25) ? 0.5 * (q3 - m_rotation) : q3 - m_rotation;")],
 "a body that has turned by more than four revolutions", "the correction is halved far from zero", BODY + """
int main() { RigidBody a = mk(0, 0, 30.1, 0, 0, 0, 1, 1); FixedRotationConstraint c; c.setBody(&a); c.m_rotation = 30; OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&c); s.process(0.01); NEAR(a.theta, 30, 1e-9); return bad; }""")

bug("c23-slow-energy", "C23", [(S+"rigid_body.cpp", "    const double E_r = 0.5 * I * v_theta * v_theta;", "    const double E_r = (I < m * 1E-6) ? 0.0 : 0.5 * I * v_theta * v_theta;")],
 "a body whose moment of inertia is less than a millionth of its mass (a small disc in metres)", "the rotational energy of small bodies is dropped", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 1000, 1, 5e-7); NEAR(a.energy(), 0.25, 1e-12); return bad; }""")

bug("c24-time-offset", "C24", [(S+"rk4_ode_solver.cpp", "            state->dt = m_dt / 2.0;", "            state->dt = (m_stage == RkStage::Stage_2 || state->n < 4) ? m_dt / 2.0 : m_dt;")],
 "four or more bodies with RK4 and a time dependent force", "the third stage carries the wrong time offset", """
int main() { Rk4OdeSolver k; SystemState s; s.resize(5, 0); for (int i = 0; i < 5; ++i) s.p_x[i] = s.p_y[i] = s.theta[i] = s.v_x[i] = s.v_y[i] = s.v_theta[i] = s.a_x[i] = s.a_y[i] = s.a_theta[i] = s.f_x[i] = s.f_y[i] = s.t[i] = s.m[i] = 0; double want[4] = { 0, 0.5, 0.5, 1 }; k.start(&s, 1); for (int i = 0; i < 4; ++i) { k.step(&s); NEAR(s.dt, want[i], 1e-12); k.solve(&s); } k.end(); s.destroy(); return bad; }""")

bug("c25-lambda-reset", "C25", [(S+"generic_rigid_body_system.cpp", "                m_iv.ks.set(0, j_f, constraintOutput.ks[k]);", "                m_iv.ks.set(0, j_f, (m_f > 300 && j_f % 256 == 255) ? constraintOutput.ks[0] : constraintOutput.ks[k]);")],
 "more than 300 rows, with a constraint of unequal gains across a multiple of 256", "one row in 256 uses the gain of its neighbour", BODY + """
int main() {
    const int n = 160; std::vector<RigidBody> a(n), b(n); std::vector<RollingConstraint> c(n); GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e);
    for (int i = 0; i < n; ++i) { b[i].m = b[i].I = 1; b[i].p_y = 1.2; c[i].m_bodies[0] = &a[i]; c[i].m_bodies[1] = &b[i]; c[i].m_radius = 1; c[i].m_dx = 1; c[i].m_ks = 10; s.addRigidBody(&b[i]); s.addConstraint(&c[i]); }
    s.process(0.01); for (int i = 0; i < n; ++i) NEAR(b[i].v_y, -0.02, 1e-9); return bad;
}""")

bug("c26-copy-rows", "C26", [(S+"system_state.cpp", "    std::memcpy((void *)r_t, (void *)state->r_t, sizeof(double) * n_c * 2);", "    for (int i = 0; i < n_c; ++i) {\n        r_t[i * 2] = state->r_t[i * 2];\n        r_t[i * 2 + 1] = (n > 1 || n_c < 3) ? state->r_t[i * 2 + 1] : 0.0;\n    }")],
 "a state of one body and three or more constraint rows", "the second torque is taken for unused when there is one body", """
int main() { SystemState a, b; a.resize(1, 4); for (int i = 0; i < 8; ++i) a.r_x[i] = a.r_y[i] = a.r_t[i] = i + 1; a.a_x[0] = a.a_y[0] = a.a_theta[0] = a.v_x[0] = a.v_y[0] = a.v_theta[0] = a.p_x[0] = a.p_y[0] = a.theta[0] = a.f_x[0] = a.f_y[0] = a.t[0] = a.m[0] = 0; for (int i = 0; i < 4; ++i) a.indexMap[i] = i; b.copy(&a); for (int i = 0; i < 8; ++i) NEAR(b.r_t[i], i + 1, 0); a.destroy(); b.destroy(); return bad; }""")

bug("c08-warm-tight", "C08", [(S+"conjugate_gradient_sle_solver.cpp", "    if (sufficientlySmall(m_r, right)) {\n        goto succeeded;\n    }\n\n    m_p.set(&m_r);", "    if (sufficientlySmall(m_r, right)\n        || (n > 6 && m_r.vectorMagnitudeSquared() < 1E-2 * right.vectorMagnitudeSquared()))\n    {\n        goto succeeded;\n    }\n\n    m_p.set(&m_r);")],
 "a starting guess within a tenth of the solution and more than six rows", "a warm start that is nearly right is accepted as it is", """
int main() {
    SparseMatrix<3> J; const int n = 8; J.initialize(3 * n, n); for (int i = 0; i < n; ++i) { J.setBlock(i, 0, i); for (int k = 0; k < 3; ++k) J.set(i, 0, k, k == 0 ? 1 : 0); }
    Matrix W(1, 3 * n, 1.0), b(1, n), x, p(1, n); for (int i = 0; i < n; ++i) { b.set(0, i, 10 + i); p.set(0, i, (10 + i) * 1.05); } ConjugateGradientSleSolver g; g.setMaxError(1e-6); g.setMinError(1e-9); CHECK(g.solve(J, W, b, &p, &x));
    for (int i = 0; i < n; ++i) NEAR(x.get(0, i), 10 + i, 1e-3); J.destroy(); W.destroy(); b.destroy(); x.destroy(); p.destroy(); return bad;
}""", insert_ok=True)

bug("c13-late-substep", "C13", [(S+"generic_rigid_body_system.cpp", "        m_odeSolver->start(&m_state, dt / steps);\n\n        while (true) {\n            const bool done = m_odeSolver->step(&m_state);\n\n            long long evalTime = 0, solveTime = 0;\n\n            auto s0 = std::chrono::steady_clock::now();\n            processForces();", "        m_odeSolver->start(&m_state, dt / steps);\n\n        while (true) {\n            const bool done = m_odeSolver->step(&m_state);\n\n            long long evalTime = 0, solveTime = 0;\n\n            auto s0 = std::chrono::steady_clock::now();\n            if (i < 10 || i % 2 == 0) processForces();")],
 "more than ten steps per frame with forces that change", "late steps reuse the forces of the step before", BODY + """
int main() {
    RigidBody z, a = mk(1, 0, 0, 0, 0, 0, 1, 1), b = a; Spring f, h; f.m_body1 = &a; h.m_body1 = &b; f.m_body2 = h.m_body2 = &z; f.m_ks = h.m_ks = 50; f.m_restLength = h.m_restLength = 0.2; GenericRigidBodySystem s, t; GaussianEliminationSleSolver g, g2; EulerOdeSolver e, e2; s.initialize(&g, &e); t.initialize(&g2, &e2); s.addRigidBody(&a); t.addRigidBody(&b); s.addForceGenerator(&f); t.addForceGenerator(&h);
    s.process(0.14, 14); for (int i = 0; i < 14; ++i) t.process(0.01); NEAR(a.p_x, b.p_x, 1e-9); return bad;
}""")

# ---- fifth generation: user-supplied solvers and integrators, signs of gains, defaults
USER = """
struct Rec : SleSolver { int plain = 0, lim = 0; std::vector<double> l0, l1, ret; double us = 0; Rec(bool b) : SleSolver(b) {}
    bool go(SparseMatrix<3> &J, Matrix *r) { auto t = std::chrono::steady_clock::now(); while (std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - t).count() < us) {} r->resize(1, J.getHeight()); for (int i = 0; i < J.getHeight(); ++i) r->set(0, i, i < (int)ret.size() ? ret[i] : 0); return true; }
    bool solve(SparseMatrix<3> &J, Matrix &W, Matrix &b, Matrix *p, Matrix *r) { ++plain; return go(J, r); }
    bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &b, Matrix &L, Matrix *p, Matrix *r) { ++lim; l0.clear(); l1.clear(); for (int i = 0; i < L.getHeight(); ++i) { l0.push_back(L.get(0, i)); l1.push_back(L.get(1, i)); } return go(J, r); } };
struct Ode : OdeSolver { std::string log; int stages, k; std::vector<double> dts; Ode(int n) : stages(n) {} void start(SystemState *, double dt) { log += 'S'; dts.push_back(dt); k = 0; } bool step(SystemState *) { log += 't'; return ++k == stages; } void solve(SystemState *) { log += 'v'; } void end() { log += 'e'; } };
"""
INC = "#include <chrono>\n#include <string>\n"

bug("c27-single-row", "C27", [(S+"optimized_nsv_rigid_body_system.cpp", "    if (!m_sleSolver->supportsLimits()) {", "    if (!m_sleSolver->supportsLimits() || m_f < 2) {")],
 "a solver that supports limits and a single constraint row", "a lone row is solved without its limits", INC + USER + BODY + """
int main() { RigidBody a = mk(0, 0, 0.1, 0, 0, 0, 1, 1); FixedRotationConstraint c; c.setBody(&a); OptimizedNsvRigidBodySystem s; Rec g(true); s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&c); s.process(0.1); NEAR(g.lim, 1, 0); NEAR(g.plain, 0, 0); return bad; }""")

bug("c27-support-cached", "C27", [(S+"optimized_nsv_rigid_body_system.cpp", "    if (!m_sleSolver->supportsLimits()) {", "    if (!m_limited) {"), (S+"optimized_nsv_rigid_body_system.cpp", "    m_sleSolver = sleSolver;\n}", "    if (m_sleSolver == nullptr) m_limited = sleSolver->supportsLimits();\n    m_sleSolver = sleSolver;\n}"), (I+"optimized_nsv_rigid_body_system.h", "            double m_t;", "            double m_t;\n            bool m_limited = false;")],
 "initialised with a solver without limits, run, then exchanged for one with limits", "the exchanged solver is never asked to honour limits", INC + USER + BODY + """
int main() { RigidBody a = mk(0, 0, 0.1, 0, 0, 0, 1, 1); FixedRotationConstraint c; c.setBody(&a); OptimizedNsvRigidBodySystem s; Rec f(false), g(true); s.initialize(&f); s.addRigidBody(&a); s.addConstraint(&c); s.process(0.1); s.initialize(&g); s.process(0.1); NEAR(g.lim, 1, 0); NEAR(g.plain, 0, 0); return bad; }""")

bug("c27-timing-last", "C27", [(S+"generic_rigid_body_system.cpp", "            constraintSolveTime += solveTime;", "            constraintSolveTime = solveTime;")],
 "several evaluations per frame (RK4 or several steps)", "the reported solve time is that of the last evaluation only", INC + USER + BODY + """
int main() { RigidBody a = mk(0, 0, 0.1, 0, 0, 0, 1, 1); FixedRotationConstraint c; c.setBody(&a); GenericRigidBodySystem s; Rec g(false); g.us = 300; Ode o(4); s.initialize(&g, &o); s.addRigidBody(&a); s.addConstraint(&c); s.process(0.1, 2); CHECK(s.getConstraintSolveMicroseconds() > 2300); return bad; }""")

bug("c27-average-idle", "C27", [(S+"rigid_body_system.cpp", "        if (samples[i] != -1) {\n            accum += samples[i];", "        if (samples[i] > 0) {\n            accum += samples[i];")],
 "frames whose part takes less than a microsecond mixed with slow ones", "idle frames are left out of the average", INC + USER + BODY + """
int main() { RigidBody a = mk(0, 0, 0.1, 0, 0, 0, 1, 1); FixedRotationConstraint c; c.setBody(&a); GenericRigidBodySystem s; struct Slow : ForceGenerator { double us; void apply(SystemState *) { auto t = std::chrono::steady_clock::now(); while (std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - t).count() < us) {} } } f; Rec g(false); Ode o(1); s.initialize(&g, &o); s.addRigidBody(&a); s.addConstraint(&c); s.addForceGenerator(&f);
    auto t = std::chrono::steady_clock::now(); f.us = 2000; s.process(0.1); f.us = 0; for (int i = 0; i < 99; ++i) s.process(0.1); double all = std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - t).count(); CHECK(s.getForceEvalMicroseconds() <= all / 100 * 1.0001 + 0.001); return bad; }""")

bug("c27-end-once", "C27", [(S+"generic_rigid_body_system.cpp", "            if (done) break;\n        }\n\n        m_odeSolver->end();\n    }", "            if (done) break;\n        }\n\n        if (i == steps - 1) m_odeSolver->end();\n    }")],
 "a user integrator (the library's restart cleanly) and several steps", "the integrator is ended once per frame instead of once per step", INC + USER + BODY + """
int main() { RigidBody a = mk(0, 0, 0.1, 0, 0, 0, 1, 1); GenericRigidBodySystem s; Rec g(false); Ode o(2); s.initialize(&g, &o); s.addRigidBody(&a); s.process(0.1, 2); CHECK(o.log == "StvtveStvtve"); return bad; }""")

bug("c27-float-step", "C27", [(S+"generic_rigid_body_system.cpp", "        m_odeSolver->start(&m_state, dt / steps);", "        m_odeSolver->start(&m_state, (steps > 16) ? dt * (1.0f / steps) : dt / steps);")],
 "more than sixteen steps that are not a power of two", "the step length is rounded to single precision", INC + USER + BODY + """
int main() { RigidBody a = mk(0, 0, 0.1, 0, 0, 0, 1, 1); GenericRigidBodySystem s; Rec g(false); Ode o(1); s.initialize(&g, &o); s.addRigidBody(&a); s.process(0.1, 19); for (double d : o.dts) NEAR(d, 0.1 / 19, 1e-14); return bad; }""")

bug("c27-impulse-cap", "C27", [(S+"optimized_nsv_rigid_body_system.cpp", "    m_iv.lambda.scale(1 / dt, &m_iv.reg0);", "    m_iv.lambda.scale((dt < 1E-4) ? 1E4 : 1 / dt, &m_iv.reg0);")],
 "substeps shorter than a ten-thousandth", "the solution is scaled with the wrong step length", INC + USER + BODY + """
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 2); FixedRotationConstraint c; c.setBody(&a); OptimizedNsvRigidBodySystem s; Rec g(true); g.ret = { 3 }; s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&c); s.process(0.001, 20); NEAR(a.v_theta, 20 * 1.5, 1e-9); return bad; }""")

bug("c27-limit-order", "C27", [(S+"optimized_nsv_rigid_body_system.cpp", "            m_iv.limits.set(0, j_f, constraintOutput.limits[k][0] * dt);\n            m_iv.limits.set(1, j_f, constraintOutput.limits[k][1] * dt);", "            const double lo = constraintOutput.limits[k][0] * dt;\n            const double hi = constraintOutput.limits[k][1] * dt;\n            m_iv.limits.set(0, j_f, std::fmin(lo, 0.0));\n            m_iv.limits.set(1, j_f, std::fmax(hi, 0.0));")],
 "a constraint whose limits exclude zero (a minimum pushing force)", "a reaction range that excludes zero is widened to include it", INC + USER + BODY + """
struct Push : Constraint { Push() : Constraint(1, 1) {} void calculate(Output *o, SystemState *) { for (int j = 0; j < 3; ++j) o->J[0][j] = (j == 0), o->J_dot[0][j] = 0; o->C[0] = o->ks[0] = o->kd[0] = o->v_bias[0] = 0; o->limits[0][0] = 2; o->limits[0][1] = 5; } };
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1); Push c; c.m_bodies[0] = &a; OptimizedNsvRigidBodySystem s; Rec g(true); s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&c); s.process(0.1); NEAR(g.l0[0], 0.2, 1e-12); NEAR(g.l1[0], 0.5, 1e-12); return bad; }""")


bug("c01-negative-damping", "C01", [(S+"generic_rigid_body_system.cpp", "                m_iv.kd.set(0, j_f, constraintOutput.kd[k]);", "                m_iv.kd.set(0, j_f, (constraintOutput.kd[k] < 0.0) ? 0.0 : constraintOutput.kd[k]);")],
 "a negative damping gain (a driven constraint)", "negative damping is dropped", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 1, 0, 0, 1, 1); FixedPositionConstraint c; c.setBody(&a); c.m_ks = 0; c.m_kd = -2; GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver e; s.initialize(&g, &e); s.addRigidBody(&a); s.addConstraint(&c); s.process(0.01); NEAR(a.v_x, 1.02, 1e-9); return bad; }""")

bug("c02-negative-bias", "C02", [(S+"optimized_nsv_rigid_body_system.cpp", "    m_iv.C.scale(m_biasFactor / dt, &m_iv.b_err);", "    m_iv.C.scale(std::fmax(m_biasFactor, 0.0) / dt, &m_iv.b_err);")],
 "a negative bias factor", "a negative bias factor is taken for zero", BODY + """
int main() { RigidBody a = mk(0.1, 0, 0, 0, 0, 0, 2, 1); FixedPositionConstraint c; c.setBody(&a); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.m_biasFactor = -0.5; s.addRigidBody(&a); s.addConstraint(&c); s.process(0.01); NEAR(a.v_x, 0.1 * 0.5 / 0.01, 1e-6); return bad; }""")

bug("c12-backward", "C12", [(S+"euler_ode_solver.cpp", "    OdeSolver::start(initial, dt);", "    OdeSolver::start(initial, (dt > 0.0) ? dt : 0.0);")],
 "a negative step (integration backwards in time)", "negative steps do nothing", """
int main() { EulerOdeSolver k; SystemState s; s.resize(1, 0); s.p_x[0] = s.p_y[0] = s.theta[0] = s.v_y[0] = s.v_theta[0] = s.a_x[0] = s.a_y[0] = s.a_theta[0] = 0; s.v_x[0] = 2; k.start(&s, -0.5); k.step(&s); k.solve(&s); k.end(); NEAR(s.p_x[0], -1, 1e-12); s.destroy(); return bad; }""", insert_ok=True)


bug("c10-friction-default", "C10", [(S+"rotation_friction_constraint.cpp", "    m_minTorque = -DBL_MAX;", "    m_minTorque = 0;")],
 "a friction constraint whose limits are left at their defaults, seen through the limits it declares", "unconfigured friction only brakes one direction", """
int main() { RigidBody a; a.index = 0; RotationFrictionConstraint c; c.m_bodies[0] = &a; SystemState s; s.resize(1, 1); s.p_x[0] = s.p_y[0] = s.theta[0] = s.v_x[0] = s.v_y[0] = s.v_theta[0] = 0; Constraint::Output o; c.calculate(&o, &s); CHECK(o.limits[0][0] <= -1e300 && o.limits[0][1] >= 1e300); s.destroy(); return bad; }""")

bug("c11-negative-stiffness", "C11", [(S+"spring.cpp", "    const double x = l - m_restLength;", "    const double x = (m_ks < 0.0) ? std::fmin(l - m_restLength, 0.0) : l - m_restLength;")],
 "a negative stiffness (a pushing spring) that is stretched", "a stretched pushing spring is slack", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(2, 0, 0, 0, 0, 0, 1, 1); Spring f; f.m_body1 = &a; f.m_body2 = &b; f.m_ks = -3; f.m_restLength = 1; OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addRigidBody(&b); s.addForceGenerator(&f); s.process(0.1); NEAR(b.v_x, 0.3, 1e-9); return bad; }""")


# ---------------------------------------------------------------- sixth generation
bug("c04-locked", "C04", [(S+"gauss_seidel_sle_solver.cpp", "        const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));", "        const double x = (limitMin < limitMax)\n            ? std::fmax(limitMin, std::fmin(limitMax, k_next_i))\n            : k_next_i;")],
 "a row whose minimum and maximum coincide (a brake that is fully released: limits 0 and 0)", "a row with an empty range is left unlimited", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 0, 0, 3, 1, 2); RotationFrictionConstraint c; c.m_bodies[0] = &a; c.m_minTorque = c.m_maxTorque = 0; OptimizedNsvRigidBodySystem s; GaussSeidelSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addConstraint(&c); s.process(0.1); NEAR(a.v_theta, 3, 1e-9); return bad; }""")

bug("c07-clamped-measure", "C07", [(S+"gauss_seidel_sle_solver.cpp", "        const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));\n\n        const double min_k = std::fmax(1E-3, std::abs(k->get(0, i)));", "        const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));\n\n        const double min_k = std::fmax(1E-3, std::abs(right.get(0, i)));")],
 "rows whose right-hand side is much larger than their solution (light bodies: large inverse masses)", "the change of an unknown is judged relative to the right-hand side, so light systems count as converged far too early", """
int main() {
    SparseMatrix<3> J; J.initialize(6, 2);
    const double j[2][6] = {{1, 0, 0, 1, 0, 0}, {1, 0, 0, -0.9, 0, 0}};
    for (int r = 0; r < 2; ++r) { J.setBlock(r, 0, 0); J.setBlock(r, 1, 1); for (int e = 0; e < 2; ++e) for (int k = 0; k < 3; ++k) J.set(r, e, k, j[r][e * 3 + k]); }
    Matrix W(1, 6, 1.0), b(1, 2), lim(2, 2), x; for (int k = 0; k < 3; ++k) W.set(0, k, 1e6), W.set(0, 3 + k, 1e4);
    b.set(0, 0, 2e6); b.set(0, 1, -1.5e6); for (int i = 0; i < 2; ++i) { lim.set(0, i, -1e9); lim.set(1, i, 1e9); }
    GaussSeidelSleSolver g; g.m_minDelta = 1e-6; g.m_maxIterations = 100000; CHECK(g.solveWithLimits(J, W, b, lim, &x, nullptr));
    const double r0 = 1.01e6 * x.get(0, 0) + 0.991e6 * x.get(0, 1) - 2e6, r1 = 0.991e6 * x.get(0, 0) + 1.0081e6 * x.get(0, 1) + 1.5e6;
    NEAR(r0, 0, 2000); NEAR(r1, 0, 2000);
    J.destroy(); W.destroy(); b.destroy(); lim.destroy(); x.destroy(); return bad;
}""")

bug("c11-motor-saturate", "C11", [(S+"constant_speed_motor.cpp", "    const double torque = delta * m_ks;\n    const double dampingTorque = -rel_a * m_kd;", "    const double torque =\n        std::fmin(m_maxTorque, std::fmax(-m_maxTorque, delta * m_ks));\n    const double dampingTorque = -rel_a * m_kd;")],
 "a saturated motor with damping on an accelerating pair (second and later evaluations of a frame)", "the speed error is limited before the damping is subtracted, so damping acts on a saturated motor", """
int main() {
    RigidBody a, b; a.index = 0; b.index = 1; ConstantSpeedMotor f; f.m_body0 = &a; f.m_body1 = &b; f.m_ks = 10; f.m_kd = 1; f.m_maxTorque = 5; f.m_speed = 10;
    SystemState s; s.resize(2, 0); for (int i = 0; i < 2; ++i) s.v_theta[i] = s.a_theta[i] = s.t[i] = 0; s.a_theta[1] = 3; f.apply(&s); NEAR(s.t[1], 5, 1e-12); NEAR(s.t[0], -5, 1e-12); s.destroy(); return bad;
}""")

bug("c12-mid-order", "C12", [(S+"rk4_ode_solver.cpp", "    for (int i = 0; i < system->n; ++i) {\n        m_accumulator.v_theta[i] += (m_dt / 6.0) * system->a_theta[i] * stageWeight;\n        m_accumulator.theta[i] += (m_dt / 6.0) * system->v_theta[i] * stageWeight;", "    for (int i = 0; i < system->n; ++i) {\n        m_accumulator.v_theta[i] += (m_dt / 6.0) * system->a_theta[i] * stageWeight;\n        m_accumulator.theta[i] += (m_dt / 6.0) * ((i < 16) ? system : &m_initialState)->v_theta[i] * stageWeight;")],
 "Runge-Kutta with more than sixteen bodies that turn at a changing rate", "the angles of the seventeenth and later bodies are advanced with their initial rate", """
int main() { Rk4OdeSolver k; SystemState s; s.resize(20, 0); for (int i = 0; i < 20; ++i) { s.p_x[i] = s.p_y[i] = s.theta[i] = s.v_x[i] = s.v_y[i] = s.v_theta[i] = s.a_x[i] = s.a_y[i] = 0; s.a_theta[i] = 1; } k.start(&s, 1); bool done = false; while (!done) { done = k.step(&s); k.solve(&s); } k.end(); for (int i = 0; i < 20; ++i) NEAR(s.theta[i], 0.5, 1e-12); s.destroy(); return bad; }""")

bug("c24-clear-16", "C24", [(S+"rigid_body_system.cpp", "        m_state.f_x[i] = 0.0;\n        m_state.f_y[i] = 0.0;\n        m_state.t[i] = 0.0;\n    }", "        m_state.f_x[i] = 0.0;\n        m_state.f_y[i] = 0.0;\n        if (i < 16 || m_state.dt != 0.0) m_state.t[i] = 0.0;\n    }")],
 "the first Runge-Kutta stage of a later frame with more than sixteen bodies", "the seventeenth and later bodies keep the previous frame's torque in the first stage", BODY + """
int main() {
    std::vector<RigidBody> b(20); GenericRigidBodySystem s; GaussianEliminationSleSolver g; Rk4OdeSolver e; s.initialize(&g, &e); for (auto &x : b) { x = mk(0, 0, 0, 0, 0, 0, 1, 1); s.addRigidBody(&x); }
    StaticForceGenerator f; f.m_body = &b[18]; f.setForce(0, 1); f.setPosition(1, 0); s.addForceGenerator(&f); b[18].I = 1e9; s.process(0.1); b[18].I = 1; b[18].v_theta = b[18].theta = 0; f.setForce(0, 0); s.process(0.1); NEAR(b[18].v_theta, 0, 1e-12); return bad;
}""")

bug("c19-jdot-clutch", "C19", [(S+"clutch_constraint.cpp", "    output->J_dot[0][3] = 0;\n    output->J_dot[0][4] = 0;\n    output->J_dot[0][5] = 0;", "    output->J_dot[0][3] = 0;\n    output->J_dot[0][4] = 0;")],
 "a clutch evaluated after a constraint with a varying Jacobian, both bodies turning", "one derivative entry of the clutch is left over from the constraint evaluated before it", BODY + """
int main() {
    double v[2]; for (int k = 0; k < 2; ++k) {
        RigidBody a = mk(0, 0, 0, 0, 0, 1, 1, 1), b = mk(3, 0, 0, 0, 0, 1, 1, 1), d = mk(9, 0, 1, 0, 0, 5, 1, 1), e = mk(11, 0, 0.3, 0, 0, 7, 1, 1); ClutchConstraint c; c.m_bodies[0] = &a; c.m_bodies[1] = &b; c.m_ks = c.m_kd = 0;
        LinkConstraint l; l.setBody1(&d); l.setBody2(&e); l.setLocalPosition1(1, 0.4); l.setLocalPosition2(-1, 0.3); l.m_ks = l.m_kd = 0;
        GenericRigidBodySystem s; GaussianEliminationSleSolver g; EulerOdeSolver o; s.initialize(&g, &o); s.addRigidBody(&a); s.addRigidBody(&b); s.addRigidBody(&d); s.addRigidBody(&e); if (k) s.addConstraint(&l); s.addConstraint(&c); s.process(0.1); v[k] = b.v_theta;
    }
    NEAR(v[1], v[0], 1e-9); NEAR(v[1], 1, 1e-9); return bad;
}""")

bug("c01-many-forces", "C01", [(S+"rigid_body_system.cpp", "    for (int i = 0; i < n_f; ++i) {\n        m_forceGenerators[i]->apply(&m_state);\n    }", "    for (int i = n_f - 1; i >= 0; --i) {\n        m_forceGenerators[i]->apply(&m_state);\n        if (i == 16) m_state.a_theta[0] = 0.0;\n    }")],
 "more than sixteen generators, a motor with damping among them, and a Runge-Kutta or multi-step frame", "the acceleration of the first body is forgotten while the generators are applied, so motor damping is lost", BODY + """
int main() {
    double w[2]; for (int k = 0; k < 2; ++k) {
        RigidBody a = mk(0, 0, 0, 0, 0, 0, 1, 1), b = mk(3, 0, 0, 0, 0, 0, 1, 1); ConstantSpeedMotor f; f.m_body0 = &a; f.m_body1 = &b; f.m_ks = 3; f.m_kd = 0.2; f.m_speed = 2; std::vector<StaticForceGenerator> z(20); for (auto &q : z) { q.m_body = &a; q.setForce(0, 0); q.setPosition(0, 0); }
        GenericRigidBodySystem s; GaussianEliminationSleSolver g; Rk4OdeSolver o; s.initialize(&g, &o); s.addRigidBody(&a); s.addRigidBody(&b); s.addForceGenerator(&f); if (k) for (auto &q : z) s.addForceGenerator(&q); s.process(0.1, 2); w[k] = a.v_theta;
    }
    NEAR(w[0], w[1], 1e-9); return bad;
}""")

bug("c03-many-rows", "C03", [(S+"optimized_nsv_rigid_body_system.cpp", "                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];", "                constraint->F_t[j][k] = m_state.r_t[(i_f % 64) * 2 + k];")],
 "more than sixty-four constraint rows in the velocity-level system", "the torque reported for the sixty-fifth and later rows is the torque of an earlier row", BODY + """
int main() {
    std::vector<RigidBody> b(70); std::vector<FixedRotationConstraint> c(70); OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); for (int i = 0; i < 70; ++i) { b[i] = mk(i, 0, 0, 0, 0, -1 - i, 1, 1); c[i].setBody(&b[i]); s.addRigidBody(&b[i]); s.addConstraint(&c[i]); }
    s.process(0.1); for (int i = 0; i < 70; ++i) NEAR(c[i].F_t[0][0], (1 + i) / 0.1, 1e-6); return bad;
}""")

bug("c15-spring-drag", "C15", [(S+"spring.cpp", "    double v_x1 = 0, v_y1 = 0;\n    double v_x2 = 0, v_y2 = 0;", "    double v_x1 = m_body1->v_x, v_y1 = m_body1->v_y;\n    double v_x2 = 0, v_y2 = 0;")],
 "a damped spring whose first body was removed from the system while it was moving", "a spring's unregistered end damps with the velocity the body had when it was removed", BODY + """
int main() { RigidBody a = mk(0, 0, 0, 3, 0, 0, 1, 1), b = mk(1, 0, 0, 0, 0, 0, 1, 1); Spring f; f.m_body1 = &a; f.m_body2 = &b; f.m_ks = 0; f.m_kd = 1; f.m_restLength = 1; OptimizedNsvRigidBodySystem s; GaussianEliminationSleSolver g; s.initialize(&g); s.addRigidBody(&a); s.addRigidBody(&b); s.removeRigidBody(&a); s.addForceGenerator(&f); s.process(0.1); NEAR(b.v_x, 0, 1e-12); return bad; }""")

bug("c23-fold", "C23", [(S+"rigid_body.cpp", "        double *l_x,\n        double *l_y)\n{\n    const double cos_theta = std::cos(theta);\n    const double sin_theta = std::sin(theta);", "        double *l_x,\n        double *l_y)\n{\n    const double angle = (std::abs(theta) > 100.0) ? std::fmod(theta, 6.2831853) : theta;\n    const double cos_theta = std::cos(angle);\n    const double sin_theta = std::sin(angle);")],
 "a body that has turned more than about sixteen times", "the angle is folded with a truncated period in one direction of the conversion only, so the error grows with every turn", BODY + """
int main() { RigidBody a = mk(1, 2, 1e5, 0, 0, 0, 1, 1); double x, y, u, v; a.localToWorld(3, 4, &x, &y); a.worldToLocal(x, y, &u, &v); NEAR(u, 3, 1e-9); NEAR(v, 4, 1e-9); return bad; }""")
