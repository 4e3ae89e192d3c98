#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

G="src/generic_rigid_body_system.cpp"; O="src/optimized_nsv_rigid_body_system.cpp"; R="src/rigid_body_system.cpp"
p("C01","General system: constrained acceleration obeys Newton and the constraint law",
"For any bodies of positive mass and inertia, any force generators and any independent constraints, a frame of the general-purpose rigid body system moves every body with the acceleration of the external forces plus constraint reactions, where the reactions are exactly those that make every constraint error C obey C'' = -ks*C - kd*C'. The resulting positions, angles and velocities agree with an independent solution of these equations, for every integrator (Euler, semi-implicit Euler, RK4) and every linear solver (direct, conjugate gradient, Gauss-Seidel without limits), to the solver's configured accuracy.",
["inputs","configurations","histories"],
"all scenes of 1..n bodies with m>0, I>0, every built-in constraint and force generator (position constraints with arbitrary gains), full-rank constraint sets, dt>0, steps>=1, several consecutive frames",
"No test builds a rigid body system at all; only matrices, solvers and integrators in isolation are tested, on one hand-written example each.",
[G,R,"src/rk4_ode_solver.cpp","src/euler_ode_solver.cpp","src/nsv_ode_solver.cpp"],
[("constraint assembly, right-hand side -Jdot*qdot - J*W*F - ks*C - kd*J*qdot, reaction application","src/generic_rigid_body_system.cpp:processConstraints"),("frame loop and write-back to bodies","src/generic_rigid_body_system.cpp:process")],
["RigidBody p_x,p_y,theta,v_x,v_y,v_theta after process()"])
p("C02","Velocity-level system: post-step velocities satisfy the biased constraints",
"After every step of the optimized velocity-level system run with a limit-free solver (or with no reaction limit active), the new velocities satisfy J*v + bias + (biasFactor/dt)*C = 0 for every constraint row evaluated at the step's start, they differ from the unconstrained velocities v + dt*F/m only by inverse-mass-weighted constraint reactions, and positions advance by dt times the new velocities. The result agrees with an independent solution of these equations for every linear solver, to the solver's configured accuracy.",
["inputs","configurations","histories"],
"all scenes of 1..n bodies with m>0, I>0, every built-in constraint and force generator, full-rank constraint sets, biasFactor in [0,1], dt>0, steps>=1, several consecutive frames",
"No test runs this system; the equations must hold for every scene and every step length.",
[O,R,"src/nsv_ode_solver.cpp"],
[("right-hand side -(J*q_dot_prime + v_bias + b_err), impulse to force conversion, application to bodies","src/optimized_nsv_rigid_body_system.cpp:processConstraints"),("frame loop","src/optimized_nsv_rigid_body_system.cpp:process")],
["RigidBody state after process()"])
p("C03","Reported constraint forces are the forces that acted",
"After a frame, the reaction force and torque that each constraint reports for each of its rows and each of its bodies is the reaction the solver applied to that body in the frame's last step (for a multi-stage integrator, the stage-weighted mean over that step). Hence for a one-step frame, mass times velocity change over dt equals the external force plus the sum of reported reactions, on every body and for every system and integrator.",
["inputs","configurations","histories"],
"all scenes with full-rank constraints of 1..3 rows and 1..2 bodies, both systems, all integrators and solvers, after any number of frames and of added/removed constraints",
"Reported forces are never read by any test.",
[G,O,"src/rk4_ode_solver.cpp"],
[("reaction write-back per row and body","src/generic_rigid_body_system.cpp:process, src/optimized_nsv_rigid_body_system.cpp:propagateResults"),("reaction accumulation over stages","src/rk4_ode_solver.cpp:solve")],
["Constraint F_x/F_y/F_t[row][body]","RigidBody velocity change"])
p("C04","Reaction limits are honoured and reactions are optimal within them",
"With the limit-aware solver in the velocity-level system, the reaction of every constraint row always lies within the limits that row declares (clutch and friction torque range, motor torque range, link maximum force, a gear in neutral transmits nothing, otherwise unlimited). A row whose reaction is strictly inside its limits meets its target velocity exactly (to the solver's tolerance), and a row held at a limit misses its target only in the direction the limit prevents.",
["inputs","configurations","histories"],
"all scenes with full-rank constraints, limits min<=max containing or not containing zero, any step length, several frames",
"No test exercises limits; the disabled Gauss-Seidel tests do not either.",
[O,"src/gauss_seidel_sle_solver.cpp","src/clutch_constraint.cpp","src/simple_gear_constraint.cpp","src/link_constraint.cpp","src/constant_rotation_constraint.cpp","src/rotation_friction_constraint.cpp"],
[("limits scaled by dt","src/optimized_nsv_rigid_body_system.cpp:processConstraints"),("projection in each sweep","src/gauss_seidel_sle_solver.cpp:solveIteration with limits"),("per-constraint limits","calculate() of each constraint")],
["Constraint F_x/F_y/F_t","RigidBody velocities"])
p("C05","Direct linear solver solves every nonsingular constraint system",
"For every sparse matrix J and weight vector W such that J*W*J^T is nonsingular, and every right-hand side, the direct (elimination) solver reports success and returns x with J*W*J^T*x = b up to rounding proportional to the conditioning, whatever row exchanges are needed. The previous-solution argument and earlier solves with the same solver object have no influence, and a system with zero rows succeeds with an empty solution.",
["inputs","histories"],
"all block-sparse J (up to two blocks per row, any number of rows), all W making the system nonsingular (indefinite ones too), all right-hand sides, any sequence of solves of different sizes on one solver object",
"Two hand-written systems are tested, neither needing row exchanges nor reuse.",
["src/gaussian_elimination_sle_solver.cpp","include/sparse_matrix.h","src/matrix.cpp"],
[("assembly, partial pivoting, back substitution","src/gaussian_elimination_sle_solver.cpp:solve")],
["solve() return value and result"])
p("C06","Conjugate gradient: success means within tolerance, and it converges",
"Whenever the conjugate gradient solver reports success, every component of the residual b - J*W*J^T*x of the returned x is within max(maxError*|b_i|, minError) and x is finite. For every well-conditioned positive definite system with enough iterations allowed it does report success, from any starting guess, and it never reports success for a system it could not solve to that tolerance.",
["inputs","configurations","histories"],
"all block-sparse J, nonnegative W, right-hand sides, tolerances, iteration limits and starting guesses (including none, wrong-sized or aliasing the result); singular and inconsistent systems included for the success-implies-accuracy half",
"One 4x4 example with default tolerances is tested.",
["src/conjugate_gradient_sle_solver.cpp","include/sparse_matrix.h"],
[("iteration and stopping rule","src/conjugate_gradient_sle_solver.cpp:solve, sufficientlySmall")],
["solve() return value and result"])
p("C07","Gauss-Seidel: success means a converged solution inside the limits",
"The Gauss-Seidel solver reports success only if its last sweep changed no component by more than its relative tolerance, so with a tight tolerance the result satisfies J*W*J^T*x = b, or with limits the complementarity conditions of the box-limited problem, to a bound proportional to that tolerance, for solutions of either sign and from any starting guess. With limits every returned component lies within its limits even when convergence is not reported. For well-conditioned positive definite systems and enough iterations it does report success.",
["inputs","configurations","histories"],
"all block-sparse J and positive W giving a positive definite system, right-hand sides and solutions of either sign, limits min<=max, tolerances and iteration limits, starting guesses (none, wrong-sized, aliasing the result)",
"The only tests of its results are commented out.",
["src/gauss_seidel_sle_solver.cpp"],
[("sweep, projection and stopping rule","src/gauss_seidel_sle_solver.cpp:solveIteration"),("iteration limit and warm start","src/gauss_seidel_sle_solver.cpp:solve, solveWithLimits")],
["solve()/solveWithLimits() return value and result"])
p("C08","Solvers agree with each other and are unaffected by reuse or warm start",
"For the same positive definite problem all linear solvers return the same solution to their tolerances, whatever starting guess they are given. Reusing one solver object for a sequence of problems of varying size gives the same results as a fresh object for each problem. Swapping the solver of a running rigid body system between frames does not change the trajectory beyond the tolerances.",
["inputs","histories","configurations"],
"all sequences of well-conditioned positive definite problems of growing and shrinking size; all scenes with exchanged solvers",
"Tests use each solver once, on a fresh object.",
["src/gauss_seidel_sle_solver.cpp","src/conjugate_gradient_sle_solver.cpp","src/gaussian_elimination_sle_solver.cpp","src/matrix.cpp","include/sparse_matrix.h"],
[("scratch matrices kept between solves","include/*_sle_solver.h members"),("warm start","solve() of the iterative solvers")],
["solve() results","RigidBody states"])
p("C09","Constraint derivatives are the true derivatives of the constraint",
"For every position-level constraint and every configuration, the Jacobian it outputs is the partial derivative of the constraint error it outputs with respect to each body coordinate, and the Jacobian rate it outputs is the time derivative of that Jacobian along the bodies' current velocities. For velocity-level constraints the Jacobian rate is zero. All entries of all rows and bodies are always written.",
["inputs"],
"every built-in constraint type, all finite parameters, positions, angles and velocities (all bodies moving at once, angles beyond one turn, non-unit radius and anchor offsets)",
"Only the rolling constraint is tested: radius 1, one anchor, one coordinate moving at a time.",
["src/fixed_position_constraint.cpp","src/fixed_rotation_constraint.cpp","src/link_constraint.cpp","src/line_constraint.cpp","src/rolling_constraint.cpp","src/clutch_constraint.cpp","src/simple_gear_constraint.cpp","src/constant_rotation_constraint.cpp","src/rotation_friction_constraint.cpp"],
[("calculate()","each constraint source file")],
["Constraint::Output C, J, J_dot"])
p("C10","Each constraint expresses the geometric or kinematic relation it stands for",
"The error and Jacobian each constraint outputs express its relation: fixed position - anchor point minus world point; link - the two anchor points coincide; line - anchor point's offset from the line, scaled by its direction; fixed rotation - angle minus target; rolling - centre one radius off the base's track and, relative to the base, turned by minus the distance travelled along the track divided by the radius (contact point does not slip, also on a moving or turning base); clutch, friction, gear and constant rotation - equal speeds, zero speed, speed1 = ratio*speed2, and J*v = -(configured speed). Configured gains and limits are passed through unchanged (the rolling relation has zero gain and the contact relation the configured one), with no bias or limits where the constraint has none; what is left unconfigured is a zero offset, target or speed, an engaged gear of ratio one, and unlimited reactions.",
["inputs"],
"every built-in constraint type, all finite parameters and body states; unit track direction for rolling",
"No test compares any constraint against its geometry.",
["src/fixed_position_constraint.cpp","src/fixed_rotation_constraint.cpp","src/link_constraint.cpp","src/line_constraint.cpp","src/rolling_constraint.cpp","src/clutch_constraint.cpp","src/simple_gear_constraint.cpp","src/constant_rotation_constraint.cpp","src/rotation_friction_constraint.cpp","src/constraint.cpp"],
[("calculate()","each constraint source file"),("noLimits","include/constraint.h")],
["Constraint::Output C, J, v_bias, limits, ks, kd","getConstraintCount()"])
p("C11","Force generators apply their physical law and nothing else",
"Gravity adds -m*g vertically to every body; a static force adds its force and its moment about the centre for its attachment point; a spring adds equal and opposite forces at its attachment points, the elastic part being minus the gradient of its reported energy (none below its minimum length) plus damping kd times the relative velocity of the attachment points; a constant-speed motor adds equal and opposite torques ks*(speed - relative speed) - kd*relative acceleration clamped to its maximum torque. Each generator adds to the accumulated forces and torques of exactly its own bodies and changes nothing else, so several generators superpose.",
["inputs","configurations"],
"all finite parameters and states, either or both spring ends on any bodies (the same body too), all orders and multiplicities of generators",
"No force generator has any test.",
["src/gravity_force_generator.cpp","src/static_force_generator.cpp","src/spring.cpp","src/constant_speed_motor.cpp","src/system_state.cpp","src/rigid_body_system.cpp"],
[("apply()","each generator source file"),("applyForce, velocityAtPoint, localToWorld","src/system_state.cpp"),("force reset and accumulation","src/rigid_body_system.cpp:processForces")],
["SystemState f_x,f_y,t","Spring energy(), getEnds()"])
p("C12","Integrators implement their scheme, RK4 to fourth order",
"Driven through the start/step/solve/end protocol with any acceleration law, Euler advances positions with the old and velocities with the current acceleration, the semi-implicit integrator advances velocities first and positions with the new velocities, and RK4 performs the classical fourth-order scheme in four stages, for every body and every coordinate. Step counts, reported completion and a solver object's earlier use do not alter the result, and RK4's error on smooth problems shrinks as the fourth power of the step.",
["inputs","histories","programs"],
"all initial states, all acceleration laws depending on position, velocity and angle, all dt, any number of bodies and consecutive steps with one integrator object used on systems of varying size",
"Tests use one body with constant acceleration, which cannot tell fourth-order RK4 from second-order schemes, nor exposes state kept between steps.",
["src/euler_ode_solver.cpp","src/nsv_ode_solver.cpp","src/rk4_ode_solver.cpp","src/system_state.cpp"],
[("stage machine","src/rk4_ode_solver.cpp:step, solve"),("update order","src/euler_ode_solver.cpp:solve, src/nsv_ode_solver.cpp:solve")],
["SystemState after end()","step() return values"])
p("C13","A frame of k substeps equals k frames of one substep",
"Processing one frame of length dt with k steps leaves every body in the same state, and every constraint with the same reported reactions, as processing k consecutive frames of length dt/k with one step each. Elapsed time reported by the velocity-level system advances by the same total.",
["inputs","configurations","histories"],
"all scenes whose forces depend only on poses and velocities (a motor's acceleration damping reads the previous evaluation's acceleration, which restarts at zero every frame, so motors with m_kd = 0), both systems, all integrators and solvers, k in 1..n",
"No test processes a frame.",
[G,O,R],
[("substep loop","src/generic_rigid_body_system.cpp:process, src/optimized_nsv_rigid_body_system.cpp:process"),("state population and write-back","src/rigid_body_system.cpp:populateSystemState")],
["RigidBody states","Constraint F_*","timeElapsed()"])
p("C14","Registration histories: exactly the registered objects act, on the right bodies",
"After any history of adding, removing, re-adding and resetting bodies, constraints and force generators, interleaved with frames, the counts, body lookup, body indices and total constraint-row count reflect exactly the registered objects, and a removed body is no longer treated as part of the system. Every frame then behaves like a frame of a freshly built system with the same registered objects, and bodies that are not registered are not moved.",
["histories","inputs"],
"all operation sequences on one system (removal of first, middle, last and only element; re-adding; reset; removing everything), with frames in between, both systems and all solvers",
"No test adds or removes anything.",
[R,G,O,"src/system_state.cpp"],
[("swap-with-last removal and index maintenance","src/rigid_body_system.cpp:remove*"),("state resizing","src/system_state.cpp:resize")],
["getRigidBodyCount/getConstraintCount/getForceGeneratorCount/getFullConstraintCount/getRigidBody","RigidBody::index","RigidBody states after frames"])
p("C15","A body outside the system is an immovable anchor",
"A spring, motor, link, rolling constraint, clutch or gear may connect a registered body with a body that was never registered in (or has been removed from) the system: the unregistered body then acts as a fixed anchor at its own pose with zero velocity, is never modified, and the registered body moves as if attached to an infinitely heavy body at rest. No memory outside the system's state is read or written.",
["inputs","configurations","histories"],
"all two-body force generators and constraints with either side unregistered, at any pose, in both systems with all integrators and solvers",
"No test uses an unregistered body.",
[G,O,"src/spring.cpp","src/constant_speed_motor.cpp","src/link_constraint.cpp","src/rolling_constraint.cpp","src/clutch_constraint.cpp","src/simple_gear_constraint.cpp"],
[("index == -1 handling","processConstraints of both systems, Spring::apply, ConstantSpeedMotor::apply")],
["RigidBody states of registered and unregistered bodies","AddressSanitizer"])
p("C16","Dense matrix operations compute their mathematical definition",
"After any sequence of initialisations, resizes, assignments, row swaps, destructions and arithmetic on a set of dense matrices, every matrix has exactly the dimensions and contents that the mathematical definitions of those operations give, including products, transposed products, scalings, sums, negation, transposition, scaled accumulation, dot product, magnitude and tolerance comparison. Storage reuse after growing, shrinking or destroying never leaks old contents into results.",
["histories","inputs"],
"all operation sequences over matrices of all shapes including empty, 1xn and nx1, results written to matrices of any previous size",
"Tests check five operations on one 2x2 example each, never on reused storage.",
["src/matrix.cpp","include/matrix.h"],
[("capacity management","src/matrix.cpp:resize, destroy"),("row pointer swap","include/matrix.h:fastRowSwap")],
["get(), getWidth(), getHeight(), dot(), vectorMagnitudeSquared(), equals()"])
p("C17","Sparse matrix operations equal those of the dense matrix they stand for",
"A block-sparse matrix built by any sequence of initialise, set-block, set, set-empty, resize, scale and destroy operations stands for one dense matrix, which its expansions return, and its products with vectors and matrices, transposed products and left/right scalings equal the corresponding dense results. Blocks never set, or set empty, count and read as zero in results, and any column block index of a matrix of any width is represented faithfully.",
["histories","inputs"],
"all block widths 1..3 and entries per row, any width including more than 255 column blocks, any height including zero, any fill pattern with distinct blocks per row, reused and destroyed storage",
"Tests use single 3-row examples of fully filled fresh matrices.",
["include/sparse_matrix.h"],
[("block index storage and empty marker","include/sparse_matrix.h:setBlock, setEmpty, initialize"),("block products","include/sparse_matrix.h:multiplyTranspose, multiply, transposeMultiplyVector, leftScale, rightScale")],
["expand(), expandTransposed(), get(), products"])
p("C18","Any object lifecycle is memory-safe, assertion-free and leak-free",
"Any valid lifecycle of systems, solvers, integrators, constraints, force generators, states and matrices - construction, use in any order and size, reuse, sharing of one solver or integrator between systems, reset, destruction at any point - performs no invalid memory access, trips no internal assertion and, once everything is destroyed, has released all memory it allocated.",
["histories","configurations"],
"all API histories over both system types, all solvers and integrators, with any interleaving of frames, registration changes, size changes and destructions",
"Each test makes one object and destroys it; none creates a system, and none runs under a memory checker.",
[G,O,R,"src/system_state.cpp","src/matrix.cpp","include/sparse_matrix.h","src/rk4_ode_solver.cpp","src/gauss_seidel_sle_solver.cpp","src/conjugate_gradient_sle_solver.cpp","src/gaussian_elimination_sle_solver.cpp"],
[("destructors and destroy()","every class owning storage"),("resize","src/system_state.cpp, src/matrix.cpp, include/sparse_matrix.h")],
["AddressSanitizer/UBSan","assertions","count of live allocations"])
p("C19","Results depend only on inputs, not on leftover memory or earlier use",
"Repeating the same scene gives bit-for-bit the same states and reported reactions every time, whatever the uninitialised heap contained, and whatever other scenes the same solver and integrator objects processed before. No quantity is computed from memory that was never written.",
["histories","inputs","configurations"],
"all scenes, both systems, all integrators and solvers, heap contents (zero, NaN, huge, arbitrary patterns), prior uses of shared solver and integrator objects",
"Tests run once in a fresh process, where heap memory usually happens to be zero.",
[G,O,R,"src/system_state.cpp","src/rk4_ode_solver.cpp","src/gauss_seidel_sle_solver.cpp","src/matrix.cpp","include/sparse_matrix.h","src/constraint.cpp"],
[("initialisation before use","initialize/resize/populate functions")],
["bit patterns of RigidBody states and Constraint F_*"])
p("C20","Internal interactions conserve momentum and passive constraints add no energy",
"In a scene without gravity, static forces or attachments to the world, total linear momentum is unchanged by every step in both systems with every integrator, up to rounding. Interactions that are central or torque pairs (undamped springs, motors, clutches, unit-ratio gears, links and rolling contacts whose relation is currently met) exert no net torque at any stage: total angular momentum is unchanged by every step of the velocity-level system and of the semi-implicit integrator, and with explicit Euler and RK4 changes only by those schemes' own discretisation drift. Enforcing constraints without position bias, speed bias or external forces never increases kinetic energy in the velocity-level system, with or without reaction limits that admit zero.",
["inputs","histories","configurations"],
"all scenes of bodies joined by springs, motors, links, rolling contacts, clutches and unit-ratio gears; all step lengths; all integrators and solvers",
"No test simulates interacting bodies.",
[G,O,"src/spring.cpp","src/constant_speed_motor.cpp","src/link_constraint.cpp","src/rolling_constraint.cpp","src/clutch_constraint.cpp","src/system_state.cpp"],
[("reactions J^T*lambda","processConstraints of both systems"),("equal and opposite application","Spring::apply, ConstantSpeedMotor::apply")],
["sum m*v, sum m*(p x v)+I*w, RigidBody::energy()"])
p("C21","Motion is independent of frame, object order, unrelated bodies and mass unit",
"Translating or rotating a whole scene (with the directions of its external forces and world anchors) translates or rotates the resulting motion; permuting the registration order of bodies, constraints and generators, or swapping the roles of a link's two bodies, does not change it; adding bodies and constraints that do not interact with the scene does not change it; scaling all masses, inertias, forces and stiffnesses by one factor does not change it and scales reported reactions by that factor. All hold up to rounding and solver tolerance, over several frames.",
["inputs","configurations"],
"all scenes with full-rank constraints, all rotations and translations, all permutations, both systems, all integrators and solvers",
"These are relations between pairs of runs; no test simulates even one.",
[G,O,R,"src/link_constraint.cpp","src/line_constraint.cpp","src/rolling_constraint.cpp","src/fixed_position_constraint.cpp","src/fixed_rotation_constraint.cpp"],
[("constraint assembly by body index","processConstraints of both systems"),("per-constraint geometry","calculate() of each constraint")],
["RigidBody states","Constraint F_*"])
p("C22","Constraint errors are corrected and stay bounded over long runs",
"In the velocity-level system with unlimited reactions, every step leaves each fixed-position, link, line and fixed-rotation error at (1 - biasFactor) times its previous value plus at most the second-order turning term (half of dt^2 times the sum of squared new angular speed times anchor distance). So a mechanism that starts assembled stays assembled, and one that starts apart is pulled together at the configured rate, for any number of frames.",
["inputs","histories"],
"all mechanisms with full-rank constraints assembled or not, biasFactor in [0,1], any step length, up to thousands of frames",
"Drift over long runs is never tested.",
[O,"src/nsv_ode_solver.cpp","src/link_constraint.cpp","src/fixed_position_constraint.cpp","src/line_constraint.cpp","src/fixed_rotation_constraint.cpp"],
[("position bias term","src/optimized_nsv_rigid_body_system.cpp:processConstraints")],
["constraint errors recomputed from RigidBody poses"])
p("C23","Coordinate, velocity, force and energy views of a body are consistent",
"For every body pose, world-to-local inverts local-to-world and both preserve distances, on a body and on a state snapshot alike; the velocity reported for a body-fixed point is the time derivative of its world position; applying a force at that point does power on the body equal to force times that velocity. A body's energy is its kinetic energy 1/2*m*v^2 + 1/2*I*w^2, and a new or reset body is at rest at the origin.",
["inputs"],
"all finite poses (angles of any size), velocities, local points and forces, any body index of a state",
"No test calls any of these.",
["src/rigid_body.cpp","src/system_state.cpp"],
[("localToWorld, worldToLocal, energy","src/rigid_body.cpp"),("localToWorld, velocityAtPoint, applyForce","src/system_state.cpp")],
["return values and SystemState f_x,f_y,t"])
p("C24","Every evaluation applies each registered generator and constraint exactly once",
"In every stage of every substep each registered force generator is applied and each registered constraint evaluated exactly once, generators before constraints, on a state that holds every registered body's current pose, velocity and mass, its acceleration of the preceding evaluation (zero at the first of a frame), all forces cleared, each registered constraint's first row, and the stage's time offset (dt/steps for one-stage integrators; 0, half, half, full for RK4). After the frame the state snapshot and the bodies agree, elapsed time of the velocity-level system has advanced by dt, and timing statistics are finite and nonnegative.",
["histories","configurations","inputs"],
"user-defined generators and constraints (1..3 rows, 1..2 bodies) registered in any number with built-in ones, both systems, all integrators, steps>=1, any registration history",
"User-defined objects and frames are never exercised by tests.",
[R,G,O,"src/rk4_ode_solver.cpp"],
[("frame loop","process() of both systems"),("state population, force clearing","src/rigid_body_system.cpp:populateSystemState, processForces")],
["calls received by probe generators and constraints","state()","timeElapsed()","get*Microseconds()"])
p("C25","Behaviour does not change with the number of bodies, constraints or frames",
"A system of many independent mechanisms moves each of them exactly as a system holding that mechanism alone, however many bodies and constraints there are in total (several hundred and more), in which ever order they were registered. Running many more frames than any internal history length changes nothing about later frames.",
["inputs","histories","configurations"],
"systems of up to several hundred bodies and constraint rows, and runs of well over 600 frames, both systems, all solvers",
"No test has more than two bodies or processes a frame.",
["include/sparse_matrix.h",G,O,R,"src/system_state.cpp"],
[("block index type","include/sparse_matrix.h"),("profiling ring buffer","process() of both systems")],
["RigidBody states compared between the joint and the separate systems"])
p("C26","A state snapshot copy is complete and independent",
"Copying a state snapshot makes the destination equal to the source in its body and constraint counts and in every per-body and per-constraint quantity, whatever size the destination had before (larger, smaller or empty in either dimension), and later changes to either leave the other unchanged. Resizing a state to given counts gives it exactly those counts, and destroying it releases everything and leaves it usable again.",
["histories","inputs"],
"all sequences of resize, fill, copy and destroy over several states with body and constraint counts from zero up",
"No test copies a state or resizes one twice.",
["src/system_state.cpp","include/system_state.h","src/rk4_ode_solver.cpp"],
[("copy, resize, destroy","src/system_state.cpp")],
["all public arrays and counts of SystemState","AddressSanitizer, allocation count"])
p("C27","User-supplied solvers and integrators get the right problem, order and effect",
"In every evaluation a user-supplied linear solver is called once, after the force generators and constraints, with one row per registered constraint row in registration order: the constraint Jacobian of the current state at the bodies' coordinates (nothing for unregistered bodies), the inverse masses and inertias as weights, and the right-hand side the system's law prescribes; in the velocity-level system the declared limits times the step length are passed to a solver that supports limits, and only to such a one. Whatever it returns is what acts (accelerations are inverse mass times external forces plus J^T times the solution, the solution being an impulse in the velocity-level system) and what is reported as reactions. A user-supplied integrator is started once per substep with dt/steps, then step, evaluation and solve alternate until its step reports completion, then it is ended; what it leaves in the state is what the bodies get. Solver and integrator may be exchanged between frames. The timing statistics are averages per frame, over at most the last 600 frames, that are no less than the time user code took in that part and together no more than the frame took.",
["configurations","histories","inputs"],
"any scene (also with dependent constraints), any numbers returned by the solver, any integrator of one or more stages, both systems, steps>=1, exchanged between frames",
"No test supplies a solver or integrator of its own.",
[G,O,R,"include/sle_solver.h","include/ode_solver.h"],
[("frame loop, problem assembly, use of the solution, timing","process(), processConstraints() of both systems"),("timing averages","src/rigid_body_system.cpp:findAverage")],
["arguments of SleSolver::solve/solveWithLimits","order of OdeSolver calls","state given to the integrator","RigidBody state","Constraint::F_x/F_y/F_t","get*Microseconds()"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
