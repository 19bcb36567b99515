"""Writes /verif/properties.jsonl from the definitions below."""
import json
import os

D = "movement_primitives/dmp/"
P = "movement_primitives/"
FAST = P + "dmp_fast.pyx"
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe_at=()):
    assert len(title) <= 80, title
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe_at), hook_needed=None)))


prop("C01", "Phase falls from 1 to the configured value over the execution time",
     "For every start time, later end time and positive final phase value, the phase is exactly 1 at the start time and exactly the configured final value at the end time, and in between it depends only on the elapsed fraction of the execution time. The phase is always positive and, for a final value below 1, strictly decreasing in time, both in the pure Python and in the compiled implementation. A non-positive final value, or an end time that is not after the start time, is rejected with an error.",
     ["inputs", "configurations"],
     "all real times, start/end times with start < end, final phase values > 0, scalar and array times",
     "The tests evaluate the phase at a handful of times of one interval starting at 0; they say nothing about other intervals, other final values, or the agreement of both implementations there.",
     [D + "_canonical_system.py", FAST],
     [("canonical_system_alpha, phase", D + "_canonical_system.py"), ("phase", FAST)],
     observe_at=["return values of phase and canonical_system_alpha"])

prop("C02", "Forcing term is a phase-gated normalized mixture of the weights",
     "For every execution interval, every number of weights per dimension above 1 and every phase value, the basis activations are positive and sum to one, the basis centres are the phases of equally spaced times from the start to the end of the interval, and each basis function has decayed to the configured overlap at the next centre. The forcing term equals the phase times the activation-weighted sum of the weights of each dimension. The features used to fit the weights to a demonstration are exactly the features that multiply the weights during execution.",
     ["inputs", "configurations"],
     "all dimensions, numbers of weights, intervals (not only those starting at 0), overlaps in (0,1), phase parameters, weights and phase values",
     "Tests use single intervals that start at time 0 and compare rollouts with demonstrations to a few decimals, so a misplaced centre, width or feature is absorbed by the regression.",
     [D + "_forcing_term.py"],
     [("ForcingTerm._init_rbfs, _activations, design_matrix, forcing_term", D + "_forcing_term.py")],
     state=[("centers, widths, weights_", "parameters of the basis functions", D + "_forcing_term.py")],
     observe_at=["ForcingTerm.forcing_term", "ForcingTerm.design_matrix"])

prop("C03", "One position DMP step integrates the documented transformation system",
     "For every state, goal, start, gains, execution time, forcing term, optional coupling term, tracking error and scaling mode, one step of each integrator (Euler and fourth-order Runge-Kutta, pure Python and compiled) produces the new position and velocity that the documented transformation system prescribes. Euler integration covers the step interval completely with substeps of the internal step size (the last one possibly shorter), whatever the number of substeps. Apart from the current position and velocity, no argument is modified.",
     ["inputs", "configurations"],
     "all dimensions, real states, per-dimension gains, step lengths, internal step sizes, coupling terms (arbitrary functions of position and velocity), tracking errors and gains",
     "Tests compare a few rollouts with equal gains per dimension, mostly without coupling, tracking error or smooth scaling, to 2-3 decimals; the formula is never compared term by term, and only a few substep counts occur.",
     [D + "_dmp.py", FAST],
     [("dmp_step_rk4, _dmp_acc, dmp_step_euler", D + "_dmp.py"), ("dmp_step, dmp_step_rk4, _dmp_acc", FAST)],
     observe_at=["current position and velocity arrays after the call"])

prop("C04", "Pure Python and compiled implementations are interchangeable",
     "For every input accepted by both, the pure Python and the compiled implementation of the same operation compute the same result in exact arithmetic: Euler and Runge-Kutta DMP steps, orientation steps, dual-arm steps, the phase and the two-dimensional obstacle avoidance. This includes coupling terms with velocity and acceleration components (also together with a precomputed coupling), tracking-error correction over several internal substeps, per-dimension gains and smooth scaling. Choosing the implementation therefore never changes a trajectory beyond rounding.",
     ["inputs", "configurations"],
     "all inputs of the paired functions with the current time after the start time; for orientations unit quaternions, no exact half turn to the goal and less than half a turn per substep",
     "Tests compare the pairs at random states with default options only (no velocity coupling, no tracking error with more than one substep, uniform gains).",
     [D + "_dmp.py", D + "_cartesian_dmp.py", D + "_dual_cartesian_dmp.py", D + "_coupling_terms.py", FAST],
     [("pure Python step functions", D + "_dmp.py, _cartesian_dmp.py, _dual_cartesian_dmp.py"), ("compiled step functions", FAST)],
     observe_at=["states after one step", "return values"])

prop("C05", "Orientation steps rotate by the quaternion transformation system",
     "For every unit orientation, goal orientation, angular velocity, gains, execution time, forcing term, coupling term and scaling mode, one orientation step yields the angular velocity and orientation that the quaternion transformation system prescribes, for any number of internal substeps. The new orientation is again a unit quaternion, so it can be fed back for arbitrarily many steps. The quaternion product, conjugate, exponential, logarithm and rotation matrix used by the compiled code agree with their mathematical definitions, including the zero rotation and both quaternions of a rotation.",
     ["inputs", "configurations"],
     "all unit quaternions except exact half turns to the goal, angular velocities of less than half a turn per substep, gains, forcing terms, coupling terms, step lengths and internal step sizes",
     "Tests roll out one or two orientation trajectories and compare to a few decimals; quaternions with negative scalar part, zero rotations and non-default options are barely reached.",
     [D + "_cartesian_dmp.py", FAST],
     [("dmp_step_quaternion_python", D + "_cartesian_dmp.py"),
      ("dmp_step_quaternion, concatenate_quaternions, quaternion_from_compact_axis_angle, q_conj, compact_axis_angle_from_quaternion", FAST)],
     observe_at=["orientation and angular velocity after the call"])

prop("C06", "Dual-arm steps drive each arm by its own gains, goal and error",
     "For every dual-arm state, goal, start, per-component gains, forcing term, coupling term, tracking error and scaling mode, one dual-arm step moves each arm's position and orientation exactly as the single-arm position and orientation systems with that arm's own components prescribe, for any number of internal substeps. No component of one arm influences the other arm except through the coupling term. Both orientations stay unit quaternions.",
     ["inputs", "configurations"],
     "all 14-component states with unit quaternions (no exact half turn to the goal, less than half a turn per substep), 12-component velocities and gains, tracking errors and gains, coupling terms, step lengths",
     "Tests run one bimanual demonstration with uniform gains and compare the two implementations without tracking error.",
     [D + "_dual_cartesian_dmp.py", FAST],
     [("dmp_step_dual_cartesian_python", D + "_dual_cartesian_dmp.py"), ("dmp_step_dual_cartesian", FAST)],
     observe_at=["state after the call"])

prop("C07", "Imitation targets are the forces that reproduce the demonstration",
     "For every demonstration, the target forces derived from it are exactly those for which the transformation system used during execution yields the demonstrated acceleration at the demonstrated position and velocity, for every sample, dimension, gain and scaling mode. This holds for position, orientation and final-velocity primitives. Demonstrated velocities and accelerations are the finite differences of the samples over the given times, with the documented zero end values.",
     ["inputs", "configurations"],
     "all demonstrations with at least three samples and strictly increasing (also non-uniform) times, all gains, both scaling modes, final velocity allowed or not",
     "Tests only compare reproduced trajectories with demonstrations to 1-3 decimals, so an error in a gain, sign or scale of the target is partly compensated by the attractor.",
     [D + "_dmp.py", D + "_cartesian_dmp.py", D + "_dmp_with_final_velocity.py"],
     [("determine_forces", D + "_dmp.py"), ("determine_forces_quaternion", D + "_cartesian_dmp.py"),
      ("determine_forces", D + "_dmp_with_final_velocity.py")],
     observe_at=["target forces"])

prop("C08", "Imitation solves the regularized regression and adopts the endpoints",
     "For every demonstration and regularization coefficient, imitation sets the weights to the solution of the documented regularized least-squares problem for the target forces, and sets start and goal to the first and last sample. Every weight belongs to the dimension, and for combined primitives the body part, it was fitted for. The learned weights depend on the demonstrated times only through their differences: shifting all times by a constant changes nothing, and a negative coefficient is rejected.",
     ["inputs", "configurations"],
     "all demonstrations, all regularization coefficients, all position, orientation, dual-arm and final-velocity primitives, all time offsets",
     "Every test demonstration starts at time 0, uses one regularization coefficient and checks reproduction error only.",
     [D + "_dmp.py", D + "_cartesian_dmp.py", D + "_dual_cartesian_dmp.py", D + "_dmp_with_final_velocity.py", D + "_forcing_term.py"],
     [("dmp_imitate, ridge_regression, DMP.imitate", D + "_dmp.py"), ("dmp_quaternion_imitation, CartesianDMP.imitate", D + "_cartesian_dmp.py"),
      ("DualCartesianDMP.imitate", D + "_dual_cartesian_dmp.py")],
     observe_at=["weights, start and goal after imitation"])

prop("C09", "An open-loop rollout is repeated stepping and leaves no trace",
     "For every configured primitive and run time, the open-loop rollout starts at the configured start, its times start at zero and are spaced by the primitive's time step up to the run time, and each later sample is the result of one integration step from the previous one with the primitive's own goal, gains, forcing term, coupling term, internal step size and scaling mode. Rolling out a second time gives the same trajectory. A rollout does not modify start, goal, weights or gains, and leaves the primitive's time as it was or at zero.",
     ["inputs", "configurations", "histories"],
     "all position, Cartesian, dual-arm, final-velocity, state-following and spring-damper primitives, any number of steps, any sequence of previous calls",
     "Tests perform single rollouts with few run times; repeating a rollout after other calls, with tracking gains or longer run times, is not exercised.",
     [D + "_dmp.py", D + "_cartesian_dmp.py", D + "_dual_cartesian_dmp.py", D + "_dmp_with_final_velocity.py", D + "_state_following_dmp.py", P + "spring_damper.py"],
     [("dmp_open_loop, DMP.open_loop", D + "_dmp.py"), ("dmp_open_loop_quaternion, CartesianDMP.open_loop", D + "_cartesian_dmp.py"),
      ("DualCartesianDMP.open_loop", D + "_dual_cartesian_dmp.py"), ("spring_damper_open_loop", P + "spring_damper.py")],
     observe_at=["returned times and states"])

prop("C10", "Stepping, configuring and resetting keep time and state consistent",
     "For every sequence of configure, step and reset calls, each step advances the primitive's time by exactly one time step, passes the interval it advanced over and the primitive's own configuration to the integrator, and returns arrays the caller may change or keep without affecting the primitive or later results. Configuring changes exactly the given quantities and rejects arrays of wrong length without changing that quantity, one gain given at construction applies to every dimension and gains of wrong shape are rejected; resetting restores time zero and the configured start state. Arrays passed in by the caller are never modified.",
     ["inputs", "configurations", "histories"],
     "all primitives with a step method, all states, all call sequences",
     "Tests step a few primitives for one trajectory and never modify or keep the returned arrays, change the configuration mid-way or check untouched quantities.",
     [P + "base.py", D + "_base.py", D + "_dmp.py", D + "_cartesian_dmp.py", D + "_dual_cartesian_dmp.py", D + "_dmp_with_final_velocity.py", D + "_state_following_dmp.py", P + "spring_damper.py"],
     [("PointToPointMovement.configure, n_steps_open_loop", P + "base.py"), ("DMPBase.reset", D + "_base.py"), ("step methods", D + "_dmp.py and siblings")],
     state=[("t, last_t, current_y, current_yd, initialized", "execution state", P + "base.py")],
     observe_at=["return values of step", "public attributes"])

prop("C11", "Weights survive access and change of duration unaltered",
     "For every primitive with weights, writing a weight vector and reading it back returns the same vector, reading and writing back changes nothing, the vector's length is the reported number of weights, and a vector read earlier is not changed by later writes. Each entry addresses one fixed dimension and basis function. Changing the execution time keeps all weights and makes the phase run from 1 to its final value over the new duration.",
     ["inputs", "configurations", "histories"],
     "all weight vectors, all numbers of dimensions and weights, all positive execution times",
     "Tests cover one weight vector per class and one duration change.",
     [D + "_base.py", D + "_cartesian_dmp.py", D + "_dmp.py", D + "_dual_cartesian_dmp.py", D + "_dmp_with_final_velocity.py"],
     [("WeightParametersMixin", D + "_base.py"), ("CartesianDMP.get_weights, set_weights", D + "_cartesian_dmp.py"), ("set_execution_time_", D + "_dmp.py")],
     observe_at=["get_weights, set_weights, n_weights, execution_time_"])

prop("C12", "A primitive at rest at its goal stays there",
     "For every goal, gains, step lengths and execution time, a primitive that is at its goal with zero velocity, zero weights, no coupling and no tracking error stays exactly there, for every integrator and implementation and any number of substeps. With smooth scaling this holds when the start equals the goal. It holds for position, orientation, dual-arm, final-velocity, state-following and spring-damper primitives.",
     ["inputs", "configurations"],
     "all goals (for orientations both unit quaternions), gains, times, internal step sizes, dimensions",
     "Tests only check that rollouts end near the goal within a tolerance.",
     [D + "_dmp.py", D + "_cartesian_dmp.py", D + "_dual_cartesian_dmp.py", D + "_dmp_with_final_velocity.py", D + "_state_following_dmp.py", P + "spring_damper.py", FAST],
     [("step functions", D + "_dmp.py and siblings"), ("compiled step functions", FAST)],
     observe_at=["state after a step"])

prop("C13", "Position DMPs are equivariant to shifts, rescaling and time scaling",
     "For every position DMP step, shifting position, start and goal by one vector shifts the new position by that vector and leaves the new velocity unchanged. Scaling execution time, step lengths and times by a common factor leaves positions unchanged and divides velocities by that factor. Scaling position, start, goal, velocity and weights by a common factor scales the result by that factor.",
     ["inputs", "configurations"],
     "all states, goals, gains, forcing terms, shifts and positive scale factors, without coupling terms and, for scaling of time, without tracking error; Euler and Runge-Kutta, both implementations",
     "Tests check one temporally scaled rollout to a few decimals.",
     [D + "_dmp.py", FAST, D + "_forcing_term.py", D + "_canonical_system.py"],
     [("dmp_step_rk4, dmp_step_euler", D + "_dmp.py"), ("dmp_step, dmp_step_rk4", FAST)],
     observe_at=["state after a step"])

prop("C14", "Final-velocity DMP follows a quintic meeting all boundary conditions",
     "For every start and end time and every start and goal position, velocity and acceleration, the moving target of a final-velocity DMP has exactly the given position, velocity and acceleration at the start and at the end time, and its velocity and acceleration are the derivatives of its position in between. After the end time the target is the goal position at rest. One step integrates the documented transformation system around that moving target, for any number of substeps.",
     ["inputs", "configurations"],
     "all start < end times, all boundary values, all dimensions, gains, coupling terms and tracking errors; times within a billionth after the end time excepted",
     "Tests roll out two demonstrations and compare final position and velocity to a few decimals.",
     [D + "_dmp_with_final_velocity.py"],
     [("solve_constraints, apply_constraints, dmp_step_euler_with_constraints", D + "_dmp_with_final_velocity.py")],
     observe_at=["target position, velocity, acceleration; state after a step"])

prop("C15", "Spring-damper steps follow the damped spring law",
     "For every state, goal, stiffness, damping, coupling term and step length, one spring-damper step applies the acceleration given by stiffness times distance to goal minus damping times velocity plus coupling, over substeps of the internal step size that cover the interval completely. Without a given damping the system is critically damped, that is, the damping equals twice the square root of the stiffness. For orientations the distance is the rotation vector to the goal and the orientation stays a unit quaternion.",
     ["inputs", "configurations"],
     "all states, goals, stiffness > 0, damping values or default, coupling terms, step lengths, substep counts",
     "Tests check that one rollout ends near the goal.",
     [P + "spring_damper.py"],
     [("spring_damper_step, spring_damper_step_quaternion, _default_critically_damped_c", P + "spring_damper.py")],
     observe_at=["state after a step"])

prop("C16", "Coupling terms pull followers to the desired relation and spare leaders",
     "For every state and desired relation, each pairwise coupling term contributes zero velocity and acceleration to a component or arm whose leader-follower factor is zero and to every part that is not to be coupled. When the pair already satisfies the desired relation (at rest, where velocities are damped), the contribution is zero; otherwise it is proportional to the deviation, with equal and opposite effect on the two sides for equal factors, and points so as to reduce the deviation. Coupling does not modify the state it is given.",
     ["inputs", "configurations"],
     "all states, desired distances or poses, gains and leader-follower factors",
     "Tests run three coupled rollouts and check the mean distance with tolerances of up to ten percent.",
     [D + "_coupling_terms.py"],
     [("CouplingTermPos1DToPos1D, CouplingTermPos3DToPos3D, CouplingTermDualCartesianDistance, CouplingTermDualCartesianPose, CouplingTermDualCartesianTrajectory", D + "_coupling_terms.py")],
     observe_at=["coupling velocity and acceleration"])

prop("C17", "Obstacle avoidance follows the documented steering law everywhere",
     "For every position, velocity and obstacle position, the avoidance acceleration is the velocity turned by 90 degrees in the plane of velocity and obstacle direction, away from the obstacle, scaled by the gain, the steering angle and the exponential of the negative steering angle times the decay parameter. It is zero at zero velocity and the three-dimensional version restricted to a plane, the two-dimensional version, its batch use and the compiled version agree. The coupling velocity is always zero.",
     ["inputs", "configurations"],
     "all positions, velocities, obstacles, gain and decay parameters in two and three dimensions, single points and batches; velocities exactly along the line to the obstacle, where no plane of steering exists, excepted in three dimensions",
     "Tests compare values at a few random points and check one rollout.",
     [D + "_coupling_terms.py", FAST],
     [("obstacle_avoidance_acceleration_2d, obstacle_avoidance_acceleration_3d", D + "_coupling_terms.py"), ("obstacle_avoidance_acceleration_2d, matrix_from_compact_axis_angle", FAST)],
     observe_at=["returned accelerations"])

prop("C18", "ProMP trajectory statistics are those of one linear Gaussian model",
     "For every weight distribution and time sequence, mean trajectory, trajectory covariance, variance, mean velocities, velocity covariance and samples are the images of the weight distribution under the same normalized basis matrix or its derivative with respect to normalized time, one block per dimension. At every time the basis activations are positive and sum to one, and depend on time only relative to the final time. Queries modify neither the model nor the caller's time array.",
     ["inputs", "configurations", "histories"],
     "all numbers of dimensions and weights, weight means and covariances, time sequences of non-negative times with positive final time",
     "Tests compare sample statistics with two learned models to 2-3 decimals for times in [0, 1].",
     [P + "promp.py"],
     [("ProMP.mean_trajectory, cov_trajectory, var_trajectory, mean_velocities, cov_velocities, var_velocities, sample_trajectories, _rbfs_1d_sequence, _rbfs_derivative_1d_sequence, _nd_block_diagonal", P + "promp.py")],
     state=[("weight_mean, weight_cov, centers", "weight distribution and basis", P + "promp.py")],
     observe_at=["returned arrays"])

prop("C19", "ProMP conditioning is exact Gaussian conditioning",
     "For every weight distribution, conditioning time and observed position with covariance, the conditioned model is the Gaussian posterior of the weights given that observation. In particular, with zero observation covariance its mean trajectory passes exactly through the observed position at that time with zero variance. The original model is left unchanged, and conditioning on several via-points is conditioning on each of them in turn.",
     ["inputs", "configurations"],
     "all weight means, positive semi-definite covariances for which the observation covariance is invertible, times, observed values and covariances",
     "Tests check a few via-points of one learned one-dimensional model.",
     [P + "promp.py"],
     [("ProMP.condition_position, via_points, _rbfs_1d_point, _nd_block_diagonal", P + "promp.py")],
     observe_at=["mean and covariance of the conditioned model"])

prop("C20", "ProMP fitting solves its regression and EM updates",
     "For every trajectory, the weights computed for it are the solution of the documented ridge regression on the model's basis. Each expectation step computes the Gaussian posterior of a demonstration's weights and each maximization step sets the weight mean to the average of these means and the weight covariance to their scatter plus average covariance, so the covariance stays symmetric and positive semi-definite. Fitting does not modify the demonstrations.",
     ["inputs", "configurations"],
     "all demonstrations, weight distributions and noise variances",
     "Tests check aggregate reproduction error of two fitted models.",
     [P + "promp.py"],
     [("ProMP.weights, imitate, _expectation, _maximization", P + "promp.py")],
     observe_at=["weights, weight_mean, weight_cov after fitting"])

prop("C21", "Saving and loading a primitive preserves its behaviour",
     "For every primitive in any configured or trained state, writing it to a YAML, JSON or pickle file and reading the file back yields a primitive of the same type whose weights, gains, duration, time steps, start, goal and internal basis are equal to the original's, so that it behaves identically. Writing does not modify the primitive. Reading a file that names an unknown class fails with an import error.",
     ["inputs", "configurations", "histories"],
     "all primitive types, all constructor arguments and attribute values (including numpy scalars), all weights, after any sequence of training and configuration",
     "Tests round-trip one object per format with default Python floats and compare one rollout.",
     [P + "io.py"],
     [("_recursive_to_dict, _recursive_from_dict, _dict_to_object, read_*/write_*", P + "io.py")],
     observe_at=["attributes of the restored object"])

prop("C22", "Minimum-jerk trajectories start at the start and end at rest at the goal",
     "For every start, goal and time step, and every duration of at least two time steps, the generated trajectory begins exactly at the start and ends exactly at the goal, with zero velocity and acceleration at both ends, within the requested duration. In between each sample continues the quintic from the previous sample to the goal. Stepping through such a trajectory returns its samples in order, and resetting restarts it.",
     ["inputs", "configurations", "histories"],
     "all starts, goals, dimensions, durations and time steps",
     "Tests use duration 1 with step 0.01 only; for many other durations rounding or truncation decides whether the final sample is reached.",
     [P + "data/_minimum_jerk.py", P + "minimum_jerk_trajectory.py"],
     [("generate_minimum_jerk", P + "data/_minimum_jerk.py"), ("MinimumJerkTrajectory.step, reset", P + "minimum_jerk_trajectory.py")],
     observe_at=["returned positions, velocities, accelerations"])

prop("C23", "Forward kinematics respects joint limits and pose error is a metric-like gap",
     "For every joint value, setting a joint applies the rotation about, or translation along, its axis by the value clipped to the joint limits, and the computed rotation is a proper rotation. The forward pose is that of the given joint values regardless of earlier calls. The pose error is the weighted sum of the rotation angle and translation distance between the two poses, is defined for every pair of poses, non-negative for non-negative weights and zero for equal poses.",
     ["inputs", "configurations", "histories"],
     "all joint values, limits, unit axes, pairs of rigid poses, weights and previous calls",
     "Tests evaluate one robot at a few joint vectors and never reach rotations by 180 degrees.",
     [P + "kinematics.py"],
     [("FastUrdfTransformManager.set_joint, _fast_matrix_from_axis_angle, Chain.forward, Chain.ee_pose_error, pose_dist", P + "kinematics.py")],
     observe_at=["joint transforms, poses, errors"])

prop("C24", "Inverse kinematics searches where it was told and returns its best result",
     "For every desired pose, the inverse kinematics passes the caller's solver, weights, initial values and bounds (joint limits by default, half a turn where a joint has none) to the optimizer and returns what it found. With random restarts it returns the best of all results tried and stops early only at the tolerance; local search and trajectory search stay within the given interval around the reference joint values and within the joint limits. Trajectory search handles the poses in order, each starting from the previous solution.",
     ["inputs", "configurations"],
     "all poses, solvers, weights, intervals, numbers of restarts, random samples and optimizer results",
     "Tests run one robot and check the final pose error only, so ignored options and bounds go unnoticed.",
     [P + "kinematics.py"],
     [("Chain.inverse, inverse_with_random_restarts, local_inverse_with_random_restarts, inverse_trajectory", P + "kinematics.py")],
     observe_at=["arguments of the optimizer call, returned joint values"])

prop("C25", "State-following DMP blends its via-points with normalized activations",
     "For every set of via-points, gains, execution time and state, the activations of the via-points are positive and sum to one, with centres at the phases of equally spaced times of the interval and the configured overlap at the next centre. One step applies the activation-weighted sum of the attractors of the via-points plus coupling, over substeps that cover the interval completely. The state returned by a step is not changed by later steps.",
     ["inputs", "configurations", "histories"],
     "all numbers of via-points above 1, via-points, states, gains, intervals, coupling terms, substep counts",
     "One test rolls out a single configuration and checks the end position.",
     [D + "_state_following_dmp.py"],
     [("StateFollowingForcingTerm, state_following_dmp_step, StateFollowingDMP.step", D + "_state_following_dmp.py")],
     observe_at=["activations, state after a step"])

prop("C26", "Distribution propagation unpacks parameters as they were packed",
     "For every dataset of dual-arm demonstrations, the parameter vector of a demonstration holds the imitated weights, start, goal and duration of that demonstration, and rolling out a parameter vector uses exactly those weights, that start and that goal for the dual-arm primitive. The rollout therefore starts at the start contained in the parameter vector, and the distribution of trajectories is estimated from the rollouts with the same settings the rolled out vectors were chosen with. Demonstrations are not modified and cached rollouts give the same distribution.",
     ["inputs", "configurations"],
     "all datasets, numbers of weights, parameter vectors",
     "The only test needs a data set that is not part of the repository.",
     [P + "dmp_to_state_space_distribution.py"],
     [("propagate_weight_distribution_to_state_space, estimate_dmp_parameter_distribution, propagate_to_state_space, estimate_state_distribution", P + "dmp_to_state_space_distribution.py")],
     observe_at=["samples passed to the distribution, rolled out trajectories"])

prop("C27", "Potential field sums the accelerations acting on a 2D DMP",
     "For every two-dimensional DMP that ends at rest, grid and optional obstacle, the field at each grid point is the acceleration the DMP would have there with its current velocity, time, start, goal, gains, execution time and scaling, together with obstacle avoidance. It is reported as the sum of the parts of the forcing term, the transformation system and the obstacle. The DMP is not modified.",
     ["inputs", "configurations"],
     "all 2D DMP states, grids, obstacles, gains, execution times",
     "The test only checks shapes and that the parts add up.",
     [P + "dmp_potential_field.py", D + "_dmp.py"],
     [("potential_field_2d", P + "dmp_potential_field.py"), ("dmp_transformation_system", D + "_dmp.py")],
     observe_at=["returned fields"])


def main():
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, sort_keys=False) + "\n")


if __name__ == "__main__":
    main()
