import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Preview matrices reproduce the exact constant-jerk motion",
 "For every number of samples, sampling period and remaining time before the first sample, the preview matrices for position, velocity, acceleration, jerk, centre of pressure (any height, gravity and mass fraction) and for second-order position and velocity give, for every start state and every control sequence, exactly the values obtained by integrating the piecewise-constant motion step by step. The published transposes, inverses and transposed inverses of those matrices agree with the matrices themselves.",
 ["inputs","configurations"],"all N, S, T, heights, gravity vectors, mass fractions, start states and control sequences",
 "test-lip-model and test-zebulon-base-model compare the first or last sample of two fixed configurations with S = T; off-diagonal structure, S < T, horizontal gravity, mass fractions, inverses are never looked at.",
 ["src/tools.cpp","mpc-walkgen/tools.h","src/lineardynamic.cpp","mpc-walkgen/lineardynamic.h"],
 [("closed-form preview matrices","src/tools.cpp: ConstantJerkDynamic::compute*Dynamic"),("matrix inverse","mpc-walkgen/tools.h: inverseLU"),("storage reset","src/lineardynamic.cpp: LinearDynamic::reset")],
 ["fields U, UT, Uinv, UTinv, S, K of the computed dynamic"])
p("C02","State integration is exact, additive in time and consistent with the preview",
 "Advancing a state by a constant jerk over a duration gives the exact third-order integration, advancing over a then b equals advancing over a+b, and the state reached equals the first sample of the corresponding preview. This holds along every axis of every model (centre of mass, base, free trajectory, yaw), and advancing one axis changes no other axis.",
 ["inputs","histories"],"all states, jerks, durations and interleavings of axis updates",
 "Each test advances one axis by one jerk once from the zero state or a fixed state.",
 ["src/tools.cpp","src/model/lip_model.cpp","src/model/zebulon_base_model.cpp","src/model/no_dynamic_model.cpp"],
 [("integration","src/tools.cpp: ConstantJerkDynamic::updateState"),("axis wrappers","src/model/*.cpp: updateState*")],
 ["state getters of the three models before and after each update"])
p("C03","A model always equals a freshly built model with the same final parameters",
 "After any sequence of setters in any legal order with any overwrites, each model (centre of mass, mobile base, free trajectory, foot) exposes the preview matrices, parameters and states of a freshly built model given only the final values. With automatic recomputation off, an explicit recomputation gives the same matrices; preview matrices for the k-th call before the next sample are those for a remaining time of k feedback periods, and setting the sampling period resets the feedback period to it.",
 ["histories","configurations"],"all setter sequences over all legal parameter values",
 "Tests configure each model once, in one order, before reading it once.",
 ["src/model/lip_model.cpp","src/model/zebulon_base_model.cpp","src/model/no_dynamic_model.cpp","src/model/humanoid_foot_model.cpp","mpc-walkgen/model/lip_model.h","mpc-walkgen/model/zebulon_base_model.h"],
 [("recompute on change","src/model/*.cpp: setNbSamples, setSamplingPeriod, setFeedbackPeriod, setComHeight, setGravity, setMass, setTotalMass"),("per-feedback tables","src/model/lip_model.cpp: compute*DynamicVec")],
 ["model getters and preview getters after each setter"])
p("C04","Support polygons are exactly the convex hull of the given points",
 "For every finite set of at least one point in the plane, including duplicates, collinear points and points on hull edges, the polygon built from it has as vertices exactly the extreme points of the set, each once and in counter-clockwise order. Its half-plane description and its axis-aligned bounds describe exactly that hull (every input point satisfies them, every point clearly outside the hull violates one).",
 ["inputs"],"all finite point sets (non-degenerate, collinear, single, duplicated, permuted, translated and scaled) whose distinct points and edge directions differ by more than the library's resolution (1e-4 in length and in angle)",
 "test-convex-polygon-function uses a handful of hand-picked sets in general position.",
 ["src/convexpolygon.cpp","mpc-walkgen/convexpolygon.h"],
 [("hull walk","src/convexpolygon.cpp: extractVertices, getIndexOfSmallestAngleVertice, getIndexOfLowestAndLeftmostVertice"),("half planes and bounds","src/convexpolygon.cpp: computeBoundsAndGeneralConstraintValues")],
 ["getVertices, getGeneralConstraintsMatrixCoefsForX/Y, getGeneralConstraintsConstantPart, get{X,Y}{Inf,Sup}Bound"])
p("C05","Foot splines meet their end states and are twice continuously differentiable",
 "For every start state, end state and positive duration, the three-piece cubic produced by the interpolator takes the requested position, velocity and acceleration at both ends and is continuous up to the second derivative at both junctions, whichever piece is selected for a given time. A spline re-planned from a point of a spline towards the same end state over the remaining time starts exactly at that point, and no state of an earlier computation leaks into a later one.",
 ["inputs","histories"],"all end states, durations, evaluation times and sequences of computations on one interpolator",
 "test-interpolation-function evaluates a few fixed splines.",
 ["src/interpolator.cpp","mpc-walkgen/interpolator.h","mpc-walkgen/tools.h"],
 [("factor computation","src/interpolator.cpp: computePolynomialNormalisedFactors"),("piece selection","src/interpolator.cpp: selectFactors"),("evaluation","mpc-walkgen/tools.h: polynomValue, dPolynomValue, ddPolynomValue")],
 ["factors and evaluated polynomial values"])
p("C06","Tracking and jerk objectives are derivatives of the squared previewed error",
 "For the mobile base and for the free trajectory, the gradient and Hessian of the position-tracking, velocity-tracking and jerk objectives at any control sequence are those of half the sum over the preview of the squared difference between the exactly simulated quantity and its reference (reference zero for jerk), for both axes. References, states or preview lengths changed between two evaluations take effect in the next evaluation.",
 ["inputs","histories","configurations"],"all preview lengths, periods, states, references and control sequences, evaluated repeatedly on one object",
 "Tests evaluate one configuration with small N at zero or unit controls and compare a few numbers.",
 ["src/function/zebulon_base_velocity_tracking_objective.cpp","src/function/zebulon_base_position_tracking_objective.cpp","src/function/zebulon_jerk_minimization_objective.cpp","src/function/trajectory_position_tracking_objective.cpp","src/function/trajectory_velocity_tracking_objective.cpp","src/function/trajectory_jerk_minimization_objective.cpp"],
 [("gradient and Hessian","src/function/*: getGradient, getHessian, computeConstantPart")],
 ["getGradient and getHessian of each objective"])
p("C07","CoP and CoM centring measure the true centre of pressure of the two-mass robot",
 "For every mass split, mass heights, gravity vector, state and control sequence, the centring objectives have the gradient and Hessian of half the squared distance between the exactly simulated two-mass centre of pressure (resp. body centre of mass), taken relative to the base, and the reference (for the centre of mass shifted by the lean that balances horizontal gravity). In particular a centre-of-pressure reference given in the world frame that equals the one a motion really produces gives zero gradient at that motion, also with horizontal gravity and when the base carries no mass.",
 ["inputs","configurations"],"all masses (including a massless base), heights, gravity vectors, states, references and controls",
 "The two tests use vertical gravity, one mass split and one or two control vectors.",
 ["src/function/zebulon_cop_centering_objective.cpp","src/function/zebulon_com_centering_objective.cpp","src/model/lip_model.cpp","src/model/zebulon_base_model.cpp"],
 [("CoP centring","src/function/zebulon_cop_centering_objective.cpp: getGradient, computeConstantPart, setCopRefInWorldFrame, setCopRefInLocalFrame"),("CoM centring","src/function/zebulon_com_centering_objective.cpp: getGradient, computeConstantPart, setComRefInLocalFrame, updateGravityShift")],
 ["getGradient and getHessian after references, masses, heights and gravity were set"])
p("C08","Tilt objectives penalise the tilt predicted by the documented tilt dynamics",
 "For every mass split, heights, contact point, tilt state, motion state and control sequence, the tilt and tilt-velocity objectives have the gradient and Hessian of half the squared previewed tilt angle (resp. tilt angular velocity) obtained by integrating the documented tilt equation step by step, each mass contributing its own inertia-weighted acceleration. Changing a mass, a height, the contact point or a state changes the next evaluation accordingly.",
 ["inputs","configurations","histories"],"all masses, heights, contact points, states, preview lengths and controls",
 "No test instantiates either tilt objective.",
 ["src/function/zebulon_tilt_minimization_objective.cpp","src/function/zebulon_tilt_velocity_minimization_objective.cpp"],
 [("tilt preview","src/function/zebulon_tilt_minimization_objective.cpp: computeConstantPart, getGradient"),("tilt velocity preview","src/function/zebulon_tilt_velocity_minimization_objective.cpp: computeConstantPart, getGradient")],
 ["getGradient and getHessian of both objectives"])
p("C09","Base and trajectory constraints admit exactly the motions within the limits",
 "A control sequence satisfies the constraint rows of the mobile base exactly when, in the exact simulation, the base-relative centre of pressure and centre of mass stay in their support polygons, base velocity and acceleration stay within their limits at every sample, and (while tilting) base and body move only along the tilt heading; the same holds for the velocity and acceleration rows of the free trajectory. Constraint gradients are the derivative of the constraint values, whatever the polygon, its vertex count or its position around the base.",
 ["inputs","configurations","histories"],"all polygons, masses, heights, gravity vectors, limits, states, headings and control sequences",
 "Tests use one symmetric octagon (for which a polygon and its mirror image coincide) and check a few rows.",
 ["src/function/zebulon_cop_constraint.cpp","src/function/zebulon_com_constraint.cpp","src/function/zebulon_base_motion_constraint.cpp","src/function/zebulon_tilt_motion_constraint.cpp","src/function/trajectory_motion_constraint.cpp"],
 [("CoP rows","src/function/zebulon_cop_constraint.cpp: getFunction, getGradient"),("CoM rows","src/function/zebulon_com_constraint.cpp"),("motion rows","src/function/zebulon_base_motion_constraint.cpp, trajectory_motion_constraint.cpp"),("tilt rows","src/function/zebulon_tilt_motion_constraint.cpp")],
 ["getFunction, getGradient, getNbConstraints"])
p("C10","Humanoid objectives are derivatives of the true CoM and CoP costs of the plan",
 "For every walking phase, plan of centres of pressure and step placements, the humanoid velocity-tracking, jerk and CoP-centring objectives have the gradient and Hessian of the sample-weighted half squared cost of the CoM motion whose centre of pressure follows the plan (velocity minus reference; jerk; CoP distance to the supporting foot point). The result does not depend on what was evaluated before on the same objects.",
 ["inputs","histories","configurations"],"all phases of the walk, preview lengths, sampling and feedback periods, states, references, and plans",
 "The tests evaluate the objectives standing at the initial instant, with the plan equal to zero or one.",
 ["src/function/humanoid_lip_com_velocity_tracking_objective.cpp","src/function/humanoid_lip_com_jerk_minimization_objective.cpp","src/function/humanoid_cop_centering_objective.cpp","src/humanoid_feet_supervisor.cpp"],
 [("velocity tracking","src/function/humanoid_lip_com_velocity_tracking_objective.cpp"),("jerk","src/function/humanoid_lip_com_jerk_minimization_objective.cpp"),("CoP centring","src/function/humanoid_cop_centering_objective.cpp"),("sample weights","src/humanoid_feet_supervisor.cpp: updateTimeline")],
 ["getGradient and getHessian of the three objectives along a walk"])
p("C11","Humanoid constraints keep CoPs in support polygons and steps reachable",
 "A plan satisfies the humanoid constraint rows and bounds exactly when every planned centre of pressure lies in the support polygon of its sample (one foot's polygon in single support, the hull of both feet's polygons in double support) and the first planned step lies in the kinematic polygon of the then supporting foot. Each foot's own polygon is used with that foot, for any polygons, in every phase, also after polygons are replaced between two evaluations.",
 ["inputs","configurations","histories"],"all phases, polygons (left different from right), plans, preview lengths and polygon replacements",
 "Tests look at the initial instant only, with axis-aligned boxes that are equal for both feet.",
 ["src/function/humanoid_cop_constraint.cpp","src/function/humanoid_foot_constraint.cpp","src/humanoid_feet_supervisor.cpp","src/model/humanoid_foot_model.cpp"],
 [("CoP rows and bounds","src/function/humanoid_cop_constraint.cpp"),("step rows and bounds","src/function/humanoid_foot_constraint.cpp"),("polygon choice","src/humanoid_feet_supervisor.cpp: get*ConvexPolygon")],
 ["getFunction, getGradient, getSupBounds, getInfBounds, getNbConstraints"])
p("C12","The walk alternates supports on schedule and previews exactly that schedule",
 "Standing lasts until a move is requested; then single supports of one step period alternate strictly between left and right, starting on the left foot, until stopping is requested, after which the running step ends and a double support follows; the current phase never lasts longer than its configured duration. At every instant the preview assigns each sample to the phase that will be in force at its time if the move request does not change, and previews as many steps as there are future landings among the samples.",
 ["histories","configurations","inputs"],"all histories of move/stop requests and timeline updates, step periods, double-support lengths, preview lengths and feedback periods",
 "test-humanoid-feet-supervisor only constructs the object.",
 ["src/humanoid_feet_supervisor.cpp","mpc-walkgen/humanoid_feet_supervisor.h"],
 [("phase queue","src/humanoid_feet_supervisor.cpp: updateTimeline, init"),("selection matrices","src/humanoid_feet_supervisor.cpp: computeFullSelectionMatrix, computeSelectionMatrices")],
 ["phase getters, sample-to-step matrices and previewed step count after every update"],
 [("phase queue","previewed phases with duration"),("V, V0","assignment of samples to steps")])
p("C13","Supporting feet never move and swinging feet land still where planned",
 "During a walk a foot in support and both feet in double support keep their pose exactly; a swinging foot moves continuously, ends its step on the ground at the last planned landing place with zero velocity and acceleration, and in a flight made at one step period and one feedback period never rises above the configured maximum height or sinks below the ground. Positions requested for a foot outside a walk are kept.",
 ["histories","inputs","configurations"],"all walks: step sequences, periods, heights, planned landings that change while the foot is in the air",
 "No test advances a foot.",
 ["src/humanoid_feet_supervisor.cpp","src/model/humanoid_foot_model.cpp","src/interpolator.cpp"],
 [("swing update","src/humanoid_feet_supervisor.cpp: updateFeetStates"),("foot trajectory","src/model/humanoid_foot_model.cpp: updateStateX/Y/Z/Yaw, interpolateTrajectory")],
 ["foot states after every update"])
p("C14","The trajectory generator returns the optimum within limits at every cycle",
 "At every successful cycle of the trajectory generator the applied jerk is the first element of the unique minimiser of the weighted sum of its configured costs subject to the configured velocity, acceleration and jerk limits over the preview, computed from the current state. The state then advances exactly by that jerk over the given feedback period, so the first previewed sample respects the limits.",
 ["histories","inputs","configurations"],"all closed-loop runs with changing references, limits, weights and states",
 "The generator is exercised by no passing test: its only driver needs a solver library that is absent.",
 ["src/trajectory_walkgen.cpp","mpc-walkgen/trajectory_walkgen.h"],
 [("QP assembly","src/trajectory_walkgen.cpp: solve, computeConstantPart"),("state update","src/trajectory_walkgen.cpp: solve")],
 ["return value, getJerk, getState per cycle; the quadratic program handed to the solver"])
p("C15","The mobile-base generator returns the optimum within limits at every cycle",
 "At every successful cycle of the mobile-base generator the applied body and base jerks are the first elements of the unique minimiser of the weighted sum of its configured costs subject to the jerk limits, base motion limits, centre-of-pressure and centre-of-mass support and (when enabled) tilt heading, computed from the current state. The four planar states then advance exactly by those jerks over the given feedback period.",
 ["histories","inputs","configurations"],"all closed-loop runs with changing references, limits, polygons, masses, weights and states",
 "The generator is exercised by no passing test: its only driver needs a solver library that is absent.",
 ["src/zebulon_walkgen.cpp","mpc-walkgen/zebulon_walkgen.h"],
 [("QP assembly","src/zebulon_walkgen.cpp: solve, computeConstantPart"),("state update","src/zebulon_walkgen.cpp: solve")],
 ["return value and state getters per cycle; the quadratic program handed to the solver"])
p("C16","The humanoid generator walks: optimal, balanced and reachable at every cycle",
 "Along every walk, at every successful cycle of the humanoid generator the applied CoM jerk is the one produced by the minimiser of the weighted costs under the support and reachability constraints of that instant, and the CoM state then advances exactly by it over the feedback period. The centre of pressure of the first previewed sample lies in the current support polygon and every landing lies in the kinematic polygon of the foot that supported the step.",
 ["histories","inputs","configurations"],"all walks: start/stop histories, velocity references, periods, polygons, weights",
 "The generator is exercised by no passing test: its only driver needs a solver library that is absent.",
 ["src/humanoid_walkgen.cpp","mpc-walkgen/humanoid_walkgen.h","src/humanoid_feet_supervisor.cpp"],
 [("QP assembly","src/humanoid_walkgen.cpp: solve, computeConstantPart"),("state update","src/humanoid_walkgen.cpp: solve")],
 ["return value, CoM and feet states per cycle; the quadratic program handed to the solver"])
p("C17","Generators depend only on their final configuration, not on how it was reached",
 "Two generators of the same kind given the same final configuration, references and states behave identically in all following cycles, whatever the order of the setters, however often values were overwritten, and including configuration made after the generator has already been running. Every configured value (masses, heights, limits, periods, polygons, weights, references, gravity) takes effect in the next cycle.",
 ["histories","configurations"],"all configuration orders, overwrites and mid-run reconfigurations of the three generators",
 "Tests configure once, in one order, and never run a generator.",
 ["src/zebulon_walkgen.cpp","src/trajectory_walkgen.cpp","src/humanoid_walkgen.cpp"],
 [("setters","src/*_walkgen.cpp: set*"),("cached matrices","src/*_walkgen.cpp: computeConstantPart")],
 ["states and return values of two differently configured generators"])
p("C18","Quadratic programs reach the solver and their solutions come back unchanged",
 "For every quadratic program with consistent dimensions the solver layer hands exactly those matrices, gradient and bounds (in row order, in the program's precision) to the underlying solver and returns exactly its primal solution; a warm start is used only when requested and after an initial solve, and then passes the new gradient and bounds. Normalising a program never changes its minimiser or feasible set, and never scales an entry above the threshold down.",
 ["inputs","histories","configurations"],"all program sizes, non-symmetric constraint matrices, infinite bounds, cold/warm sequences, both precisions",
 "test-qpoases-solver is not buildable here; it uses one 2x2 program.",
 ["qpsolver/src/qpsolver_qpoases.hxx","qpsolver/mpc-walkgen/qpsolver.h","src/qpsolverfactory.cpp","qpsolver/src/qpsolver_qpoases_double.cpp","qpsolver/src/qpsolver_qpoases_float.cpp"],
 [("solver adaptor","qpsolver/src/qpsolver_qpoases.hxx: QPOasesSolver::solve"),("normalisation","qpsolver/mpc-walkgen/qpsolver.h: normalizeMatrices, getNormalizationFactor"),("factory","src/qpsolverfactory.cpp")],
 ["calls received by the solver stand-in; solution vector and return value"])
p("C19","A solver failure is always reported and never poisons later cycles",
 "Whenever the underlying solver does not succeed, the solve call of the solver layer and of each generator returns false, with or without a debug stream; when it succeeds they return true. After failures at any cycles a generator stays usable, its state is the one obtained by exactly integrating the jerk it read back, and once the solver succeeds again the results are those a generator without the failure history would give from the same state.",
 ["fault_sequences","histories"],"all placements of solver failures (infeasible program, iteration limit) in runs of the three generators and the solver layer",
 "No test ever makes the solver fail or runs a generator.",
 ["qpsolver/src/qpsolver_qpoases.hxx","src/trajectory_walkgen.cpp","src/zebulon_walkgen.cpp","src/humanoid_walkgen.cpp"],
 [("failure reporting","qpsolver/src/qpsolver_qpoases.hxx: QPOasesSolver::solve"),("propagation","src/*_walkgen.cpp: solve")],
 ["return values and states under injected solver failures"])
p("C20","Generators respect the symmetries of the plane",
 "Shifting the start position and every world-frame reference of a generator by the same vector shifts its whole motion by that vector; for the mobile base (not tilting) and the free trajectory, exchanging the two axes or reversing one or both in states, references, gravity and polygons exchanges or reverses the resulting motion. For the humanoid walk, reversing either horizontal axis in body and feet states, velocity references and polygons reverses the whole walk along that axis.",
 ["inputs","histories"],"all configurations and runs, all planar shifts, axis exchanges and reversals",
 "Tests never compare two runs.",
 ["src/zebulon_walkgen.cpp","src/trajectory_walkgen.cpp","src/humanoid_walkgen.cpp","src/function/"],
 [("axis-wise assembly","src/function/*.cpp"),("frames","src/zebulon_walkgen.cpp, src/humanoid_walkgen.cpp")],
 ["state trajectories of paired runs"])
p("C21","Single precision tracks double precision",
 "Every component built in single precision gives, for the same well-scaled inputs, the results of its double-precision counterpart up to single-precision rounding, through whole closed-loop runs of the three generators.",
 ["inputs","histories","configurations"],"all well-scaled inputs and runs, both precisions",
 "The typed tests use tolerances on single numbers; no run is compared across precisions.",
 ["src/tools.cpp","src/convexpolygon.cpp","src/function/","src/model/","src/zebulon_walkgen.cpp","src/trajectory_walkgen.cpp","src/humanoid_walkgen.cpp"],
 [("two instantiations","src/macro.h"),("precision-dependent tolerances","mpc-walkgen/constant.h, src/convexpolygon.cpp")],
 ["paired float/double outputs"])
p("C22","No legal use causes memory errors or undefined behaviour",
 "No sequence of legal calls on any public class, including resizing the preview in the middle of a run, extreme but legal parameter values and repeated construction and destruction, causes an out-of-bounds or use-after-free access, a leak, a read of uninitialised memory, an internal assertion failure or other undefined behaviour.",
 ["histories","inputs","configurations"],"all legal call sequences on all public classes, both precisions",
 "The tests run uninstrumented on a few fixed sequences and never run a generator.",
 ["src/","qpsolver/","mpc-walkgen/"],
 [("buffers sized by configuration","src/*_walkgen.cpp: computeConstantPart; src/function/*.cpp; src/humanoid_feet_supervisor.cpp")],
 ["sanitizer, valgrind and assertion reports"])
p("C23","Separate instances share nothing",
 "Using separate objects of any public class concurrently from several threads, or interleaved in one thread in any order, gives each object exactly the results it would have alone, without data races. Const access to one configured model or polygon from several threads is race-free.",
 ["schedules","histories"],"all thread schedules and interleavings of calls on distinct instances",
 "No test uses two instances at once or a second thread.",
 ["src/","mpc-walkgen/constant.h","src/interpolator.cpp"],
 [("instance state","members of all classes"),("shared constants","mpc-walkgen/constant.h")],
 ["ThreadSanitizer reports; per-instance result streams compared with a serial run"])
p("C24","Results are reproducible and independent of memory content and build mode",
 "The same call sequence gives bit-identical results every time it is executed, whatever memory previously contained and whatever ran before in the process. Disabling internal assertions (release build) changes no result.",
 ["histories","inputs","configurations"],"all call sequences, prior memory contents, and both build modes",
 "Tests run once, in one build mode, on fresh zero pages.",
 ["src/","mpc-walkgen/"],
 [("initialisation of members","constructors in src/"),("assertions","assert() in src/")],
 ["result digests of repeated runs in dirtied memory and of assertion-free builds"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P:
    s2=dict(s); jsonschema.validate(q,s2)
    assert len(q['title'])<=80,q['id']
print(len(P))
