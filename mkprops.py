#!/usr/bin/env python3
# generates properties.jsonl (kept so that the text has one editable source)
import json
PL=["src/dubins_state_space/dubins_state_space.cpp","src/reeds_shepp_state_space/reeds_shepp_state_space.cpp"]
HC=["src/hc_cc_state_space/"+f+".cpp" for f in ("cc00_dubins_state_space","cc0pm_dubins_state_space","ccpm0_dubins_state_space","ccpmpm_dubins_state_space","cc_dubins_state_space","cc00_reeds_shepp_state_space","hc00_reeds_shepp_state_space","hc0pm_reeds_shepp_state_space","hcpm0_reeds_shepp_state_space","hcpmpm_reeds_shepp_state_space","hc_reeds_shepp_state_space")]
BASE=["src/hc_cc_state_space/hc_cc_state_space.cpp","src/hc_cc_state_space/paths.cpp","src/hc_cc_state_space/hc_cc_circle.cpp"]
CFG="every steering function (Dubins, the five CC-Dubins variants, Reeds-Shepp, CC00-Reeds-Shepp, the five HC-Reeds-Shepp variants; forwards and backwards where selectable), every max. curvature, max. sharpness and discretization"
def P(id,title,st,over,text,why,files,mech,obs,state=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None,**({"state":state} if state else {})))
ps=[
P("C01","Every computed path starts at the start pose and ends at the goal pose",
 "For every steering function and every pair of finite start and goal states, integrating the returned controls exactly from the start pose ends at the goal position and heading (modulo 2*pi), within the library's resolution of about 1e-4. The sampled path, the path with covariances and the interpolation at t=0 and t=1 start at exactly the start pose and end at that same goal pose.",
 ["inputs","configurations"],CFG+", and every pair of start and goal states: generic, aligned, parallel, coincident, near-coincident, far away, with any heading representation and any admissible curvature",
 "reachingGoal samples 1e5 uniformly random pairs with one configuration (kappa=1, sigma=1), so it never meets the degenerate pairs (measure zero), other curvature/sharpness ratios or headings outside [-pi,pi]; the repaired defects were all of this kind.",
 PL+HC+BASE,[("word/family selection and intermediate configurations","dubins(), reeds_shepp(), *_tangent_circles/_path of the CC/HC families"),("control generation","get_controls() of each state space; *_turn_controls in paths.cpp")],
 ["get_controls","get_path","get_path_with_covariance","interpolate"]),
P("C02","The curvature never exceeds the max. curvature",
 "For every steering function and every pair of states, the absolute curvature at every point of the returned path - at the beginning and at the end of every segment, in every sampled state and in every interpolated state - is at most the configured max. curvature.",
 ["inputs","configurations"],CFG+", and every pair of states whose curvature is admissible",
 "No planner test looks at the curvature bound; hc_cc_circle_test does so for isolated turns of one configuration.",
 PL+HC+BASE,[("turns built from +-kappa arcs and clothoids that end at kappa","paths.cpp, hc_cc_circle.cpp"),("prediction to 0 or +-kappa_max","predict_state in cc_dubins/hc_reeds_shepp")],["get_controls","get_path","interpolate"]),
P("C03","CC/HC paths: continuous curvature (HC: between cusps), bounded sharpness",
 "Along every path of a CC steering function the curvature is continuous, and along every path of an HC steering function it jumps only where the driving direction changes; its rate of change never exceeds the configured max. sharpness, and the sharpness of every segment joins the curvature given at the beginning of that segment to that of the next one. Dubins and Reeds-Shepp paths only consist of segments with sharpness zero.",
 ["inputs","configurations"],CFG+", and every pair of states",
 "curvatureContinuity compares consecutive sampled states of random paths in one configuration; the sharpness bound is tested only for isolated turns.",
 HC+BASE,[("clothoid-arc-clothoid turns","paths.cpp: hc_turn_controls, cc_turn_controls"),("elementary paths","hc_cc_circle.cpp: cc_elementary_sharpness")],["get_controls","get_path"]),
P("C04","Start and goal curvature follow the steering function's superscripts",
 "A path starts (ends) with curvature zero where the steering function's superscript is 0, with plus or minus the max. curvature where it is +-, having the sign of the curvature the user gave at that state if that is non-zero, and with exactly the user's curvature for CC-Dubins and HC-Reeds-Shepp. This holds in the controls, the sampled path and the interpolated states, for all start and goal poses that do not coincide.",
 ["inputs","configurations"],"all CC and HC steering functions, every max. curvature/sharpness, every sign and magnitude of the start and goal curvature, every pair of poses",
 "No test looks at the start or goal curvature of any path.",
 HC,[("selection of start/goal circles by sign of kappa","*_dubins()/ *_reeds_shepp() of the pm variants"),("prediction of the state","predict_state in cc_dubins/hc_reeds_shepp")],["get_controls","get_path","interpolate"]),
P("C05","Forward-only and backward-only functions keep their driving direction",
 "Every segment of a path of the Dubins and CC-Dubins functions is driven in the selected direction (forwards or backwards). In all functions the direction d of each sampled or interpolated state is the direction in which the car actually moves there, and a signed segment length moves the car along (+) or against (-) its heading.",
 ["inputs","configurations"],CFG+", and every pair of states",
 "No test looks at signs of segment lengths or at the d component.",
 PL+HC+BASE,[("forwards_ flag","constructors, get_controls"),("state.d","integrate, integrate_ODE, interpolate")],["get_controls","get_path","get_path_with_covariance","interpolate"]),
P("C06","The distance is the length of the returned path and respects lower bounds",
 "get_distance equals the sum of the absolute segment lengths of get_controls and the arc length of get_path for the same states. It is finite, non-negative, at least the Euclidean distance and at least the heading difference (modulo 2*pi) divided by the max. curvature, and zero for identical states in every heading representation.",
 ["inputs","configurations"],CFG+", and every pair of states",
 "pathLength samples random pairs in one configuration and compares with get_path only; lower bounds, identical states and other heading representations are not tested.",
 PL+HC+["src/hc_cc_state_space/configuration.cpp","src/hc_cc_state_space/paths.cpp"],[("lengths of turns","hc_cc_circle.cpp: *_turn_length"),("path length of the chosen family","*_path objects")],["get_distance","get_controls","get_path"]),
P("C07","Dubins paths are length-optimal",
 "For every pair of states and both driving directions, the Dubins function returns a feasible path of at most three segments that is no longer than any arc-line-arc or arc-arc-arc path with the same max. turning radius between these states, including the degenerate ones with vanishing segments.",
 ["inputs","configurations"],"every max. curvature, both driving directions, every pair of states incl. pairs connected by words with vanishing or full-angle segments",
 "Optimality is not tested at all: the tests compare the function with itself.",
 PL[:1],[("six words","dubinsLSL ... dubinsLRL"),("minimum over the words","dubins()")],["get_distance","get_controls"]),
P("C08","Reeds-Shepp paths are length-optimal",
 "For every pair of states, the Reeds-Shepp function returns a feasible path that is no longer than any path of the 48 Reeds-Shepp words between these states, including degenerate ones with vanishing segments, and in particular no longer than the Dubins paths in both directions.",
 ["inputs","configurations"],"every max. curvature and every pair of states, incl. pairs connected by degenerate words",
 "Optimality is not tested at all: the tests compare the function with itself.",
 PL[1:],[("words 8.1-8.11 with timeflip/reflect","CSC, CCC, CCCC, CCSC, CCSCC"),("minimum","reeds_shepp()")],["get_distance","get_controls"]),
P("C09","CC and HC functions return the shortest member of their path families",
 "For every pair of states in general position, a CC or HC function returns a path no longer than any feasible path of its families, so a free start or goal curvature sign costs no more than either sign, and CC-Dubins and HC-Reeds-Shepp cost exactly the minimum over reaching zero or max. curvature at the start and goal and connecting with the specialised function. It is never shorter than the optimal Dubins or Reeds-Shepp path with the same max. curvature.",
 ["inputs","configurations"],"all CC and HC steering functions, every max. curvature/sharpness, every start/goal curvature, every pair of poses",
 "A family that is skipped, wrongly rejected or wrongly ranked still yields a valid path to the goal with consistent length, so all existing tests pass.",
 HC,[("existence conditions and candidate lengths of each family","*_exists / *_path methods"),("minimum over families","array_index_min in *_circles_*_path"),("minimum over circles","cc_dubins/hc_reeds_shepp path selection")],["get_distance","get_controls"]),
P("C10","Path lengths respect the symmetries of the plane and of time",
 "The distance is invariant under moving and rotating both states together, under adding multiples of 2*pi to either heading, under mirroring both states, and under swapping start and goal for the functions that may reverse; driving the same problem backwards from goal to start relates the forwards function to the backwards one and the 0+- variants to the +-0 variants. Scaling lengths and the curvature/sharpness limits together scales the distance.",
 ["inputs","configurations"],CFG+", every pair of states, every transformation",
 "Only swapping of start and goal is tested, for random states of one configuration; mirror, rotation, translation, heading representation and direction reversal are not.",
 PL+HC,[("treatment of left/right and forward/backward circles","all family methods"),("normalisation of headings","utilities.cpp: twopify, pify")],["get_distance"]),
P("C11","Sampled paths are the exact integral of the controls at the given resolution",
 "For every sequence of controls, the sampled path begins at the given state with the curvature and direction of the first control, each state lies where driving the controls exactly (line, arc or clothoid) for the corresponding arc length leads, with the matching heading, curvature and direction, the last one after the full length. Consecutive states are one discretization step apart except for the remainder at the end of each segment and a repeated state where the curvature jumps; controls and distance do not depend on the discretization.",
 ["inputs","configurations"],"every state space class, every start state, every non-empty control sequence, every discretization (smaller and larger than the segments)",
 "Tests integrate only planner-made controls at discretization 0.1 and look only at the end point and the summed length.",
 PL+BASE+["src/utilities/utilities.cpp"],[("integrate loop with remainder step","integrate()"),("closed-form segment motion","integrate_ODE, end_of_clothoid/circular_arc/straight_line")],["integrate","get_path"]),
P("C12","Interpolation returns the state at the given fraction of the path",
 "For every control sequence and every t, interpolate returns the state reached after driving the fraction t of the total length exactly, with the heading, curvature and direction of the path at that point; t below 0 gives the start and above 1 the end, and all components are well defined. It agrees with the sampled path at the corresponding arc length.",
 ["inputs","configurations"],"every state space class, every start state, every control sequence, every t (0, 1, segment boundaries, outside [0,1])",
 "The interpolation test only looks at random t of random paths in one configuration and only at positions/headings.",
 PL+BASE,[("arc-length search","interpolate()")],["interpolate"]),
P("C13","Paths with covariance: nominal path as mean, valid and consistent covariances",
 "The states of a path with covariance are the states of the nominal path for the same query. The covariances start with the given ones and evolve by prediction with the linearised motion of each step and update with the measurement model of the configured noise and controller parameters; Sigma, Lambda and their sum (the reported covariance) stay symmetric and positive semi-definite.",
 ["inputs","configurations"],CFG+", every initial belief, every motion noise, measurement noise (positive) and controller gains, every pair of states or control sequence",
 "No test runs a path with covariance and checks covariances; only the Jacobians are tested.",
 PL+["src/hc_cc_state_space/hc_cc_state_space.cpp","src/filter/ekf.cpp"],[("belief propagation per integration step","integrate_with_covariance"),("EKF predict/update","ekf.cpp")],["get_path_with_covariance","integrate_with_covariance","set_filter_parameters"]),
P("C14","The filter implements the documented motion, measurement and control models",
 "The filter's Jacobians are the derivatives of the exact segment motion with respect to pose, signed arc length and curvature, for clothoids, arcs and lines in both driving directions. The noise covariances, gain and rotation follow the documented formulas, prediction and update are those of the belief-tree filter, and an update leaves Sigma+Lambda unchanged and never increases Sigma.",
 ["inputs","configurations"],"every state, control, step length, noise and controller parameter set, every positive semi-definite belief",
 "The Jacobian tests sample steps below 0.2 m with kappa and sigma below 1; covariances, gain, prediction and update are untested.",
 ["src/filter/ekf.cpp","include/steering_functions/filter/ekf.hpp"],[("closed-form Jacobians","get_motion_jacobi"),("Joseph-form update","update")],["EKF"]),
P("C15","Geometric primitives agree with their mathematical definition",
 "Fresnel integrals, end points of clothoids, arcs and lines, frame changes, polar coordinates, angle normalisation, minimum search, reversal and subtraction of controls, and the equality and alignment predicates of configurations and states return what their definitions say, for every finite argument, both driving directions and all angle representations.",
 ["inputs"],"every finite argument of the public helper functions",
 "fresnel_test compares a fixed table; the other helpers are untested.",
 ["src/utilities/utilities.cpp","include/steering_functions/utilities/fresnel.data","src/hc_cc_state_space/configuration.cpp","src/hc_cc_state_space/paths.cpp"],[("Chebyshev series","fresnel_0_8, fresnel_8_inf"),("closed forms","end_of_*")],["fresnel","end_of_clothoid","end_of_circular_arc","end_of_straight_line","twopify","pify","reverse_control","subtract_control"]),
P("C16","No memory error, undefined behaviour, uninitialised read or leak",
 "No call of the public interface with finite states, positive limits and non-empty controls reads or writes outside live objects, executes undefined behaviour, lets an uninitialised value reach a result or a branch, or leaks memory. It neither crashes nor hangs.",
 ["inputs","configurations","histories"],CFG+", every state pair, sequence of calls and object lifetime",
 "The test suite runs without any sanitizer in release mode; out-of-bounds reads, uninitialised members and leaks of candidate paths go unnoticed.",
 PL+HC+BASE+["src/filter/ekf.cpp"],[("manual new/delete of candidate configurations and circles","*_path destructors, *_circles_*_path"),("fixed-size candidate arrays indexed by family","nb_cc_dubins_paths, nb_hc_cc_rs_paths")],["all public calls under ASan+UBSan+LSan and MSan"]),
P("C17","Queries are pure: repeatable, independent of history and thread-safe",
 "A query of a steering function depends only on its arguments and the object's construction and filter parameters: repeating it, interleaving it with other queries or other objects, or running it concurrently with const queries on the same or other objects gives bit-identical results, without data races and without changing its arguments. Filter parameters influence covariances only and only of the object they are set on.",
 ["schedules","histories","inputs"],"every sequence and every interleaving of const queries on shared and separate steering function objects",
 "Tests are single-threaded and never repeat a query; hidden shared state (static or per-object scratch) is invisible to them.",
 PL+HC+BASE,[("const query methods without shared mutable state","all state spaces"),("per-call helper objects","CC/HC implementation classes")],["all const queries under ThreadSanitizer"]),
P("C18","Turns built on HC/CC circles connect their configurations with the stated length",
 "For every circle (left/right, forwards/backwards, regular/irregular) and every configuration on it, the controls of an rs-, hc- or cc-turn lead exactly from the circle's start to that configuration (or back, in reverse order), respect the circle's curvature, and have the length the circle reports. A cc-turn is no longer than clothoid-arc-clothoid and than the pair of clothoids that makes the same turn (elementary path). The circle's centre, radius and tangent angle are those of a clothoid of max. sharpness ending at max. curvature.",
 ["inputs","configurations"],"every start configuration, turn kind, orientation, end configuration on the circle and curvature/sharpness pair",
 "hc_cc_circle_test samples random regular/irregular circles of one configuration and checks end points with 1e-2..1e-4 tolerance.",
 ["src/hc_cc_state_space/hc_cc_circle.cpp","src/hc_cc_state_space/paths.cpp","src/hc_cc_state_space/hc_cc_state_space.cpp"],[("circular deflection","rs/hc/cc_circular_deflection"),("turn controls","rs/hc/cc_turn_controls"),("elementary path","cc_elementary_sharpness")],["HC_CC_Circle","*_turn_controls","*_turn_length"]),
P("C19","Path objects and predicted states describe the motion that is returned",
 "The path object of each specialised CC/HC planner carries the planner's limits, starts and ends at the queried poses with the curvatures of its superscripts, has the length the planner reports as distance, and its intermediate configurations lie on the returned controls' path in driving order; print displays its type, length and configurations. Each predicted state of CC-Dubins and HC-Reeds-Shepp is reached exactly by its control from the queried state, at max. sharpness and in the selected direction, ends at zero or max. curvature, and both are offered in every allowed direction.",
 ["inputs","configurations"],CFG+", every state pair",
 "No test looks at path objects or predicted states; a wrong intermediate configuration or prediction only shows for the few path types a random query selects.",
 ["src/hc_cc_state_space/paths.cpp"]+HC,[("path objects","CC_Dubins_Path, HC_CC_RS_Path"),("predicted states","predict_state")],["cc00_dubins .. hcpmpm_reeds_shepp","predict_state"]),
P("C20","The visualization node publishes exactly the paths of its queries",
 "In every round of the visualization node, and for every subscriber latency, each of the 13 steering functions is shown exactly once for one common sampled start and goal inside the operating region: no message is published before its subscriber is connected, all share one frame, and they carry start, goal and name, the path that exactly that steering function returns with the configured limits and filter parameters, the 3-sigma ellipsoid of the covariance of every tenth state, and at every state the footprint and both front wheels, steered about the same centre of rotation (Ackermann) for the state's curvature.",
 ["inputs","configurations","schedules"],"every parameter set, start time, random seed, number of rounds and connection order/latency of the subscribers",
 "The node is not built or run by any test; its queries are random and its messages are only looked at by eye.",
 ["src/steering_functions_node.cpp"],[("queries","main"),("paths, covariances","PathClass::visualize, covariance_to_marker"),("swath","RobotClass::visualize")],["visualization topics of the node"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in ps: f.write(json.dumps(p)+"\n")
for p in ps: assert len(p["title"])<=80,(p["id"],len(p["title"]))
