#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that titles and statements stay in one reviewable place)."""
import json, os
DP = "DeterministicParticleFlowControl/DeterministicParticleFlowControl.py"
SE = "DeterministicParticleFlowControl/score_estimators/score_function_estimators.py"
S2 = "DeterministicParticleFlowControl/score_estimators/score.py"
ST = "DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py"
RB = "DeterministicParticleFlowControl/kernels/RBF_pytorch.py"
OT = "DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py"
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(obs), "hook_needed": None}})
NOTEST = "The stable tests only compare squared distances and the kernel built from them on one random draw; "

prop("C01", "NumPy score estimates at the samples equal the sparse kernel estimate",
 "At the samples, every NumPy score estimator returns -K (C I + (K_S + 0.001 I)^-1 K^T K + 0.001 I)^-1 (K_S + 0.001 I)^-1 s, where K and K_S are the Gaussian kernel exp(-sum_d (x_d - y_d)^2 / (2 l_d^2)) between samples and inducing points and among the inducing points, and s sums over the samples the derivative of that kernel with respect to the sample along the requested dimension. This holds for any number of samples, inducing points and dimensions, any weighting constant C, and a lengthscale given as one number or as a list, tuple or array with one entry per dimension. The per-dimension estimators return component d when dimension d (counted from 1) is requested, the all-dimensions estimator returns every component as one column each. Unless given, C is 0.001, the lengthscale 1 and the requested dimension the first.",
 ["inputs", "configurations"], "all sample clouds (N x dim), inducing sets (M x dim), lengthscales (scalar or vector), C, requested dimension, and all four estimators",
 NOTEST + "no estimator is compared with the formula, for any size, dimension, C or lengthscale kind.",
 [SE, S2], [("score_function_multid_seperate", SE), ("score_function_multid_seperate_all_dims", SE), ("score_function_multid_seperate_old", SE), ("score_function_multid_seperate2", S2)],
 obs=["return value of the estimators with func_out=False"])

prop("C02", "Functional score estimates evaluate the same formula at every query",
 "Asked for a function instead of values, every NumPy score estimator returns a function that evaluates the sparse kernel score estimate of the given samples at each query point, for any number of query points and any dimension, with a scalar or a per-dimension lengthscale. Each row of its result depends only on its own query point, and evaluating it at the samples gives the values the estimator returns directly. The function can be called any number of times, on any queries, with the same answers.",
 ["inputs", "configurations", "histories"], "all sample clouds, inducing sets, lengthscales, C, and all query batches and call sequences",
 NOTEST + "the functional output is not called by any stable test.",
 [SE, S2], [("K_sz / res1 closures", SE), ("K_sz / res1 closures", S2)], obs=["return value of the closures"])

prop("C03", "The PyTorch score estimator computes the same estimate as the NumPy ones",
 "For the same samples, inducing points, lengthscale and weighting constant, the PyTorch score estimator returns the same sparse kernel score estimate as the NumPy all-dimensions estimator, at the samples and in functional form at any queries. Arrays and tensors are interchangeable for samples, inducing points and queries; the lengthscale may be a number, a list, a tuple, an array or a tensor, and the given weighting constant is used (0.001 if none is given, lengthscale 1 likewise).",
 ["inputs", "configurations"], "all sample clouds, inducing sets, queries, lengthscale kinds, C, array or tensor inputs",
 "The only test of the PyTorch estimator fails for unrelated reasons and samples a handful of inputs with the default constant.",
 [ST, RB], [("torched_score_function_multid_seperate_all_dims", ST), ("RBF.Kernel", RB), ("RBF.gradient_X", RB)], obs=["return value"])

prop("C04", "The PyTorch RBF kernel and its gradient are exact for every input",
 "The kernel object returns, for any two point sets, the matrix of signal_variance * exp(-sum_d (x_d - y_d)^2 / (2 l_d^2)), where a missing second set means the first one and the lengthscale is one number or one per dimension. Its gradient is the exact derivative of that matrix with respect to the first point set, per pair and dimension. Both depend only on the arguments of the call, never on earlier calls, and accept arrays and tensors. Lengthscale and signal variance are 1 unless given.",
 ["inputs", "histories", "configurations"], "all point sets, lengthscales, signal variances, second argument given or not, any earlier calls on the object",
 "test_pytorch_kernel is not run by the suite and samples the default variance only.",
 [RB], [("RBF.Kernel", RB), ("RBF.gradient_X", RB)], state=[("K_data", "last kernel matrix computed", RB)], obs=["return values"])

prop("C05", "The pairwise distance routine fills every entry with the requested distance",
 "After a call, every entry (i, j) of the output array is the requested distance between row i of the first and row j of the second point set: Euclidean, squared Euclidean or L1 (sum of absolute differences), with Euclidean the default. This holds for any numbers of rows and columns, whatever the output array held before, and the two point sets are left unchanged.",
 ["inputs", "configurations", "schedules"], "all point sets, metrics, initial contents of the output array, and thread schedules of the parallel loops",
 "The stable test checks the squared Euclidean metric on two 100 x 2 inputs with a zeroed output.",
 [SE], [("my_cdist", SE)], obs=["output array"])

prop("C06", "The reweighting map transports the weights onto equal weights at least cost",
 "For any samples and any normalised nonnegative weights, the transport map is a nonnegative matrix whose columns each sum to one and whose row i sums to the number of samples times weight i. Multiplying the cloud (dim x N) by it therefore gives an equally weighted cloud with the mean of the weighted one. Among all such maps it minimises the expected Euclidean distance that particles move.",
 ["inputs"], "all sample clouds and weight vectors",
 "No stable test calls the reweighting routine.",
 [OT], [("reweight_optimal_transport_multidim", OT)], obs=["return value"])

prop("C07", "Each reweighted forward step applies the path-cost weights by transport",
 "With a path constraint U, every forward slice after the first is the propagated slice multiplied by the optimal transport map for weights proportional to exp(U(particle, t) dt), where U is evaluated at the propagated particles and at the time of the slice being produced. Hence the slice's plain mean equals the weighted mean of the propagated particles and it never leaves their convex hull. Without a path constraint no slice is reweighted; this holds for both implementations and both the deterministic and the stochastic mode.",
 ["inputs", "histories", "configurations"], "all drifts, path constraints, noise histories, time steps, dimensions, both classes and both modes",
 "No stable test builds a flow object.",
 [DP, OT], [("DPFC.forward_sampling_Otto", DP), ("DPFC.forward_sampling", DP), ("torched_DPFC.forward_sampling_Otto", DP), ("torched_DPFC.forward_sampling", DP)], state=[("Z", "forward flow", DP), ("W", "weights", DP)], obs=["Z"])

prop("C08", "Flow end points are pinned exactly",
 "After construction every particle of the forward flow is at the start point at the first time, and every particle of the backward flow is at the target at the last time and at the start point at the first time, in every coordinate. In Brownian-bridge mode the true-drift forward flow also starts at the start point. This holds for both implementations, with and without reweighting, deterministic or stochastic, in any dimension.",
 ["inputs", "configurations", "histories"], "all end points, dimensions, particle numbers, modes and noise histories",
 "No stable test builds a flow object.",
 [DP], [("forward_sampling*", DP), ("backward_simulation", DP)], state=[("Z", "forward flow", DP), ("B", "backward flow", DP), ("Ztr", "true-drift forward flow", DP)], obs=["Z", "B", "Ztr"])

prop("C09", "NumPy deterministic forward flow obeys the probability-flow equation",
 "In deterministic mode the NumPy forward flow takes one Euler-Maruyama step (drift at the previous time, noise g sqrt(dt) times a standard normal per coordinate and particle) from the start point and from then on each particle moves by dt (f(x, t - dt) - g^2/2 times the estimated score of the current cloud), t - dt being the time of the current cloud. The score is the sparse kernel estimate of the whole current cloud, with weighting constant 0.001 and lengthscale twice the population standard deviation of each dimension. Reweighting, if requested, comes after this propagation.",
 ["inputs", "histories", "configurations"], "all drifts, diffusion constants, end points, sizes, dimensions, time steps and random draws",
 "No stable test builds a flow object.",
 [DP, SE], [("DPFC.forward_sampling_Otto", DP), ("DPFC.f_seperate", DP)], state=[("Z", "forward flow", DP)], obs=["Z"])

prop("C10", "NumPy deterministic backward flow obeys the time-reversed equation",
 "In deterministic mode the NumPy backward flow takes one noisy step from the target, x - f(x, t) dt + g^2 dt s_F(x) + g sqrt(dt) noise, and from then on x - dt (f(x, t) - g^2 s_F(x) + g^2/2 s_B(x)), where t is the time of the current backward slice. Here s_F and s_B are the sparse kernel scores of the forward and the backward cloud at that same time, evaluated at the backward particles, with weighting constant 0.001 and lengthscale twice the population standard deviation of each dimension of the respective cloud. Every slice between the last and the first is produced this way, from the slice after it.",
 ["inputs", "histories", "configurations"], "all drifts, diffusion constants, end points, sizes, dimensions, time steps and random draws",
 "No stable test builds a flow object.",
 [DP, SE], [("DPFC.backward_simulation", DP), ("DPFC.density_estimation", DP), ("DPFC.bw_density_estimation", DP)], state=[("B", "backward flow", DP)], obs=["B"])

prop("C11", "PyTorch deterministic forward flow obeys the probability-flow equation",
 "In deterministic mode the PyTorch forward flow takes one Euler-Maruyama step from the start point and from then on each particle moves by dt (f(x, t - dt) - g^2/2 times the estimated score of the current cloud), t - dt being the time of the current cloud. The score is the sparse kernel estimate of the whole current cloud, with weighting constant 0.001 and lengthscale twice the sample standard deviation (N - 1) of each dimension. Reweighting, if requested, comes after this propagation.",
 ["inputs", "histories", "configurations"], "all drifts, diffusion constants, end points, sizes, dimensions, time steps and random draws",
 "The PyTorch flow test is not among the stable ones and checks one configuration.",
 [DP, ST], [("torched_DPFC.forward_sampling_Otto", DP), ("torched_DPFC.f_seperate", DP)], state=[("Z", "forward flow", DP)], obs=["Z"])

prop("C12", "PyTorch deterministic backward flow obeys the time-reversed equation",
 "In deterministic mode the PyTorch backward flow takes one noisy step from the target, x - f(x, t) dt + g^2 dt s_F(x) + g sqrt(dt) noise, and from then on x - dt (f(x, t) - g^2 s_F(x) + g^2/2 s_B(x)), where t is the time of the current backward slice. Here s_F and s_B are the sparse kernel scores of the forward and the backward cloud at that same time, evaluated at the backward particles, with weighting constant 0.001 and lengthscale twice the sample standard deviation of each dimension of the respective cloud. Every slice between the last and the first is produced this way, from the slice after it.",
 ["inputs", "histories", "configurations"], "all drifts, diffusion constants, end points, sizes, dimensions, time steps and random draws",
 "The PyTorch flow test is not among the stable ones and checks one configuration.",
 [DP, ST], [("torched_DPFC.backward_simulation", DP), ("torched_DPFC.density_estimation", DP), ("torched_DPFC.bw_density_estimation", DP)], state=[("B", "backward flow", DP)], obs=["B"])

prop("C13", "Stochastic mode simulates the SDE forward and its time reversal backward",
 "In stochastic mode every forward step is x + f(x, t - dt) dt + g sqrt(dt) noise, with t - dt the time of the current slice and fresh standard normal noise per particle, coordinate and step. Every backward step is x - f(x, t) dt + g^2 dt s_F(x) + g sqrt(dt) noise, with t the time of the current slice and s_F the sparse kernel score of the forward cloud at that time. This holds for both implementations and any dimension.",
 ["inputs", "histories", "configurations"], "all drifts, diffusion constants, end points, sizes, dimensions, time steps and random draws, both classes",
 "No stable test builds a flow object in stochastic mode.",
 [DP], [("DPFC.forward_sampling", DP), ("torched_DPFC.forward_sampling", DP), ("backward_simulation", DP)], state=[("Z", "forward flow", DP), ("B", "backward flow", DP)], obs=["Z", "B"])

prop("C14", "The control is the backward minus the forward score at the queried points",
 "Away from the ends of the time interval (time index above 5 and below k - 5, k the number of grid times) the control at any query point is the estimated score of the backward cloud minus the estimated score of the forward cloud at that time, both evaluated at the unmodified query point with the same inducing points. Each score uses weighting constant 0.001 and lengthscale twice the standard deviation per dimension of its own cloud. Queries are a points x dim array, the result is dim x points, and a point's control does not depend on the other points in the call; both implementations.",
 ["inputs", "histories", "configurations"], "all flows, time indices, query points and batches, dimensions, both classes",
 "No stable test queries a control.",
 [DP], [("DPFC.calculate_u", DP), ("torched_DPFC.calculate_u", DP)], obs=["return value of calculate_u"])

prop("C15", "Near the ends the control is the difference of two Gaussian scores",
 "For the first six time indices (0 to 5) and the last five, the control along dimension d at query x is -(x_d - m_B)/s_B^2 + (x_d - m_F)/s_F^2, with m and s the mean and standard deviation of coordinate d of the backward and of the forward cloud at that time. It is used wherever both clouds have positive spread, at any query, in any dimension, by both implementations.",
 ["inputs", "histories", "configurations"], "all flows, all time indices in those ranges, query points, dimensions, both classes",
 "No stable test queries a control.",
 [DP], [("DPFC.calculate_u", DP), ("torched_DPFC.calculate_u", DP)], obs=["return value of calculate_u"])

prop("C16", "Brownian-bridge mode keeps and uses a separate true-drift forward flow",
 "In deterministic mode with reweighting and Brownian-bridge, a second forward flow is simulated with the true drift instead of the proposal drift, by the same deterministic forward law and without any reweighting. The control then uses that flow, and not the reweighted one, as the forward cloud, with its own lengthscales, both in the interior and in the Gaussian approximation near the ends. Both implementations do so, and outside this mode the control uses the forward flow itself.",
 ["inputs", "histories", "configurations"], "all proposal and true drifts, path constraints, sizes, dimensions, time indices, both classes",
 "No stable test builds a flow object in this mode.",
 [DP], [("forward_sampling_Otto_true", DP), ("f_seperate_true", DP), ("calculate_u", DP)], state=[("Ztr", "true-drift forward flow", DP)], obs=["Ztr", "calculate_u"])

prop("C17", "Coverage holds exactly for points inside both flows' ranges",
 "The coverage test at a time index is true exactly when, in every dimension, the point lies between the smallest and the largest coordinate of the forward cloud and between those of the backward cloud at that time, bounds included. One dimension outside is enough for false, and the answer depends on nothing else. Both implementations, any dimension and time index.",
 ["inputs", "histories", "configurations"], "all flows, points, time indices and dimensions, both classes",
 "No stable test asks for coverage.",
 [DP], [("DPFC.check_if_covered", DP), ("torched_DPFC.check_if_covered", DP)], obs=["return value of check_if_covered"])

prop("C18", "The time grid and the flow storage fit the requested interval",
 "The time grid starts at t1, advances by dt = 0.001 and includes t2 when the interval is a whole number of steps; k is its length. Each flow is stored as dim x N x k, one slice per grid time, dim being the number of coordinates of the start point and N the requested number of particles. Both implementations, any interval, dimension and particle number.",
 ["inputs", "configurations"], "all intervals, dimensions, particle and inducing-point numbers, both classes",
 "No stable test builds a flow object.",
 [DP], [("__init__", DP)], state=[("timegrid", "grid times", DP), ("k", "number of grid times", DP)], obs=["timegrid", "k", "shapes of Z, B, Ztr"])

prop("C19", "Queries and estimators change neither their inputs nor the flows",
 "Score estimators, kernels, the reweighting map, controls and coverage tests leave every array they are given unchanged, and controls and coverage tests leave the stored flows unchanged, so that repeated or interleaved queries in any order see the same flows. A result once returned keeps its values whatever is called later. Constructing a flow object changes neither of the end points it is given.",
 ["inputs", "histories"], "all inputs and all sequences of queries",
 "Unit tests compare return values of single calls; none checks that arguments and stored flows survive.",
 [DP, SE, S2, ST, RB, OT], [("calculate_u", DP), ("check_if_covered", DP), ("estimators", SE)], state=[("Z", "forward flow", DP), ("B", "backward flow", DP)], obs=["arguments", "Z", "B", "Ztr"])

prop("C20", "Inducing points are uniform draws over the prescribed box",
 "Every score estimate made by a flow object uses the requested number M of inducing points, drawn afresh for that estimate, each coordinate independently and uniformly over an interval per dimension. In the forward flows that interval is the range of the current cloud; in the backward flow and in controls it is the overlap of the forward and backward ranges in the NumPy implementation and their joint range in the PyTorch implementation (in the first PyTorch backward step, where the backward cloud is the single end point, the forward range alone). So no inducing point lies outside the joint bounding box of the clouds at that time.",
 ["inputs", "histories", "configurations"], "all flows, sizes, time steps, dimensions and random draws, both classes and all modes",
 "No stable test builds a flow object, and no test looks at the inducing points.",
 [DP], [("f_seperate", DP), ("density_estimation", DP), ("bw_density_estimation", DP), ("calculate_u", DP)], obs=["inducing points handed to the estimators"])

prop("C21", "Results depend only on the arguments and the global random generators",
 "Two constructions with the same arguments and the same seed of the global NumPy (or PyTorch) generator give identical flows and identical controls for the same sequence of queries, whatever was computed before. Flow objects share no state: building or querying one never changes another, and no reseeding of the global generators takes place.",
 ["histories", "inputs", "configurations"], "all histories of constructions and queries, all seeds and arguments",
 "A unit test looks at one object at a time in a fresh process.",
 [DP, SE, ST, RB, OT], [("np.random / torch global generators", DP)], obs=["Z", "B", "Ztr", "calculate_u", "generator state"])

prop("C22", "Unsupported kernel requests fall back to the Gaussian kernel",
 "Requesting the periodic kernel from a flow object gives exactly the flows and controls of the Gaussian (RBF) kernel with the same seed, in every mode of both implementations, with a warning rather than an error. The periodic kernel is never used in any score estimate a flow object makes.",
 ["configurations", "inputs"], "all modes, arguments and seeds, both classes",
 "No stable test passes a kernel name.",
 [DP], [("__init__", DP)], state=[("kern", "kernel in use", DP)], obs=["kernel argument of every estimate", "flows"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
