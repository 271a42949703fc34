import json
F="bayesian_sde_solver/"
def P(id,title,statement,over,qtext,why,files,mech,obs,state=None,hook=None):
    a={"files":[F+f if not f.startswith(("scripts","README")) else f for f in files],"mechanism":[{"name":n,"where":F+w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":F+w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
ps=[]
drv=["sde_solver.py","ssm_parabola/ssm_parabola_ode.py"]
ps.append(P("C01","A solve is a pure function of its own arguments",
"Solving with the same key, equation, start, step size, step count and method always returns bitwise the same time grid, trajectory and noise coefficients, whatever other solves (other keys, other step sizes or priors, other problems) ran before, ran interleaved with it on other threads, or crashed or were cancelled half-way. A solve never modifies the arrays the caller passed in.",
["schedules","crash_points","histories"],"every interleaving of several solves in one process at drift/diffusion/noise/integrator call boundaries, every point at which one of them is killed, every order of earlier solves",
"Tests run one solve at a time in one fixed order and compare moments with loose tolerances; contamination through cached state, closures or shared buffers changes which numbers come out only in particular histories.",
drv+["foster_polynomial.py","utils/progress_bar.py","sde_solvers/euler_maruyama.py","ode_solvers/ekf.py"],
[("key splitting, no global state","sde_solver.py: sde_solver"),("pathwise increments rescaled without mutation","sde_solvers/euler_maruyama.py: solver_pathwise")],["returned arrays","caller arrays after the call"]))
ps.append(P("C02","Batched solves are independent, and a failing lane is contained",
"Solving a batch of keys, starts or parameters together (vmap/jit) gives each member the trajectory it gets when solved alone. If one member's dynamics overflow or return NaN from some time on, every other member's result is unchanged, and the failing member keeps its correct finite states up to that time and never presents later finite states computed from the failure.",
["inputs","fault_sequences"],"every batch composition and every choice of failing lanes, failure kinds (NaN, infinity, overflow) and failure times",
"Tests only look at moments averaged over healthy batches; a lane leak or a silently recovered NaN is invisible there.",
drv+["foster_polynomial.py","ode_solvers/ekf.py","ode_solvers/probnum/ekf.py","sde_solvers/euler_maruyama.py"],
[("pure per-lane scan body","sde_solver.py: body"),("generators vectorised over keys","foster_polynomial.py")],["per-lane trajectories"]))
ps.append(P("C03","No anticipation: the future never influences the past",
"The states a solver reports at times up to t depend only on the start, the dynamics up to t and the Brownian noise of the steps that end by t. Changing or poisoning the noise of a later step, or the dynamics at later times, leaves every earlier state bit-for-bit unchanged, and noise of a step does reach the state at its end when the diffusion does not vanish.",
["histories","fault_sequences"],"every step index, every replacement of later noise (including NaN, infinity, huge values) and of later dynamics, for every method",
"Tests compare terminal moments; an index shift by one step in noise or time leaves them nearly unchanged.",
drv+["sde_solvers/euler_maruyama.py","sde_solvers/diag_15_scheme.py","ode_solvers/ekf.py"],
[("scan over (index, key, time)","sde_solver.py: body"),("increments consumed in order","sde_solvers/euler_maruyama.py: solver_pathwise")],["prefix of the trajectory"]))
ps.append(P("C04","A solve interrupted after any step can be resumed exactly",
"The reported state after step k is all that is needed to continue: restarting from it with the dynamics shifted by the elapsed time and the remaining noise gives the same remaining trajectory as the uninterrupted solve. This holds wherever the solve was killed, for every method including those whose state is a sample with its Gaussian law.",
["crash_points","histories"],"every crash point (before, inside or after the integration of a step, repeated crashes) and every method and configuration",
"No test stops or restarts a solve; hidden state carried between steps, or absolute time leaking into a step, is invisible to them.",
drv+["ode_solvers/ekf0_2.py","ode_solvers/ekf1_2.py","sde_solvers/euler_maruyama.py"],
[("carry of the scan is the reported state","sde_solver.py: body")],["states saved at step boundaries","trajectory after restart"]))
ps.append(P("C05","Time grid and causal window of the dynamics",
"A solve of N steps of size delta reports the times 0, delta, ..., N*delta and one state per time, the first being the start. During step k the drift and diffusion are consulted only at absolute times within [k*delta, (k+1)*delta], so dynamics that are undefined (NaN) outside the solved interval or outside a step's window never matter to it.",
["inputs","fault_sequences"],"every step, step size, step count, substep count and method; every outage of the dynamics outside the window",
"All equations in the tests are autonomous, so the time argument could be anything.",
drv+["ode_solvers/euler.py","ode_solvers/ekf.py","sde_solvers/euler_maruyama.py","ssm_parabola/ekf.py"],
[("time shift of drift and diffusion","sde_solver.py: vector_field"),("substep grids","ode_solvers/ekf.py: ts; ode_solvers/euler.py: inps")],["time arguments seen by the caller's drift and diffusion","returned time grid"]))
ps.append(P("C06","The trajectory is exactly the one driven by the returned noise coefficients",
"On every step, the next state is the image of the current state under the chosen ODE method applied to drift + diffusion times the derivative of the Brownian polynomial with the coefficients returned for that step, on the interval of that step, with the caller's drift and diffusion evaluated at absolute time. This holds for every ODE method, noise generator, dimension, prior, substep count and execution mode.",
["inputs","histories","configurations"],"every configuration, key and problem; each step of each history is checked against a reference driver",
"Tests compare moments of terminal states on three linear problems with tolerances of several percent.",
["sde_solver.py","foster_polynomial.py","ode_solvers/euler.py","ode_solvers/ekf.py"],
[("vector field of a step","sde_solver.py: body"),("coefficients returned by the scan","sde_solver.py: out")],["returned trajectory and coefficients"]))
ps.append(P("C07","Every random draw is fresh and independent",
"Within a solve, each step's Brownian noise and each step's posterior sample use their own randomness: all random keys handed to the noise generator and to the integrator are distinct across steps and roles and across different caller keys, for any number of steps. Consequently the noise of different steps, the components within a step, and the posterior sampling errors are mutually independent.",
["histories","inputs"],"every caller key, step count and role",
"Reuse of randomness between steps or roles leaves marginal moments, the only thing tested, intact.",
drv+["foster_polynomial.py","sde_solvers/euler_maruyama.py","sde_solvers/diag_15_scheme.py","sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py"],
[("split into per-step keys and per-role keys","sde_solver.py: body"),("fine keys","foster_polynomial.py: get_approx_fine")],["keys received by injected generator and integrator","noise recovered from trajectories"]))
ps.append(P("C08","Sampled parabolas have the law and shape of the Brownian parabola",
"For every generator, dimension and batch of keys, the first coefficient is the Brownian increment, N(0, dt) per component, and the second is N(0, dt/2) (dt/2 (1 - 1/n^2) for a path sampled at n points), Gaussian, independent of each other and across components and keys. The evaluated polynomial is 0 at time 0, equals the increment at time dt, and has the same time-average as the Brownian path it stands for.",
["inputs","histories"],"every generator, dimension, resolution, step size, batch of keys and evaluation time",
"Tests check a few moments of one batch at one step size and dimension.",
["foster_polynomial.py"],[("parabola coefficients","foster_polynomial.py"),("evaluation","foster_polynomial.py: eval_parabola")],["coefficients","evaluated polynomial"]))
ps.append(P("C09","Coarse parabolas agree with the fine Brownian data returned with them",
"A generator that also returns fine-scale data returns data describing the very path its coarse coefficients summarise: the fine increments sum to the coarse increment and the coarse second coefficient is the one obtained from the fine path (its time-integral, pieces included). Feeding the fine data step after step therefore reconstructs one Brownian path through the coarse endpoints, with fine pieces that are themselves independent with the right law.",
["inputs","histories"],"every key, step, dimension, resolution and step size along whole driver histories",
"Pathwise experiments rely on this coupling, but the tests check only marginal moments of each piece.",
["foster_polynomial.py","sde_solver.py"],[("integration of the sampled path","foster_polynomial.py: get_approx_and_brownian"),("aggregation of fine pieces","foster_polynomial.py: get_approx_fine")],["coarse coefficients, fine increments and areas returned by the driver"]))
ps.append(P("C10","Euler-Maruyama follows its recursion and noise convention",
"Both Euler-Maruyama solvers return the path x_{k+1} = x_k + h f(x_k, t_k) + sigma(x_k, t_k) dW_k from the given start on the grid k*h. Given increments are used in order, as N(0, h) increments by default and scaled by sqrt(h) when declared standard, without being modified; the keyed variant draws independent N(0, h I) increments.",
["inputs","histories","crash_points"],"every problem, increment sequence (numpy or device arrays, poisoned entries, chunked delivery after restarts), flag, dimension and key",
"Tests look at moments and one short path in one flag setting.",
["sde_solvers/euler_maruyama.py"],[("scan bodies","sde_solvers/euler_maruyama.py")],["returned path"]))
ps.append(P("C11","The order-1.5 schemes have the right one-step law all along a path",
"At every step of a path, given the current state, the diagonal-noise order-1.5 scheme moves with the mean, covariance and third moments of the Ito-Taylor 1.5 step for its drift and diffusion (including multiplicative noise), and the hypoelliptic scheme with the Gaussian law of its documented leading-order expansion. Steps are driven by independent noise.",
["inputs","histories"],"every admissible problem, state reached, step size and key",
"Tests use additive noise or short horizons where the extra terms vanish.",
["sde_solvers/diag_15_scheme.py","sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py"],[("step formulas","sde_solvers/diag_15_scheme.py: body; sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py: body")],["transitions along returned paths"]))
ps.append(P("C12","The probabilistic ODE solvers are Gaussian filters for the stated model",
"Each EKF-based ODE solver returns the mean and covariance of the extended Kalman filter (zeroth or first order) for its prior, its vector field evaluated at the right times, its initialisation and its observation noise, in standard and square-root form alike. This holds for every prior the library builds (integrated Wiener, Matern, general linear, factorised per coordinate), any number of prior states, dimension and substeps, and the reported innovation and its covariance are those of the last step.",
["inputs","configurations","histories"],"every configuration and long filtering history, against an independent reference filter, including restarts from a reported posterior",
"Tests check that two solvers roughly agree with a reference solution on one equation with the default prior.",
["ode_solvers/ekf.py","ode_solvers/ekf0.py","ode_solvers/ekf1.py","ode_solvers/ekf0_2.py","ode_solvers/ekf1_2.py","ode_solvers/probnum/ekf.py","ode_solvers/probnum/IOUP.py","ode_solvers/probnum/matern.py","ode_solvers/probnum/transition_function.py","ode_solvers/probnum/_utils.py"],
[("predict/update","ode_solvers/probnum/ekf.py"),("wrapper initialisation","ode_solvers/ekf0.py, ekf1.py, ekf0_2.py, ekf1_2.py"),("priors","ode_solvers/probnum")],["means, covariances, innovations"]))
ps.append(P("C13","Covariances stay valid and both filter forms agree over long histories",
"Over arbitrarily long solves every covariance reported (propagated state law, filter posterior, innovation covariance) is finite, symmetric and positive semi-definite up to rounding, in single and double precision, and never NaN on problems with singular covariances, as long as a step's process noise is resolved by the precision next to the covariances it is added to. The square-root and the standard form give the same means and covariances.",
["histories","configurations","fault_sequences"],"every history of hundreds to thousands of steps, stiff and non-stiff problems, degenerate diffusions, tiny and large steps, zero and non-zero observation noise",
"Tests run a few hundred steps on well-behaved problems and never look at covariances.",
["ode_solvers/ekf0_2.py","ode_solvers/ekf1_2.py","ode_solvers/probnum/ekf.py","ode_solvers/probnum/_utils.py","sde_solver.py"],[("PSD square root","ode_solvers/probnum/_utils.py"),("square-root filter","ode_solvers/probnum/ekf.py")],["covariances in the trajectory"]))
ps.append(P("C14","Sampled states follow the reported posterior law",
"With a random key, a probabilistic solver's next state is a draw from the Gaussian posterior of the step: its deviation from the posterior mean has the posterior covariance, is Gaussian, and is independent across steps and of the Brownian noise. With no key it is the posterior mean; in the mixture form the propagated law is unaffected by the draws.",
["histories","inputs"],"every key, step, method, form, prior and dimension along whole driver histories",
"Posterior draws are far smaller than the Brownian noise, so moments of states barely notice them.",
["ode_solvers/ekf0.py","ode_solvers/ekf1.py","ode_solvers/ekf0_2.py","ode_solvers/ekf1_2.py"],[("sampling of the posterior","ode_solvers/ekf0.py, ekf1.py, ekf0_2.py, ekf1_2.py")],["deviation of states from the reference posterior mean"]))
ps.append(P("C15","Strong convergence to the Ito solution on the same Brownian path",
"With the drift converted to Stratonovich form by the library, the solvers driven by parabolas of a given Brownian path converge pathwise to the Ito solution on that same path: the root-mean-square error shrinks at the rate of a strong order-1 method as the step is refined (order 1/2 for Euler-Maruyama with general noise). Conversion to Stratonovich and back to Ito leaves the equation unchanged along every path.",
["histories","inputs"],"every Brownian path and refinement of it, for equations with multiplicative, diagonal, scalar and additive noise",
"Tests check one geometric Brownian motion at one step size and moments only.",
["sde_solver.py","ito_stratonovich.py","foster_polynomial.py","sde_solvers/euler_maruyama.py"],[("drift correction","ito_stratonovich.py"),("parabola ODE","sde_solver.py")],["terminal and running pathwise errors"]))
ps.append(P("C16","The marginalised solver has the transition law of its filter",
"The solvers that carry the parabola coefficients in the filter state return, from each state, a draw from (or without key the mean of) the Gaussian posterior of the extended filter over point, increment and area started from their prior joint law, at the right absolute times. Its increments and areas keep their Brownian law up to what the filter observes, and the driver chains these transitions without memory.",
["histories","inputs","configurations"],"every key, step, problem with square diffusion, prior, form and noise",
"The tests check loose moments on linear problems with the default prior only.",
["ssm_parabola/ekf.py","ssm_parabola/ekf0.py","ssm_parabola/ekf1.py","ssm_parabola/ssm_parabola_ode.py"],[("extended filter","ssm_parabola/ekf.py"),("driver","ssm_parabola/ssm_parabola_ode.py")],["returned point, increment, area; driver trajectory"]))
ps.append(P("C17","Progress reports are exact",
"For every number of steps, a solve's progress display opens exactly once with that total, advances monotonically, never runs ahead of the steps that have been started by a whole reporting batch (one step, or a thousandth of the total for long solves), ends exactly at the total and is closed once, when the solve ends. Concurrent or successive separately compiled solves each get their own display with their own counts.",
["inputs","schedules"],"every step count (around the thousand-step batching thresholds), execution mode and interleaving of several solves",
"No test looks at the display.",
["utils/progress_bar.py","sde_solver.py","ssm_parabola/ssm_parabola_ode.py"],[("batched updates and remainder","utils/progress_bar.py")],["events of the progress bar"]))
ps.append(P("C18","A failing display or clock never corrupts a solve",
"If writing the progress display fails (broken pipe, full disk, closed or non-unicode stream) or the wall clock jumps or stalls, a solve either raises an error to its caller or returns exactly the numbers it returns with a healthy display. Later and concurrent solves are unaffected.",
["fault_sequences","crash_points","histories"],"every failing write or flush, every error kind, every clock behaviour, in every execution mode and history of solves",
"No test injects an I/O error or touches the clock.",
["utils/progress_bar.py","sde_solver.py","ssm_parabola/ssm_parabola_ode.py"],[("host callbacks separated from the numerical result","utils/progress_bar.py: _update_progress_bar, close_tqdm")],["returned arrays or raised error"]))
ps.append(P("C19","Prior transitions compose along any schedule of steps",
"The transition a prior builder returns for a step is the exact Gaussian transition of the stated linear SDE (up to quadrature error where it integrates numerically). Predicting through any sequence of steps, of any sizes and in any order, zero-length steps included, with or without observations in between, therefore gives the same mean and covariance as fewer, longer steps over the same times, and covariances stay symmetric positive semi-definite. Coordinates with priors of their own, and padded orders, keep to their own block. (The Ornstein-Uhlenbeck prior with a non-zero rate has a documented leading-order covariance: it agrees up to rate times step.)",
["schedules","histories","inputs"],"every schedule of step sizes and observation times, every prior, order, dimension, precision and execution mode",
"Tests build a prior at one step size and never compare a step with two half steps.",
["ode_solvers/probnum/IOUP.py","ode_solvers/probnum/matern.py","ode_solvers/probnum/transition_function.py","ode_solvers/probnum/ekf.py"],
[("closed forms","ode_solvers/probnum/IOUP.py; ode_solvers/probnum/matern.py"),("quadrature","ode_solvers/probnum/transition_function.py: transition_function"),("factorised and padded priors","ode_solvers/probnum/transition_function.py: get_independently_factorized_prior, pad_prior")],["transitions returned by the builders","law of the state after a schedule"]))
ps.append(P("C20","Diffusion calibration is the maximum-likelihood scale of a history",
"The calibration routine returns the average of z' S^-1 z over all innovations and coordinates of a filtering history, the maximiser of its Gaussian likelihood in the diffusion scale: it does not depend on the order, coordinates or splitting of the history, merging parts averages their estimates by length, and innovations of a model with scale s^2 give s^2. Along a solve without observation noise the innovations do not depend on the prior's scale, so solving again with the calibrated prior estimates 1, also when the solve was interrupted and resumed.",
["histories","crash_points","fault_sequences"],"every history of innovations, every order, loss, interruption and merge of it, every batch with broken members",
"No test calls the calibration at all.",
["ode_solvers/probnum/calibration.py","ode_solvers/ekf0_2.py","ode_solvers/ekf1_2.py","ode_solvers/probnum/ekf.py"],
[("average normalised squared innovation","ode_solvers/probnum/calibration.py: mle_diffusion"),("innovations reported by a solve","ode_solvers/probnum/ekf.py: body_return_UC")],["estimated scale","innovations and their covariances"]))
ps.append(P("C21","Simulating a bundled benchmark reproduces its stated moments",
"Each bundled benchmark equation is the one named, and the means and variances stated with it are those of its drift and diffusion: simulating it with the library, in one go or interrupted and resumed, reproduces the exact ones at every time, and the local expansions are correct to the order they are stated to (the error shrinks by that order as the time goes to zero).",
["inputs","histories","crash_points"],"every benchmark with stated moments, every time, step count and interruption",
"Tests compare the moments of one Monte-Carlo batch at one time with tolerances of several percent, using the statement itself as the oracle for the solver.",
["utils/ivp.py","sde_solver.py"],[("benchmark definitions and stated moments","utils/ivp.py")],["moments of simulated end states","stated moments"]))
ps.append(P("C22","Ito/Stratonovich conversion is exact and invertible along histories",
"Converting a drift from Ito to Stratonovich subtracts half the correction sum_jk sigma_jk d sigma_ik / d x_j (and back adds it) at every state and time a simulation visits, leaving the diffusion unchanged. Converting there and back, in either order and repeatedly, therefore leaves every simulated history unchanged; additive noise needs no correction; converted dynamics can be traced, batched and differentiated like the caller's, and consult the caller's diffusion at no other time.",
["histories","inputs","fault_sequences"],"every problem (any shape of diffusion, state- and time-dependence), history, chain of conversions, batch and outage of the dynamics",
"Tests check a few closed-form examples with square diffusions at single points.",
["ito_stratonovich.py"],[("drift_correction","ito_stratonovich.py"),("to_stratonovich, to_ito","ito_stratonovich.py")],["trajectories driven by converted dynamics","converted diffusion values"]))
na=[
("N03","Layout utilities preserve states","Interlacing, padding and factorising priors place every coordinate and derivative where the filters expect it and lose nothing.",["ode_solvers/probnum/_utils.py","ode_solvers/probnum/transition_function.py","utils/insert.py"],[("interlace, pad_prior, get_independently_factorized_prior","ode_solvers/probnum")]),
]
for id,t,s,f,m in na:
    ps.append(P(id,t,s,["inputs"],"every input of the function","Only a few inputs are tested.",f,m,["return value"]))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
with open('/verif/properties.jsonl','w') as o:
    for p in ps:
        jsonschema.validate(p,sch)
        assert len(p["title"])<=80
        o.write(json.dumps(p)+"\n")
print(len(ps))
