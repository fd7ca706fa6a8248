#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, D, V = "src/numerics/", "src/dynamics/", "src/var_bayes/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, note, tech=None, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, tech=tech, observe=observe))


MOM = "The stable tests touch the Gaussian moments and the numerical utilities only."

prop("C01", "Gaussian moments and their derivatives are exact",
     "For every mean and variance, the moment of order k = 0..8 reported is E[x^k] of that Gaussian, "
     "and the derivatives with respect to mean and variance are the derivatives of that formula, "
     "elementwise for arrays. Any other order (0 for derivatives included) is rejected with a "
     "ValueError, and means and variances of different shapes with an error.",
     ["inputs"], "all real means and variances, arrays of length 1..3 and scalars, orders -60..60",
     "Tests compare a few numbers with the same closed forms; a wrong coefficient of a term that "
     "vanishes there is not seen.",
     [V + "gaussian_moments.py"], [("closed-form moment tables", V + "gaussian_moments.py")],
     "polynomial identities decided for all reals")

prop("C02", "The forward sweep is the chosen integration scheme",
     "For every drift path A, b, initial moments and noise, the means and covariances returned by the "
     "forward sweep start at the given moments and each step is the Euler, Heun, midpoint (RK2) or "
     "classical RK4 step of m' = -A m + b and S' = -A S - S A^T + Sigma, with A, b averaged between "
     "grid points where the scheme needs half steps. A symmetric covariance stays symmetric; "
     "non-positive steps and unknown methods are rejected with ValueError.",
     ["inputs", "configurations"], "all real A, b, m0, S0, Sigma, dt > 0; four methods; scalar and "
     "matrix form; up to 4 time points, each step from an arbitrary state",
     MOM, [V + "fwd_ode.py", N + "ode_solver.py", N + "euler.py", N + "heun.py",
           N + "runge_kutta2.py", N + "runge_kutta4.py"],
     [("solve_fwd of each scheme", N), ("method selection", V + "fwd_ode.py")],
     "every step is checked from an arbitrary pre-state, so longer sweeps follow by induction on "
     "steps (the induction itself is not mechanised)")

prop("C03", "The backward sweep is the scheme, with jumps at observations",
     "The multipliers returned by the backward sweep vanish at the final time and each step is the "
     "chosen scheme applied backwards to lambda' = A^T lambda - dEsde/dm and "
     "Psi' = Psi A + A^T Psi - dEsde/dS, with the likelihood gradients of the grid point reached "
     "added as jumps. Non-positive steps and unknown methods are rejected with ValueError.",
     ["inputs", "configurations"], "all real A, energy gradients, jumps (covariance gradients "
     "symmetric), dt > 0; four methods; scalar and matrix form; up to 4 time points",
     MOM, [V + "bwd_ode.py", N + "euler.py", N + "heun.py", N + "runge_kutta2.py",
           N + "runge_kutta4.py"], [("solve_bwd of each scheme", N)],
     "one-step induction as for C02; a jump at the very last grid point is outside the claim (the "
     "sweep ignores it)")

prop("C04", "The backward sweep is the adjoint of the forward sweep",
     "For a homogeneous system, propagating a perturbation of the initial mean (covariance) forward "
     "to a time and pairing it with a jump gives the same number as propagating that jump backward "
     "and pairing it with the perturbation. It holds for every method when A is constant, and for "
     "Heun and RK4 for every time-varying A.",
     ["inputs", "configurations"], "all real A, perturbations, jumps, dt > 0; scalar form with 2 "
     "steps, matrix form (d = 2) with 1",
     "Needs both sweeps together on arbitrary inputs; no test runs either sweep.",
     [V + "fwd_ode.py", V + "bwd_ode.py", N + "heun.py", N + "runge_kutta4.py"],
     [("pairing of solve_fwd and solve_bwd", N)],
     "exact identity between two runs of the code, no reference implementation involved")

prop("C05", "Scalar and matrix forms agree for one-dimensional systems",
     "For a one-dimensional system the scalar form and the 1 x 1 matrix form of the sweeps, of the "
     "prior divergence and of the likelihood (values and gradients) return the same numbers.",
     ["inputs", "configurations"], "all real inputs; sweeps with 3 time points, all methods; "
     "likelihood with 4 time points and 1 or 2 observations at any distinct times",
     "The two code paths are never compared by a test.",
     [V + "fwd_ode.py", V + "bwd_ode.py", V + "prior_kl0.py", V + "gaussian_like.py", N + "heun.py"],
     [("single_dim branches", V)], "exact identity between two runs of the code")

prop("C06", "Double-well energy, drift averages and gradients are exact",
     "For the double-well drift 4x(theta - x^2), the SDE energy is the trapezoidal time integral of "
     "the Gaussian average of (f(x) + A x - b)^2 / (2 sigma), the averages of the drift and of its "
     "derivative are exact, and the gradients with respect to mean and variance paths, theta and "
     "sigma are those of that energy (mean and variance gradients pointwise, without the quadrature "
     "weight).",
     ["inputs"], "all real A, b, m, s, theta, sigma > 0, dt > 0; 2 and 3 time points with and "
     "without observation times", MOM + " The energy of no model is tested.",
     [D + "double_well.py", V + "gaussian_moments.py", N + "utilities.py"],
     [("energy / gradients closed forms", D + "double_well.py")],
     "reference: symbolic Gaussian expectation of the documented polynomial drift")

prop("C07", "Ornstein-Uhlenbeck energy, drift averages and gradients are exact",
     "For the drift -theta x, the SDE energy is the trapezoidal time integral of the Gaussian average "
     "of (f(x) + A x - b)^2 / (2 sigma), the averages of the drift and of its derivative are exact, "
     "and the gradients with respect to mean and variance paths, theta and sigma are those of that "
     "energy.",
     ["inputs"], "all real A, b, m, s, theta > 0, sigma > 0, dt > 0; 2 and 3 time points",
     MOM + " The energy of no model is tested.", [D + "ornstein_uhlenbeck.py", N + "utilities.py"],
     [("energy closed forms", D + "ornstein_uhlenbeck.py")],
     "reference: symbolic Gaussian expectation; mean level zero, as the energy assumes")

prop("C08", "Lorenz-63 energy, drift averages and gradients are exact",
     "For the Lorenz-63 drift and a diagonal system noise, the SDE energy is the trapezoidal time "
     "integral of the Gaussian average of half the squared residual drift weighted by the inverse "
     "noise, the averages of drift and Jacobian are exact, and the gradients with respect to mean and "
     "covariance paths, the three parameters and the noise are those of that energy. It makes no "
     "difference whether the noise is given as a scalar, a vector or a matrix.",
     ["inputs", "configurations"], "all real theta, A, b, m, symmetric S, diagonal Sigma > 0; 2 and "
     "3 time points", MOM + " The energy of no model is tested.",
     [D + "lorenz_63.py", N + "utilities.py"], [("energy and gradients", D + "lorenz_63.py")],
     "reference: symbolic Gaussian expectation of the documented polynomial drift; full (non "
     "diagonal) system noise is outside the claim")

prop("C09", "Lorenz-96 drift averages, energy and gradients",
     "For the Lorenz-96 drift and a diagonal system noise, the averages of drift and Jacobian are the "
     "exact Gaussian averages, and the SDE energy and its gradients are the time integrals and "
     "pointwise values of the unscented averages of the documented integrands. States of fewer "
     "variables than the documented minimum are rejected.",
     ["inputs", "configurations"], "dimension 10; all theta, m, b, A (diagonal plus one band for the "
     "energy), diagonal Sigma > 0, and all S with the listed Cholesky patterns; 2 time points",
     MOM + " The energy of no model is tested.", [D + "lorenz_96.py", N + "utilities.py"],
     [("shift_vectors / energy", D + "lorenz_96.py"), ("ut_approx", N + "utilities.py")],
     "the unscented rule itself is decided by C10; dimension 10 only")

prop("C10", "The unscented transform is exact where it should be",
     "For every mean and positive definite covariance the transform returns the weighted mean and "
     "covariance of the function over the documented sigma points; for affine maps these are the "
     "exact mean and covariance, and for quadratic maps the mean is exact. A covariance that is not "
     "positive definite falls back to its diagonal.",
     ["inputs"], "all real means, covariances, coefficients; affine d <= 3, quadratic d <= 2, cubic "
     "and quartic d = 1; fallback 2 x 2", "No test calls the transform.",
     [N + "utilities.py"], [("ut_approx", N + "utilities.py")],
     "Cholesky factor by contract (L L^T = S, lower, positive diagonal)")

prop("C11", "Cholesky inverse and log-determinant",
     "For every symmetric positive definite matrix (or positive number) the returned inverse times "
     "the matrix is the identity, the returned inverse factor W is lower triangular and satisfies "
     "W^T W = inverse and W S W^T = I, and the log-determinant is the logarithm of the determinant "
     "(for a vector: of the product of its entries). Non-square matrices are rejected by the "
     "log-determinant.",
     ["inputs"], "all positive definite matrices of size 1..3 (4 thorough), all positive numbers",
     "Tests use one random matrix; agreement of inverse, factor and determinant for all matrices is "
     "not settled by it.", [N + "utilities.py"], [("chol_inv, log_det", N + "utilities.py")],
     "numpy's cholesky / solve / inv by their contracts")

prop("C12", "Time integrals are the composite trapezoid, however split",
     "The time integral of sampled values is dx times the composite trapezoid, independently of how "
     "observation times split the window (none, one or many, also at the ends).",
     ["inputs", "configurations"], "all values; 2..6 points (8 thorough); every increasing list of "
     "1..3 observation indices; scalar, vector and matrix values",
     "The test uses one function and one grid, without observation times at the ends.",
     [N + "utilities.py"], [("my_trapz", N + "utilities.py")], "observation indices are symbolic")

prop("C13", "Prior divergence and its gradients",
     "The initial-state term is the Kullback-Leibler divergence between the Gaussian initial state "
     "and the Gaussian prior, zero when they coincide; its gradients are the derivative with respect "
     "to the initial mean (covariance) plus the multiplier at time zero.",
     ["inputs"], "all prior and initial means and positive definite covariances, d = 1..3",
     "No test evaluates the divergence.", [V + "prior_kl0.py"], [("__call__, gradients",
                                                                  V + "prior_kl0.py")],
     "logarithms are uninterpreted apart from their algebra")

prop("C14", "Observation energy and its gradients",
     "The observation energy is the expected negative log-likelihood of the Gaussian observation "
     "model at the observation times, for any operator, noise and observation times, and the "
     "gradients with respect to mean, covariance and noise are its derivatives at the observation "
     "times and zero elsewhere. Replacing the noise changes values and gradients accordingly.",
     ["inputs", "configurations", "histories"], "all values, operators, positive definite noises; "
     "1..3 observations at every increasing list of indices; state and observation dimension 1..3",
     "No test evaluates the likelihood.", [V + "gaussian_like.py", V + "likelihood.py"],
     [("__call__, gradients, noise setter", V + "gaussian_like.py")],
     "derivatives are written in closed form in the harness")

prop("C15", "The variational gradient is the gradient of the Lagrangian",
     "The gradient with respect to A and b is assembled from moments, multipliers and drift averages "
     "as the derivative of the Lagrangian, whether or not the evaluation is refreshed first. For the "
     "one-dimensional models with Euler sweeps it agrees with the total derivative of the computed "
     "free energy up to second order in the time step at interior points without observation.",
     ["inputs", "configurations"], "all moments, multipliers, averages, noise for the formula (d = "
     "1..3, 2..3 points); all A, b, parameters for the total derivative (4 points, DW and OU)",
     "No test evaluates the gradient; agreement with the objective for all inputs needs symbolic "
     "differentiation.", [V + "variational.py", V + "fwd_ode.py", V + "bwd_ode.py"],
     [("gradient / grad_variational", V + "variational.py")],
     "total derivative: the computed free energy is differentiated symbolically; first order in dt, "
     "Euler only")

prop("C16", "Contract of the optimiser",
     "For every objective the optimiser leaves the start point alone, returns a point it evaluated "
     "together with its value, never worse than the start, and accepted points never get worse; it "
     "respects its iteration budget and stops earlier only when steps and changes of value are below "
     "the tolerances or the gradient vanishes. Probes and trial steps go forward along descent "
     "directions; for quadratic objectives the first step is the scaled conjugate gradient step, and "
     "the second direction is the Polak-Ribiere one (steepest descent when that is not a descent "
     "direction); after as many accepted steps as there are dimensions it restarts along the "
     "negative gradient. The scale parameter quadruples when the comparison ratio is below 1/4 "
     "(rejected trials too), halves above 3/4, and steps over negative curvature.",
     ["inputs", "histories"], "arbitrary values and gradients at each point evaluated; 1 or 2 "
     "iterations; dimension 1 and 2; all quadratic functions for the first step",
     "The two optimiser tests fail always, and a test samples one objective.",
     [N + "optim_scg.py"], [("__call__", N + "optim_scg.py")],
     "objective values and gradients are free symbols per point, so every response history within "
     "two iterations is covered")

prop("C17", "Gradients are asked for where the state is consistent; counts",
     "The optimiser asks for a gradient without re-evaluation only at the point whose value it asked "
     "for last, so that the objective's cached state belongs to that point. Extra arguments reach every "
     "evaluation, and the evaluation counts it reports are the numbers of calls it made.",
     ["inputs", "histories"], "arbitrary objective; 1 or 2 iterations; dimension 1 and 2",
     "Depends on the sequence of accepted and rejected trials, which a test samples once.",
     [N + "optim_scg.py", V + "variational.py"], [("calls of f, df(eval_fun)", N + "optim_scg.py")],
     "objective values and gradients are free symbols per point")

prop("C18", "Sample paths follow the stochastic equation",
     "Every simulated path takes Euler-Maruyama steps of the documented drift, and its noise "
     "increments are independent over time, with covariance system noise times time step (also for "
     "correlated noise). The Ornstein-Uhlenbeck path starts at its mean; the double-well path starts "
     "near one of the two documented wells, chosen by one fair coin, with variance sigma dt / 2.",
     ["inputs", "configurations"], "all parameters, noises (scalar, vector, matrix), dt > 0; 3..4 "
     "time points; every draw", "No test makes a trajectory; the law of the increments cannot be "
     "tested on samples.", [D + "double_well.py", D + "ornstein_uhlenbeck.py", D + "lorenz_63.py",
                            D + "lorenz_96.py"], [("make_trajectory", D)],
     "draws are symbols; covariances follow from the coefficients of the draws, exactly. The "
     "deterministic Lorenz burn-in is cut after 2 steps and is outside the claim")

prop("C19", "The time window has the requested length",
     "For every start, step and number of steps, the time window and the sample path of a trajectory "
     "have exactly one point more than the number of steps, at t0 + k dt, even when tf carries "
     "rounding errors. A second trajectory replaces the first, and asking for window, path, step or "
     "observations before any trajectory was made is an error.",
     ["inputs", "histories"], "all t0, dt >= 1e-3, 1..6 steps (Lorenz: fewer), tf within 1e-9 dt of "
     "t0 + k dt", "The length depends on the rounding of (tf - t0)/dt; no test makes a trajectory.",
     [D + "double_well.py", D + "ornstein_uhlenbeck.py", D + "lorenz_63.py", D + "lorenz_96.py",
      D + "stochastic_process.py"], [("make_trajectory, properties", D)],
     "rounding enters as a bounded symbolic error of tf")

prop("C20", "Observations are collected as requested",
     "Collected observations are equidistant, strictly inside the window, as many as the density "
     "asks for, and equal to the path at those times (masked as requested) plus independent noise "
     "with exactly the requested variances, which are returned with them. The path is left alone, "
     "and densities beyond the grid resolution are rejected. Rounding errors in the times of the "
     "window change neither the number of observations nor what is rejected. Without a path and a "
     "window there is nothing to collect (NotImplementedError).",
     ["inputs", "configurations"], "all paths, t0, dt in [1/8, 1/2], noises; 5 and 9 points; "
     "densities 1..3; masks of a 3-dimensional state",
     "No test collects observations.", [D + "stochastic_process.py"],
     [("collect_obs", D + "stochastic_process.py")],
     "draws are symbols; for matrix noise the diagonal is used, as documented by the code")

prop("C21", "Noise and drift parameters are validated and kept coherent",
     "Construction and every later update accept exactly the positive (positive definite) noises of "
     "the right shape, and after any history of accepted and rejected updates the stored noise is "
     "the last accepted one and the inverse is its inverse. The same holds for the positive drift "
     "parameter of the Ornstein-Uhlenbeck process.",
     ["inputs", "histories"], "all values; up to 3 updates; 3 x 3: all positive definite, diagonal "
     "and one-block indefinite; 10 x 10: diagonal and banded",
     "No test constructs a process; the histories are unbounded.",
     [D + "double_well.py", D + "ornstein_uhlenbeck.py", D + "lorenz_63.py", D + "lorenz_96.py"],
     [("sigma / theta setters", D)], "positive definiteness by Cholesky contract")

prop("C22", "A seed determines everything that is random",
     "Two processes with the same parameters and seed (zero included) produce the same paths and "
     "observations, whatever other processes are used in between. Different seeds give streams of "
     "their own.",
     ["inputs", "histories"], "seeds 0, 1, 7, 31415926535; all parameters; another process used in "
     "between", "No test draws random numbers.",
     [D + "stochastic_process.py", D + "double_well.py", D + "ornstein_uhlenbeck.py",
      D + "lorenz_63.py", D + "lorenz_96.py"], [("rng", D + "stochastic_process.py")],
     "a generator is modelled as an unknown fixed stream per seed")

prop("C23", "A simulation is assembled as its parameters say",
     "Set-up and run build model, noise, prior, observations (sampled, or supplied with the configured "
     "noise) and sweeps as the parameters say, hand the optimiser the free energy, its gradient and "
     "the initial guess, and store parameters, moments and value that belong to the point the "
     "optimiser returned. Unknown models and methods are rejected, and the caller's parameters are "
     "not overwritten.",
     ["inputs", "configurations", "histories"], "DW, OU, L63 runs and L96 set-up; all four methods; "
     "all parameter values; sampled or supplied data; optimiser returning arbitrary points",
     "No test runs a simulation.", [V + "simulation.py", V + "variational.py"],
     [("setup, run", V + "simulation.py")],
     "compared with the parts composed by the harness; the optimiser is a stand-in (C16, C17); full "
     "state observation, as the simulation supports")

prop("C24", "Saved results are read back unchanged",
     "Every result of a simulation that is saved is read back under the same name with the same "
     "shape and values, from a file named after the simulation. Saving again replaces the file "
     "without touching others, saving leaves the results alone, and nothing to save writes no file.",
     ["inputs", "histories"], "all values; scalars, vectors, matrices and 3-d arrays; names with "
     "blanks and dots; complete OU and L63 runs", "No test saves or loads.", [V + "simulation.py"],
     [("save, load", V + "simulation.py")],
     "h5py by contract in the symbolic run; witnesses use the real one")

prop("C25", "The parameter file and the command line entry points",
     "A parameter file is accepted exactly when all required keys are present, and is then passed on "
     "unchanged; a run goes through set-up, run and save once each, under the configured name, and "
     "does nothing when a key is missing. A data file is read as pairs of integer times and values "
     "in the file's order. Run as a program, --params and --data name these files, in any order; "
     "parameters are required, and failures give a non-zero exit status.",
     ["inputs", "configurations"], "every subset of the nine keys; arbitrary contents; three rows of "
     "data", "No test runs the entry point.", ["vgpa_main.py"],
     [("validate_params, main, command line", "vgpa_main.py")],
     "json and csv readers by contract in the symbolic run; witnesses read real files")

prop("C26", "Bounded logarithm and central differences",
     "The bounded logarithm is the logarithm inside [1e-300, 1e300] and the logarithm of the nearest "
     "bound outside, elementwise, for every real input. The finite-difference gradient is exact (up "
     "to rounding) for quadratic functions and of second order for cubic ones, passes extra "
     "arguments on and leaves its argument alone.",
     ["inputs"], "all reals; arrays up to 3 or 2 x 2; all quadratics of 1..3 variables",
     "Tests use single values and one function.", [N + "utilities.py"],
     [("safe_log, finite_diff", N + "utilities.py")], "logarithm uninterpreted")

prop("C27", "Composition of the free energy, independent of history",
     "The free energy is the sum of prior, SDE and observation energies, each evaluated on the "
     "moments the forward sweep gives for the parameters, and the stored moments are those. Values "
     "and gradients do not depend on which points were evaluated before.",
     ["inputs", "histories"], "arbitrary component values, d = 1..3, up to 3 evaluations at "
     "different points; complete OU and DW objectives",
     "No test evaluates the objective; histories are unbounded.", [V + "variational.py"],
     [("free_energy, gradient", V + "variational.py")], "collaborators are arbitrary functions")

prop("C28", "Initial guess of the variational parameters",
     "The initial guess follows the spline through the observations (extended as constants to the "
     "window's ends): linear parameter twice the system noise on the diagonal, and offset the spline "
     "(scalar form) or its slope plus linear parameter times spline (matrix form, zero slope at the "
     "end). It has the size the optimiser needs, can be repeated and leaves the observations alone.",
     ["inputs", "configurations"], "all observations and noises; 5..6 points, 1..3 observations; "
     "d = 1..3", "No test initialises.", [V + "variational.py"],
     [("initialization", V + "variational.py")], "CubicSpline by contract: through the given "
     "points, linear in their values")

prop("C29", "Inputs are left alone and computations repeat",
     "Sweeps, energies, likelihood, prior divergence, utilities, objective and observation leave the "
     "arrays they are given unchanged, and calling them again with the same arguments gives the same "
     "results, even when the caller has overwritten the first ones.",
     ["inputs", "histories"], "all values; 3 time points; scalar form, d = 2 and 3, 10 for the "
     "Lorenz-96 drift; two calls", "Aliasing shows only in sequences of calls no test makes.",
     [V + "fwd_ode.py", V + "bwd_ode.py", V + "gaussian_like.py", V + "prior_kl0.py",
      V + "variational.py", N + "utilities.py", D], [("copies and fresh arrays", "src/")],
     "array aliasing is modelled by running on real numpy object arrays")

prop("C30", "The gradient test passes exactly the right gradients",
     "The optimiser's gradient test reports PASSED exactly when the norm of the difference between "
     "the given gradient and the derivative of the function, divided by the dimension, is within the "
     "tolerance, and FAILED otherwise. It evaluates the gradient with its function and leaves the "
     "tested point alone.",
     ["inputs", "configurations"], "every quadratic function of 1 or 2 variables, every constant "
     "error of its gradient (1 % away from the limit), every tolerance in [1e-4, 1] and the default",
     "No test runs the gradient test; passing one good gradient does not show that bad ones fail.",
     [N + "optim_scg.py", N + "utilities.py"], [("check_gradient_function", N + "optim_scg.py")],
     "the verdict is read from what is printed")

TECH = ("symbolic execution of the Python sources over exact reals; z3 decides every assertion per "
        "path, counterexamples replayed on the real code")

NA = [dict(property=p, reason=r) for p, r in ()]


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=NA,
             notes="Properties of the interface; the checks re-read /repo on every run. "
                   "./run.sh --replay FILE reruns a counterexample on the real code.")
    for p in P:
        m["checks"].append(dict(
            property=p["id"], quick_cmd=f"./run.sh {p['id']}",
            thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",
            evidence_file=f"evidence/{p['id']}.json", technique=p["tech"] or TECH, level="other",
            level_note="Bounded symbolic check: all real inputs within the bounds (" + p["text"]
                       + "). " + p["note"][0].upper() + p["note"][1:]
                       + ". Real arithmetic stands for floating point; numpy linear algebra by "
                         "contract."))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
