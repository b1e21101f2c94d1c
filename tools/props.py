"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))
    NOTES[id] = note or "Random search with a stated oracle: no counterexample found among the generated cases; it does not establish absence."


NOTES = {}

prop("C01", "Radial velocities solve Kepler's problem exactly",
     "For every period > 0, periastron time, argument of periastron, amplitude and eccentricity in [0, 0.99], the velocity returned for an orbit equals K[cos(nu+omega) + e cos(omega)] with nu the true anomaly that solves Kepler's equation, to numerical precision, is periodic in the period, and is the same from the compiled solver and the NumPy fallback. Eccentricities below 0 act as 0 and above 0.99 as 0.99. Every call returns, one velocity per epoch in the order given, and leaves its arguments unchanged.",
     ["inputs"], "every orbit in the stated ranges, any number and order of epochs, both solvers",
     "The tests compare a few orbits at fixed eccentricities; solver errors sit in corners (e near 0.99, M near 0 or 2 pi, e = 0 shortcut, clamps) and in the agreement of two implementations over a continuum.",
     ["radvel/kepler.py", "radvel/orbit.py", "src/kepler.c", "src/_kepler.pyx"],
     [("velocity of one orbit", "radvel/kepler.py rv_drive"), ("NumPy Kepler solver", "radvel/kepler.py kepler"),
      ("compiled solver", "src/kepler.c kepler, rv_drive"), ("true anomaly", "radvel/orbit.py true_anomaly")])

prop("C02", "Transit, eclipse and periastron times are consistent",
     "For every eccentricity in [0, 1) and argument of periastron, converting a transit time to a periastron time and back returns the transit time, and at the computed time of transit (secondary eclipse) the planet is at inferior (superior) conjunction, i.e. true anomaly + omega = pi/2 (3 pi/2). The transit is the conjunction within half a period of periastron and the secondary eclipse is the first one within one period after periastron. Conversions of arrays equal the conversions of their elements and leave the inputs unchanged.",
     ["inputs"], "every orbit with eccentricity below 1, scalars and arrays",
     "Tests convert a couple of scalar orbits; quadrant and wrap errors depend on omega and eccentricity jointly, and the array branch is not exercised.",
     ["radvel/orbit.py"],
     [("tc -> tp", "radvel/orbit.py timetrans_to_timeperi"), ("tp -> tc and eclipse", "radvel/orbit.py timeperi_to_timetrans")])

prop("C03", "Basis conversions describe the same orbits",
     "Converting a set of planets between any of the supported parameterisations, directly or through any chain, yields parameters that describe the same orbits (period, eccentricity, amplitude, omega, conjunction and periastron times modulo the period), with exactly the target basis' planet parameters and every other parameter untouched. Conversions of named parameters, of the parameter vector and of tables of posterior samples agree row by row. A planet parameter that both parameterisations have keeps its free or fixed flag and its step scale, planet by planet; a new one is free. No conversion alters the object it is given, including the basis it is labelled with.",
     ["inputs", "histories"], "any number of planets, any pair or chain of bases, any other parameters present",
     "One test converts one two-planet system to each basis and back; errors that depend on omega's quadrant, planet index, target pair, or repeated conversion of the same object escape.",
     ["radvel/basis.py", "radvel/model.py"],
     [("named conversion", "radvel/basis.py Basis.to_synth, from_synth, to_any_basis"),
      ("vector conversion", "radvel/basis.py Basis.v_to_synth, v_from_synth, v_to_any_basis")])

prop("C04", "The RV model is the sum of its planets and trend",
     "For any number of planets in any fitting basis, the model velocity at any epochs equals the sum of the single-planet Keplerian velocities plus dvdt*(t - time_base) + curv*(t - time_base)^2, with a missing trend term counting as zero. Asking for one planet returns that planet's velocity plus the trend only. Evaluating the model uses the current parameter vector, changes nothing, and a user-supplied forward model gets the same trend added.",
     ["inputs"], "any planets, basis, trend, time base, epochs and planet selection",
     "Tests evaluate the model through a few fixed configurations, mostly one basis and time_base near the data.",
     ["radvel/model.py", "radvel/basis.py", "radvel/kepler.py"],
     [("model evaluation", "radvel/model.py GeneralRVModel.__call__, _standard_rv_calc")])

prop("C05", "Named parameters and parameter vector stay in step",
     "After any sequence of setting parameter values by name or by array, toggling which vary, resynchronising, evaluating, copying and printing, each parameter's row in the vector is the one its name says, the list of free-parameter names, values and vary flags are aligned element by element, and synchronising in either direction transfers every value exactly. Setting the free parameters from an array changes those parameters only, each to its own element, and an array of the wrong length is rejected. The printed table shows these values, flags and priors. No parameter is lost, duplicated or shared between rows, whatever instruments, trend, GP, decorrelation or user-defined parameters the model has.",
     ["histories", "configurations"], "any model configuration, any operation sequence",
     "Tests use a handful of configurations and never interleave these operations; a misaligned index silently fits the wrong parameter.",
     ["radvel/model.py", "radvel/likelihood.py"],
     [("layout", "radvel/model.py Vector.init_index_dict, dict_to_vector, vector_names, vector_to_dict"),
      ("free parameters", "radvel/likelihood.py Likelihood.set_vary_params, get_vary_params, list_vary_params, name_vary_params")],
     state=[("vector.vector", "value, vary, mcmcscale, linear of every parameter, by row"), ("params", "the same by name")])

prop("C06", "The RV likelihood is the Gaussian with jitter in quadrature",
     "For any data set, the log-likelihood is the sum over observations of the normal log-density of the residual with variance (error^2 + jitter^2), where residual = velocity - model - instrument offset - linear decorrelation terms in each mean-subtracted covariate. Residuals and error bars are returned in the order of the data and refer to the current parameters. The value does not depend on the order of the observations, on the sign of the jitter, or on earlier evaluations.",
     ["inputs"], "any data, errors, jitter, offsets, orbit and decorrelation variables",
     "Tests check one data set's value; nothing varies jitter, covariate names or order.",
     ["radvel/likelihood.py"],
     [("likelihood", "radvel/likelihood.py RVLikelihood.logprob, loglike_jitter"),
      ("residuals and decorrelation", "radvel/likelihood.py RVLikelihood.residuals"), ("errors", "radvel/likelihood.py RVLikelihood.errorbars")])

prop("C07", "Analytically marginalised offsets equal the integral over the offset",
     "When an instrument offset is declared linear and not varied, the likelihood equals the integral over that offset, with a flat prior, of the likelihood with the offset as an explicit parameter, and the reported offset is the value that maximises it. This holds for any data, jitter, orbit, trend and decorrelation terms, and separately for each instrument of a combined data set.",
     ["inputs"], "any data set and parameters, one or several instruments",
     "One test compares two fits within loose tolerance; the normalisation and the weights are never checked against the integral.",
     ["radvel/likelihood.py"],
     [("marginalisation", "radvel/likelihood.py RVLikelihood.residuals, logprob")])

prop("C08", "A multi-instrument likelihood is the sum over instruments",
     "The log-likelihood of a combined data set is the sum of the instruments' log-likelihoods, and its residuals, error bars, times, velocities and instrument labels are the concatenation of theirs, aligned observation by observation, whatever the order, number and kind of instruments. Each instrument responds only to its own offset, jitter and GP amplitude among instrument parameters. Combining instruments keeps every instrument's parameters and free GP hyperparameters.",
     ["inputs", "configurations"], "any number, order and mix of plain and GP instruments",
     "Tests have one or two fixed instrument sets; alignment and isolation need varying the set and perturbing one instrument at a time.",
     ["radvel/likelihood.py"],
     [("combination", "radvel/likelihood.py CompositeLikelihood.__init__, logprob, residuals, errorbars")])

prop("C09", "GP kernels have their documented elements and are valid covariances",
     "For every kernel and positive hyperparameters, element ij of the covariance between two sets of times is the documented function of |t_i - t_j|, and measurement errors are added in quadrature on the diagonal of a square matrix and nowhere else. The matrix of a set of times with itself is symmetric and positive semi-definite and does not depend on a common time shift. Hyperparameters are matched to the kernel by name whatever their suffix and order, and a wrong set of hyperparameters is rejected.",
     ["inputs"], "any times, hyperparameters, errors, suffixes",
     "Tests evaluate three kernels at one set of hyperparameters and mostly check for exceptions.",
     ["radvel/gp.py"],
     [("kernels", "radvel/gp.py SqExpKernel, PerKernel, QuasiPerKernel, CeleriteKernel")])

prop("C10", "GP likelihood and prediction are exact Gaussian conditioning",
     "For any data, orbit, offset, jitter and kernel hyperparameters the GP log-likelihood equals the multivariate normal log-density of the residuals under kernel covariance plus (error^2 + jitter^2), and prediction at any times returns the conditional mean and standard deviation. Reported residuals are data minus orbit, offset and predicted mean. Both always reflect the current parameter values, whatever was evaluated or predicted before, including a GP switched off by a zero amplitude.",
     ["inputs", "histories"], "any data, hyperparameters and sequence of evaluations, predictions and updates",
     "Tests compute one likelihood value; stale kernel state after a prediction or a parameter change, and non-square predictions, need sequences.",
     ["radvel/likelihood.py", "radvel/gp.py"],
     [("GP likelihood", "radvel/likelihood.py GPLikelihood.logprob, predict, residuals, update_kernel_params")],
     state=[("kernel.hparams, kernel.dist*", "cached hyperparameters and distances that must follow the parameters")])

prop("C11", "The celerite GP equals the dense GP with the same kernel",
     "For any data in any order, the celerite log-likelihood and prediction equal those of a dense Gaussian process with the documented approximate quasi-periodic kernel. Its data, residuals and error bars stay aligned with its (sorted) times.",
     ["inputs", "histories"], "any times (unsorted included), data and hyperparameters",
     "Tests run one sorted data set and check that the fit ends.",
     ["radvel/likelihood.py", "radvel/gp.py"],
     [("celerite likelihood", "radvel/likelihood.py CeleriteLikelihood.logprob, predict"), ("celerite kernel", "radvel/gp.py CeleriteKernel.compute_covmatrix")])

prop("C12", "Priors are the normalised log-densities they are named for",
     "Every prior returns the log of its documented density at the current parameter value: densities with finite support integrate to one and are minus infinity outside, hard constraints (positive amplitude, eccentricity limits, in every basis and for every planet listed) accept exactly the allowed region, and the eccentricity prior's limits apply to the planets they were given for. A secondary-eclipse prior penalises the predicted eclipse time by its offset, modulo the period, in units of the stated uncertainty. Priors read the parameter they are named for and change nothing.",
     ["inputs", "configurations"], "every prior class, bounds, basis, planet list and parameter value",
     "Tests evaluate a few priors at one or two points; support edges, planet lists and bases are sampled thinly.",
     ["radvel/prior.py", "radvel/orbit.py", "radvel/utils.py"],
     [("priors", "radvel/prior.py all Prior subclasses")])

prop("C13", "Prior transforms are the inverse CDFs of the priors",
     "For every prior with a transform, mapping the unit interval through it gives a non-decreasing function onto the prior's support whose density is the prior's density (for a numerical prior, the histogram of its values, to within a bin). The posterior's transform maps element i of the unit cube through the one proper prior of free parameter i, in the order of the free-parameter names, without changing its input unless asked. Prior sets that do not define exactly one non-constraint prior per free parameter, or that put one on a fixed parameter or on several parameters jointly, are rejected, and all other sets are accepted.",
     ["inputs", "configurations"], "any priors, bounds, order of priors and parameters",
     "Tests sample transforms at random points for a fixed list; the pairing of cube elements with parameters and the acceptance rule need generated prior sets.",
     ["radvel/prior.py", "radvel/posterior.py"],
     [("transforms", "radvel/prior.py *.transform"), ("pairing and validation", "radvel/posterior.py prior_transform, check_proper_priors")])

prop("C14", "The posterior is priors plus likelihood, a function of its argument",
     "The log-posterior equals the sum of the log-priors and the log-likelihood, is minus infinity where a prior forbids the parameters, and as a function of the array of free parameters returns the same value whatever was evaluated before. The nested-sampling likelihood equals the log-likelihood plus the constraint-type priors, always finite-valued when these are violated, and with the remaining priors makes up the posterior. Evaluating never changes fixed parameters, vary flags or the priors.",
     ["inputs", "histories"], "any model, prior set and sequence of evaluations",
     "Tests evaluate the posterior once per configuration; history dependence (cached residuals, kernels, linear offsets) needs sequences.",
     ["radvel/posterior.py", "radvel/likelihood.py"],
     [("posterior", "radvel/posterior.py Posterior.logprob, logprob_array"), ("nested sampling", "radvel/posterior.py likelihood_ns_array, extra_likelihood")])

prop("C15", "Saved posteriors load back identical",
     "Writing a posterior to a file and loading it, or deep-copying it, gives an object with the same parameters (values, vary, scales, linearity, order), basis, planet letters, priors, data and log-posterior at every parameter array, that can go on being used, fitted, saved and loaded again. The copy is independent: changing one of them never changes the other.",
     ["inputs", "histories"], "any configuration: planets, bases, GP and plain instruments, decorrelation, priors",
     "One test pickles one posterior and compares little of it.",
     ["radvel/posterior.py", "radvel/model.py"],
     [("save and load", "radvel/posterior.py Posterior.writeto, load"), ("reconstruction", "radvel/model.py Parameters.__reduce__")])

prop("C16", "Information criteria and model comparison",
     "BIC is k ln n - 2 ln L and AICc is 2k - 2 ln L + 2k(k+1)/(n-k-1), infinite when n - k - 1 <= 0, with k the number of free parameters, n the number of data and ln L the log-probability of the object asked (the likelihood for a posterior's criteria). Model comparison lists, for the requested comparison kinds, exactly the models in which each subset of the free planets, eccentricities, trend terms, jitters or the GP is removed and frozen, each with its own number of free parameters and statistics, and leaves earlier results and the caller's arguments alone.",
     ["inputs", "configurations"], "any data and model with any combination of free planets, eccentricities, trend, jitter and GP",
     "Tests check that the calls return; which parameters a compared model frees and at which values is not examined.",
     ["radvel/likelihood.py", "radvel/fitting.py", "radvel/posterior.py"],
     [("criteria", "radvel/likelihood.py Likelihood.bic, aic"), ("comparison", "radvel/fitting.py model_comp")])

prop("C17", "A fit never worsens the posterior and moves only free parameters",
     "Maximum a posteriori fitting returns a posterior whose log-probability is at least that of its starting point, with finite start, and whose fixed parameters, vary flags, data and priors are unchanged. Afterwards named parameters, vector, log-probability and printed values all refer to the same point. On a well-posed problem, linear or with several planets and started within a few standard deviations of the optimum of noiseless data, it finds the optimum.",
     ["inputs"], "any starting point, set of free parameters, data and method",
     "Tests fit fixed examples from good starts and check that nothing raises.",
     ["radvel/fitting.py", "radvel/posterior.py"],
     [("fit", "radvel/fitting.py maxlike_fitting")])

prop("C18", "MCMC chains pair each sample with its posterior value",
     "Every row of the chain returned by MCMC holds values of exactly the free parameters, by name, and the log-posterior of those values, for any number of ensembles, walkers, runs, thinning and burn-in settings, and without burn-in and early stop as many steps as were asked for, rounded to whole check intervals (at least one). Saved raw chains are the samples returned; resuming from them, even into the file being read, continues with the same samples first, for every ensemble, from where each ended. A run that does not fit the saved one is refused. The posterior passed in keeps its values, fixed parameters, vary flags and priors.",
     ["histories", "configurations"], "any model, ensembles, walkers, steps, thinning, save/resume history",
     "Tests run one short chain and check that it ends; column pairing and resume content are not verified.",
     ["radvel/mcmc.py"],
     [("sampling", "radvel/mcmc.py mcmc, _domcmc"), ("save and resume", "radvel/mcmc.py convergence_check and h5 files")])

prop("C19", "Convergence diagnostics are the textbook statistics",
     "For any set of chains, the Gelman-Rubin statistic, the number of independent draws (T_z = steps x chains x min(var/B, 1), one per parameter) and the autocorrelation times of the joined chains equal their definitions; the first two do not depend on the order of the chains or on shifting and scaling a parameter. Convergence is declared exactly when all thresholds are met (a single ensemble has no T_z to meet). A run stops at the second consecutive check that declares it, and discards exactly the steps up to the check at which the burn-in criterion is first met. Chains of a single sample are rejected, and parameters that never moved are not converged.",
     ["inputs"], "any chains: number, length, parameters, thresholds",
     "Tests run the statistic inside one MCMC run without comparing values.",
     ["radvel/mcmc.py"],
     [("Gelman-Rubin", "radvel/mcmc.py convergence_calculate"), ("declaration", "radvel/mcmc.py convergence_check")])

prop("C20", "Nested-sampling results are stored, resumed and returned intact",
     "For every nested sampler, the returned samples are equally weighted draws with one named column per free parameter in order and a lnprobability that is the log-posterior of exactly that sample, the evidence is that of the posterior within the sampler's accuracy, and loading saved results gives the same samples, evidence and error as were returned. The posterior is left where it was. Options given by the caller reach the sampler and are never modified, so the same options can be used again; existing output is refused, overwritten or resumed exactly as asked. Improper priors are refused before sampling.",
     ["histories", "configurations"], "any posterior, sampler, option dictionaries, output directory state and sequence of runs",
     "Tests run each sampler once on one problem; repeated calls with the same options and directory histories are not covered.",
     ["radvel/nested_sampling.py", "radvel/posterior.py"],
     [("run", "radvel/nested_sampling.py run, _run_*"), ("load", "radvel/nested_sampling.py load_results")])

prop("C21", "The run-status file remembers the pipeline exactly",
     "After any sequence of pipeline steps and status updates, the status file of a run contains for every step the latest recorded entries and nothing of other runs, and loading it after a restart gives the same information. Steps that need an earlier step refuse to run without it, and repeating a step replaces its own record only.",
     ["histories"], "any order and repetition of steps and status updates, any values",
     "Tests run the pipeline in one order.",
     ["radvel/driver.py"],
     [("status", "radvel/driver.py save_status, load_status"), ("steps", "radvel/driver.py fit, mcmc, nested_sampling, derive, ic_compare, tables, report")],
     state=[("<run>_radvel.stat", "sections per step with run flag and file names")])

prop("C22", "Derived physical parameters follow the laws of orbital mechanics",
     "For any orbit and stellar mass, the minimum mass computed from the amplitude reproduces that amplitude: through the exact two-body relation for heavy companions, through its light-companion limit (planet mass neglected against the star's) as long as the result is below a tenth of the stellar mass. Amplitude-mass conversions are mutual inverses in the regime they state, the semi-major axis obeys Kepler's third law with total mass, and the density is mass over volume. All functions work alike on scalars and arrays and in each supported unit.",
     ["inputs"], "any period, amplitude, eccentricity, stellar and planet mass and radius, scalars and arrays",
     "The existing tests never call these functions except through the derive step on two example systems, without looking at the numbers.",
     ["radvel/utils.py"],
     [("masses and amplitudes", "radvel/utils.py Msini, semi_amplitude"), ("axis and density", "radvel/utils.py semi_major_axis, density")])

prop("C23", "Binning conserves the data",
     "Time binning, starting a bin at the earliest observation not yet binned, assigns every observation to exactly one bin; no bin spans more than the bin width or mixes instruments, and each bin's time, velocity and error are the inverse-variance weighted means and error of its members, so that total weight and weighted sums are conserved, whatever the order of the data and however small or large the width (a width of zero merges only simultaneous observations). Equal-width binning for figures returns the mean and its standard error for every bin with at least three points and a positive centre. Inputs are unchanged.",
     ["inputs"], "any times, velocities, errors, instruments, widths and orders",
     "Tests bin one data set and look at the length.",
     ["radvel/utils.py"],
     [("binning", "radvel/utils.py timebin, bintels, fastbin")])

prop("C24", "Summary values and their uncertainties are rounded consistently",
     "Central value and uncertainties derived from samples are the stated percentiles, for ordinary and for angular quantities (independent of where the wrap lies), and the rounding functions keep the requested significant figures, and a value printed with its (already rounded) errors keeps the decimals of the more precise error, is never moved by more than half a unit of its last kept place and does not vanish next to errors given with two or more decimals. Angular quantities are those spread over less than 80 degrees, given between -pi and pi. Durations are printed in the largest fitting unit. Inputs are unchanged.",
     ["inputs"], "any samples, magnitudes, signs and number of figures",
     "Tests format a few numbers.",
     ["radvel/utils.py"],
     [("rounding", "radvel/utils.py sigfig, round_sig, time_print"), ("percentiles", "radvel/utils.py geterr")])

prop("C25", "Phases and dates convert exactly",
     "Orbital phase computed from times and an orbit is the fraction of a period since conjunction (since periastron in bases that carry the time of periastron), between 0 and 1, periodic in the period, the same from named parameters and from the vector and in every basis with that reference time; calendar dates and Julian dates convert into each other without loss beyond the resolution of a floating-point Julian date.",
     ["inputs"], "any orbit, basis, times and dates",
     "Tests convert one date and fold one data set.",
     ["radvel/utils.py"],
     [("phase", "radvel/utils.py t_to_phase, t_to_phase_vector"), ("dates", "radvel/utils.py date2jd, jd2date")])

prop("C26", "A configuration maps every datum and parameter to its instrument",
     "Building a posterior from a setup configuration gives each instrument exactly its own observations with its own offset, jitter and decorrelation parameters, keeps all parameter values, vary flags, scales and priors, and makes the log-posterior independent of the order of rows and instruments. Decorrelation variables are taken from the named columns; jitters given in log form are converted. Gaussian-process instruments get the kernel and hyperparameters named for them (for all instruments of a file, or for none). The configuration itself can be used again with the same result.",
     ["inputs", "configurations"], "any instruments, interleaved data, decorrelation variables, bases and priors",
     "Tests load the example configurations only.",
     ["radvel/utils.py", "radvel/driver.py"],
     [("configuration", "radvel/utils.py initialize_posterior")])

prop("C27", "Report tables print exactly the run's data and results",
     "The velocity table has one row per observation with its own time, velocity, error and instrument; the parameter table lists every orbital element of the announced basis, offset, trend, jitter and noise hyperparameter once, with the credible interval of the samples and the best-fit value of the run, fixed parameters as fixed; derived quantities are listed under their own planet; the comparison table lists the compared models ordered by AICc with the correct differences; and the prior list has one entry per prior. Every cell is well-formed LaTeX whatever the names of instruments, planets and parameters. Producing a table or a report changes neither the posterior, nor the chains, nor the caller's working directory.",
     ["inputs", "configurations"], "any data, parameters, chains and comparison results",
     "Tests only check that the tables are produced.",
     ["radvel/report.py"],
     [("tables", "radvel/report.py TexTable.tab_rv, tab_params, tab_comparison, tab_prior_summary, RadvelReport")])

prop("C28", "Pipeline steps transform results row by row and honour their options",
     "The derive step computes each derived quantity from the same posterior sample of orbit and star, for every planet and basis, and stores them under the planet's own name; after sampling, the summary and the updated best fit come from the chains that were saved. Command-line options, including free-form sampler options, reach the step with the value and type that was typed, the sampler used is the one requested or the only one run, and fixing the jitter really fixes it.",
     ["configurations", "inputs", "histories"], "any command line, sampler history, chains and stellar parameters",
     "Tests run the default command lines on two systems.",
     ["radvel/driver.py", "radvel/cli.py"],
     [("derive", "radvel/driver.py derive"), ("options", "radvel/cli.py main; radvel/driver.py _process_kwargs_str, _pick_sampler"), ("comparison", "radvel/driver.py ic_compare")])

prop("C29", "Posterior draws of the model are the models of the samples",
     "Drawing models from a chain returns, for each drawn sample, the model evaluated at that sample's parameter values at the requested times, for any free parameters and basis, drawing only from the rows of the chain and leaving the original model, parameters and chain unchanged.",
     ["inputs", "histories"], "any chain, model and times",
     "The test only checks the shape of the result.",
     ["radvel/utils.py", "radvel/model.py"],
     [("draws", "radvel/utils.py draw_models_from_chain; radvel/model.py array_to_params")])

prop("C30", "Plots show the data they are given",
     "In the multipanel figures (whole, or panel by panel, drawn any number of times) every observation of every instrument appears in the time-series, residual and phase panels with its own error bar (including jitter); residuals are data minus the whole model, the time series shows residuals plus the model that is drawn, GP mean and uncertainty band included; phase-folded points are at their orbital phase with the other planets, trend and GP removed, over that planet's curve and its printed parameters; curves span the visible axis; labels, RMS, bins and limits are those of the data and options. Figures of chains show the samples of each parameter under its label, walker by walker. Making a figure does not change the posterior, its data, the options or the chains.",
     ["inputs", "configurations"], "any instruments, planets, bases, trends and GP models",
     "Tests only check that a file is written.",
     ["radvel/plot/orbit_plots.py", "radvel/plot/mcmc_plots.py"],
     [("figure", "radvel/plot/orbit_plots.py MultipanelPlot, GPMultipanelPlot"), ("mcmc figures", "radvel/plot/mcmc_plots.py")])

TECH = {}
NA = {}


def main():
    import importlib.util
    checks, na = [], []
    for p in P:
        i = p["id"]
        path = os.path.join(HERE, "checks", i + ".py")
        if os.path.exists(path):
            checks.append(dict(property=i, quick_cmd="bash run.sh %s quick" % i,
                               thorough_cmd="bash run.sh %s thorough" % i,
                               technique=TECH.get(i, "property-based testing (Hypothesis) against a reference model"),
                               level="exploration", level_note=NOTES[i]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            fh.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="bash run.sh --setup", checks=checks, not_applicable=na,
             notes="Property-based testing with Hypothesis; see DESIGN.md. Each check bootstraps itself and rebuilds the C extension from /repo.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
