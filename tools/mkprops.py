"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
NS, SA, CP, PR, MO, PA, N2 = ("cpnest/NestedSampling.py", "cpnest/sampler.py", "cpnest/cpnest.py", "cpnest/proposal.py",
                              "cpnest/model.py", "cpnest/parameter.pyx", "cpnest/nest2pos.py")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Replacements beat the likelihood threshold; the chain is sorted",
 "Every point that replaces discarded live points has a log-likelihood strictly above that of every point discarded in its batch, and the points discarded are always the lowest-likelihood live points. "
 "Consequently the chain of nested samples a run returns (and writes) is in non-decreasing log-likelihood order, and the shared likelihood threshold the samplers see never decreases while a run is going on, except back to the last completed iteration when a checkpoint signal undoes the one in progress. "
 "This holds however the sampler processes are scheduled, however stale the samples they deliver are, and across a checkpoint and resume.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "all interleavings of the nested sampler and any number and mix of samplers, stalls, stale answers, models, run sizes, interrupts and resumes",
 "The stable tests run one MH configuration under whatever schedule the machine gives and assert nothing about the chain.",
 [NS, SA], [("threshold test on every received candidate", "NestedSampler.consume_sample"), ("ordered live points", "OrderedLivePoints"), ("threshold published before requests are sent", "NestedSampler.get_worst_n_live_points")],
 [("logLmin", "shared likelihood threshold", "RunManager.logLmin"), ("params", "live points, ordered", "NestedSampler.params")],
 ["values written to the shared threshold", "messages received by the nested sampler", "NS.nested_samples", "chain file"])

prop("C02", "No live point is lost, duplicated or invented",
 "When a run completes, its nested samples are exactly the initial live points plus every candidate accepted from a sampler, each exactly once: their number is the number of points consumed plus nlive. "
 "Every candidate taken from a sampler that beats the current threshold enters the live points once, every other one is dropped and asked for again, and no candidate is used twice. "
 "The same is true of a run that was interrupted and resumed any number of times, counted from the state it was resumed from.",
 ["schedules", "fault_sequences", "crash_points", "configurations"],
 "all interleavings, backlogs of unread answers, rejected candidates, and interrupts/crashes at any point followed by resume",
 "Tests never look at the set of samples, and never interrupt or resume a run.",
 [NS, CP], [("request/answer accounting per pipe", "NestedSampler.consume_sample, NestedSampler.reset"), ("saving and restoring the live points", "NestedSampler.checkpoint, NestedSampler.resume")],
 [("nested_samples", "points consumed so far", "NestedSampler"), ("params", "live points", "NestedSampler")],
 ["messages between nested sampler and samplers", "NS.nested_samples", "chain file"])

prop("C03", "Every sample carries its own likelihood and prior and lies in the prior",
 "Every sample in the nested, posterior and live sets lies inside the prior bounds, has finite log-prior, and carries exactly the log-likelihood and log-prior that the user's model gives for its parameter values. The same holds for every sample a sampler process delivers, unless it is marked as never evaluated (log-likelihood and log-prior both minus infinity). "
 "A point whose log-likelihood is NaN or minus infinity, or whose log-prior is minus infinity, never becomes a live point. "
 "This holds for every sampler type, across process boundaries, and across checkpoint and resume.",
 ["schedules", "inputs", "histories", "fault_sequences"],
 "all sampler types and mixes, models with -inf and NaN likelihood regions and non-uniform priors, all schedules, interrupts and resumes",
 "No test checks any delivered sample, and slice and Hamiltonian samplers are exercised by no stable test.",
 [SA, PR, PA, NS, MO], [("copy before proposing", "MetropolisHastingsSampler/SliceSampler/HamiltonianMonteCarloSampler.yield_sample"), ("pickling of live points", "LivePoint.__reduce__/__setstate__"), ("validity test of initial points", "NestedSampler.reset")],
 [("evolution_points", "pool each sampler evolves", "Sampler")], ["answers sent by samplers", "NS.nested_samples", "posterior_samples"])

prop("C04", "The reported evidence is the integral of the recorded chain",
 "The log-evidence a completed run reports (object and evidence file) is the trapezoidal integral of the recorded likelihoods over prior volume, where each batch of n points replaced out of nlive shrinks the log-volume by n/nlive and the i-th of the remaining live points (from 0) shrinks it by 1/(nlive-i). "
 "The information is finite and is the relative-entropy estimate of that same sequence. "
 "No schedule, rejection history, interrupt or resume may make a point count twice, not at all, or with another point's volume.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all interleavings, rejection histories, thread counts, and interrupt/resume histories (also resuming with another number of threads)",
 "The stable tests assert nothing about logZ; the excluded ones check 2 sigma for one configuration and no interrupted run.",
 [NS, N2], [("incremental integrator", "_NSintegralState.increment"), ("final trapezoidal estimate", "_NSintegralState.finalise"), ("final live point contribution", "NestedSampler.nested_sampling_loop")],
 [("state", "integrator state", "NestedSampler.state")], ["NS.logZ", "NS.state.info", "evidence file"])

prop("C05", "Evidence and posterior are statistically correct whatever the schedule",
 "For a model with known evidence, the error of the reported log-evidence is, on average over runs, that of an ideal nested sampler with the same nlive and batch size fed with independent exact draws (zero, up to the known approximation of replacing nthreads points at a time), with scatter of the size sqrt(H/nlive), and the posterior samples follow the true posterior. "
 "This holds for every sampler type mix (Metropolis-Hastings, slice), number of threads, relative sampler speed and schedule, and for runs that were interrupted and resumed, also when another number of live points is given on resuming (the run goes on with the number it was started with).",
 ["schedules", "configurations", "fault_sequences", "inputs"],
 "random streams, interleavings, relative sampler speeds, thread counts, models with analytic evidence, interrupts and resumes",
 "Single-run 2-sigma tests fail by chance on right code and cannot see a bias; they never vary the schedule or interrupt a run.",
 [NS, SA, PR, N2], [("likelihood-constrained evolution", "Sampler.yield_sample"), ("round-robin collection", "NestedSampler.consume_sample"), ("posterior weighting", "nest2pos.draw_posterior_many")],
 (), ["NS.logZ", "posterior_samples"])

prop("C06", "Sampling stops when, and only when, the remaining evidence is within tolerance",
 "A run leaves the sampling loop only if, when its last batch began, the evidence the remaining prior volume could still hold - the highest likelihood any sampler or live point has shown so far times the remaining prior volume - would have changed the log-evidence by no more than the stopping tolerance. "
 "It does not go on sampling for more than a couple of batches after the bound computed from the best likelihood found anywhere has fallen to the tolerance. "
 "Lost or late updates of the best likelihood by concurrent samplers must not make it stop early, nor may a checkpoint and resume.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of samplers' updates of the best likelihood with the stopping test, and resumes",
 "Needs a particular interleaving of two samplers' updates; tests do not look at when a run stops.",
 [NS, SA], [("stopping condition", "NestedSampler.consume_sample, NestedSampler.nested_sampling_loop"), ("best-likelihood update", "Sampler.yield_sample")],
 [("logLmax", "best likelihood found by any sampler", "RunManager.logLmax")], ["parent messages", "shared best likelihood", "NS.iteration"])

prop("C07", "Every run terminates: no deadlock, no livelock, no stuck sampler",
 "Under any fair scheduling of the processes a run whose likelihood has no plateaus comes to an end: every request to a sampler is answered, the nested sampler never waits for an answer it has not asked for, and once the run is over every sampler process, of every type, exits with status 0. "
 "This includes models whose likelihood is minus infinity or NaN in parts of the prior, any number of live points greater than the number of samplers, and prior-sampling runs. (Not meant: a sampler that answers every request, but whose pool or MCMC limit is too small to find a point above the threshold, and a Hamiltonian sampler still searching for an acceptable trajectory.)",
 ["schedules", "inputs", "configurations"],
 "all fair interleavings including stalls and very slow samplers, models with -inf/NaN regions, nlive not a multiple of nthreads, all sampler types and mixes",
 "Deadlocks need a rejected initial point or a shutdown landing in a window of microseconds; two smoke tests cannot schedule that.",
 [NS, SA, CP], [("initial population", "NestedSampler.reset"), ("shutdown by threshold=inf and None", "NestedSampler.nested_sampling_loop, Sampler._produce_sample"), ("join", "CPNest.run")],
 (), ["process exit status", "progress of the nested sampler"])

prop("C08", "The best likelihood is never forgotten",
 "The shared best log-likelihood never decreases during a run, is never below the log-likelihood of any sample a sampler has delivered to the nested sampler and that entered the live points, and is never above the best value the likelihood function has returned. "
 "The value reported in the evidence file is therefore at least the highest log-likelihood in the chain, and a resumed run starts from at least the saved value.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of concurrent updates by any mix of samplers, and resumes",
 "A lost update needs two samplers to interleave inside a read-modify-write; tests never compare the value with the chain.",
 [SA, NS, CP], [("update of shared maximum", "yield_sample of each sampler"), ("restoring the maximum", "NestedSampler.resume")],
 [("logLmax", "shared best log-likelihood", "RunManager.logLmax")], ["values written to the shared best likelihood", "evidence file"])

prop("C09", "Samplers target the prior restricted to likelihoods above the threshold",
 "Given points drawn from the prior above a likelihood threshold, the samples a Metropolis-Hastings or slice sampler delivers for that threshold are distributed as the prior above that threshold, in any dimension, for uniform and non-uniform priors, with every default proposal. "
 "In particular proposals never alter the pool points they are built from, and acceptance accounts for the prior ratio and the proposal's Jacobian.",
 ["inputs", "schedules", "histories"],
 "random streams, dimensions, priors, thresholds, pool sizes, and how much unrequested sampling happens between requests",
 "Tests check at best one evidence value within 2 sigma; a wrong Jacobian or prior ratio shifts it by less.",
 [SA, PR], [("Metropolis-Hastings rule", "MetropolisHastingsSampler.yield_sample"), ("slice shrinkage", "SliceSampler.yield_sample"), ("Jacobian of the stretch move", "EnsembleStretch.get_sample")],
 (), ["answers sent by the sampler process"])

prop("C10", "A checkpoint signal stops the whole run promptly, leaving a resumable state",
 "In a resumable run, when one of the handled signals (SIGINT, SIGTERM, SIGALRM, SIGQUIT, SIGUSR1, SIGUSR2) reaches the main process, or every process of the run, at any time from the moment run() has installed its handlers until its results are written, all processes of the run come to an end within a bounded number of steps, and the main process exits with status 130. "
 "If the signal arrives while points are being replaced, the nested sampler's state and every sampler's state have been saved by then, so that none of the work done up to the last completed iteration is lost.",
 ["crash_points", "schedules", "fault_sequences"],
 "the signal, its recipients, and the exact instruction or blocking call at which it arrives in each process; schedules",
 "No test sends a signal or sets resume.",
 [CP, NS, SA], [("signal handler raising CheckPoint", "cpnest.sighandler"), ("checkpoint message and flag", "NestedSampler.nested_sampling_loop, CPNest.checkpoint, Sampler._produce_sample")],
 [("checkpoint_flag", "asks samplers to checkpoint and stop", "RunManager")], ["exit codes", "checkpoint files"])

prop("C11", "Resuming continues exactly from a completed iteration",
 "A run resumed from a checkpoint, taken periodically or by a signal arriving at any instant, starts from the state after some completed iteration: nlive distinct live-point entries, the nested samples consumed until then, and the matching evidence, information, threshold, best likelihood, iteration count and insertion ranks. "
 "It then runs to completion as if it had not been interrupted, also with another number of sampler processes, and also when its output folder has been moved or is a copy: everything the resumed run writes goes to the folder it was given. With resume off, leftover checkpoint files have no influence.",
 ["crash_points", "schedules", "histories", "configurations"],
 "the instant of the interrupt, repeated interrupts, the schedule, and the configuration resumed with",
 "No test resumes a run.",
 [NS, CP], [("saving state", "NestedSampler.checkpoint, NestedSampler.__getstate__"), ("restoring state", "NestedSampler.resume"), ("interrupting an iteration", "NestedSampler.nested_sampling_loop, NestedSampler.consume_sample")],
 (), ["NS state after construction with resume=True", "results of the resumed run"])

prop("C12", "A crash or full disk during a checkpoint never destroys the previous one",
 "If the run is killed, the machine's disk fills up or a second signal arrives at any point while a checkpoint of the nested sampler or of a sampler is being written, the checkpoint file on disk is afterwards either the complete previous one or the complete new one, never truncated or mixed. "
 "Resuming therefore always succeeds, and once a checkpoint has been completed the run never falls back to an earlier state than that one.",
 ["crash_points", "fault_sequences", "schedules"],
 "kill at any file operation or byte of a checkpoint write, write errors, repeated signals, any process, any schedule",
 "No test crashes or resumes a run or injects an I/O error.",
 [NS, SA], [("writing the checkpoint file", "NestedSampler.checkpoint, Sampler.checkpoint"), ("reading it", "NestedSampler.resume, Sampler.resume")],
 (), ["checkpoint files after the crash", "construction with resume=True"])

prop("C13", "Periodic checkpoints bound the work a crash can lose",
 "With a periodic checkpoint interval of T seconds, whenever more than T seconds have passed since the nested sampler's last checkpoint (or the start) at the end of an iteration, a checkpoint is written there; each sampler likewise saves its state between samples. "
 "A run killed at any instant therefore loses at most the work of T seconds plus the iteration in progress. Without an interval no periodic checkpoint is ever written, and forward clock jumps only make a checkpoint come early.",
 ["crash_points", "schedules", "configurations", "fault_sequences"],
 "the kill time, intervals, simulated clock speed and forward jumps, sampler speeds and schedules",
 "No test sets an interval; real time would make it slow and unrepeatable.",
 [NS, SA, CP], [("interval test", "NestedSampler.nested_sampling_loop, Sampler._produce_sample"), ("interval configuration", "CPNest.__init__, RunManager")],
 [("last_checkpoint_time", "time of last checkpoint", "NestedSampler, Sampler")], ["checkpoint files", "state after resume"])

prop("C14", "Every sampler has its own checkpoint and resumes as itself",
 "In a run with any mix of Metropolis-Hastings, slice and Hamiltonian samplers, each sampler process saves its state to a file of its own and can do so, and a resumed run has the same number of samplers of each type, each continuing from the state saved by the sampler of that type and number: its pool of points, ensemble and step-size tuning. "
 "Resumed samplers use the model given to the resumed run.",
 ["configurations", "histories", "schedules"],
 "all mixes and numbers of samplers, number of checkpoints taken, interrupts at any point, schedules",
 "No test mixes samplers or resumes.",
 [CP, SA, PR], [("file names", "CPNest.__init__"), ("saving and restoring", "Sampler.checkpoint, Sampler.resume, Sampler.__getstate__"), ("proposal state", "HamiltonianProposal")],
 (), ["checkpoint files", "sampler objects run by the resumed processes"])

prop("C15", "Samplers use independent random streams",
 "No two sampler processes of a run draw the same stream of pseudo-random numbers, neither in a fresh run nor in a resumed one, whatever the mix of samplers.",
 ["configurations", "histories", "schedules"],
 "all mixes and numbers of samplers, seeds, fresh and resumed runs",
 "Identical streams give plausible results; no test compares what the samplers draw, and none resumes.",
 [SA, CP], [("seeding per sampler", "CPNest.__init__, Sampler.reset"), ("seeding on resume", "Sampler._produce_sample")],
 (), ["random draws of each sampler process"])

prop("C16", "Insertion ranks are exact",
 "For every point that replaces a discarded one, exactly one insertion index is recorded, in order of insertion; it is the point's rank among the surviving live points at that moment divided by their number, hence between 0 and 1. "
 "The record covers the whole run, across rejections, several samplers per batch, backlogs, and interrupts and resumes; where samples are saved, the file of insertion indices holds it.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings, thread counts, rejection histories, interrupts and resumes",
 "No test looks at the insertion indices.",
 [NS], [("index computation", "NestedSampler.consume_sample"), ("ordered insertion", "KeyOrderedList.add")],
 [("insertion_indices", "normalised ranks", "NestedSampler")], ["NS.insertion_indices", "insertion_indices.dat"])

prop("C17", "Files and returned arrays agree with the run",
 "After run(), the chain file, the nested-sample array and file, and the posterior array and file describe the same run: the chain file has a header and one row per nested sample in order with the exact parameter values, the nested-sample array carries parameters, log-likelihood and log-prior of each, and every posterior sample is one of the nested samples, none used twice. "
 "At the verbosity that saves sampler chains, prior and MCMC samples returned to the user are drawn from what every sampler process saved, each process contributing, at any order of process exit. What an earlier run left in the folder when it was killed does not get into the results of a run that does not resume it.",
 ["schedules", "configurations", "histories"],
 "verbosity levels, sampler mixes and numbers, order in which sampler processes finish, interrupted and resumed runs",
 "The verbosity test only checks that nothing raises.",
 [CP, NS, MO, PA, SA, N2], [("chain and evidence output", "NestedSampler.write_chain_to_file/write_evidence_to_file"), ("sample arrays", "CPNest.get_nested_samples/get_posterior_samples/get_prior_samples/get_mcmc_samples"), ("record conversion", "LivePoint.asnparray")],
 (), ["output directory", "posterior_samples, nested_samples, prior_samples, mcmc_samples"])

prop("C18", "Prior sampling yields draws from the prior and ends cleanly",
 "A run in prior-sampling mode returns exactly nlive samples as nested samples plus the prior samples each sampler process saved, all distributed according to the prior irrespective of the (finite) likelihood values, and stops all samplers. "
 "It holds for every schedule and number of samplers.",
 ["schedules", "configurations", "inputs"],
 "schedules, thread counts, nlive, priors (uniform or not), files left by a killed run",
 "No test uses prior sampling.",
 [NS, SA, CP], [("early exit of the loop", "NestedSampler.nested_sampling_loop"), ("saving prior samples", "Sampler.reset"), ("collecting them", "CPNest.get_prior_samples")],
 (), ["NS.nested_samples", "prior_samples"])

prop("C19", "Work per request is bounded by the MCMC limit",
 "A Metropolis-Hastings sampler answers a request after at most maxmcmc proposals, at least one of them accepted unless the limit was reached, and reports with the sample the number of proposals made and an acceptance fraction between 0 and 1; a slice sampler makes at most maxmcmc+1 slice moves. "
 "The pool of points a sampler evolves keeps its size while this goes on, whatever is interleaved with it.",
 ["schedules", "inputs", "configurations"],
 "thresholds (also unreachable ones), models, MCMC limits, pool sizes, stale requests and schedules",
 "Tests never look at the number of proposals or the pool, and need unreachable thresholds to meet the limit.",
 [SA], [("loop limits", "yield_sample of each sampler"), ("length estimate", "Sampler.estimate_nmcmc, Sampler.estimate_nmcmc_on_the_fly")],
 [("evolution_points", "pool of points", "Sampler")], ["calls of the user's model per request", "answers sent by samplers"])

prop("C20", "Runs in one process do not disturb each other",
 "Several runs constructed and executed in one process each use their own samplers, channels, thresholds and files, and give results that satisfy the same guarantees as a single run. "
 "Logging to a run's log file ends with the run, also when it ends by a checkpoint signal.",
 ["schedules", "histories", "fault_sequences"],
 "order of construction and execution, schedules, signals",
 "The verbosity test runs four one after another and only checks that nothing raises.",
 [CP, "cpnest/utils.py"], [("per-run manager", "RunManager"), ("log file context", "utils.LogFile")],
 (), ["results of both runs", "log handlers left behind"])

prop("C21", "Combining several finished runs weights them by evidence",
 "Posterior samples drawn from several finished runs together (nest2pos.draw_posterior_many) are nested samples of those runs, none used twice; when a number of samples is asked for (nest2pos.draw_N_posterior_many) about that many are drawn, of which some may be repeated; for runs of one model, whose likelihoods may differ by a constant factor, the numbers drawn from the runs are in proportion to the runs' evidences, whatever their numbers of live points and samplers, and the combined samples follow its posterior.",
 ["histories", "configurations", "inputs"], "sets of finished runs with different numbers of live points, samplers and evidences, each under a schedule of its own",
 "No test combines runs; the proportions only show over many of them.", [N2], [("weights", "nest2pos.compute_weights, nest2pos.draw_posterior_many, nest2pos.draw_N_posterior_many")],
 (), ["combined samples of runs that took place in one process"])

prop("C22", "Live-point arithmetic and coordinate mappings are exact",
 "Arithmetic on live points acts component-wise on parameter values, keyed access reaches the named parameter, and mapping to and from normalised coordinates are inverse to each other.",
 ["inputs"], "all parameter vectors, names and bounds",
 "Tests use them only implicitly.", [PA, MO], [("operators", "LivePoint.__add__ and others"), ("mappings", "Model.from_normalised, Model.to_normalised")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
