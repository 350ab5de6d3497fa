"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, pathlib

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe,
            hook_needed=hook,
        ),
    ))

LOADER = "torchiva/loader.py"
SEP = "torchiva/separate.py"
ALGOS = ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py",
         "torchiva/wpe.py", "torchiva/beamformer.py", "torchiva/nn.py", "torchiva/stft.py", "torchiva/base.py"]

# ------------------------------------------------------------------ pre-trained models
prop("C01", "A model loaded from a URL is exactly the published one, or the load raises",
     "Whatever network errors, dropped or truncated transfers, HTTP error answers, disk errors and process crashes "
     "happen before or during it, and however many threads or processes load at the same time, a call that loads a "
     "separator from a URL either raises or returns a separator whose weights and configuration are exactly those of "
     "the two files published under that URL, with the caller's overrides applied. It never returns a separator built "
     "from partial, stale-mixed or freshly initialised weights.",
     ["fault_sequences", "crash_points", "schedules", "histories"],
     "every sequence of transfer faults (refused, reset, truncated, HTTP error, redirect), file-system errors (ENOSPC, EIO, "
     "EACCES) and process crashes at any I/O step, for any number of concurrent callers and any interleaving of their I/O; "
     "the server announces body lengths and does not change the published pair before the first success",
     "No stable test reaches a successful download at all (no network, no weights); the two URL tests only ever see one "
     "undisturbed sequential download.",
     [LOADER, "torchiva/nn.py", "torchiva/utils.py"],
     [("per-file download into the cache, then load from the cache", LOADER + ": get_model_from_url"),
      ("strict load of all weights", LOADER + ": load_separator_model")],
     ["return value or exception of torchiva.load_separator(url)", "weights, configuration and output of the returned separator"],
     [("model cache", "downloaded weight and config files, one folder per model", "$HOME/.torchiva_models")])

prop("C02", "Failed or interrupted downloads never make a model unloadable",
     "After any sequence of failed, interrupted or crashed attempts to load a model from a URL, concurrent attempts "
     "included, the next load of that URL made when network and disk work again succeeds, without manual clean-up and "
     "with at most a handful of HTTP requests.",
     ["fault_sequences", "crash_points", "schedules"],
     "every prefix of failed or killed attempts (any fault, any I/O step, any interleaving of concurrent callers), followed by one healthy load",
     "Tests never make a download fail half-way; the poisoned state needs a fault at one specific point followed by a second load.",
     [LOADER],
     [("existence test on the cached file decides whether to download again", LOADER + ": get_model_from_url")],
     ["success of the first healthy torchiva.load_separator(url) after the faults", "number of HTTP requests it issues"],
     [("model cache", "what earlier attempts left behind", "$HOME/.torchiva_models")])

prop("C03", "A model loaded once stays loadable offline and does not change",
     "Once a load from a URL has succeeded, every later load of that URL by the same user succeeds without any network "
     "request and yields the same weights and configuration, no matter how much time passes, whether the server is "
     "unreachable or now publishes something else, and whatever other loads (with overrides, of other URLs, failed or "
     "crashed) happen in between.",
     ["histories", "fault_sequences", "crash_points"],
     "every history of loads, overrides, origin changes, outages, clock jumps and crashed later loads after a first success",
     "The one test that loads a URL twice needs the network and checks neither that the second load is offline nor what it returns.",
     [LOADER],
     [("cached files are reused when present", LOADER + ": get_model_from_url"),
      ("overrides are merged into an in-memory copy of the config", LOADER + ": load_separator_model")],
     ["HTTP requests issued by torchiva.load_separator(url)", "weights and configuration returned"])

prop("C04", "Models published under different URLs are never mixed up",
     "Loading a model from one URL never returns or alters the model of another URL, in whatever order or interleaving "
     "several URLs are loaded, and even when the URLs share their host or their last path component.",
     ["histories", "schedules", "inputs"],
     "every sequence and interleaving of loads over sets of distinct URLs, with faults and crashes between them",
     "Tests use a single URL.",
     [LOADER],
     [("cache location derived from the URL", LOADER + ": get_model_from_url")],
     ["weights and configuration of the separators returned for each URL"],
     [("model cache", "one folder per URL", "$HOME/.torchiva_models")])

prop("C05", "Loading from local files is exact or raises, and leaves the files alone",
     "Loading a separator from a local folder or from an explicit pair of files returns a separator that carries every "
     "stored weight and configuration value exactly, with the overrides of that call (and of no other call) taking precedence, or "
     "raises: when one of the two files is missing or cannot be read, when the weight file is truncated, or when the stored weights "
     "do not fit the configuration, it always raises. It never modifies, creates or removes files in that folder and never uses the network.",
     ["fault_sequences", "histories", "inputs"],
     "every stored model, every truncation/removal/mismatch of its files, read errors at any point, and every history of loads with overrides",
     "The weight file is absent from the repository, so no stable test ever completes a load.",
     [LOADER, "torchiva/nn.py", "torchiva/utils.py"],
     [("strict state-dict load after constructing from config plus overrides", LOADER + ": load_separator_model")],
     ["return value or exception of load_separator(path) / load_separator_model(ckpt, cfg)", "bytes of the folder before and after"])

# ------------------------------------------------------------------ command line
prop("C06", "The separation command never alters its input files",
     "Running the separation command never modifies, overwrites, renames or removes any wav file under its input path "
     "(an output folder that lies inside it apart), for any input/output paths (same folder spelled differently, output inside the input folder, output folder "
     "containing the input file), whether it completes, fails with an error or is killed at any point.",
     ["inputs", "fault_sequences", "crash_points"],
     "every layout of input and output paths including aliases and nesting, every read/write failure and every crash point",
     "Tests use one flat input folder, an unrelated output folder and no failure.",
     [SEP],
     [("input/output equality checks and output naming", SEP + ": main")],
     ["bytes of every file under the input path before and after main()"])

prop("C07", "A separation run that reports success has written every output",
     "When the separation command finishes without an error, every wav file that was under the input folder (sub-folders "
     "included, an output folder inside it excluded) when it started has its own complete output file under the output folder, with the same file name, "
     "number of samples and sampling rate and one channel per requested source. "
     "If any file or folder could not be read, or any file separated or written, the command fails with an error instead. When nothing goes "
     "wrong (all files can be read, separated by the library with these options and written, and no output would coincide with an input) it succeeds. "
     "For a single input file the output is the given path, or the file of the same name when that path is a folder.",
     ["inputs", "fault_sequences", "configurations"],
     "every folder tree (nested folders, equal names in different folders, outputs inside the input tree), directory enumeration order, option set and I/O failure",
     "Tests run one folder with a single file and never look at what was written.",
     [SEP, "torchiva/nn.py"],
     [("folder traversal and output naming", SEP + ": main"), ("padding to the input length", SEP + ": separate_one_file")],
     ["files under the output folder after main() returns", "exception raised by main()"])

prop("C08", "Each separated file depends only on its own input and the options",
     "For source models without random initialisation, the signal the separation command writes for a file is what the "
     "library's separator, built from the same command-line options (number of iterations and of sources, algorithm, "
     "reference; STFT, taps, delay, eps and source model, or the stored neural model) and run in inference mode, returns for the first --mic channels of that file; when "
     "it returns more signals than requested sources, the most energetic ones. Other files in the folder, their "
     "processing order, earlier failures and earlier runs make no difference.",
     ["histories", "inputs", "configurations", "schedules"],
     "every set and order of files processed by one run, every history of earlier runs and failures, every supported option combination",
     "Tests check only that the command does not raise, for one file; order and history effects and the effect of options are never observed.",
     [SEP, "torchiva/nn.py", LOADER],
     [("one separator object reused for all files", SEP + ": main"), ("channel selection and source selection", SEP + ": separate_one_file")],
     ["samples stored in each output file"])

prop("C09", "Re-running after a crash or failure repairs every output",
     "Whatever earlier runs of the separation command left in the output folder when they failed or were killed at an "
     "arbitrary point, one undisturbed run afterwards makes every input's output identical to "
     "what a single undisturbed run with the same arguments into an empty folder would have written (for source models without random initialisation "
     "and an input folder that does not lie inside the output folder).",
     ["crash_points", "fault_sequences", "histories"],
     "every sequence of failed or killed runs (any I/O step, torn or short output writes, full disk) followed by one healthy run",
     "No test interrupts a run or runs twice into the same folder with changed content.",
     [SEP],
     [("outputs are always recomputed and rewritten", SEP + ": main, separate_one_file")],
     ["bytes of every output file after the healthy run"])

# ------------------------------------------------------------------ library calls
prop("C10", "A call's result does not depend on what was called before",
     "The result of every separator, beamformer, dereverberation, STFT, scaling or linear-algebra call depends only on "
     "its arguments, the object's constructor parameters, the current model weights and the state of torch's random "
     "generator. Earlier calls on the same or on other objects (other shapes, precisions, parameters or data, even in the "
     "same reused input buffer), whether they succeeded, raised or were interrupted at an arbitrary instant, make no difference, "
     "and results already returned never change afterwards.",
     ["histories", "fault_sequences", "crash_points"],
     "every finite history of public calls over one or several objects with arbitrary shapes, overrides, in-place reuse of buffers and weights, "
     "and exceptions, failed allocations or keyboard interrupts at any executed line or tensor operation",
     "Tests call each object once on one signal, never after a failure and never with a second shape.",
     ALGOS + ["torchiva/models/classic.py", "torchiva/scaling.py", "torchiva/linalg.py", "torchiva/utils.py", "torchiva/fftconvolve.py"],
     [("all working state is local to the call", "torchiva/*.py: forward methods"), ("models are reset at call start", "torchiva/base.py: DRBSSBase._reset")],
     ["returned tensors (or exception) compared with the same call made first thing in a pristine copy of the library"],
     [("W, J", "last demixing matrices, stored but never read back", "torchiva/t_iss.py: T_ISS"),
      ("T, V, R, iR", "NMF factors", "torchiva/models/classic.py: NMFModel")])

prop("C11", "Parameters given to one call do not outlive that call",
     "Parameters passed to a separator's, beamformer's or WPE's forward call take effect for that call only: afterwards, whether the call returned, "
     "raised or was interrupted at any point, the object's configured parameters read the same as before and calls "
     "without those arguments behave as constructed.",
     ["histories", "fault_sequences"],
     "every sequence of calls with any subset of per-call overrides, with faults at any executed line",
     "No test makes a second call after one with overrides.",
     ALGOS,
     [("overrides are resolved into locals", "torchiva/base.py: DRBSSBase._set_params, BFBase._set_params")],
     ["configured parameter properties and the result of a later plain call"])

prop("C12", "Concurrent calls on one shared object do not disturb each other",
     "When several threads call the same separator, beamformer, dereverberation, STFT or BSSSeparator object (or different objects sharing one model) at "
     "the same time with a source model that keeps no state, each call returns exactly what it returns when run alone, "
     "for every interleaving of the threads.",
     ["schedules"],
     "every interleaving, at source-line granularity, of concurrent forward calls with different inputs, shapes and per-call parameters",
     "All tests are single-threaded.",
     ALGOS + ["torchiva/models/classic.py", "torchiva/linalg.py"],
     [("per-call working state is kept in locals; attributes are only written at the end and never read", "torchiva/*.py: forward methods")],
     ["tensor returned by each concurrent call versus the same call run alone"])

prop("C13", "Stateful source models start afresh for every new signal",
     "A source model that keeps internal state and offers a reset (NMF or a user's own) is reset before it is first used on each new signal by the "
     "iterative separators (T-ISS, IP, IP2, FIVE), by WPE and by BSSSeparator, also when it was passed for one call only, "
     "is shared between separators, or the previous call failed or was interrupted in the middle; no state of an earlier signal ever reaches a result. "
     "Within one signal the model is not reset: its state is kept through the iterations.",
     ["histories", "fault_sequences"],
     "every history of calls over separators sharing stateful models, with different signals and shapes and faults at any point",
     "Tests never run NMF or any stateful model twice.",
     ["torchiva/base.py", "torchiva/models/classic.py", "torchiva/nn.py", "torchiva/t_iss.py", "torchiva/auxiva_ip.py",
      "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py"],
     [("reset of the model at the start of forward", "torchiva/base.py: DRBSSBase._reset; torchiva/nn.py: BSSSeparator.forward"),
      ("clearing of all factors", "torchiva/models/classic.py: NMFModel.reset")],
     ["calls seen by an instrumented stateful model", "result versus a fresh model with the same random state"])

prop("C14", "Calls leave the caller's data and torch's global state alone",
     "A library call never changes the contents of the tensors passed to it, not even temporarily while it runs. When it "
     "ends, by returning or by an error or interrupt at any point, model weights, registered hooks, train/eval mode, gradient flags and "
     "stored gradients, torch's random state (unless the source model itself draws from it), and torch's process-wide settings "
     "(default dtype, gradient mode, thread count, deterministic and denormal modes) are as they were before.",
     ["histories", "fault_sequences", "schedules"],
     "every public call, observed after every executed library line, with exceptions, failed allocations or interrupts at any line or tensor operation",
     "Tests never compare inputs or global state before and after, let alone during a call or after an interrupt.",
     ALGOS + ["torchiva/scaling.py", "torchiva/linalg.py", "torchiva/utils.py", "torchiva/fftconvolve.py"],
     [("out-of-place arithmetic on copies", "torchiva/*.py"), ("no_grad used as a scoped context", "torchiva/linalg.py, torchiva/t_iss.py")],
     ["argument tensors after every line", "module and torch state after the call"])

prop("C15", "Demixing-matrix checkpointing gives the same outputs and gradients",
     "With demixing-matrix checkpointing switched on, T-ISS returns the same outputs, and back-propagation gives the same "
     "gradients for model parameters and input, as without it, for any configuration and any model whose only state is torch's "
     "random generator (dropout included), whatever other forward and backward passes or random draws are "
     "interleaved between its forward and its backward; and back-propagation leaves the random stream where it was. "
     "(Weights and train/eval mode are not changed between a forward and its backward; batch-norm running statistics, which a recomputation updates twice, are excluded.)",
     ["schedules", "configurations", "fault_sequences"],
     "every interleaving of forward passes, backward passes and random draws of several training tasks, every T-ISS configuration, and failures of a pass followed by a retry",
     "The tests compare the two modes for one determined configuration, one model without randomness, forward immediately followed by backward, and compare the weights instead of the gradients.",
     ["torchiva/t_iss.py"],
     [("recomputation of one iteration from W, H, J with preserved random state", "torchiva/t_iss.py: over_iss_t_one_iter_dmc, T_ISS.forward"),
      ("model parameters passed explicitly to the checkpoint", "torchiva/t_iss.py: T_ISS.forward")],
     ["outputs, parameter and input gradients, random stream position"])

prop("C16", "Torch's seeded generator is the only source of randomness",
     "With torch's random seed fixed, every call, including randomly initialised source models, models with "
     "dropout and the separation command, gives the same result in every process and at every time: Python's and numpy's random generators, the wall "
     "clock, hash randomisation, process ids, environment entropy, the number of processors or threads, the host name and directory order have no influence.",
     ["schedules", "histories", "configurations"],
     "every setting of all entropy sources other than torch's generator (Python and numpy generators, clocks, os entropy, hash seed, directory order)",
     "Tests run under one hash seed, one clock and default generators and compare nothing between runs.",
     ["torchiva/models/classic.py", "torchiva/nn.py", "torchiva/separate.py", "torchiva/t_iss.py"],
     [("initial NMF factors are drawn from torch's default generator", "torchiva/models/classic.py: NMFModel._init_state")],
     ["results of identical seeded calls under different settings of every other entropy source"])

prop("C17", "A separator's saved state is complete and independent of its use",
     "The state dictionary of a separator can be saved at any point of any history of forward, backward and optimiser steps, failed or "
     "interrupted ones included, and loading it with the same configuration into a fresh process gives a separator with the same outputs and "
     "gradients. Calls never add to, remove from or alter what is saved, apart from what training itself updates.",
     ["histories", "crash_points"],
     "every history of training and inference steps (shapes, overrides, faults) with an export and a crash/restart at an arbitrary step, for every algorithm and source model",
     "No test saves a state, and none loads one successfully.",
     [LOADER, "torchiva/nn.py", "torchiva/t_iss.py", "torchiva/beamformer.py", "torchiva/models/glu.py", "torchiva/stft.py"],
     [("only weights and the window are registered; working matrices are plain attributes", "torchiva/t_iss.py, torchiva/auxiva_ip2.py, torchiva/stft.py")],
     ["state_dict() keys and values", "outputs and gradients of the restored separator"])

prop("C18", "Results can be back-propagated at any later time",
     "The result of a call made with gradients enabled can be back-propagated at any later time: after other calls on the same or other "
     "objects, after calls that failed or were interrupted, after other backward passes, from another thread, or twice if the graph is retained. "
     "The gradients of its inputs and parameters are those of the same call made and back-propagated alone; earlier graphs are never altered "
     "or released by later use of the library.",
     ["histories", "schedules"],
     "every interleaving of forward calls, backward passes, inference calls and failures over shared objects and models, including two threads and demixing-matrix checkpointing",
     "The gradient tests run one forward and one backward immediately after each other on fresh objects.",
     ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py",
      "torchiva/beamformer.py", "torchiva/nn.py", "torchiva/stft.py", "torchiva/linalg.py", "torchiva/models"],
     [("every call builds its own tensors; updates are out of place while gradients are recorded", "forward methods"),
      ("the checkpointed iteration keeps what it needs on its own context", "torchiva/t_iss.py: DMC functions")],
     ["gradients of inputs and parameters after delayed, repeated or cross-thread backward passes"])

prop("C19", "Separators can be copied, sent to other processes and used in forked ones",
     "At any point of any history of calls, failures, interrupts, training steps and mode changes a separator can be copied (copy.deepcopy, "
     "pickle, torch.save of the whole object, sending it to another process). The copy has the same configuration, weights and modes, behaves "
     "like a fresh separator with those weights, shares no state with the original, and using one never affects the other. The same holds in a process forked "
     "from this one at any such point, also while another thread is in the middle of a call: calls there come to an end and give the usual results. "
     "(deepcopy after a call that recorded gradients is left to torch's own rule.)",
     ["histories", "schedules"],
     "every history of calls and failures with copies of every kind taken at arbitrary steps, also by another thread during a call, or a fork at that point, followed by use and training of both",
     "No test copies, pickles or sends an object.",
     ["torchiva/base.py", "torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py",
      "torchiva/beamformer.py", "torchiva/nn.py", "torchiva/stft.py", "torchiva/models"],
     [("objects are plain Modules whose attributes are plain data, tensors and modules", "constructors"),
      ("no registry, lock, handle or closure is kept on an object", "torchiva")],
     ["results, gradients and weights of the original and of the copies", "state and parameters of the copies"])

prop("C20", "Repeated use does not accumulate memory, handles, threads or files",
     "Repeating the same work - library calls, model loads by URL or path, command runs - in one process, with or without failures and interrupts, "
     "does not accumulate anything: after a first few rounds the tensors, objects, hooks, threads, child processes and open files the process holds, and "
     "the files that lie in the cache and temporary directories, no longer grow from round to round, however long the process lives. "
     "(Demixing-matrix checkpointing with a source model that keeps graph-recording tensors of its own is left out, as in C15.)",
     ["histories", "fault_sequences"],
     "every repeated history of calls, loads and command runs, with failures or interrupts at any point, on kept or fresh objects, signals of varying lengths, in the main or in short-lived threads",
     "Every test makes one call in a short-lived process; none measures what is left behind.",
     ALGOS + ["torchiva/nn.py", "torchiva/stft.py", "torchiva/models", LOADER, "torchiva/separate.py"],
     [("working matrices live on the object and are replaced, not collected", "torchiva/*.py"),
      ("downloads are removed when they fail; files are opened in with blocks", "torchiva/loader.py, torchiva/separate.py")],
     ["live tensors and objects, hooks, threads, children, open files and stored files after every round"])

prop("C21", "A failure inside a call is never hidden in its result",
     "If an operation inside a library call or its back-propagation fails, memory runs out, the user interrupts it, or the user's source model raises, "
     "at any point, once or lastingly, the call raises or returns exactly what the undisturbed call would have: it never returns another "
     "result. An interrupt reaches the caller as KeyboardInterrupt, and an error raised by the source model as that error.",
     ["fault_sequences", "histories"],
     "every failing operation, allocation, interrupt and model error at every point of every public call, single or lasting",
     "No test makes anything fail inside a call.",
     ALGOS + ["torchiva/scaling.py", "torchiva/linalg.py", "torchiva/nn.py", "torchiva/stft.py", "torchiva/models"],
     [("no handler in the numerical code swallows exceptions", "torchiva/*.py")],
     ["the exception, or the result compared with the undisturbed call's"])

prop("C22", "Separation commands running at the same time do not disturb each other",
     "When several separation commands run at the same time, over the same or different inputs, into their own or the same output folder, under "
     "names of their own, and with the same home and temporary directory, each behaves as if it ran alone: it fails only if its own inputs or its own disk, network "
     "or memory fail, whatever the others meet, even if they crash; when all have ended, the outputs of every successful one are there, "
     "complete and what it gives alone; and inputs and other files in the output folder are untouched.",
     ["schedules", "crash_points", "fault_sequences"],
     "every interleaving of the file, network and codec steps of concurrent commands, with failures and crashes of some of them at any point",
     "No test runs the command, let alone several at once.",
     ["torchiva/separate.py", LOADER],
     [("folders are created with exist_ok, outputs are written under their own names", "torchiva/separate.py"),
      ("downloads go to temporary files of their own and are moved into place", "torchiva/loader.py")],
     ["exit status and error of each command", "all files of the input and output folders at the end"])

# ------------------------------------------------------------------ pure functions: not simulation targets
NA = {}
def na(id, title, statement, over, qtext, why, files, mechanism, observe, reason):
    prop(id, title, statement, over, qtext, why, files, mechanism, observe)
    NA[id] = reason

PURE = ("A pure function of its tensor arguments: no schedule, clock, I/O, fault or multi-party behaviour takes part in it, "
        "so there is nothing for a simulator to decide; checking it would be input generation or proof, another technique. ")

na("C30", "Projected-back outputs sum to the reference signal",
   "The outputs of the determined separators sum, over sources, to the reference-microphone signal after projection back (up to regularisation).",
   ["inputs"], "all input mixtures", "Tests only check SDR thresholds on one sample.",
   ["torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/t_iss.py"],
   [("projection back", "projection_back_from_demixing_matrix, projection_back_weights")], ["sum of outputs versus reference channel"], PURE)
na("C31", "STFT followed by its inverse reproduces the signal",
   "For every signal length, window and hop satisfying the overlap condition, inverse STFT of STFT returns the signal.",
   ["inputs", "configurations"], "all signals, FFT sizes, hops and windows", "No test round-trips.",
   ["torchiva/stft.py"], [("matching window and hop in both directions", "STFT.forward, STFT.inv")], ["reconstruction error"], PURE)
na("C32", "Batched computation equals per-item computation",
   "Applying a separator to a batch gives, item by item, what it gives for each item alone.",
   ["inputs"], "all batch shapes and contents", "Tests use one batch of one item.",
   ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/five.py", "torchiva/beamformer.py"],
   [("ellipsis einsum", "forward methods")], ["batched versus stacked results"], PURE)
na("C33", "Eigen-decompositions and loaded solves satisfy their defining equations",
   "The 2x2 and general (generalised) eigen-decompositions return ordered eigenpairs of the given matrices and the loaded solvers the regularised solutions.",
   ["inputs"], "all Hermitian (pairs of) matrices", "Tests sample one random batch per dtype.",
   ["torchiva/linalg.py"], [("closed-form 2x2 routine", "eigh_2x2"), ("whitening", "eigh")], ["residuals"],
   PURE + "(Its determinism and history independence are covered by C10.)")
na("C34", "Beamformers are distortionless / Wiener optimal for their covariance estimates",
   "MVDR passes the estimated target direction with unit gain at the reference, GEV maximises the covariance ratio, MWF minimises the expected squared error.",
   ["inputs"], "all masks and mixtures", "Tests check SDR on one sample.",
   ["torchiva/beamformer.py"], [("closed-form weights", "compute_*_bf")], ["optimality residuals"], PURE)
na("C35", "FFT convolution equals direct convolution for every mode and axis",
   "fftconvolve returns the linear convolution truncated according to the mode along the requested axis.",
   ["inputs"], "all shapes, modes, axes", "24 sampled cases, last axis only.",
   ["torchiva/fftconvolve.py"], [("zero padding to full length", "fftconvolve")], ["difference from direct convolution"], PURE)
na("C36", "Source-model weights and masks are positive and finite",
   "Every source model returns strictly positive finite weights of the input's shape, masks at most one.",
   ["inputs"], "all inputs including silence", "Never asserted.",
   ["torchiva/models"], [("clamping and sigmoid offset", "forward methods")], ["weights"], PURE)
na("C37", "Each auxiliary-function update does not increase the separation cost",
   "One more iteration of an AuxIVA-type update never increases the corresponding objective (up to regularisation).",
   ["inputs"], "all mixtures and iteration counts", "Cost is never evaluated.",
   ["torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/t_iss.py"], [("majorisation-minimisation updates", "forward methods")], ["cost per iteration"], PURE)
na("C38", "BSSSeparator output has the input's length and the requested sources",
   "For every input length, batch shape and algorithm, BSSSeparator returns n_src signals of exactly the input's length.",
   ["inputs", "configurations"], "all lengths, hops, algorithms", "Only exercised through one wav file.",
   ["torchiva/nn.py"], [("zero padding / truncation", "BSSSeparator.forward")], ["output shape"],
   PURE + "(The command-line consequence, with its I/O, is claimed as C07.)")
na("C39", "Separation quality on real mixtures",
   "Separation improves the signal-to-distortion ratio of the target sources over the mixture.",
   ["inputs"], "all realistic mixtures", "Two recorded samples.",
   ["torchiva"], [("the algorithms", "torchiva")], ["SDR"],
   "A statistical quality statement over signals, with no schedule or fault in it and no exact oracle; the existing SDR tests sample it.")
na("C40", "Results on a GPU agree with the CPU",
   "Every algorithm gives the same result on a CUDA device as on the CPU up to rounding.",
   ["configurations", "inputs"], "all devices", "No GPU in CI.",
   ["torchiva"], [("device-agnostic tensor creation", "torchiva")], ["difference between devices"],
   "There is no GPU in the sandbox and the CUDA runtime cannot be put behind a seam; a CPU stand-in would decide nothing about it.")

# ------------------------------------------------------------------ manifest
LOADER_NOTE = ("Seeded search, not proof: every run is a generated history of loads with network faults, disk faults, crashes, "
               "preemptions and clock jumps against the real loader, urllib and torch.load; assumes servers announce body lengths, and a process-crash (not power-loss) disk.")
CLI_NOTE = ("Seeded search, not proof: every run drives the real command (argument parser, file walk, library) over a generated file tree with disk "
            "faults, codec errors, crashes and interrupts; torchaudio's encoder is replaced by a WAV writer through the file seam in most runs.")
LIB_NOTE = ("Seeded search, not proof: generated histories of real library calls with faults and preemptions at chosen lines, compared with the same call in a "
            "process forked before the history; torch's kernels are trusted and run single-threaded.")
TECH = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": ("f_loader", TECH + "model loads over a simulated network/disk/process world vs published pair", LOADER_NOTE),
    "C02": ("f_loader", TECH + "fault history then bounded-progress healthy load", LOADER_NOTE),
    "C03": ("f_loader", TECH + "loads after first success with outages, republishing, clock jumps, crashes", LOADER_NOTE),
    "C04": ("f_loader", TECH + "interleaved histories over several URLs vs per-URL reference", LOADER_NOTE),
    "C05": ("f_loader", TECH + "local loads over damaged/faulty storage vs stored pair", LOADER_NOTE),
    "C06": ("f_cli", TECH + "command runs with crashes/disk faults, input bytes compared after each", CLI_NOTE),
    "C07": ("f_cli", TECH + "command runs with codec/disk faults; success implies complete outputs", CLI_NOTE),
    "C08": ("f_cli", TECH + "command output vs library reference over fault-free and disturbed histories", CLI_NOTE),
    "C09": ("f_cli", TECH + "crash/fault/other-option histories then undisturbed rerun vs clean run", CLI_NOTE),
    "C10": ("f_lib", TECH + "call histories with injected failures vs pristine forked process", LIB_NOTE),
    "C11": ("f_lib", TECH + "override histories with injected failures vs freshly built object", LIB_NOTE),
    "C12": ("f_lib", TECH + "line-level scheduled concurrent calls vs sequential result", LIB_NOTE),
    "C13": ("f_lib", TECH + "stateful-model histories with injected failures; call protocol recorded and checked", LIB_NOTE),
    "C14": ("f_lib", TECH + "argument/global/RNG invariants at every traced line, with injected failures", LIB_NOTE),
    "C15": ("f_dmc", TECH + "checkpointing on/off twin histories with faults in forward and backward", LIB_NOTE),
    "C16": ("f_entropy", TECH + "same seeded calls under different simulated entropy, clocks, hash seeds, directory orders", LIB_NOTE),
    "C18": ("f_late", TECH + "delayed, repeated and cross-thread backward passes amid calls and failures vs pristine process", LIB_NOTE),
    "C19": ("f_copy", TECH + "copies at arbitrary points of call/failure/training histories vs fresh object", LIB_NOTE),
    "C20": ("f_leak", TECH + "repeated histories of calls, loads and commands with faults; what the process and the disk hold measured after each round", LIB_NOTE),
    "C21": ("f_fail", TECH + "call histories with failures, interrupts and model errors; raised error or undisturbed result required", LIB_NOTE),
    "C22": ("f_par", TECH + "scheduled concurrent commands with faults for some; each compared with running alone", CLI_NOTE),
    "C17": ("f_state", TECH + "train/use/export/crash/restore histories vs reference", LIB_NOTE),
}

if __name__ == "__main__":
    here = pathlib.Path(__file__).resolve().parent.parent
    with open(here / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    built = {k: v for k, v in CHECKS.items() if (here / "sim" / (v[0] + ".py")).exists()}
    man = dict(
        version=1, setup_cmd="bash bin/setup",
        checks=[dict(property=k, quick_cmd=f"bash bin/check {k}", thorough_cmd=f"bash bin/check {k} --tier thorough",
                     evidence_file=f"evidence/{k}.json", technique=v[1], level="exploration", level_note=v[2])
                for k, v in built.items()],
        not_applicable=[dict(property=k, reason=r) for k, r in NA.items()]
        + [dict(property=k, reason="check not built yet") for k in CHECKS if k not in built],
        notes="No hooks in /repo: all seams are installed from /verif/sim before the library is imported. "
              "Fixes are listed in known_findings.txt.")
    (here / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(P), "properties,", len(NA), "not applicable,", len(built), "checks")
