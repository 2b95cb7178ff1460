# pylint: disable-all
TRAIN = ["sample/sample.py", "sample/_training.py", "sample/utils/learn.py",
         "sample/sms/sm.py", "sample/beatsdrop/sample.py"]

prop("C01", "Parallel training gives exactly the model that serial training gives",
     "Training a model with any number of worker processes, or with a process "
     "pool or shared-storage manager supplied by the caller, gives the same "
     "fitted model as training it serially on the same input: the same "
     "tracks, the same modal parameters in the same order, the same stored "
     "intermediate results and beat decisions, or an error of the same kind. "
     "This holds in whatever order the workers start, run, finish and have "
     "their results and shared-storage writes delivered.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of worker processes, manager threads and result "
     "delivery; model configurations; input sounds; 1-4 workers",
     "The tests train in parallel once, on one sound, under whatever "
     "schedule the host happens to produce, and never compare the stored "
     "data that workers write concurrently.",
     TRAIN + ["sample/beatsdrop/decision.py", "sample/hinge.py"],
     [("one task per track, positional results", "sample/sample.py:SAMPLE._fit_tracks"),
      ("pool and manager life cycle", "sample/_training.py"),
      ("indexed writes to the managed storage", "sample/utils/learn.py:OptionalStorage.append")],
     ["fitted attributes of the model"],
     [("intermediate storage", "stored spectra, tracks and decisions", "sample/utils/learn.py:OptionalStorage")],
     check="seeded search over worker schedules with real forked lockstep "
           "workers; oracle: the same model trained serially")

prop("C02", "A training that fails or is interrupted leaves nothing behind",
     "When training raises, because of an error in a worker or in a progress "
     "callback, an interrupt, a failure to start the workers or to talk to "
     "them, or malformed input, that error reaches the caller and is neither "
     "swallowed nor replaced by an unrelated one. Afterwards the model's "
     "parameters and sub-models, the process's warning settings and its "
     "worker processes and connections are as before the call, resources "
     "supplied by the caller are still open, and training the same model "
     "again gives the result a new model would give.",
     ["fault_sequences", "crash_points", "schedules", "inputs"],
     "one fault of each kind at any point of a serial or parallel training, "
     "under any worker schedule",
     "The tests contain no training that fails half way, so no clean-up path "
     "runs at all.",
     TRAIN,
     [("training context restores the model", "sample/_training.py:_training_context"),
      ("pool and manager are closed on exit", "sample/_training.py"),
      ("warning filters are restored", "sample/utils/__init__.py")],
     ["exceptions seen by the caller", "parameters of the model",
      "live processes, connections"],
     check="one seeded fault per run (workers, callbacks, interrupts at any "
           "line, pool/manager start, proxy connections, input) in serial "
           "and parallel training; oracle: a new model trained serially")

prop("C03", "Training depends on configuration and input only, not on history",
     "After any sequence of training (serial, parallel, failed, interrupted), "
     "reconfiguring, cloning, copying, pickling, resynthesising and reading "
     "results, training a model gives what a newly created model with the "
     "same configuration gives for that input. None of these operations "
     "changes any other model, the results already held by a model that is "
     "only read or copied, or the caller's input.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "operation histories of up to 8 steps over up to 4 live models, with "
     "failed and interrupted trainings in between",
     "Each test trains a new model once; none trains one twice or after a "
     "failure.",
     TRAIN + ["sample/beatsdrop/decision.py", "sample/sms/mm.py"],
     [("state reset at the start of training", "sample/sample.py:SAMPLE.fit"),
      ("tracker reset", "sample/sms/sm.py:SineTracker.reset"),
      ("sub-models are cloned, not shared", "sample/sample.py:SAMPLE.__init__")],
     ["fitted attributes and resynthesis"],
     check="seeded operation histories with failures injected between "
           "trainings; oracle: a new model of the same configuration")

prop("C04", "Streaming partial tracking follows its documented rules on any stream",
     "Fed any stream of spectral-peak frames, a tracker continues, starts, "
     "ends, keeps and discards partials (and, for the modal tracker, merges, "
     "bounds and filters them) exactly as its documented parameters say, in "
     "every state reached by drops, duplicates, gaps, resets and restarts of "
     "the stream. Observing the tracker, copying it, or saving and restoring "
     "it in mid-stream never changes what it finds.",
     ["histories", "inputs", "configurations", "crash_points"],
     "streams of peak frames with faults in them; checkpoint, observation, "
     "interruption and reset at any point; tracker configurations",
     "The tests run the tracker on two sounds from beginning to end and look "
     "at the final modes only.",
     ["sample/sms/sm.py", "sample/sms/mm.py"],
     [("peak continuation", "sample/sms/sm.py:SineTracker.__call__"),
      ("track merging and filtering", "sample/sms/mm.py:ModalTracker")],
     ["tracks of the tracker"],
     [("active tracks", "partials alive at the current frame", "sample/sms/sm.py:SineTracker")],
     check="seeded frame streams with drops, duplicates, gaps, restarts and "
           "checkpoints; oracle: an independent reference model compared "
           "after every frame")

prop("C05", "The storage shared by training processes is linearizable",
     "Whatever training processes append to the storage they share, at an "
     "index or at the end, together with reads, snapshots and resets, takes "
     "effect as if done one operation at a time in an order compatible with "
     "real time. In particular no write is lost or moved when processes write "
     "at the same moment, and storage that was told not to save saves nothing.",
     ["schedules", "histories"],
     "all interleavings, at byte-code granularity, of up to 4 clients with up "
     "to 3 operations each",
     "The tests use the storage from one thread.",
     ["sample/utils/learn.py", "sample/_training.py"],
     [("operations on the managed storage exclude each other", "sample/_training.py"),
      ("padding and indexed append", "sample/utils/learn.py:OptionalStorage.append")],
     ["values returned to clients and final content"],
     [("storage", "lists of values by name", "sample/utils/learn.py:OptionalStorage")],
     check="recorded concurrent histories checked with a linearizability "
           "checker (Wing-Gong) against a dictionary of lists")

prop("C07", "The multi-scale loss does not depend on parallelism",
     "The multi-scale loss of two sounds computed with any number of worker "
     "processes, or with a pool supplied by the caller and possibly shared, "
     "equals the sum over scales computed serially, whatever the order in "
     "which the scales finish. An error in any scale reaches the caller, and "
     "a pool is closed afterwards if and only if the call created it.",
     ["schedules", "inputs", "fault_sequences"],
     "interleavings of 1-4 workers over up to 6 scales, failing scales, two "
     "callers sharing a pool",
     "The tests check one parallel evaluation on one pair of sounds.",
     ["sample/evaluation/metrics.py", "sample/utils/__init__.py"],
     [("one task per scale and a sum of the results", "sample/evaluation/metrics.py:multiscale_spectral_loss")],
     ["returned value", "live worker processes"],
     check="seeded worker schedules and failing scales; oracle: the serial "
           "sum")

EVALS = ["scripts/beatsdrop/evaluation.py", "sample/utils/__init__.py"]

prop("C08", "An evaluation stopped at any point and resumed gives the uninterrupted results",
     "However often the BeatsDROP evaluation script is killed, interrupted, "
     "stopped by a disk error or by a failing test case, and started again, "
     "every run that ends well leaves the results file, reports and (if asked "
     "for) sounds of the test cases that a single uninterrupted run would "
     "leave: each test case exactly once, with its own values, and statistics "
     "of those results. Once faults stop, the evaluation can always be "
     "resumed, and it ends.",
     ["crash_points", "fault_sequences", "schedules", "configurations"],
     "sequences of up to 5 processes ended at any disk operation, with torn "
     "writes and power loss; 1-18 cases, 1-3 workers, checkpoint periods",
     "No test runs the evaluation script, let alone kills it.",
     EVALS,
     [("checkpoint discovery and resume", "scripts/beatsdrop/evaluation.py:load_results"),
      ("checkpointing", "scripts/beatsdrop/evaluation.py:run_tests"),
      ("final results", "scripts/beatsdrop/evaluation.py:save_dataframe")],
     ["results and report files"],
     [("checkpoints", "partial results on disk", "scripts/beatsdrop/evaluation.py:run_tests")],
     check="seeded crash-restart sequences of the script on a simulated disk; "
           "oracle: the closed-form results of the uninterrupted run")

prop("C09", "Evaluation results once saved are never lost or computed again",
     "After the BeatsDROP evaluation script has saved a checkpoint or the "
     "results file, the test cases in it survive any later kill, interrupt or "
     "disk error, and no later run that resumes computes them again. "
     "Checkpoints are removed only when the complete results have been saved, "
     "and none is left after a run that ends well.",
     ["crash_points", "fault_sequences", "schedules"],
     "as for C08; --no-resume and --wav runs excepted, as they ask to compute "
     "again",
     "No test runs the evaluation script.",
     EVALS,
     [("most recent checkpoint wins", "scripts/beatsdrop/evaluation.py:load_results"),
      ("checkpoints cleaned after the results", "scripts/beatsdrop/evaluation.py:save_dataframe")],
     ["files on disk", "test cases that are run"],
     [("checkpoints", "partial results on disk", "scripts/beatsdrop/evaluation.py:run_tests")],
     check="same simulation as C08; oracle: the set of cases in the newest "
           "completely written file")

prop("C10", "A failing evaluation test case affects only itself",
     "When a test case of the BeatsDROP evaluation script fails and exception "
     "logging is on, the failure is written in the log file of that case, all "
     "other cases get the results they would have without it, and the next "
     "run tries the failed case again. With logging off, the error ends the "
     "run and is reported.",
     ["fault_sequences", "schedules", "crash_points"],
     "cases that fail once, twice or always, in any position and worker "
     "order, combined with the faults of C08",
     "No test runs the evaluation script.",
     EVALS,
     [("test case context logs or raises", "scripts/beatsdrop/evaluation.py:test_case_context"),
      ("missing results are skipped and retried", "scripts/beatsdrop/evaluation.py:load_results")],
     ["log files", "results file", "test cases that are run"],
     check="seeded failing cases under seeded worker schedules and crashes; "
           "oracle: closed-form results of the other cases")

prop("C20", "A benchmark stopped and resumed measures every case exactly once",
     "However the CIM 22 performance script is stopped (interrupt, error in "
     "the measured code, kill, disk error) and restarted with the same "
     "arguments, its results file always holds the first cases in order, each "
     "with exactly the requested number of samples as they were measured. "
     "Complete cases measured before an interrupt or error are saved, recorded "
     "ones are never lost, altered or measured again, and a run without "
     "faults completes the file.",
     ["crash_points", "fault_sequences", "configurations"],
     "sequences of up to 7 runs; interrupts at any line and in any "
     "measurement, kills at any disk operation with torn writes; 20-45 cases "
     "of 1-3 samples",
     "No test runs the benchmark script.",
     ["scripts/cim22/performance.py", "sample/utils/__init__.py"],
     [("resume from the number of recorded cases", "scripts/cim22/performance.py:run_benchmarks"),
      ("incomplete cases are dropped", "scripts/cim22/performance.py:clean_data"),
      ("results saved on any exit", "scripts/cim22/performance.py:main")],
     ["results file", "statements that are measured"],
     [("recorded samples", "columns of the results", "scripts/cim22/performance.py:load_data")],
     check="seeded stop-restart sequences on a simulated disk and clock; "
           "oracle: journal of measured durations")

GUI = ["sample/gui.py", "sample/widgets/main.py", "sample/widgets/utils.py"]

prop("C11", "Applied settings survive restarts, kills and disk faults, and stay usable",
     "Settings the user has applied in the graphical application are in force "
     "and shown the same way after any restart, and a kill, power loss, full "
     "or failing disk at any moment leaves either the settings before the "
     "change or those after it, never a mixture or an application that does "
     "not start. Whatever text the user types, the settings in force are "
     "values an analysis can use, and applying what is shown changes nothing.",
     ["histories", "inputs", "crash_points", "fault_sequences"],
     "2-4 sessions of up to 3 applied changes of any setting, odd texts, "
     "kills and power losses at any disk operation, failing and short writes",
     "The tests open and close the window once; no setting is typed, stored "
     "or read back.",
     GUI + ["sample/widgets/settings.py", "sample/widgets/userfiles.py"],
     [("parsers of typed values", "sample/widgets/settings.py"),
      ("settings file", "sample/widgets/userfiles.py"),
      ("settings are applied, saved and shown", "sample/widgets/settings.py:SettingsTab.apply_cbk")],
     ["settings shown, settings used for the analysis, theme"],
     [("settings file", "stored settings of the user", "sample/widgets/userfiles.py")],
     check="seeded users on a simulated Tk and disk with kills, power losses "
           "and disk errors; oracle: the settings in force before, or after "
           "the same change without faults")

prop("C12", "Reloading for a new theme brings back the sound and the selected region",
     "When the user accepts to reload the graphical application for a new "
     "theme, the restarted application shows the loaded sound and the "
     "selected region exactly as they were, once; a later start does not "
     "bring them back again. If the process or machine stops, or the disk "
     "fails, while the state is being stored or restored, the application "
     "still starts, with either that state or none.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "up to 4 launches with loads, trims, accepted and declined reloads; "
     "kills, power losses and disk errors while storing, restoring, at rest",
     "No test reloads the application.",
     GUI + ["sample/widgets/settings.py", "sample/widgets/userfiles.py",
            "sample/widgets/audioload.py"],
     [("audio cache", "sample/widgets/userfiles.py"),
      ("state restored once", "sample/widgets/audioload.py"),
      ("reload", "sample/widgets/settings.py")],
     ["loaded sound, selected region"],
     [("audio cache file", "sound and region to restore", "sample/widgets/userfiles.py")],
     check="seeded users on a simulated Tk and disk with crashes and disk "
           "errors; oracle: the state at the moment of the reload")

prop("C14", "Loading and trimming always leave a valid region of the right sound",
     "Whatever files the user loads, including damaged, missing, empty or "
     "very short ones and ones that fail to be read, whatever is typed as "
     "bounds, and wherever the mouse is pressed and released, the graphical "
     "application holds a non-empty region inside the sound that is shown, "
     "and plays that region. A bound moves only where the user put it, the "
     "other stays; a load that fails reports one error and changes nothing.",
     ["histories", "inputs", "fault_sequences"],
     "histories of up to 25 loads, typed bounds, mouse presses and releases, "
     "toolbar toggles and plays; WAV files of all sample types; reading faults",
     "The tests do not load or trim any sound in the application.",
     GUI + ["sample/widgets/audioload.py", "sample/widgets/audio.py",
            "sample/widgets/pyplot.py"],
     [("loading and automatic trimming", "sample/widgets/audioload.py:AudioLoadTab"),
      ("bounds typed or dragged", "sample/widgets/audioload.py:AudioLoadTab")],
     ["sound and region shown", "sound played", "error dialogs"],
     [("loaded sound and region", "samples, rate, bounds", "sample/widgets/audioload.py:AudioLoadTab")],
     check="seeded users on a simulated Tk, disk and mixer; oracle: a "
           "reference model of the region, and an independent WAV reader")

prop("C13", "An analysis analyses what was selected when it was started",
     "Analysing in the graphical application gives exactly the model that the "
     "library gives for the region and settings in force at the click, with "
     "or without worker processes, whatever the user does while the analysis "
     "is running: analysing again (which is ignored), loading, trimming, "
     "changing settings, playing, exporting, closing. An analysis that fails "
     "shows exactly one error and does not affect the next one. The progress "
     "shown never goes back within a stage, and is full at the end.",
     ["schedules", "histories", "inputs", "fault_sequences"],
     "up to 4 analyses with events handled at any progress update, at any "
     "pace of the clock; failures in any track; worker schedules",
     "The tests do not start an analysis in the application.",
     GUI + ["sample/widgets/analysis.py", "sample/widgets/sample.py",
            "sample/widgets/settings.py", "sample/widgets/audioload.py",
            "sample/plots.py"],
     [("analyses exclude each other", "sample/widgets/analysis.py:_non_block_lock"),
      ("settings become model parameters", "sample/widgets/sample.py:sample_factory"),
      ("progress", "sample/widgets/sample.py:_GUIFitArgs")],
     ["model, progress bar, dialogs"],
     check="seeded users whose events are handled at seeded progress updates "
           "of the analysis, under a simulated clock, with failures and "
           "simulated workers; oracle: the library trained serially")

prop("C15", "What is played and exported is the last analysis, completely",
     "In the graphical application, playing the resynthesis and exporting it "
     "or the parameters always give those of the last successful analysis, "
     "at the rate of the sound shown, and playing the original gives the "
     "selected region. The user is told that a file was saved only if "
     "it is complete on disk, gets one error otherwise, and nothing is written "
     "when there is no result or the dialog is cancelled. A failing audio "
     "device never prevents later playing.",
     ["histories", "fault_sequences", "inputs"],
     "histories of up to 14 actions; full, failing and short-writing disks; "
     "failing audio device; failing analyses",
     "The tests do not play or export anything from the application.",
     GUI + ["sample/widgets/analysis.py", "sample/widgets/audio.py",
            "sample/widgets/audioload.py"],
     [("exports", "sample/widgets/analysis.py:AnalysisTab.export_cbk"),
      ("cached resynthesis", "sample/widgets/analysis.py:AnalysisTab"),
      ("playback", "sample/widgets/audio.py:TempAudio")],
     ["files, sounds played, dialogs"],
     [("resynthesis", "sound of the last analysis, clipped", "sample/widgets/analysis.py")],
     check="seeded users on a simulated disk and audio device; oracle: the "
           "library's prediction and parameters for the last analysis")

prop("C24", "The application starts again exactly when the user asked for a reload",
     "The launcher of the graphical application starts a new window after the "
     "previous one ended if and only if the user accepted a reload in it. "
     "Closing the window at any time, declining, a kill, a missing display, "
     "or a disk that fails at start ends the launcher, which never blocks or "
     "restarts without end.",
     ["histories", "fault_sequences", "crash_points"],
     "chains of up to 12 processes, each ended by closing, reloading, "
     "declining, killing, display or disk faults",
     "The tests never run the launcher's loop.",
     GUI + ["sample/widgets/settings.py"],
     [("relaunch loop", "sample/gui.py:run"),
      ("reload requested", "sample/widgets/settings.py:SettingsTab")],
     ["windows opened", "exit of the launcher"],
     check="seeded users and process deaths on a simulated Tk and process "
           "table; oracle: what the user answered last")

prop("C16", "Parts of the library used by several threads do not affect each other",
     "When several threads use the library at the same time, each operation "
     "on a thread's own objects, and each operation that only reads an object "
     "shared by the threads, gives what it gives when nothing else runs. This "
     "holds for analysis models, partial trackers, sound generators, "
     "filter banks, losses, beat models, beat regressions, stored "
     "intermediate data and functions, whatever the scheduling of threads. "
     "Process-wide warning settings are excluded.",
     ["schedules", "programs", "configurations"],
     "2-4 threads with programs of up to 4 operations each, preempted at "
     "lines of the library",
     "The tests are single-threaded.",
     TRAIN + ["sample/psycho.py", "sample/evaluation/metrics.py",
              "sample/evaluation/random.py", "sample/utils/dsp/__init__.py",
              "sample/beatsdrop/__init__.py", "sample/sms/mm.py"],
     [("reused buffers and caches", "sample/sms/dsp.py"),
      ("filter bank state", "sample/psycho.py"),
      ("default objects", "sample/utils/__init__.py:default_kws")],
     ["return values", "state of the objects"],
     check="seeded programs on a catalogue of the library's objects, in "
           "threads preempted at seeded lines; oracle: the program run alone")

prop("C17", "A hyperparameter search spends its budget, keeps its points, trains the best",
     "A search for the best model parameters evaluates exactly the number of "
     "points it was asked for, within the given ranges, reporting the loss "
     "of an independently trained model at each; a continued search keeps all "
     "earlier points and values; and the model returned is trained with the "
     "best point found. A search that fails, is stopped or is interrupted "
     "leaves the model, the earlier state and the warning settings as they "
     "were, the next search gives what a new optimizer gives, and the "
     "progress display counts each evaluated point once.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "2-5 searches per history over up to 3 parameters; errors and interrupts "
     "in losses, callbacks and at any line of the optimizer",
     "The tests run one search from one state and never fail, continue or "
     "interrupt it.",
     ["sample/optimize.py", "sample/sample.py", "sample/utils/learn.py"],
     [("search loop", "sample/optimize.py:SAMPLEOptimizer.gp_minimize"),
      ("parameters from a point", "sample/optimize.py:SAMPLEOptimizer._kwargs"),
      ("progress display", "sample/optimize.py:TqdmCallback")],
     ["optimization result", "fitted model", "progress bar"],
     check="seeded histories of searches with faults; oracle: losses of "
           "independently trained models and a new optimizer's result")

prop("C18", "Seeded random sounds and phases can be reproduced",
     "A generator of random sounds made with a seed gives the same sequence "
     "of sounds in every run, whatever other generators, other users of "
     "random numbers or threads do in between, and different "
     "sequences for different seeds. Resynthesis with a given seed or random "
     "source for the phases is repeatable, advances only that source, and "
     "sources given by the caller are used, so that a draw depends only on "
     "the parameters and the state of the source. Draws are within "
     "their documented ranges.",
     ["histories", "schedules", "inputs"],
     "histories of up to 10 draws from up to 4 sources, in part from "
     "preempted threads",
     "The tests draw from one generator in one order.",
     ["sample/evaluation/random.py", "sample/sample.py", "sample/utils/dsp/__init__.py"],
     [("random sounds", "sample/evaluation/random.py:BeatsGenerator"),
      ("random phases", "sample/sample.py:SAMPLE.predict")],
     ["drawn sounds and parameters", "state of the random sources"],
     check="seeded interleavings of draws and other users of randomness; "
           "oracle: the same source used alone")

prop("C19", "Copies of objects, also in other processes, behave like the original",
     "A deep copy, a pickle, a joblib dump or the object received by a worker "
     "process, taken at any moment of the life of a model, tracker, filter "
     "bank, beat model, beat regression, loss, generator or storage, gives "
     "in every later operation what the original would give. Using a copy "
     "does not change the original, nor the other way round.",
     ["histories", "schedules", "programs"],
     "histories of up to 8 operations and copies on up to 5 live objects, "
     "with worker processes",
     "The tests never copy or pickle an object after using it.",
     TRAIN + ["sample/psycho.py", "sample/beatsdrop/__init__.py",
              "sample/beatsdrop/regression.py", "sample/evaluation/metrics.py"],
     [("attribute look-up while copying", "sample/psycho.py:GammatoneFilterbank.__getattr__"),
      ("attribute look-up while copying", "sample/beatsdrop/__init__.py:Beat.__getattr__"),
      ("parameters held by a fitted regression", "sample/beatsdrop/regression.py:BeatRegression")],
     ["return values", "state of the objects"],
     check="seeded histories with copies and real forked lockstep workers; "
           "oracle: a new object with the same history")

prop("C21", "The tools that rewrite notebooks and changelogs never damage them",
     "After the notebook formatter is killed, interrupted, loses power or "
     "meets a full or failing disk, every notebook is either as it was or "
     "completely formatted, and the next run finishes the work. Formatting "
     "changes only the layout of code cells: what the code means, commands, "
     "text, outputs, metadata and cells that are to be ignored or are not "
     "valid are kept. A dry run writes nothing, formatting twice changes "
     "nothing more, and the changelog tools list every version, newest first.",
     ["crash_points", "fault_sequences", "inputs", "histories"],
     "1-4 faulty runs over 1-3 seeded notebooks or up to 6 versions; faults at "
     "any file operation",
     "The tools have no tests.",
     ["scripts/utils/yapf_nbformat.py", "scripts/utils/make_changelog.py",
      "scripts/utils/extract_changelog.py", "sample/utils/__init__.py"],
     [("notebook is replaced at once", "scripts/utils/yapf_nbformat.py:format_nb"),
      ("commands are kept", "scripts/utils/yapf_nbformat.py:_wrap_command_line"),
      ("version order", "scripts/utils/make_changelog.py:_version_compare")],
     ["files on disk", "printed text"],
     check="seeded crash and fault points on a simulated disk; oracle: the "
           "notebook before, its syntax trees, and a run without faults")

prop("C22", "Timings shown in notebooks are elapsed time, whatever the clock does",
     "The time shown for a timed block is the time that passed in it, in the "
     "requested unit and number of digits, also when the time of day is "
     "changed meanwhile, blocks are nested or other threads time "
     "blocks too. A block that ends normally shows one timing, and an error "
     "in the block reaches the caller.",
     ["histories", "schedules", "fault_sequences"],
     "1-3 threads with nested blocks; steps of the time of day from "
     "milliseconds to a year, back and ahead",
     "The tests cannot change the clock.",
     ["sample/ipython.py"],
     [("timed block", "sample/ipython.py:time_this")],
     ["displayed text"],
     check="simulated clocks with seeded steps and thread schedules; oracle: "
           "simulated time that passed")

prop("C25", "Results do not depend on earlier uses and belong to the caller",
     "What an operation that only reads or computes gives depends on how the "
     "object was made and on the operations that change it, and not on what "
     "was computed with it before, on computations that were interrupted or "
     "ran out of memory, on arrays that the caller has filled again since, "
     "on what new memory happened to contain, or on the array in which the "
     "caller has it written. Results already given do not "
     "change later, the caller's arguments are not modified, and writing over "
     "a computed result does not affect later ones. This holds for models, "
     "trackers, filter banks, losses, beat models, regressions, generators, "
     "storages, functions, figures and notebook displays.",
     ["histories", "fault_sequences", "inputs", "programs"],
     "histories of 3-12 operations on 1-2 objects; interrupts and failing "
     "allocations at any line; rubbish in new memory",
     "The tests compute each thing once, on new objects and clean memory.",
     TRAIN + ["sample/psycho.py", "sample/evaluation/metrics.py",
              "sample/utils/dsp.py", "sample/utils/__init__.py",
              "sample/beatsdrop/__init__.py",
              "sample/beatsdrop/regression.py", "sample/plots.py",
              "sample/ipython.py"],
     [("output arrays", "sample/utils/__init__.py:numpy_out"),
      ("filter bank state", "sample/psycho.py"),
      ("memoized operators", "sample/utils/__init__.py:Numpy2Paragraph")],
     ["return values", "the caller's arrays"],
     check="seeded histories with interrupts, failing allocations and dirty "
           "memory on a catalogue of the library's objects; oracle: a new "
           "object that only did the operations that change it")

prop("C23", "The example script analyses the whole recording, or says why not",
     "When the BeatsDROP example script ends well, the cropped file holds "
     "exactly the requested or detected region of the recording at the path "
     "or URL, and the output file the complete resynthesis of the model that "
     "the library gives for that region, at its sampling rate and below "
     "clipping unless allowed. When the recording cannot be downloaded or "
     "read completely, the training fails or is interrupted, or a file cannot "
     "be written, the script ends with that error and nothing incomplete is "
     "written as output before; once the fault is gone the same command gives "
     "the result. The progress shown never goes back, and ends full.",
     ["fault_sequences", "schedules", "crash_points", "inputs"],
     "up to 3 failing attempts and a last one without faults; sounds up to "
     "0.7 s, mono and stereo, five encodings; up to 3 redirects; faults at any "
     "byte of a response and any file operation",
     "The script has no tests, and tests have no network that fails.",
     ["scripts/beatsdrop/example.py"] + TRAIN,
     [("download", "scripts/beatsdrop/example.py:load_audio"),
      ("region", "scripts/beatsdrop/example.py:crop_audio"),
      ("parallel training with progress", "scripts/beatsdrop/example.py:fit_model"),
      ("clipping", "scripts/beatsdrop/example.py:resynth_audio")],
     ["written files", "exceptions", "progress bar"],
     check="real HTTP client over simulated connections, simulated disk, "
           "clock and workers; oracle: the library called on the region")

NA = ("a pure function of its input: no schedule, clock, I/O, fault or other "
      "party for a simulator to control; ")
prop("C90", "Modal parameters of a synthetic modal sound are recovered",
     "For a sound that is a sum of well separated decaying partials, training "
     "recovers the frequency, decay and amplitude of each partial within the "
     "resolution of the analysis.",
     ["inputs"], "all modal sounds and analysis parameters",
     "Tests use a few fixed sounds.",
     ["sample/sample.py", "sample/hinge.py", "sample/sms/mm.py"],
     [("hinge regression of each track", "sample/hinge.py")],
     na=NA + "accuracy over inputs is generation-based testing")
prop("C91", "Psychoacoustic and decibel conversions invert each other",
     "Each frequency, loudness and amplitude scale conversion is monotone and "
     "its inverse conversion returns the original value.",
     ["inputs"], "all values in the domain of a conversion",
     "Tests sample a few values.",
     ["sample/psycho.py", "sample/utils/dsp.py"],
     [("closed-form formulas", "sample/psycho.py")],
     na=NA + "belongs to property-based testing or proof")
prop("C93", "Deprecated names keep the meaning of the names that replace them",
     "Using a deprecated argument or function name has the effect of the "
     "current one, with a warning.",
     ["inputs", "configurations"], "all deprecated names",
     "Tests cover some names.",
     ["sample/utils/__init__.py", "sample/utils/learn.py"],
     [("decorators that map old names", "sample/utils/__init__.py")],
     na=NA + "belongs to differential testing")
