# executed by meta.py
prop("C01", "Thread pool runs every accepted task exactly once",
 "Every task accepted by the thread pool (plain push, push with arguments, submit, loop blocks) is executed exactly once, with the arguments given at submission, however many client threads submit, and whatever pausing, unpausing, resizing and waiting happens around it; destroying an unpaused pool first completes everything still queued. No submitted task is lost, duplicated or run with corrupted state, and a one-thread pool starts the tasks of each submitter in submission order.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of 1-4 client threads with 1-6 workers, all histories of push/submit/pause/unpause/reset/wait/destroy, stalled workers, spurious and late wake-ups",
 "tests/ never construct the pool directly; the only use is one DistanceMatrix on the host scheduler",
 [C+"ThreadPool.hpp"],
 [("push/pop under queue_mutex", C+"ThreadPool.hpp:push_task,pop_task"), ("worker loop", C+"ThreadPool.hpp:worker"), ("destructor waits", C+"ThreadPool.hpp:~ThreadPool")],
 [("tasks", "FIFO of accepted tasks", C+"ThreadPool.hpp"), ("tasks_total", "queued + running", C+"ThreadPool.hpp")],
 technique="deterministic simulation: seeded scheduler and fault injector over the real thread pool code", note='Seeded search over interleavings, stalls and op histories of the real pool code; every execution is recorded and compared with a FIFO reference book of accepted tasks. Absence of a violation is evidence over the explored schedules, not proof.')

prop("C02", "Waiting on the pool is a completion barrier, and always returns",
 "When waiting for tasks returns on an unpaused pool, every task accepted before the call has finished and all its writes are visible to the waiter without a data race; on a paused pool it returns only when no task is executing. Waiting, destroying and resizing return within a bounded time once the tasks themselves finish, under every schedule and with stalled or slow workers.",
 ["schedules", "fault_sequences"],
 "all interleavings of waiters, submitters and workers; worker stalls of up to simulated seconds; poll intervals including 0",
 "no test races wait_for_tasks with concurrent submissions or checks visibility; a lost wake-up or early return needs one specific interleaving",
 [C+"ThreadPool.hpp"],
 [("tasks_total counter polled by waiters", C+"ThreadPool.hpp:wait_for_tasks"), ("decrement after the task body", C+"ThreadPool.hpp:worker")],
 technique="deterministic simulation: seeded scheduler and fault injector over the real thread pool code", note="Seeded search; barrier, visibility (happens-before race detector over the task's own writes) and bounded progress once faults stop are checked in every run.")

prop("C03", "Parallel loops cover their range exactly once and wait for it",
 "A parallel loop over [first,last) (bounds in either order, any integral types, any requested block count, any pool size) calls the body on contiguous, non-empty, disjoint blocks whose union is exactly the range, at most as many blocks as requested (by default one per thread), and nothing for an empty range. It returns only after every block has finished and its effects are visible, even when other tasks or other loops share the pool.",
 ["schedules", "inputs", "configurations"],
 "all ranges and signedness combinations, block counts 0..2n, pool sizes 1-6, concurrent loops from several client threads, stalled workers",
 "the only caller is DistanceMatrix with one range shape; the block arithmetic and the completion latch are never tested",
 [C+"ThreadPool.hpp"],
 [("block arithmetic and blocks_running latch", C+"ThreadPool.hpp:parallelize_loop")],
 technique="deterministic simulation: seeded scheduler and fault injector over the real thread pool code", note='Seeded search over ranges, types, block counts, pool sizes and schedules; blocks recorded and compared with the exact partition.')

prop("C04", "A submitted task's future delivers its own result or exception",
 "Each submit returns a future that becomes ready exactly when its own task has finished, yields that task's return value (true for a void task) or rethrows that task's exception, and never another task's. A throwing submitted task does not disturb the pool, the other tasks or the waiters.",
 ["schedules", "fault_sequences"],
 "all interleavings of submitters, workers and future readers; any subset of tasks throwing; slow workers",
 "submit is never called by the tests",
 [C+"ThreadPool.hpp"],
 [("shared promise captured by the task", C+"ThreadPool.hpp:submit")],
 technique="deterministic simulation: seeded scheduler and fault injector over the real thread pool code", note="Seeded search; each future is compared with its own task's known result or exception, with early readers, dropped futures and throwing tasks.")

prop("C05", "Pausing and resizing the pool lose nothing and start nothing",
 "Once a pause has been followed by a wait that returned, no task starts until the pool is unpaused; tasks queued meanwhile, and tasks queued when the pool is resized, are kept and run later. Resizing gives exactly the requested number of workers (the machine's concurrency for 0), keeps the paused state, and the counters stay truthful: at quiescence total = queued + running, and the number of running tasks never exceeds the number of workers.",
 ["schedules", "histories"],
 "all interleavings of pause/unpause/wait/resize with submitters and workers, including workers stalled between looking at the pause flag and taking a task",
 "pausing, resizing and the counters are untested",
 [C+"ThreadPool.hpp"],
 [("paused flag read by workers", C+"ThreadPool.hpp:worker"), ("reset", C+"ThreadPool.hpp:reset"), ("counters", C+"ThreadPool.hpp:get_tasks_running,get_tasks_queued,get_tasks_total")],
 technique="deterministic simulation: seeded scheduler and fault injector over the real thread pool code", note='Seeded search; pause windows, resize results and counters are checked against the recorded task history at quiescent points.')

prop("C06", "A failed allocation or thread creation never wedges the pool",
 "When memory or thread creation fails inside a pool operation, the caller gets the exception and the process goes on: the failed submission is not counted or executed, every task already accepted still runs exactly once, a loop that failed part-way leaves no block running after it returns, and waiting, later submissions and destruction still complete.",
 ["fault_sequences", "schedules"],
 "every allocation or thread-creation call inside construct/push/submit/loop/reset failing, alone or in bursts, under any interleaving",
 "the tests never fail an allocation or a thread creation",
 [C+"ThreadPool.hpp"],
 [("order of counter update and queue insertion", C+"ThreadPool.hpp:push_task"), ("thread creation loop", C+"ThreadPool.hpp:create_threads"), ("block submission loop", C+"ThreadPool.hpp:parallelize_loop")],
 technique="deterministic simulation: seeded scheduler and fault injector over the real thread pool code", note='Seeded search that fails allocations and thread creations inside pool calls, one by one and in bursts, under random schedules.')

prop("C07", "Messages printed through a synchronized stream never interleave",
 "Messages printed concurrently through one synchronized stream appear whole, exactly once each, and in each thread's own order; println ends its message with one newline as part of the same unit. The underlying stream is only ever touched by one thread at a time.",
 ["schedules"],
 "all interleavings of 2-5 threads printing multi-item messages, with preemption inside the stream buffer",
 "synced_stream is untested",
 [C+"ThreadPool.hpp"],
 [("stream_mutex held over the whole fold", C+"ThreadPool.hpp:synced_stream::print")],
 technique="deterministic simulation: seeded scheduler and fault injector over the real thread pool code", note='Seeded search; output of an unsynchronized sink with preemption inside the buffer must parse as whole messages in per-thread order.')

prop("C08", "The parallel distance matrix equals the sequential one",
 "For every dataset order, thread count, storage mode and schedule, the precomputed distance between two points of the dataset, addressed by their ids, equals the metric applied to those points, and computing it has no data race or out-of-range access. A nearest-neighbour classifier using the precomputed distances predicts exactly as one computing distances directly when the query has no distance ties.",
 ["schedules", "inputs", "configurations"],
 "all schedules, 1-6 threads, datasets of 1-12 points in any id order (shuffled, split), full and triangular storage",
 "one test, ordered ids, one schedule; a misaddressed row or racing row allocation needs shuffled ids or a particular interleaving",
 [C+"DistanceMatrix.hpp", CL+"KNNClassifier.hpp", C+"ThreadPool.hpp"],
 [("row blocks computed by the pool", C+"DistanceMatrix.hpp:compute"), ("id-based lookup", CL+"KNNClassifier.hpp:evaluate")],
 technique="deterministic simulation: seeded scheduler and fault injector over the real thread pool code", note="Seeded search over schedules, thread counts, id orders and storage modes of the real DistanceMatrix on the real pool; oracle: the metric applied directly, pair by pair; race detector and ASan-free bounds checks (_GLIBCXX_ASSERTIONS) on.")

prop("C09", "Iterative trainers stop within one pass of their time budget",
 "Every iterative trainer with a time budget returns by itself: once the elapsed time passes the budget it starts no further full pass over the data, on separable and inseparable data alike and under any clock behaviour (stalls, slow passes, wall-clock steps forwards or backwards). It also never gives up early: with budget left it stops only for convergence or an explicit iteration, update or epoch limit.",
 ["schedules", "fault_sequences", "inputs"],
 "all clock schedules (per-read advance, stalls, wall-clock jumps of either sign), budgets 0 to simulated minutes, separable and inseparable datasets",
 "tests run on the host clock with the default budget, never with a slow pass or a clock step",
 [C+"Learner.hpp", C+"Timer.hpp", CL+"Perceptron.hpp", CL+"IMA.hpp", RG+"LMS.hpp", KM+"KMeans.hpp"],
 [("per-pass check of timer.elapsed() against max_time", CL+"Perceptron.hpp"), ("timer", C+"Timer.hpp")],
 technique='deterministic simulation: real trainers on a simulated CPU, clock and heap with injected stalls and clock steps', note='Seeded search over datasets, budgets, limits, per-block CPU cost, stalls and wall-clock steps; the work done after the deadline is counted in executed basic blocks and bounded by one pass, and a run that stops before its budget must equal the same training with time standing still. Not covered: custom kernels, SMO (it has no time budget, only an epoch limit).')

prop("C10", "Timers report elapsed time and survive wall-clock changes",
 "A timer's elapsed time is the time that really passed since its construction or last reset, in the unit asked for: never negative, never decreasing between resets, and unaffected by wall-clock steps. A stopped stopwatch keeps reporting the interval between its last start and stop.",
 ["schedules", "fault_sequences"],
 "all sequences of start/stop/reset/read under clock advances, stalls and wall-clock steps of either sign",
 "no test controls the clock",
 [C+"Timer.hpp", C+"ThreadPool.hpp", C+"Learner.hpp"],
 [("clock choice", C+"Timer.hpp"), ("stopwatch", C+"ThreadPool.hpp:timer")],
 technique='deterministic simulation: timers read against the simulated clock under stalls and wall-clock steps', note='Seeded search over start/stop/reset/read histories, clock advances from nanoseconds to weeks, stalls between readings and wall-clock steps of either sign; oracle: the true simulated interval.')

prop("C11", "A given seed reproduces the same data operations",
 "With the same data, parameters and non-zero seed, shuffling, sampling, splitting, fold generation, dataset generators, random subspaces and oversampling give identical results however often and after whatever other random operations they are called, and whatever the entropy source and clock return.",
 ["histories", "fault_sequences", "inputs"],
 "all call histories of seeded and unseeded operations before the call; all entropy and clock values, including constant and failing entropy",
 "tests call each operation once per process; history dependence of the shared generator never shows",
 [C+"Data.hpp", C+"Sampling.hpp", CS+"Datasets.cpp", CS+"Random.cpp", C+"Point.hpp", VA+"Validation.hpp"],
 [("seed handling", CS+"Random.cpp:init"), ("seed==0 means entropy", VA+"Validation.hpp")],
 technique='deterministic simulation: real code under simulated entropy (seeded or adversarial), clock and heap contents, seeded search over histories', note='Seeded search over operation x parameters x seed x history of other random operations in between, with entropy, clock, fresh-heap and stack contents varied; results compared field by field with the first call.')

prop("C12", "A given seed reproduces the same trained model",
 "With the same training data, parameters, non-zero seed and enough time budget, every seeded learner (perceptron family, IMA, SMO, k-means, bagging, AdaBoost, committees, k-fold and repeated k-fold evaluation) gives identical models, predictions and reports on every run, whatever random operations, entropy values and clock readings preceded it.",
 ["histories", "fault_sequences", "inputs"],
 "all preceding histories of random operations, entropy values and clock schedules that stay within budget",
 "tests train each model once per process under fixed entropy",
 [C+"Learner.hpp", KM+"KMeans.hpp", EN+"BaggingClassifier.hpp", EN+"AdaBoostClassifier.hpp", EN+"PerceptronCommittee.hpp", CL+"Perceptron.hpp", VA+"Validation.hpp", CS+"Random.cpp"],
 [("Learner::seed", C+"Learner.hpp"), ("global generator", CS+"Random.cpp")],
 technique='deterministic simulation: seeded entropy, heap contents, clock and history injected around repeated trainings', note='Seeded search over learners, parameters, data and foreign random work between two executions of the same seeded training; models, predictions and reports must be bit-identical.')

prop("C13", "Cross-validation folds partition the data and never leak",
 "For every random draw, splitting a dataset into folds puts every sample in exactly one fold; each train/test pair has disjoint parts whose union is the whole dataset, every sample is tested exactly once over the folds, sizes differ by at most the documented rounding, and stratified folds keep each class's count within one. Cross-validated evaluation never shows a classifier the samples it is then tested on, and the original dataset is left unchanged. The error, accuracy and two-class counts reported for a k-fold evaluation are those of the predictions it made.",
 ["fault_sequences", "inputs", "configurations"],
 "all seeds and entropy values, 2-6 folds, class counts from 1 sample up, stratified or not, keeping or renumbering ids, primal and dual classifiers",
 "tests look at fold counts and one accuracy on one draw",
 [C+"Data.hpp", VA+"Validation.hpp"],
 [("splitSample", C+"Data.hpp"), ("kfoldsplit, partTrainTest, kfold", VA+"Validation.hpp")],
 technique='deterministic simulation: real code under simulated entropy (seeded or adversarial), clock and heap contents, seeded search over histories', note='Seeded search over datasets, fold counts, stratification, id modes and draws; partitions judged by sample identity; cross-validation judged by recording what every training saw and by perturbing one sample and requiring that models which must not know it stay bit-identical. A known leak (dual classifiers in kfold/kkfold, pinned by a repository test) is an open finding.')

prop("C14", "K-means yields a valid clustering for every draw and time-out",
 "For every random draw, initialization and time-out point, k-means training terminates without touching memory outside the dataset, its clusters partition the dataset, every point sits in the cluster of a nearest center under the chosen metric, every center is finite and within the range of the data, and evaluation agrees with the clusters. When it stops by convergence under the Euclidean metric with no empty cluster and no tied point, each center is the mean of its points.",
 ["fault_sequences", "inputs"],
 "all draws of initial centers, both initializations, 1 <= k <= n, any time-out point",
 "one dataset and a pinned entropy; some draws index past the dataset",
 [KM+"KMeans.hpp", CS+"Random.cpp"],
 [("initial center draws", KM+"KMeans.hpp:train"), ("center update", KM+"KMeans.hpp:compute_centers")],
 technique='deterministic simulation: real k-means under simulated entropy, clock, CPU stalls and heap contents', note='Seeded search over draws (seeded and adversarial entropy), initialisations, metrics, k, time-out points and retraining; the clustering that comes out is judged by brute force, memory errors by AddressSanitizer in the same runs. The quality of the k-means++ draw (its distribution) is not judged.')

prop("C15", "Oversampling keeps the originals and interpolates the minority",
 "For every random draw, oversampling leaves each original sample and label in place, and each synthetic sample carries a minority label, is finite, and lies between a minority sample and one of its k nearest neighbours of the same class under the chosen metric. The plain sampler makes one synthetic sample per minority sample and neighbour; the borderline sampler uses only the minority samples whose m nearest neighbours are at least half, but not all, of the majority class.",
 ["fault_sequences", "inputs"],
 "all draws and entropy values, k from 1 past the minority size, any class order in the dataset",
 "one dataset where the minority class comes first hides index mix-ups",
 [C+"Sampling.hpp"],
 [("neighbour selection", C+"Sampling.hpp:SMOTE")],
 technique='deterministic simulation: real code under simulated entropy (seeded or adversarial), clock and heap contents, seeded search over histories', note='Seeded search over class sizes and orders, tied and repeated samples, k, m, metrics and draws; every synthetic sample is checked geometrically against a brute-force neighbour search with ties allowed.')

prop("C22", "Random draws deliver exactly what was asked for",
 "For every seed and draw, a random sample of a labelled dataset terminates, holds own samples only, in the requested number shared over the classes in proportion (every class keeps at least one), and without replacement no sample twice; a random subspace is a set of distinct existing features of the requested size. Every sample and every feature can be drawn. Generated datasets have the requested number of samples, features and classes, the ids 1..n, and follow their model: blobs gather around the returned centers, noise-free spirals and regression targets satisfy their equations.",
 ["fault_sequences", "inputs"],
 "all seeds and entropy values, sample sizes from 1 to the whole dataset, class counts from 1 up, subspace fractions, generator parameters",
 "sampling and subspaces are untested; generators are only plotted",
 [C+"Data.hpp", C+"Sampling.hpp", CS+"Datasets.cpp"],
 [("sampling", C+"Data.hpp:sampling"), ("RSM", C+"Sampling.hpp:RSM"), ("generators", CS+"Datasets.cpp")],
 technique='deterministic simulation: real code under simulated entropy (seeded or adversarial), clock and heap contents, seeded search over histories', note='Seeded search over datasets, sizes and draws; coverage of every sample is judged over 400 seeds (chance of a miss below 1e-20).')

prop("C16", "Datasets survive a write and re-load, whatever the I/O pattern",
 "Writing a dataset and loading it back gives the same samples, labels and order (values to the printed precision) in every supported format, and loading the same bytes gives the same dataset however the reads and writes are chunked or interrupted.",
 ["fault_sequences", "inputs"],
 "all datasets over finite values (incl. very small and large), all short-read/short-write/EINTR patterns",
 "tests load well-formed files in one read each and never write one back",
 [C+"Data.hpp", CS+"Utils.cpp"],
 [("load_csv, load_data, load_arff, load_txt, write", C+"Data.hpp"), ("number parsing", CS+"Utils.cpp:atod")],
 technique='deterministic simulation of the disk: seeded search over short and interrupted reads and writes, judged against the table the file was made from and against a second load read in other pieces', note='labels are integers, class names or (regression) reals; values compared to the printed six digits; files of up to 10 rows')

prop("C17", "Loading a damaged or failing file fails cleanly or truthfully",
 "When a read fails, the file is truncated, torn by a crash or changes while it is being loaded, loading never crashes, touches invalid memory or runs forever; it reports failure, or yields a well-formed dataset whose samples are exactly rows present in the file. A failed load never reports success for a partial dataset.",
 ["fault_sequences", "crash_points"],
 "every read call failing or coming short; every truncation point of a written file; file replaced between passes",
 "tests only read intact files",
 [C+"Data.hpp"],
 [("two-pass loaders", C+"Data.hpp:load_csv,load_data,load_txt,load_arff")],
 technique='deterministic simulation of the disk: seeded search over read errors, damage, torn and crashed writes, files that change or shrink while being read, failing allocations; judged row by row against the byte streams the simulated disk actually delivered', note='a load that reports success must agree with one complete pass over the file; entries that are not numbers carry no claim')

prop("C18", "A dataset write that did not reach the file is reported",
 "When opening, writing, flushing or closing the output file fails (full disk, I/O error, short write), writing a dataset reports the failure to the caller's error channel; when it reports nothing, the file holds the complete dataset.",
 ["fault_sequences", "crash_points"],
 "every open/write/close call failing with ENOSPC, EIO or coming short",
 "tests never fail a write",
 [C+"Data.hpp"], [("write", C+"Data.hpp:write")],
 technique='deterministic simulation of the disk: seeded search over open, write, close failures, short writes and full disks; the file on the simulated disk is compared with the one a working disk gets', note='the error channel is std::cerr (or an exception)')

prop("C19", "Plot commands reach the plotter whole, in order, or fail loudly",
 "Every command sent to a plotting session (raw commands, setters, plots of functions, files or in-memory data) has reached the plotter process complete and in order when the call returns, and the data file a plot names is complete by then; what could not be delivered or written is reported by an exception, and nothing sent later is glued to a command that was cut short. A session that cannot be started (no display, no plotter on the path, failing fork) is reported by an exception and leaves no process behind. A dead plotter never kills or crashes the program, neither while commands are sent nor when the session is closed, and the program's SIGPIPE handling is left as it was.",
 ["fault_sequences", "schedules"],
 "every spawn, pipe-write, temporary-file and close failure; plotter dying after any byte; every way the display, PATH and program can be present or missing; host programs that ignore, handle or block SIGPIPE",
 "tests need a display and a live gnuplot",
 [VI+"src/gnuplot_i.cpp", VI+"include/ufjfmltk/visual/gnuplot_i.hpp"],
 [("popen/fputs/pclose wrapper", VI+"src/gnuplot_i.cpp")],
 technique="deterministic simulation of the plotter process: the real session class runs over simulated popen/pclose, pipe, environment and disk; seeded choice of operations and of spawn, pipe, interrupt, temp-file and close faults; the plotter's byte stream is compared with a reference model of the session", note='gnuplot itself is not run: what the plotter does with a complete command is outside the property')

prop("C20", "Trainers that claim convergence really separate the data",
 "Whenever a linear or kernel trainer reports success, its solution classifies every training sample correctly (with the margin it reports), whatever the clock did and wherever it was close to a time-out; when it stops by time-out, iteration or update limit before separating the data it reports failure, and it still yields a finite, usable solution. The same holds for a trainer trained again, also on other samples of another size or dimension (a kernel trainer given as many points as before needs recomputeKernel() first).",
 ["fault_sequences", "inputs"],
 "all time-out points, per-pass clock schedules and limits, separable and inseparable data",
 "tests check accuracy thresholds on one dataset at host speed",
 [CL+"Perceptron.hpp", CL+"IMA.hpp", CL+"SMO.hpp"],
 [("convergence flag", CL+"Perceptron.hpp"), ("IMA margin loop", CL+"IMA.hpp")],
 technique='deterministic simulation: real trainers on a simulated CPU, clock and heap with injected stalls and clock steps', note="Seeded search over datasets, limits, time-outs at every point, retraining histories; every success claim is judged by recomputing the decision function of the returned solution on the recorded training set. Contract assumed: a dual learner's kernel is recomputed (recomputeKernel) when it gets other samples, which a repository test pins. Tolerance: 1e-9 of the magnitude summed (rounding), SMO's own tolerance widened to 0.02.")

prop("C21", "Point algebra, kernels, metrics and statistics compute their formulas",
 "Vector expressions, distance metrics, kernel functions and descriptive statistics equal their mathematical definition for every finite input.",
 ["inputs"], "all finite vectors", "tests sample a handful of vectors",
 [C+"Point.hpp", C+"ExprOps.hpp", C+"DistanceMetric.hpp", C+"Kernel.hpp", C+"Statistics.hpp"],
 [("expression templates", C+"ExprOps.hpp")],
 na="Pure functions of their arguments: no schedule, clock, randomness, I/O or failure for a simulator to control; input generation alone would not be this technique.")

prop("C23", "Visualization sessions own only their own folder, and plots show the data",
 "A visualization session writes its data files only into a folder it created itself (never one that already existed or that somebody else created meanwhile), and at setSample or at its end removes that folder with everything in it, or, when asked to keep it, renames it to an unused name; it touches no other file or folder. What cannot be removed or renamed is reported on the error stream and left as it is, and ending a session never throws. Every script a plot function sends names one data file per class, titled with that class, whose contents when the script arrives are exactly that class's points (right columns, titles, labels, output, hyperplane; for a decision surface the learner's own evaluations), and the returned string is the script that was sent. If the folder or a data file could not be created or completely written, the plot is reported (exception or error stream) and not sent. Plots of bare vectors keep their data in output/<name>.dat. After a session every plotter and file handle is closed.",
 ["fault_sequences", "histories", "crash_points"],
 "all sequences of samples and plots; every folder or file create, write, close, remove and rename failing; folders of other processes present before or appearing between any two system calls; listing order; the plotter dying",
 "tests plot one dataset into an empty working directory on a working disk",
 [VI+"include/ufjfmltk/visual/Visualization.hpp"],
 [("createFolder/removeTempFiles/setSample", VI+"include/ufjfmltk/visual/Visualization.hpp"), ("plot scripts", VI+"include/ufjfmltk/visual/Visualization.hpp:plot2D")],
 technique="deterministic simulation of the working directory, the disk and the plotter process: real sessions run over simulated file-system calls with injected failures, foreign folders appearing at any point, reordered listings and a dying plotter; every script and every file it names is compared with a reference model when it arrives", note="gnuplot itself is not run. The files and folders outside the session are recorded before and compared after.")

prop("C24", "Every dataset operation keeps the dataset's books",
 "After any history of insertions, removals, label updates, shuffles, joins (of equal dimension and type), copies, splits, samplings, class copies, feature removals or selections and normalization, and whatever the random seeds and the heap hold, a dataset's size, emptiness, dimension, labels, columns, type, feature names, index (a permutation of its positions), class list, class names and class frequencies agree with the points it holds. Each operation changes exactly what it says: other points keep values, label, id and order, and an operation that reports failure changes nothing. Copies and derived datasets are independent of the original, keep its type and feature names, and hold only its points.",
 ["histories", "fault_sequences"],
 "all histories of 1-30 operations on several datasets derived from each other, all random-device values, recycled heap memory",
 "tests apply single operations to one fixed dataset",
 [C+"Data.hpp"],
 [("insertPoint/removePoint(s)/updatePointValue/join", C+"Data.hpp"), ("class counts", C+"Data.hpp:computeClassesDistribution")],
 technique="deterministic simulation: seeded search over operation histories on real datasets with the random device and the heap contents under the simulator, compared with a reference model after every step", note="Raw setters (setDim, setClasses, setPoint), assignment (which shares points), inserting a point owned by another dataset and joining different dimensions are outside the property.")

FS = "subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/"
prop("C25", "Feature selection always ends with a usable reduced dataset",
"For every binary dataset, requested dimension (1 up to the dataset's) and learner, whichever of its trainings succeed, fail, run out of time or throw, and on every repetition, selectFeatures() of Fisher, Golub and RFE ends after at most one training of the full dataset and one per elimination step. It returns a reduced copy of the caller's dataset: the features of the last successful training (all of them if none succeeded) under their original names and in their original order, and every point with its values, label, id, order and classes. That is exactly the requested dimension (given to the constructor or the setters) when every training succeeded, and never fewer. The filters drop the features of least separation score first (a constant feature scores nothing), RFE those of least weight in the last successful training. The caller's dataset is untouched, also when a training throws or memory runs out, and the selector can be used again.",
["fault_sequences", "histories"],
"all sequences of training successes, failures, time-outs, exceptions and allocation failures within a selection and its repetition, over random datasets, weights, dimensions and step sizes",
"tests run each selector on a dataset where every training succeeds, and look at the dimension",
[FS+"FeatureSelection.hpp", FS+"Fisher.hpp", FS+"Golub.hpp", FS+"RFE.hpp"],
[("partial result", FS+"RFE.hpp:stmp_partial"), ("ranking", FS+"Fisher.hpp:fisher_select_compare_score_greater"), ("elimination loop", FS+"RFE.hpp:selectFeatures")],
technique="deterministic simulation with training failures: real selectors drive a real or stub learner behind a seam that fails, times out or throws at seeded trainings; the returned dataset is compared with the recorded history of trainings and an executable score model", note="AOS is outside the property: its search frees nodes its hash table still refers to and reads past its weight list when the breadth exceeds the dimension (see DESIGN.md). RFE with cross-validation may stop early by design; its exact dimension is then not checked.")
EN="subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/"; CLS="subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/"
prop("C26", "Ensembles answer with the vote of their members, whatever their trainings did",
"For every dataset and every member learner, whichever of the members' trainings succeed, fail, run out of time, leave the member without a model or throw, and on every retraining (also on another dataset): a completed train() of VotingClassifier, BaggingClassifier, AdaBoostClassifier, OneVsAll and OneVsOne trains each of its members (those it was given, or built) exactly once, on points of the ensemble's dataset only: all of them under their own labels for voting and boosting, a non-empty sample of them for bagging, every point relabelled (its class 1, the others -1) for one-versus-all, exactly the points of the two classes (1 and -1) for one-versus-one; a dual or primal perceptron that reports success classifies those points correctly. evaluate() then returns a class of the dataset that got the best score from the members, each asked with evaluate(): the number of votes (voting hard, bagging, committee), the sum of the weights given to setWeights (soft), the sum of ln((1-e)/e)+ln(K-1) over the members voting for it (AdaBoost, e the member's weighted error, 1 instead of the quotient's logarithm for a flawless member, nothing for one wrong on every point), the largest decision value evaluate(p, true) (one-versus-all), the most duels won (one-versus-one, the second class winning unless the member answers 1). A vote for no class of the dataset counts for none. Predictions do not depend on earlier evaluations, batchEvaluate agrees with evaluate, setWeights survives a change of voting type, copies of a voting classifier answer like the original, a train() that threw can be repeated, and the caller's dataset is untouched.",
["fault_sequences", "histories"],
"all sequences of member trainings that succeed, fail, time out, forget, throw or run out of memory, over retrainings on the same and on other datasets and interleaved evaluations, for random datasets, members and weights",
"tests train each ensemble once on a dataset where every training succeeds, and look at the accuracy",
[EN+"VotingClassifier.hpp", EN+"BaggingClassifier.hpp", EN+"AdaBoostClassifier.hpp", EN+"PerceptronCommittee.hpp", EN+"Ensemble.hpp", CLS+"OneVsAll.hpp", CLS+"OneVsOne.hpp"],
[("vote", EN+"VotingClassifier.hpp:evaluate"), ("weights of the members", EN+"AdaBoostClassifier.hpp:train"), ("relabelling", CLS+"OneVsAll.hpp:train"), ("duels", CLS+"OneVsOne.hpp:evaluate")],
technique="deterministic simulation with training failures: real ensembles drive real or stub members behind a seam that fails, forgets, times out or throws at seeded trainings; what every member was trained on is compared with the caller's dataset, and every prediction with a vote taken over the members by an executable model", note="AutoWeightedVoting does not compile when instantiated and is outside the property. OneVsAll and OneVsOne are retrained on datasets with the same number of classes only (they build their members in the constructor). Predictions are judged once a train() has returned for the dataset the ensemble was given.")
