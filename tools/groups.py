"""What is built, and which property runs on which binary."""
CORE = "subprojects/ufjfmltk-core/src/"
THREAD_FLAGS = ["-std=c++17", "-O1", "-g", "-fsanitize=thread", "-w", "-D_GLIBCXX_ASSERTIONS"]
THREAD_ASSUME = ["the C++ memory model below the interleaving level is checked by the happens-before race detector, not by enumerating weak-memory outcomes",
                 "code of libstdc++.so, libc and the loader is not instrumented; its synchronisation is simulated at the pthread/futex boundary"]
THREAD_STUB = ["OS scheduler (seeded cooperative scheduler over pthread/futex/atomic entry points)", "clock and sleeping (simulated time)", "heap (operator new with red zones and no reuse, allocation faults)", "thread creation failure"]
SEQ_FLAGS = ["-std=c++17", "-O1", "-g", "-fsanitize=address", "-fsanitize-coverage=trace-pc", "-w", "-D_GLIBCXX_ASSERTIONS"]
SEQ_LINK = ["-no-pie", "-fsanitize=address"]
SEQ_SIM = ["core", "env", "steps"]
SEQ_STUB = ["CPU speed and process scheduling (every executed basic block costs simulated time; stalls are injected)", "clocks (simulated, with stalls and wall-clock steps)", "std::random_device (seeded or adversarial)", "contents of fresh heap memory"]
SEQ_ASSUME = ["simulated time advances per executed basic block of the code under test; library code in libstdc++.so and libm takes no simulated time",
              "AddressSanitizer and libstdc++ assertions are on, so memory errors count as violations in every run"]
CORE_SRCS = [CORE + "Utils.cpp", CORE + "Random.cpp", CORE + "Datasets.cpp", "subprojects/ufjfmltk-classifier/src/int_dll.cpp"]
GROUPS = {
 "pool": dict(sim=["core", "env", "threads"], srcs=["pool.cpp"], repo_srcs=[], flags=THREAD_FLAGS, link=["-no-pie"], nontrivial="sched",
     rule="distinct sequences of (thread, synchronisation operation) over the run, i.e. distinct interleavings; every run has at least two live threads except failed constructions.",
     real=["mltk::ThreadPool", "mltk::synced_stream", "libstdc++ std::function/promise/future/queue/thread wrappers (header code)"], stub=THREAD_STUB, assume=THREAD_ASSUME),
 "dm": dict(sim=["core", "env", "threads"], srcs=["dm.cpp"], repo_srcs=[CORE + "Utils.cpp", CORE + "Random.cpp"], flags=THREAD_FLAGS, link=["-no-pie"], nontrivial="sched",
     rule="distinct sequences of (thread, synchronisation operation) over the run, i.e. distinct interleavings of the pool's workers computing the matrix.",
     real=["mltk::metrics::dist::DistanceMatrix and metrics", "mltk::ThreadPool", "mltk::Data, mltk::Point", "mltk::classifier::KNNClassifier"], stub=THREAD_STUB, assume=THREAD_ASSUME),
 "train": dict(sim=SEQ_SIM, srcs=["train.cpp", "clock.cpp", "kmeans.cpp"], repo_srcs=CORE_SRCS, flags=SEQ_FLAGS, link=SEQ_LINK, nontrivial="trace",
     rule="distinct runs by their trace hash: the sequence of injected faults and clock readings together with the observed results (steps, updates, weights).",
     real=["mltk::classifier perceptron family, IMAp, IMApFixedMargin, IMADual, SMO", "mltk::regressor::LMSPrimal", "mltk::clusterer::KMeans", "mltk::Timer, mltk::Learner, mltk::Kernel, mltk::Data"], stub=SEQ_STUB, assume=SEQ_ASSUME),
 "data": dict(sim=SEQ_SIM, srcs=["data.cpp", "learn.cpp"], repo_srcs=CORE_SRCS, flags=SEQ_FLAGS, link=SEQ_LINK, nontrivial="trace",
     rule="distinct runs by their trace hash: the random draws that took effect, the operations performed and their results.",
     real=["mltk::Data, splitting, sampling, generators", "mltk::random", "mltk::SMOTE, BorderlineSMOTEOne, RSM, DSM", "mltk::ensemble bagging, AdaBoost, committee, voting; OneVsAll, OneVsOne", "mltk::validation kfold, kkfold, kfoldsplit, partTrainTest", "the trainers evaluated"], stub=SEQ_STUB, assume=SEQ_ASSUME),
 "io": dict(sim=SEQ_SIM + ["disk"], srcs=["io.cpp"], repo_srcs=CORE_SRCS, flags=SEQ_FLAGS, link=SEQ_LINK, nontrivial="trace",
     rule="distinct runs by their trace hash: the size and outcome of every simulated system call, the injected faults, and the loaded or written contents.",
     real=["mltk::Data load (csv, data, arff, txt) and write (csv, data, plt)", "mltk::utils number parsing", "libstdc++ fstreams down to the read/write/open/close calls"], stub=["the disk: open, read, write, writev, lseek, close (short, interrupted, failing, full, crashing, changing files)", "contents of fresh heap memory", "heap (allocation faults)"], assume=SEQ_ASSUME),
 "book": dict(sim=SEQ_SIM, srcs=["book.cpp"], repo_srcs=CORE_SRCS, flags=SEQ_FLAGS, link=SEQ_LINK, nontrivial="trace",
     rule="distinct runs by their trace hash: the random draws that took effect, and the ids, labels and dimensions of every dataset after every operation.",
     real=["mltk::Data, mltk::Point"], stub=SEQ_STUB, assume=SEQ_ASSUME),
 "featsel": dict(sim=SEQ_SIM, srcs=["featsel.cpp"], repo_srcs=CORE_SRCS, flags=SEQ_FLAGS, link=SEQ_LINK, nontrivial="trace",
     rule="distinct runs by their trace hash: which trainings failed and how, the features each training saw, and the features selected.",
     real=["mltk::featselect Fisher, Golub, RFE", "mltk::classifier IMAp, IMADual, PerceptronPrimal (in the runs with a real learner)", "mltk::validation kfold", "mltk::Data"], stub=SEQ_STUB + ["in half of the runs the learner (weights chosen by the simulator)", "training failures (the real or stub learner reports failure or throws at chosen trainings)"], assume=SEQ_ASSUME),
 "ensem": dict(sim=SEQ_SIM, srcs=["ensem.cpp"], repo_srcs=CORE_SRCS, flags=SEQ_FLAGS, link=SEQ_LINK, nontrivial="trace",
     rule="distinct runs by their trace hash: which trainings failed and how, the points each member saw, and every prediction.",
     real=["mltk::ensemble VotingClassifier, BaggingClassifier, AdaBoostClassifier, PerceptronCommittee", "mltk::classifier OneVsAll, OneVsOne", "mltk::classifier PerceptronPrimal, BalancedPerceptron, IMAp, PerceptronDual, KNNClassifier (in the runs with real members)", "mltk::SMOTE, mltk::Data"], stub=SEQ_STUB + ["in half of the runs the members (predictions chosen by the simulator)", "training failures (real or stub members report failure, forget or throw at chosen trainings)"], assume=SEQ_ASSUME),
 "plot": dict(sim=SEQ_SIM + ["disk", "plotter"], srcs=["plot.cpp"], repo_srcs=CORE_SRCS + ["subprojects/ufjfmltk-visual/src/gnuplot_i.cpp"], flags=SEQ_FLAGS, link=SEQ_LINK, nontrivial="trace",
     rule="distinct runs by their trace hash: the size and outcome of every pipe and disk write, the injected faults, and what each operation delivered or reported.",
     real=["Gnuplot (session start, commands, setters, plots, data files, close)", "libc stdio above the pipe", "libstdc++ fstreams down to the write/open/close calls"], stub=["the plotter process and its pipe (spawn failure, death after any byte, interrupted write, close failure)", "SIGPIPE delivery", "environment and installed executables (DISPLAY, PATH, access)", "the disk of temporary files"], assume=SEQ_ASSUME),
 "visual": dict(sim=SEQ_SIM + ["disk", "plotter"], srcs=["visual.cpp"], repo_srcs=CORE_SRCS + ["subprojects/ufjfmltk-visual/src/gnuplot_i.cpp"], flags=SEQ_FLAGS, link=SEQ_LINK, nontrivial="trace",
     rule="distinct runs by their trace hash: the outcome of every simulated file, folder and pipe operation, the injected faults, and what each plot delivered or reported.",
     real=["mltk::visualize::Visualization (sessions, samples, every plot function)", "Gnuplot", "mltk::Data", "libstdc++ std::filesystem and fstreams down to the system calls"], stub=["the working directory: files, folders, listing order, removal, renaming (each may fail), and other processes creating folders in it", "the plotter process and its pipe", "clock (timestamps)"], assume=SEQ_ASSUME),
}
PROPS = {
 "C01": dict(group="pool", runs=60000), "C02": dict(group="pool", runs=60000), "C03": dict(group="pool", runs=60000), "C04": dict(group="pool", runs=60000),
 "C05": dict(group="pool", runs=60000), "C06": dict(group="pool", runs=60000), "C07": dict(group="pool", runs=60000),
 "C08": dict(group="dm", runs=120000),
 "C09": dict(group="train", runs=80000), "C10": dict(group="train", runs=60000), "C20": dict(group="train", runs=60000), "C14": dict(group="train", runs=60000),
 "C11": dict(group="data", runs=60000), "C13": dict(group="data", runs=60000), "C15": dict(group="data", runs=60000), "C22": dict(group="data", runs=60000), "C12": dict(group="data", runs=30000),
 "C16": dict(group="io", runs=60000), "C17": dict(group="io", runs=90000), "C18": dict(group="io", runs=60000),
 "C19": dict(group="plot", runs=60000),
 "C23": dict(group="visual", runs=40000),
 "C24": dict(group="book", runs=120000),
 "C25": dict(group="featsel", runs=60000),
 "C26": dict(group="ensem", runs=60000),
}
