"""Source of properties.jsonl and MANIFEST.json: `python tools/spec.py` rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, level="exploration", observe=None):
    assert len(title) <= 80, (pid, len(title))
    anchors = dict(files=["mlmc/" + f for f in files],
                   mechanism=[dict(name=n, where="mlmc/" + w) for n, w in mechanism])
    if observe:
        anchors["observe_at"] = observe
    P.append((dict(id=pid, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
                   why_tests_cant=" ".join(why.split()), anchors=anchors),
              dict(technique=technique, level=level, level_note=" ".join(note.split()))))


BOUND = "Bounded by the seeded random cases of the tier (evidence lists cases, events and distinct states)."

prop("C01", "Scheduling creates exactly the requested samples",
     """After a scheduling call every level has exactly as many scheduled samples as its current target, or as before if it already had more, no
     matter how the targets were given (list, range, default), how many calls and polls preceded, which samples failed, or whether
     the sampler was recreated over the stored run. Every sample has an id unique in the whole run and it is given to the pool once, with the simulation
     of its own level: fine parameters of its level and coarse parameters of the preceding one (none at the first level).""",
     ["inputs", "histories"], "All numbers of levels, sequences of targets, schedule/poll/restart calls and storages.",
     "Tests schedule a few fixed vectors once; they never mix ranges, increments, failures and sampler restarts.",
     ["sampler.py"], [("scheduling", "sampler.py::Sampler.schedule_samples"), ("targets", "sampler.py::Sampler.set_initial_n_samples"),
                      ("level simulations", "sampler.py::Sampler._create_level_sim_objects")],
     "runtime monitor of scheduling histories against a counter model", "Recording pool under the real sampler and storages. " + BOUND)

prop("C02", "Every scheduled sample is collected exactly once",
     """Each sample given to an in-process, multi-process or thread pool is delivered to the storage exactly once, as successful on its level with
     the pair of results its simulation computed, or as failed. After every poll the reported number of running samples is the
     number scheduled minus the number delivered, and it gets to zero when all samples are finished.""",
     ["schedules", "inputs"], "All interleavings of workers and polls, sample durations, numbers of workers, batch sizes.",
     "Tests run a handful of undisturbed schedules and look only at final counts.",
     ["sampling_pool.py", "sampler.py", "sample_storage.py", "sample_storage_hdf.py"],
     [("result queues", "sampling_pool.py::OneProcessPool._queues_to_list"), ("collection", "sampling_pool.py::OneProcessPool.get_finished"),
      ("callbacks", "sampling_pool.py::ProcessPool.schedule_sample"), ("poll", "sampler.py::Sampler.ask_sampling_pool_for_samples")],
     "offline exactly-once checker over event logs, injected delays", "Interleavings are those produced by stress, tiny switch interval and delays injected at line events of the pool code. " + BOUND)

prop("C03", "The result of a sample is determined by its id alone",
     """The pair of results of a sample depends only on its id and the simulation of its level: it is bitwise the same for every pool, number of
     workers, scheduling round, order of completion, storage, restart, process and state of global random generators. Seeds are valid
     for the random generators and different samples have different seeds up to accidental collisions; fine and coarse results of a sample come from the
     same random input.""",
     ["schedules", "configurations", "histories"], "All pools, worker counts, orders, processes and restarts computing the same ids.",
     "Tests compare nothing between pools or processes.",
     ["sampling_pool.py", "sim/synth_simulation.py", "sampling_pool_pbs.py", "tool/pbs_job.py"],
     [("seed", "sampling_pool.py::SamplingPool.compute_seed"), ("calculation", "sampling_pool.py::SamplingPool.calculate_sample"),
      ("random input", "sim/synth_simulation.py::SynthSimulation.generate_random_samples")],
     "differential monitor of id to result maps across pools and processes", BOUND)

prop("C04", "A failing sample never harms the other samples",
     """Whatever happens within one sample (any exception, a result of wrong length, a result or exception that cannot be passed between processes,
     missing workspace files) that sample alone is reported failed, with a non-empty message telling the error, and all other samples are collected
     with the results they have without the failure. The run continues, the numbers of failed and finished samples stay right and
     a failed sample never contributes to the stored results.""",
     ["fault_sequences", "inputs"], "All positions and kinds of faults of samples, pools and storages.",
     "Tests inject at most random NaN failures and check no other sample.",
     ["sampling_pool.py", "sampler.py", "sample_storage_hdf.py", "tool/hdf5.py"],
     [("error handling", "sampling_pool.py::SamplingPool.calculate_sample"), ("result sorting", "sampling_pool.py::OneProcessPool._process_result"),
      ("failed ids", "tool/hdf5.py::LevelGroup.append_failed")],
     "fault injection with an event log oracle", "Faults chosen by the seed of the sample, oracle is the fault table. " + BOUND, "fault_enumeration")

prop("C05", "Stored results are returned unaltered",
     """Whatever sequence of batches was saved, every way of reading (all pairs, chunk by chunk, the first n samples, a given range) returns exactly the
     saved fine and coarse results, bitwise, in the order of saving, on the right level and without the failed ones; chunks of a level
     are disjoint, in order and cover all. The first level is returned with the fine part only, and memory and file storages return the same.""",
     ["histories", "inputs"], "All sequences of saves and reads, batch sizes, result sizes, values including special floating point ones.",
     "Tests save one batch of fixed size and read it once.",
     ["sample_storage.py", "sample_storage_hdf.py", "tool/hdf5.py"],
     [("memory", "sample_storage.py::Memory._save_successful"), ("file append", "tool/hdf5.py::LevelGroup.append_successful"),
      ("chunks", "tool/hdf5.py::LevelGroup.chunks"), ("chunk read", "tool/hdf5.py::LevelGroup.collected"), ("all chunks", "sample_storage.py::SampleStorage.chunks")],
     "online monitor against a list model of the storage", BOUND)

prop("C06", "A reopened file storage continues the run",
     """A file storage reopened at any moment, in the same or another process and after the writing process was killed between storage operations,
     reports the same level parameters, result format, scheduled, collected, failed and unfinished samples, results and costs as before, and refuses a different result format. A
     sampler created over it recognises the previous run, collects nothing twice, never repeats an id, and finishes the requested numbers of samples with all
     previously stored results kept.""",
     ["crash_points", "histories"], "All histories of storage operations and positions of reopening or killing between them.",
     "Tests reopen one finished file and compare a few numbers.",
     ["sample_storage_hdf.py", "tool/hdf5.py", "sampler.py"],
     [("opening", "sample_storage_hdf.py::SampleStorageHDF.__init__"), ("loading", "tool/hdf5.py::HDF5.load_from_file"),
      ("format", "sample_storage_hdf.py::SampleStorageHDF.load_result_format"), ("continuation", "sampler.py::Sampler.__init__")],
     "crash injection and before/after comparison of storage snapshots", "Killing is between storage operations, not within one. " + BOUND, "fault_enumeration")

prop("C07", "Numbers of samples add up at any moment",
     """After every step of a run, on every level, the reported numbers satisfy scheduled = successful + failed + unfinished, the finished number is successful plus failed,
     the collected number equals the number of stored results, and the sets of ids behind them are disjoint and consistent with the numbers.
     The number of samples still running reported to the user is the total of the unfinished ones.""",
     ["histories", "schedules"], "All orders of finishing, failing and polling, over both storages.",
     "Tests look at counts only at the end of an undisturbed run.",
     ["sample_storage.py", "sample_storage_hdf.py", "tool/hdf5.py", "sampler.py"],
     [("memory counts", "sample_storage.py::Memory.n_finished"), ("file counts", "sample_storage_hdf.py::SampleStorageHDF.n_finished"),
      ("unfinished", "tool/hdf5.py::LevelGroup.get_unfinished_ids"), ("sampler", "sampler.py::Sampler.ask_sampling_pool_for_samples")],
     "conservation monitor evaluated after every step", BOUND)

prop("C08", "Cost of a sample is the total time over the number of samples",
     """The cost per sample of each level reported by a storage is the sum of all reported times divided by the sum of reported numbers of samples,
     in any split into reports and across reopening of the file; levels without a report have cost zero. In-process, process and thread pools report the running time of
     each successful sample exactly once, on its level, as long as the sample really took.""",
     ["histories", "inputs"], "All sequences of time reports, levels, reopenings; all pools.",
     "Tests save a constant cost once.",
     ["sample_storage.py", "sample_storage_hdf.py", "sampling_pool.py", "tool/hdf5.py"],
     [("memory", "sample_storage.py::Memory.save_n_ops"), ("file", "sample_storage_hdf.py::SampleStorageHDF.save_n_ops"),
      ("times", "sampling_pool.py::OneProcessPool._save_running_time")],
     "conservation monitor of reported times", "Durations measured by the simulation itself bound the reported times. " + BOUND)

prop("C09", "Renewal runs exactly the failed samples again",
     """Renewing failed samples gives exactly the currently failed samples, under their own ids and levels, to the pool once and forgets their failures; no
     other sample is run again and no id is scheduled anew. A renewed sample that succeeds is stored once, one that fails again is reported failed
     again and can be renewed again, so that repeated renewal ends with every sample either stored or failed and the numbers adding up.""",
     ["histories", "fault_sequences"], "All sequences of failures and renewals, pools, storages, reopenings.",
     "Tests renew once over a file and look at numbers.",
     ["sampler.py", "sample_storage.py", "sample_storage_hdf.py", "tool/hdf5.py"],
     [("renewal", "sampler.py::Sampler.renew_failed_samples"), ("failed ids", "tool/hdf5.py::LevelGroup.get_failed_ids"),
      ("clearing", "tool/hdf5.py::LevelGroup.clear_failed_dataset")],
     "trace checker of renewal histories with injected failures", BOUND)

prop("C10", "The mean estimate is the telescoping sum over levels",
     """The estimated mean of any quantity is the sum over levels of the average difference of fine and coarse values (fine values alone at the first level), computed from exactly
     those samples which have no missing value in the fine or coarse part; the reported numbers of used and removed samples per level count them.
     The estimate depends neither on the order, batches and chunks of the stored samples nor on the kind of the storage.""",
     ["inputs", "histories"], "All data, missing value patterns, numbers of samples, chunkings and quantities.",
     "Tests compare a few estimates of one small data set in one chunk.",
     ["quantity/quantity_estimate.py", "quantity/quantity.py"],
     [("estimate", "quantity/quantity_estimate.py::estimate_mean"), ("missing values", "quantity/quantity_estimate.py::mask_nan_samples"),
      ("sum of levels", "quantity/quantity.py::QuantityMean._calculate_mean_var")],
     "runtime oracle recomputing estimates from raw data", "Tolerance is rounding scaled by the data. " + BOUND)

prop("C11", "Variances of estimates are unbiased sample variances",
     """Level variances are the unbiased sample variances (divisor n-1) of the differences of fine and coarse values over the used samples, infinite for a single sample, and the variance of the
     estimated mean is the sum over levels of the level variance divided by the number of used samples. They are never negative, scale with the square
     of the data, and agree with the spread of estimates from independent repetitions.""",
     ["inputs"], "All data, numbers of samples, chunkings, missing values and quantities.",
     "Tests check no variance against the definition for several levels, chunks or missing values.",
     ["quantity/quantity_estimate.py", "quantity/quantity.py", "estimator.py"],
     [("level variances", "quantity/quantity_estimate.py::estimate_mean"), ("total", "quantity/quantity.py::QuantityMean._calculate_mean_var"),
      ("estimator", "estimator.py::Estimate.estimate_diff_vars")],
     "runtime oracle recomputing variances from raw data", "Tolerance is rounding scaled by the data; the ensemble comparison uses bounds far beyond the statistical error. " + BOUND)

prop("C12", "Operations on quantities act pointwise on every sample",
     """Samples of a quantity built by arithmetic operators (also reflected and with constants), numpy functions and reductions equal the same operation applied to the samples of
     its operands, for every sample, level, fine and coarse part and component, at any depth of the expression and for any sharing of its parts. Evaluation of
     one quantity never changes the samples of another, and quantities over different storages cannot be combined.""",
     ["programs", "inputs"], "All expressions, constants, structures and data.",
     "Tests check a fixed list of single operations on one data set.",
     ["quantity/quantity.py", "quantity/quantity_types.py"],
     [("operators", "quantity/quantity.py::Quantity.create_quantity"), ("evaluation", "quantity/quantity.py::Quantity.samples"),
      ("ufuncs", "quantity/quantity.py::Quantity._method"), ("constants", "quantity/quantity.py::QuantityConst")],
     "differential monitor of random expression programs against numpy", BOUND)

prop("C13", "Access by name, time, location and index returns those entries",
     """Accessing a result by quantity name, time, location and array index (integers, negative, slices, tuples) gives the samples of exactly those entries of the result,
     also in arrays, dictionaries, time series and fields composed of other quantities; between two times it gives the linear interpolation. The item of an estimated
     mean or variance is the estimate of the item, and names or indices that do not exist are refused.""",
     ["inputs", "programs"], "All result formats, access paths, keys and times.",
     "Tests use one format with equal quantities and a few keys.",
     ["quantity/quantity_types.py", "quantity/quantity.py", "quantity/quantity_spec.py"],
     [("items", "quantity/quantity.py::Quantity.__getitem__"), ("array keys", "quantity/quantity_types.py::ArrayType.get_key"),
      ("time", "quantity/quantity_types.py::TimeSeriesType.time_interpolation"), ("fields", "quantity/quantity_types.py::FieldType.get_key"),
      ("composition", "quantity/quantity.py::Quantity._concatenate"), ("root", "quantity/quantity.py::make_root_quantity")],
     "differential monitor of access paths against raw results", BOUND)

prop("C14", "Selection keeps exactly the samples satisfying the condition",
     """A quantity selected by conditions has exactly the samples for which all the conditions hold in the fine part and, above the first level, also in the coarse part
     for every compared component, whole and in the original order, on each level; comparisons and their logical combinations have the usual meaning, also with missing values.
     Estimates of a selected quantity use just the selected samples, and combining quantities with different selections, or a selected with an unselected one, is refused.""",
     ["programs", "inputs"], "All conditions, their combinations, chains of selections and data.",
     "Tests use a few conditions on one data set.",
     ["quantity/quantity.py"],
     [("selection", "quantity/quantity.py::Quantity.select"), ("conditions", "quantity/quantity.py::Quantity._process_mask"),
      ("compatibility", "quantity/quantity.py::Quantity._check_selection_ids")],
     "differential monitor of selections against raw data", BOUND)

prop("C15", "Subsampling draws the requested number of whole stored samples",
     """A subsample of a quantity has exactly the requested number of samples on each level; each is a whole stored sample of that level (fine and coarse part and all components together) and
     all stored samples are equally likely. Bootstrap averages and variances of estimates are those of repeated estimates from such
     subsamples, and the stored samples themselves are never changed.""",
     ["inputs", "histories"], "All data, chunkings, requested numbers and repetitions.",
     "Tests check averages of many subsamples of one storage with loose tolerance.",
     ["quantity/quantity.py", "estimator.py"],
     [("subsample", "quantity/quantity.py::Quantity.subsample"), ("choice", "quantity/quantity.py::Quantity.pick_samples"),
      ("bootstrap", "estimator.py::Estimate.est_bootstrap")],
     "row-identity monitor and frequency tests of subsamples", "Statistical bounds with false alarm probability below 1e-9, all generators seeded. " + BOUND)

prop("C16", "Moment functions have their mathematical values",
     """Monomial, Legendre and Fourier moment functions over a domain, with or without logarithmic transformation, equal their mathematical definitions after the affine map of the domain to the reference domain; values outside the domain
     are missing, or extrapolated when checking is off. All ways of evaluation (single function, all, fewer functions, changed size, scalars and arrays of any shape, linear combinations of functions, derivatives) agree, and
     functions compare equal only when they are the same functions.""",
     ["inputs"], "All families, sizes, domains, transformations, arrays of values.",
     "Tests evaluate a few functions at a few points.",
     ["moments.py"],
     [("domain map", "moments.py::Moments.linear"), ("domain check", "moments.py::Moments.clip"), ("families", "moments.py::Legendre._eval_all"),
      ("derivatives", "moments.py::Legendre._eval_diff"), ("combinations", "moments.py::TransformedMoments")],
     "runtime oracle of independent formulas", "Tolerance is rounding scaled by the size. " + BOUND)

prop("C17", "Moments and covariances of quantities are those of the functions",
     """Samples of the moment, moments and covariance of a quantity are the moment functions, and their pairwise products, evaluated at each sample and component, in both layouts
     (moments inside or outside the structure of the quantity). Their estimates equal telescoping sums of these values where samples outside the domain are left out, the covariance is symmetric,
     and the estimator object returns the same values as the direct estimate.""",
     ["inputs"], "All quantities, functions, layouts and data with values outside the domain.",
     "Tests compare the two layouts of one quantity for one domain.",
     ["quantity/quantity_estimate.py", "estimator.py"],
     [("moments", "quantity/quantity_estimate.py::moments"), ("covariance", "quantity/quantity_estimate.py::covariance"),
      ("estimator", "estimator.py::Estimate.estimate_moments")],
     "runtime oracle of moments recomputed from raw data", BOUND)

prop("C18", "Estimated numbers of samples meet the target variance at least cost",
     """The numbers of samples estimated for a target variance give, with the given level variances, a variance of every moment within the target up to rounding and the documented bounds of the numbers,
     at the cost of the optimal allocation: proportional to the root of variance over cost and sufficient for the worst moment. They are monotone in the target and invariant to scaling of
     costs. Regressed variances used for it reproduce data that satisfy the regression model and keep the first level as measured.""",
     ["inputs"], "All level variances, costs, targets and numbers of levels.",
     "Tests compute a few fixed cases without comparison with the optimum.",
     ["estimator.py"],
     [("allocation", "estimator.py::estimate_n_samples_for_target_variance"), ("regression", "estimator.py::Estimate._moment_variance_regression"),
      ("bootstrap variant", "estimator.py::Estimate.bs_target_var_n_estimated")],
     "runtime oracle of the optimality conditions", BOUND)

prop("C19", "Adaptive adding of samples is monotone and ends with the estimate",
     """A step of adding samples never lowers a target and raises a level that lacks samples towards the estimate by the given share of the missing part (the whole rest at the end), and levels which have enough are left alone.
     It reports completion exactly when every level has at least the estimated number, so repetition with a fixed estimate ends after a bounded number of steps with exactly as
     many samples as the larger of the estimate and the previous number. A step returns when the required share of samples is finished, failed ones included.""",
     ["histories", "schedules", "inputs"], "All estimates (fixed and changing), shares, orders of finishing and failures.",
     "Tests run the loop once with one estimate.",
     ["sampler.py"],
     [("step", "sampler.py::Sampler.process_adding_samples"), ("wait", "sampler.py::Sampler.set_scheduled_and_wait"),
      ("target", "sampler.py::Sampler.set_level_target_n_samples")],
     "online checker of the adding loop against its rule", BOUND)

prop("C20", "Batch system jobs deliver every sample exactly once",
     """Samples passed to jobs of a batch system are delivered exactly once with the results computed in the job, and a sample without a result (killed or lost job)
     is reported failed once its job is over, under temporary failures of submission or of status queries, any order of jobs and any division of samples to jobs. The reported number of running samples is
     the number not delivered yet. A restarted main process over the kept work directory collects the results finished meanwhile, does not run or deliver anything twice, and its new samples are computed by the simulations given to it.
     Without a restart, the reported times and numbers of timed samples of a level cover each of its computed samples once.""",
     ["fault_sequences", "schedules", "crash_points"], "All job outcomes, fault sequences, poll times, restarts and task sizes.",
     "The batch system is not available in tests, the pool is tested on no fault at all.",
     ["sampling_pool_pbs.py", "tool/pbs_job.py"],
     [("submission", "sampling_pool_pbs.py::SamplingPoolPBS.execute"), ("status", "sampling_pool_pbs.py::SamplingPoolPBS._qstat_pbs_job"),
      ("results", "sampling_pool_pbs.py::SamplingPoolPBS._get_result_files"), ("recovery", "sampling_pool_pbs.py::SamplingPoolPBS._collect_unfinished"),
      ("job", "tool/pbs_job.py::PbsJob.calculate_samples"), ("job files", "tool/pbs_job.py::PbsJob.read_results")],
     "trace checker over event logs with a fake batch system and faults",
     "qsub and qstat are stand-ins; jobs run the real job code. Kills happen within the simulation of a sample; recovery after restart uses debug mode. " + BOUND, "fault_enumeration")

prop("C21", "Each sample works in its own workspace",
     """A sample of a simulation that needs a workspace runs in its own directory with fresh copies of the common files of its level and nothing left by other samples, in sequential, multi-process and batch
     pools. Work of one sample never touches the common files or workspaces of other samples; the directories of failed samples (and a few successful ones) are kept complete where documented and the other ones removed
     (all kept in debug mode).""",
     ["histories", "fault_sequences"], "All file operations of samples, failures, renewals, modes and reused work directories.",
     "Tests run one simulation with a workspace and check no directory content.",
     ["sampling_pool.py", "tool/pbs_job.py"],
     [("preparation", "sampling_pool.py::SamplingPool.handle_sim_files"), ("keeping", "sampling_pool.py::SamplingPool.move_dir"),
      ("removal", "sampling_pool.py::SamplingPool.remove_sample_dir"), ("batch", "tool/pbs_job.py::PbsJob._handle_sim_files")],
     "file system monitor of hostile sample workspaces", "The thread pool is out: threads share the working directory of the process. All files are in scratch directories. " + BOUND)

prop("C22", "The reconstructed density is a density with the given moments",
     """The density reconstructed from moments is nonnegative with integral one and, when the reconstruction reports success, its moments equal the given ones within the tolerance and the precision of the quadrature; moments of a density of the exponential family give that density back. The distribution function is
     zero at the left end, one at the right end, nondecreasing, and the integral of the density for values in any order. Exact and approximate moments, covariances and distances of given densities
     equal the corresponding integrals.""",
     ["inputs"], "All moment functions, domains, numbers of moments, weights and densities.",
     "Tests look at a few distributions with a plot or a loose norm.",
     ["tool/simple_distribution.py", "estimator.py"],
     [("minimisation", "tool/simple_distribution.py::SimpleDistribution.estimate_density_minimize"), ("density", "tool/simple_distribution.py::SimpleDistribution.density"),
      ("cdf", "tool/simple_distribution.py::SimpleDistribution.cdf"), ("integrals", "tool/simple_distribution.py::compute_semiexact_moments"),
      ("estimate", "estimator.py::Estimate.construct_density")],
     "runtime oracle by independent quadrature", "Moments of a result reported as not converged are not judged. " + BOUND)

prop("C23", "Orthogonal moments are orthonormal and start with the constant",
     """Moment functions orthogonalised with respect to a covariance have, with respect to the same covariance, the unit matrix as their covariance up to rounding amplified by the smallest kept eigenvalue; the first of them is the
     constant one and mean values of the other ones are zero. Their number is the number of eigenvalues (of the covariance without the constant) above the threshold plus one, never more than the original number, and they are linear
     combinations of the original functions.""",
     ["inputs"], "All families, sizes, covariances of measures and of stored samples, thresholds.",
     "Tests orthogonalise one covariance of one distribution.",
     ["tool/simple_distribution.py", "moments.py"],
     [("construction", "tool/simple_distribution.py::construct_ortogonal_moments"), ("threshold", "tool/simple_distribution.py::detect_treshold_slope_change"),
      ("functions", "moments.py::TransformedMoments")],
     "runtime oracle recomputing the covariance of the new functions", BOUND)

prop("C24", "Random fields have the prescribed mean and covariance",
     """Realizations of correlated random fields have the given mean, deviation and correlation in the points set last (exponentials of them in logarithmic mode), the covariance factor
     reproduces the covariance matrix up to the prescribed precision, and a seeded field gives for the same seed the same values in the same points, whatever other points are evaluated along and whatever was evaluated before. In a set of dependent fields each field is its function of the
     values of its parameters in the same realization, on elements of its regions only and zero elsewhere.""",
     ["inputs", "histories"], "All correlation functions, lengths, dimensions, points, moves to other points, dependence graphs and regions.",
     "Tests check few statistics of one or two fields.",
     ["random/correlated_field.py", "tool/flow_mc.py"],
     [("covariance", "random/correlated_field.py::SpatialCorrelatedField.cov_matrix"), ("expansion", "random/correlated_field.py::SpatialCorrelatedField.svd_dcmp"),
      ("scaling", "random/correlated_field.py::RandomFieldBase.sample"), ("seeded", "random/correlated_field.py::GSToolsSpatialCorrelatedField"),
      ("sets", "random/correlated_field.py::Fields.sample"),
      ("flow field", "tool/flow_mc.py::create_corr_field")],
     "statistical and exact runtime oracles of realizations", "Statistical tolerance above 6 standard errors, all generators seeded. " + BOUND)

prop("C25", "Mesh files and element data survive writing and reading",
     """Nodes, elements with their types, tags and nodes, physical names and element data written to a mesh file are exactly what any reader of the format finds there and what
     reading returns, in the text and binary form, for all ids, element types and double precision values; files of other writers (order of sections, unknown sections, white space, blocks of elements, version 1) are read the same.
     Extracted points of a mesh are barycenters of exactly the elements of bulk regions, with their ids and regions in matching order.""",
     ["inputs"], "All meshes, element types, ids, names, values and layouts of the file.",
     "Tests read one generated mesh.",
     ["tool/gmsh_io.py", "tool/flow_mc.py"],
     [("reading", "tool/gmsh_io.py::GmshIO.read"), ("writing", "tool/gmsh_io.py::GmshIO.write_ascii"), ("element data", "tool/gmsh_io.py::GmshIO.write_element_data"),
      ("points", "tool/flow_mc.py::FlowSim.extract_mesh")],
     "roundtrip monitor with an independent reader and writer", "ASCII format version 2 only. " + BOUND)

prop("C26", "Estimates reflect the samples stored at the moment of the call",
     """Every estimate and every read of level samples returns the value given by the samples stored at that moment in the storage of the quantity, whatever was evaluated before: growing storages, other quantities, storages, selections, estimators,
     deleted and newly created objects never change it. Repeating a call without any change of data gives the same value.""",
     ["histories"], "All interleavings of saving, creating and deleting quantities, estimating and reading.",
     "Tests estimate each storage once after all samples are stored.",
     ["quantity/quantity.py", "quantity/quantity_estimate.py", "estimator.py"],
     [("caching", "quantity/quantity.py::Quantity.samples"), ("key", "quantity/quantity.py::Quantity.get_cache_key"),
      ("clearing", "quantity/quantity_estimate.py::cache_clear")],
     "history monitor: every returned value against the current data", BOUND)

prop("C27", "The estimated domain covers the prescribed share of samples",
     """The estimated domain of a scalar quantity spans from the smallest lower quantile to the largest upper quantile of the fine values of the single levels, using all levels and all chunks and skipping missing values. So on every
     level at most the prescribed share of fine samples lies below and above it, and the domain lies within the range of the data.""",
     ["inputs"], "All data, quantiles, numbers of levels and chunks.",
     "Tests use the domain without any check of its share.",
     ["estimator.py"], [("domain", "estimator.py::Estimate.estimate_domain"), ("chunks", "estimator.py::Estimate.get_level_samples")],
     "runtime oracle by sorting raw data", BOUND)

prop("C28", "Planned level steps and numbers form the prescribed sequences",
     """Planned level parameters form a geometric sequence from the coarsest to the finest given step, a single level uses the finest one; planned numbers of samples form a rounded geometric sequence between
     the given ends, and given full lists are used as they are. Simulations created from the plan get these steps, each level with the step of the preceding one as coarse.""",
     ["inputs"], "All ranges of steps, numbers of levels and of samples.",
     "Tests use a few plans without comparison.",
     ["estimator.py", "sampler.py"],
     [("steps", "estimator.py::determine_level_parameters"), ("numbers", "estimator.py::determine_n_samples"), ("ranges", "sampler.py::Sampler.sample_range")],
     "runtime oracle of geometric sequences", BOUND)

prop("C29", "A flow sample runs both levels on one realization and reports failure",
     """A sample of the flow simulation gives the simulator, on the fine and coarse mesh, the input fields of one realization determined by the seed, evaluated in barycenters of elements of the respective mesh, with the template filled by the parameters of the level. The
     result pair is what these two runs produced (zero coarse result at the first level), a failed or incomplete run makes the sample failed with no result, and simulation over
     files prepared earlier gives the same results.""",
     ["inputs", "fault_sequences"], "All field models, meshes, steps, seeds and behaviours of the simulator.",
     "The simulator and mesh generator are not available in tests.",
     ["tool/flow_mc.py", "random/correlated_field.py", "tool/gmsh_io.py"],
     [("sample", "tool/flow_mc.py::FlowSim.calculate"), ("level", "tool/flow_mc.py::FlowSim.level_instance"), ("fields", "tool/flow_mc.py::FlowSim.generate_random_sample"),
      ("result", "tool/flow_mc.py::FlowSim._extract_result")],
     "monitor of recorded simulator runs with stand-in programs", "flow123d and gmsh are replaced by stand-ins with the same command line and files. " + BOUND)

prop("C30", "Plots show the data they are given",
     """Drawn lines, points, bars and error bars have coordinates of the passed data: density and distribution function of each added distribution and of the exact one over their domains and the requested error curves, normalized histograms
     of raw samples, eigenvalues in decreasing order with their errors (positive ones only in the logarithmic scale), contributions of levels to variances of the labelled moments with bars to the
     reference values, level variances at their steps, moment functions, tables of means, variances and convergence. The data may have any size the plot is defined for and are not
     changed by plotting; the figure is saved to the file of the given name.""",
     ["inputs"], "All data, numbers of levels, moments and samples, orders and options.",
     "Tests only call two plots, nothing looks at what is drawn.",
     ["plot/plots.py", "estimator.py"],
     [("distribution", "plot/plots.py::Distribution.add_distribution"), ("eigenvalues", "plot/plots.py::Eigenvalues.add_values"),
      ("breakdown", "plot/plots.py::VarianceBreakdown.add_variances"), ("variances", "plot/plots.py::Variance.add_level_variances"),
      ("bootstrap", "plot/plots.py::BSplots.plot_bs_variances"), ("estimate", "estimator.py::Estimate.plot_variances")],
     "monitor of intercepted figures, runtime oracle on coordinates of drawn objects", BOUND)

prop("C31", "Statistical tests refuse exactly the improbable samples",
     """The test of the mean passes samples exactly when the two-sided p value of Student's statistic is above the given probability, the test of the variance exactly when the two-sided p value
     of the chi-square statistic is, and the analysis of variance accepts equal means of levels exactly when its p value is above 0.05; so right normal samples are refused
     with just the given probability, and far ones practically always. The tested samples are not changed.""",
     ["inputs"], "All samples, sizes, scales, tested values and probabilities.",
     "No test calls them.",
     ["tool/stats_tests.py"],
     [("mean", "tool/stats_tests.py::t_test"), ("variance", "tool/stats_tests.py::chi2_test"), ("levels", "tool/stats_tests.py::anova")],
     "runtime oracle by independent statistics, monitor of rates over repetitions", BOUND)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    manifest = dict(version=1, setup_cmd="./run.sh --selftest",
                    checks=[dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
                                 evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c["level"], level_note=c["level_note"])
                            for p, c in P],
                    not_applicable=[],
                    notes="Pure Python project: checks import /repo's working tree, nothing is built and no hooks are added to the sources. "
                          "Repaired defects are in known_findings.json.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
