M, S, I = "src/models/", "src/simulation/", "src/identification/"

prop("C01", "Vectorisation, real/complex forms and deletion have exact inverses",
     "Turning matrices into vectors and complex data into real block form is exactly reversible for every shape, number type, "
     "memory layout and sparse format, and commutes with sums, products and transposition. Re-inserting deleted rows or columns "
     "puts zeros exactly at the deleted positions, whatever their order, and deleting them again gives back the same matrix.",
     ["inputs"], "every shape up to 5x5 (9x9 thorough) x layout x number type x sparse format; every set and order of deleted indices up to 6 (8)",
     "the tests use a few random square matrices in one layout; wrong entries for other shapes, layouts, formats or orders stay invisible",
     [M + "matrix_operations.py"],
     [("column-major flatten / reshape and 2x2 real blocks", M + "matrix_operations.py"), ("sorted insertion of zero rows", M + "matrix_operations.py:undelete")],
     ["return values"], "bounded exhaustive input enumeration against an index-wise reference model",
     "Exhaustive over shapes, layouts, formats and orders within the bounds; entries are pairwise different, so any misplaced entry is seen.")

prop("C02", "Symmetric and Laplacian parametrisations are exact and lossless for every size",
     "For every number of nodes, expanding the reduced parameters gives a symmetric matrix (with zero row sums in the Laplacian case), "
     "reducing a symmetric (Laplacian) matrix and expanding it again gives the same matrix, and reducing any other matrix gives its "
     "symmetric part. The reduced parameters are the lower triangle column by column, or the branch admittances (minus the off-diagonal elements).",
     ["inputs"], "every size 1..12, 20, 33 (1..30, 40, 56 thorough), every basis element of each space, every Laplacian with branches in {0,1,-i} up to 4 nodes",
     "the tests try one size each; index arithmetic errors that start at another size are not seen",
     [M + "matrix_operations.py"],
     [("duplication, transformation and elimination matrices", M + "matrix_operations.py"), ("used by every constrained estimator", M + "regression.py")],
     ["returned matrices"], "bounded exhaustive enumeration of sizes and basis elements against the definitions",
     "All maps are linear, so agreement on every basis element decides every matrix of each enumerated size.")

prop("C03", "Reported error metrics equal their definitions",
     "The Frobenius, maximum, relative and known-topology errors reported for an estimate equal their definitions for every pair of true and "
     "estimated arrays, vectors or matrices, real or complex, with any pattern of zeros. Computing them changes neither array.",
     ["inputs"], "every pair over a 5-value complex alphabet up to 3 elements (4-value for 2x2), generic arrays of every shape up to 5x5 (13x13)",
     "the tests compare a handful of fixed arrays",
     [M + "error_metrics.py"], [("norms of differences", M + "error_metrics.py")], ["returned metrics"],
     "bounded exhaustive input enumeration against a scalar reference model",
     "Exhaustive over the alphabet and shapes; all-zero true arrays are excluded because relative errors are undefined.")

prop("C04", "A prior is exactly the sequence of terms added to it",
     "Whatever the sequence of additions, a prior consists of exactly the requested terms in order, each with its own parameters, weights, "
     "centre and order, the same for the dense and the sparse implementation. Copying a prior gives the same terms, later additions to the copy or the "
     "original do not affect the other, and the arguments are left unchanged.",
     ["histories", "inputs"], "every sequence of up to 3 (4) additions over 14 argument patterns of the six kinds of terms; every copy point followed by different additions",
     "the tests add one term of some kinds once; histories, mixtures, per-term weights and copies are never exercised",
     [M + "bayesian_prior.py", M + "smooth_prior.py"],
     [("stacking of rows, centres and orders", M + "bayesian_prior.py"), ("dense/sparse conversion around each addition", M + "smooth_prior.py")],
     ["L, mu and gamma of the prior"], "explicit enumeration of all operation histories up to a depth against a list-of-terms model",
     "Exhaustive over histories within the depth and the argument alphabet, executed on the real classes.", "model_checking",
     [("L, mu, gamma", "rows, centres and orders of all terms", M + "smooth_prior.py")])

prop("C05", "The prior cost given to the solvers is the smoothed log-density at that point",
     "For every prior, smoothing parameter and evaluation point, the quadratic and linear terms and the penalty value are those of the smoothed "
     "log-density (each term weighted by its residual to the power 2 minus its order, plus smoothing). The dense and the sparse implementation agree, "
     "and evaluating changes neither the prior nor the point.",
     ["inputs"], "every pair (triple) of 14 term patterns x 3 (4) smoothing values x 5 evaluation points incl. zero and exact centres",
     "the tests evaluate single terms at one point",
     [M + "smooth_prior.py"], [("log_distribution", M + "smooth_prior.py")], ["returned terms"],
     "bounded exhaustive input enumeration against a term-by-term reference model",
     "Exhaustive over combinations of terms within the bounds; found and fixed: sparse priors of a single term could not be evaluated.")

prop("C06", "Noise covariances are the second moments of polar noise",
     "For every measurement matrix and noise level, scalar or per column, the exact, linearised and measurement-conditioned covariances equal the second moments "
     "of the modelled magnitude and phase noise, element by element, laid out as the vectorised measurements. The inverted form is the inverse of the direct one.",
     ["inputs"], "every shape up to 3x3 (5x5) plus long ones x 4 phase patterns x scalar/per-column deviations x phase deviations x 3 models x direct/inverted",
     "the tests compare the implementations with each other on one random matrix; wrong signs, columns or powers in one branch remain invisible",
     [M + "noise_transformation.py"], [("closed forms, scalar and per-column branches, 2x2 block inversion", M + "noise_transformation.py")],
     ["returned sparse matrices"], "bounded exhaustive input enumeration against complex closed forms validated by quadrature",
     "Oracle derived independently as covariance and pseudo-covariance and itself checked by Gauss-Hermite quadrature; absolute accuracy relative to the matrix, per-element accuracy where conditioning allows.")

prop("C07", "Measurement noise has the requested kind, size and independence",
     "Polar noise multiplies magnitude and phase of each measurement by one plus noise of the requested (scalar or per-column) deviation, and Cartesian noise adds to each part noise "
     "relative to its column's mean, for every measurement and every outcome of the generator. Every element gets its own draw, zero deviations change nothing, and the "
     "measurements passed in are left unchanged.",
     ["inputs", "configurations"], "every shape up to 3x3 (6x6) x 5 forms of deviation x levels x 5 constant generator answers; scaling and independence on the real seeded generator",
     "the tests only compare sample deviations within wide margins for one shape",
     [S + "noise.py"], [("polar and Cartesian noise functions", S + "noise.py")], ["returned measurements"],
     "owned random generator with exhaustively enumerated answers, plus metamorphic pairs",
     "The generator is replaced by constant answers, so the result is decided whatever the order of draws; independence is checked on fixed seeds.")

prop("C08", "Filtering returns block means of the interpolated, noisy measurements",
     "Every filtered sample is the mean of one complete block of consecutive measurements, interpolated linearly at the new instants and carrying that series' own noise. "
     "This holds for any number of instants, spacing, block length and number of series, and with unit blocks and unchanged instants the measurements are returned unchanged.",
     ["inputs"], "every combination of 2-5 old instants (3 spacings), 1-12 and 25 (1-30) new ones, blocks up to 5 (11), 1-3 series, 5 noise hook forms",
     "no existing test calls the filter with other than default parameters",
     [S + "noise.py"], [("filter_and_resample_measurement", S + "noise.py")], ["returned measurements"],
     "bounded exhaustive input enumeration against a reference resampler", "Exhaustive within the bounds.")

prop("C09", "Every node is loaded with its share of randomly drawn households",
     "For every outcome of the random draws, the load of every node (and phase) is the sum of exactly as many drawn household profiles as its nominal power requires, over exactly the "
     "selected time windows, each draw using a valid household. csv and binary profiles give the same loads for the same seed, and random Gaussian loads have the requested mean and relative deviation.",
     ["inputs", "configurations"], "every sequence of draws for two nodes with up to two households each; every constant draw x windows x 1-3 nodes x 1/3 phases x npy/csv",
     "no existing test runs the load generation",
     [S + "load_profile.py"], [("random assignment until nominal power", S + "load_profile.py"), ("window slicing", S + "load_profile.py")],
     ["returned load matrices"], "owned random generator with exhaustively enumerated draws against a counting model",
     "All draws enumerated within the bounds; household usage is read off the result, so the order of draws does not matter.", "model_checking")

prop("C10", "The load stage follows weeks, constant share and seed, and saves what it used",
     "For every network, choice of weeks, days, constant nodes and constant share, the loads of a simulation are the drawn profiles over exactly the selected weeks one after the other, "
     "with constant nodes and the constant share set to the time mean and supplies left unloaded. Loads read back later are exactly those that were generated, and the same seed gives the same loads.",
     ["inputs", "configurations"], "networks with unordered identifiers x weeks (incl. unordered, repeated) x days x constant nodes x shares x 1/3 phases x drawn household",
     "no existing test runs the load stage; it needs profile files and a random generator",
     [S + "run.py", S + "run3ph.py"], [("generate or read loads", S + "run.py"), ("three-phase loads", S + "run3ph.py")], ["returned load matrices", "load files"],
     "owned random generator with enumerated answers, exhaustive configurations, against a reference load model",
     "Exhaustive over the configuration space; real profile files of three households are replaced by generated ones.")

prop("C11", "The admittance matrix is the Laplacian of the lines, and lines can be rebuilt",
     "For every connected network, the admittance matrix is the weighted Laplacian of exactly the lines in service, in the order of the nodes, the same whatever the identifiers and orientation of lines. "
     "Lines rebuilt from an admittance matrix give the same matrix again. This holds for one and three phases, for sequence matrices and for every network template.",
     ["inputs"], "every connected graph up to 4 (5) nodes x order of identifiers x orientations x supply position, parallel, broken and long lines, all templates",
     "the tests build two template networks and compare one matrix",
     [S + "network.py", S + "network_3ph.py", S + "lines.py", S + "net_templates.py", S + "net_templates_3ph.py"],
     [("make_y_bus", S + "network.py"), ("create_lines_from_ybus", S + "network.py"), ("phase/sequence matrices", S + "network_3ph.py")], ["admittance matrices"],
     "bounded exhaustive enumeration of networks against the Laplacian computed from the line data", "Exhaustive over graphs within the bound.")

prop("C12", "After any edits a network holds exactly the buses, loads and lines asked for",
     "Whatever the sequence of additions and removals of buses and lines, a network holds exactly the buses (in order) with their loads and supply, and the lines with their parameters, that the edits say. "
     "Removing buses also removes everything attached to them and nothing else.",
     ["histories"], "every sequence of edits of 9 kinds up to depth 3 (4) from three starting networks, one and three phases",
     "the tests only construct networks; histories of edits never appear",
     [S + "network.py", S + "network_3ph.py", S + "abstract_network.py"], [("create/remove buses and lines", S + "abstract_network.py")], ["element tables of the network"],
     "explicit-state exploration of all edit histories on the real network objects against a set model",
     "All histories up to the depth; states are canonicalised by the model's content, and every transition compares the real tables with the model.", "model_checking",
     [("bus, load, line tables", "elements of the network", S + "network.py")])

prop("C13", "Simulated measurements satisfy the network equations and loads at every step",
     "For every network, load series, voltage dependency and number of time steps, currents are the admittance matrix times voltages, the power at every node equals its load of that very time step, and the "
     "supply holds its voltage. This holds with any node identifiers, in one and three phases and in sequence values.",
     ["inputs", "configurations"], "networks of 2-5 nodes x identifiers x supply position x load series x steps x voltage dependencies x phases, with the real power flow",
     "the tests check one template network in one configuration",
     [S + "simulation.py", S + "simulation_3ph.py", S + "run.py", S + "run3ph.py"], [("time series and reading back", S + "simulation.py"), ("run_simulation", S + "run.py")], ["voltages and currents"],
     "bounded exhaustive configuration enumeration, physical laws as oracle", "Every node, phase and step is checked against Kirchhoff's and the load laws.")

prop("C14", "Concurrent simulations each get their own results",
     "Simulations running at the same time, or started in the same second, each return exactly the results of their own loads, and their output folders do not interfere.",
     ["schedules"], "all schedules of two (three) simulations with up to 2 (3) preemptions at time steps and file operations, clock frozen",
     "tests never run two simulations at the same time, and no test can fix the schedule",
     [S + "simulation.py", S + "simulation_3ph.py"], [("output writer folder", S + "simulation.py")], ["results read back", "output folders"],
     "stateless exploration of thread schedules under a controlled scheduler, preemption bounded",
     "Exhaustive over schedules within the bound; the scheduler replays schedules deterministically and fails on divergence.", "model_checking",
     [("output folder", "time-series results of one run", S + "simulation.py")])

prop("C15", "The noise stage returns aligned noisy and exact data with rated noise levels",
     "For every network, number of steps, sampling frequency and noise model, noisy and exact measurements cover the same filtered time steps and nodes, noise has the size implied by the sensors' ratings "
     "and deviations, each node its own rating, and the reported filtering factor is the reduction of the noise variance. Ratings read back equal those used.",
     ["inputs", "configurations"], "networks x steps before and after x frequency x deviations x direct or equivalent noise x phases x answers of the generator",
     "the tests never run the noise stage", [S + "run.py", S + "run3ph.py", S + "noise.py"],
     [("add_noise_and_filter", S + "run.py"), ("three-phase variant", S + "run3ph.py")], ["returned measurements, ratings and factor"],
     "owned random generator with enumerated answers, exhaustive configurations, against a reference model",
     "The deviations actually requested from the generator and the answers' effect are compared element by element.")

prop("C16", "Reducing a single-phase network keeps it electrically equivalent",
     "For every network, set of passive nodes, set of hidden nodes and treatment of the supply, the reduced admittance matrix maps the kept voltages to the kept currents of the full network. "
     "Exactly the passive and hidden nodes (and the supply if asked for) disappear from every array, which stay aligned.",
     ["inputs"], "every connected graph up to 4 (5) nodes x supply position x passive sets x hidden sets x Laplacian or not x identifiers",
     "the tests never reduce a network", [S + "run.py"], [("reduce_network: Kron reduction with load admittances", S + "run.py")], ["reduced matrix and measurements"],
     "bounded exhaustive enumeration of networks and node sets, electrical equivalence as oracle", "Exhaustive within the bounds; equivalence checked on generic measurements of the full network.")

prop("C17", "Reducing a three-phase network keeps it electrically equivalent",
     "For every three-phase network, set of passive nodes, partially loaded nodes and hidden nodes, the reduced matrix maps the kept voltages to the kept currents, phase by phase or all phases together. "
     "Exactly the passive and hidden nodes or phases and the supply disappear from every array, which stay aligned with their phase labels.",
     ["inputs"], "networks of 2-4 nodes x supply position x passive, partially loaded and hidden sets x both treatments of phases x identifiers",
     "the tests never reduce a network", [S + "run3ph.py"], [("reduce_network, three-phase", S + "run3ph.py")], ["reduced matrix, measurements and labels"],
     "bounded exhaustive enumeration of networks and node sets, electrical equivalence as oracle", "Exhaustive within the bounds.")

prop("C18", "Phase and sequence values convert into each other exactly",
     "Converting admittances and measurements between phases and sequences is the symmetrical-component transform node by node, the two directions invert each other, and a sequence matrix times sequence voltages "
     "gives the sequence currents. Balanced networks have decoupled sequences.",
     ["inputs"], "every basis element of matrices and measurements up to 3 (4) nodes, generic larger ones, every balanced network on a connected graph",
     "the tests check one matrix", [S + "lines.py"], [("admittance and measurement transforms", S + "lines.py")], ["converted arrays"],
     "bounded exhaustive enumeration of basis elements against the definition", "The maps are linear: agreement on a basis decides all inputs of that size.")

prop("C19", "Recomputing only some simulation stages equals a complete run",
     "After any history of simulate commands with any subset of stages, on any networks and options, the saved simulation equals that of one complete run with the parameters of each stage's latest execution. "
     "Commands for one network do not affect the files or results of another, and the configured hidden nodes stay as configured.",
     ["histories", "configurations"], "every command with any subset of stage flags and a menu of parameters from every reachable state, up to depth 2 (3), in six variants (Laplacian, equivalent noise, 3 phases, sequence)",
     "no existing test runs the command; staged runs depend on files left by earlier ones",
     ["simulate_network.py", S + "run.py", S + "run3ph.py"], [("stage flags", "simulate_network.py"), ("saved intermediate files", S + "run.py")], ["files in data/simulations_output"],
     "explicit-state search over command histories on the real command, differential oracle", "States are the stages' latest parameters; every transition compares files with a complete run in an empty folder.", "model_checking",
     [("load, power flow and result files", "what later stages start from", "simulate_network.py")])

prop("C20", "Commands are reproducible whatever ran before",
     "A simulate or identify command with the same configuration and seed gives identical results in a new process or after any other commands, whatever the state of the random generators and the hash seed.",
     ["histories", "configurations"], "every sequence of up to 2 (3) other commands, generator states and hash seeds before the command",
     "tests run commands in one order at best, in one process",
     ["simulate_network.py", "identify_network.py", S + "run.py", S + "run3ph.py", I + "run.py"], [("seed resets", S + "run.py")], ["result files"],
     "exhaustive enumeration of preceding histories, differential oracle against a fresh process", "Exhaustive within the depth.", "model_checking")

prop("C21", "Results do not depend on, or alter, data passed in or returned earlier",
     "Fitting, simulating, noise and reduction functions leave every array passed to them unchanged, return results that do not change when the inputs or earlier results are changed later, and give the same result when called again.",
     ["inputs", "histories"], "every public function of models, simulation and identification x memory layouts x repeated calls",
     "tests call each function once on fresh arrays", [M + "regression.py", M + "error_in_variable.py", M + "smooth_prior.py", S + "run.py", S + "run3ph.py"],
     [("copies of inputs", I + "run.py"), ("iteration lists", M + "regression.py")], ["inputs after the call, results of repeated calls"],
     "exhaustive enumeration of functions, layouts and call pairs with read-only inputs and digests", "Exhaustive over the listed functions.")

prop("C22", "OLS and TLS return the optimum of their criterion for every data set",
     "For every number of samples, nodes and outputs, ordinary least squares minimises the residual of z = x y, with minimum norm if it is rank deficient, and total least squares gives the matrix consistent with the "
     "smallest correction of x and z together. Exact data give the exact matrix, and a vector output gives a vector.",
     ["inputs"], "samples 1-8 x nodes 1-4 x outputs 1-4 x real/complex x exact or noisy x rank deficient, all pairs over a small integer alphabet for tiny sizes",
     "the tests check one random data set per method", [M + "regression.py", M + "error_in_variable.py"], [("pseudo-inverse", M + "regression.py"), ("SVD", M + "error_in_variable.py")], ["fitted_admittance_matrix"],
     "bounded exhaustive input enumeration against optimality conditions", "Optimality is checked by normal equations and Eckart-Young correction size.")

prop("C23", "Bayesian regression follows its iteration and stops exactly when it should",
     "From any initial estimate, each iteration of the Bayesian regression solves the penalised least squares with the prior's terms at the previous estimate, in the reduced parameters. The history holds every iterate with "
     "its objective, the run stops at the first stationary non-increasing objective or after the maximum number of iterations, and the result is the last iterate.",
     ["inputs", "configurations"], "data sizes x parametrisation (full, symmetric, Laplacian) x prior x lambda x tolerances x maximum number of iterations",
     "the tests check that one fit is close to the truth; wrong terms, stopping rules or histories remain close to it",
     [M + "regression.py", M + "smooth_prior.py", M + "abstract_models.py"], [("BayesianRegression.fit", M + "regression.py")], ["iterations", "fitted_admittance_matrix"],
     "lock-step conformance of the real iteration with a dense reference state machine over an exhaustive configuration space",
     "Every step of every enumerated run is compared with the reference transition from the same previous state.", "model_checking",
     [("iterate and objective", "state of the iteration", M + "regression.py")])

prop("C24", "The error-in-variables estimator follows its iteration and objective",
     "Each iteration of the Bayesian EIV estimator corrects voltages optimally for the current estimate, weighted by the given inverse covariances (or by projection without weights), then solves the penalised least squares "
     "with the corrected voltages. The history holds every iterate with the documented objective, the run stops at the first stationary non-increasing objective or after the maximum, and the result is the last iterate.",
     ["inputs", "configurations"], "data sizes x parametrisation x prior x lambda x weights (identity, diagonal, full 2x2, none) x tolerances x maximum number of iterations",
     "the tests check that one fit is close to the truth", [M + "error_in_variable.py", M + "smooth_prior.py", M + "abstract_models.py"],
     [("BayesianEIVRegression.fit", M + "error_in_variable.py")], ["iterations", "fitted_admittance_matrix"],
     "lock-step conformance of the real iteration with a dense reference state machine over an exhaustive configuration space",
     "Every step of every enumerated run is compared with the reference transition from the same previous state, within single precision of the weights.", "model_checking",
     [("iterate and objective", "state of the iteration", M + "error_in_variable.py")])

prop("C25", "Identification stages apply the documented priors, centring and covariances",
     "The identification stages centre the data, build sparsity, contrast and exact-line priors from the preliminary estimate for exactly the off-diagonal (or branch) parameters, weight by the measurements' noise, and save what they return. "
     "Without synchronisation, results do not depend on the phase reference of any sensor.",
     ["inputs", "configurations"], "sizes 2-5 (8) x Laplacian or not x contrast, diagonal options x exact lines x weighted x synchronised x iterations",
     "no existing test runs the identification stages", [I + "run.py"], [("prior builders", I + "run.py"), ("standard_methods, bayesian_eiv", I + "run.py")], ["priors, estimates and saved files"],
     "bounded exhaustive configuration enumeration against reference stages built from checked models", "Priors are compared term by term; stages are compared with an independent composition of the (separately checked) estimators.")

prop("C26", "Identifying three sequences together equals identifying each separately",
     "Identifying all sequences in one command gives for every sequence the same matrices and iterates as identifying that sequence alone, placed at its own rows and columns with zeros elsewhere, whatever the order of the phases in the data.",
     ["inputs", "configurations"], "every arrangement of phase labels for 1-2 nodes per phase, unequal numbers of nodes, options",
     "no existing test runs the three-phase identification", [I + "run3ph.py"], [("per-sequence loops", I + "run3ph.py")], ["estimates, iterations and saved files"],
     "bounded exhaustive enumeration of phase arrangements, differential oracle", "Differential against the single-phase stages, which C25 decides.")

prop("C27", "Redone or continued identifications equal the complete command",
     "After any history of identify commands, redoing only some stages, continuing from the previous result or choosing phases gives the results of the complete command with the same latest inputs. A continued run appends its iterations to the "
     "previous ones. Commands for one network or phase never use another's data.",
     ["histories", "configurations"], "every sequence of up to 2 (3) identify commands over a menu of stage flags, options, phases and networks",
     "no existing test runs the command", ["identify_network.py", I + "run.py", I + "run3ph.py"], [("stage flags, phase selection", "identify_network.py")], ["result files"],
     "explicit-state search over command histories on the real command against a reference model", "Each transition compares all result files with the model's prediction.", "model_checking",
     [("result files", "what later commands start from", "identify_network.py")])

prop("C28", "An interrupted command leaves nothing that spoils a rerun",
     "If a simulate or identify command is interrupted at any point of writing any of its files, running it again gives exactly the files of an uninterrupted run, and files of other networks stay intact.",
     ["crash_points"], "every write of a result file x crash before, in the middle (torn file) and after, each of several commands",
     "tests never interrupt a command", ["simulate_network.py", "identify_network.py", S + "run.py", S + "run3ph.py", I + "run.py", I + "run3ph.py"],
     [("np.savez / to_json of intermediate results", S + "run.py")], ["files in data/simulations_output"],
     "exhaustive fault injection at every file write of the real commands", "All crash points of the enumerated commands.", "model_checking")

prop("C29", "Fisher information is a valid information matrix for every data set",
     "For every measurements, covariances and parameters, the Fisher information is symmetric and positive semidefinite, adds up over samples, scales inversely with the noise, and the reported covariance is its inverse.",
     ["inputs"], "samples 2-5 x nodes 1-3 x covariances x parameters over small alphabets",
     "the tests compare one matrix", [M + "error_in_variable.py", I + "run.py"], [("fisher_info", M + "error_in_variable.py")], ["returned matrices"],
     "bounded exhaustive input enumeration against algebraic laws", "Laws only: the implementation is documented as an approximation.")

prop("C30", "Reported results are the metrics of the saved estimates",
     "For every combination of saved results and options, the reported metrics, plotted errors and saved plot data are those of the saved estimates against the reference network, in the requested phase or sequence coordinates.",
     ["configurations"], "phases x sequence flag x which result files exist x Laplacian or not",
     "no existing test runs the command", ["plot_results.py", I + "utils.py"], [("metrics files", "plot_results.py"), ("plot data files", I + "utils.py")], ["metrics files", "plot data"],
     "bounded exhaustive configuration enumeration against independently computed metrics", "Exhaustive over configurations; drawing itself is stubbed.")

prop("C31", "GPU helper functions give the same results as the CPU ones",
     "The GPU versions of vectorisation and real/complex conversion give the same results as the CPU versions for every shape and number type.",
     ["inputs"], "every shape up to 4x4 x layout x number type", "no GPU is available to the tests",
     [M + "gpu_matrix_operations.py"], [("same functions on cupy arrays", M + "gpu_matrix_operations.py")], ["return values"],
     "bounded exhaustive input enumeration, differential, with an array library standing in for cupy", "cupy is replaced by numpy with the same interface.")

prop("C32", "What is simulated without noise is identified exactly",
     "For every network whose voltages determine its admittance matrix, simulating it without noise and identifying it gives back the matrix that was saved with the simulation, by every method "
     "with negligible regularisation, in one or three phases, with the supply removed or a Laplacian matrix.",
     ["inputs", "configurations"], "every connected network up to 4 nodes x supply x passive nodes x identifiers x steps, both commands in sequence",
     "no existing test runs the two commands one after the other", ["simulate_network.py", "identify_network.py", S + "run.py", S + "run3ph.py", I + "run.py", I + "run3ph.py"],
     [("reduced matrix and measurements of the kept nodes", "simulate_network.py"), ("estimators on the loaded measurements", "identify_network.py")], ["files in data/simulations_output"],
     "bounded exhaustive enumeration of networks through the whole pipeline", "Every 40th (6th) network of the enumeration, with the exact linear power flow.")

prop("C33", "Identification does not depend on order, angle reference or unit",
     "Renumbering nodes renumbers the identified matrices of every method in the same way, reordering samples or turning the common angle reference changes nothing, and a change of the per-unit base, with "
     "regularisation, deviations and ratings in the new unit, changes nothing either.",
     ["inputs", "configurations"], "every order of up to 4 nodes, generators of the orders of samples, rotations and units x sizes x Laplacian x weights x synchronisation x prior options",
     "the tests use one fixed order and unit", [I + "run.py", M + "regression.py", M + "error_in_variable.py", M + "noise_transformation.py"],
     [("estimates by position of nodes and samples", I + "run.py"), ("covariances in data units", M + "noise_transformation.py")], ["estimates, iterates and objectives"],
     "bounded exhaustive enumeration of symmetry transformations on the real stages", "Each transformed run is compared with the untransformed one at every iteration.")

prop("C34", "Sweeps run the announced scenarios and leave the configuration as it was",
     "The sweep script runs simulation, identification and report of every announced scenario once, with exactly the announced seed and noise level or number of days and everything else as the user configured it. "
     "Afterwards, also when a command fails or the sweep is interrupted, the configuration files are as the user left them.",
     ["histories", "configurations", "crash_points"], "flags x user configurations x every command failing, interrupted or terminated",
     "no existing test runs the script", ["run_multiple_sims.sh", "conf/conf.py", "conf/simulation.py"],
     [("edits of the configuration files around each command", "run_multiple_sims.sh")], ["configuration files and arguments at every command"],
     "explicit-state exploration of the real script with enumerated faults at every command", "The python commands are recorded instead of executed; their arguments are parsed by the real commands.", "model_checking",
     [("configuration files", "seed, noise level, days in force", "conf/")])
