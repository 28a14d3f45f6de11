#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


M, E, G, I, S, V, EV, VI = (f"medil/{n}.py" for n in (
    "models", "ecc_algorithms", "graph", "independence_testing", "sample", "vae", "evaluate", "visualize"))
ALL = [M, E, G, I, S, V, EV, VI]

prop("C01", "Caller-owned arrays are never modified",
     "No public function, constructor or method of the package writes into an array (or list or dict) that the caller passed to it, neither during that call nor during a later method call on the object it was given to. Default argument arrays are likewise never written. (A random generator that is passed in advances; that is its purpose.)",
     ["inputs", "histories"], "every public function and method, every argument, every later method call on an object holding the argument",
     "Tests call a few functions with throw-away arrays and never look at the arguments again; aliasing only shows for particular argument dtypes/branches.",
     ALL, [("copies before in-place work (np.array copy, reducible_copy, fresh products)", "medil/graph.py: UndirectedDependenceGraph.__init__, ReducibleUndDepGraph.__init__; medil/evaluate.py: recover_ug, sfd; medil/independence_testing.py: estimate_UDG, dcov")],
     observe=["contents of arguments after the call"])
prop("C02", "A supplied causal or dependence graph is used as given by fit",
     "When a Gaussian model is constructed with a latent-measurement graph, fit keeps exactly that graph and never re-estimates it; when constructed with only an undirected dependence graph, fit derives the latent structure from that dependence graph and does not replace it by an estimate; with neither, both are learned from the dataset passed to the first fit. The loadings and variances always refer to the graph the model reports after fit.",
     ["inputs", "configurations"], "every dataset and every combination of supplied / missing structure",
     "Tests only fit with no structure supplied.",
     [M], [("size == 0 guards", "medil/models.py: GaussianMCM.fit, GaussianMCM._compute_biadj"), ("structure search", "medil/models.py: GaussianMCM._estimate_udg; medil/ecc_algorithms.py: find_heuristic_1pc")],
     state=[("biadj", "latent x measurement graph", "MedilCausalModel.__init__"), ("udg", "undirected dependence graph", "MedilCausalModel.__init__")])
prop("C03", "fit returns the fitted estimator, which can then be sampled",
     "Every estimator class offers fit and sample; fit returns the estimator object itself on every normal return; and after fit with a given method, sampling with that method succeeds in finding the fitted parameters instead of reporting that the model was not fitted.",
     ["histories", "configurations"], "every estimator class, every fitting method, every normal exit of fit",
     "Tests chain fit for two classes only and never sample from a fitted DevMedil or NCFA model.",
     [M], [("return self", "medil/models.py: fit methods"), ("hasattr gates", "medil/models.py: DevMedil.sample")])
prop("C04", "Structure learning ignores measurement units and offsets",
     "Rescaling any measurement variable by a positive factor or shifting it by a constant changes neither the dependence graph estimated from the data (by the Gaussian model or by any independence-testing method) nor the standardised data on which the neural model is trained, with or without an explicit train/validation split.",
     ["inputs"], "every dataset, every positive rescaling and shift of its columns, every method",
     "Tests use unit-scale synthetic data only.",
     [M, I], [("correlation-based score", "medil/models.py: GaussianMCM._estimate_udg"), ("normalisation by mean distances", "medil/independence_testing.py: estimate_UDG, dcov"), ("rank statistics", "medil/independence_testing.py: _xicorr"), ("standardisation", "medil/models.py: NeuroCausalFactorAnalysis.fit")])
prop("C05", "Estimated dependence graphs are undirected and have no self-loops",
     "Every dependence graph the package estimates from data (Gaussian model or any independence-testing method) is a boolean measurement-by-measurement matrix that is symmetric and has a False diagonal, and an accompanying p-value matrix computed by the package is symmetric.",
     ["inputs", "configurations"], "every dataset, method and significance level",
     "test_indep_testing is empty; only two Gaussian graphs are looked at.",
     [M, I], [("symmetrisation and fill_diagonal", "medil/independence_testing.py: estimate_UDG; medil/models.py: GaussianMCM._estimate_udg")])
prop("C06", "Dependence decisions are monotone in evidence and significance",
     "For every testing method, an edge is reported exactly on the side of significant evidence: lowering a pair's p-value (or raising its test statistic) can never remove its edge, and raising the significance level can never remove an edge. For the Gaussian model, a larger absolute correlation can never remove an edge.",
     ["inputs", "configurations"], "every p-value / statistic / significance level",
     "No test exercises any independence-testing method; direction errors at other thresholds are invisible.",
     [M, I], [("threshold comparisons", "medil/independence_testing.py: estimate_UDG; medil/models.py: GaussianMCM._estimate_udg")])
prop("C07", "Unknown or unsupported selectors are rejected explicitly",
     "Every function that selects behaviour by a name (independence test method, parameterisation, fitting or sampling method) raises ValueError or NotImplementedError for a name it does not implement, before returning any result, and for every name it accepts all values it returns are defined. Asking for a number of latents together with a graph that is not one-pure-child is rejected too.",
     ["inputs", "configurations"], "every string passed as selector",
     "Tests try two bad names on one function; falling through to an undefined variable only shows for untested names.",
     [M, I, S], [("dispatch chains", "medil/independence_testing.py: estimate_UDG; medil/sample.py: mcm, biadj; medil/models.py: DevMedil.fit, DevMedil.sample, Parameters.__init__")])
prop("C08", "Parallel independence tests land on the pair they belong to",
     "When pairwise tests run in the worker pool, each p-value is stored at exactly the pair of variables it was computed from (at both mirrored positions), whatever order the workers finish in, and every pair is tested exactly once; workers share no mutable state and the pool is released on every exit.",
     ["schedules", "inputs"], "every worker schedule, number of cores and number of variables",
     "No test runs the pool, and one schedule on a small input would not show a reordering.",
     [I], [("ordered imap over the same pair list used for the scatter", "medil/independence_testing.py: estimate_UDG"), ("module-level worker functions", "medil/independence_testing.py: dcor_test, xicor_test")])
prop("C09", "All randomness comes from the generator supplied by the caller",
     "Random model generation and sampling draw every random number from the generator passed by the caller (or stored in the model), including for the nested random graph; no global or freshly created generator is consulted. Hence two calls with equally seeded generators and equal arguments give equal results.",
     ["inputs", "histories"], "every call of the generating and sampling functions, every prior use of other generators",
     "Tests share one default generator and never compare two seeded runs.",
     [S, M], [("rng parameters threaded to every draw", "medil/sample.py: mcm, biadj; medil/models.py: GaussianMCM.sample, DevMedil")])
prop("C10", "Neural training is reproducible from its seed",
     "Fitting the neural model uses its seed argument for every source of randomness: the train/validation split and the torch generator that drives weight initialisation and latent noise are seeded from it before first use, so that refitting with the same seed and data on the same machine repeats the same computation.",
     ["inputs", "histories"], "every dataset and seed, every prior use of the global generators",
     "The single neural test asserts nothing about the result.",
     [M, V], [("seeding", "medil/models.py: NeuroCausalFactorAnalysis.fit"), ("draw sites", "medil/vae.py: SparseLinear.reset_parameters, VariationalAutoencoder.latent_sample")])
prop("C11", "Objects do not influence each other through default arguments",
     "Calling a function or building a model with defaulted arguments gives results that do not depend on earlier calls: no default argument object that is created once at definition time is mutable state which the call then changes or advances.",
     ["histories"], "every history of earlier calls and constructions in the process",
     "Tests run in one fixed order; BUILD.json notes a test that passes only because of that order.",
     ALL, [("default argument expressions", "all function signatures of the package")])
prop("C12", "Generated Gaussian models have valid, edge-faithful parameters",
     "A randomly parameterised Gaussian model has a loading on exactly the edges of its graph: every edge's loading has absolute value between 0.5 and 2 and every non-edge's loading is exactly 0; every error variance lies between 0.5 and 2 and is positive; every error mean has absolute value at most 2.",
     ["inputs", "configurations"], "every graph and every state of the random generator",
     "One draw is tested; a range or mask slip shows only for other draws.",
     [S], [("affine transforms of unit-interval draws, masked store", "medil/sample.py: mcm")])
prop("C13", "Fitted loadings vanish off the graph; every fitted number is reported once",
     "After fitting a Gaussian model, loadings are exactly zero wherever the model's graph has no edge, and the optimiser's solution vector is split without overlap or omission into the edge loadings and the error variances that the model reports, in the same layout the objective used.",
     ["inputs"], "every dataset and graph",
     "Tests compare two fitted models within loose tolerances.",
     [M], [("masked stores and complementary slices", "medil/models.py: GaussianMCM.fit")])
prop("C14", "Reported parameters are the ones the fitting objective evaluated",
     "For every fitting method (Gaussian least squares, penalised likelihood, penalised least squares) the objective depends on the optimisation vector only through the loadings and error variances that are reported after fitting, decoded in the same way; the model-implied covariance it compares with the sample covariance is loadings-transposed times loadings plus the diagonal error variances; and the matching validation loss evaluates that same objective at the reported parameters.",
     ["inputs", "configurations"], "every dataset, regularisation strength and method",
     "DevMedil is untested; a decoding slip keeps fit running and only biases numbers.",
     [M], [("objective closures vs. final unpacking", "medil/models.py: GaussianMCM.fit, DevMedil.fit_penalized_mle, fit_penalized_lse, validation_mle, validation_lse, compute_sigma")])
prop("C15", "Sampling follows the model's own parameters",
     "A sample from a linear model is distributed as independent standard normal latents times the model's loadings plus independent Gaussian errors with the model's error means (zero for the penalised estimators) and diagonal error variances: the implied covariance is exactly the one the fitting objective assumes, one fresh independent draw per row, with as many rows as requested.",
     ["inputs", "configurations"], "every parameter setting and sample size",
     "Tests compare sample means of two models with loose tolerance and never the covariance.",
     [M], [("latent and error draws", "medil/models.py: GaussianMCM.sample, DevMedil.sample")])
prop("C16", "Arrays have the documented orientation and size",
     "For a dataset of n observations of m measurements: dependence graphs and p-values are m by m, latent graphs and loadings are latents by m, error means and variances have length m, samples are requested-size by m, covers have one column per vertex, the latent-to-measurement DAG is square over latents then measurements, and the autoencoder returns reconstructions and log-variances of its input's shape and latent codes of the latent dimension, for every width and depth.",
     ["inputs", "configurations"], "every n, m, number of latents, width and number of hidden layers",
     "Tests use one or two sizes, at width 1, where several orientations coincide.",
     ALL, [("array expressions of all numeric functions", "medil/*.py")])
prop("C17", "Neural training updates only on training batches in training mode",
     "During neural fitting every optimiser step is preceded, for that same batch, by clearing gradients and back-propagating the loss of a training-split batch computed with the network in training mode; validation data is only ever evaluated, in evaluation mode and without gradient tracking, and never causes an update. This holds in every epoch, not just the first.",
     ["histories", "inputs"], "every epoch and batch, every number of epochs and batch sizes",
     "The neural test asserts nothing; mode leaks from one epoch to the next do not raise.",
     [M, V], [("mode switches, zero_grad/backward/step order", "medil/models.py: NeuroCausalFactorAnalysis._train_vae, _valid_vae")])
prop("C18", "Every layer of the autoencoder is registered",
     "Every sub-layer and weight the autoencoder uses in its forward computation is visible to its parameter list, hence trained by the optimiser, moved by device transfer and saved with the model, for every number of hidden layers; fixed masks move and save with it too. The optimiser is built over all parameters of the model that is trained.",
     ["configurations"], "every depth and width of the network",
     "The neural test asserts nothing about parameters.",
     [V, M], [("module attributes", "medil/vae.py: Encoder, Decoder, SparseLinear"), ("optimizer construction", "medil/models.py: NeuroCausalFactorAnalysis._train_vae")])
prop("C19", "Decoder blocks of different measurements never mix",
     "After the first decoder layer, the reconstruction and the log-variance of each measurement are computed only from that measurement's own block of hidden units, at every width and depth: masked connections carry no signal in any forward pass, whatever values the weights take.",
     ["configurations", "inputs"], "every width, depth, weight values and inputs",
     "Default width is 1 and outputs are never inspected.",
     [V], [("block-diagonal masks multiplied into the weights", "medil/vae.py: Decoder.__init__, Decoder.forward, SparseLinear.forward")])
prop("C20", "The autoencoder is deterministic in evaluation mode",
     "In evaluation mode the forward pass draws no random numbers and decodes the latent mean itself; random latent noise is used only in training mode, where it is scaled by the standard deviation exp(logvar/2) and centred on the mean.",
     ["inputs", "configurations"], "every input and weight setting",
     "Nothing compares two evaluation passes.",
     [V], [("training-mode guard on the noise", "medil/vae.py: VariationalAutoencoder.latent_sample")])
prop("C21", "Neural fitting writes its artefacts, and only inside the chosen directory",
     "Every file the neural estimator creates lies inside the directory given as path, with or without a trailing separator; a completed fit has written the trained model, the loss history, the error history and a log line for every epoch there, and the saved model and histories are the ones the fitted object reports. No other computation of the package writes files, except the explicitly requested graph export.",
     ["inputs", "configurations"], "every path string, every fit",
     "The neural test uses the default path and never looks at the files.",
     [M, G], [("path construction and saves", "medil/models.py: NeuroCausalFactorAnalysis.__init__, log, fit"), ("export", "medil/graph.py: UndirectedDependenceGraph.convert_to_nde")])
prop("C22", "Training histories are complete and correctly labelled",
     "After neural fitting, each of the four reported series (training/validation loss, training/validation reconstruction error) has exactly one entry per epoch, computed from that epoch's batches of that split and of that quantity, averaged over the split's batches with fresh accumulators every epoch.",
     ["inputs", "configurations"], "every number of epochs and batches",
     "The histories are never inspected by tests.",
     [M], [("accumulators, appends and result dictionary", "medil/models.py: NeuroCausalFactorAnalysis._train_vae, _valid_vae, fit")])
prop("C23", "Every hyperparameter takes effect, and only declared ones are read",
     "Each hyperparameter the neural estimator exposes influences fitting, and fitting reads no hyperparameter that is not declared; each value goes to the quantity it is named after (learning rate, batch size, number of epochs, beta, penalty strengths, width, depth, significance level, test method).",
     ["configurations"], "every setting of every hyperparameter",
     "Tests only use the defaults.",
     [M], [("hyperparams table and its reads", "medil/models.py: NeuroCausalFactorAnalysis.__init__, fit, _train_vae, _valid_vae, _elbo_gaussian, _data_loader")])
prop("C24", "Training minimises reconstruction loss, KL and loading penalties",
     "The quantity minimised in neural training never decreases when, other things equal, the squared reconstruction error, the KL term weighted by beta, or the nuclear or L1 norm of the loading matrix weighted by their non-negative strengths grows; validation loss is the same quantity without the loading penalties.",
     ["inputs", "configurations"], "every batch, weight setting and non-negative hyperparameter value",
     "Tests never evaluate the loss; a sign slip keeps training running.",
     [M], [("loss composition", "medil/models.py: NeuroCausalFactorAnalysis._elbo_gaussian")])
prop("C25", "Structural distances are symmetric and ignore latent labels",
     "The structural distances between two latent graphs are non-negative, symmetric in their two arguments, zero when both are the same graph, and unchanged by reordering the latents of either graph.",
     ["inputs"], "every pair of binary latent graphs over the same measurements",
     "One test with three graph pairs, always in one argument order.",
     [EV], [("Gram matrices, squared difference, xor", "medil/evaluate.py: sfd, recover_ug")])
prop("C26", "Loading distances minimise over every relabelling of latents",
     "The permutation distances are the minimum, over all permutations of the predicted latents, of the squared difference to the true loadings padded with zero rows; the returned permutation attains the returned distance, the distance is non-negative, no precision is lost for integer inputs, and the absolute-value variant does not change when any loading's sign is flipped in either argument.",
     ["inputs"], "every pair of loading matrices with at least as many predicted as true latents",
     "These functions have no test at all.",
     [EV], [("exhaustive minimum over permutations", "medil/evaluate.py: min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs")])
prop("C27", "Xi correlation depends on the data only through ranks",
     "The xi correlation and its p-value depend on the two samples only through their ranks, so strictly increasing transformations of either variable leave them unchanged; unequal lengths are rejected with ValueError and empty inputs, and only they, are answered with NaN.",
     ["inputs"], "every pair of samples",
     "No test calls it.",
     [I], [("rank transforms and size checks", "medil/independence_testing.py: xicorr, _xicorr")])
prop("C28", "Generated one-pure-child graphs satisfy their definition",
     "A randomly generated one-pure-child graph has the requested numbers of latents and measurements, every latent has at least one measurement that is its child alone, and every measurement has at least one latent parent, whatever the density.",
     ["inputs", "configurations"], "every size, density and generator state",
     "Tests check two densities at one size (where the randomness hardly matters).",
     [S], [("identity block, guaranteed parent, within-column permutation, column permutation", "medil/sample.py: biadj")])
prop("C29", "Branches of the exact cover search are isolated",
     "Exploring one alternative of the exact cover search leaves the search state it started from unchanged, so the result of the search does not depend on alternatives that were tried and abandoned.",
     ["inputs", "histories"], "every graph, every sequence of abandoned alternatives",
     "Example graphs rarely backtrack, so leaked state stays invisible.",
     [G, E], [("reducible_copy copies every array that reductions modify", "medil/graph.py: ReducibleUndDepGraph.__init__; medil/ecc_algorithms.py: branch")])
prop("C30", "The exact search returns only complete covers of all vertices",
     "The exact cover search never returns a cover while an edge of the graph is still uncovered or a vertex removed by a reduction has not been put back, and every result, including for a graph without edges, is a new boolean matrix in which each vertex belongs to at least one clique.",
     ["inputs"], "every undirected graph",
     "Five example graphs are tested; incomplete covers only appear on graphs that need deeper search.",
     [E, G], [("num_edges test before returning, reconstruct_cover, add_isolated_verts", "medil/ecc_algorithms.py: branch, find_clique_min_cover, add_isolated_verts; medil/graph.py: reconstruct_cover")])
prop("C31", "The heuristic cover always explains every dependence",
     "The one-pure-child heuristic returns a boolean latent graph only if every edge of the dependence graph it was given is explained by a shared latent in that graph (otherwise it raises), and it gives each chosen pure child its own latent, covering the child and all its neighbours.",
     ["inputs"], "every undirected dependence graph",
     "It is only reached through two small fitted models.",
     [E], [("final containment check and raise", "medil/ecc_algorithms.py: find_heuristic_1pc")])
prop("C32", "No public operation fails for want of a name, attribute or argument",
     "Every name, imported symbol, own attribute and internal call signature that code of the package uses exists on every path that reaches it, so that no public operation can stop with NameError, ImportError, AttributeError on its own state, UnboundLocalError, or a wrong-arguments TypeError caused by the package itself; nor does any use an unhashable array as a set or dictionary key.",
     ["inputs", "configurations"], "every function of the package and every path through it",
     "Plotting and experimental classes are not executed by tests, and importing a module does not resolve names inside functions.",
     ALL, [("imports and definitions", "medil/*.py")])
prop("C33", "0/1 integer graphs and boolean graphs mean the same",
     "Wherever the package accepts a graph (latent graph or dependence graph) as input, passing it as a 0/1 integer matrix gives the same structure and parameters as passing it as the boolean matrix: no computation uses an unconverted graph argument as an index mask or applies an operation to it whose meaning differs between integers and booleans.",
     ["inputs"], "every function taking a graph, both encodings",
     "Tests use one encoding per function; the shipped example graphs are integers while generated graphs are boolean.",
     [M, S, E, G, EV, VI], [("conversion to bool before masking", "medil/models.py: GaussianMCM.fit; medil/sample.py: mcm; medil/evaluate.py: sfd")])
prop("C34", "The exported DAG has only latent-to-measurement edges",
     "Converting a latent graph to a full DAG adjacency yields exactly its edges, each directed from a latent to a measurement, with latents numbered before measurements; there are no edges among latents, among measurements, or from measurements to latents.",
     ["inputs"], "every latent graph shape",
     "Visualisation has no test.",
     [VI], [("single off-diagonal block store", "medil/visualize.py: get_dag_from_biadj")])
prop("C35", "The exact cover is a minimum edge clique cover",
     "For every undirected graph the exact search returns a cover whose rows are cliques of the graph, which covers every edge, and which has the smallest possible number of cliques.",
     ["inputs"], "every undirected graph", "Five examples are tested.",
     [E, G], [("branching search with reduction rules", "medil/ecc_algorithms.py, medil/graph.py")])
prop("C36", "Maximal clique enumeration is complete and duplicate-free",
     "For every undirected graph the clique generator yields each maximal clique exactly once and nothing else.",
     ["inputs"], "every graph", "Never tested directly.",
     [E], [("Bron-Kerbosch style enumeration", "medil/ecc_algorithms.py: max_cliques")])
prop("C37", "Distance covariance equals its definition",
     "The sample distance covariance matrix equals the textbook doubly-centred definition for every dataset.",
     ["inputs"], "every dataset", "Never tested.",
     [I], [("doubly centred distances", "medil/independence_testing.py: dcov")])
prop("C38", "Independence tests are calibrated and estimators consistent",
     "Under independence each test rejects with probability at most about its significance level, and as the sample grows the estimated structure and parameters converge to the data-generating ones.",
     ["inputs"], "every data distribution in the model class", "Two large-sample examples only.",
     [I, M], [("test statistics and optimisation", "medil/independence_testing.py, medil/models.py")])
prop("C39", "The searches terminate",
     "The exact and heuristic cover searches terminate on every undirected graph.",
     ["inputs"], "every graph", "Finite examples only.",
     [E, G], [("loops", "medil/ecc_algorithms.py: find_clique_min_cover, find_heuristic_1pc; medil/graph.py: reduzieren")])
prop("C40", "Neural fitting works on whichever device is selected",
     "Whatever device the estimator selects, training and validation of the neural estimator never combine tensors that live on different devices: the network, its registered weights and masks, every batch and every tensor created in a forward pass or a loss are on the selected device, and everything that is converted to numpy or reported is brought back to the host first.",
     ["inputs", "configurations"], "every selected device, dataset, split and training configuration",
     "Tests run on a machine without a GPU, where every tensor is on the host and a misplaced one is invisible.",
     [M, V], [("device moves", "medil/models.py: NeuroCausalFactorAnalysis._train_vae, _valid_vae, fit"), ("tensors created in the forward pass", "medil/vae.py")])

prop("C41", "Queries leave the model unchanged",
     "Asking a model something does not change it: sampling, evaluating a validation or penalty function, computing a covariance, a forward pass, or reading a neighbourhood or a reconstructed cover leaves every stored parameter, structure matrix, mask, weight and auxiliary matrix exactly as it was (the random generator, normalisation statistics in training mode and newly added caches excepted), so that the same question asked again has the same answer.",
     ["inputs", "histories"], "every model state, every query and every order of queries",
     "Tests call each query once on a fresh model and do not compare the model's state before and after.",
     [M, G], [("sampling and validation", "medil/models.py: GaussianMCM.sample, DevMedil.sample, validation_mle, validation_lse"), ("forward pass", "medil/vae.py"), ("graph queries", "medil/graph.py: reducible_copy, choose_nbrhood, reconstruct_cover, convert_to_nde")])

prop("C42", "Figures put every variable and value where it belongs",
     "What the plotting functions draw is the given data at the right place: a matrix figure shows the matrix itself (or its entries above the threshold) with one tick per variable on both axes, each labelled with that variable's number counted from 1; a printed value stands on the cell it was read from; the DAG figure gives every latent and every measurement exactly one position, one label with its own number and name, with the two layers at different heights and in different colours; the pairwise figure shows all variables under their own names, of all observations or of the first ones when it is shortened.",
     ["inputs"], "every matrix, graph, sample and threshold, of every size", "Tests do not look at figures; the examples are only viewed by eye.",
     ["medil/visualize.py"], [("matrix figures", "medil/visualize.py: show_obs_adj_mat, show_obs_dcor_mat"), ("DAG", "medil/visualize.py: show_dag"), ("pairs", "medil/visualize.py: show_pairwise_plot")])

prop("C43", "Verbosity only changes what is printed",
     "Asking for verbose output changes what is printed and nothing else: covers, graphs, reduced problems, fitted models, losses, training histories, written files and random draws are the same with and without it, and nothing is skipped, stopped early or raised because of it.",
     ["inputs", "configurations"], "every input and every verbosity setting", "Tests run each operation with one verbosity setting only.",
     [E, G, M], [("verbosity flags", "medil/ecc_algorithms.py: find_clique_min_cover; medil/graph.py: rule_1, rule_2, rule_3, reduzieren, cover_edges; medil/models.py: NeuroCausalFactorAnalysis.log")])

prop("C44", "Dependence graph edits, tables and exports are exact",
     "For every symmetric graph and every list of edges: adding or removing edges changes exactly those edges, in both directions; the edge count always equals the number of edges of the current graph; edges and row numbers translate into each other over every vertex pair exactly once; common neighbours of an edge are the vertices adjacent to both its ends, stored in that edge's own row with the right edge count; the exported file lists the number of vertices, each vertex's own degree and every edge once; and the graph recovered from a latent structure joins two different measurements exactly when they share a latent.",
     ["inputs", "histories"], "every graph and every sequence of edits", "Tests build one or two small graphs and mostly check the final cover.",
     [G, EV], [("dependence graph", "medil/graph.py: UndirectedDependenceGraph.__init__, add_edges, rm_edges, make_aux, convert_to_nde"), ("recovered graph", "medil/evaluate.py: recover_ug")])

prop("C45", "Fits and calls start from their own data, not from earlier ones",
     "Fitting an estimator again on other data, or calling a function again on other arguments, gives what a fresh object or process would give: no stored parameter, loss, history, network, written file or returned value depends on data of an earlier call, nothing is computed once and reused for later data, and no setting drifts from fit to fit. (A structure the model already has is kept, and a generator passed in advances.)",
     ["histories", "inputs"], "every sequence of fits and calls", "Every test fits each object once; a stale cache or drifting setting shows only in the second fit on other data.",
     [M, I, E, EV, S, G], [("fits and functions", "medil/models.py: GaussianMCM.fit, DevMedil.fit, NeuroCausalFactorAnalysis.fit; medil/independence_testing.py: estimate_UDG; medil/ecc_algorithms.py: find_heuristic_1pc; medil/evaluate.py")])

with open(OUT, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
