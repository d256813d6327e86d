prop("C12", "The reaction-diffusion automaton integrates the Gray-Scott equations",
     """One step of the reaction-diffusion automaton is an explicit Euler step of u' = Du lap(u) - u v^2 + f (1 - u),
     v' = Dv lap(v) + u v^2 - (f + k) v with the Laplacian stencil over dx^2, clipped to [0,1], using the diffusion rates,
     feed rate, kill rate, dx and dt that were configured or set. Hence u=1, v=0 is a fixed point, other homogeneous
     equilibria are too, diffusion conserves mass, and the parameters that are read back are those that were set.""",
     "inputs configurations", "all states in [0,1], all diffusion, feed and kill rates, dx, dt, stencil radii",
     "tests only step it and compare shapes", "yuca/ca/reaction_diffusion.py yuca/kernels.py",
     [("forward / update", "yuca/ca/reaction_diffusion.py"), ("get_laplacian_of_gaussian", "yuca/kernels.py")],
     observe=["return value of a step", "get_params()"])

prop("C13", "The adaptive automaton takes the largest trial step whose error is acceptable",
     """The adaptive automaton tries twice its previous time step (capped at the upper limit), then repeatedly three
     quarters of that, and uses the first for which one step and two half steps agree to within the relative error
     threshold on every cell, or else the lower limit. The state it returns is the continuous automaton's step of exactly
     that size, which it reports as its time step, adds to its clock, and starts from next time (after a reset, from its initial one).""",
     "inputs configurations histories", "all states, thresholds, limits and previous steps",
     "tests only check that the class runs", "yuca/code.py yuca/ca/continuous.py",
     [("forward", "yuca/code.py"), ("update with error estimate", "yuca/code.py")],
     state=[("prev_dt", "the last accepted step")], observe=["get_dt()", "t_count", "return value of a step"])

prop("C25", "Cells whose fourth channel is not above the threshold count as empty",
     """With four or more channels, a cell whose fourth channel is not above the alive threshold influences the next state
     exactly as if all its channels were zero, in every automaton except reaction-diffusion; with fewer channels nothing is
     masked. The threshold is the one configured (0.1 by default).""",
     "inputs configurations", "all states, all thresholds, all automaton classes",
     "no test sets up dead cells", ALLCA, [("alive_mask", "yuca/ca/common.py")], observe=["return value of a step"])

prop("C26", "A preview shows the state the automaton would step to, without stepping",
     """For any state the frame preview of an automaton returns, in each of its modes, the state that stepping would
     return (and, in the modes that ask for them, the neighborhood values, the update and the state shown), and leaves the
     automaton, its clock and the given state unchanged, so that later steps are the same with or without previews.""",
     "inputs histories configurations", "all states, all preview modes, automata that do not choose their own time step",
     "one test checks the preview's shape", CA + " yuca/ca/neural.py yuca/ca/reaction_diffusion.py yuca/lenia.py",
     [("get_frame", "yuca/ca/common.py and overrides")], observe=["get_frame(...)", "t_count", "later steps"])


prop("C10", "Setting an automaton's parameter vector gives the automaton of that vector",
     """For every family of growth functions and kernels, the parameter vector read back after it is set is the vector
     that was set, and setting the vector just read changes nothing. After a vector is set, steps equal those of an
     automaton configured from the start with those values and the same families, whatever was set or stepped before.""",
     "inputs configurations histories", "all parameter values, growth and kernel families, earlier histories",
     "tests set a few random vectors and check lengths and values, not what the automaton then does",
     CA + " yuca/ca/neural.py yuca/kernels.py yuca/activations.py",
     [("get_params / set_params", "yuca/ca/continuous.py and overrides")],
     observe=["get_params()", "return value of a step"])

prop("C11", "An automaton restored from its saved configuration is the same automaton",
     """An automaton restored from a configuration that was saved, as a file or passed as a dictionary, into any instance of
     its class and after any history of either, steps exactly like the one that was saved and reports the same parameters,
     time step and kernel radius. Saving changes nothing about the automaton, and neither the saved configuration nor
     another automaton made from it changes when an automaton is changed later.""",
     "inputs configurations histories", "all parameter values, families, automaton classes, histories before saving and restoring",
     "tests save and restore a few default automata and compare some of their parameters",
     CA + " yuca/ca/neural.py yuca/ca/reaction_diffusion.py yuca/code.py yuca/lenia.py",
     [("make_config / save_config / restore_config", "yuca/ca/common.py and overrides")],
     state=[("ca_config", "the configuration an automaton was restored from")],
     observe=["make_config()", "the saved file", "return value of a step", "get_params()"])

prop("C24", "Reconfiguring an automaton equals configuring it so from the start",
     """Setting the kernel radius, kernel configuration, growth configuration, time step, cell size, diffusion rates or a
     whole configuration, at any time and in any order, leaves an automaton that steps and reports like one built with those
     settings from the start. Other automata are unaffected.""",
     "inputs configurations histories", "all values of each setting, orders of settings, steps in between",
     "tests call single setters and check the attribute that was set",
     CA + " yuca/ca/neural.py yuca/ca/reaction_diffusion.py yuca/code.py yuca/lenia.py",
     [("set_kernel_radius, set_kernel_config, set_dt, set_dx, load_config", "yuca/ca/*.py")],
     state=[("kernel_radius, kernel_config, dt, dx", "settings")],
     observe=["return value of a step", "get_params()", "get_dt()", "kernel_radius"])

prop("C27", "A configuration named by path or bundled name restores the rule it holds",
     """A configuration name is resolved as a path first and otherwise among the bundled configurations, subfolders
     included; a trailing newline does not matter. The automaton then steps with the growth functions, kernel, radius and
     time step stored in that file, for every configuration shipped with the package; a name that exists nowhere leaves an
     already configured automaton unchanged.""",
     "inputs configurations", "all shipped configurations, all states, names that are paths, bundled or missing",
     "tests restore a few of the shipped files and check no numbers",
     "yuca/ca/common.py yuca/ca/continuous.py yuca/ca/neural.py yuca/ca/reaction_diffusion.py ca_configs/*.npy",
     [("restore_config", "yuca/ca/common.py and overrides"), ("shipped rules", "ca_configs/")],
     observe=["return value of a step", "get_params()"])

prop("C14", "Each generation keeps the fittest and draws the next from their distribution",
     """Given any fitness values, the elites of a generation are those its selection scheme defines (truncation: the fittest
     pop//8+1 in order; tournament: the fittest of each bracket; proportional: drawn without replacement by rank), and the
     next generation is drawn from a Gaussian with the elites' mean and covariance. The last generation, also when the
     search ends early, is ranked by its own fitness and the fittest is what is saved; a search started from a log continues
     from the elites in it.""",
     "inputs histories", "all fitness values, ties included, all parameters, population sizes, selection schemes",
     "the tests run one generation and check that nothing raises", "yuca/cmaes.py yuca/params_agent.py",
     [("update_population, rank_population, search", "yuca/cmaes.py")],
     state=[("elite_population, means, covariance", "the search distribution")],
     observe=["population", "the saved log", "arguments of multivariate_normal"])

prop("C15", "Fitness is the mean reward, reproducible and independent of the workers",
     """The fitness of a member is the mean reward over its steps and replicates, each replicate starting from a reset
     environment and automaton; it is a function of its parameters and the seed of the generation only: it does not depend on the other members or on what was drawn before. However many workers
     share a generation, each member is evaluated exactly once, its fitness reaches its own place in the ranking, and the
     workers end with the search.""",
     "inputs schedules histories", "all parameters, rewards and draws, population sizes, numbers of workers",
     "tests never run workers and do not recompute a fitness", "yuca/cmaes.py",
     [("get_fitness, mantle, arm", "yuca/cmaes.py")], observe=["get_fitness(...)", "fitness values ranked", "messages between ranks"])

prop("C16", "The pattern library returns what was stored and overwrites nothing",
     """A pattern loaded from the library has the values, shape and metadata it was stored with, including the rule that made
     it. Storing under a name already taken keeps the earlier pattern, and the index lists every stored name. Every shipped
     pattern loads and names a rule that exists.""",
     "inputs histories", "all pattern values, names, metadata texts, sequences of stores and loads",
     "tests store one pattern and check that a file exists", "yuca/zoo/librarian.py yuca/utils.py yuca/zoo/*",
     [("store, load, update_index", "yuca/zoo/librarian.py")],
     state=[("directory", "the library's files")], observe=["load(...)", "index"])

prop("C17", "Halting and random wrappers score a rule as they define",
     """The simple halting wrapper rewards a rule by minus the distance of the surviving fraction of patterns from one half,
     the halting wrapper by minus the fraction of patterns whose fate its predictor calls correctly, both after setting the
     rule and running it for the configured steps from fresh random patterns. The random wrapper's reward lies in [0,1) and
     does not depend on the rule.""",
     "inputs configurations histories", "all automaton outcomes, batch sizes, rules, prediction modes",
     "tests run random rules and check the reward's type", "yuca/wrappers/halting_wrapper.py yuca/wrappers/random_wrapper.py",
     [("step / meta_step", "yuca/wrappers/*.py")], observe=["reward", "grids given to the automaton"])

prop("C18", "The glider reward is distance travelled minus change of mass",
     """The glider wrapper rewards a pattern, per step of its automaton, by how far its centre of mass moved along the columns
     (in kernel radii, a jump across the right edge counting as forward), minus the relative change of its total mass. The
     automaton is reset first, runs from the pattern for the configured number of steps, and stops earlier only when the grid
     is empty or no longer changes; scoring one pattern does not affect the next.""",
     "inputs histories", "all patterns, all automaton outcomes, numbers of steps, kernel radii",
     "the test scores random patterns and checks the reward's type", "yuca/wrappers/glider_wrapper.py",
     [("meta_step, init_displacement_grid", "yuca/wrappers/glider_wrapper.py")], observe=["reward", "info", "grids given to the automaton"])

prop("C19", "A CPPN's pattern is its network's output on a disc, set by one vector",
     """A CPPN agent's pattern is its network's output over the coordinate features (or a given input) times (1-r)^2 inside
     radius 0.75, vanishing outside and within [0,1], for any number of channels. The parameter vector read back is the one
     that was set or that the agent was made with; in the combined agent it is the pattern's vector followed by the rule's.""",
     "inputs configurations", "all network parameters, grid sizes, numbers of channels",
     "tests check shapes of patterns of random networks", "yuca/cppn.py yuca/params_agent.py",
     [("get_action, get_params, set_params", "yuca/cppn.py")], observe=["get_action()", "get_params()"])

prop("C20", "Training inputs are the image, damaged and noisy exactly as asked",
     """An item of a training batch is the given image with a disc of the asked radius around a random centre removed, and all
     outside the aperture removed, plus uniform noise of the asked level; added channels start empty. Items are damaged and
     made noisy independently of each other, and the image itself and the cells outside the damage are kept as they are.""",
     "inputs", "all images, numbers of channels and items, centres of damage, noise values, radii",
     "the tests check shapes of a batch", "yuca/utils.py",
     [("get_bite_mask, get_aperture, prep_input, get_mask", "yuca/utils.py")], observe=["returned batch"])

prop("C21", "Entropy and correlation measures equal their definitions",
     """The entropy of a grid is -sum p log2 p over the grey levels of the stretched grid, unchanged by shift and scale of its
     values; spatial entropy is that of the window around each cell, wrapped at the borders, for each sample and channel.
     Conditional entropy is -sum p(s,u) log2 p(s|u) over the states of cells and of their neighbors in one direction (or
     the mean of the directions), and autocorrelation the mean product of normalized states at the given lag.""",
     "inputs", "all grids within some grey levels, all windows and directions",
     "the tests measure random grids and check types", "yuca/analyze.py",
     [("get_grid_entropy, get_spatial_entropy, get_conditional_grid_entropy, Phanes.autocorrelate", "yuca/analyze.py")], observe=["returned measures"])

prop("C22", "A universe's analysis counts its dying and spreading patterns correctly",
     """The analysis of a rule starts patterns within the central half of the grid, and reports as mortality the fraction that
     ended empty, as fertility the fraction that reached the border of the grid with mass, and when each first became empty
     (or that it did not). Measures are taken at every step and the run ends early only when all are empty. Rules of
     a folder are each analyzed with their own parameters and saved under their own name.""",
     "inputs histories", "all automaton outcomes, batch sizes, numbers of steps, starting patterns",
     "the tests run an analysis of random rules and check it does not raise", "yuca/analyze.py",
     [("Phanes.analyze_universe, analyze_multiverse", "yuca/analyze.py")], observe=["the result and saved logs"])

prop("C23", "Animations show the states of the run, in order, in the right colours",
     """The k-th picture of an animation shows the state after k times speedup steps, with its levels within one grey level of
     255 x: one channel through the colour map, two as green and blue, three or more as the first (up to) four, inverted on
     request except for alpha. The animation ends when the pattern has vanished, none is made of an empty grid, and it is
     saved in the folder and under the tag asked for, leaving no frames behind.""",
     "inputs histories", "all states, numbers of channels and steps, speedups, steps of vanishing",
     "tests check that a gif file exists", "yuca/utils.py", [("save_fig_sequence, make_gif", "yuca/utils.py")],
     observe=["saved pictures and their order", "paths"])

prop("C09", "A Life-like configuration is exactly that Life-like rule",
     """An automaton configured for the births and survivals of a Life-like rule (any subsets of 0..8, by default Conway's Life)
     takes every binary grid to the grid that rule gives, at every step of a run, borders wrapped. A cell within 1e-3 of 0 or
     1 whose neighbors sum to about a count ends within about 1e-3 of what the rule says, so errors do not build up. The
     shipped Conway and Morley rules are B3/S23 and B368/S245, and the library's glider glides.""",
     "inputs histories configurations", "all neighborhoods near a count, births and survivals 0..8",
     "tests build one such configuration and never step it", "yuca/configs.py yuca/ca/continuous.py yuca/activations.py yuca/kernels.py",
     [("get_life_like_config", "yuca/configs.py"), ("SmoothIntervals", "yuca/activations.py")], observe=["the grid after a step"])

prop("C28", "A clone is saved at its best, trained on the neighborhoods of its rule",
     """Cloning a rule trains neural automata, one per iteration, on the mean relative error of their update to the update of the
     cloned automaton, with the neighborhoods of that automaton's own kernel; an iteration ends after the configured steps or
     as soon as the error is below the threshold. What is saved, for each rule under its own name, are the parameters whose
     measured error was the lowest of all steps and iterations for that rule, whatever the optimizer does to them.""",
     "inputs histories", "all sequences of weights an optimizer may produce, orders of errors, thresholds",
     "the test clones two steps and checks that a file exists", "yuca/clone.py yuca/ca/neural.py",
     [("clone_from_ca", "yuca/clone.py")], observe=["saved state", "losses", "weights at each measurement"])

prop("C29", "Fitting a predictor is one step per batch, truthfully recorded",
     """Fitting a step predictor takes one optimizer step on all weights per batch of every epoch, on the batch's mean squared
     error, in training mode and with the gradients of that batch only. It records the running mean (0.99 old, 0.01 new) of
     that loss after every batch and, at every disp_every-th epoch and the last, the validation error, which is the mean over
     samples of their summed squared error in evaluation mode; the saved weights are those of the last epoch.""",
     "inputs histories", "all data values, sequences of weights an optimizer may produce, splits in batches, epochs",
     "no test fits a predictor", "yuca/step_predictor.py", [("StepPredictor.fit", "yuca/step_predictor.py")],
     observe=["losses", "saved log", "saved weights"])

prop("C30", "Rule agents hand out the parameters given to them, or their filtered form",
     """The parameters an agent hands out and reads back are those it was made with or last set to; with filtering, those set
     are taken by magnitude and kept within [1e-4, 1], and those it was made with by magnitude. Setting never changes the
     caller's vector nor another agent, and agents made without parameters draw their own in [0,1).""",
     "inputs histories", "all parameter vectors, ways of making an agent",
     "tests check shapes", "yuca/params_agent.py", [("ParamsAgent", "yuca/params_agent.py")],
     observe=["get_params()", "get_action()"])

prop("C31", "Step predictors apply all their layers, and their error is per sample",
     """A step predictor of n layer pairs maps a grid through all n in turn: each adds to the grid the sigmoid of a one-by-one
     convolution of the rectified zero-padded convolution of it, with dropout only while training. Its error on a test set is
     the mean over samples of their summed squared error, in evaluation mode, however the set is split in batches. All its
     weights are saved and restored under their names.""",
     "inputs configurations", "all inputs, weights, targets within the sizes listed, splits in batches",
     "no test covers step predictors", "yuca/step_predictor.py", [("StepPredictor.forward, evaluate", "yuca/step_predictor.py")],
     observe=["prediction", "evaluate(...)"])

prop("C32", "What a search saves, logs and shows are the rules of its fittest",
     """The configuration a search saves for a seed holds, in universe searches and in co-evolution, the rule of the member
     that was fittest in the last generation, and in pattern searches the unchanged rule the patterns ran under; the
     configurations it logs hold the rules of that generation's elites, in order. The final animations show the elites under
     the tag of their seed and generation. This holds whatever was evaluated after the fittest, and showing leaves the number
     of steps of later evaluations as it was.""",
     "inputs histories", "all fitness values, hence all orders of members, kinds of search, seeds, generations",
     "tests run tiny searches and check that files exist", "yuca/cmaes.py yuca/cppn.py yuca/ca/common.py",
     [("search", "yuca/cmaes.py"), ("CPPNPlus", "yuca/cppn.py")],
     observe=["saved configuration", "the log's configurations", "animations made"])

prop("C33", "The search that runs is the one asked for, with its settings",
     """The tag of a search decides its kind (universe, pattern or co-evolution), and with it agent and wrapper, and the named
     automaton, wrapper and number type are the ones used; an unknown name is refused and nothing runs. Every numeric or
     textual setting reaches the search unchanged, except that reaction-diffusion always has two channels, and is in force:
     automaton, grids, steps, population, generations and seeds are as asked. The caller's settings are left alone, and
     nothing is left behind for the next search.""",
     "inputs configurations", "all combinations of kinds, automata, wrappers; all numeric settings",
     "tests run one configuration each", "yuca/evolve.py yuca/cmaes.py",
     [("evolve, universe_search, pattern_search, coevolve", "yuca/evolve.py")],
     observe=["the search that is made", "its environment, automaton and agents"])

prop("C34", "The named presets are the rules they are named after",
     """Each preset configures the published rule at any radius, and an automaton configured so steps by exactly that rule:
     orbium is Lenia's Gaussian ring with growth centre 0.15 and width 0.015, geminium the three-ring kernel with 0.26 and
     0.036, SmoothLife its inner disc and outer ring with the birth and survival intervals given, or the published ones. Every
     call gives a fresh configuration, and changing one part of it changes no other part and no later configuration.""",
     "inputs configurations", "all states, radii, SmoothLife intervals",
     "tests check that the presets have the expected keys", "yuca/configs.py yuca/kernels.py yuca/activations.py",
     [("get_orbium_config, get_geminium_config, get_smooth_life_config", "yuca/configs.py")],
     observe=["return value of a step", "the configuration"])

prop("C35", "Work started from a log continues with the fittest of that log",
     """An automaton of any class made from the log of a universe search has the parameters of the fittest member of the last
     generation logged and steps like one set to them; it can be saved and restored without the log, which stays as it was. A
     search continued from a log of its own kind starts from that log's last elites, as many as it keeps itself: they are its
     first members and all others are drawn around their mean. A pattern search runs under the rule of the configuration it
     names, or else that of the universe log it is given, and no log of another
     kind of search gives it or any other search members.""",
     "inputs histories", "all logged parameters, automaton classes, kinds of search, numbers of elites",
     "no test loads a log", "yuca/ca/continuous.py yuca/ca/neural.py yuca/cmaes.py yuca/wrappers/glider_wrapper.py",
     [("__init__ (input_filepath)", "yuca/ca/continuous.py and yuca/ca/neural.py"), ("CMAES.__init__", "yuca/cmaes.py")],
     observe=["get_params()", "return value of a step", "the initial population"])

prop("C36", "Plots show the log's curves, its rules' growth functions and given grids",
     """The plot of a search's log draws, over the generations, the mean, greatest and least fitness and the band of one
     standard deviation around the mean, and for every elite of the last generation the genesis and persistence functions of
     its own configuration over [-0.1, 1.1]. The kernel and neighborhood plots draw the kernel, function, grid, neighborhood
     and update they are given, each under its own title. A missing log is refused, and a figure is shown only when asked for.""",
     "inputs", "all fitness values, growth functions, grids and kernels",
     "no test covers plots", "yuca/plot.py yuca/utils.py",
     [("plot_exp", "yuca/plot.py"), ("plot_kernel_growth, plot_grid_nbhd", "yuca/utils.py")],
     observe=["the curves and pictures handed to matplotlib"])

prop("C37", "The halting predictor is trained on what the rule's universes become",
     """Before a rule is scored, the predictor of the halting wrapper takes one optimizer step per training round: each on a
     fresh batch, on the binary cross-entropy between its prediction from the early state and the fate of that batch after at
     most the configured steps. Its prediction is one number in [0,1] per grid and question, the mean sigmoid output of its
     network over the pooled grid, with dropout only in training. Every reset gives a new network, and that network is trained.""",
     "inputs", "all automaton outcomes and predictions, batch sizes, numbers of rounds, prediction modes",
     "tests run a random rule and check the reward's type", "yuca/wrappers/halting_wrapper.py",
     [("step, forward, init_model", "yuca/wrappers/halting_wrapper.py")],
     observe=["losses and steps of the optimizer", "the predictor's outputs"])
