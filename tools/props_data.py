MON = 'runtime monitoring: '
NOTE = ('Held on the executions of this run (random, seeded by VERIF_SEED); says nothing about structures and inputs the '
        'generator does not produce. Trusts numpy, the reference evaluator and the tolerances. ')

P('P01', 'Feedforward activation is the composition of the parts, for any topology',
  'Activating a feedforward network returns exactly what composing its modules along its connections gives, for every '
  'acyclic topology, module kind, connection kind, slice, weight sharing and nesting, whatever order the parts were added in. '
  'The result does not depend on previous activations, and neither inputs nor returned outputs are aliased or modified. '
  'A connection graph with a loop is rejected when the network is sorted.',
  ['programs', 'inputs', 'histories'],
  'every acyclic network over the library\'s modules and connections, every parameter vector and input, every interleaving of activations and resets',
  'The tests check a handful of fixed networks on one input; topologies, slices, sharing, nesting and call histories are unbounded.',
  ['structure/networks/network.py', 'structure/networks/feedforward.py', 'structure/modules/', 'structure/connections/',
   'structure/moduleslice.py', 'tools/shortcuts.py'],
  [('topological sorting', 'Network._topologicalSort'), ('forward pass', 'FeedForwardNetworkComponent._forwardImplementation'),
   ('reset before activation', 'FeedForwardNetworkComponent.activate'), ('network shortcuts', 'buildNetwork')],
  MON + 'differential oracle (independent network evaluator) over random networks and call histories',
  NOTE + 'Outputs are compared to 1e-9.')

P('P02', 'Recurrent networks carry exactly one step of delay and reset forgets all',
  'A recurrent network fed a sequence returns at each step what its parts compute from the present input and the '
  'outputs of the immediately preceding step (delayed connections, LSTM states and peepholes), for sequences of any length '
  'and with the parameters of the moment. Reset returns it to the initial state, and '
  'a forgetful network gives the same outputs as one that keeps its history.',
  ['programs', 'inputs', 'histories'],
  'every recurrent network, every sequence (including longer than the current buffers), every sequence of resets',
  'Tests sample a few short sequences on one or two networks; growth of the buffers, forget mode and nesting in recurrent networks are untested.',
  ['structure/networks/recurrent.py', 'structure/modules/lstm.py', 'structure/modules/mdlstm.py', 'structure/modules/module.py', 'tools/shortcuts.py'],
  [('time-indexed buffers', 'RecurrentNetworkComponent.forward'), ('growth of the buffers', 'Module._growBuffers'),
   ('forget mode', 'Module.shift'), ('reset', 'Network.reset')],
  MON + 'differential oracle stepping an independent evaluator beside the network',
  NOTE + 'Outputs are compared to 1e-7.')

P('P03', 'Backpropagation computes the exact gradient of a feedforward network',
  'After an activation, back-propagating an output error returns the exact derivative of the error-weighted output with respect to '
  'the input, and adds to every parameter\'s derivative its exact partial derivative, for every network without inner softmax layers. '
  'Derivatives accumulate over passes until reset and the pass changes neither parameters nor activations; a softmax output with target '
  'minus output as its error gives the gradient of the cross entropy, and the mixture density trainer that of the log likelihood.',
  ['programs', 'inputs', 'histories'],
  'every feedforward network (slices, sharing, nesting, MDLSTM cells), parameter vector, input and output error',
  'Existing gradient tests use a few tiny fixed networks; most connections and slices are never differentiated by any test.',
  ['structure/networks/feedforward.py', 'structure/modules/', 'structure/connections/', 'supervised/trainers/mixturedensity.py', 'tools/functions.py'],
  [('backward pass', 'FeedForwardNetworkComponent._backwardImplementation'), ('connection derivatives', 'Connection._backwardImplementation'),
   ('mixture density errors', 'BackpropTrainerMix._calcDerivs')],
  MON + 'oracle: complex-step derivatives of an independent evaluator against observed derivatives',
  NOTE + 'Subsampling connections declare that they have no backward pass and are outside the property.')

P('P04', 'Backpropagation through time computes the exact gradient of a sequence',
  'Running a sequence forward and then backward returns, at each step, the exact derivative of the error-weighted outputs of the whole '
  'sequence with respect to that step\'s input, and accumulates the exact derivative for every parameter, including delayed connections, '
  'LSTM gates and peepholes, multi-dimensional LSTM cells and nested networks. This holds for every sequence length, after earlier longer '
  'or shorter sequences.',
  ['programs', 'inputs', 'histories'],
  'every recurrent network, every sequence of inputs and output errors, every series of sequences separated by resets',
  'Tests check one LSTM network on one short sequence; the derivatives depend on length, structure and history.',
  ['structure/networks/recurrent.py', 'structure/modules/lstm.py', 'structure/modules/mdlstm.py', 'structure/connections/'],
  [('backward in time', 'RecurrentNetworkComponent._backwardImplementation'), ('LSTM errors', 'LSTMLayer._backwardImplementation'),
   ('MDLSTM errors', 'MDLSTMLayer._backwardImplementation')],
  MON + 'oracle: complex-step derivatives of the unrolled independent evaluator',
  NOTE + 'Derivatives are compared to 1e-6.')

P('P05', 'Network parameters are one flat live array holding every part exactly once',
  'The parameter array of a sorted network contains every parameter of every part exactly once (shared weights once), and writes through '
  'the network or through any part are seen by both, as are derivatives. This survives parameter replacement, randomization, mutation, '
  'activation, and additions followed by re-sorting, which preserve all known values; a part owned by a network refuses a foreign array. '
  'Sorted modules are topologically ordered, and building the same network again yields the same layout.',
  ['programs', 'histories'],
  'every network and every history of parameter operations',
  'Tests write one array and compare one copy; the aliasing invariant must survive any history of operations.',
  ['structure/parametercontainer.py', 'structure/networks/network.py', 'structure/connections/shared.py', 'structure/modules/lstm.py'],
  [('slices of one array', 'Network._setParameters, Network._setDerivatives'), ('layout', 'Network._containerIterator, Network.sortModules'),
   ('ownership', 'ParameterContainer._setParameters')],
  MON + 'invariant monitor walking all parts after every operation of a random history, against a model',
  NOTE)

P('P06', 'Copying, pickling and XML reproduce a network exactly and independently',
  'A network reproduced by copying, pickling or writing to and reading from XML has the same structure, names, parameters (bit for bit), '
  'activations and gradients as the original, and is itself a working network whose parts follow its parameter array and which can be '
  'trained. Later changes on either side do not affect the other, and of several networks in a file each is read back as it was written.',
  ['programs', 'histories'],
  'every network the XML format can describe (nested, shared, sliced, recurrent), any chain of reproductions, before and after use',
  'Tests round-trip a few networks and compare parameters; none trains a copy or checks independence in both directions.',
  ['structure/networks/network.py', 'structure/evolvables/evolvable.py', 'tools/customxml/networkwriter.py', 'tools/customxml/networkreader.py',
   'tools/customxml/handling.py'],
  [('copy', 'Network.copy'), ('relinking', 'Network.__setstate__'), ('XML writing', 'NetworkWriter.writeNetwork'),
   ('XML reading', 'NetworkReader.readNetwork')],
  MON + 'differential oracle between original, reproduction and independent evaluator, with interference writes',
  NOTE + 'State-dependent layers, whose construction needs a module, are not describable in XML and not generated.')

P('P07', 'Datasets store and return exactly what was put in, in every history',
  'Whatever history of adding, appending, linking, unlinking, clearing, removing, iterating, copying and saving a dataset goes through, its '
  'fields return exactly the rows put in, in order and in the configured format, with the right lengths. Linked fields stay aligned, '
  'sequences keep their boundaries and contents, importance weights stay with their samples, and files and pickles read back equal; copies '
  'are independent.',
  ['histories', 'inputs'],
  'every history of operations on supervised, unsupervised, sequential, importance and reinforcement datasets',
  'Tests exercise fixed short scripts; growth of the storage, sequence boundaries and format combinations depend on the history.',
  ['datasets/dataset.py', 'datasets/supervised.py', 'datasets/sequential.py', 'datasets/importance.py', 'datasets/reinforcement.py', 'datasets/unsupervised.py'],
  [('growing arrays', 'DataSet._resize, DataSet._appendUnlinked'), ('links', 'DataSet.linkFields'), ('sequences', 'SequentialDataSet.newSequence, getSequence'),
   ('saving', 'DataSet.save_pickle, reconstruct')],
  MON + 'online monitor comparing every observation with an executable list model over random histories',
  NOTE)

P('P08', 'Classification data keeps classes, targets and samples consistent',
  'Conversions between class indices and one-of-many targets are inverse to each other and keep every sample, class, count and label; '
  'statistics, class assignment, splitting by class, merging and sequence classification agree with the samples actually stored, for '
  'every sequence of additions and conversions.',
  ['histories', 'inputs'],
  'every classification dataset and every history of conversions, splits and merges',
  'The tests use one small dataset and one conversion each.',
  ['datasets/classification.py'],
  [('conversion', 'ClassificationDataSet._convertToOneOfMany, _convertToClassNb'), ('statistics', 'ClassificationDataSet.calculateStatistics'),
   ('splitting', 'ClassificationDataSet.splitByClass, castToRegression'), ('sequences', 'SequenceClassificationDataSet')],
  MON + 'online monitor comparing with an executable model over random histories',
  NOTE)

P('P09', 'Splits, folds, batches and error measures lose and duplicate nothing',
  'Splitting a dataset, batching it, cutting it into windows and cross-validating on it partition its samples: every sample (or whole '
  'sequence, in order) lands in exactly one part, in the configured sizes, leaving the original untouched. Cross-validation trains every fold '
  'from the same start, never on its own test samples, and averages the folds. The error measures and hit rates equal their definitions over '
  'all samples, with importance and sequence resets; normalisation maps every field as configured, also after being saved and loaded.',
  ['inputs'],
  'every dataset (sizes, sequence lengths, importance), proportion, batch size, number of folds, window size and normalisation',
  'No stable test runs any of these operations; boundary sizes and lengths are where partitions lose samples.',
  ['tools/validation.py', 'tools/datasettools.py', 'tools/svmdata.py', 'datasets/supervised.py', 'datasets/sequential.py', 'datasets/dataset.py'],
  [('splits', 'SupervisedDataSet.splitWithProportion, SequentialDataSet.splitWithProportion'), ('batches', 'DataSet.batches'),
   ('folds', 'CrossValidator.validate'), ('error measures', 'Validator, ModuleValidator, evaluateModuleMSE'), ('windows', 'convertSequenceToTimeWindows')],
  MON + 'conservation monitor over the samples observed in every part, and recomputation of every measure',
  NOTE)

P('P10', 'A training epoch uses every sample once and applies the update rule exactly',
  'In every epoch a gradient trainer presents each sample or sequence of its current dataset exactly once and moves the parameters by exactly '
  'what its rule prescribes from the present parameters: gradient steps with learning rate, its decay, momentum and weight decay, '
  'after each sequence or once per epoch, or sign-based steps with individually adapted, bounded step sizes. Importance weights scale errors and '
  'gradients; the reported error is the weighted mean over the epoch, and the data stay unchanged.',
  ['inputs', 'histories', 'schedules'],
  'every network, dataset, trainer configuration, presentation order and number of epochs',
  'Tests check that an error falls on one problem; an update rule that is slightly wrong still learns.',
  ['supervised/trainers/backprop.py', 'supervised/trainers/rprop.py', 'supervised/trainers/trainer.py', 'auxiliary/gradientdescent.py'],
  [('online and batch updates', 'BackpropTrainer.train'), ('sequence errors', 'BackpropTrainer._calcDerivs'),
   ('descent', 'GradientDescent.__call__'), ('Rprop', 'RPropMinusTrainer.train')],
  MON + 'online reference of the update rule, driven by the observed presentation order and complex-step gradients',
  NOTE + 'Weights whose gradient is below 1e-10 are excluded from the sign-based rule.')

P('P11', 'Training until convergence ends with the best validated parameters',
  'Training until convergence separates training from validation data without loss, stops by its documented criterion and after at most the '
  'maximal number of epochs, and leaves the module with the parameters that had the smallest validation error after any of its epochs; the '
  'returned error histories are the true ones up to that epoch. The trainer keeps its dataset, data too small to split are rejected, '
  'and testing reports the true (weighted) error or classification, without side effects.',
  ['inputs', 'histories'],
  'every network, dataset, split, stopping setting and course of the errors',
  'The course of validation errors decides which parameters are returned; tests run it once, if at all.',
  ['supervised/trainers/backprop.py'],
  [('best parameters', 'BackpropTrainer.trainUntilConvergence'), ('error', 'BackpropTrainer.testOnData'),
   ('classification', 'BackpropTrainer.testOnClassData')],
  MON + 'offline check of the recorded run (parameters and errors after every epoch) against recomputed validation errors',
  NOTE + 'Runs are observed for at most 150 epochs.')

P('P12', 'Every optimizer keeps exact books: best found, budgets, direction, stopping',
  'Whatever the black-box optimizer, learn() returns the best of all evaluations made and a point that evaluates to it, for minimization and '
  'maximization. Evaluations and learning steps are counted and stored exactly; no step starts that could exceed the evaluation budget, once '
  'the desired value is reached or after the given number of steps; a non-finite evaluation ends the run with the best before it. '
  'Minimizing f and maximizing -f are the same run, as are runs from a list, an array or a container, and the initial point is never modified.',
  ['inputs', 'schedules', 'faults'],
  'every optimizer, setting, objective, kind of evaluable and evaluator, budget, desired value and moment of divergence',
  'No stable test runs an optimizer; bookkeeping must hold along every trajectory, direction and stopping condition.',
  ['optimization/', 'structure/evolvables/', 'rl/environments/functions/transformations.py'],
  [('bookkeeping', 'BlackBoxOptimizer._oneEvaluation'), ('direction', 'BlackBoxOptimizer._setMinimize, oppositeFunction'),
   ('stopping', 'BlackBoxOptimizer._stoppingCriterion'), ('result', 'BlackBoxOptimizer._bestFound')],
  MON + 'recording evaluator and listener, offline check of the whole call log; paired runs under equal seeds',
  NOTE + 'The NES variants other than xNES and SNES do not start at the initial point; that is not part of the property.')

P('P13', 'Selection and distribution updates follow each algorithm\'s rule',
  'From the evaluations of a step every optimizer derives the next search state as its algorithm prescribes: hill climbers and evolution strategies '
  'mutate exactly the selected individuals, genetic algorithms recombine selected parents within bounds and keep their elite, swarms are '
  'pulled by neighbours and memory, finite differences and PGPE follow their gradient estimates, and CMA-ES, SNES, xNES, rank-1, exact, original and '
  'vanilla NES and FEM move mean and covariance by their published rules. Rank-based algorithms ignore strictly increasing transformations of the objective.',
  ['inputs', 'histories', 'schedules'],
  'every objective, dimension, setting, direction and random sequence',
  'A wrong coefficient or sign in an update still optimizes easy functions, so no sampled run of a test can settle it.',
  ['optimization/', 'tools/rankingfunctions.py', 'auxiliary/gradientdescent.py'],
  [('evolution strategies', 'ES._learnStep'), ('genetic algorithm', 'GA.produceOffspring'), ('particle swarm', 'ParticleSwarmOptimizer._learnStep'),
   ('covariance adaptation', 'CMAES._learnStep'), ('natural evolution strategies', 'XNES, SNES, Rank1NES, ExactNES, OriginalNES'),
   ('parameter exploration', 'PGPE._learnStep, SimpleSPSA._learnStep, FiniteDifferences._learnStep')],
  MON + 'reference of each update rule driven by the observed points; lineage-tracking evolvables; metamorphic paired runs',
  NOTE + 'Generations with tied evaluations are not recomputed.')
P('P14', 'Multi-objective: exact non-dominated fronts, crowding, NSGA-II survivors',
  'The non-dominated front of any set of objective vectors (ties, duplicates, any size) is exactly the set of items that no other dominates; the '
  'non-dominated sort partitions the items into successive fronts, with feasible before infeasible items and these ordered by violation '
  'when there are constraints. Crowding distances follow the definition, survivors of NSGA-II fill whole fronts and then the least crowded, and a multi-objective '
  'genetic algorithm reports exactly the front of its last population (or, without elitism, of all its evaluations), with the evaluated '
  'objectives and the true feasibility of each point.',
  ['inputs', 'histories'],
  'every set of objective vectors, constraint vectors, survivor number, population setting',
  'No stable test ranks objective vectors; the large-set algorithm differs from the small-set one, and ties decide.',
  ['tools/nondominated.py', 'optimization/populationbased/multiobjective/', 'rl/environments/functions/multiobjective.py'],
  [('fronts', 'non_dominated_front, non_dominated_sort'), ('crowding', 'crowding_distance'), ('survivors', 'nsga2select'),
   ('runs', 'MultiObjectiveGA._learnStep, ConstMultiObjectiveGA._learnStep'), ('constraints', 'oppositeFunction, ConstSrn.f')],
  MON + 'quadratic reference of dominance on every result, offline check of the recorded evaluations of whole runs',
  NOTE + 'Smaller objective values dominate, as the code has it.')

P('P15', 'Rankings, importance mixing and populations follow their definitions',
  'Ranking functions turn fitness values into utilities that depend only on the ranks, follow the documented formula, never prefer a worse fitness '
  'and leave the input alone; tournaments are won by the better sample. Importance mixing returns a full batch of distinct reused and newly drawn points, keeps '
  'what must be kept and rejects what must be rejected, refreshes as forced, and its batch is distributed as the new distribution. A population '
  'returns exactly its members and fitnesses, its best and worst are those by fitness, and mutation and randomization touch every gene and nothing else.',
  ['inputs', 'histories'],
  'every fitness vector (ties included), ranking setting, pair of distributions, refresh rate and population history',
  'No stable test calls these; a wrong utility or acceptance rule only skews a search.',
  ['tools/rankingfunctions.py', 'auxiliary/importancemixing.py', 'supervised/evolino/gpopulation.py', 'supervised/evolino/gfilter.py',
   'supervised/evolino/variate.py'],
  [('ranks', 'rankedFitness'), ('mixing', 'importanceMixing'), ('population', 'SimplePopulation.getSortedIndividualList'),
   ('mutation', 'SimpleGenomeManipulation._manipulateGenome')],
  MON + 'reference formulas, a recording generator and densities, model-based histories, frequency tests under fixed seeds',
  NOTE + 'Frequencies are judged within five standard deviations.')

P('P16', 'Evolino: teacher forcing, regression, subpopulations and burst mutation',
  'An Evolino network computes its LSTM recurrence with the documented backprojection: washout forces the given sequence, generation feeds '
  'back its own output, extrapolation is a reset, a washout and a generation. Its genome holds every input weight of every cell exactly once, one '
  'chromosome per cell. An evaluation builds every member of every subpopulation into the same number of networks, solves the linear regression of the output weights, '
  'credits each member with its best network, and leaves the best one in place. Selection keeps the best, reproduction refills with mutated copies of them, and burst '
  'mutation starts over from the best of each subpopulation exactly when the fitness stagnates.',
  ['inputs', 'histories'],
  'every network size, weight set, sequence set, washout ratio, population setting and number of epochs',
  'No stable test runs Evolino; errors in the split, the regression or the crediting only slow down learning.',
  ['structure/modules/evolinonetwork.py', 'supervised/trainers/evolino.py', 'supervised/evolino/'],
  [('teacher forcing', 'EvolinoNetwork.washout, EvolinoNetwork.generate'), ('genome', 'EvolinoNetwork._setGenomeOfLayer'),
   ('regression', 'EvolinoEvaluation._evaluateNet'), ('evolution', 'EvolinoPopulation.getIndividuals, EvolinoSubReproduction.apply'),
   ('burst mutation', 'EvolinoTrainer.train')],
  MON + 'reference recurrence and least squares for every evaluated network, monitors around each filter of the evolution, model of the burst schedule',
  NOTE + 'Ill-conditioned regressions are not recomputed.')

P('P17', 'Value-based learners apply exactly their update; explorers explore as told',
  'Q, SARSA and Q(lambda) change exactly the table entries their update rule names, by exactly its amount, for every transition of the history '
  'in order and never across episodes, in batch mode or step by step; Q-learning converges to the optimal values of a decision process. Neuro-fitted Q trains '
  'its network on the targets of its rule. Greedy actions are best actions, ties are broken at random. Epsilon-greedy, Boltzmann and normal exploration have '
  'the stated distribution and decay, state-dependent exploration is fixed within an episode, and none changes the policy; '
  'their derivatives are those of the log likelihood of the action taken.',
  ['inputs', 'histories'],
  'every history of states, actions and rewards, every episode structure, table, learning rate, discount, trace decay and explorer setting',
  'No stable test runs a reinforcement learner; updates depend on the whole history and on where episodes end.',
  ['rl/learners/valuebased/q.py', 'rl/learners/valuebased/sarsa.py', 'rl/learners/valuebased/qlambda.py', 'rl/learners/valuebased/nfq.py',
   'rl/learners/valuebased/interface.py', 'rl/explorers/', 'structure/modules/table.py'],
  [('updates', 'Q.learn, SARSA.learn, QLambda.learn'), ('targets', 'NFQ.learn'), ('greedy action', 'ActionValueTable.getMaxAction'),
   ('exploration', 'EpsilonGreedyExplorer, BoltzmannExplorer, StateDependentExplorer')],
  MON + 'reference table updated transition by transition, recorded training sets, frequency tests, numerical log-likelihood gradients',
  NOTE + 'The derivatives of explorers are scaled with the variance, as the code has it.')

P('P18', 'Experiments wire agents and tasks; histories record exactly what happened',
  'Every interaction is: observe, act on that observation (explored when learning), perform exactly that action, reward for it. Episodes run '
  'until the task is finished, each after resetting task, module and explorer, and return the reward of every step. An agent\'s history holds every '
  'interaction once, in order, split by episode, and nothing it was told out of order; a learning step sees exactly that. A queued experiment learns from '
  'exactly the last n episodes. Optimizing episodes runs as many as asked for. The fitness of a module or agent is the average (discounted) '
  'total reward of fresh episodes. Scaling maps limits to [-1,1] and back, clipped when asked.',
  ['inputs', 'histories'],
  'every sequence of interactions, episode lengths (empty ones included), queue lengths, agent and explorer setting, limits, discount and batch size',
  'No stable test runs an experiment; what the history holds depends on every earlier call and episode boundary.',
  ['rl/experiments/', 'rl/agents/', 'rl/environments/task.py', 'rl/environments/episodic.py', 'rl/learners/learner.py', 'rl/environments/simple/'],
  [('interaction', 'Experiment._oneInteraction'), ('episodes', 'EpisodicExperiment.doEpisodes'), ('history', 'LoggingAgent.giveReward, LearningAgent.newEpisode'),
   ('queue', 'QueuedExperiment.run'), ('fitness', 'EpisodicTask.f'), ('scaling', 'Task.normalize, Task.denormalize')],
  MON + 'call log of an instrumented environment, module, explorer and learner, checked offline against the protocol; recorded histories against that log',
  NOTE + 'Only experiments of one process.')

P('P19', 'Board games follow their rules in every position',
  'In the capture game, Go-Moku and Pente, along every history of moves: a move is legal exactly on an empty position (and, where suicide is forbidden, when it is none); '
  'an illegal move changes nothing and is not counted; groups, liberties and captured pairs are those of the stones on the board; the game ends at '
  'once with the first capture, suicide, resignation, five in a row, fifth pair or full board, and never before, with the right winner or a draw. '
  'The lists of legal, acceptable and killing moves contain exactly those moves; board arrays and sensors show the stones. Random and handicap boards are legal and undecided.',
  ['inputs', 'histories'],
  'every board size, color order and sequence of legal and illegal moves',
  'Group merging and capture depend on the whole history of a board; no stable test plays a game.',
  ['rl/environments/twoplayergames/capturegame.py', 'rl/environments/twoplayergames/gomoku.py', 'rl/environments/twoplayergames/pente.py',
   'rl/environments/twoplayergames/twoplayergame.py'],
  [('groups and liberties', 'CaptureGame._setStone'), ('suicide, capture', 'CaptureGame._suicide, CaptureGame._capture'), ('five in a row', 'GomokuGame._fiveRow'),
   ('pairs', 'PenteGame._killsWhich, PenteGame._setStone'), ('end of the game', 'doMove')],
  MON + 'reference boards without incremental state (flood fill, line scans) run in lockstep with the real game',
  NOTE + 'Moves after the end of a game are not judged.')

P('P20', 'Game players, tournaments, ratings and game tasks',
  'Players choose legal moves in their color: random players uniformly, careful ones never suicide if avoidable, killing ones kill whenever possible, '
  'module players by (or in proportion to the Gibbs weights of) their module\'s values on the board seen as self and other. A tournament plays every ordered pair once per '
  'round, black first and in turn, and records exactly the winners and draws; ratings follow the Elo rule and their sum is conserved. The fitness of a player in a game '
  'task is the average of the results of its games, with starting colors as configured; handicap and relative tasks follow their schedule.',
  ['inputs', 'histories'],
  'every game, size, set of players, position, number of rounds, starting rule, handicap and sequence of results',
  'No stable test plays a game; who won is visible only from the whole game, and scores average over many.',
  ['rl/environments/twoplayergames/capturegameplayers/', 'rl/environments/twoplayergames/gomokuplayers/', 'rl/experiments/tournament.py',
   'rl/environments/twoplayergames/tasks/'],
  [('choice', 'getAction, ModuleDecidingPlayer._legalizeIt'), ('tournament', 'Tournament._oneGame, Tournament.eloScore'),
   ('results', 'CaptureGameTask.getReward, GomokuTask.getReward'), ('handicap schedule', 'HandicapCaptureTask.f')],
  MON + 'recorded games and results judged offline, reference ratings and schedule, frequency tests under fixed seeds',
  NOTE + 'The player that talks to an external server is not run.')

P('P21', 'Mazes, partially observable and classic tasks follow their dynamics',
  'Walking a maze never enters a wall: each action moves to the named neighbor or bangs, sensors show exactly the walls around (as seen by Theseus), noise has its '
  'stated rate, starts are allowed starts, and every position has its own state number. The named tasks (T-maze, cheese, 4x3, 89-state, shuttle, tiger, xor) give '
  'the observations, rewards and ends they document, however often asked, for actions given as index or array. Mountain car and acrobot follow their equations '
  'within their limits. Every total reward is that of the current episode alone.',
  ['inputs', 'histories'],
  'every topology, start, goal, noise level, sequence of actions and number of episodes',
  'No stable test runs these environments; a wrong transition, observation or reward only makes a learner worse.',
  ['rl/environments/mazes/', 'rl/environments/classic/', 'rl/environments/episodic.py'],
  [('moves', 'Maze.performAction, PolarMaze.performAction'), ('tasks', 'rl/environments/mazes/tasks'), ('state numbers', 'MDPMazeTask.getObservation'),
   ('classic systems', 'MountainCar.DoAction, AcrobotTask.DoAction')],
  MON + 'reference transition rules run in lockstep, reward bookkeeping, frequency tests under fixed seeds',
  NOTE + 'Mazes without surrounding walls are not judged.')

P('P22', 'Model-based learning computes the true values and optimal policies',
  'For a known decision process the true values of a policy solve its Bellman equation (up to the discounted rest after the horizon), Q values are those of one free '
  'action first, collapsed transitions are the policy\'s average. Greedy policies put equal probability on exactly the best actions; policy iteration never '
  'gets worse and ends at an optimal policy. LSTD and LSTD-Q solve exactly the equations of their features, hence give the true values for tabular features, and LSPI '
  'then finds an optimal policy. No input is modified.',
  ['inputs'],
  'every set of transition matrices, rewards, discount below one, policy and feature map',
  'No stable test runs the model-based code; optimality and fixed points must hold for every process.',
  ['rl/learners/modelbased/policyiteration.py', 'rl/learners/modelbased/leastsquares.py'],
  [('values', 'trueValues, trueQValues'), ('policies', 'greedyPolicy, policyIteration'), ('least squares', 'trueFeatureStats, LSTD_Qvalues')],
  MON + 'Bellman equations solved directly, optimal values by independent value iteration',
  NOTE + 'Ill-conditioned feature maps are run but their estimates not judged.')

P('P23', 'Benchmark functions have the stated values and optima, under all transformations',
  'Every benchmark function returns the value of its formula at any point, never modifies that point, and has its minimum of zero exactly where it says. Translating, '
  'rotating, softly constraining or reversing a function moves values, optimum, direction and desired value consistently, in any nesting, and leaves the original as it was. '
  'The BBOB collection has value zero at its optima and none below; noise vanishes there. Multi-objective problems report objectives, feasibility and violations of '
  'the evaluated point; atom energies are invariant.',
  ['inputs'],
  'every function, dimension, point, offset, rotation, conditioning, noise and nesting of transformations',
  'Stable tests evaluate a few optimizers on a few functions; a wrong optimum or value misleads every benchmark silently.',
  ['rl/environments/functions/'],
  [('functions', 'unimodal.py, multimodal.py'), ('transformations', 'transformations.py'), ('collections', 'bbob2010.py, multiobjective.py, lennardjones.py')],
  MON + 'scalar reference formulas, a recording base function under the transformations, sampled minima around the optimum',
  NOTE + 'Functions whose formula depends on hidden random matrices are judged by optimum and structure only.')

P('P24', 'Shared utilities and mathematical functions compute what they document',
  'Random indices are drawn with exactly the given (or Gibbs) probabilities; Gray codes, binary codes and one-of-n codes are inverse to their decoders; combinations, cross '
  'products, block permutations, triangular and block matrices enumerate every element exactly once in the documented order; reachability and flooding find exactly the '
  'connected elements with their distances; call decorators call exactly as often as promised; nonlinearities, their derivatives, densities and matrix roots equal their '
  'formulas. No argument is modified.',
  ['inputs'],
  'every array, shape, graph, dictionary, probability vector and call history',
  'A handful of doctests exist; the helpers are used by all other parts and must hold for all inputs.',
  ['utilities.py', 'tools/functions.py', 'tools/kwargsprocessor.py'],
  [('drawing', 'drawIndex, drawGibbs'), ('graphs', 'reachable, flood'), ('arrays', 'permuteToBlocks, triu2flat, blockCombine'), ('functions', 'tools/functions.py')],
  MON + 'reference computations, frequency tests under fixed seeds, counted calls',
  NOTE + 'Confidence values of the weighted test are judged as the code orients them.')

P('P25', 'Structured networks compute their recursion from shared weights, at any size',
  'Swiping, border, multi-dimensional (with LSTM cells too), bidirectional, convolutional and board networks compute exactly the recursion they describe from their '
  'shared weights, for every grid size and number of dimensions: each direction passes outputs and states along each dimension, borders get the border '
  'weights, every window sees its own inputs. They have exactly the weights their sharing implies, symmetric ones commute with mirroring and transposing the input, and '
  'gradients, copies and files agree. A capture network resized to another board keeps its weights, extrapolates new border weights and is independent.',
  ['programs', 'inputs'],
  'every class, grid, layer size, sharing setting, weight vector and input',
  'Stable tests touch at most one tiny network of this kind; which weight goes where depends on size, border and direction.',
  ['structure/networks/swiping.py', 'structure/networks/borderswiping.py', 'structure/networks/multidimensional.py', 'structure/networks/bidirectional.py',
   'structure/networks/convolutional.py', 'structure/networks/custom/', 'structure/modulemesh.py', 'structure/connections/shared.py'],
  [('swipes', 'SwipingNetwork._buildSwipingStructure'), ('borders', 'BorderSwipingNetwork._buildBorderStructure'), ('windows', 'SimpleConvolutionalNetwork._buildStructure'),
   ('resizing', 'CaptureGameNetwork.resizedTo'), ('meshes', 'ModuleMesh.viewOnFlatLayer')],
  MON + 'direct recursive evaluation from the shared weights, finite-difference gradients, symmetry relations',
  NOTE + 'Transposition of bordered grids is judged in two dimensions only.')

P('P26', 'Components, Gaussian processes, clustering, hashing and statistical helpers',
  'Principal components are the orthonormal directions of largest variance, and reduced data keep that variance. A Gaussian process predicts exactly the conditional mean and '
  'covariance of all samples it was given, in any history of adding, retraining and resetting, and draws from that distribution. k-means++ seeds are points that reduce the '
  'distances most and find separated clusters. Neighbor hashes return exactly the nearest of the right bucket. Buffet matrices, left-ordered forms, Fisher information and its '
  'inverse, adaptive resampling and mixtures of Gaussians follow their definitions.',
  ['inputs', 'histories'],
  'every data set, dimension, kernel setting, history of samples, covariance matrix and noise level',
  'Stable tests cover one small example of principal components and hashing at most.',
  ['auxiliary/pca.py', 'auxiliary/gaussprocess.py', 'auxiliary/kmeans.py', 'supervised/knn/lsh/', 'tools/ibp.py', 'tools/fisher.py', 'tools/aptativeresampling.py',
   'tools/mixtures/'],
  [('components', 'pca, reduceDim'), ('predictions', 'GaussianProcess._calculate'), ('neighbors', 'MinHash.knn, MultiDimHash.knn'), ('Fisher information', 'calcInvFisher')],
  MON + 'reference linear algebra, models of the stored items, frequency tests under fixed seeds',
  NOTE + 'Automatic noise of Gaussian processes and hashing in many dimensions are not judged.')

P('P28', 'Policy gradients and reward-weighted regression learn from exactly what was seen',
  'For every action taken, policy-gradient learners log the gradient of its log likelihood with respect to all parameters of policy and explorer; layers that explore by themselves accumulate it too. REINFORCE steps along the '
  'episode returns with the optimal baseline per parameter, the episodic natural actor-critic along the regression of returns on likelihoods, from the parameters as they '
  'are, with the given rate and momentum, and large gradients are scaled. Reward-weighted regression draws actions as its network says, weights each episode by its '
  'discounted return and temperature, trains on exactly those data and reports exact averages. All improve the expected reward.',
  ['histories', 'inputs'],
  'every policy, explorer, history of episodes, reward, learning setting and change of parameters between steps',
  'No stable test runs these learners; a wrong sign or an episode boundary off by one only shows as slow learning.',
  ['rl/learners/directsearch/', 'rl/explorers/continuous/', 'rl/agents/learning.py', 'auxiliary/gradientdescent.py', 'structure/modules/gaussianlayer.py',
   'structure/modules/statedependentlayer.py'],
  [('log likelihoods', 'PolicyGradientLearner.explore'), ('steps', 'PolicyGradientLearner.learn'), ('gradients', 'Reinforce.calculateGradient, ENAC.calculateGradient'),
   ('regression', 'RWR.learnOneBatch')],
  MON + 'likelihood gradients from central differences, reference estimators, recorded activations and training data',
  NOTE + 'GPOMDP, marked as not working in the code, and learning switched off in the middle of logged episodes are not judged.')

P('P29', 'Linear function approximation learns exactly its update rules, within episodes',
  'Q, Q(lambda), SARSA(lambda), least-squares and gradient learners with linear features change their weights by exactly their update rule for each transition, with '
  'eligibility traces that start anew in each episode. The agent feeds them, online or from a batch of its history, exactly the transitions within episodes, with the '
  'action really taken next, and the last step as one after which nothing is to be gained; without learning, nothing changes. Actions are drawn from the greedy, '
  'epsilon-greedy or Boltzmann policy of the current weights. The values found make the best actions preferred.',
  ['histories', 'inputs'],
  'every learner, setting, feature vector, policy and history of episodes',
  'No stable test runs these learners, and an episode boundary or trace error only biases the values.',
  ['rl/learners/valuebased/linearfa.py', 'rl/agents/linearfa.py'],
  [('update rules', 'the _updateWeights methods'), ('transitions', 'LinearFA_Agent.integrateObservation, newEpisode, learn'), ('policies', 'LinearFA_Agent._actionProbs')],
  MON + 'the update rules recomputed after every step of recorded histories, frequency tests under fixed seeds',
  NOTE + 'Whether exploration decays while learning online is not judged.')

P('P27', 'Control environments follow their equations of motion, tasks judge their state',
  'Cart poles of any length and mass move as a cart with a uniform rod: energy changes by the work and momentum by the force; double poles, poles without velocities and the '
  'linearized pole show that state. The ship and the flexible cube follow their update equations within their limits; inner forces of the cube move nothing as a whole and nothing '
  'goes through the floor. Every reset starts a new episode from a clean state. Tasks scale observations and actions, judge the state after the action, end exactly when the pole falls, the '
  'track or the time is over, and sum their rewards.',
  ['histories', 'inputs'],
  'every environment, task, parameter, action sequence and number of episodes',
  'No stable test runs these environments; a wrong term or stale state only shows along a trajectory.',
  ['rl/environments/cartpole/', 'rl/environments/shipsteer/', 'rl/environments/flexcube/'],
  [('motion', 'CartPoleEnvironment._derivs, ShipSteeringEnvironment.step, FlexCubeEnvironment.euler'), ('sensors', 'flexcube/sensors.py'), ('tasks', 'balancetask.py, northwardtask.py, flexcube/tasks.py')],
  MON + 'own integration from the mass matrix, conserved quantities, residual noise statistics under fixed seeds',
  NOTE + 'Renderers and the ODE environments (library not installed) are not judged.')

P('P30', 'Boltzmann machines learn by contrastive divergence, deep nets layer by layer',
  'A restricted Boltzmann machine computes the probabilities of its hidden units from weights and biases, and its inverse those of the visible units from the same weights. '
  'Training changes weights and both biases by exactly the data statistics minus those of the reconstruction from states sampled with these probabilities, averaged over each batch, '
  'with momentum and weight decay, using each sample once per epoch and changing no data. Deep belief training does so for each pair of layers, on the data as represented by the layers '
  'below; the network then computes with the trained parameters, which remain its own. Training makes data more likely.',
  ['inputs', 'histories'],
  'every size, dataset, setting and number of epochs',
  'The only test is disabled and fails; transposed weights or a wrong layer input only make learning worse.',
  ['structure/networks/rbm.py', 'unsupervised/trainers/rbm.py', 'unsupervised/trainers/deepbelief.py'],
  [('machine', 'Rbm.activate, Rbm.invert'), ('training', 'RbmGibbsTrainer.trainOnDataset'), ('layers', 'DeepBeliefTrainer.train, iterRbms')],
  MON + 'every epoch recomputed from the recorded sampled states, frequency tests, exact likelihood by enumeration',
  NOTE + 'Networks that are not chains of fully connected layers with one bias unit are not judged.')

P('P31', 'Masks, cheap copies, decompositions and copied parts act on their own parameters',
  'Masked parameters are those of the wrapped container with the masked ones zero, never more enabled than allowed and at least one; values masked out are kept, reading and setting '
  'agree with and without zeros, and mutations change either mask or values. Cheap copies each compute with parameters of their own, however interleaved. A network decomposed by neuron '
  'computes the same, each of its parameters belongs to exactly one neuron, and these are the ones that feed it (for outputs, in ESP style, those of the sender); setting and reading '
  'agree, also between copies. A copy of a part of a network is independent of the whole.',
  ['histories', 'inputs'],
  'every container, mask, network, history of writes, mutations and copies',
  'The one test decomposes one fixed network; aliasing and order errors need copies and histories to show.',
  ['structure/evolvables/', 'structure/networks/neurondecomposable.py', 'structure/networks/network.py'],
  [('masks', 'MaskedParameters'), ('cheap copies', 'CheaplyCopiable'), ('neurons', 'NeuronDecomposableNetwork'), ('parts', 'Network.copy, Network.__setstate__')],
  MON + 'a model of every history, reference networks with the same parameters, silenced neurons',
  NOTE)

P('P32', 'Grid searches and training tools try what they should and report the best',
  'A grid search validates every setting of its grid exactly once, in an order that completes a grid at each step, and returns a setting of best performance; the search by design of '
  'experiments validates the 13 points of its pattern, halved at every level around the best point of the level before and moved within the bounds, and returns the best. The settings '
  'are tried on copies of the trainer. The training tools train in increments until the maximal number of epochs or until the test error has not improved for the given number of '
  'increments, record the errors of every increment, and restore the weights of least test error when there are validation data. Support vector machines are trained with the '
  'parameters given or the best found.',
  ['inputs', 'histories'],
  'every task, range, granularity, performance and setting',
  'No test runs them; most could not even run before the repairs.',
  ['tools/gridsearch.py', 'tools/neuralnets.py', 'supervised/trainers/svmtrainer.py', 'structure/modules/svmunit.py', 'tools/svmdata.py'],
  [('grids', 'GridSearch2D.search, GridSearchDOE.search'), ('training', 'NNregression.runTraining, NNclassifier.runTraining'), ('machines', 'SVMTrainer.train, GridSearch.search')],
  MON + 'the recorded validations replayed by an own search, curves recomputed from recorded parameters, a recording stand-in for libsvm',
  NOTE + 'libsvm is not installed: what its machines compute is not judged, nor are plots.')

P('P33', 'Coevolution plays fair tournaments, selects the winners and keeps its budget',
  'In every generation of a coevolutionary search each evaluated individual plays, in both roles, as many different opponents as the tournament says, from the population it is meant '
  'to play against, the hall of fame or the shared sample, and never itself. Its fitness is the sum of its mean results, in the competitive algorithm shared among those who beat the same '
  'parasite, mixed with the absolute fitness. The best goes into the hall of fame and is returned; exactly the fittest survive or become parents, children are mutated copies, averaged with '
  'their parents in the given proportion, and no other individual changes. Populations keep their size and stay apart; no more evaluations are spent than allowed.',
  ['histories', 'inputs'],
  'every game, population, setting, number of generations and budget',
  'No test runs coevolution; two of the three algorithms could not be imported.',
  ['optimization/populationbased/coevolution/'],
  [('tournament', 'Coevolution._doTournament'), ('fitness', 'Coevolution._evaluatePopulation, CompetitiveCoevolution._competitiveSharedFitness'), ('selection', 'Coevolution._selectAndReproduce')],
  MON + 'the recorded games and lineages of each generation judged by an own model of fitness and selection',
  NOTE)

P('P34', 'Self-organizing maps find the nearest neuron and train exactly its neighborhood',
  'A self-organizing map answers an input with the grid position of its nearest neuron or, if asked for the full map, with the square distance of every neuron, and is not changed '
  'by that. A training step moves each neuron in the present neighborhood of the last winner towards the last input, by the learning rate times a factor that falls linearly with its '
  'distance on the grid, moves no other, and shrinks the neighborhood by its decay. Copies, also as part of a network, are independent. Trained maps come to lie over their data, neighbors '
  'near each other. Units of a Bernoulli layer are independently zero with the probability that is their input.',
  ['inputs', 'histories'],
  'every size, history of inputs, training steps, settings and copies',
  'No test runs a map; a shifted neighborhood or a stale winner only shows on a trajectory of the neurons.',
  ['structure/modules/kohonen.py', 'structure/modules/samplelayer.py'],
  [('winner', 'KohonenMap._forwardImplementation'), ('training', 'KohonenMap._backwardImplementation'), ('sampling', 'BernoulliLayer._forwardImplementation')],
  MON + 'a model of the neurons follows every history; frequencies of draws under fixed seeds',
  NOTE)

P('P35', 'Rigid-body worlds are built, sensed, driven and rewarded as they are described',
  'An XML structure holds exactly what was put in and is written as well-formed XML that parses to the same tree. A model built with the XODE tools holds every body, joint and mass as given, '
  'with transformations applied to exactly what they should, and generated creatures load. A loaded world offers each sensor and actuator a model or caller names, reads positions, angles, '
  'contacts and coordinates of the right bodies in the stated order, scales them within the stated limits, passes each part of an action to its actuator, lets exactly the pairs of '
  'bodies collide that may, and is restored by a reset. The tasks of the shipped creatures give the described rewards and end when described.',
  ['histories', 'inputs', 'programs'],
  'every structure, model, configuration, action sequence, arrangement of bodies and settings of environment and task',
  'No test loads a world: the engine is not even needed to misread a model, mix up sensors or miss the end of an episode.',
  ['rl/environments/ode/'],
  [('structures', 'XMLstruct'), ('models', 'XODEfile'), ('worlds', 'ODEEnvironment.step, ODEEnvironment._near_callback'), ('sensing', 'sensors.py, actuators.py'), ('rewards', 'ode/tasks/')],
  MON + 'own models of structures, bodies and rewards beside recording stand-ins for the physics engine',
  NOTE + 'PyODE is not installed: the engine is a recording stand-in and its physics is not judged.')

P('P36', 'Plots, images, telemetry and files carry exactly the data given',
  'Every client connected to a server gets every message sent, whole, in order and once, a malformed one is reported as such, and clients that fall silent are forgotten and may come back. '
  'The viewer of an environment is sent its present state. Dictionaries, weights, results and image sets written to files are read back as they were, also when they were built up '
  'in many steps. Plots show the lines, images, landscapes, ellipses, fitness curves, variations and classifications of exactly the data given, each at its place, within the axes, '
  'with the right labels; saved images show every value in its color.',
  ['histories', 'inputs'],
  'every history of messages, clients, plot calls and file operations, every data set plotted',
  'No test plots, sends or stores any of it; most of these tools failed on any use under Python 3.',
  ['tools/networking/', 'tools/plotting/', 'tools/filehandling.py', 'tools/example_tools.py', 'tools/datasets/mnist.py', 'rl/environments/flexcube/environment.py',
   'rl/environments/shipsteer/shipsteer.py', 'rl/environments/ode/environment.py'],
  [('telemetry', 'UDPServer.send, UDPClient.listen, updateRenderer, updateClients'), ('files', 'addToDictFile, ExTools.loadWeights, makeMnistDataSets'), ('plots', 'MultilinePlotter, ColorMap, FitnessPlotter, plotFitnessProgession, plotVariations')],
  MON + 'messages received over the loopback network, figures and images read back, beside models of the histories',
  NOTE + 'Renderers that need OpenGL are not judged.')
