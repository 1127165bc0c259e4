# How each property is decided (used by mkdesign.py)
D = {}
D['P01'] = '''Monitored: every activation of a random network, step by step, while an independent evaluator (`vp/refnet.py`, no pybrain code, own
formulas for every module and connection kind) computes the outputs from the *parameters read from the parts*. Besides values, the monitor
watches aliasing (are inputs modified, does a later activation change an earlier result), repeatability, interleaved resets, and that graphs
with a loop are refused. Generated: acyclic topologies with up to 10 modules, 11 layer kinds, 8 connection kinds with random slices (including
ends, negative and empty limits), shared weights, nested networks, random insertion order; inputs up to 1e300. Reach: tests use four fixed nets.'''
D['P02'] = '''Monitored: the outputs of sequences of up to some hundred steps (buffers grow at powers of two; the generator aims at these points), over several
resets, with parameters changed in mid-sequence. Oracle: the independent evaluator keeps the *whole* history and evaluates delayed
connections and cell states from it. The forgetful mode is compared with the remembering one step by step.'''
D['P03'] = '''Monitored: the input error that `backActivate` returns, the derivatives of every part, and that parameters and buffers
of the forward pass stay as they are. Oracle: complex-step derivatives of the independent evaluator (exact to rounding, no step-size problem), plus central
differences of pybrain itself for kinds without a complex extension. Several input/error pairs accumulate before a reset.'''
D['P04'] = '''As P03 for sequences: the oracle differentiates the whole unrolled sequence by complex steps. Sequences of different length follow each other on the same network,
so that stale rows of the buffers are seen; one kind walks back over sequences that made the buffers grow.'''
D['P05'] = '''Monitored after *every* operation of a random history (writes at any level, replaced arrays, randomize, mutate, copy, activation, added parts): every part is
walked, its array must be a view of exactly its slice of the network's array, slices must tile the array without gap or overlap, and all values must agree with a
list model. Refusals (`_setParameters` on owned parts) and rebuilding identically are monitored too.'''
D['P06'] = '''Monitored: outputs, gradients, names, parameters of original and reproduction, then independence while both are trained and changed; chains of
reproductions (copy of an unpickled XML network) and several networks per file. XML is compared to the precision that it stores.'''
D['P07'] = '''Monitored after each operation: the observable content (all access paths: iteration, indexing, fields, sequences, random access) against a list-of-samples model.
Histories of 5–60 operations drawn at random for each class; refused operations must leave the content unchanged.'''
D['P08'] = '''Monitored: every conversion, selection, split and statistic of class data against a list model of (sample, label) pairs, absent classes included.'''
D['P09'] = '''Every sample carries a unique mark, so conservation is a multiset comparison of marks over the parts of a split, the batches, the folds;
sequences must stay whole and in order. Error measures are recomputed from their definitions on the recorded outputs. Cross validation is watched
through a recording trainer; with real trainers the folds are trained again by hand.'''
D['P10'] = '''The network is wrapped so that the order in which samples arrive is recorded; an independent implementation of the update rules (momentum, learning rate
decay, weight decay, importance, Rprop with its sign memory and bounds) follows the parameters with complex-step gradients after each epoch.'''
D['P11'] = '''All epochs and validations of a run are recorded (parameters before and after, errors). Offline checker: what is in the network at the end is the best validated,
the returned curves are those observed, the stopping rule fired where documented, nothing else was trained on.'''
D['P12'] = '''A recording evaluator is put under every optimizer of the package (23) with all kinds of evaluables; the event log
decides budgets, step counts, best value and best point, direction, listener calls, stored evaluations, resuming, and NaN/inf objectives. Metamorphic: min f and max −f are the same run under the same seed.'''
D['P13'] = '''From the recorded points alone each step is recomputed: which parents survived, children from crossover and mutation, means, covariances, step sizes by our own transcription of
the published rules; where only the distribution is determined, seeded frequency tests. Metamorphic: monotone transformation of the objective, shifts and scalings. Where points are reused, every request to the importance mixer is recorded and its density ratios at old and new points are compared with those of the two Gaussians; how many points are kept is judged as a martingale of their probabilities. Stored distributions and generations are compared with the recomputed ones.'''
D['P14'] = '''Brute-force dominance on multisets (ties, duplicates, chains; sizes around the merge limit of 100), crowding from its definition, survivors by front and crowding; whole runs of the
multi-objective GAs are judged from all recorded evaluations.'''
D['P15'] = '''Rankings against their formulas, order-freeness and monotonicity; importance mixing by recomputed densities and acceptance decisions under a recorded random stream; population histories against a dict model.'''
D['P16'] = '''The network is stepped by an own evaluator through washout and generation with teacher forcing; regression is recomputed by least squares; the genealogies of the subpopulations
are recorded through the objects; burst mutation is seen from the generations.'''
D['P17'] = '''Own Q/SARSA/Q(λ)/NFQ on the recorded histories, table by table; explorers by the random stream or frequencies; convergence to the values of an own value iteration.'''
D['P18'] = '''An environment that logs every call: the event log must be a word of the interaction protocol; the agent's history must be exactly the log. Scaling is inverted and compared.'''
D['P19'] = '''An own referee (flood fill on sets of fields, five in a row by scanning lines) plays every game along, after each move board, groups, liberties, winner, legal moves must agree.'''
D['P20'] = '''Players are asked in random positions, the referee of P19 knows which moves were legal, suicidal or killing; tournament tables and Elo numbers are recomputed from the recorded games; tasks from their recorded results. Temperatures of both players in relative tasks are read from their moves, and the handicap schedule of the handicap task is followed with scripted results.'''
D['P21'] = '''Independent simulators beside each maze, task and classic system; noise by frequencies under fixed seeds. Mountain car and acrobot are also stepped once from arbitrary states.'''
D['P22'] = '''Values by solving the linear system of an own model, optimal policies by enumeration of all deterministic policies for small processes, least squares by the normal equations; policy iteration is followed step by step beside a reference that counts its iterations.'''
D['P23'] = '''Formulas of the literature in their own form, stated optimum at the stated point, no sampled point below it, transformations by inverse mapping of points, feasible sets, noise frequencies; functions with random parameters (Gallagher, Katsuura, Lunacek, Schwefel 2.13 ...) are recomputed from the parameters the object drew; dimension limits, penalties and desired values are asked at their edges. The make-up of the BBOB suite (numbers, dimensions, shifts, conditioning) and its exact members are checked function by function.'''
D['P24'] = '''Each utility against its definition written independently (sets, brute force, high-precision sums), frequencies for drawing.'''
D['P25'] = '''The recursion over the grid is evaluated directly from the shared weights by position; symmetric sharing is checked by mirroring and transposing the input; resized networks keep their shared weights.'''
D['P26'] = '''Helpers against definitions: eigen decompositions recomputed, GP predictions from the normal equations, k-means against its iteration, hashing judged on what it returns, statistics of buffets and mixtures.'''
D['P27'] = '''The equations of motion are integrated independently (mass-matrix form, much smaller steps) and conserved quantities (energy, momentum) monitored along trajectories; tasks are judged from the recorded states.'''
D['P28'] = '''Every logged likelihood is recomputed by central differences of the policy, each learning step recomputed from the recorded episodes; reward-weighted regression on a recording task.'''
D['P29'] = '''Own update rules with per-episode traces beside the learner, driven by the features and actions the agent was seen to use.'''
D['P30'] = '''Sampled states are recorded by wrapping the samplers; each epoch is recomputed from them; sampling frequencies; exact likelihood by enumeration on small machines.'''
D['P31'] = '''A model of mask, values and flips follows each history; networks built independently from the same parameters give the expected outputs; which parameters feed a neuron is found by silencing.'''
D['P32'] = '''The validator under each search is a recording stand-in with a known performance surface; an own search replays the record. Training tools are recomputed from the recorded parameter vectors. libsvm is not installed: a stand-in module of the
same interface records parameters and data (said so in the evidence).'''
D['P33'] = '''The evaluator records each game, individuals record their descent; an offline checker recomputes fitness, sharing, survivors, hall of fame and budget of each generation, and the books kept of all opponents and results.'''
D['P34'] = '''A model of the neurons follows random histories of inputs, training steps (also repeated ones), settings and copies; after every operation all neurons are compared.
Whole trainings are judged by quantization error and neighborhood order; sampling layers by frequencies and covariances.'''
D['P35'] = '''The packages ode and xode are not installed, so recording stand-ins of the same interface (vp/fakeode.py) carry bodies, joints, forces and contacts; the real environment, sensors, actuators, model tools and tasks run on them.
Structures and models are parsed back with ElementTree and compared with models built beside them; each step's forces, contact joints, sensor vectors, rewards and ends are recomputed from the recorded state. Physics itself is out of reach and said so. Haptic sensors, tagged and untagged angle values and the copies handed out by sensors are part of it.'''
D['P36'] = '''Servers, clients and viewers talk over real loopback sockets (addresses of 127/8 and ports of the process' own); what is received is compared with what was sent or with the state of the environment when it was sent,
bodies coming from the stand-ins of P35. Files are read back in scratch directories beside a dict model. Plots are drawn with the Agg backend and judged from the artists of the figure, images from the pixels of the saved file.'''
