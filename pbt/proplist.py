"""The properties (source of properties.jsonl and MANIFEST.json, written by mkprops.py)."""
PROPS = []


def P(**k):
    PROPS.append(k)


T = 'property-based testing (Hypothesis), '

P(id='C01', title='A feed-forward network computes the composition of its graph',
  statement="""Activating a feed-forward network, built in any order from any layers, connections (also sliced, shared, permuting, linear,
  identity) and nested networks, returns exactly the composition of the layer functions along the connection graph with the
  current parameters. The result does not depend on the order of construction, on names, or on the history of earlier activations,
  backward passes, resets, dataset activations or copies; a layer used alone computes its documented function on every call.""",
  over=['programs', 'inputs', 'histories'],
  quant="""every acyclic network of the supported layer and connection kinds, every parameter vector, every input and every history of
  earlier calls""",
  why="""the tests activate a handful of fixed two or three layer networks once; slices of slices, shared weights between
  different places, several in/output modules and re-activation after other calls are not sampled""",
  files=['pybrain/structure/networks/feedforward.py', 'pybrain/structure/networks/network.py', 'pybrain/structure/modules/module.py',
         'pybrain/structure/modules/gate.py', 'pybrain/structure/modules/softmax.py', 'pybrain/structure/moduleslice.py', 'pybrain/structure/connections/full.py',
         'pybrain/structure/connections/shared.py', 'pybrain/structure/connections/permutation.py', 'pybrain/structure/connections/subsampling.py',
         'pybrain/structure/connections/linear.py', 'pybrain/structure/connections/fullnotself.py', 'pybrain/structure/connections/identity.py'],
  mech=[('FeedForwardNetworkComponent._forwardImplementation', 'pybrain/structure/networks/feedforward.py'),
        ('Module.activate / forward', 'pybrain/structure/modules/module.py'), ('Connection slicing', 'pybrain/structure/connections/connection.py')],
  observe=['net.activate(x)', 'net.activateOnDataset(ds)', 'layer.activate(x)'],
  technique=T + 'differential against a pure-Python reference evaluator',
  note="""randomised search over network programs and call histories against an independent evaluator; small networks (2-6 modules,
  dimension 1-3); trusts the pure-Python evaluator in pbt/props/netlib.py""")

P(id='C02', title='Backpropagation yields the true gradients',
  statement="""After a forward and a backward pass through a feed-forward network, the error returned at the input and the derivatives
  accumulated for every parameter equal the exact derivatives of the error-weighted output with respect to the inputs and the parameters. They
  accumulate over several samples until they are reset, and the derivatives a whole data set yields in one training epoch are the sum over its samples.""",
  over=['programs', 'inputs', 'histories'],
  quant='every network of differentiable layers and connections, every parameter vector, input, output error and accumulation history',
  why="""the existing gradient checks are disabled or sample a few full-connection networks; sliced, shared, linear, permutation and
  gate combinations are never checked""",
  files=['pybrain/structure/networks/feedforward.py', 'pybrain/structure/modules/module.py', 'pybrain/structure/modules/gate.py', 'pybrain/structure/connections/full.py',
         'pybrain/structure/connections/linear.py', 'pybrain/structure/connections/permutation.py', 'pybrain/structure/connections/fullnotself.py',
         'pybrain/structure/connections/shared.py', 'pybrain/supervised/trainers/backprop.py'],
  mech=[('FeedForwardNetworkComponent._backwardImplementation', 'pybrain/structure/networks/feedforward.py'),
        ('ParameterContainer.derivs', 'pybrain/structure/parametercontainer.py'), ('BackpropTrainer._calcDerivs', 'pybrain/supervised/trainers/backprop.py')],
  observe=['net.backActivate(err)', 'net.derivs', 'net.resetDerivatives()'],
  technique=T + 'oracle: complex-step derivatives of a reference evaluator',
  note='randomised search; derivative oracle exact to rounding; kinks (relu, softsign at 0) are measure zero and not claimed')

P(id='C03', title='Recurrent and LSTM networks run and differentiate through time',
  statement="""A recurrent network (feed-forward networks as modules included) outputs at each step the value of the recurrence unrolled from the last reset, where recurrent connections
  deliver the previous step's output and LSTM / MDLSTM cells (with or without peepholes) follow their cell equations; a network built with
  forget=True gives the same outputs. Backward passes from the last step to the first give the exact derivatives of the error-weighted outputs of the
  whole sequence, and sequential data sets of any sequence lengths give the sum over sequences and the matching mean error.""",
  over=['programs', 'inputs', 'histories'],
  quant='every recurrent network of the supported layers, every sequence of inputs and errors of any length, every history of resets and copies',
  why="""tests run fixed small recurrent networks for a few steps and check few gradients; growing buffers, several delayed
  connections, peepholes and repeated resets are not covered""",
  files=['pybrain/structure/networks/recurrent.py', 'pybrain/structure/modules/lstm.py', 'pybrain/structure/modules/mdlstm.py', 'pybrain/structure/modules/module.py',
         'pybrain/supervised/trainers/backprop.py'],
  mech=[('RecurrentNetworkComponent', 'pybrain/structure/networks/recurrent.py'), ('LSTMLayer', 'pybrain/structure/modules/lstm.py'),
        ('Module buffers', 'pybrain/structure/modules/module.py')],
  observe=['net.activate(x) per step', 'net.backActivate(err) per step', 'net.derivs', 'BackpropTrainer.train()'],
  technique=T + 'differential against an unrolled reference with complex-step gradients',
  note='randomised search, sequences up to 9 steps, up to 5 modules; trusts the reference recurrence in netlib.py')

P(id='C04', title="A network's flat parameter vector is its containers' parameters",
  statement="""The flat parameter vector (and the flat derivatives) of a network is at all times the concatenation of the vectors of its parameterized
  modules and connections, nested networks included, each container exactly once and shared ones once: setting, randomizing or mutating through the
  network or through a container is visible through the other, and the same vector set twice gives the same network. Copies (copy, deepcopy, pickle,
  file) have equal values and behaviour and share nothing with the original, and extending and re-sorting a network keeps all values.""",
  over=['histories', 'programs'],
  quant='every network, and every history of reads, writes, copies and extensions through any of the views',
  why='the tests set and read parameters once on fixed networks; interleavings of views, copies and re-sorting are not covered',
  files=['pybrain/structure/parametercontainer.py', 'pybrain/structure/networks/network.py', 'pybrain/structure/modules/module.py',
         'pybrain/structure/connections/shared.py', 'pybrain/structure/connections/full.py', 'pybrain/utilities.py'],
  mech=[('Network.sortModules concatenates and slices the buffers', 'pybrain/structure/networks/network.py'),
        ('ParameterContainer._setParameters', 'pybrain/structure/parametercontainer.py')],
  observe=['net.params', 'container.params', 'net._setParameters', 'net.copy()', 'net.saveToFile'],
  technique=T + 'stateful: random operation histories against a model of every container',
  note='randomised search; histories of up to 10 operations on small networks; trusts a list-of-values model')

P(id='C05', title='Module sorting is a topological order and rejects cycles',
  statement="""Sorting a network puts every module exactly once before all modules it feeds through non-recurrent connections, for any order of adding
  modules and connections, any names, duplicate additions and repeated sorting or extension, and equal constructions give equal orders; a cycle of
  non-recurrent connections is rejected with an error. A network never executes or differentiates anything but that order, and its module,
  connection and name tables list exactly what was added.""",
  over=['programs', 'histories'],
  quant='every directed graph of modules, every order of construction, naming and repeated sorting',
  why='the tests sort a few fixed graphs',
  files=['pybrain/structure/networks/network.py', 'pybrain/structure/networks/recurrent.py', 'pybrain/structure/networks/feedforward.py'],
  mech=[('Network._topologicalSort', 'pybrain/structure/networks/network.py')],
  observe=['net.sortModules()', 'net.modulesSorted', 'net.modules', 'net.connections', 'net[name]', 'net.activate'],
  technique=T + 'oracle: order validity and path-counting evaluation of linear graphs',
  note='randomised search over graphs of 2-9 modules and up to 16 connections')

P(id='C06', title='Networks survive the XML round trip',
  statement="""Writing any network of the supported layers and connections (shared, sliced, permuting and nested ones, modules that are both input and
  output, several networks per file) to XML and reading it back yields a network with the same structure, names, kind and parameter values, and the
  same outputs on every input sequence. A network read back can be changed and written again with the same fidelity, and reading by index or name
  selects the network written there.""",
  over=['programs', 'inputs', 'histories'],
  quant='every network of writable modules and connections, every parameter vector, every file with several networks',
  why='the tests write a few fixed networks and compare text; special names, sharing and nesting are not covered',
  files=['pybrain/tools/customxml/networkwriter.py', 'pybrain/tools/customxml/networkreader.py', 'pybrain/tools/customxml/handling.py',
         'pybrain/structure/connections/shared.py', 'pybrain/structure/connections/permutation.py'],
  mech=[('NetworkWriter.writeNetwork', 'pybrain/tools/customxml/networkwriter.py'), ('NetworkReader.readNetwork', 'pybrain/tools/customxml/networkreader.py')],
  observe=['NetworkWriter.writeToFile', 'NetworkWriter.appendToFile', 'NetworkReader.readFrom'],
  technique=T + 'round-trip',
  note='randomised round trips; finite parameters; networks whose constructor arguments are not recorded (partial softmax, convolutional) are outside the claim')

P(id='C08', title='Weight-sharing architectures apply one kernel everywhere',
  statement="""Multi-dimensional swiping networks, border-swiping and capture-game networks, bidirectional and convolutional networks compute at
  every position the function their shared weights define: the output equals a direct coordinate-wise evaluation with the shared weights, for every size,
  dimensionality and option. Networks for symmetric boards commute with the board's symmetries, and a resized network keeps (or extrapolates as
  documented) the weights of the original.""",
  over=['configurations', 'inputs'],
  quant='every size, dimensionality, option set, weight vector and input',
  why='the tests build one or two sizes and check shapes or a doctest',
  files=['pybrain/structure/networks/swiping.py', 'pybrain/structure/networks/borderswiping.py', 'pybrain/structure/networks/bidirectional.py',
         'pybrain/structure/networks/convolutional.py', 'pybrain/structure/networks/custom/capturegame.py', 'pybrain/structure/modulemesh.py',
         'pybrain/structure/moduleslice.py'],
  mech=[('SwipingNetwork._buildSwipingStructure', 'pybrain/structure/networks/swiping.py'), ('BorderSwipingNetwork extrapolation', 'pybrain/structure/networks/borderswiping.py'),
        ('ModuleMesh', 'pybrain/structure/modulemesh.py')],
  observe=['net.activate(x)', 'net.resizedTo(n)'],
  technique=T + 'differential against a coordinate-wise evaluator, and metamorphic board symmetries',
  note='randomised search over sizes 1-4 per dimension, 1-3 dimensions')

P(id='C09', title='Neuron decomposition partitions the parameters losslessly',
  statement="""Decomposing a network into neurons puts every parameter into exactly one part, and putting the parts together again restores exactly the same
  network; a value changed in a part changes exactly that weight, one that belongs to the neuron of the part (its incoming weights, in ESP style its
  incoming and outgoing ones, and its own parameters). This holds for sliced, recurrent, LSTM and peephole networks.""",
  over=['programs', 'inputs'],
  quant='every network of full connections and layers (sliced, recurrent, LSTM with and without peepholes), every parameter vector',
  why='the tests decompose fixed networks only',
  files=['pybrain/structure/networks/neurondecomposable.py', 'pybrain/structure/connections/full.py'],
  mech=[('NeuronDecomposableNetwork._constructParameterInfo', 'pybrain/structure/networks/neurondecomposable.py'), ('FullConnection.whichBuffers', 'pybrain/structure/connections/full.py')],
  observe=['getDecomposition()', 'setDecomposition(parts)', 'convertNormalNetwork'],
  technique=T + 'round-trip and partition invariants, differential against the original network',
  note='randomised search over small networks')

P(id='C10', title='The build helpers build the documented architecture',
  statement="""The network building shortcut creates exactly the layers, bias units and connections its arguments document, for every list of layer sizes and every
  combination of options (bias, output bias, hidden and output class, recurrent, peepholes, fast variants excluded): names, classes, dimensions and
  outputs equal an independent evaluation of the documented layout, and unknown options are rejected. The low-level part builder connects the given
  parts one after another in the same way.""",
  over=['configurations', 'inputs'],
  quant='every list of layer sizes, every combination of options, every parameter vector and input sequence',
  why='the tests build a few examples and print them',
  files=['pybrain/tools/shortcuts.py', 'pybrain/structure/networks/network.py'],
  mech=[('buildNetwork', 'pybrain/tools/shortcuts.py'), ('_buildNetwork', 'pybrain/tools/shortcuts.py')],
  observe=['buildNetwork(*sizes, **options)', 'net.activate'],
  technique=T + 'differential against an independent evaluation of the documented layout',
  note='randomised search over 2-5 layers and all options')

P(id='C11', title='A data set is a faithful table of its fields',
  statement="""After any history of adding samples, appending to, linking, unlinking, setting, converting and clearing fields, copying and pickling, every field holds
  exactly the values put into it, in order and with the declared dimension, and linked fields keep one common length. Reading by index, by iteration, by field
  or in any vector format shows these values and changes nothing, and an operation that would break the table is refused and leaves it unchanged.""",
  over=['histories', 'inputs'],
  quant='every history of operations on plain, unsupervised and supervised data sets, all values and dimensions',
  why='the tests run a few fixed sequences of calls; growth of the internal arrays, failed operations and copies in between are not sampled',
  files=['pybrain/datasets/dataset.py', 'pybrain/datasets/supervised.py', 'pybrain/datasets/unsupervised.py', 'pybrain/utilities.py'],
  mech=[('DataSet linked fields and growing arrays', 'pybrain/datasets/dataset.py'), ('SupervisedDataSet', 'pybrain/datasets/supervised.py')],
  observe=['ds[field]', 'ds.getSample(i)', 'ds.getField', 'len(ds)', 'ds.copy()', 'iteration', 'ds.randomBatches', 'ds.getLinked'],
  technique=T + 'stateful: random operation histories against a table model',
  note='randomised search, histories of up to 25 operations; non-negative indices')

P(id='C12', title='Sequential data sets keep every sequence apart',
  statement="""After any history of starting sequences, adding samples, removing sequences, moving the read position, clearing, copying and pickling, a sequential data
  set (also with importance, rewards or classes) lists exactly the sequences created, each with exactly its samples in order. Sequence counts, lengths, iteration,
  per-sequence access, reward sums and sequence classes all agree with that list, and a refused operation changes nothing.""",
  over=['histories', 'inputs'],
  quant='every history of operations on sequential, importance, reinforcement and sequence classification data sets',
  why='the tests append and remove in a few fixed orders; empty sequences, removal followed by appending and copies are not sampled',
  files=['pybrain/datasets/sequential.py', 'pybrain/datasets/importance.py', 'pybrain/datasets/reinforcement.py', 'pybrain/datasets/classification.py'],
  mech=[('SequentialDataSet sequence_index', 'pybrain/datasets/sequential.py'), ('SequenceClassificationDataSet', 'pybrain/datasets/classification.py')],
  observe=['getNumSequences', 'getSequence(i)', 'getSequenceLength', 'iteration over samples and sequences', 'removeSequence', 'getSumOverSequences', 'getSequenceClass'],
  technique=T + 'stateful: random operation histories against a list-of-lists model',
  note='randomised search, histories of up to 25 operations')

P(id='C13', title='Splits, batches and folds partition the data',
  statement="""Splitting a data set by proportion, by class or stratified into test, validation and training parts, cutting it into random batches and into
  cross-validation folds assigns every sample (or sequence) to exactly one part, unchanged and with its linked fields kept together, in the documented sizes and
  class proportions. Cross validation trains each model on exactly the other folds, starting each time from the same initial model, and reports the mean performance over the held-out folds.""",
  over=['inputs', 'configurations'],
  quant='every data set, proportion, class distribution, number of folds and batch size',
  why='the tests split one or two fixed data sets',
  files=['pybrain/datasets/supervised.py', 'pybrain/datasets/sequential.py', 'pybrain/datasets/classification.py', 'pybrain/datasets/dataset.py', 'pybrain/tools/validation.py'],
  mech=[('splitWithProportion', 'pybrain/datasets/supervised.py'), ('CrossValidator.validate', 'pybrain/tools/validation.py'), ('stratifiedSplit', 'pybrain/datasets/classification.py')],
  observe=['splitWithProportion', 'splitByClass', 'stratifiedSplit', 'randomBatches', 'batches', 'CrossValidator.validate()'],
  technique=T + 'invariant: multiset of uniquely tagged samples',
  note='randomised search, up to 30 samples; samples carry unique tags')

P(id='C14', title='Class conversions and preprocessing keep the meaning of the data',
  statement="""Converting a classification data set to one-of-many form and back, counting and labelling classes, casting between regression and classification and
  cutting sequences into time windows yields exactly the documented data and loses none. Normalizing by range or by mean and deviation reaches the
  documented bounds or moments, restores and transfers by file, and replacing missing values by means or removing incomplete rows changes only these.""",
  over=['inputs', 'configurations'],
  quant='every classification or sequential data set, all bounds, windows and patterns of missing values',
  why='the tests convert one fixed data set and check a few values',
  files=['pybrain/datasets/classification.py', 'pybrain/tools/datasettools.py', 'pybrain/supervised/trainers/svmtrainer.py', 'pybrain/auxiliary/pca.py',
         'pybrain/tools/validation.py'],
  mech=[('ClassificationDataSet._convertToOneOfMany', 'pybrain/datasets/classification.py'), ('DataSetNormalizer', 'pybrain/tools/datasettools.py')],
  observe=['_convertToOneOfMany', '_convertToClassNb', 'calculateStatistics', 'castToRegression', 'convertSequenceToTimeWindows', 'DataSetNormalizer.normalize'],
  technique=T + 'round-trips and an independent recomputation',
  note='randomised search, up to 25 samples, 5 classes')

P(id='C15', title='Data sets survive files',
  statement="""Saving a data set of any kind to a file or file-like object and loading it gives an equal data set of the same kind (fields, links, sequences, classes,
  vector format), which can be extended and saved again with the same fidelity. Reading sparse LIBSVM files and IDX image and label files yields exactly the numbers written there.""",
  over=['inputs', 'configurations', 'histories'],
  quant='every data set kind, contents, protocol and way of saving; every well-formed LIBSVM and IDX file',
  why='the tests write small fixed data sets or none',
  files=['pybrain/datasets/dataset.py', 'pybrain/datasets/supervised.py', 'pybrain/datasets/classification.py', 'pybrain/utilities.py', 'pybrain/tools/datasets/mnist.py',
         'pybrain/datasets/sequential.py', 'pybrain/datasets/reinforcement.py', 'pybrain/datasets/unsupervised.py'],
  mech=[('Serializable', 'pybrain/utilities.py'), ('DataSet.__reduce__', 'pybrain/datasets/dataset.py')],
  observe=['saveToFile', 'loadFromFile', 'load_pickle', 'importing LIBSVM files', 'makeMnistDataSets'],
  technique=T + 'round-trip, and oracle: generated files',
  note='randomised search; scratch files in a temporary directory')

P(id='C16', title='Errors and validation scores are the documented formulas',
  statement="""Mean squared error, classification performance, explained sum of squares, and the winner and class conversions equal their formulas for every output, target and importance.
  Evaluating a module or function on a data set (supervised, sequential or with importance, also through trainers) applies them to exactly the module's
  outputs, sequence by sequence from a reset state, and leaves the module's parameters and the data unchanged.""",
  over=['inputs', 'configurations'],
  quant='all outputs, targets, importances, data sets and modules',
  why='the tests check a few numbers',
  files=['pybrain/tools/validation.py', 'pybrain/supervised/trainers/backprop.py', 'pybrain/supervised/trainers/trainer.py', 'pybrain/datasets/supervised.py',
         'pybrain/utilities.py'],
  mech=[('Validator', 'pybrain/tools/validation.py'), ('ModuleValidator', 'pybrain/tools/validation.py'), ('BackpropTrainer.testOnData', 'pybrain/supervised/trainers/backprop.py')],
  observe=['Validator.*', 'ModuleValidator.*', 'testOnData', 'testOnClassData', 'evaluateModuleMSE', 'percentError'],
  technique=T + 'oracle: independent recomputation of each formula',
  note='randomised search, up to 6 sequences')

P(id='C17', title='Back-propagation training is gradient descent on the error',
  statement="""Each training epoch changes the parameters by exactly the gradient descent steps its settings define (learning rate and its decay, momentum, weight decay,
  online or batch) from the parameters the network has at that moment, using each sequence exactly once in some order, and reports the mean error of the epoch.
  This holds through any history of epochs, external parameter changes and changes of the data set, and for mixture density outputs with the negative log likelihood as the error.""",
  over=['histories', 'configurations', 'inputs'],
  quant='every network, data set, setting and history of training calls and parameter changes',
  why='the tests train a few networks and look whether the error falls',
  files=['pybrain/supervised/trainers/backprop.py', 'pybrain/supervised/trainers/trainer.py', 'pybrain/auxiliary/gradientdescent.py', 'pybrain/supervised/trainers/mixturedensity.py',
         'pybrain/structure/modules/mixturedensity.py', 'pybrain/datasets/importance.py'],
  mech=[('BackpropTrainer.train', 'pybrain/supervised/trainers/backprop.py'), ('GradientDescent.__call__', 'pybrain/auxiliary/gradientdescent.py')],
  observe=['trainer.train()', 'trainer.trainEpochs(n)', 'trainer.trainOnDataset(ds)', 'net.params', 'reported error', 'totalepochs'],
  technique=T + 'stateful differential against a reference optimizer (all orders of the sequences)',
  note='randomised search; up to 3 sequences, up to 5 calls; gradients taken from a copy (C02, C03)')

P(id='C18', title='RProp training and the gradient descent object follow their rules',
  statement="""RProp training moves each parameter per epoch by its own step width in the direction that lowers the error and adapts the width as RProp- defines (settings, bounds, weight decay),
  through any history of epochs and external changes of parameters or data. The gradient descent object takes exactly the documented steps (rate, decay, momentum, or RProp mode)
  for any series of gradients, and never changes the gradients passed to it.""",
  over=['histories', 'configurations', 'inputs'],
  quant='every network, data set, setting, history of training calls and series of gradients',
  why='no unit test follows the step widths or a series of gradients',
  files=['pybrain/supervised/trainers/rprop.py', 'pybrain/supervised/trainers/backprop.py', 'pybrain/auxiliary/gradientdescent.py'],
  mech=[('RPropMinusTrainer.train', 'pybrain/supervised/trainers/rprop.py'), ('GradientDescent.__call__', 'pybrain/auxiliary/gradientdescent.py')],
  observe=['RPropMinusTrainer.train()', 'net.params', 'GradientDescent(gradient)', 'GradientDescent.init'],
  technique=T + 'stateful differential against reference update rules',
  note='randomised search; up to 8 epochs, 12 gradients')

P(id='C19', title='Training until convergence keeps the best validated parameters',
  statement="""Training until convergence runs at most the given number of epochs, stops by its documented convergence rule, and leaves the network with the parameters of the epoch with the lowest
  validation error; internally split data is a partition of the data set. The network training tools stop within their limits, evaluate and keep the best network they found,
  and report errors and training curves that are those of the networks and data sets involved.""",
  over=['histories', 'configurations', 'inputs'],
  quant='every network, data set, split, epoch limit, patience and threshold',
  why='the tests do not look at which parameters remain',
  files=['pybrain/supervised/trainers/trainer.py', 'pybrain/supervised/trainers/backprop.py', 'pybrain/tools/neuralnets.py', 'pybrain/tools/validation.py', 'pybrain/supervised/trainers/rprop.py'],
  mech=[('BackpropTrainer.trainUntilConvergence', 'pybrain/supervised/trainers/backprop.py'), ('NNtools', 'pybrain/tools/neuralnets.py')],
  observe=['trainUntilConvergence(...)', 'net.params', 'validation errors', 'NNregression / NNclassifier runTraining', 'saveTrainingCurve'],
  technique=T + 'differential against an epoch-by-epoch replay on a twin network',
  note='randomised search; up to 40 epochs')

P(id='C20', title='Every optimizer reports the best point it evaluated',
  statement="""Each continuous or discrete black-box optimizer returns the best of all points it evaluated together with that point's value, in the form of its initial point, for every direction (minimize or
  maximize), evaluator and split into calls of learn; it respects the limits on evaluations, steps and desired value, counts and stores its evaluations exactly and leaves the initial point unchanged.
  Minimizing f looks at the same points as maximizing -f, rank-based algorithms depend only on the order of the values, and gradient-estimating ones step towards the better side.""",
  over=['histories', 'configurations', 'inputs'],
  quant='every optimizer, objective, direction, form of the initial point, limit and series of learn calls',
  why='the tests run a few optimizers once on fixed functions',
  files=['pybrain/optimization/optimizer.py', 'pybrain/optimization/hillclimber.py', 'pybrain/optimization/populationbased/es.py', 'pybrain/optimization/populationbased/ga.py', 'pybrain/optimization/populationbased/pso.py',
         'pybrain/optimization/finitedifference/fd.py', 'pybrain/optimization/finitedifference/spsa.py', 'pybrain/optimization/finitedifference/pgpe.py', 'pybrain/optimization/distributionbased/cmaes.py',
         'pybrain/optimization/distributionbased/snes.py', 'pybrain/optimization/distributionbased/xnes.py', 'pybrain/optimization/distributionbased/fem.py', 'pybrain/optimization/distributionbased/ves.py',
         'pybrain/optimization/memetic/memetic.py', 'pybrain/optimization/neldermead.py', 'pybrain/optimization/randomsearch.py'],
  mech=[('BlackBoxOptimizer.learn', 'pybrain/optimization/optimizer.py'), ('BlackBoxOptimizer._oneEvaluation', 'pybrain/optimization/optimizer.py')],
  observe=['optimizer.learn(n)', 'bestEvaluable / bestEvaluation', 'numEvaluations', 'numLearningSteps', '_allEvaluations', 'calls of the evaluator'],
  technique=T + 'recorded evaluations as reference history, metamorphic relations between opposite, scaled and moved problems, reference update rules',
  note='randomised search; 1-4 dimensions, up to 77 evaluations')

P(id='C21', title='Multi-objective optimization keeps non-dominated fronts',
  statement="""The non-dominated front of any set of items contains exactly the items no other one dominates (feasible items come before infeasible ones), sorting into fronts is a partition by repeated fronts,
  crowding distances are the normalized gaps per objective, and NSGA-II selection keeps the requested number from the best fronts with the extremes of the last one.
  Runs return the non-dominated points with their values, within bounds, and the benchmark problems have their published objectives and constraints.""",
  over=['inputs', 'histories', 'configurations'],
  quant='every set of items, number of objectives, equality rule, constraint and run',
  why='no unit test looks at fronts; ties, constraints and more than 100 items are special paths',
  files=['pybrain/tools/nondominated.py', 'pybrain/optimization/populationbased/multiobjective/nsga2.py', 'pybrain/optimization/populationbased/multiobjective/constnsga2.py', 'pybrain/rl/environments/functions/multiobjective.py',
         'pybrain/rl/environments/functions/transformations.py'],
  mech=[('non_dominated_front', 'pybrain/tools/nondominated.py'), ('nsga2select', 'pybrain/optimization/populationbased/multiobjective/nsga2.py')],
  observe=['non_dominated_front / non_dominated_sort', 'crowding_distance', 'nsga2select', 'MultiObjectiveGA.learn', 'values and feasibility of the benchmarks'],
  technique=T + 'brute-force dominance as oracle, recorded evaluations as reference history',
  note='randomised search; up to 260 items, 3 objectives, 9 generations')

P(id='C22', title='Ranking functions order fitnesses as documented',
  statement="""Every ranking function returns one value per sample by its documented formula of the rank: better fitness never gets a lower value, rescaled ones give the best sample exactly one,
  only the order and not the size of the fitnesses matters, and the fitnesses are left unchanged. Tournament selection counts how often each sample wins.""",
  over=['inputs', 'configurations'],
  quant='every array of fitnesses and setting of each ranking function',
  why='no unit test calls the ranking functions',
  files=['pybrain/tools/rankingfunctions.py'],
  mech=[('RankingFunction', 'pybrain/tools/rankingfunctions.py')],
  observe=['ranking(R)', 'rankedFitness(R)', 'normalizedFitness(R)'],
  technique=T + 'reference formulas of ranks, metamorphic relations (monotone transforms, permutations)',
  note='randomised search; up to 25 samples')

P(id='C23', title='Benchmark functions are zero at their optimum and transformations compose',
  statement="""Every benchmark function environment has value zero at its stated optimum and no lower value anywhere, follows its published formula, treats arrays and parameter containers alike and never changes its argument.
  Translating, rotating, negating or penalizing a function, in any combination, changes values, optimum, direction and desired value accordingly and leaves the base function alone;
  this includes all BBOB 2010 functions, with and without noise, and the energy of atom configurations.""",
  over=['inputs', 'configurations', 'programs'],
  quant='every function, dimension, point and chain of transformations',
  why='optimizer tests call a few of the functions without looking at their values',
  files=['pybrain/rl/environments/functions/unimodal.py', 'pybrain/rl/environments/functions/multimodal.py', 'pybrain/rl/environments/functions/transformations.py', 'pybrain/rl/environments/functions/bbob2010.py',
         'pybrain/rl/environments/functions/function.py', 'pybrain/rl/environments/functions/unbounded.py', 'pybrain/rl/environments/functions/lennardjones.py'],
  mech=[('FunctionEnvironment', 'pybrain/rl/environments/functions/function.py'), ('BBOBTransformationFunction', 'pybrain/rl/environments/functions/transformations.py')],
  observe=['f(x)', 'f.xopt', 'f.desiredValue', 'f.toBeMinimized', 'performAction / getSensors'],
  technique=T + 'independent formulas, metamorphic relations of the transformations, invariants at the optimum',
  note='randomised search; 1-7 dimensions (500 in the thorough tier)')

P(id='C24', title='Board games follow their rules; players, tasks and tournaments agree with them',
  statement="""The capture game, Go-Moku and Pente accept exactly the legal moves, detect captures, suicides, rows of five, captured pairs and draws, and report board, liberties, group sizes, move counts and legal or killing positions accordingly after any sequence of moves, handicap, random board or reset.
  Players only make legal moves and killing, non-suicidal or greedy players keep their promise.
  Game tasks reward exactly the winner, scaled by game length, with starting colours as configured, handicap and relative tasks follow their documented procedures, and tournaments play and score all ordered pairs correctly, draws included.""",
  over=['histories', 'inputs', 'configurations'],
  quant='every board size, move sequence, player, task setting and pool of agents',
  why='no stable test plays a game; legality depends on the whole history of merged groups',
  files=['pybrain/rl/environments/twoplayergames/capturegame.py', 'pybrain/rl/environments/twoplayergames/gomoku.py', 'pybrain/rl/environments/twoplayergames/pente.py',
         'pybrain/rl/environments/twoplayergames/tasks/capturetask.py', 'pybrain/rl/environments/twoplayergames/tasks/gomokutask.py', 'pybrain/rl/environments/twoplayergames/capturegameplayers/moduledecision.py', 'pybrain/rl/experiments/tournament.py'],
  mech=[('CaptureGame', 'pybrain/rl/environments/twoplayergames/capturegame.py'), ('Tournament', 'pybrain/rl/experiments/tournament.py')],
  observe=['doMove / performAction', 'getSensors', 'getWinner', 'getLegals / getKilling / getAcceptable', 'getLiberties', 'getReward', 'organize', 'eloScore'],
  technique=T + 'model-based random games against flood-fill and line-scan reference boards, replayed tournaments',
  note='randomised search; boards up to 9x9')

P(id='C25', title='Experiments drive tasks and agents through one fixed protocol',
  statement="""Every experiment step hands the observation to the agent, the agent's explored action to the task and the reward to the agent, exactly once and in this order; episodes, queues and counters follow from the schedule of calls.
  Agents log exactly the complete interactions, one sequence per episode, learn and explore only while learning is enabled and reject calls out of order.
  Tasks scale sensors and actions between limits and accumulate (discounted, averaged) rewards per episode.""",
  over=['histories', 'schedules', 'configurations', 'inputs'],
  quant='every schedule of experiment calls, episode lengths, reward sequence, scaling and flag setting',
  why='the stable tests never run an experiment',
  files=['pybrain/rl/experiments/experiment.py', 'pybrain/rl/experiments/episodic.py', 'pybrain/rl/experiments/queued.py', 'pybrain/rl/experiments/continuous.py', 'pybrain/rl/agents/learning.py', 'pybrain/rl/agents/logging.py',
         'pybrain/rl/agents/optimization.py', 'pybrain/rl/environments/task.py', 'pybrain/rl/environments/episodic.py'],
  mech=[('Experiment', 'pybrain/rl/experiments/experiment.py'), ('LoggingAgent', 'pybrain/rl/agents/logging.py'), ('EpisodicTask', 'pybrain/rl/environments/episodic.py')],
  observe=['doInteractions', 'doEpisodes', 'run', 'agent.history', 'getTotalReward', 'task.f'],
  technique=T + 'stateful comparison of recorded calls and logged histories with a model of the protocol',
  note='randomised search; up to 6 operations of up to 4 episodes each')

P(id='C26', title='Simulated environments and tasks follow their documented dynamics',
  statement="""Mazes, partially observable mazes, classic problems (mountain car, acrobot), pole balancing, ship steering, the simple race and reinforcement environments and the flexible cube turn every action into the documented state change, observation and reward.
  Positions stay inside the free cells or declared limits, random outcomes appear with the declared frequencies, and the pole dynamics agree with an independent integration of the published equations.
  Tasks end, reward and rescale exactly as their documentation says, and a reset starts an independent episode.""",
  over=['histories', 'configurations', 'inputs'],
  quant='every maze, start, action sequence, noise level, pole configuration and physical parameter setting',
  why='no stable test exercises an environment',
  files=['pybrain/rl/environments/mazes/maze.py', 'pybrain/rl/environments/mazes/polarmaze.py', 'pybrain/rl/environments/mazes/tasks/mdp.py', 'pybrain/rl/environments/mazes/tasks/pomdp.py',
         'pybrain/rl/environments/mazes/tasks/maze.py', 'pybrain/rl/environments/mazes/tasks/tiger.py', 'pybrain/rl/environments/mazes/tasks/shuttle.py', 'pybrain/rl/environments/mazes/tasks/cheesemaze.py',
         'pybrain/rl/environments/mazes/tasks/maze4x3.py', 'pybrain/rl/environments/mazes/tasks/tmaze.py', 'pybrain/rl/environments/classic/mountaincar.py', 'pybrain/rl/environments/classic/acrobot.py',
         'pybrain/rl/environments/cartpole/cartpole.py', 'pybrain/rl/environments/cartpole/doublepole.py', 'pybrain/rl/environments/cartpole/balancetask.py', 'pybrain/rl/environments/shipsteer/shipsteer.py',
         'pybrain/rl/environments/simple/environment.py', 'pybrain/rl/environments/flexcube/environment.py', 'pybrain/rl/environments/flexcube/tasks.py'],
  mech=[('Maze', 'pybrain/rl/environments/mazes/maze.py'), ('CartPoleEnvironment', 'pybrain/rl/environments/cartpole/cartpole.py'), ('FlexCubeEnvironment', 'pybrain/rl/environments/flexcube/environment.py')],
  observe=['getSensors', 'getObservation', 'performAction', 'getReward', 'isFinished', 'reset'],
  technique=T + 'reference simulation of each environment, statistical check of declared noise, invariants over action histories',
  note='randomised search; action sequences up to a few hundred steps; viewers and physics engine environments excluded')

P(id='C27', title='Value-based and model-based learners follow their update rules',
  statement="""Q, SARSA, Q(lambda), fitted Q and the linear learners change their value estimates exactly by the published update of each recorded transition, in batch and online mode, and never across episodes in the tabular case.
  Tables and action value networks answer greedily and consistently; linear agents draw actions with the declared probabilities.
  Given a model, the exact and least-squares evaluations agree with the solution of the Bellman equations and policy iteration returns an optimal policy.""",
  over=['histories', 'configurations', 'inputs'],
  quant='every history, table, discount, learning and trace rate, feature vector and small Markov decision process',
  why='no stable test runs a value-based or model-based learner',
  files=['pybrain/rl/learners/valuebased/q.py', 'pybrain/rl/learners/valuebased/sarsa.py', 'pybrain/rl/learners/valuebased/qlambda.py', 'pybrain/rl/learners/valuebased/nfq.py', 'pybrain/rl/learners/valuebased/interface.py',
         'pybrain/rl/learners/valuebased/linearfa.py', 'pybrain/rl/agents/linearfa.py', 'pybrain/rl/learners/modelbased/policyiteration.py', 'pybrain/rl/learners/modelbased/leastsquares.py'],
  mech=[('Q', 'pybrain/rl/learners/valuebased/q.py'), ('LinearFALearner', 'pybrain/rl/learners/valuebased/linearfa.py'), ('policyIteration', 'pybrain/rl/learners/modelbased/policyiteration.py')],
  observe=['learn', 'getValue', 'getActionValues', 'getMaxAction', 'trueValues', 'LSTD_values', 'policyIteration'],
  technique=T + 'recomputation of every update, exact linear solves and enumeration of all deterministic policies as oracles',
  note='randomised search; at most 5 states and 4 actions, histories of up to 28 interactions')

P(id='C28', title='Explorers and policy gradient learners match their distributions',
  statement="""Explorers perturb actions with the documented distribution (epsilon-greedy, Gibbs, normal, state dependent), decay as documented, leave the module unchanged and report the gradient of the log likelihood of what they did.
  Policy gradient learners log this gradient once per action, combine it with the rewards by the published estimators and climb the expected reward; reward-weighted regression weights each episode by its transformed return.""",
  over=['histories', 'configurations', 'inputs'],
  quant='every policy, exploration parameter, state sequence, episode structure and reward history',
  why='no stable test runs an explorer or policy gradient learner',
  files=['pybrain/rl/explorers/discrete/egreedy.py', 'pybrain/rl/explorers/discrete/boltzmann.py', 'pybrain/rl/explorers/discrete/discretesde.py', 'pybrain/rl/explorers/continuous/normal.py', 'pybrain/rl/explorers/continuous/sde.py',
         'pybrain/rl/learners/directsearch/policygradient.py', 'pybrain/rl/learners/directsearch/reinforce.py', 'pybrain/rl/learners/directsearch/enac.py', 'pybrain/rl/learners/directsearch/rwr.py'],
  mech=[('NormalExplorer', 'pybrain/rl/explorers/continuous/normal.py'), ('PolicyGradientLearner', 'pybrain/rl/learners/directsearch/policygradient.py'), ('RWR', 'pybrain/rl/learners/directsearch/rwr.py')],
  observe=['explore', 'activate', 'loglh', 'learn', 'weightedDs'],
  technique=T + 'frequency and moment tests, finite-difference likelihood gradients and recomputed estimators as oracles',
  note='randomised search; statistical tolerances of six standard deviations')

P(id='C29', title='Auxiliary estimators: Gaussian processes, mixing, clustering, PCA, hashing',
  statement="""A Gaussian process predicts exactly the posterior mean and covariance of all samples given since the last reset, and its draws follow them; importance mixing keeps the batch size and yields a batch distributed like the new density.
  k-means++ seeding picks data points that lower the potential most and separated clusters are recovered; principal components are orthonormal, span the leading eigenspace and define the reduced data.
  Locality sensitive hash tables return at most k stored items of the bucket of the query, the most similar first, and none twice.""",
  over=['inputs', 'configurations', 'histories'],
  quant='every training set, hyperparameter, density pair, clustered data set, spectrum and hash content',
  why='the stable tests check one two-dimensional PCA and a few hand-made hash entries; nothing runs the other estimators',
  files=['pybrain/auxiliary/gaussprocess.py', 'pybrain/auxiliary/importancemixing.py', 'pybrain/auxiliary/kmeans.py', 'pybrain/auxiliary/pca.py', 'pybrain/supervised/knn/lsh/minhash.py', 'pybrain/supervised/knn/lsh/nearoptimal.py'],
  mech=[('GaussianProcess', 'pybrain/auxiliary/gaussprocess.py'), ('importanceMixing', 'pybrain/auxiliary/importancemixing.py'), ('MultiDimHash', 'pybrain/supervised/knn/lsh/nearoptimal.py')],
  observe=['testOnArray', 'draw', 'importanceMixing', 'kinit', 'kmeanspp', 'pca', 'reduceDim', 'knn'],
  technique=T + 'closed-form posteriors, exhaustive seeding, eigendecompositions, explicit signatures and frequency tests as oracles',
  note='randomised search; at most 3 input dimensions for processes and Euclidean hashing; statistical tolerances beyond six standard deviations')

P(id='C30', title='Restricted Boltzmann machines and deep belief nets follow contrastive divergence',
  statement="""A restricted Boltzmann machine computes the hidden probabilities of its weight matrix, its inverse uses the transposed matrix, and both stay consistent during training.
  Training applies the contrastive divergence update with momentum, momentum switch and weight cost, batch by batch; the samplers draw from the probabilities they are given.
  Deep belief training trains each pair of layers on the data propagated through the layers below and leaves the result in the network itself.""",
  over=['inputs', 'configurations', 'histories'],
  quant='every machine size, weight matrix, data set, batch size, configuration and chain of layers',
  why='no stable test trains or inverts a machine',
  files=['pybrain/structure/networks/rbm.py', 'pybrain/unsupervised/trainers/rbm.py', 'pybrain/unsupervised/trainers/deepbelief.py'],
  mech=[('Rbm', 'pybrain/structure/networks/rbm.py'), ('RbmGibbsTrainer', 'pybrain/unsupervised/trainers/rbm.py'), ('DeepBeliefTrainer', 'pybrain/unsupervised/trainers/deepbelief.py')],
  observe=['activate', 'invert', 'params', 'biasParams', 'train', 'trainOnDataset'],
  technique=T + 'differential against an explicit matrix implementation of contrastive divergence',
  note='randomised search; machines up to 5 x 4 units, deep nets up to 4 layers, 7 samples; sampling replaced by a deterministic subclass where exact values are compared')

P(id='C32', title='General helpers compute what they are documented to compute',
  statement="""Index drawing follows the given probabilities or softmax; encodings (Gray code, binary, one-in-n, triangular, block) round-trip or match their definition; combinations, flooding, reachability, rearrangements and statistics equal their brute-force definitions.
  Decorators (memoize, repeat, thread, record) preserve results and call the function as often as documented; generated names are unique and seeding makes both random generators repeatable.""",
  over=['inputs', 'programs', 'histories'],
  quant='every argument of the helpers, every small graph, array, dictionary and call sequence',
  why='the stable tests check two helpers on one example each',
  files=['pybrain/utilities.py'],
  mech=[('drawIndex', 'pybrain/utilities.py'), ('reachable', 'pybrain/utilities.py'), ('permuteToBlocks', 'pybrain/utilities.py')],
  observe=['return values', 'number of evaluations', 'frequencies'],
  technique=T + 'brute-force definitions, round trips and frequency tests as oracles',
  note='randomised search over small arguments')

P(id='C33', title='Special functions, densities and Fisher information match their formulas',
  statement="""The squashing functions equal their formulas for scalars, lists and arrays of any shape without overflow, and each derivative is the derivative of its function; rankings order their values.
  Normal densities, matrix square roots, Cauchy samples and the expected normal length agree with their definitions; the Fisher information blocks of a Gaussian and their inverses are exact and mutually inverse.""",
  over=['inputs'],
  quant='every scalar, array shape and well conditioned covariance matrix',
  why='no stable test evaluates these functions',
  files=['pybrain/tools/functions.py', 'pybrain/tools/fisher.py'],
  mech=[('semilinear', 'pybrain/tools/functions.py'), ('calcInvFisher', 'pybrain/tools/fisher.py')],
  observe=['return values'],
  technique=T + 'closed formulas, finite differences, matrix identities and quantiles as oracles',
  note='randomised search; up to 5 dimensions')

P(id='C34', title='Parameter searches, argument processing, resampling and dictionary files',
  statement="""A grid search validates every grid point exactly once and returns a best one; the refining search stays within its bounds, halves its pattern around the best point and returns the best of the last pattern.
  Declared keyword arguments set exactly the given or default attributes and missing mandatory ones are reported; adaptive resampling raises and lowers its effort by the documented rule; buffet matrices are left-ordered and have the documented density; dictionary files return what was stored.""",
  over=['inputs', 'configurations', 'histories'],
  quant='every search box, step count, objective, keyword declaration, noise sequence and file history',
  why='the stable tests check one left-ordered matrix only',
  files=['pybrain/tools/gridsearch.py', 'pybrain/tools/kwargsprocessor.py', 'pybrain/tools/ibp.py', 'pybrain/tools/aptativeresampling.py', 'pybrain/tools/filehandling.py'],
  mech=[('GridSearch2D', 'pybrain/tools/gridsearch.py'), ('AdaptiveResampler', 'pybrain/tools/aptativeresampling.py')],
  observe=['search', 'getPerformances', 'add', 'generateIBP', 'leftordered', 'pickleReadDict'],
  technique=T + 'enumeration of the grid, reference models and frequency tests as oracles',
  note='randomised search; up to 8 steps per axis and 6 refinements')

P(id='C35', title='Evolino, self-organizing maps and mixtures of Gaussians follow their definitions',
  statement="""An Evolino network is determined by its genome (one chromosome per cell) and read-out weights; extrapolating equals reset, washout and generation, and feeding back its own outputs continues the same sequence.
  Training reports the best fitness of the epoch and leaves that individual, with a least squares read-out, in the network; subpopulations assemble every part equally often, rank by best fitness, keep the fittest unmutated and are refilled to their size.
  A self-organizing map answers with its closest neuron and moves exactly the neurons in the neighbourhood towards the input; learning a mixture keeps its weights a distribution, moves means towards rewarded samples, and samples components by weight.""",
  over=['histories', 'inputs', 'configurations'],
  quant='every network size, genome, sequence, washout ratio, population history, map, input stream and reward stream',
  why='the stable tests train one Evolino network for one epoch and none of the others',
  files=['pybrain/structure/modules/evolinonetwork.py', 'pybrain/supervised/trainers/evolino.py', 'pybrain/supervised/evolino/filter.py', 'pybrain/supervised/evolino/population.py', 'pybrain/supervised/evolino/gpopulation.py', 'pybrain/structure/modules/kohonen.py', 'pybrain/tools/mixtures/mixtureofgaussian.py', 'pybrain/tools/mixtures/mogpuremax.py'],
  mech=[('EvolinoNetwork.extrapolate', 'pybrain/structure/modules/evolinonetwork.py'), ('EvolinoEvaluation', 'pybrain/supervised/evolino/filter.py'), ('KohonenMap', 'pybrain/structure/modules/kohonen.py')],
  observe=['washout', 'generate', 'extrapolate', 'getGenome', 'max_fitness', 'getIndividuals', 'neurons', 'getGaus'],
  technique=T + 'metamorphic relations, least squares optimality and population models as oracles',
  note='randomised search; up to 4 cells, 9 individuals per subpopulation and 6 by 6 neurons')

P(id='C36', title='Coevolution plays fair games, keeps exact records and selects the fittest',
  statement="""In one, two or many populations every pairing is played in both directions and never against oneself, each individual meets its share of opponents, and recorded results and the game count match the games played.
  The champion has the best fitness of the current population, computed from all its results (shared by difficulty with two populations); the fittest are selected, survive only with elitism, and their children are mutated once and averaged with their parent as configured.
  Population sizes, seeds, resting populations and the limits on games and generations are respected, and populations take turns.""",
  over=['histories', 'configurations', 'inputs'],
  quant='every algorithm, population size, setting, game and number of generations',
  why='no stable test runs coevolution',
  files=['pybrain/optimization/populationbased/coevolution/coevolution.py', 'pybrain/optimization/populationbased/coevolution/competitivecoevolution.py', 'pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py'],
  mech=[('Coevolution', 'pybrain/optimization/populationbased/coevolution/coevolution.py'), ('CompetitiveCoevolution', 'pybrain/optimization/populationbased/coevolution/competitivecoevolution.py')],
  observe=['learn', 'hallOfFame', 'hallOfFitnesses', 'allResults', 'pop', 'steps'],
  technique=T + 'a model of bookkeeping, fitness and selection compared after every generation',
  note='randomised search; up to 9 individuals, 4 populations and 6 generations')

P(id='C37', title='Masked and cheaply copied modules keep their own parameters',
  statement="""A masked module computes, and backpropagates, with exactly its enabled parameters, reports and accepts only those, and never enables more than allowed; mutation of values keeps the mask and mutation of the mask keeps the values.
  Copies that share one underlying module keep their own parameters and masks through any interleaving of mutations, randomisations, edits and activations.""",
  over=['histories', 'configurations'],
  quant='every module size, mask setting and operation history over several copies',
  why='the stable tests do not interleave copies of evolvables',
  files=['pybrain/structure/evolvables/maskedparameters.py', 'pybrain/structure/evolvables/maskedmodule.py', 'pybrain/structure/evolvables/cheaplycopiable.py', 'pybrain/structure/evolvables/topology.py'],
  mech=[('MaskedParameters', 'pybrain/structure/evolvables/maskedparameters.py'), ('CheaplyCopiable', 'pybrain/structure/evolvables/cheaplycopiable.py')],
  observe=['params', 'paramdim', 'activate', 'backActivate', 'derivs', 'mutate', 'topologyMutate', 'copy'],
  technique=T + 'stateful generation with a model of every copy and a plain network as reference',
  note='randomised search; up to 4 copies and 16 operations')

P(id='C38', title='Search algorithms select, breed and move by their documented rules',
  statement="""An evolution strategy breeds the same number of mutants from each of its mu best individuals, keeping these if it is elitist; a hill climber mutates its current individual and moves as documented; a genetic algorithm
  fills each generation with its elite and one-point crossovers of the selected proportion, mutated at the given rate within the bounds; swarm particles move by inertia, towards their own best position and that of their best neighbour.
  SNES, xNES and CMA-ES move their centre (and SNES and xNES their shape) by the ranked samples, and on a bowl every continuous search closes in on the optimum, minimizing and maximizing.""",
  over=['histories', 'configurations', 'inputs'],
  quant='every population size, proportion, elite, neighbourhood, learning rate, direction and number of generations',
  why='the tests only run some of these algorithms on one function and check that a value is reached',
  files=['pybrain/optimization/hillclimber.py', 'pybrain/optimization/populationbased/es.py', 'pybrain/optimization/populationbased/evolution.py', 'pybrain/optimization/populationbased/ga.py', 'pybrain/optimization/populationbased/pso.py',
         'pybrain/optimization/distributionbased/cmaes.py', 'pybrain/optimization/distributionbased/snes.py', 'pybrain/optimization/distributionbased/xnes.py', 'pybrain/optimization/distributionbased/rank1.py',
         'pybrain/optimization/finitedifference/fd.py', 'pybrain/optimization/finitedifference/pgpe.py', 'pybrain/optimization/neldermead.py'],
  mech=[('ES._learnStep', 'pybrain/optimization/populationbased/es.py'), ('GA.produceOffspring', 'pybrain/optimization/populationbased/ga.py'), ('ParticleSwarmOptimizer._learnStep', 'pybrain/optimization/populationbased/pso.py')],
  observe=['the individuals given to the objective', 'the lineage of evolvables', 'hallOfFame', 'population'],
  technique=T + 'lineage recording against a reference selection, exact reference models of the moves, repeated random numbers that expose the search distribution',
  note='randomised search; up to 24 individuals, 12 generations; the covariance update of CMA-ES only through the progress check')
