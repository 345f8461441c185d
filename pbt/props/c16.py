"""C16: validation and error measures are the documented formulas."""
RULE = ("random outputs, targets and importances; random supervised, sequential and importance data sets (up to 6 sequences) evaluated with functions, feed-forward and "
        "recurrent modules through data sets, trainers and validators; non-trivial: at least 3 samples with a non-zero error")
ASSUMPTIONS = ["importances are not negative and not all zero"]


def gen_val(st):
    v = st.integers(-12, 12).map(lambda i: i / 4.0)
    return st.fixed_dictionaries({'rows': st.lists(st.lists(v, min_size=9, max_size=9), min_size=1, max_size=8), 'd': st.integers(1, 3), 'imp': st.booleans(), 'int': st.booleans(), 'lists': st.booleans()})


def run_val(case, h):
    import numpy as np
    from pybrain.tools.validation import Validator, ClassificationHelper
    R = case['rows']
    d = case['d']
    o, t, im = [[r[k:k + d] for r in R] for k in (0, 3, 6)]
    im = [[abs(v) + 0.25 for v in r] for r in im]
    mk = (lambda x: x) if case['lists'] else np.array
    flat = lambda x: [v for r in x for v in r]
    if case['imp']:
        want = sum(i * (a - b) ** 2 for a, b, i in zip(flat(o), flat(t), flat(im))) / sum(flat(im))
        h.close(Validator.MSE(mk(o), mk(t), np.array(im)), want, 'MSE with importance')
        h.close(Validator.MSE(np.array(flat(o)), np.array(flat(t)), importance=np.array(flat(im))), want, 'MSE of flat arrays with importance')
    want = sum((a - b) ** 2 for a, b in zip(flat(o), flat(t))) / len(flat(o))
    h.close(Validator.MSE(mk(o), mk(t)), want, 'MSE')
    h.close(Validator.ESS(np.array(flat(o)), np.array(flat(t))), want * len(flat(o)), 'sum of squares')
    h.raises(Exception, lambda: Validator.MSE(np.array(flat(o)), np.array(flat(t) + [1.0])), 'MSE of different lengths')
    a, b = [int(abs(r[0])) % 3 for r in R], [int(abs(r[3])) % 3 for r in R]
    rate = sum(x == y for x, y in zip(a, b)) / float(len(R))
    h.close(Validator.classificationPerformance(mk(a), mk(b)), rate, 'hit rate')
    h.close(Validator.classificationPerformance(np.array(a).reshape(-1, 1), np.array(b).reshape(-1, 1)), rate, 'hit rate of columns')
    h.raises(Exception, lambda: Validator.classificationPerformance(a, b + [1]), 'hit rate of different lengths')
    h.eq([int(c) for c in ClassificationHelper.oneOfManyToClasses(np.array(o))], [r.index(max(r)) for r in o], 'classes from the maximum')
    h.nontrivial(len(R) >= 3 and want > 0)


def gen(st):
    v = st.integers(-12, 12).map(lambda i: i / 4.0)
    return st.fixed_dictionaries({'kind': st.sampled_from(['sup', 'seq', 'imp']), 'seqs': st.lists(st.lists(st.lists(v, min_size=9, max_size=9), min_size=1, max_size=4), min_size=1, max_size=6),
                                  'di': st.integers(1, 3), 'dt': st.integers(1, 3), 'rec': st.booleans(), 'w': st.lists(v, min_size=9, max_size=9), 'avg': st.integers(1, 3), 'pre': st.booleans(),
                                  'defimp': st.booleans(), 'verbose': st.booleans()})


def make(case):
    import numpy as np
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork, LinearLayer, FullConnection, IdentityConnection
    di, dt = case['di'], case['dt']
    kind = case['kind']
    d = {'sup': SupervisedDataSet, 'seq': SequentialDataSet, 'imp': ImportanceDataSet}[kind](di, dt)
    seqs = []
    for rows in case['seqs']:
        if kind != 'sup':
            d.newSequence()
        q = []
        for r in rows:
            i, t, w = r[:di], r[3:3 + dt], [abs(v) + .25 for v in r[6:6 + dt]]
            if kind == 'imp':
                if case['defimp'] and r[0] > 0:
                    d.addSample(i, t)
                    w = [1.0] * dt
                else:
                    d.addSample(i, t, w)
            else:
                d.addSample(i, t)
                w = [1.0] * dt
            q.append((i, t, w))
        seqs += [q] if kind != 'sup' else [[s] for s in q]
    rec = case['rec'] and kind != 'sup'
    net = RecurrentNetwork() if rec else FeedForwardNetwork()
    a, b = LinearLayer(di, name='a'), LinearLayer(dt, name='b')
    net.addInputModule(a)
    net.addOutputModule(b)
    c = FullConnection(a, b)
    net.addConnection(c)
    if rec:
        net.addRecurrentConnection(IdentityConnection(b, b))
    net.sortModules()
    W = np.array(case['w'][:di * dt]).reshape(dt, di)
    c.params[:] = W.ravel()

    def outputs(q):
        y = np.zeros(dt)
        res = []
        for i, t, w in q:
            y = W.dot(np.array(i)) + (y if rec else 0)
            res.append(y)
        return res
    return d, seqs, net, W, outputs, rec


def run(case, h):
    import numpy as np
    from pybrain.tools.validation import ModuleValidator, Validator, SequenceHelper, testOnSequenceData
    from pybrain.supervised.trainers import BackpropTrainer
    d, seqs, net, W, outputs, rec = make(case)
    kind, dt = case['kind'], case['dt']
    outs = [outputs(q) for q in seqs]
    num = sum(float(np.dot(w, (np.array(t) - y) ** 2)) for q, ys in zip(seqs, outs) for (i, t, w), y in zip(q, ys))
    den = sum(sum(w) for q in seqs for i, t, w in q)
    mse = num / den
    if case['pre']:
        # left-over state of the module must not matter
        for _ in range(3):
            net.activate([1.5] * case['di'])
    kw = {'verbose': True} if case['verbose'] else {}
    h.close(d.evaluateModuleMSE(net, averageOver=case['avg'], **kw), 0.5 * mse, 'data set error of the module')
    if not rec:
        h.close(d.evaluateMSE(lambda x: W.dot(x), **kw), 0.5 * mse, 'data set error of a function')
    h.close(ModuleValidator.MSE(net, d), mse, 'validated MSE')
    h.close(ModuleValidator.calculateModuleOutput(net, d).reshape(-1, dt), [list(y) for ys in outs for y in ys], 'outputs of the module')
    h.close(ModuleValidator.validate(lambda o, t, *i: float(np.sum(np.array(o).reshape(-1) * np.array(t).reshape(-1))), net, d),
            sum(float(np.dot(y, t)) for q, ys in zip(seqs, outs) for (i, t, w), y in zip(q, ys)), 'validation with another function')
    if dt == 1 and kind != 'imp':
        h.close(ModuleValidator.classificationPerformance(net, d), sum(float(y[0]) == t[0] for q, ys in zip(seqs, outs) for (i, t, w), y in zip(q, ys)) / float(sum(map(len, seqs))), 'hit rate of the module')
    tr = BackpropTrainer(net, d)
    h.close(tr.testOnData(d, **kw), 0.5 * mse, 'error measured by the trainer')
    h.close(tr.testOnData(), 0.5 * mse, 'error measured by the trainer on its own data')
    if kind != 'imp':
        cls, targ = tr.testOnClassData(d, return_targets=True)
        amax = lambda v: int(np.argmax(v))
        h.seq([int(c) for c in cls], [amax(y) for ys in outs for y in ys], 'classes of the outputs')
        h.seq([int(c) for c in targ], [amax(t) for q in seqs for i, t, w in q], 'classes of the targets')
        h.seq([int(c) for c in tr.testOnClassData()], [amax(y) for ys in outs for y in ys], 'classes of the outputs on its own data')
    if kind != 'sup':
        n = [len(q) for q in seqs]
        starts = [sum(n[:i]) for i in range(len(n))]
        h.close(np.ravel(SequenceHelper.getSequenceStarts(d)), starts, 'sequence starts')
        h.close(np.ravel(SequenceHelper.getSequenceEnds(d)), [s + m - 1 for s, m in zip(starts, n)], 'sequence ends')
        imp = [0.0] * sum(n)
        for s, m in zip(starts, n):
            imp[s + m - 1] = 1.0
        h.close(SequenceHelper.getSequenceEndsImportance(d), imp, 'importance of sequence ends')
        hits = 0
        for q, ys in zip(seqs, outs):
            hits += amax_(sum(ys)) == amax_(q[-1][1])
        h.close(testOnSequenceData(net, d), hits / float(len(seqs)), 'hit rate of sequences')
    h.label(kind, 'recurrent' if rec else 'feed-forward')
    h.nontrivial(sum(map(len, seqs)) >= 3 and mse > 0)


def amax_(v):
    import numpy as np
    return int(np.argmax(np.array(v)))


def gen_state(st):
    v = st.integers(-12, 12).map(lambda i: i / 4.0)
    return st.fixed_dictionaries({'rows': st.lists(st.lists(v, min_size=4, max_size=4), min_size=1, max_size=6), 'dirty': st.lists(v, min_size=1, max_size=5), 'w': st.lists(v, min_size=4, max_size=4),
                                  'avg': st.integers(1, 3), 'lstm': st.booleans(), 'kind': st.sampled_from(['sup', 'sup', 'seq'])})


def run_state(case, h):
    # a recurrent module: no measure depends on what the module saw before
    import numpy as np
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet
    from pybrain.structure import RecurrentNetwork, LinearLayer, LSTMLayer, FullConnection
    from pybrain.tools.validation import ModuleValidator
    from pybrain.supervised.trainers import BackpropTrainer
    d = (SupervisedDataSet if case['kind'] == 'sup' else SequentialDataSet)(2, 1)
    if case['kind'] == 'seq':
        d.newSequence()
    for r in case['rows']:
        d.addSample(r[:2], [r[2]])
    net = RecurrentNetwork()
    a, b, o = LinearLayer(2, name='a'), LSTMLayer(1, name='b') if case['lstm'] else LinearLayer(1, name='b'), LinearLayer(1, name='o')
    net.addInputModule(a)
    net.addModule(b)
    net.addOutputModule(o)
    net.addConnection(FullConnection(a, b))
    net.addConnection(FullConnection(b, o))
    if not case['lstm']:
        net.addRecurrentConnection(FullConnection(b, b))
    net.sortModules()
    net._setParameters(np.resize(np.array(case['w']), net.paramdim))
    fs = [('calculateModuleOutput', lambda: ModuleValidator.calculateModuleOutput(net, d).ravel()), ('MSE', lambda: ModuleValidator.MSE(net, d)),
          ('classificationPerformance', lambda: ModuleValidator.classificationPerformance(net, d)),
          ('evaluateModuleMSE', lambda: d.evaluateModuleMSE(net)), ('averaged evaluateModuleMSE', lambda: d.evaluateModuleMSE(net, averageOver=case['avg'])),
          ('testOnData', lambda: BackpropTrainer(net, d).testOnData())]
    fresh, moved = {}, False
    for n, f in fs:
        net.reset()
        fresh[n] = f()
    h.close(fresh['averaged evaluateModuleMSE'], fresh['evaluateModuleMSE'], 'average over repetitions')
    h.close(0.5 * fresh['MSE'], fresh['evaluateModuleMSE'], 'half the validated MSE is the error of the data set')
    net.reset()
    ys = [float(net.activate(r[:2])[0]) for r in case['rows']]
    h.close(fresh['calculateModuleOutput'], ys, 'outputs in order from the reset state')
    for n, f in fs:
        net.reset()
        for x in case['dirty']:
            net.activate([x, 1.0])
        moved = moved or abs(float(net.activate(case['rows'][0][:2])[0]) - ys[0]) > 1e-6
        h.close(f(), fresh[n], n + ' after earlier activations')
    h.label(case['kind'])
    h.nontrivial(moved and len(ys) >= 2)


FACETS = {
    'state': {'gen': gen_state, 'run': run_state, 'quick': 500, 'thorough': 8000},
    'formulas': {'gen': gen_val, 'run': run_val, 'quick': 1500, 'thorough': 20000},
    'modules': {'gen': gen, 'run': run, 'quick': 1500, 'thorough': 20000},
}
