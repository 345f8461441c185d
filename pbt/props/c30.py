"""C30: restricted Boltzmann machines and deep belief training."""
RULE = ("machines of random sizes, weights and biases; contrastive divergence with deterministic samplers compared with an explicit matrix recomputation over every possible batch order; deep belief training compared with the same recomputation layer by layer; non-trivial: more than one batch, epoch or layer")
ASSUMPTIONS = ["the random sampling step is replaced by a deterministic one where exact values are compared (a subclass hook), and judged by frequencies and moments otherwise", "batches are drawn in random order: with several batches the outcome has to equal the one of some order", "visible biases of the reconstruction side start at values set by the check, because their initial values are random", "in deep belief training the machine of two layers contains these layers with their own transfer functions, also on the visible side"]

VALS = [0.0, 0.5, -0.5, 1.0, -1.0, 2.0, 0.25, -1.5]


def _sig(x):
    import numpy as np
    return 1.0 / (1.0 + np.exp(-np.clip(x, -500, 500)))


def _cd(W, b, c, batches, cfg, mode, hid, vis):
    """plain contrastive divergence; W is hidden x visible; c the visible bias.  Returns new W, b, c"""
    import numpy as np
    W, b, c = W.copy(), b.copy(), c.copy()
    act = _sig if hid == 'sig' else (lambda x: x)
    vact = _sig if vis == 'sig' else (lambda x: x)
    for rows in batches:
        dW, db, dc = np.zeros(W.shape), np.zeros(b.shape), np.zeros(c.shape)
        for t in range(cfg['maxIter']):
            mm = cfg['iniMm'] if t < cfg['switch'] else cfg['finMm']
            gW, gb, gc = np.zeros(W.shape), np.zeros(b.shape), np.zeros(c.shape)
            for v in rows:
                hp = act(W.dot(vact(v)) + b)
                s = _sample(hp, mode)
                r = _sig(W.T.dot(s) + c)
                hn = act(W.dot(vact(r)) + b)
                gW += np.outer(hp, v) - np.outer(hn, r)
                gb += hp - hn
                gc += v - r
            n = float(len(rows))
            dW = mm * dW + cfg['rW'] * (gW / n - cfg['cost'] * W)
            db = mm * db + cfg['rH'] * gb / n
            dc = mm * dc + cfg['rV'] * gc / n
            W, b, c = W + dW, b + db, c + dc
    return W, b, c


class _Tie(Exception):
    pass


def _sample(p, mode):
    import numpy as np
    p = np.asarray(p, float)
    if mode == 'mean':
        return p.copy()
    if (abs(p - 0.5) < 1e-7).any():
        raise _Tie()
    return (p > 0.5).astype(int)


def _cfg(case):
    return {'maxIter': case['maxIter'], 'iniMm': case['iniMm'], 'finMm': case['finMm'], 'switch': case['switch'], 'rW': case['rW'], 'rH': case['rH'], 'rV': case['rV'], 'cost': case['cost']}


def _mkcfg(case):
    from pybrain.unsupervised.trainers.rbm import RbmGibbsTrainerConfig
    c = RbmGibbsTrainerConfig()
    c.batchSize, c.rWeights, c.rHidBias, c.rVisBias = case['batch'], case['rW'], case['rH'], case['rV']
    c.weightCost, c.iniMm, c.finMm, c.mmSwitchIter, c.maxIter = case['cost'], case['iniMm'], case['finMm'], case['switch'], case['maxIter']
    return c


CFG = None


def _cfgst(st):
    return {'batch': st.integers(1, 6), 'maxIter': st.one_of(st.integers(1, 6), st.integers(1, 14)), 'switch': st.one_of(st.integers(0, 4), st.integers(0, 10)), 'iniMm': st.sampled_from([0.5, 0.0, 0.25]), 'finMm': st.sampled_from([0.9, 0.75, 0.0]),
            'rW': st.sampled_from([0.1, 0.5, 0.01]), 'rH': st.sampled_from([0.1, 0.3, 0.0]), 'rV': st.sampled_from([0.1, 0.2, 0.0]), 'cost': st.sampled_from([0.0002, 0.0, 0.1, 0.5])}


def _fill(vals, n, off=0):
    import numpy as np
    return np.array([vals[(i + off) % len(vals)] * (1 + 0.13 * (((i + off) * 7) % 5)) for i in range(n)])


def _trainer(kind, mode):
    from pybrain.unsupervised.trainers.rbm import RbmBernoulliTrainer, RbmGaussTrainer
    base = RbmGaussTrainer if kind == 'gauss' else RbmBernoulliTrainer

    class Det(base):
        def sampler(self, probabilities):
            return _sample(probabilities, mode)
    return Det


def gen_cd(st):
    d = {'nv': st.integers(1, 5), 'nh': st.integers(1, 4), 'w': st.lists(st.sampled_from(VALS), min_size=1, max_size=8), 'wb': st.lists(st.sampled_from(VALS), min_size=1, max_size=4), 'vb': st.lists(st.sampled_from(VALS), min_size=1, max_size=4),
         'data': st.lists(st.lists(st.sampled_from([0, 1, 0.5, 0.25]), min_size=5, max_size=5), min_size=1, max_size=7), 'kind': st.sampled_from(['bernoulli', 'gauss']), 'mode': st.sampled_from(['mean', 'thr']),
         'field': st.sampled_from(['sample', 'input']), 'epochs': st.integers(1, 3), 'how': st.sampled_from(['dims', 'modules', 'net', 'attrs', 'biasonly', 'weightsonly']), 'ondata': st.booleans()}
    d.update(_cfgst(st))
    return st.fixed_dictionaries(d)


def _ds(data, field, nv):
    from pybrain.datasets import UnsupervisedDataSet, SupervisedDataSet
    if field == 'sample':
        ds = UnsupervisedDataSet(nv)
        for x in data:
            ds.addSample(x)
    else:
        ds = SupervisedDataSet(nv, 1)
        for x in data:
            ds.addSample(x, [0.5])
    return ds


def run_cd(case, h):
    import itertools
    import random
    import numpy as np
    from pybrain.structure import FeedForwardNetwork, LinearLayer, SigmoidLayer, BiasUnit, FullConnection
    from pybrain.structure.networks.rbm import Rbm
    random.seed(5)
    np.random.seed(5)
    nv, nh = case['nv'], case['nh']
    W = _fill(case['w'], nv * nh).reshape(nh, nv)
    b = _fill(case['wb'], nh, 1)
    c = _fill(case['vb'], nv, 2)
    if case['how'] == 'dims':
        rbm = Rbm.fromDims(nv, nh, params=W.flatten(), biasParams=b)
    elif case['how'] == 'biasonly':
        rbm = Rbm.fromDims(nv, nh, biasParams=b)
        rbm.params[:] = W.flatten()
    elif case['how'] == 'weightsonly':
        rbm = Rbm.fromDims(nv, nh, params=W.flatten())
        rbm.biasParams[:] = b
    elif case['how'] == 'attrs':
        rbm = Rbm.fromDims(nv, nh)
        rbm.params[:] = W.flatten()
        rbm.biasParams[:] = b
    else:
        v, hd, bias = LinearLayer(nv, 'v'), SigmoidLayer(nh, 'h'), BiasUnit('bb')
        con, bc = FullConnection(v, hd, name='z'), FullConnection(bias, hd, name='a')
        con.params[:] = W.flatten()
        bc.params[:] = b
        if case['how'] == 'modules':
            rbm = Rbm.fromModules(v, hd, bias, con, bc)
        else:
            net = FeedForwardNetwork()
            net.addInputModule(v)
            net.addModule(bias)
            net.addOutputModule(hd)
            net.addConnection(con)
            net.addConnection(bc)
            rbm = Rbm(net)
        h.check(rbm.visible is v and rbm.hidden is hd, 'the layers are found by role')
    h.eq((rbm.visibleDim, rbm.hiddenDim), (nv, nh), 'dimensions')
    h.close(rbm.params, W.flatten(), 'weights', rtol=1e-12, atol=0)
    h.close(rbm.biasParams, b, 'biases', rtol=1e-12, atol=0)
    data = [x[:nv] for x in case['data']]
    for x in data[:2]:
        h.close(rbm.activate(np.array(x, float)), _sig(W.dot(x) + b), 'hidden probabilities', rtol=1e-9, atol=1e-12)
    inv = rbm.invert()
    h.eq((inv.visibleDim, inv.hiddenDim), (nh, nv), 'inverted dimensions')
    hv = _fill([0, 1, 0.5], nh)
    h.close(inv.activate(hv), _sig(W.T.dot(hv) + np.array(inv.biasParams)), 'inverted machine uses the transposed weights', rtol=1e-9, atol=1e-12)
    h.close(inv.invert().params, W.flatten(), 'inverting twice', rtol=1e-12, atol=0)
    ds = _ds(data, case['field'], nv)
    cls = _trainer(case['kind'], case['mode'])
    t = cls(rbm, ds, _mkcfg(case))
    t.invRbm.biasParams[:] = c
    nb = (len(data) + case['batch'] - 1) // case['batch']
    batches = [np.array(data[i * case['batch']:(i + 1) * case['batch']], float) for i in range(nb)]
    epochs = case['epochs'] if nb == 1 else 1
    if nb > 4:
        h.discard()
    for _ in range(epochs):
        try:
            if case['ondata']:
                t.trainOnDataset(ds)
            else:
                t.train()
        except _Tie:
            h.discard()
    got = np.concatenate([np.ravel(rbm.params), np.ravel(rbm.biasParams), np.ravel(t.invRbm.biasParams)])
    best = None
    try:
        for order in itertools.permutations(range(nb)):
            w2, b2, c2 = W, b, c
            for _ in range(epochs):
                w2, b2, c2 = _cd(w2, b2, c2, [batches[i] for i in order], _cfg(case), case['mode'], 'sig', 'lin')
            exp = np.concatenate([w2.flatten(), b2, c2])
            if best is None or abs(got - exp).max() < abs(got - best).max():
                best = exp
    except _Tie:
        h.discard()
    h.close(got, best, 'weights, hidden and visible biases after contrastive divergence', rtol=1e-6, atol=1e-9)
    w2 = best[:nv * nh].reshape(nh, nv)
    h.close(t.invRbm.params, w2.T.flatten(), 'the reconstruction side keeps the transposed weights', rtol=1e-6, atol=1e-9)
    h.close(rbm.activate(np.array(data[0], float)), _sig(w2.dot(data[0]) + best[nv * nh:nv * nh + nh]), 'activation after training', rtol=1e-6, atol=1e-9)
    h.label('batches' if nb > 1 else 'one batch', case['kind'], case['how'])
    if nb > 1 or epochs > 1:
        h.nontrivial()


def gen_sampler(st):
    return st.fixed_dictionaries({'p': st.lists(st.sampled_from([0.0, 1.0, 0.5, 0.1, 0.9, 0.3]), min_size=1, max_size=5), 'kind': st.sampled_from(['bernoulli', 'gauss']), 'var': st.sampled_from([1.0, 0.5, 2.0]), 'seed': st.integers(0, 9999)})


def run_sampler(case, h):
    import random
    import numpy as np
    from pybrain.datasets import UnsupervisedDataSet
    from pybrain.structure.networks.rbm import Rbm
    from pybrain.unsupervised.trainers.rbm import RbmBernoulliTrainer, RbmGaussTrainer
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    n = len(case['p'])
    p = np.array(case['p'])
    rbm = Rbm.fromDims(3, n)
    ds = UnsupervisedDataSet(3)
    ds.addSample([0, 1, 0])
    N = 1500
    if case['kind'] == 'bernoulli':
        t = RbmBernoulliTrainer(rbm, ds)
        S = np.array([np.ravel(t.sampler(p)) for _ in range(N)], float)
        h.check(((S == 0) | (S == 1)).all(), 'states are binary')
        var = p * (1 - p)
    else:
        t = RbmGaussTrainer(rbm, ds)
        h.close(t.visibleVariances, np.ones(n), 'unit variances by default')
        t.visibleVariances = np.full(n, case['var'])
        S = np.array([np.ravel(t.sampler(p)) for _ in range(N)], float)
        var = np.full(n, case['var'] ** 2)
    h.eq(S.shape, (N, n), 'shape')
    m = S.mean(axis=0)
    h.check((abs(m - p) <= 6.5 * np.sqrt(var / N) + 1e-9).all(), 'sample means')
    if case['kind'] == 'gauss':
        h.check((abs(S.var(axis=0) / var - 1) < 6.5 * np.sqrt(2.0 / N)).all(), 'sample variances')
        h.check((abs(S.mean(axis=1) - p.mean()) <= 6.5 * case['var'] / np.sqrt(n)).all(), 'no outliers')
    if n > 1:
        Z = S - p
        for i in range(n - 1):
            cv = (Z[:, i] * Z[:, i + 1]).mean()
            h.check(abs(cv) <= 7.5 * np.sqrt(var[i] * var[i + 1] / N) + 1e-9, 'units sampled independently')
        h.nontrivial()
    # a single update entry: positive minus negative statistics
    a = [np.array(x, float) for x in ([[1, 2], [3, 4]], [[0.5, 0], [1, 1]], [1, 2], [3, 5], [0, 1], [1, 1])]
    if n == 2:
        if case['kind'] == 'gauss':
            pos = a[0] / case['var']
        else:
            pos = a[0]
        w, hb, vb = t.updater(*a)
        h.close(w, pos - a[1], 'weight statistics')
        h.close(hb, a[2] - a[3], 'hidden statistics')
        h.close(vb, a[4] - a[5], 'visible statistics')
    # training with the real sampler stays finite, and learns a constant pattern
    cfgd = {'batch': 5, 'maxIter': 9, 'switch': 5, 'iniMm': 0.5, 'finMm': 0.9, 'rW': 0.1, 'rH': 0.1, 'rV': 0.1, 'cost': 0.0002}
    cfgd.update(rW=0.5, rH=0.3, rV=0.5)
    if case['kind'] == 'bernoulli':
        t = RbmBernoulliTrainer(rbm, ds, _mkcfg(cfgd))
        for _ in range(20):
            t.train()
        rec = t.invRbm.activate(rbm.activate(np.array([0.0, 1.0, 0.0])))
        h.check(rec[1] > 0.6 and rec[0] < 0.4 and rec[2] < 0.4, 'a constant pattern is learnt')
    h.label(case['kind'])


def gen_dbn(st):
    d = {'layers': st.one_of(st.lists(st.integers(1, 4), min_size=2, max_size=4), st.lists(st.integers(1, 3), min_size=4, max_size=6)), 'names': st.one_of(st.just(None), st.permutations(['a', 'b', 'c', 'd', 'e', 'f'])), 'w': st.lists(st.sampled_from(VALS), min_size=1, max_size=8), 'data': st.lists(st.lists(st.sampled_from([0, 1, 0.5, 0.25]), min_size=4, max_size=4), min_size=1, max_size=4),
         'mode': st.sampled_from(['mean', 'thr']), 'field': st.sampled_from(['sample', 'input']), 'epochs': st.integers(1, 3), 'out': st.sampled_from(['sig', 'lin']), 'twice': st.booleans(), 'kind': st.sampled_from(['bernoulli', 'gauss'])}
    d.update(_cfgst(st))
    return st.fixed_dictionaries(d)


def run_dbn(case, h):
    import random
    import numpy as np
    from pybrain.structure import LinearLayer, SigmoidLayer, BiasUnit, FullConnection, FeedForwardNetwork
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.unsupervised.trainers.deepbelief import DeepBeliefTrainer
    random.seed(5)
    np.random.seed(5)
    L = case['layers']
    out = SigmoidLayer if case['out'] == 'sig' else LinearLayer
    net = buildNetwork(*L, bias=True, hiddenclass=SigmoidLayer, outclass=out)
    if case['names']:
        # the same chain, with names of its own
        names = list(case['names'][:len(L)])
        net = FeedForwardNetwork()
        mods = [(LinearLayer if i == 0 else out if i == len(L) - 1 else SigmoidLayer)(n, names[i]) for i, n in enumerate(L)]
        order = sorted(range(len(L)), key=lambda i: case['names'][-1 - i])
        net.addModule(BiasUnit('bias'))
        for i in order:
            (net.addInputModule if i == 0 else net.addOutputModule if i == len(L) - 1 else net.addModule)(mods[i])
        for i in order:
            if i:
                net.addConnection(FullConnection(net['bias'], mods[i]))
        for i in range(len(L) - 1):
            net.addConnection(FullConnection(mods[i], mods[i + 1]))
        net.sortModules()
    net._setParameters(_fill(case['w'], net.paramdim))
    if not case['names']:
        names = ['in'] + (['hidden%d' % i for i in range(len(L) - 2)] if len(L) > 3 else ['hidden0'] * (len(L) - 2)) + ['out']

    def parts():
        Ws, bs = [], []
        for i in range(len(L) - 1):
            con = [c for c in net.connections[net[names[i]]] if c.outmod is net[names[i + 1]]]
            bc = [c for c in net.connections[net['bias']] if c.outmod is net[names[i + 1]]]
            h.eq((len(con), len(bc)), (1, 1), 'connections of the chain')
            Ws.append(np.array(con[0].params).reshape(L[i + 1], L[i]))
            bs.append(np.array(bc[0].params))
        return Ws, bs
    Ws, bs = parts()
    data = [x[:L[0]] + [0] * (L[0] - len(x)) for x in case['data']]
    X = np.array(data, float)
    ds = _ds(data, case['field'], L[0])
    det = _trainer(case['kind'], case['mode'])

    class Zero(det):
        def __init__(self, *a, **k):
            det.__init__(self, *a, **k)
            self.invRbm.biasParams[:] = 0.0

    class DBT(DeepBeliefTrainer):
        trainers = {'bernoulli': Zero, 'gauss': Zero}
    case['batch'] = 10
    if case['twice'] and len(L) > 3:
        case['twice'] = False
    t = DBT(net, ds, epochs=case['epochs'], cfg=_mkcfg(case), distribution='bernoulli')
    for rep in range(2 if case['twice'] else 1):
        try:
            t.train()
        except _Tie:
            h.discard()
        cur = X
        invb = []
        try:
            for i in range(len(L) - 1):
                hid = 'lin' if i == len(L) - 2 and case['out'] == 'lin' else 'sig'
                c = np.zeros(L[i])
                for _ in range(case['epochs']):
                    Ws[i], bs[i], c = _cd(Ws[i], bs[i], c, [cur], _cfg(case), case['mode'], hid, 'lin' if i == 0 else 'sig')
                invb.append(c)
                z = cur.dot(Ws[i].T) + bs[i]
                cur = _sig(z) if hid == 'sig' else z
        except _Tie:
            h.discard()
        if not all(np.isfinite(w).all() and abs(w).max() < 1e3 for w in Ws):
            h.discard()
        gW, gb = parts()
        for i in range(len(L) - 1):
            h.close(gW[i], Ws[i], 'weights of layer pair %d' % i, rtol=1e-6, atol=1e-8)
            h.close(gb[i], bs[i], 'biases of layer pair %d' % i, rtol=1e-6, atol=1e-8)
            h.close(t.invRbms[i].biasParams, invb[i], 'reconstruction biases', rtol=1e-6, atol=1e-8)
            h.close(t.invRbms[i].params, Ws[i].T.flatten(), 'reconstruction weights', rtol=1e-6, atol=1e-8)
            h.close(t.rbms[i].params, Ws[i].flatten(), 'machines kept', rtol=1e-6, atol=1e-8)
        h.eq(len(t.rbms), len(L) - 1, 'one machine per pair of layers')
        h.close(np.array([net.activate(x) for x in X]), cur, 'activation of the trained network', rtol=1e-6, atol=1e-8)
    # the parameter array of the network is the one its connections use
    net.params[:] = 0.0
    h.close(net.activate(X[0]), np.full(L[-1], 0.5 if case['out'] == 'sig' else 0.0), 'the parameter array stays connected')
    h.label('layers%d' % len(L))
    if len(L) > 2:
        h.nontrivial()


FACETS = {'cd': {'gen': gen_cd, 'run': run_cd, 'quick': 500, 'thorough': 10000},
          'sampler': {'gen': gen_sampler, 'run': run_sampler, 'quick': 40, 'thorough': 600},
          'dbn': {'gen': gen_dbn, 'run': run_dbn, 'quick': 300, 'thorough': 6000}}
