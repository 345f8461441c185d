"""C17: back-propagation training follows the documented gradient descent."""
import itertools
from . import trainlib as L
RULE = ("small feed-forward and recurrent networks on 1-3 sequences of supervised, sequential and importance data, histories of 1-5 training calls, external parameter "
        "changes and other data sets under random learning rate, decay, momentum, weight decay and batch mode; mixture density networks; the plain gradient descent object; "
        "non-trivial: at least two parameter updates and a non-zero gradient")
ASSUMPTIONS = ["the gradients are those of C02/C03 (taken from a copy of the network)", "the order of sequences within an online epoch is free: some order has to explain the result"]


def gen(st):
    op = st.one_of(st.just('train'), st.just('train'), st.just('epochs'), st.just('set'), st.just('copyback'), st.just('other'))
    return st.fixed_dictionaries(dict(L.spec(st), lr=st.sampled_from([0.01, 0.1, 0.3]), decay=st.sampled_from([1.0, 1.0, 0.9, 0.5]), momentum=st.sampled_from([0.0, 0.0, 0.3, 0.9]),
                                      wd=st.sampled_from([0.0, 0.0, 0.01, 0.2]), batch=st.booleans(), ops=st.lists(op, min_size=1, max_size=5), defaults=st.booleans(),
                                      other=st.lists(st.lists(st.lists(st.integers(-8, 8).map(lambda i: i / 8.0), min_size=6, max_size=6), min_size=1, max_size=2), min_size=1, max_size=2)))


def run(case, h):
    import numpy as np
    from pybrain.supervised.trainers import BackpropTrainer
    net, d, seqs = L.make(case)
    ref = net.copy()
    kw = dict(learningrate=case['lr'], lrdecay=case['decay'], momentum=case['momentum'], weightdecay=case['wd'], batchlearning=case['batch'])
    lr, decay, mom, wd, batch = case['lr'], case['decay'], case['momentum'], case['wd'], case['batch']
    if case['defaults']:
        kw, lr, decay, mom, wd, batch = {}, 0.01, 1.0, 0.0, 0.0, False
    tr = BackpropTrainer(net, d, **kw)
    other = dict(case, seqs=case['other'])
    d2, seqs2 = L.dataset(other, net.indim, net.outdim), L.sequences(other, net.indim, net.outdim)
    cache = {}

    def grad(p, i, ss):
        k = (tuple(p), i, ss is seqs)
        if k not in cache:
            cache[k] = L.gradient(ref, p, ss[i])
        return cache[k]

    # states: (params, momentum vector, learning rate); more than one while the order of sequences is not determined
    states = [(np.array(net.params), np.zeros(net.paramdim), lr)]
    epochs, updates, some = 0, 0, False

    def epoch(state, ss):
        res = []
        orders = [tuple(range(len(ss)))] if batch else list(itertools.permutations(range(len(ss))))
        for o in orders:
            p, v, a = state
            err = pond = 0.0
            g0 = 0
            for i in o:
                g, e, w = grad(p, i, ss)
                err, pond = err + e, pond + w
                if batch:
                    g0 = g0 + g
                else:
                    v = mom * v + a * (g - wd * p)
                    a *= decay
                    p = p + v
            if batch:
                v = mom * v + a * (g0 - wd * p)
                a *= decay
                p = p + v
            res.append(((p, v, a), err / pond))
        return res

    cur, curseqs = d, seqs
    for k, o in enumerate(case['ops']):
        what = 'step %d %s' % (k, o)
        if o in ('set', 'copyback'):
            p = np.array(net.params) * 0.5 + 0.125 if o == 'set' else np.array(states[0][0]) - 0.25
            if o == 'set':
                net._setParameters(p.copy())
            else:
                net.params[:] = p
            states = [(p.copy(), v, a) for _, v, a in states]
            continue
        n = 2 if o == 'epochs' else 1
        if o == 'other':
            cur, curseqs = (d2, seqs2) if cur is d else (d, seqs)
            tr.trainOnDataset(cur)
            got = None
        elif o == 'epochs':
            tr.trainEpochs(2)
            got = None
        else:
            got = tr.train()
        for _ in range(n):
            nxt = [(s, e) for st_ in states for s, e in epoch(st_, curseqs)]
            states = [s for s, e in nxt]
            if len(states) > 80:
                seen, keep = set(), []
                for s in states:
                    key = tuple(np.round(np.concatenate([s[0], s[1]]), 9))
                    if key not in seen:
                        seen.add(key)
                        keep.append(s)
                states = keep
        ok = [(s, e) for s, e in zip(states, [e for _, e in nxt] if n == 1 else [None] * len(states)) if np.allclose(s[0], net.params, rtol=1e-7, atol=1e-9)]
        if not ok:
            h.fail('%s: parameters after training are %s, expected %s' % (what, list(net.params), list(states[0][0])))
        if got is not None:
            h.check(any(e is not None and abs(got - e) <= 1e-9 + 1e-7 * abs(e) for s, e in ok) or len(states) > 80, '%s: reported error %r, expected %r' % (what, got, ok[0][1]))
        states = [s for s, e in ok]
        epochs += n
        updates += n * (1 if batch else len(curseqs))
        some = some or any(np.abs(s[1]).max() > 1e-6 for s in states)
        h.eq(tr.totalepochs, epochs, what + ': number of epochs')
    h.label(case['kind'], 'batch' if batch else 'online', 'recurrent' if type(net).__name__.startswith('Rec') else 'ff')
    h.nontrivial(updates >= 2 and some)


def gen_mix(st):
    v = st.integers(-8, 8).map(lambda i: i / 8.0)
    return st.fixed_dictionaries({'di': st.integers(1, 2), 'dim': st.integers(1, 2), 'mix': st.integers(1, 3), 'rows': st.lists(st.lists(v, min_size=4, max_size=4), min_size=1, max_size=4),
                                  'w': st.integers(0, 10 ** 6), 'lr': st.sampled_from([0.01, 0.1]), 'seq': st.just(False), 'rprop': st.booleans()})


def run_mix(case, h):
    import numpy as np
    from random import Random
    from pybrain.structure import FeedForwardNetwork, LinearLayer, BiasUnit, FullConnection
    from pybrain.structure.modules.mixturedensity import MixtureDensityLayer
    from pybrain.supervised.trainers.mixturedensity import BackpropTrainerMix, RPropMinusTrainerMix
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet
    di, D, K = case['di'], case['dim'], case['mix']
    net = FeedForwardNetwork()
    a, b, m = LinearLayer(di, name='a'), BiasUnit(name='b'), MixtureDensityLayer(D, name='m', mix=K)
    net.addInputModule(a)
    net.addModule(b)
    net.addOutputModule(m)
    c1, c2 = FullConnection(a, m), FullConnection(b, m)
    net.addConnection(c1)
    net.addConnection(c2)
    net.sortModules()
    U = K * (D + 2)
    h.eq(net.outdim, U, 'number of mixture parameters')
    rnd = Random(case['w'])
    W0 = np.array([rnd.uniform(-.7, .7) for _ in range(U * (di + 1))])
    c1.params[:], c2.params[:] = W0[:U * di], W0[U * di:]
    d = (SequentialDataSet if case['seq'] else SupervisedDataSet)(di, D)
    rows = [(np.array(r[:di]), np.array(r[2:2 + D])) for r in case['rows']]
    for i, t in rows:
        d.addSample(i, t)

    def nll(W):
        tot = 0
        for i, t in rows:
            y = W[:U * di].reshape(U, di).dot(i) + W[U * di:]
            c = np.exp(y[:K])
            c = c / np.sum(c)
            s = np.exp(y[K:2 * K])
            mu = y[2 * K:].reshape(K, D)
            p = 0
            for k in range(K):
                p = p + c[k] * np.exp(-0.5 * np.sum((t - mu[k]) ** 2) / s[k] ** 2) / ((2 * np.pi) ** (D / 2.0) * s[k] ** D)
            tot = tot - np.log(p)
        return tot
    y = net.activate(rows[0][0])
    h.close(sum(y[:K]), 1.0, 'mixing coefficients sum to one')
    h.check(np.all(np.array(y[:2 * K]) > 0), 'coefficients and deviations are positive')
    g = np.zeros(len(W0))
    for j in range(len(W0)):
        z = W0.astype(complex)
        z[j] += 1e-20j
        g[j] = nll(z).imag / 1e-20
    nseq = 1.0 if case['seq'] else float(len(rows))
    if case['rprop']:
        tr = RPropMinusTrainerMix(net, dataset=d, delta0=0.05)
    else:
        tr = BackpropTrainerMix(net, dataset=d, learningrate=case['lr'], batchlearning=True)
    got = tr.train()
    h.close(got, nll(W0) / nseq, 'reported error', rtol=1e-6)
    new = np.concatenate([c1.params, c2.params])
    if case['rprop']:
        sure = np.abs(g) > 1e-9
        h.close((new - W0)[sure], (-0.05 * np.sign(g))[sure], 'first Rprop step')
    else:
        h.close(new, W0 - case['lr'] * g, 'parameters after a batch step', rtol=1e-6, atol=1e-9)
    h.nontrivial(np.abs(g).max() > 1e-6 and len(rows) >= 2)


def gen_many(st):
    v = st.integers(-8, 8).map(lambda i: i / 8.0)
    return st.fixed_dictionaries({'rows': st.lists(st.tuples(v, v, st.integers(1, 8).map(lambda i: i / 4.0), v, v), min_size=1, max_size=24), 'kind': st.sampled_from(['sup', 'seq', 'imp']),
                                  'batch': st.booleans(), 'lr': st.sampled_from([0.01, 0.1, 0.3]), 'mom': st.sampled_from([0.0, 0.5]), 'wd': st.sampled_from([0.0, 0.1]), 'epochs': st.integers(1, 3)})


def run_many(case, h):
    # sample i only touches weight i, so that the parameters do not depend on the order of the samples
    import numpy as np
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
    from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection
    from pybrain.supervised.trainers import BackpropTrainer
    R = [tuple(r) for r in case['rows']]
    n = len(R)
    d = {'sup': SupervisedDataSet, 'seq': SequentialDataSet, 'imp': ImportanceDataSet}[case['kind']](n, 1)
    for i, r in enumerate(R):
        x = [0.0] * n
        x[i] = r[0]
        if case['kind'] != 'sup':
            d.newSequence()
        d.addSample(x, [r[1]], *([[r[2]]] if case['kind'] == 'imp' else []))
    net = FeedForwardNetwork()
    a, b = LinearLayer(n, name='a'), LinearLayer(1, name='b')
    net.addInputModule(a)
    net.addOutputModule(b)
    c = FullConnection(a, b)
    net.addConnection(c)
    net.sortModules()
    w = np.array([r[3] for r in R])
    c.params[:] = w
    batch = case['batch']
    mom, wd = (case['mom'], case['wd']) if batch else (0.0, 0.0)
    tr = BackpropTrainer(net, d, learningrate=case['lr'], momentum=mom, weightdecay=wd, batchlearning=batch)
    x, t = np.array([r[0] for r in R]), np.array([r[1] for r in R])
    im = np.array([r[2] if case['kind'] == 'imp' else 1.0 for r in R])
    v = np.zeros(n)
    for k in range(case['epochs']):
        e = t - x * w
        err = 0.5 * float(np.sum(im * e ** 2)) / float(np.sum(im))
        v = mom * v + case['lr'] * (x * e * im - wd * w)
        w = w + v
        h.close(tr.train(), err, 'error of epoch %d over %d samples' % (k, n))
        h.close(net.params, w, 'weights after epoch %d over %d samples' % (k, n))
    h.label(case['kind'], 'batch' if batch else 'online')
    h.nontrivial(n >= 4 and float(np.abs(v).max()) > 1e-6)


FACETS = {
    'many': {'gen': gen_many, 'run': run_many, 'quick': 500, 'thorough': 8000},
    'backprop': {'gen': gen, 'run': run, 'quick': 2000, 'thorough': 30000},
    'mixture': {'gen': gen_mix, 'run': run_mix, 'quick': 600, 'thorough': 8000},
}
