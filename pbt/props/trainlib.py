"""shared by C17-C19: networks, data sets and reference gradients for trainers."""


def spec(st, maxseq=3, maxlen=3, kinds=('sup', 'seq', 'imp')):
    v = st.integers(-8, 8).map(lambda i: i / 8.0)
    return {'kind': st.sampled_from(kinds), 'seqs': st.lists(st.lists(st.lists(v, min_size=6, max_size=6), min_size=1, max_size=maxlen), min_size=1, max_size=maxseq),
            'sizes': st.lists(st.integers(1, 2), min_size=2, max_size=3), 'hidden': st.sampled_from(['sigmoid', 'tanh', 'linear']), 'bias': st.booleans(), 'rec': st.sampled_from([True, True, False]),
            'p0': st.integers(0, 10 ** 6)}


def make(case):
    import numpy as np
    from random import Random
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.structure import SigmoidLayer, TanhLayer, LinearLayer, FullConnection
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
    kind = case['kind']
    rec = isrec(case)
    net = buildNetwork(*case['sizes'], hiddenclass={'sigmoid': SigmoidLayer, 'tanh': TanhLayer, 'linear': LinearLayer}[case['hidden']], bias=case['bias'], recurrent=rec)
    if rec:
        net.addRecurrentConnection(FullConnection(net['hidden0'], net['hidden0'], name='recurrent'))
        net.sortModules()
    rnd = Random(case['p0'])
    net._setParameters(np.array([round(rnd.uniform(-1, 1), 3) for _ in range(net.paramdim)]))
    di, dt = case['sizes'][0], case['sizes'][-1]
    return net, dataset(case, di, dt), sequences(case, di, dt)


def isrec(case):
    return case['rec'] and case['kind'] != 'sup' and len(case['sizes']) > 2


def sequences(case, di, dt):
    import numpy as np
    seqs = [[(np.array(r[:di]), np.array(r[2:2 + dt])) + ((np.array([abs(x) + .25 for x in r[4:4 + dt]]),) if case['kind'] == 'imp' else ()) for r in q] for q in case['seqs']]
    if case['kind'] != 'sup' and not isrec(case):
        seqs = [q[:1] for q in seqs]  # feed-forward networks have no time axis
    if case['kind'] == 'sup':
        seqs = [[s] for q in seqs for s in q][:3]
    return seqs


def dataset(case, di, dt):
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
    d = {'sup': SupervisedDataSet, 'seq': SequentialDataSet, 'imp': ImportanceDataSet}[case['kind']](di, dt)
    for q in sequences(case, di, dt):
        if case['kind'] != 'sup':
            d.newSequence()
        for s in q:
            d.addSample(*s)
    return d


def gradient(net, p, seq):
    """(descent direction, error, weight of the error) of one sequence at parameters p; net is scratch"""
    import numpy as np
    net._setParameters(np.array(p))
    net.reset()
    net.resetDerivatives()
    outs = [net.activate(s[0]).copy() for s in seq]
    err, pond = 0.0, 0.0
    for s, o in reversed(list(zip(seq, outs))):
        w = s[2] if len(s) > 2 else np.ones(len(o))
        e = s[1] - o
        err += 0.5 * float(np.sum(w * e ** 2))
        pond += float(np.sum(w))
        net.backActivate(e * w)
    g = net.derivs.copy()
    net.resetDerivatives()
    return g, err, pond
