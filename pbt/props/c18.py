"""C18: RProp training and the gradient descent object follow their update rules."""
from . import trainlib as L
RULE = ("small feed-forward and recurrent networks trained with RProp- through histories of 1-8 epochs, external parameter changes and data set changes under random "
        "settings; the gradient descent object driven by 1-12 random gradients in both modes; non-trivial: some width grew or shrank / at least 3 gradients")
ASSUMPTIONS = ["a gradient component of rounding size ends the comparison of a history", "the gradients are those of C02/C03 (taken from a copy of the network)"]


def gen(st):
    op = st.sampled_from(['train', 'train', 'train', 'epochs', 'set', 'inplace', 'other', 'big'])
    return st.fixed_dictionaries(dict(L.spec(st), etam=st.sampled_from([None, 0.5, 0.25, 0.9]), etap=st.sampled_from([None, 1.2, 2.0, 1.5]), dmin=st.sampled_from([None, 1e-6, 0.04]),
                                      dmax=st.sampled_from([None, 5.0, 0.15, 0.3]), d0=st.sampled_from([None, 0.1, 0.05, 0.5]), wd=st.sampled_from([0.0, 0.0, 0.05]), extra=st.booleans(),
                                      ops=st.integers(1, 8).flatmap(lambda n: st.lists(op, min_size=n, max_size=n)),
                                      other=st.lists(st.lists(st.lists(st.integers(-8, 8).map(lambda i: i / 8.0), min_size=6, max_size=6), min_size=1, max_size=2), min_size=1, max_size=2)))


def run(case, h):
    import numpy as np
    from pybrain.supervised.trainers import RPropMinusTrainer
    net, d, seqs = L.make(case)
    ref = net.copy()
    kw, S = {}, {'etam': 0.5, 'etap': 1.2, 'dmin': 1e-6, 'dmax': 5.0, 'd0': 0.1}
    for k, name in (('etam', 'etaminus'), ('etap', 'etaplus'), ('dmin', 'deltamin'), ('dmax', 'deltamax'), ('d0', 'delta0')):
        if case[k] is not None:
            kw[name] = S[k] = case[k]
    if case['wd']:
        kw['weightdecay'] = case['wd']
    if case['extra']:
        kw.update(learningrate=0.7, momentum=0.5, batchlearning=True)
    tr = RPropMinusTrainer(net, dataset=d, **kw)
    other = dict(case, seqs=case['other'])
    d2, seqs2 = L.dataset(other, net.indim, net.outdim), L.sequences(other, net.indim, net.outdim)
    p = np.array(net.params)
    width, last = np.zeros(len(p)) + S['d0'], np.zeros(len(p))
    cur, cs = d, seqs
    epochs, moved, grew, shrunk = 0, False, False, False
    for k, o in enumerate(case['ops']):
        what = 'step %d %s' % (k, o)
        if o in ('set', 'inplace', 'big'):
            p = p * 0.5 + 0.125 if o != 'big' else -2 * p
            if o == 'inplace':
                net.params[:] = p
            else:
                net._setParameters(p.copy())
            continue
        n = 1
        got = None
        if o == 'other':
            cur, cs = (d2, seqs2) if cur is d else (d, seqs)
            tr.trainOnDataset(cur)
        elif o == 'epochs':
            n = 2
            tr.trainEpochs(2)
        else:
            got = tr.train()
        for _ in range(n):
            g, err, pond = np.zeros(len(p)), 0.0, 0.0
            for s in cs:
                gi, e, w = L.gradient(ref, p, s)
                g, err, pond = g + gi, err + e, pond + w
            g = g - case['wd'] * p
            if np.any((np.abs(g) < 1e-10) & (g != 0)) or np.any((np.abs(last) < 1e-10) & (last != 0)):
                h.label('rounding')
                return h.nontrivial(epochs > 2)
            p = p + np.sign(g) * width
            sw = last * g
            grew, shrunk = grew or bool((sw > 0).any()), shrunk or bool((sw < 0).any())
            width = np.where(sw > 0, width * S['etap'], np.where(sw < 0, width * S['etam'], width))
            width = np.minimum(np.maximum(width, S['dmin']), S['dmax'])
            last = np.where(sw < 0, 0.0, g)
        epochs += n
        h.close(net.params, p, what + ': parameters', rtol=1e-9, atol=1e-10)
        p = np.array(net.params)
        h.eq(tr.totalepochs, epochs, what + ': number of epochs')
        if got is not None:
            h.close(got, err / pond, what + ': reported error', rtol=1e-9)
    h.label(*[x for x, y in (('grew', grew), ('shrunk', shrunk)) if y])
    h.nontrivial(grew or shrunk)


def gen_desc(st):
    g = st.sampled_from([0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -3.0, 1.0])
    return st.fixed_dictionaries({'n': st.integers(1, 4), 'v': st.integers(0, 1000), 'rprop': st.booleans(), 'grads': st.integers(1, 12).flatmap(lambda n: st.lists(st.lists(g, min_size=4, max_size=4), min_size=n, max_size=n)),
                                  'alpha': st.sampled_from([0.1, 0.5, 1e-3]), 'decay': st.sampled_from([1.0, 0.9]), 'mom': st.sampled_from([0.0, 0.1, 0.9]), 'd': st.sampled_from([[5.0, 0.01, 0.1], [0.2, 0.05, 0.1], [1.0, 0.1, 0.5]]),
                                  'eta': st.sampled_from([[1.2, 0.5], [2.0, 0.25]]), 'err': st.booleans(), 'as': st.sampled_from(['array', 'list', 'tuple']), 'reinit': st.integers(0, 11), 'defaults': st.booleans(), 'alias': st.booleans()})


def run_desc(case, h):
    import numpy as np
    from pybrain.auxiliary import GradientDescent
    n = case['n']
    gd = GradientDescent()
    alpha, decay, mom = 0.1, 1.0, 0.0
    (dmax, dmin, d0), (ep, em) = (5.0, 0.01, 0.1), (1.2, 0.5)
    gd.rprop = case['rprop']
    if not case['defaults']:
        gd.alpha, gd.alphadecay, gd.momentum = alpha, decay, mom = case['alpha'], case['decay'], case['mom']
        gd.deltamax, gd.deltamin, gd.deltanull = dmax, dmin, d0 = case['d']
        gd.etaplus, gd.etaminus = ep, em = case['eta']
    v = np.arange(n) * 0.25 - case['v'] / 100.0
    orig = v.copy()
    gd.init(v)
    p = v.copy()
    width, last, mv = np.zeros(n) + d0, np.zeros(n), np.zeros(n)
    for k, g in enumerate(case['grads']):
        g = np.array(g[:n])
        if k == case['reinit'] and k:
            gd.init(p)
            width, last, mv = np.zeros(n) + d0, np.zeros(n), np.zeros(n)
        arg = g.copy() if case['as'] == 'array' else list(g) if case['as'] == 'list' else tuple(g)
        f = gd.descent if k % 3 == 2 else gd
        got = f(arg, 1.0) if case['err'] else f(arg)
        h.eq(list(arg), list(g), 'gradient %d after the call' % k)
        if case['rprop']:
            p = p + np.sign(g) * width
            sw = last * g
            width = np.minimum(np.maximum(np.where(sw > 0, width * ep, np.where(sw < 0, width * em, width)), dmin), dmax)
            last = np.where(sw < 0, 0.0, g)
        else:
            mv = mom * mv + alpha * g
            alpha *= decay
            p = p + mv
        h.close(got, p, 'values after gradient %d' % k, rtol=1e-12, atol=1e-12)
    h.eq(list(v), list(orig), 'the array of initial values')
    h.raises((AssertionError, ValueError), lambda: gd([1.0] * (n + 1)), 'a gradient of another length is accepted')
    h.nontrivial(len(case['grads']) >= 3)


FACETS = {
    'rprop': {'gen': gen, 'run': run, 'quick': 2500, 'thorough': 40000},
    'descent': {'gen': gen_desc, 'run': run_desc, 'quick': 800, 'thorough': 10000},
}
