"""C03: recurrent networks and (multi-dimensional) LSTM layers over sequences."""
from . import netlib as N
from .c02 import compare

RULE = ("random recurrent networks (2-5 modules incl. LSTM with/without peepholes and MDLSTM, 1-3 delayed connections, also shared and "
        "sliced), run over 1-3 sequences of 1-9 steps with resets in between; non-trivial: a delayed connection or LSTM and a sequence of "
        "at least 3 steps (so buffers have grown)")
ASSUMPTIONS = ["oracle: pure-Python unrolled recurrence; gradients by the complex-step method through the whole sequence"]


def gen(st):
    return st.fixed_dictionaries({'net': N.net_strategy(st, recurrent=True, lstm=True, maxmods=5, maxdim=2, scales=(0.7, 0.3)),
                                  'lens': st.lists(st.integers(1, 9), min_size=1, max_size=3), 'xs': st.integers(0, 10 ** 6),
                                  'back': st.booleans(), 'copy': st.booleans()})


def gen_lstm(st):
    d = gen(st)
    return st.fixed_dictionaries({
        'net': N.net_strategy(st, kinds=['lin', 'tanh'], ckinds=('full',), recurrent=True, lstm=True, maxmods=4, maxdim=2, scales=(1.0,)),
        'lens': st.lists(st.integers(1, 6), min_size=1, max_size=2), 'xs': st.integers(0, 10 ** 6), 'back': st.just(True), 'copy': st.booleans()})


def run(case, h):
    spec = case['net']
    P = N.draw_params(spec)
    B = N.build(spec, P, recurrent=True)
    net = B.net
    d, o = N.indim(spec), N.outdim(spec)
    if net.paramdim:
        net.resetDerivatives()
    seqs, errs, inerrs = [], [], []
    for s, T in enumerate(case['lens']):
        seq = [N.values(case['xs'] * 100 + s * 10 + t, d) for t in range(T)]
        want = N.reference(spec, P, seq)
        if any(abs(v) > 1e8 for w in want for v in w):
            h.discard()
        net.reset()
        for t, x in enumerate(seq):
            h.close(net.activate(x), want[t], 'output at step %d of sequence %d' % (t, s), rtol=1e-8, atol=1e-9 * max([1.0] + [abs(v) for v in want[t]]))
        if case['back']:
            err = [N.values(case['xs'] * 100 + 50 + s * 10 + t, o) for t in range(T)]
            ie = [None] * T
            for t in reversed(range(T)):
                ie[t] = net.backActivate(err[t])
            seqs.append(seq)
            errs.append(err)
            inerrs.append(ie)
    if case['back']:
        h.label('backward')
        compare(h, spec, P, B, seqs, errs, inerrs)
    if case['copy']:
        h.label('copy')
        # a copy taken in the middle of a sequence behaves like a fresh network after a reset
        cp = net.copy()
        cp.reset()
        for t, x in enumerate(seq):
            h.close(cp.activate(x), want[t], 'output of a copy at step %d' % t, rtol=1e-8, atol=1e-9 * max([1.0] + [abs(v) for v in want[t]]))
    for m in spec['mods']:
        if m['k'] in ('lstm', 'mdlstm'):
            h.label(m['k'] + ('+peep' if m['peep'] else ''))
    for c in spec['rec']:
        h.label('rec:' + ('shared' if c['mother'] is not None else c['k']))
    h.nontrivial(max(case['lens']) >= 3)


# forget mode: same outputs, constant memory
def gen_forget(st):
    return st.fixed_dictionaries({'net': N.net_strategy(st, recurrent=True, maxmods=5, maxdim=2, scales=(0.5,)),
                                  'T': st.integers(1, 12), 'xs': st.integers(0, 10 ** 6)})


def run_forget(case, h):
    from pybrain.structure import RecurrentNetwork
    spec = case['net']
    P = N.draw_params(spec)
    B = N.build(spec, P, recurrent=True, netclass=lambda: RecurrentNetwork(forget=True))
    net = B.net
    seq = [N.values(case['xs'] * 100 + t, N.indim(spec)) for t in range(case['T'])]
    want = N.reference(spec, P, seq)
    if any(abs(v) > 1e8 for w in want for v in w):
        h.discard()
    for rep in range(2):
        net.reset()
        for t, x in enumerate(seq):
            h.close(net.activate(x), want[t], 'output of the forgetting network at step %d' % t, rtol=1e-8, atol=1e-9 * max([1.0] + [abs(v) for v in want[t]]))
    h.nontrivial(case['T'] >= 4)


# datasets of sequences: activation, error and one batch step of training
def gen_ds(st):
    return st.fixed_dictionaries({'net': N.net_strategy(st, recurrent=True, lstm=True, maxmods=4, maxdim=2, scales=(0.5,)),
                                  'lens': st.lists(st.integers(1, 5), min_size=1, max_size=4), 'xs': st.integers(0, 10 ** 6), 'imp': st.booleans()})


def run_ds(case, h):
    from pybrain.datasets import SequentialDataSet, ImportanceDataSet
    from pybrain.supervised.trainers import BackpropTrainer
    spec = case['net']
    P = N.draw_params(spec)
    if not N.npar(P):
        h.discard()
    B = N.build(spec, P, recurrent=True)
    net = B.net
    ds = (ImportanceDataSet if case['imp'] else SequentialDataSet)(net.indim, net.outdim)
    seqs, errs, tot, totw = [], [], 0.0, 0.0
    for s, T in enumerate(case['lens']):
        ds.newSequence()
        seq = [N.values(case['xs'] * 100 + s * 10 + t, net.indim) for t in range(T)]
        out = N.reference(spec, P, seq)
        err = []
        for t in range(T):
            y = N.values(case['xs'] * 100 + 50 + s * 10 + t, net.outdim)
            w = [1.0] * net.outdim
            if case['imp']:
                w = [abs(v) for v in N.values(case['xs'] * 100 + 70 + s * 10 + t, net.outdim)]
                ds.addSample(seq[t], y, w)
            else:
                ds.addSample(seq[t], y)
            err.append([c * (a - b) for a, b, c in zip(y, out[t], w)])
            tot += 0.5 * sum(c * (a - b) ** 2 for a, b, c in zip(y, out[t], w))
            totw += sum(w)
        seqs.append(seq)
        errs.append(err)
    tol = dict(rtol=1e-7, atol=1e-9)
    if case['lens'][0] % 2:
        # running over a plain table of samples: one sequence from a reset state, whatever happened before
        from pybrain.datasets import SupervisedDataSet
        flat = [x for q in seqs for x in q]
        sup = SupervisedDataSet(net.indim, net.outdim)
        for x in flat:
            sup.addSample(x, [0.0] * net.outdim)
        want = N.reference(spec, P, flat)
        net.activate(flat[-1])
        t2 = dict(rtol=1e-7, atol=1e-9 * max([1.0] + [abs(v) for w in want for v in w]))
        h.close(net.activateOnDataset(sup), want, 'activateOnDataset after other activations', **t2)
        kept = [net.activate(x) for x in flat]
        h.close(kept, want, 'outputs after activateOnDataset', **t2)
        h.label('table')
    h.close(ds.evaluateModuleMSE(net), tot / totw, 'evaluateModuleMSE', **tol)
    before = dict((k, list(N.container(B, k).params)) for k in P)
    lr = 1e-3
    tr = BackpropTrainer(net, ds, learningrate=lr, batchlearning=True)
    h.close(tr.testOnData(ds), tot / totw, 'testOnData', **tol)
    h.close(tr.train(), tot / totw, 'error reported by train()', **tol)
    g = dict((k, [sum(N.cstep(spec, P, s, e, key=k, idx=i) for s, e in zip(seqs, errs)) for i in range(len(P[k]))]) for k in P)
    scale = max([1.0] + [abs(v) for k in g for v in g[k]])
    for k in P:
        h.close([a - b for a, b in zip(N.container(B, k).params, before[k])], [lr * v for v in g[k]],
                'batch step for the parameters of %s' % k, rtol=1e-6, atol=1e-10 * scale)
    h.nontrivial(len(case['lens']) > 1 and max(case['lens']) > 1)


def gen_nested(st):
    return st.fixed_dictionaries({'di': st.integers(1, 2), 'dh': st.integers(1, 3), 'do': st.integers(1, 2), 'deep': st.booleans(), 'T': st.integers(1, 12), 'seed': st.integers(0, 9999),
                                  'runs': st.integers(1, 3), 'rec': st.booleans(), 'forget': st.sampled_from([False, False, True])})


def run_nested(case, h):
    """a feed-forward network as a module of a recurrent one, against the recurrence written out, with numerical derivatives"""
    import numpy as np
    from pybrain.structure import RecurrentNetwork, FeedForwardNetwork, LinearLayer, TanhLayer, FullConnection
    di, dh, do, T = case['di'], case['dh'], case['do'], case['T']
    r = np.random.RandomState(case['seed'])

    def inner(name, i, o):
        n = FeedForwardNetwork(name=name)
        a, b, c = LinearLayer(i, name=name + 'a'), TanhLayer(dh, name=name + 'b'), LinearLayer(o, name=name + 'c')
        n.addInputModule(a)
        n.addModule(b)
        n.addOutputModule(c)
        cs = [FullConnection(a, b, name=name + 'ab'), FullConnection(b, c, name=name + 'bc')]
        for c in cs:
            n.addConnection(c)
        n.sortModules()
        return n, cs
    sub, cs = inner('sub', 2, 2)
    mid, mcs = sub, cs
    if case['deep']:        # one more level of nesting
        mid = FeedForwardNetwork(name='mid')
        mid.addInputModule(sub)
        out2 = TanhLayer(2, name='mid2')
        mid.addOutputModule(out2)
        mcs = cs + [FullConnection(sub, out2, name='midc')]
        mid.addConnection(mcs[-1])
        mid.sortModules()
    forget = case.get('forget')
    net = RecurrentNetwork(forget=True, name='net') if forget else RecurrentNetwork(name='net')
    i, o = LinearLayer(di, name='i'), LinearLayer(do, name='o')
    net.addInputModule(i)
    net.addModule(mid)
    net.addOutputModule(o)
    ci, co = FullConnection(i, mid, name='ci'), FullConnection(mid, o, name='co')
    net.addConnection(ci)
    net.addConnection(co)
    rec = []
    if case['rec']:
        rec = [FullConnection(mid, mid, name='cr')]
        net.addRecurrentConnection(rec[0])
    net.sortModules()
    net._setParameters(r.normal(0, 0.7, net.paramdim))

    def mat(c):
        return np.array(c.params).reshape(c.outdim, c.indim)

    def forward(xs, E=None):
        prev, outs = np.zeros(2), []
        for t, x in enumerate(xs):
            a = mat(ci).dot(x) + (mat(rec[0]).dot(prev) if rec and t else 0)
            y = mat(mcs[1]).dot(np.tanh(mat(mcs[0]).dot(a)))
            if case['deep']:
                y = np.tanh(mat(mcs[2]).dot(y))
            prev = y
            outs.append(mat(co).dot(y))
        return np.array(outs)
    for k in range(case['runs']):
        xs = r.normal(0, 1, (T, di))
        E = r.normal(0, 1, (T, do))
        net.reset()
        got = np.array([net.activate(x) for x in xs])
        h.close(got, forward(xs), 'outputs of run %d' % k)
        if forget:
            continue
        net.resetDerivatives()
        inerr = [None] * T
        for t in reversed(range(T)):
            inerr[t] = net.backActivate(E[t])
        eps = 1e-5
        p0 = net.params.copy()
        num = np.zeros(len(p0))
        for j in range(len(p0)):
            for s in (1, -1):
                p = p0.copy()
                p[j] += s * eps
                net._setParameters(p)
                num[j] += s * (forward(xs) * E).sum() / (2 * eps)
        net._setParameters(p0)
        h.close(net.derivs, num, 'derivatives of run %d' % k, rtol=1e-4, atol=1e-5)
        numx = np.zeros((T, di))
        for t in range(T):
            for j in range(di):
                for s in (1, -1):
                    x2 = xs.copy()
                    x2[t, j] += s * eps
                    numx[t, j] += s * (forward(x2) * E).sum() / (2 * eps)
        h.close(np.array(inerr), numx, 'input errors of run %d' % k, rtol=1e-4, atol=1e-5)
    if case['deep']:
        h.label('deep')
    if forget:
        h.label('forget')
    h.nontrivial(T >= 3 and case['rec'])


FACETS = {
    'net': {'gen': gen, 'run': run, 'quick': 1600, 'thorough': 24000},
    'lstm': {'gen': gen_lstm, 'run': run, 'quick': 1200, 'thorough': 16000},
    'forget': {'gen': gen_forget, 'run': run_forget, 'quick': 600, 'thorough': 8000},
    'dataset': {'gen': gen_ds, 'run': run_ds, 'quick': 600, 'thorough': 8000},
    'nested': {'gen': gen_nested, 'run': run_nested, 'quick': 250, 'thorough': 3000},
}
