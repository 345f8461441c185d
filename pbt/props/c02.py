"""C02: back-propagated derivatives of feed-forward networks are the exact gradient."""
from . import netlib as N

RULE = ("random differentiable DAG networks as in C01 (without softmax/subsampling, whose backward pass is documented not to be a "
        "gradient or is absent), 1-3 samples back-propagated one after the other; non-trivial: at least 4 parameters, 3 modules, and "
        "a shared, sliced, permuted or gated element or a module with several successors")
ASSUMPTIONS = ["the oracle differentiates an independent reference evaluator by the complex-step method (exact to rounding)"]


def gen(st):
    return st.fixed_dictionaries({'net': N.net_strategy(st, scales=(1.0, 0.3)), 'n': st.integers(1, 3), 'xs': st.integers(0, 10 ** 6),
                                  'reset': st.integers(0, 2)})


def compare(h, spec, P, B, seqs, errs, inerrs, inputs_only=False):
    """derivs of all parameters against the complex step, summed over the sequences; inerrs: per sequence per step"""
    keys = [] if inputs_only else [(k, i) for k in sorted(P) for i in range(len(P[k]))]
    import random
    r = random.Random(spec['vseed'])
    if len(keys) > 24:
        keys = r.sample(keys, 24)
    tot = []
    for k, i in keys:
        tot.append(sum(N.cstep(spec, P, s, e, key=k, idx=i) for s, e in zip(seqs, errs)))
    scale = max([1.0] + [abs(v) for v in tot])
    got = [float(N.container(B, k).derivs[i]) for k, i in keys]
    for (k, i), g, w in zip(keys, got, tot):
        if not (abs(g - w) <= 1e-8 * scale + 1e-7 * abs(w)):
            h.fail('derivative of parameter %d of %s is %r, exact gradient %r' % (i, k, g, w))
    if keys:
        D = dict((k, [r.uniform(-1, 1) for _ in P[k]]) for k in P)
        w = sum(N.cstep(spec, P, s, e, direction=D) for s, e in zip(seqs, errs))
        g = sum(d * float(x) for k in P for d, x in zip(D[k], N.container(B, k).derivs))
        h.close(g, w, 'directional derivative over all parameters', rtol=1e-6, atol=1e-7 * scale)
    for s, e, ie in zip(seqs, errs, inerrs):
        for t in range(len(s)):
            if ie[t] is None:
                continue
            w = [N.cstep(spec, P, s, e, t=t, i=i) for i in range(len(s[t]))]
            h.close(ie[t], w, 'error propagated to the input of step %d' % t, rtol=1e-6, atol=1e-8 * max([1.0] + [abs(v) for v in w]))


def run(case, h):
    spec = case['net']
    P = N.draw_params(spec)
    B = N.build(spec, P)
    net = B.net
    if net.paramdim:
        net.resetDerivatives()
    seqs, errs, inerrs = [], [], []
    for k in range(case['n']):
        x = N.values(case['xs'] * 10 + k, N.indim(spec))
        e = N.values(case['xs'] * 10 + 5 + k, N.outdim(spec))
        h.eq(len(net.activate(x)), len(e), 'output length')
        ie = net.backActivate(e)
        seqs.append([x])
        errs.append([e])
        inerrs.append([ie])
        if case['reset'] == k and net.paramdim:
            # forget what was accumulated so far
            net.resetDerivatives()
            h.check(not net.derivs.any(), 'derivatives are zero after resetDerivatives')
            keep = k + 1
    start = keep if case['reset'] < case['n'] and net.paramdim else 0
    compare(h, spec, P, B, seqs[start:], errs[start:], inerrs[start:])
    if start:
        compare(h, spec, P, B, seqs[:start], errs[:start], inerrs[:start], True)
    if net.paramdim:
        # the flat vector contains exactly the derivatives of the components
        parts = sorted(float(v) for k in P for v in N.container(B, k).derivs)
        h.close(sorted(float(v) for v in net.derivs), parts, 'flat derivative vector')
    succ = {}
    for c in spec['conns']:
        succ[c['i']] = succ.get(c['i'], 0) + 1
        h.label('conn:' + ('shared' if c['mother'] is not None else c['k']))
    for m in spec['mods']:
        h.label('mod:' + m['k'])
    fancy = any(c['mother'] is not None or c['is'] or c['os'] or c['k'] == 'perm' for c in spec['conns']) or \
        any(m['k'] in ('mult', 'gate', 'dgate', 'switch') for m in spec['mods']) or any(v > 1 for v in succ.values())
    h.label('params>0' if N.npar(P) else 'params=0')
    h.nontrivial(N.npar(P) >= 4 and len(spec['mods']) >= 3 and fancy)


# single layers
def gen_layer(st):
    return st.fixed_dictionaries({'k': st.sampled_from(N.DIFF), 'd': st.sampled_from([1, 2, 3, 4, 5, 7, 10]),
                                  'xs': st.lists(st.lists(st.one_of(st.floats(-20, 20, allow_nan=False), st.integers(-2, 2).map(float)), min_size=40, max_size=40), min_size=1, max_size=3)})


def run_layer(case, h):
    m = {'k': case['k'], 'd': case['d']}
    L = N.make_module(m, None)
    i, o = N.dims(m)
    spec = {'mods': [m], 'in': [0], 'out': [0], 'conns': [], 'rec': [], 'mothers': []}
    for x in case['xs']:
        x, e = x[:i], x[20:20 + o]
        if case['k'] == 'relu':
            x = [v or 0.5 for v in x]  # not differentiable at zero
        L.activate(x)
        ie = L.backActivate(e)
        w = [N.cstep(spec, {}, [x], [e], t=0, i=q) for q in range(i)]
        h.close(ie, w, 'input error of a %s layer at %r for output error %r' % (case['k'], x, e), rtol=1e-6, atol=1e-7)
    h.label(case['k'])
    h.nontrivial(any(v for x in case['xs'] for v in x))


# the gradient of the squared error which the backprop trainer computes on a dataset
def gen_trainer(st):
    return st.fixed_dictionaries({'net': N.net_strategy(st, maxmods=5, scales=(0.5,)), 'n': st.integers(1, 4), 'xs': st.integers(0, 10 ** 6),
                                  'imp': st.booleans()})


def run_trainer(case, h):
    from pybrain.datasets import SupervisedDataSet, ImportanceDataSet
    from pybrain.supervised.trainers import BackpropTrainer
    spec = case['net']
    P = N.draw_params(spec)
    if not N.npar(P):
        h.discard()
    B = N.build(spec, P)
    net = B.net
    imp = case['imp']
    ds = (ImportanceDataSet if imp else SupervisedDataSet)(net.indim, net.outdim)
    seqs, errs = [], []
    totw, toterr = 0.0, 0.0
    for k in range(case['n']):
        x = N.values(case['xs'] * 10 + k, net.indim)
        y = N.values(case['xs'] * 10 + 5 + k, net.outdim)
        o = N.reference(spec, P, [x])[0]
        if imp:
            w = [abs(v) for v in N.values(case['xs'] + 31 + k, net.outdim)]
            ds.newSequence()
            ds.addSample(x, y, w)
        else:
            ds.addSample(x, y)
            w = [1.0] * net.outdim
        totw += sum(w)
        toterr += 0.5 * sum(c * (a - b) ** 2 for a, b, c in zip(y, o, w))
        seqs.append([x])
        errs.append([[c * (a - b) for a, b, c in zip(y, o, w)]])
    net.resetDerivatives()
    # public surface: a batch epoch with a tiny learning rate moves along the summed (negative) gradient
    lr = 1e-3
    before = dict((k, list(N.container(B, k).params)) for k in P)
    tr = BackpropTrainer(net, ds, learningrate=lr, batchlearning=True, verbose=False)
    ret = tr.train()
    h.close(ret, toterr / totw, 'error reported by a training epoch', rtol=1e-7, atol=1e-9)
    scale = None
    tot = {}
    for k in P:
        tot[k] = [sum(N.cstep(spec, P, s, e, key=k, idx=i) for s, e in zip(seqs, errs)) for i in range(len(P[k]))]
    scale = max([1.0] + [abs(v) for k in tot for v in tot[k]])
    for k in P:
        h.close([a - b for a, b in zip(N.container(B, k).params, before[k])], [lr * v for v in tot[k]],
                'step of a batch epoch for the parameters of %s' % k, rtol=1e-6, atol=1e-10 * scale)
    h.nontrivial(case['n'] > 1)


def gen_cells(st):
    return st.fixed_dictionaries({'net': N.net_strategy(st, lstm='md', maxmods=5, maxdim=3, scales=(1.0, 0.3)), 'n': st.integers(1, 3), 'xs': st.integers(0, 10 ** 6),
                                  'reset': st.integers(0, 2)})


FACETS = {
    'cells': {'gen': gen_cells, 'run': run, 'quick': 800, 'thorough': 12000},
    'dag': {'gen': gen, 'run': run, 'quick': 3200, 'thorough': 50000},
    'layer': {'gen': gen_layer, 'run': run_layer, 'quick': 1200, 'thorough': 12000},
    'epoch': {'gen': gen_trainer, 'run': run_trainer, 'quick': 800, 'thorough': 12000},
}
