"""C01: feed-forward evaluation."""
from . import netlib as N

RULE = ("random DAG networks (2-6 modules of 11 layer kinds, 1-3 dims; full/identity/linear/diagonal-free/permutation/"
        "subsampling/shared connections, sliced directly or through module slices; random in/output sets, names and order of "
        "construction), random parameters and 1-4 inputs; non-trivial: at least 3 modules, one hidden non-linear or sliced or "
        "shared element and at least 2 inputs")
ASSUMPTIONS = ["reference evaluator in pure Python double precision, tolerance 1e-9 relative"]


def gen(st):
    return st.fixed_dictionaries({
        'net': N.net_strategy(st, dup=True, kinds=N.DIFF + ['softmax'],
                              ckinds=('full', 'full', 'full', 'id', 'lincon', 'fns', 'perm', 'subs'), scales=(1.0, 0.2, 4.0)),
        'n': st.integers(1, 4), 'xs': st.integers(0, 10 ** 6), 'xscale': st.sampled_from([1.0, 0.0, 10.0]),
        'ops': st.lists(st.sampled_from(['act', 'back', 'ds', 'reset', 'copy', 'deepcopy']), min_size=1, max_size=6)})


def run(case, h):
    import copy
    from pybrain.datasets import SupervisedDataSet
    spec = case['net']
    P = N.draw_params(spec)
    B = N.build(spec, P)
    net = B.net
    d = N.indim(spec)
    h.eq(net.indim, d, 'input dimension')
    h.eq(net.outdim, N.outdim(spec), 'output dimension')
    xs = [N.values(case['xs'] * 10 + i, d, case['xscale']) for i in range(case['n'])]
    want = [N.reference(spec, P, [x])[0] for x in xs]
    if any(abs(v) > 1e100 or v != v for w in want for v in w):
        h.discard()
    tol = dict(rtol=1e-8, atol=1e-9 * max([1.0] + [abs(v) for w in want for v in w]))
    kept = []
    for i, x in enumerate(xs):
        y = net.activate(x)
        h.close(y, want[i], 'output for input %d' % i, **tol)
        kept.append((y, want[i]))
    # any history leaves the function unchanged
    k = 0
    for op in case['ops']:
        if op == 'act':
            i = k % len(xs)
            k += 1
            kept.append((net.activate(xs[i]), want[i]))
            h.close(kept[-1][0], want[i], 'output after the history %s' % case['ops'][:k], **tol)
        elif op == 'back':
            if not any(c['k'] == 'subs' for c in spec['conns']):
                net.backActivate(N.values(case['xs'] + 77, net.outdim))
        elif op == 'ds':
            ds = SupervisedDataSet(net.indim, net.outdim)
            for x, w in zip(xs, want):
                ds.addSample(x, w)
            h.close(net.activateOnDataset(ds), want, 'activateOnDataset', **tol)
        elif op == 'reset':
            net.reset()
        elif op == 'copy':
            old = net
            net = net.copy()
            if old.paramdim:
                old.params[:] = 0.123
        else:
            net = copy.deepcopy(net)
        h.label('op:' + op)
    i = (k + 1) % len(xs)
    h.close(net.activate(xs[i]), want[i], 'output after the history', **tol)
    for y, w in kept:
        h.close(y, w, 'an output returned earlier, after further activations', **tol)
    nl = any(m['k'] not in ('lin', 'bias') for m in spec['mods'])
    sl = any(c['is'] or c['os'] or c['mother'] is not None for c in spec['conns'])
    for m in spec['mods']:
        h.label('mod:' + m['k'])
    for c in spec['conns']:
        h.label('conn:' + ('shared' if c['mother'] is not None else c['k']))
        if c['is'] or c['os']:
            h.label('sliced')
    h.nontrivial(len(spec['mods']) >= 3 and (nl or sl) and len(xs) >= 2)


# a single layer, standing alone
def gen_layer(st):
    return st.fixed_dictionaries({'k': st.sampled_from(N.DIFF + ['softmax', 'psoftmax', 'bias']), 'sl': st.integers(1, 3), 'd': st.integers(1, 4),
                                  'xs': st.lists(st.lists(st.floats(-30, 30, allow_nan=False), min_size=16, max_size=16), min_size=1, max_size=4)})


def run_layer(case, h):
    m = {'k': case['k'], 'd': case['d'], 'sl': case['sl']}
    if case['k'] == 'psoftmax':
        m['d'] *= m['sl']
    L = N.make_module(m, None)
    i, o = N.dims(m)
    h.eq((L.indim, L.outdim), (i, o), 'layer dimensions')
    kept = []
    for n, x in enumerate(case['xs']):
        x = x[:i]
        y = L.activate(x)
        kept.append((y, N.layer(m, x, [], 0)))
        h.close(y, kept[-1][1], '%s layer alone, activation %d' % (case['k'], n))
        L.backActivate([1.0] * o)
    for y, w in kept:
        h.close(y, w, '%s layer alone, an output returned earlier' % case['k'])
    h.label('layer:' + case['k'])
    h.nontrivial(len(case['xs']) > 1)


# nested networks and connections between slices of slices
def gen_nested(st):
    return st.fixed_dictionaries({
        'inner': N.net_strategy(st, maxmods=4, bias=True), 'pre': st.integers(1, 3), 'deep': st.booleans(),
        'vs': st.integers(0, 10 ** 6), 'n': st.integers(1, 3), 'slice': st.booleans()})


def run_nested(case, h):
    from pybrain.structure import FeedForwardNetwork, LinearLayer, TanhLayer, FullConnection
    spec = case['inner']
    P = N.draw_params(spec)
    inner = N.build(spec, P).net
    if case['deep']:
        # wrap once more
        w = FeedForwardNetwork()
        w.addInputModule(inner)
        w.addOutputModule(inner)
        w.sortModules()
        inner = w
    net = FeedForwardNetwork()
    a = TanhLayer(case['pre'])
    b = LinearLayer(2)
    net.addInputModule(a)
    net.addModule(inner)
    net.addOutputModule(b)
    c1, c2 = FullConnection(a, inner), FullConnection(inner, b)
    w1 = N.values(case['vs'], c1.paramdim)
    w2 = N.values(case['vs'] + 1, c2.paramdim)
    c1._setParameters(list(w1))
    c2._setParameters(list(w2))
    net.addConnection(c1)
    net.addConnection(c2)
    net.sortModules()
    full = {'k': 'full', 'is': None, 'os': None}
    for i in range(case['n']):
        x = N.values(case['vs'] + 10 + i, case['pre'])
        z = [0.0] * inner.indim
        N.conn(full, None, w1, [N.tnh(v) for v in x], z)
        y = N.reference(spec, P, [z])[0]
        o = [0.0] * 2
        N.conn(full, None, w2, y, o)
        h.close(net.activate(x), o, 'nested network output', rtol=1e-8, atol=1e-8 * max([1] + [abs(v) for v in o]))
    h.nontrivial(len(spec['mods']) > 2)


FACETS = {
    'dag': {'gen': gen, 'run': run, 'quick': 4000, 'thorough': 60000},
    'layer': {'gen': gen_layer, 'run': run_layer, 'quick': 1200, 'thorough': 12000},
    'nested': {'gen': gen_nested, 'run': run_nested, 'quick': 800, 'thorough': 10000},
}
