"""C10: buildNetwork."""
import itertools
from . import netlib as N

RULE = ("buildNetwork over 2-5 layer sizes and all options (bias, outputbias, hiddenclass, outclass, recurrent, peepholes) and _buildNetwork "
        "over nested parts, compared with an independent evaluation of the documented layout; non-trivial: a hidden layer and a non-default option")
ASSUMPTIONS = ["parameters are read back from the named modules' connections, so no parameter order is assumed"]
KINDS = ['lin', 'sig', 'tanh', 'softmax', 'softsign', 'relu']


def gen(st):
    return st.fixed_dictionaries({
        'layers': st.lists(st.integers(1, 4), min_size=2, max_size=5),
        'opt': st.fixed_dictionaries({}, optional={'bias': st.booleans(), 'outputbias': st.booleans(), 'hidden': st.sampled_from(KINDS + ['lstm', 'lstm']),
                                                   'out': st.sampled_from(KINDS + ['lstm']), 'recurrent': st.booleans(), 'peepholes': st.booleans()}),
        'T': st.integers(1, 4), 'xs': st.integers(0, 10 ** 6), 'bad': st.sampled_from([None] * 9 + ['option', 'short', 'fast'])})


def run(case, h):
    from pybrain.structure import RecurrentNetwork, FeedForwardNetwork, SigmoidLayer, LinearLayer
    from pybrain.structure.modules import LSTMLayer, BiasUnit
    from pybrain.tools.shortcuts import buildNetwork, NetworkError
    C = N.classes()
    o = dict(case['opt'])
    layers = case['layers']
    hid = o.get('hidden', 'sig')
    if hid == 'lstm':
        layers = layers[:3]
        if len(layers) == 2:
            layers = [layers[0], 2, layers[1]]
    kw = {}
    for k in ('bias', 'outputbias', 'recurrent', 'peepholes'):
        if k in o:
            kw[k] = o[k]
    if 'hidden' in o:
        kw['hiddenclass'] = C[hid]
    if 'out' in o:
        kw['outclass'] = C[o['out']]
    if case['bad'] == 'option':
        h.raises(NetworkError, lambda: buildNetwork(*layers, **dict(kw, hiddenlayer=3)), 'unknown option')
        return
    if case['bad'] == 'short':
        h.raises(NetworkError, lambda: buildNetwork(*layers[:1], **kw), 'a single layer')
        return
    if case['bad'] == 'fast':
        h.raises(NetworkError, lambda: buildNetwork(*layers, **dict(kw, fast=True)), 'fast networks without arac')
        return
    net = buildNetwork(*layers, **kw)
    bias, obias, peep = o.get('bias', True), o.get('outputbias', True), o.get('peepholes', False)
    recurrent = o.get('recurrent', False) or hid == 'lstm' or o.get('out') == 'lstm'
    h.check(isinstance(net, RecurrentNetwork if recurrent else FeedForwardNetwork), 'class of the network')
    kinds = ['lin'] + [hid] * (len(layers) - 2) + [o.get('out', 'lin')]
    mods = [{'k': k, 'd': n, 'peep': peep and 0 < i < len(layers) - 1} for i, (k, n) in enumerate(zip(kinds, layers))]
    names = ['in'] + ['hidden%d' % i for i in range(len(layers) - 2)] + ['out']
    h.eq(set(m.name for m in net.modules), set(names + (['bias'] if bias else [])), 'module names')
    for nm, m in zip(names, mods):
        h.check(type(net[nm]) is C[m['k']], 'class of module ' + nm)
        h.eq((net[nm].indim, net[nm].outdim), N.dims(m), 'dimensions of module ' + nm)
    h.seq([m.name for m in net.inmodules], ['in'], 'input modules')
    h.seq([m.name for m in net.outmodules], ['out'], 'output modules')
    h.eq((net.indim, net.outdim), (layers[0], N.dims(mods[-1])[1]), 'dimensions')
    spec = {'mods': [mods[0]] + ([{'k': 'bias'}] if bias else []) + mods[1:], 'mothers': [], 'conns': [], 'rec': [], 'in': [0]}
    off = 1 if bias else 0
    spec['out'] = [len(spec['mods']) - 1]
    npar = 0
    want = []
    for j in range(1, len(layers)):
        want.append((names[j - 1], names[j], j - 1 + (off if j > 1 else 0), j + off))
        if bias and (j < len(layers) - 1 or obias):
            want.append(('bias', names[j], 1, j + off))
    have = {}
    for c in itertools.chain(*net.connections.values()):
        have.setdefault((c.inmod.name, c.outmod.name), []).append(c)
    h.eq(sorted(have), sorted((a, b) for a, b, _, _ in want), 'connections')
    P = {}
    for i, (a, b, x, y) in enumerate(want):
        h.eq(len(have[a, b]), 1, 'one connection from %s to %s' % (a, b))
        spec['conns'].append({'k': 'full', 'i': x, 'o': y, 'is': None, 'os': None, 'mother': None})
        P['conns%d' % i] = [float(v) for v in have[a, b][0].params]
        npar += len(P['conns%d' % i])
    rc = getattr(net, 'recurrentConns', [])
    if hid == 'lstm':
        h.eq([(c.inmod.name, c.outmod.name) for c in rc], [('hidden0', 'hidden0')], 'recurrent connections')
        spec['rec'].append({'k': 'full', 'i': 1 + off, 'o': 1 + off, 'is': None, 'os': None, 'mother': None})
        P['rec0'] = [float(v) for v in rc[0].params]
        npar += len(P['rec0'])
        if peep:
            P['m%d' % (1 + off)] = [float(v) for v in net['hidden0'].params]
            npar += 3 * layers[1]
    else:
        h.eq(list(rc), [], 'recurrent connections')
    h.eq(net.paramdim, npar, 'number of parameters')
    seq = [N.values(case['xs'] * 10 + t, layers[0]) for t in range(case['T'])]
    ref = N.reference(spec, P, seq)
    for t, x in enumerate(seq):
        h.close(net.activate(x), ref[t], 'output at call %d' % t, rtol=1e-8, atol=1e-9 * max([1.0] + [abs(v) for v in ref[t]]))
    for k in o:
        h.label('%s=%s' % (k, o[k]))
    h.nontrivial(len(layers) > 2 and len(o) >= 1)


# _buildNetwork: parts of identity-linked layers, full connections between parts
def gen_parts(st):
    part = st.fixed_dictionaries({'d': st.integers(1, 3), 'ks': st.lists(st.sampled_from(['lin', 'sig', 'tanh', 'softsign']), min_size=1, max_size=3)})
    return st.fixed_dictionaries({'parts': st.lists(part, min_size=2, max_size=6), 'bias': st.sampled_from([None, False, True]), 'xs': st.integers(0, 10 ** 6)})


def run_parts(case, h):
    from pybrain.tools.shortcuts import _buildNetwork
    C = N.classes()
    kw = {} if case['bias'] is None else {'bias': case['bias']}
    spec = {'mods': [], 'conns': [], 'rec': [], 'mothers': [], 'in': [0]}
    args, key = [], []
    for p, part in enumerate(case['parts']):
        t = []
        for i, k in enumerate(part['ks']):
            m = C[k](part['d'])
            t.append(m)
            spec['mods'].append({'k': k, 'd': part['d']})
        args.append(tuple(t))
    net = _buildNetwork(*args, **kw)
    conns = {}
    for c in itertools.chain(*net.connections.values()):
        conns[id(c.inmod), id(c.outmod)] = c
    nb = 0
    P = {}
    flat = [(m, p, i) for p, t in enumerate(args) for i, m in enumerate(t)]
    full = {'k': 'full', 'is': None, 'os': None, 'mother': None}
    biases = []
    for n in range(1, len(flat)):
        m, p, i = flat[n]
        h.check((id(flat[n - 1][0]), id(m)) in conns, 'layer %d is linked to its predecessor' % n)
        if i == 0:
            spec['conns'].append(dict(full, i=n - 1, o=n))
            P['conns%d' % (len(spec['conns']) - 1)] = [float(v) for v in conns[id(flat[n - 1][0]), id(m)].params]
            if case['bias']:
                bs = [c for c in conns.values() if c.outmod is m and c.inmod.indim == 0]
                h.eq(len(bs), 1, 'one bias per full connection')
                biases.append((n, [float(v) for v in bs[0].params]))
        else:
            spec['conns'].append(dict(full, k='id', i=n - 1, o=n))
    h.eq(len(conns), len(spec['conns']) + len(biases), 'number of connections')
    # evaluate: biases as constant input additions
    x = N.values(case['xs'], net.indim)
    y = list(x)
    out = N.layer(spec['mods'][0], y, [], 0)
    for n in range(1, len(flat)):
        z = [0.0] * spec['mods'][n]['d']
        c = spec['conns'][n - 1]
        N.conn(c, spec, P.get('conns%d' % (n - 1)), out, z)
        for b, w in biases:
            if b == n:
                z = [a + q for a, q in zip(z, w)]
        out = N.layer(spec['mods'][n], z, [], 0)
    h.close(net.activate(x), out, 'output')
    h.nontrivial(len(flat) > 3)


FACETS = {
    'build': {'gen': gen, 'run': run, 'quick': 2400, 'thorough': 30000},
    'parts': {'gen': gen_parts, 'run': run_parts, 'quick': 800, 'thorough': 8000},
}
