"""C09: neuron decomposition."""
from . import netlib as N

RULE = ("random decomposable networks (full and sliced connections, LSTM with and without peepholes, recurrent connections; built directly, "
        "from buildNetwork-like normal networks, ESP style on and off); decompose, recompose, permute and modify parts; non-trivial: at least "
        "three neurons with parameters")
ASSUMPTIONS = ["the order of the parts is not constrained beyond being the same for getDecomposition and setDecomposition"]


def gen(st):
    return st.fixed_dictionaries({
        'net': N.net_strategy(st, kinds=['lin', 'sig', 'tanh'], ckinds=('full',), maxmods=5, maxdim=3),
        'rnet': N.net_strategy(st, kinds=['lin', 'sig', 'tanh', 'lstm', 'lstm'], ckinds=('full',), recurrent=True, maxmods=5, maxdim=2),
        'rec': st.booleans(), 'conv': st.booleans(), 'esp': st.booleans(), 'vs': st.integers(0, 10 ** 6), 'which': st.integers(0, 1000)})


def noshare(spec):
    s = dict(spec, mothers=[])
    s['conns'] = [dict(c, mother=None) for c in spec['conns']]
    s['rec'] = [dict(c, mother=None) for c in spec['rec']]
    s['mods'] = [dict(m, peep=m.get('peep', m['d'] % 2 == 0)) if m['k'] == 'lstm' else m for m in spec['mods']]
    return s


def neuron_in(spec, i, pos):
    m = spec['mods'][i]
    if m['k'] == 'lstm':
        return (i, pos % m['d'])
    return (i, pos)


def run(case, h):
    import numpy
    from pybrain.structure.networks.neurondecomposable import (NeuronDecomposableNetwork, FeedForwardDecomposableNetwork,
                                                               RecurrentDecomposableNetwork)
    rec = case['rec']
    spec = noshare(case['rnet'] if rec else case['net'])
    P = N.draw_params(spec)
    total = N.npar(P)
    if not total:
        h.discard()
    # every parameter gets a distinct value
    k0 = 1
    for k in P:
        P[k] = [float(k0 + i) for i in range(len(P[k]))]
        k0 += len(P[k])
    cls = RecurrentDecomposableNetwork if rec else FeedForwardDecomposableNetwork
    if case['conv']:
        h.label('converted')
        if not case['esp']:
            h.label('esp')
        B = N.build(spec, P, recurrent=rec)
        net = NeuronDecomposableNetwork.convertNormalNetwork(B.net)
        esp = True
        # conversion changes neither dimensions nor the parameters of the parts
        h.eq((net.indim, net.outdim, net.paramdim), (N.indim(spec), N.outdim(spec), total), 'dimensions of the converted network')
        h.check(isinstance(net, cls), 'class of the converted network')
    else:
        esp = case['esp']

        def make():
            n = cls()
            n.espStyleDecomposition = esp
            return n
        B = N.build(spec, P, recurrent=rec, netclass=make)
        net = B.net
    h.label('esp' if esp else 'plain')
    # expected parts
    want = {}
    for tag in ('conns', 'rec'):
        for j, c in enumerate(spec[tag]):
            a, b = N.cdims(c, spec)
            for w in range(a * b):
                i = (c['i'], (c['is'] or [0])[0] + w % a)
                o = neuron_in(spec, c['o'], (c['os'] or [0])[0] + w // a)
                owner = i if (esp and c['o'] in spec['out']) else o
                want.setdefault(owner, []).append(P['%s%d' % (tag, j)][w])
    for i, m in enumerate(spec['mods']):
        if 'm%d' % i in P:
            for w, v in enumerate(P['m%d' % i]):
                own = (i, w % m['d'])
                want.setdefault(own, []).append(v)
    dec = net.getDecomposition()
    h.eq(sorted(sorted(float(v) for v in d) for d in dec), sorted(sorted(v) for v in want.values()), 'the parts are the weights of the neurons')
    # identity
    old = net.params.copy()
    net.setDecomposition(dec)
    h.close(net.params, old, 'parameters after recomposing the decomposition', rtol=0, atol=0)
    # changes to one part change exactly its parameters
    q = case['which'] % len(dec)
    new = [d.copy() for d in dec]
    new[q] = new[q] + 1000.0
    h.close(net.params, old, 'a decomposition is a copy', rtol=0, atol=0)
    net.setDecomposition(new)
    h.close(sorted(net.params), sorted([v + (1000.0 if v in dec[q] else 0.0) for v in old]), 'parameters after changing one part', rtol=0, atol=0)
    P2 = dict((k, [v + (1000.0 if v in dec[q] else 0.0) for v in P[k]]) for k in P)
    for k in P:
        h.close(N.container(B, k).params, P2[k], 'container %s after changing one part' % k, rtol=0, atol=0)
    got = net.getDecomposition()
    h.eq(len(got), len(new), 'number of parts')
    for a, b in zip(got, new):
        h.close(a, b, 'part after setDecomposition', rtol=0, atol=0)
    # function of the recomposed network
    R = dict((k, N.values(case['vs'] + i, len(P[k]))) for i, k in enumerate(P))
    lookup = {}
    for k in P:
        for v, r in zip(P[k], R[k]):
            lookup[v] = r
    net.setDecomposition([numpy.array([lookup[float(v)] for v in d]) for d in dec])
    seq = [N.values(case['vs'] + 50 + t, N.indim(spec)) for t in range(3)]
    ref = N.reference(spec, R, seq) if rec else [N.reference(spec, R, [x])[0] for x in seq]
    net.reset()
    for x, w in zip(seq, ref):
        h.close(net.activate(x), w, 'output after setDecomposition', rtol=1e-8, atol=1e-9 * max([1.0] + [abs(v) for v in w]))
    h.nontrivial(len(dec) >= 3)


FACETS = {'decompose': {'gen': gen, 'run': run, 'quick': 3200, 'thorough': 40000}}
