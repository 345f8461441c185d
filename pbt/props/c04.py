"""C04: one flat parameter vector, views in every container, copies independent."""
from . import netlib as N

RULE = ("random feed-forward and recurrent networks (also one nested inside another), then 1-10 operations on parameters and derivatives "
        "through the network, through containers, by randomize/mutate, by copying, pickling and by extending and re-sorting the network; "
        "non-trivial: at least two parameter containers and two mutating operations")
ASSUMPTIONS = ["model: the list of values of every container"]

OPS = ['extend', 'set', 'setlist', 'elem', 'celem', 'randomize', 'mutate', 'derivs', 'reset', 'copy', 'swapcopy', 'deepcopy', 'owner', 'extend', 'act', 'crand', 'similar']


def gen(st):
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 10 ** 6))
    return st.fixed_dictionaries({'net': N.net_strategy(st, dup=True, ckinds=('full', 'full', 'full', 'lincon', 'fns', 'id', 'subs'), maxmods=5, maxdim=2),
                                  'rnet': N.net_strategy(st, dup=True, recurrent=True, lstm=True, maxmods=4, maxdim=2, scales=(0.4,)),
                                  'rec': st.booleans(), 'nest': st.sampled_from([False, False, False, True]),
                                  'ops': st.integers(1, 10).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))})


def run(case, h):
    import copy, numpy
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork, LinearLayer, FullConnection, GaussianLayer, MotherConnection, SharedFullConnection
    rec = case['rec']
    spec = case['rnet'] if rec else case['net']
    P = N.draw_params(spec)
    B = N.build(spec, P, recurrent=rec)
    keys = [k for k in P]
    inner = B.net
    conts = dict((k, N.container(B, k)) for k in keys)
    net = inner
    if case['nest']:
        h.label('nested')
        net = (RecurrentNetwork if rec else FeedForwardNetwork)(name='outer')
        tail = LinearLayer(1, name='tail')
        net.addInputModule(inner)
        net.addOutputModule(tail)
        c = FullConnection(inner, tail, name='c')
        P['tail'] = N.values(spec['vseed'], inner.outdim)
        c._setParameters(list(P['tail']))
        net.addConnection(c)
        net.sortModules()
        conts['tail'] = c
        keys.append('tail')
    total = sum(len(P[k]) for k in keys)

    def invariant(net, conts, model, what):
        h.eq(net.paramdim, total, 'number of parameters' + what)
        if not total:
            return
        h.eq(len(net), total, 'len(network)' + what)
        h.eq(numpy.shape(net.params), (total,), 'shape of the parameter vector' + what)
        for k in keys:
            h.close(conts[k].params, model[k], 'parameters of container %s%s' % (k, what), rtol=0, atol=0)

    def layout(net, conts):
        """the position of each container within the vector, found by writing through the vector"""
        old = net.params.copy()
        net.params[:] = numpy.arange(total)
        lay = {}
        for k in keys:
            lay[k] = [int(v) for v in conts[k].params]
        net.params[:] = old
        cover = sorted(i for k in keys for i in lay[k])
        h.eq(cover, list(range(total)), 'every position of the flat vector belongs to exactly one container')
        for k in keys:
            h.eq(lay[k], list(range(lay[k][0], lay[k][0] + len(lay[k]))), 'the parameters of a container are contiguous and in order')
        return lay
    if not total:
        invariant(net, conts, P, '')
        h.discard()
    model = dict((k, list(P[k])) for k in keys)
    invariant(net, conts, model, ' after construction')
    lay = layout(net, conts)
    deriv = dict((k, [0.0] * len(P[k])) for k in keys)
    h.close(net.derivs, [0.0] * total, 'derivatives after construction')
    copies = []
    nmut = 0
    ext, changed = 0, False
    for n, (op, v) in enumerate(case['ops']):
        what = ' after operation %d (%s)' % (n, op)
        h.label(op)
        flat = lambda m: [x for _, x in sorted((i, y) for k in keys for i, y in zip(lay[k], m[k]))]
        if op in ('set', 'setlist'):
            vec = N.values(v, total)
            net._setParameters(list(vec) if op == 'setlist' else numpy.array(vec))
            model = dict((k, [vec[i] for i in lay[k]]) for k in keys)
            nmut += 1
        elif op == 'elem':
            net.params[v % total] = v * 0.5
            for k in keys:
                if v % total in lay[k]:
                    model[k][lay[k].index(v % total)] = v * 0.5
            nmut += 1
        elif op == 'celem':
            k = keys[v % len(keys)]
            j = v % len(model[k])
            conts[k].params[j] = v * 0.25
            model[k][j] = v * 0.25
            nmut += 1
        elif op in ('randomize', 'mutate', 'crand'):
            before = net.params.copy()
            k0 = keys[v % len(keys)]
            if op == 'crand':
                conts[k0].randomize()
            else:
                getattr(net, op)()
            after = net.params.copy()
            if op == 'crand':
                for k in keys:
                    if k != k0:
                        h.close(after[lay[k]], before[lay[k]], 'randomizing one container leaves the others alone', rtol=0, atol=0)
                    else:
                        h.check((after[lay[k]] != before[lay[k]]).all(), 'randomize changes every parameter of a container')
                deriv[k0] = [0.0] * len(deriv[k0])
            else:
                h.check((after != before).all(), op + ' changes every parameter')
                h.check(numpy.isfinite(after).all(), op + ' gives finite parameters')
            if op == 'randomize':
                deriv = dict((k, [0.0] * len(deriv[k])) for k in keys)
            model = dict((k, [float(after[i]) for i in lay[k]]) for k in keys)
            nmut += 1
        elif op == 'derivs':
            k = keys[v % len(keys)]
            vec = N.values(v, len(model[k]))
            conts[k].derivs[:] = vec
            deriv[k] = list(vec)
        elif op == 'reset':
            net.resetDerivatives()
            deriv = dict((k, [0.0] * len(deriv[k])) for k in keys)
        elif op in ('copy', 'deepcopy'):
            cp = net.copy() if op == 'copy' else copy.deepcopy(net)
            h.close(cp.params, flat(model), 'parameters of a copy' + what, rtol=0, atol=0)
            h.close(cp.derivs, flat(deriv), 'derivatives of a copy' + what, rtol=0, atol=0)
            copies.append((cp, flat(model), flat(deriv)))
        elif op == 'similar':
            cp = net.newSimilarInstance()
            h.check((numpy.asarray(cp.params) != numpy.asarray(flat(model))).all(), 'newSimilarInstance has new random parameters')
            h.eq((cp.indim, cp.outdim, cp.paramdim), (net.indim, net.outdim, total), 'shape of a similar instance')
        elif op == 'swapcopy':
            # the copy lives on, the original is overwritten
            cp = net.copy()
            want = flat(model)
            old = net.params.copy()
            net.params[:] = 7.0
            h.close(cp.params, want, 'parameters of a copy after its original was overwritten', rtol=0, atol=0)
            net.params[:] = old
            cp.params[:] = 3.0
            copies.append((cp, [3.0] * total, flat(deriv)))
        elif op == 'owner':
            k = keys[v % len(keys)]
            h.raises((Exception,), lambda: conts[k]._setParameters(numpy.zeros(len(model[k]))), 'a part of a network accepts a foreign parameter array')
        elif op == 'extend' and ext < 4:
            ext += 1
            # exactly one kind of change, then the network is sorted again
            kind = v % 6 if not case['nest'] else 0
            order = [m for m in net.modulesSorted if not m.name.startswith('ext')]
            src, dst = order[0], order[-1]
            if not (src.indim and dst.indim):
                # nothing leads into a bias unit
                kind = 5 if kind == 5 else 0
            k = 'ext%d' % ext
            if kind == 1 and rec:
                h.label('extend by a recurrent connection')
                c = FullConnection(dst, src, name='extc%d' % ext)
                net.addRecurrentConnection(c)
            elif kind == 2 and rec:
                h.label('extend by a shared recurrent connection')
                c = MotherConnection(src.indim * dst.outdim, name='extm%d' % ext)
                net.addRecurrentConnection(SharedFullConnection(c, dst, src, name='extc%d' % ext))
            elif kind == 3 and len(order) > 1:
                h.label('extend by a connection')
                c = FullConnection(src, dst, name='extc%d' % ext)
                net.addConnection(c)
                changed = True
            elif kind == 4 and len(order) > 1:
                h.label('extend by a shared connection')
                c = MotherConnection(src.outdim * dst.indim, name='extm%d' % ext)
                net.addConnection(SharedFullConnection(c, src, dst, name='extc%d' % ext))
                changed = True
            elif kind == 5:
                h.label('extend by a module with parameters')
                c = GaussianLayer(2, name='ext%d' % ext)
                net.addModule(c)
            else:
                new = LinearLayer(1, name='ext%d' % ext)
                src = net.inmodules[0]
                c = FullConnection(src, new, name='extc%d' % ext)
                net.addModule(new)
                net.addConnection(c)
            conts[k] = c
            dim = len(c.params)
            model[k] = list(N.values(v, dim))
            deriv[k] = [0.0] * dim
            c.params[:] = model[k]
            keys.append(k)
            total += dim
            net.sortModules()
            invariant(net, conts, model, what)
            lay = layout(net, conts)
            nmut += 1
        elif op == 'act':
            if rec or case['nest'] or changed:
                net.reset()
            else:
                x = N.values(v, N.indim(spec))
                want = N.reference(spec, dict((k, model[k]) for k in P), [x])[0]
                h.close(net.activate(x), want, 'activation' + what, rtol=1e-8, atol=1e-8 * max([1.0] + [abs(q) for q in want]))
        invariant(net, conts, model, what)
        h.close(net.params, flat(model) if op != 'extend' else [x for _, x in sorted((i, y) for k in keys for i, y in zip(lay[k], model[k]))],
                'flat parameter vector' + what, rtol=0, atol=0)
        for k in keys:
            h.close(conts[k].derivs, deriv[k], 'derivatives of container %s%s' % (k, what), rtol=0, atol=0)
        for k in keys:
            h.close(net.derivs[lay[k]], deriv[k], 'derivatives of the network at container %s%s' % (k, what), rtol=0, atol=0)
        for c in spec['conns']:
            if c['mother'] is not None:
                h.label('shared')
    for cp, want, wd in copies:
        h.close(cp.params, want, 'parameters of a copy at the end', rtol=0, atol=0)
        h.close(cp.derivs, wd, 'derivatives of a copy at the end', rtol=0, atol=0)
        x = N.values(5, cp.indim)
        cp.reset()
        a = cp.activate(x)
        if numpy.isfinite(a).all():
            cp2 = cp.copy()
            cp.reset()
            h.close(cp2.activate(x), cp.activate(x), 'a copy of a copy computes the same', rtol=0, atol=0)
    h.nontrivial(len(keys) >= 2 and nmut >= 2)


# stdParams / mutationStd: distribution scale parameters are honoured
def gen_scale(st):
    return st.fixed_dictionaries({'n': st.integers(200, 400), 'std': st.sampled_from([0.01, 0.1, 1.0, 5.0]), 'mstd': st.sampled_from([0.01, 0.3, 2.0])})


def run_scale(case, h):
    import numpy
    from pybrain.structure.parametercontainer import ParameterContainer
    p = ParameterContainer(case['n'], stdParams=case['std'])
    h.eq(len(p), case['n'], 'length')
    h.check(0.7 * case['std'] < p.params.std() < 1.3 * case['std'], 'standard deviation of initial parameters is stdParams')
    h.check(abs(p.params.mean()) < 0.4 * case['std'], 'initial parameters centred on 0')
    p.mutationStd = case['mstd']
    old = p.params.copy()
    p.mutate()
    d = p.params - old
    h.check(0.7 * case['mstd'] < d.std() < 1.3 * case['mstd'], 'standard deviation of a mutation is mutationStd')
    q = p.copy()
    p.randomize()
    h.check(0.7 * case['std'] < p.params.std() < 1.3 * case['std'], 'standard deviation of randomized parameters is stdParams')
    h.close(q.params, old + d, 'a copy keeps its parameters', rtol=0, atol=0)
    h.nontrivial()


# copies, deep copies and pickled networks are complete, independent networks
def gen_copy(st):
    return st.fixed_dictionaries({'net': N.net_strategy(st, dup=True, ckinds=('full', 'full', 'full', 'lincon', 'fns', 'id'), maxmods=5, maxdim=2),
                                  'rnet': N.net_strategy(st, dup=True, recurrent=True, lstm=True, maxmods=4, maxdim=2, scales=(0.4,)), 'rec': st.booleans(), 'nest': st.booleans(),
                                  'ways': st.lists(st.sampled_from(['copy', 'deepcopy', 'pickle0', 'pickle2', 'similar', 'holder']), min_size=1, max_size=3), 'v': st.integers(0, 10 ** 6)})


def run_copy(case, h):
    import copy, pickle, numpy
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork, LinearLayer, FullConnection
    rec = case['rec']
    spec = case['rnet'] if rec else case['net']
    net = N.build(spec, N.draw_params(spec), recurrent=rec).net
    if case['nest']:
        h.label('nested')
        inner, net = net, (RecurrentNetwork if rec else FeedForwardNetwork)(name='outer')
        tail = LinearLayer(1, name='tail')
        net.addInputModule(inner)
        net.addOutputModule(tail)
        net.addConnection(FullConnection(inner, tail, name='c'))
        net.sortModules()
    if not net.paramdim:
        h.discard()
    total = net.paramdim
    xs = [N.values(case['v'] + t, net.indim) for t in range(3 if rec else 1)]
    es = [N.values(case['v'] + 10 + t, net.outdim) for t in range(3 if rec else 1)]

    def play(n):
        n.reset()
        n.resetDerivatives()
        out = [list(n.activate(x)) for x in xs]
        back = [list(n.backActivate(e)) for e in reversed(es)]
        n.reset()
        return out, back, list(n.derivs)

    def parts(n):
        ms = list(n.modules)
        cs = [c for l in n.connections.values() for c in l] + list(n.motherconnections) + list(getattr(n, 'recurrentConns', []))
        return dict((p.name, p) for p in ms + cs)

    deep = False
    for way in case['ways']:
        h.label(way)
        parts(net)  # names exist from the first access on
        if way == 'copy':
            cp = net.copy()
        elif way == 'similar':
            cp = net.newSimilarInstance()
        elif way == 'deepcopy':
            cp = copy.deepcopy(net)
        elif way == 'holder':
            cp = copy.deepcopy({'a': [net], 'b': net})
            h.check(cp['a'][0] is cp['b'], 'one copy per object')
            cp = cp['b']
        else:
            cp = pickle.loads(pickle.dumps(net, int(way[-1])))
        base = net.params.copy()
        bd = net.derivs.copy()
        if way == 'similar':
            cp.params[:] = base
        h.close(cp.params, base, way + ': parameters', rtol=0, atol=0)
        # parts of the copy see the flat vector; nothing of the original moves
        new = numpy.array(N.values(case['v'] + 77, total))
        cp.params[:] = new
        a, b = parts(net), parts(cp)
        h.eq(sorted(b), sorted(a), way + ': names of the parts')
        pos = 0
        old = net.params.copy()
        for k in sorted(a):
            h.check(a[k] is not b[k], way + ': part %s is shared with the original' % k)
            if a[k].paramdim and hasattr(a[k], 'params'):
                net.params[:] = numpy.arange(total)
                where = [int(i) for i in a[k].params]
                net.params[:] = old
                h.close(b[k].params, new[where], way + ': parameters of part %s after the flat vector of the copy was changed' % k, rtol=0, atol=0)
                pos += 1
        h.close(net.params, base, way + ': parameters of the original', rtol=0, atol=0)
        # behaviour at the new parameters is that of the original at these
        net.params[:] = new
        want = play(net)
        net.params[:] = base
        got = play(cp)
        for g, w, what in zip(got, want, ('activations', 'input errors', 'derivatives')):
            if numpy.isfinite(numpy.array(w)).all():
                h.close(g, w, '%s: %s of the copy' % (way, what), rtol=1e-10, atol=1e-10)
        deep = deep or any(abs(x) > 1e-9 for x in want[2])
        net.derivs[:] = bd
        h.close(cp.params, new, way + ': parameters of the copy', rtol=0, atol=0)
        # go on with the copy
        net = cp
    h.nontrivial(deep and len(case['ways']) >= 2)


def gen_lstm(st):
    return st.fixed_dictionaries({'dim': st.integers(1, 3), 'md': st.sampled_from([0, 0, 1, 2]), 'way': st.sampled_from(['copy', 'deepcopy', 'pickle']), 'v': st.integers(0, 10 ** 6)})


def run_lstm(case, h):
    import copy, pickle, numpy
    from pybrain.structure.modules import LSTMLayer
    from pybrain.structure.modules.mdlstm import MDLSTMLayer
    m = MDLSTMLayer(case['dim'], dimensions=case['md'], peepholes=True) if case['md'] else LSTMLayer(case['dim'], True)
    cp = m.copy() if case['way'] == 'copy' else copy.deepcopy(m) if case['way'] == 'deepcopy' else pickle.loads(pickle.dumps(m))
    new = numpy.array(N.values(case['v'], m.paramdim))
    outs = []
    for k in (m, cp):
        k.params[:] = new
        k.resetDerivatives()
        k.reset()
        k._growBuffers()
        k._growBuffers()
        out = []
        x = numpy.array(N.values(case['v'] + 1, k.indim))
        if case['md']:
            # the last inputs are the states of the neighbours
            x[-case['dim'] * case['md']:] *= 0.5
        for t in range(2):
            k.inputbuffer[t] = x * (t + 1)
            k.offset = t
            k.forward()
            out += list(k.outputbuffer[t])
        for t in (1, 0):
            k.offset = t
            k.outputerror[t] = N.values(case['v'] + 2 + t, k.outdim)
            k.backward()
        outs.append((out, list(k.derivs), list(k.params)))
    for a, b, what in zip(outs[0], outs[1], ('outputs', 'derivatives', 'parameters')):
        h.close(b, a, case['way'] + ': ' + what, rtol=1e-10, atol=1e-12)
    h.nontrivial(any(outs[0][1]))


FACETS = {
    'copies': {'gen': gen_copy, 'run': run_copy, 'quick': 1600, 'thorough': 40000},
    'lstm': {'gen': gen_lstm, 'run': run_lstm, 'quick': 300, 'thorough': 3000},
    'net': {'gen': gen, 'run': run, 'quick': 2600, 'thorough': 60000},
    'scale': {'gen': gen_scale, 'run': run_scale, 'quick': 80, 'thorough': 400},
}
