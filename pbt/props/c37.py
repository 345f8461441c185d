"""C37: masked parameters, masked modules and cheaply copiable modules under evolutionary operations."""
RULE = ("random feed-forward networks and parameter containers wrapped as masked or cheaply copiable evolvables, random operation histories over several copies (mutate, randomize, change topology, set parameters, copy, activate, backpropagate); compared with a model that keeps mask and values of every copy and with a plain network given the same parameters; non-trivial: two or more copies and a history with both kinds of mutation")
ASSUMPTIONS = ["the allowed complexity is at least one parameter"]


def gen_mask(st):
    op = st.one_of(st.tuples(st.just('mutate'), st.integers(0, 3)), st.tuples(st.just('topo'), st.integers(0, 3)), st.tuples(st.just('randomize'), st.integers(0, 3)), st.tuples(st.just('set'), st.integers(0, 3)), st.tuples(st.just('copy'), st.integers(0, 3)), st.tuples(st.just('similar'), st.integers(0, 3)), st.tuples(st.just('use'), st.integers(0, 3)), st.tuples(st.just('grad'), st.integers(0, 3)), st.tuples(st.just('step'), st.integers(0, 3)), st.tuples(st.just('data'), st.integers(0, 3)), st.tuples(st.sampled_from(['cycle', 'cycle+', 'topo']), st.integers(0, 3)))
    return st.fixed_dictionaries({'module': st.booleans(), 'rec': st.booleans(), 'unit': st.sampled_from([1.0, 1.0, 1e-3, 10.0]), 'sizes': st.lists(st.integers(1, 4), min_size=2, max_size=3), 'max': st.sampled_from([None, 1, 2, 4, 21]), 'flip': st.sampled_from([0.05, 0.5, 1.0, 0.0]), 'on': st.sampled_from([0.5, 0.0, 1.0, 0.8]), 'std': st.sampled_from([0.1, 0.0, 1.0]), 'zeros': st.booleans(), 'seed': st.integers(0, 10 ** 6), 'ops': st.lists(op, min_size=1, max_size=14)})


def build(sizes, rec=False):
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork, LinearLayer, TanhLayer, BiasUnit, FullConnection
    n = RecurrentNetwork() if rec else FeedForwardNetwork()
    ls = [LinearLayer(sizes[0], name='l0')] + [TanhLayer(s, name='l%d' % (i + 1)) for i, s in enumerate(sizes[1:])]
    n.addInputModule(ls[0])
    for l in ls[1:-1]:
        n.addModule(l)
    n.addOutputModule(ls[-1])
    n.addModule(BiasUnit(name='b'))
    for i in range(len(ls) - 1):
        n.addConnection(FullConnection(ls[i], ls[i + 1], name='c%d' % i))
    n.addConnection(FullConnection(n['b'], ls[-1], name='cb'))
    if rec:
        n.addRecurrentConnection(FullConnection(ls[1], ls[1], name='rec'))
    n.sortModules()
    return n


def run_mask(case, h):
    import random
    import numpy as np
    from pybrain.structure.evolvables.maskedparameters import MaskedParameters
    from pybrain.structure.evolvables.maskedmodule import MaskedModule
    from pybrain.structure.parametercontainer import ParameterContainer
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 31)
    r = np.random.RandomState(case['seed'] + 7654321)
    if case['module']:
        base, ref = build(case['sizes'], case['rec']), build(case['sizes'], case['rec'])
        cls = MaskedModule
    else:
        base = ParameterContainer(sum(case['sizes']) * (5 if case['rec'] else 2))
        cls = MaskedParameters
    D = base.paramdim
    kw = dict(maskFlipProbability=case['flip'], mutationStdev=case['std'], maskOnProbability=case['on'], returnZeros=case['zeros'])
    if case['max'] is not None:
        kw['maxComplexity'] = case['max']
    cap = D if case['max'] is None else min(D, case['max'])
    x0 = cls(base, **kw)
    if case['unit'] != 1.0:
        x0.stdParams = case['unit']
    objs = [x0]
    model = []
    hidden = [{}]                       # values that a copy had before they were disabled, and how far they may have moved

    def full(o):
        """mask and values as one can see them"""
        m = np.array(o.mask, bool)
        p = np.array(o.params, float)
        v = np.zeros(D)
        if case['zeros']:
            h.eq(len(p), D, 'all parameters are reported')
            h.check((p[~m] == 0).all(), 'disabled parameters are zero')
            v = p.copy()
        else:
            h.eq(len(p), int(m.sum()), 'only the enabled parameters are reported')
            v[m] = p
        h.eq(int(o.paramdim), len(p), 'the number of parameters')
        return m, v
    m, v = full(x0)
    model.append((m, v))
    h.check(m.sum() <= cap, 'no more parameters than allowed')
    if case['on'] == 0.0:
        h.eq(int(m.sum()), 0, 'nothing is enabled')
    if case['on'] == 1.0:
        h.eq(int(m.sum()), cap, 'everything allowed is enabled')
    kinds = set()
    seqlen = 3 if case['rec'] else 1

    def same(i, x):
        ref._setParameters(model[i][1].copy())
        return np.array(ref.activate(x))

    def disturb(j):
        # another copy writes its own parameters to the shared module
        objs[j].mutate()
        model[j] = full(objs[j])
        for k in hidden[j]:
            hidden[j][k][1] += 8 * case['std']

    def verify(skip=None):
        for j, o in enumerate(objs):
            if j == skip:
                continue
            m, v = full(o)
            h.check((m == model[j][0]).all() and (v == model[j][1]).all(), 'an operation on one copy leaves the others alone')
    ops = []
    for op, i in case['ops']:
        # disabling, an edit, and enabling again as one block
        ops += [('topo', i), ('set', i), ('topo', i)] if op == 'cycle' else [('topo', i), ('set', i), ('mutate', i), ('topo', i)] if op == 'cycle+' else [(op, i)]
    for op, i in ops:
        i = i % len(objs)
        o = objs[i]
        m, v = model[i]
        kinds.add(op)
        if op == 'mutate':
            o.mutate()
            m2, v2 = full(o)
            h.check((m2 == m).all(), 'parameter mutation keeps the mask')
            dv = (v2 - v)[m]
            h.check((abs(dv) <= 8 * case['std']).all(), 'the size of mutations')
            if case['std']:
                h.check((dv != 0).all(), 'every enabled parameter is mutated')
            model[i] = (m2, v2)
            for k in hidden[i]:
                hidden[i][k][1] += 8 * case['std']
            h.close(base.params, v2, 'the parameters are written to the module', rtol=0, atol=0)
        elif op == 'topo':
            o.topologyMutate()
            m2, v2 = full(o)
            h.check(1 <= m2.sum() <= cap, 'between one and the allowed number of parameters')
            both = m & m2
            h.check((v2[both] == v[both]).all(), 'topology mutation keeps the values')
            for k in np.nonzero(m2 & ~m)[0]:
                if k in hidden[i]:
                    old, far = hidden[i].pop(k)
                    h.check(abs(v2[k] - old) <= far, 'a parameter that is enabled again has the value it had')
                    h.label('enabled again')
            for k in np.nonzero(m & ~m2)[0]:
                hidden[i][k] = [v[k], 0.0]
            if case['flip'] == 0.0 and m.sum():
                h.check((m == m2).all(), 'no flips')
            if case['flip'] == 1.0:
                inv = ~m
                if 1 <= inv.sum() <= cap:
                    h.check((m2 == inv).all(), 'all bits are flipped')
                elif inv.sum() > cap:
                    h.check((m2 <= inv).all() and m2.sum() == cap, 'surplus bits are disabled')
            model[i] = (m2, v2)
            h.close(base.params, v2, 'the parameters are written to the module', rtol=0, atol=0)
        elif op == 'randomize':
            o.randomize()
            m2, v2 = full(o)
            h.check(m2.sum() <= cap, 'no more parameters than allowed')
            h.check((v2[m2] != 0).all(), 'new values')
            h.check((abs(v2) <= 8 * o.stdParams).all(), 'values on the scale of the standard deviation')
            hidden[i] = {}
            h.check(not (m & m2).any() or (v2[m & m2] != v[m & m2]).all(), 'fresh values')
            model[i] = (m2, v2)
            h.close(base.params, v2, 'the parameters are written to the module', rtol=0, atol=0)
        elif op == 'set':
            if case['zeros']:
                continue
            w = r.randn(int(m.sum()))
            o._setParameters(w)
            v2 = np.zeros(D)
            v2[m] = w
            m3, v3 = full(o)
            h.check((m3 == m).all() and (v3 == v2).all(), 'parameters that were set are returned')
            model[i] = (m, v2)
            w += 1.0
            h.check((full(o)[1] == v2).all(), 'set parameters are copied')
        elif op in ('copy', 'similar') and len(objs) < 4:
            c = o.copy() if op == 'copy' else o.newSimilarInstance()
            h.check(c is not o and type(c) is type(o), 'kind of copy')
            objs.append(c)
            hidden.append(dict((k, list(v)) for k, v in hidden[i].items()) if op == 'copy' else {})
            mc, vc = full(c)
            if op == 'copy':
                h.check((mc == m).all() and (vc == v).all(), 'a copy has the same parameters')
            h.check(mc.sum() <= cap, 'no more parameters than allowed')
            model.append((mc, vc))
            h.check(c.pcontainer is o.pcontainer, 'copies share the container')
        elif op in ('use', 'grad') and case['module']:
            xs = r.randn(seqlen, case['sizes'][0])
            ref.reset()
            o.reset()
            for x in xs:
                if op == 'use':
                    for c in objs:
                        c.params
                h.close(o.activate(x), same(i, x), 'the masked module computes with its enabled parameters')
            if op == 'grad':
                j = (i + 1) % len(objs)
                if j != i:
                    disturb(j)
                    h.label('interleaved')
                es = r.randn(seqlen, case['sizes'][-1])
                ref.resetDerivatives()
                base.resetDerivatives()
                for e in es:
                    h.close(o.backActivate(e), ref.backActivate(e), 'backpropagated errors')
                    if j != i:
                        disturb(j)
                h.close(base.derivs, ref.derivs, 'derivatives')
        elif op == 'step' and case['module'] and not case['rec']:
            x, e = r.randn(case['sizes'][0]), r.randn(case['sizes'][-1])
            j = (i + 1) % len(objs)
            o.reset()
            ref.reset()
            exp = same(i, x)
            base.inputbuffer[0][:] = x
            if j != i:
                disturb(j)
            o.forward()
            h.close(base.outputbuffer[0], exp, 'forward uses the enabled parameters')
            base.resetDerivatives()
            ref.resetDerivatives()
            base.outputerror[0][:] = e
            if j != i:
                disturb(j)
            ref.backActivate(e)
            o.backward()
            h.close(base.inputerror[0], ref.inputerror[0], 'backward uses the enabled parameters')
            h.close(base.derivs, ref.derivs, 'derivatives of a backward step')
        elif op == 'data' and case['module']:
            from pybrain.datasets import UnsupervisedDataSet
            ds = UnsupervisedDataSet(case['sizes'][0])
            xs = r.randn(3, case['sizes'][0])
            for x in xs:
                ds.addSample(x)
            j = (i + 1) % len(objs)
            ref.reset()
            o.activate(xs[0])
            if j != i:
                disturb(j)
            h.close(o.activateOnDataset(ds), np.array([same(i, x) for x in xs]), 'activation on a dataset uses the enabled parameters')
        verify()
    h.label('module' if case['module'] else 'container')
    h.label('cap:%s' % case['max'])
    if len(objs) > 1 and {'mutate', 'topo'} & kinds and len(kinds) > 2:
        h.nontrivial()


def gen_cheap(st):
    op = st.one_of(st.tuples(st.just('mutate'), st.integers(0, 3)), st.tuples(st.just('randomize'), st.integers(0, 3)), st.tuples(st.just('edit'), st.integers(0, 3)), st.tuples(st.just('copy'), st.integers(0, 3)), st.tuples(st.just('similar'), st.integers(0, 3)), st.tuples(st.just('use'), st.integers(0, 3)), st.tuples(st.just('grad'), st.integers(0, 3)), st.tuples(st.just('base'), st.integers(0, 3)), st.tuples(st.just('seq'), st.integers(0, 3)), st.tuples(st.just('step'), st.integers(0, 3)))
    return st.fixed_dictionaries({'rec': st.booleans(), 'sizes': st.lists(st.integers(1, 3), min_size=2, max_size=3), 'seed': st.integers(0, 10 ** 6), 'ops': st.lists(op, min_size=1, max_size=16)})


def run_cheap(case, h):
    import numpy as np
    from pybrain.structure.evolvables.cheaplycopiable import CheaplyCopiable
    np.random.seed(case['seed'] % 2 ** 31)
    r = np.random.RandomState(case['seed'] + 7654321)
    base, ref = build(case['sizes'], case['rec']), build(case['sizes'], case['rec'])
    p0 = base.params.copy()
    objs = [CheaplyCopiable(base)]
    model = [p0.copy()]
    h.eq((objs[0].indim, objs[0].outdim, objs[0].paramdim), (base.indim, base.outdim, base.paramdim), 'dimensions')
    kinds = set()
    for op, i in case['ops']:
        i = i % len(objs)
        o, p = objs[i], model[i]
        kinds.add(op)
        if op == 'mutate':
            o.mutate()
            q = np.array(o.params)
            h.check((q != p).all() and (abs(q - p) <= 1.0).all(), 'mutation changes every parameter a little')
            model[i] = q.copy()
        elif op == 'randomize':
            o.randomize()
            q = np.array(o.params)
            h.check((q != p).all(), 'fresh values')
            model[i] = q.copy()
        elif op == 'edit':
            q = r.randn(len(p))
            if i % 2:
                o._setParameters(q.copy())
            else:
                o.params[:] = q
            model[i] = q
        elif op in ('copy', 'similar') and len(objs) < 4:
            c = o.copy() if op == 'copy' else o.newSimilarInstance()
            objs.append(c)
            if op == 'copy':
                h.close(c.params, p, 'a copy has the same parameters', rtol=0, atol=0)
            model.append(np.array(c.params))
            h.eq((c.indim, c.outdim, c.paramdim), (base.indim, base.outdim, base.paramdim), 'dimensions of a copy')
        elif op in ('use', 'grad'):
            T = 3 if case['rec'] else 1
            xs = r.randn(T, case['sizes'][0])
            ref._setParameters(p.copy())
            ref.reset()
            o.reset()
            j = (i + 1) % len(objs)
            for x in xs:
                h.close(o.activate(x), ref.activate(x), 'activation uses the own parameters')
            if op == 'grad':
                ref.resetDerivatives()
                o.resetDerivatives()
                h.check((np.array(o.derivs) == 0).all(), 'derivatives are reset')
                for e in r.randn(T, case['sizes'][-1]):
                    if j != i:
                        objs[j].getBase()
                        h.label('interleaved')
                    h.close(o.backActivate(e), ref.backActivate(e), 'backpropagated errors')
                h.close(o.derivs, ref.derivs, 'derivatives')
        elif op == 'step' and not case['rec']:
            x, e = r.randn(case['sizes'][0]), r.randn(case['sizes'][-1])
            j = (i + 1) % len(objs)
            ref._setParameters(p.copy())
            ref.reset()
            o.reset()
            exp = ref.activate(x)
            base.inputbuffer[0][:] = x
            objs[j].getBase()
            o.forward()
            h.close(o.outputbuffer[0], exp, 'forward uses the own parameters')
            o.resetDerivatives()
            ref.resetDerivatives()
            base.outputerror[0][:] = e
            objs[j].getBase()
            ref.backActivate(e)
            o.backward()
            h.close(o.inputerror[0], ref.inputerror[0], 'backward uses the own parameters')
            h.close(o.derivs, ref.derivs, 'derivatives of a backward step')
        elif op == 'base':
            b = o.getBase()
            h.close(b.params, p, 'the module carries the parameters', rtol=0, atol=0)
        elif op == 'seq':
            xs = r.randn(3, case['sizes'][0])
            o.reset()
            ref.reset()
            for k, x in enumerate(xs):
                j = (i + k) % len(objs)
                ref._setParameters(model[j].copy())
                h.close(objs[j].activate(x), ref.activate(x), 'alternating activations use the own parameters')
            h.label('alternating:%d' % min(len(objs), 3))
        for j, q in enumerate(model):
            h.close(objs[j].params, q, 'every copy keeps its own parameters', rtol=0, atol=0)
    h.label('copies:%d' % len(objs))
    if len(objs) > 1 and len(kinds) > 2:
        h.nontrivial()


FACETS = {
    'masked': {'gen': gen_mask, 'run': run_mask, 'quick': 400, 'thorough': 5000},
    'cheaplycopiable': {'gen': gen_cheap, 'run': run_cheap, 'quick': 300, 'thorough': 4000},
}
