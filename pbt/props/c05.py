"""C05: graph construction and sorting."""
from . import netlib as N

RULE = ("random directed graphs of 2-9 linear modules with up to 16 connections, some with loops, random names, random construction order, "
        "duplicate additions and repeated sorting/extension; non-trivial: at least 4 modules and 4 connections")
ASSUMPTIONS = ["the order among independent modules is not constrained, except that equal constructions give equal orders"]


def gen(st):
    @st.composite
    def g(draw):
        n = draw(st.integers(2, 9))
        dag = draw(st.booleans())
        m = draw(st.integers(0, 16))
        pos = draw(st.permutations(list(range(n))))
        es = []
        for _ in range(m):
            a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if dag:
                if a == b:
                    continue
                if pos[a] > pos[b]:
                    a, b = b, a
            es.append([a, b])
        return {'n': n, 'edges': es, 'names': draw(st.permutations(list(range(n)))), 'order': draw(st.permutations(list(range(n)))),
                'dims': draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)), 'ins': draw(st.lists(st.integers(0, n - 1), max_size=3)),
                'outs': draw(st.lists(st.integers(0, n - 1), max_size=3)), 'rec': draw(st.booleans()), 'extra': draw(st.booleans()),
                'slice': draw(st.booleans()), 'empty': draw(st.booleans()), 'same': draw(st.sampled_from([0, 0, 0, 2, 1])), 'caps': draw(st.booleans())}
    return g()


def has_loop(n, edges):
    deg = [0] * n
    for a, b in edges:
        deg[b] += 1
    todo = [i for i in range(n) if deg[i] == 0]
    seen = 0
    while todo:
        x = todo.pop()
        seen += 1
        for a, b in edges:
            if a == x:
                deg[b] -= 1
                if deg[b] == 0:
                    todo.append(b)
    return seen < n


def run(case, h):
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork, LinearLayer, FullConnection
    from pybrain.structure.moduleslice import ModuleSlice
    from pybrain.structure.networks.network import NetworkConstructionException
    n, edges = case['n'], case['edges']
    same = case['same']

    def name(i):
        k = case['names'][i] if not same else case['names'][i] % same      # several modules may have one name
        return '%s%d' % ('nN'[k % 2], k // 2) if case.get('caps') else 'n%d' % k

    def build():
        mods = [LinearLayer(case['dims'][i], name=name(i)) for i in range(n)]
        net = (RecurrentNetwork if case['rec'] else FeedForwardNetwork)(name='net')
        for i in case['ins']:
            net.addInputModule(mods[i])
        for i in case['outs']:
            m = mods[i]
            if case['slice'] and case['dims'][i] > 1:
                m = ModuleSlice(m, inSliceTo=1, outSliceTo=1)
            net.addOutputModule(m)
        for i in case['order']:
            net.addModule(mods[i])
            if case['order'][0] == i:
                net.addModule(mods[i])
        for j, (a, b) in enumerate(edges):
            c = FullConnection(mods[a], mods[b], name='e%d' % ((j * 7) % 17))
            c.params[:] = j + 1
            net.addConnection(c)
        return net, mods
    net, mods = build()
    for i in range(n):
        h.check(net[name(i)] is mods[i] or (same and net[name(i)].name == name(i)), 'lookup by name before sorting')
    uniq = lambda l: [x for i, x in enumerate(l) if x not in l[:i]]
    if has_loop(n, edges):
        h.label('loop')
        h.raises(NetworkConstructionException, net.sortModules, 'sorting a network with a loop')
        h.nontrivial(n >= 4)
        return
    net.sortModules()

    def valid(net, mods, edges, what):
        order = list(net.modulesSorted)
        h.eq(len(order), len(mods), 'number of sorted modules' + what)
        for m in mods:
            h.eq(len([x for x in order if x is m]), 1, 'every module is sorted exactly once' + what)
        place = dict((id(m), i) for i, m in enumerate(order))
        for a, b in edges:
            h.check(place[id(mods[a])] < place[id(mods[b])], lambda: 'connection %d->%d goes against the sorted order%s' % (a, b, what))
    valid(net, mods, edges, '')
    ins, outs = uniq(case['ins']), uniq(case['outs'])
    h.eq(net.indim, sum(case['dims'][i] for i in ins), 'input dimension')
    h.eq(net.outdim, sum(case['dims'][i] for i in outs), 'output dimension')
    h.seq([m.name for m in net.inmodules], [name(i) for i in ins], 'input modules in the order they were added')
    h.seq([m.name for m in net.outmodules], [name(i) for i in outs], 'output modules in the order they were added')
    h.eq(net.paramdim, sum(case['dims'][a] * case['dims'][b] for a, b in edges), 'number of parameters')
    for i in range(n):
        h.check(net[name(i)] is mods[i] or (same and net[name(i)].name == name(i)), 'lookup by name')
    h.check(net['none such'] is None, 'lookup of an unknown name')
    text = str(net)
    for m in mods:
        h.check(m.name in text, 'the description names every module')
    # equal constructions give equal orders and parameter layouts
    net2, mods2 = build()
    net2.sortModules()
    if not same:
        h.seq([m.name for m in net2.modulesSorted], [m.name for m in net.modulesSorted], 'order of an equally constructed network')
    if net.paramdim and not same:
        h.close(net2.params, net.params, 'parameter layout of an equally constructed network', rtol=0, atol=0)
    before = [id(m) for m in net.modulesSorted]
    net.sortModules()
    h.seq([id(m) for m in net.modulesSorted], before, 'order after sorting again')
    h.eq(sorted(id(m) for m in net.modules), sorted(id(m) for m in mods), 'the modules of the network')
    if case['extra']:
        # extend: a new module between the first sorted and the last one, then perhaps close a loop
        h.label('extended')
        x = LinearLayer(1, name='zz')
        net.addModule(x)
        h.check(net['zz'] is x, 'lookup of a module that was added after sorting')
        net.addConnection(FullConnection(mods[0], x))
        net.sortModules()
        valid(net, mods + [x], edges + [[0, n]], ' after extension')
        if edges:
            net.addConnection(FullConnection(x, mods[0]))
            h.raises(NetworkConstructionException, net.sortModules, 'sorting after a loop was closed')
    h.nontrivial(n >= 4 and len(edges) >= 4)


# every topologically sorted network propagates values: path counting
def gen_paths(st):
    return gen(st).filter(lambda c: c['edges'])


def run_paths(case, h):
    """with unit weights and dimension 1, the output of each module is the number of paths from the inputs"""
    from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection
    n, edges = case['n'], case['edges']
    if has_loop(n, edges):
        h.discard()
    mods = [LinearLayer(1, name='n%d' % case['names'][i]) for i in range(n)]
    net = FeedForwardNetwork()
    ins = [x for i, x in enumerate(case['ins']) if x not in case['ins'][:i]] or [edges[0][0]]
    for i in ins:
        net.addInputModule(mods[i])
    for i in case['order']:
        net.addOutputModule(mods[i])
    for a, b in edges:
        c = FullConnection(mods[a], mods[b])
        c.params[:] = 1
        net.addConnection(c)
    net.sortModules()
    cnt = {}

    def paths(v):
        if v not in cnt:
            cnt[v] = (v in ins) + sum(paths(a) for a, b in edges if b == v)
        return cnt[v]
    want = [paths(i) for i in case['order']]
    for _ in range(2):
        h.close(net.activate([1.0] * len(ins)), want, 'number of paths from the inputs')
    h.nontrivial(len(edges) >= 4)


FACETS = {
    'sort': {'gen': gen, 'run': run, 'quick': 3000, 'thorough': 40000},
    'paths': {'gen': gen_paths, 'run': run_paths, 'quick': 1600, 'thorough': 20000},
}
