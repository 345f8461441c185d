"""C06: networks survive the XML round trip."""
import itertools
from . import netlib as N

RULE = ("random feed-forward and recurrent networks of all supported layer and connection kinds (shared, sliced, nested, modules that are input "
        "and output), buildNetwork networks, capture-game networks; written, read back (also several networks per file, selected by index and "
        "name), changed and written again; non-trivial: at least 3 modules and a parameter")
ASSUMPTIONS = ["module names are unique within one network (nested networks may reuse them) and are not the repr of a constructor argument (None, True, 7)", "finite parameters",
               "the order of independent containers within the flat vector is not claimed, only the value of each container"]
CK = ('full', 'full', 'full', 'id', 'lincon', 'fns', 'perm', 'subs')
NAMES = ['plain', 'with space', 'a&b', '<tag>', 'q"uote', "it's", 'x-1.5', 'None', '7', 'True', ' lead', 'trail ', 'two  blanks', 'semi;colon', 'caf\u00e9']


def gen(st):
    netst = N.net_strategy(st, kinds=N.DIFF + ['softmax'], ckinds=CK)
    rnetst = N.net_strategy(st, ckinds=CK, recurrent=True, lstm=True, maxdim=2)
    one = st.fixed_dictionaries({'net': st.one_of(netst, rnetst), 'name': st.sampled_from(NAMES), 'inner': st.one_of(st.none(), st.none(), netst),
                                 'modname': st.sampled_from([None, None] + NAMES[:7] + NAMES[10:])})
    return st.fixed_dictionaries({'nets': st.lists(one, min_size=1, max_size=3), 'xs': st.integers(0, 10 ** 6), 'change': st.booleans(), 'twice': st.booleans()})


def build(one, i):
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork, LinearLayer, FullConnection
    spec = one['net']
    rec = bool(spec['rec'])
    P = N.draw_params(spec)
    B = N.build(spec, P, recurrent=rec)
    net = B.net
    net.name = 'net%d %s' % (i, one['name'])
    if one['modname'] is not None:
        B.mods[-1].name = one['modname']
    if one['inner'] is not None and not rec:
        # a network nested inside, which reuses the module names of the outer one
        inner = N.build(one['inner'], N.draw_params(one['inner'])).net
        inner.name = 'inner'
        names = [B.mods[0].name, 'theend']
        for i, mi in enumerate(inner.modulesSorted):
            mi.name = names[i] if i < 2 else 'i%d' % i
        outer = FeedForwardNetwork(name=net.name)
        a = LinearLayer(1, name=B.mods[0].name)
        b = LinearLayer(2, name='theend')
        outer.addInputModule(a)
        outer.addModule(inner)
        outer.addOutputModule(b)
        outer.addConnection(FullConnection(a, inner, name='first'))
        outer.addConnection(FullConnection(inner, b, name='second'))
        outer.addConnection(FullConnection(a, b, name='third'))
        outer.sortModules()
        return outer, False
    return net, rec


def describe(net):
    """structure by name: comparable between a network and its reread copy"""
    from pybrain.structure.networks.network import Network
    from pybrain.structure.connections.shared import SharedConnection
    mods = {}
    for m in net.modules:
        mods[m.name] = describe(m) if isinstance(m, Network) else (type(m).__name__, m.indim, m.outdim, vals(m), tuple(
            (k, getattr(m, k)) for k in ('dim', 'peepholes', 'dimensions', 'slicelength') if hasattr(m, k)))
    cs = []
    for tag, lst in (('c', itertools.chain(*net.connections.values())), ('r', getattr(net, 'recurrentConns', []))):
        for c in lst:
            cs.append((tag, type(c).__name__, str(c.name), c.inmod.name, c.outmod.name, c.inSliceFrom, c.inSliceTo, c.outSliceFrom, c.outSliceTo,
                       getattr(c, 'blocksize', None), tuple(getattr(c, 'permutation', ())),
                       vals(c), c.mother.name if isinstance(c, SharedConnection) else None))
    return {'class': type(net).__name__, 'name': net.name, 'mods': mods, 'conns': sorted(cs, key=repr), 'in': [m.name for m in net.inmodules],
            'out': [m.name for m in net.outmodules], 'npar': net.paramdim, 'dims': (net.indim, net.outdim),
            'mothers': sorted((m.name, vals(m)) for m in net.motherconnections)}


def vals(c):
    return tuple(float(v) for v in c.params) if c.paramdim else ()


def same(h, a, b, what):
    for k in sorted(a):
        if k == 'mods':
            h.eq(sorted(b['mods']), sorted(a['mods']), 'module names' + what)
            for n in a['mods']:
                if isinstance(a['mods'][n], dict):
                    h.check(isinstance(b['mods'][n], dict), 'nested network' + what)
                    same(h, a['mods'][n], b['mods'][n], ' of the nested network' + what)
                else:
                    h.eq(b['mods'][n], a['mods'][n], 'module %s%s' % (n, what))
        else:
            h.eq(b[k], a[k], k + what)


def behave(net, seq):
    net.reset()
    return [net.activate(x) for x in seq]


def run(case, h):
    from pybrain.tools.customxml import NetworkWriter, NetworkReader
    nets = [build(o, i) for i, o in enumerate(case['nets'])]
    f = 'net.xml'
    for i, (net, rec) in enumerate(nets):
        before = describe(net)
        if i == 0:
            NetworkWriter.writeToFile(net, f)
        else:
            NetworkWriter.appendToFile(net, f)
        same(h, before, describe(net), ' of the original after writing')
    order = list(range(len(nets)))
    for i in order + order[::-1]:
        net, rec = nets[i]
        what = ' of network %d after reading' % i
        r = NetworkReader.readFrom(f, index=i)
        d = describe(net)
        same(h, d, describe(r), what)
        same(h, d, describe(NetworkReader.readFrom(f, name=net.name)), what + ' by name')
        seq = [N.values(case['xs'] * 10 + t, net.indim) for t in range(3 if rec else 2)]
        want = behave(net, seq)
        scale = max([1.0] + [abs(v) for w in want for v in w])
        if scale < 1e50:
            for x, w in zip(behave(r, seq), want):
                h.close(x, w, 'output' + what, rtol=1e-9, atol=1e-12 * scale)
        if case['change'] and r.paramdim:
            # the reread network is a working network of its own
            old = net.params.copy()
            r.params[:] = N.values(case['xs'] + 3, r.paramdim)
            h.close(net.params, old, 'the original is independent of the reread network', rtol=0, atol=0)
            NetworkWriter.writeToFile(r, 'second.xml')
            r2 = NetworkReader.readFrom('second.xml')
            same(h, describe(r), describe(r2), ' after changing and writing again')
            h.label('changed')
    for o in case['nets']:
        if o['net']['rec']:
            h.label('recurrent')
        elif o['inner'] is not None:
            h.label('nested')
        if set(o['net']['in']) & set(o['net']['out']):
            h.label('in+out')
        for c in o['net']['conns']:
            if c['mother'] is not None:
                h.label('shared')
    h.nontrivial(any(len(o['net']['mods']) >= 3 for o in case['nets']))


def gen_known(st):
    return st.fixed_dictionaries({'kind': st.sampled_from(['build', 'build', 'capture']), 'layers': st.lists(st.integers(1, 4), min_size=2, max_size=4),
                                  'hidden': st.sampled_from(['sig', 'tanh', 'lin', 'softmax', 'lstm']), 'out': st.sampled_from(['lin', 'sig', 'softmax']),
                                  'bias': st.booleans(), 'peep': st.booleans(), 'size': st.integers(2, 3), 'simple': st.booleans(), 'vs': st.integers(0, 10 ** 6),
                                  'mdlstm': st.booleans()})


def run_known(case, h):
    """buildNetwork and capture-game networks, including the flat parameter vector"""
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.tools.customxml import NetworkWriter, NetworkReader
    from pybrain.structure.modules import MDLSTMLayer, TanhLayer
    C = N.classes()
    if case['kind'] == 'build':
        layers = case['layers']
        kw = {}
        if case['hidden'] == 'lstm':
            layers = (layers + [2, 2])[:3]
            kw['peepholes'] = case['peep']
        net = buildNetwork(*layers, hiddenclass=C[case['hidden']], outclass=C[case['out']], bias=case['bias'], **kw)
    else:
        from pybrain.structure.networks.custom.capturegame import CaptureGameNetwork
        net = CaptureGameNetwork(size=case['size'], hsize=2, simpleborders=case['simple'],
                                 componentclass=MDLSTMLayer if case['mdlstm'] else TanhLayer)
    net.params[:] = N.values(case['vs'], net.paramdim)
    NetworkWriter.writeToFile(net, 'a.xml')
    r = NetworkReader.readFrom('a.xml')
    h.check(type(r) is type(net), 'class')
    seq = [N.values(case['vs'] + 1 + t, net.indim) for t in range(3)]
    for a, b in zip(behave(net, seq), behave(r, seq)):
        h.close(b, a, 'output after reading', rtol=1e-9, atol=1e-12)
    if case['kind'] == 'build':
        same(h, describe(net), describe(r), ' after reading')
    else:
        h.eq(r.paramdim, net.paramdim, 'number of parameters')
        h.eq(sorted(vals(m) for m in r.motherconnections), sorted(vals(m) for m in net.motherconnections), 'shared weights')
        NetworkWriter.writeToFile(r, 'b.xml')
        r2 = NetworkReader.readFrom('b.xml')
        h.eq(sorted(vals(m) for m in r2.motherconnections), sorted(vals(m) for m in net.motherconnections), 'shared weights after the second trip')
    h.label(case['kind'])
    h.nontrivial()


def gen_wide(st):
    return st.fixed_dictionaries({'n': st.integers(2, 14), 'm': st.integers(2, 14), 'hid': st.integers(1, 12), 'both': st.integers(0, 2), 'perm': st.integers(0, 10 ** 6),
                                  'rec': st.booleans(), 'ml': st.integers(1, 12)})


def run_wide(case, h):
    """many input modules, output modules, connections and shared parameters, added in any order"""
    import random
    from pybrain.structure import (FeedForwardNetwork, RecurrentNetwork, LinearLayer, TanhLayer, FullConnection, SharedFullConnection, MotherConnection,
                                   IdentityConnection)
    from pybrain.tools.customxml import NetworkWriter, NetworkReader
    r = random.Random(case['perm'])
    net = (RecurrentNetwork if case['rec'] else FeedForwardNetwork)(name='wide')
    ins = [LinearLayer(r.randint(1, 2), name='i%d' % k) for k in range(case['n'])]
    outs = [(TanhLayer if r.random() < 0.5 else LinearLayer)(r.randint(1, 2), name='o%d' % k) for k in range(case['m'])]
    hids = [TanhLayer(2, name='h%d' % k) for k in range(case['hid'])]
    for m in r.sample(ins, len(ins)):
        net.addInputModule(m)
    both = r.sample(ins, min(case['both'], len(ins)))
    for m in r.sample(outs + both, len(outs) + len(both)):
        net.addOutputModule(m)
    for m in r.sample(hids, len(hids)):
        net.addModule(m)
    mothers = [MotherConnection(4, name='mo%d' % k) for k in range(case['ml'])]
    k = 0
    for hd in hids:
        for i in r.sample(ins, min(3, len(ins))):
            net.addConnection(FullConnection(i, hd, name='c%d' % k))
            k += 1
        for o in r.sample(outs, min(3, len(outs))):
            net.addConnection(FullConnection(hd, o, name='c%d' % k))
            k += 1
    for a in range(len(hids) - 1):
        if r.random() < 0.7:
            net.addConnection(SharedFullConnection(r.choice(mothers), hids[a], hids[a + 1], name='c%d' % k))
            k += 1
        if case['rec']:
            net.addRecurrentConnection(SharedFullConnection(r.choice(mothers), hids[a + 1], hids[a], name='c%d' % k))
            k += 1
    net.sortModules()
    net.params[:] = N.values(case['perm'] + 1, net.paramdim, 0.5)
    NetworkWriter.writeToFile(net, 'w.xml')
    again = NetworkReader.readFrom('w.xml')
    same(h, describe(net), describe(again), ' after reading')
    seq = [N.values(case['perm'] + 2 + t, net.indim) for t in range(3)]
    for a, b in zip(behave(net, seq), behave(again, seq)):
        h.close(b, a, 'output after reading', rtol=1e-9, atol=1e-12)
    NetworkWriter.writeToFile(again, 'w2.xml')
    same(h, describe(net), describe(NetworkReader.readFrom('w2.xml')), ' after the second trip')
    h.label('ten or more' if case['m'] >= 10 else 'few')
    h.nontrivial()


FACETS = {
    'wide': {'gen': gen_wide, 'run': run_wide, 'quick': 200, 'thorough': 4000},
    'nets': {'gen': gen, 'run': run, 'quick': 1600, 'thorough': 24000},
    'known': {'gen': gen_known, 'run': run_known, 'quick': 200, 'thorough': 2000},
}
