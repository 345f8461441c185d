"""C08: weight-sharing architectures (swiping, border swiping, capture game, bidirectional, convolutional)."""
import itertools, math
from . import netlib as N

RULE = ("swiping networks over 1-3 dimensions, border-swiping and capture-game networks of size 2-4 and their resizings, bidirectional and "
        "convolutional networks with random sizes and flags, against direct coordinate-wise evaluation with the shared weights and under board "
        "symmetries; non-trivial: more than one position per shared weight")
ASSUMPTIONS = ["weights are read from the architecture's own shared containers (predefined / connections)"]
ACT = {'tanh': N.tnh, 'sig': N.sgm, 'lin': lambda v: v}


def matvec(w, x, n):
    m = len(x)
    return [sum(w[o * m + i] * x[i] for i in range(m)) for o in range(n)]


def vadd(*vs):
    return [sum(t) for t in zip(*vs)]


def swiping_reference(dims, x, win, wout, wh, hsize, osize, hact, oact, border=None, direct=None):
    """wh(dim, direction) -> weights; border(dim, unit) -> bias weights or None"""
    units = list(itertools.product(*[range(d) for d in dims]))
    H = {}

    def hid(u, s):
        if (u, s) not in H:
            z = matvec(win, x[u], hsize)
            for d in range(len(dims)):
                up = (s // 2 ** d) % 2 == 0
                p = list(u)
                p[d] += -1 if up else 1
                if 0 <= p[d] < dims[d]:
                    z = vadd(z, matvec(wh(d, '+' if up else '-'), hid(tuple(p), s), hsize))
                elif border is not None:
                    z = vadd(z, border(d, u))
            H[u, s] = [hact(v) for v in z]
        return H[u, s]
    out = {}
    for u in units:
        z = [0.0] * osize
        for s in range(2 ** len(dims)):
            z = vadd(z, matvec(wout, hid(u, s), osize))
        if direct is not None:
            z = vadd(z, matvec(direct, x[u], osize))
        out[u] = [oact(v) for v in z]
    return out


def fill(net, seed):
    """random weights from the case"""
    net.params[:] = N.values(seed, net.paramdim, 0.8)


def flatten(dims, d):
    return [v for u in itertools.product(*[range(n) for n in dims]) for v in d[u]]


def gen_swipe(st):
    return st.fixed_dictionaries({
        'dims': st.one_of(st.lists(st.integers(2, 4), min_size=1, max_size=2), st.lists(st.just(2), min_size=3, max_size=3)),
        'isz': st.integers(1, 2), 'hsz': st.integers(1, 3), 'osz': st.integers(1, 2), 'symdim': st.booleans(), 'symdir': st.booleans(),
        'kind': st.sampled_from(['swipe', 'swipe', 'border', 'simple', 'mdrnn']), 'flat': st.booleans(), 'vs': st.integers(0, 10 ** 6), 'n': st.integers(1, 3)})


def run_swipe(case, h):
    from pybrain.structure import LinearLayer, TanhLayer, SigmoidLayer
    from pybrain.structure.modulemesh import ModuleMesh
    from pybrain.structure.networks.swiping import SwipingNetwork
    from pybrain.structure.networks.borderswiping import BorderSwipingNetwork
    from pybrain.structure.networks.multidimensional import MultiDimensionalRNN
    dims = tuple(case['dims'])
    I, H, O = case['isz'], case['hsz'], case['osz']
    npos = 1
    for d in dims:
        npos *= d
    hmesh = ModuleMesh.constructWithLayers(TanhLayer, H, dims + (2 ** len(dims),), 'hidden')
    if case['flat']:
        imesh = ModuleMesh.viewOnFlatLayer(LinearLayer(I * npos, name='input'), dims, 'inmesh')
        omesh = ModuleMesh.viewOnFlatLayer(SigmoidLayer(O * npos, name='output'), dims, 'outmesh')
    else:
        imesh = ModuleMesh.constructWithLayers(LinearLayer, I, dims, 'inmesh')
        omesh = ModuleMesh.constructWithLayers(SigmoidLayer, O, dims, 'outmesh')
    kw = {'symmetricdimensions': case['symdim']}
    border = None
    kind = case['kind']
    if kind == 'mdrnn':
        net = MultiDimensionalRNN(dims, insize=I, hsize=H, outputs=O, symmetricdirections=case['symdir'], **kw)
    elif kind == 'swipe':
        net = SwipingNetwork(inmesh=imesh, hiddenmesh=hmesh, outmesh=omesh, symmetricdirections=case['symdir'], **kw)
    else:
        net = BorderSwipingNetwork(inmesh=imesh, hiddenmesh=hmesh, outmesh=omesh, simpleborders=kind == 'simple', **kw)
    symdir = case['symdir'] if kind in ('swipe', 'mdrnn') else True
    h.eq((net.indim, net.outdim), (I * npos, O * npos), 'dimensions')
    fill(net, case['vs'])
    pre = net.predefined
    win, wout = list(pre['inconn'].params), list(pre['outconn'].params)
    h.eq((len(win), len(wout)), (I * H, H * O), 'sizes of the shared input and output weights')
    nh = (1 if case['symdim'] else len(dims)) * (1 if symdir else 2) * H * H
    npar = I * H + H * O + nh
    # weights that are the same for all dimensions are those of the first one
    one = lambda d: 0 if case['symdim'] else d
    wh = lambda d, s: list(pre['hconns'][one(d) if symdir else (one(d), s)].params)
    if kind == 'simple':
        border = lambda d, u: list(pre['borderconn'].params)
        npar += H
    elif kind == 'border':
        def canon(d, u):
            t = [u[i] for i in range(len(dims)) if i != d]
            if not case['symdim']:
                return tuple(t)
            o = [dims[i] for i in range(len(dims)) if i != d]
            return tuple(min(n - 1 - a, a) for n, a in zip(o, t))
        border = lambda d, u: list(pre['bordconns'][one(d) if canon(d, u) in pre['bordconns'][0] else d][canon(d, u)].params)
        seen = set()
        for d in range(len(dims)):
            for u in itertools.product(*[range(n) for n in dims]):
                if u[d] in (0, dims[d] - 1):
                    seen.add((None if case['symdim'] else d, canon(d, u)))
        npar += H * len(seen)
    h.eq(net.paramdim, npar, 'number of parameters: one set per kind of shared connection')
    for k in range(case['n']):
        xs = N.values(case['vs'] + 10 + k, I * npos)
        x = {}
        for p, u in enumerate(itertools.product(*[range(n) for n in dims])):
            x[u] = xs[p * I:(p + 1) * I]
        want = swiping_reference(dims, x, win, wout, wh, H, O, N.tnh, N.sgm, border)
        h.close(net.activate(xs), flatten(dims, want), 'output of the %s network' % kind, rtol=1e-8, atol=1e-10)
    h.label(kind, 'dims%d' % len(dims))
    h.nontrivial(npos > 3)


# capture game networks: evaluation, board symmetry, resizing
def gen_capture(st):
    return st.fixed_dictionaries({
        'size': st.integers(2, 4), 'hsize': st.integers(1, 3), 'outputs': st.integers(1, 2), 'simple': st.booleans(), 'direct': st.booleans(),
        'combin': st.sampled_from([0, 0, 2]), 'resize': st.lists(st.integers(2, 5), max_size=2), 'vs': st.integers(0, 10 ** 6),
        'sym': st.integers(0, 7), 'lstm': st.sampled_from([False, False, False, True])})


def sym_map(k, n, u):
    i, j = u
    for _ in range(k % 4):
        i, j = j, n - 1 - i
    if k >= 4:
        i, j = j, i
    return (i, j)


def run_capture(case, h):
    import numpy
    from pybrain.structure.networks.custom.capturegame import CaptureGameNetwork
    from pybrain.structure.modules import MDLSTMLayer
    n, H, O, G = case['size'], case['hsize'], case['outputs'], case['combin']
    kw = {}
    if case['simple']:
        kw['simpleborders'] = True
    if case['direct']:
        kw['directlink'] = True
    if G:
        kw['combinputs'] = G
    if case['lstm']:
        kw['componentclass'] = MDLSTMLayer
        G = 0
        kw.pop('combinputs', None)
    net = CaptureGameNetwork(size=n, hsize=H, outputs=O, **kw)
    fill(net, case['vs'])

    def snapshot(net):
        pre = net.predefined
        r = {'inconn': list(pre['inconn'].params), 'outconn': list(pre['outconn'].params)}
        for k, c in pre['hconns'].items():
            r['h', k] = list(c.params)
        if case['simple']:
            r['b'] = list(pre['borderconn'].params)
        else:
            for d, cs in pre['bordconns'].items():
                for t, c in cs.items():
                    r['b', d, t] = list(c.params)
        for k in ('directconn', 'globalinconn'):
            if k in pre:
                r[k] = list(pre[k].params)
        return r

    def check(net, n, what):
        h.eq((net.indim, net.outdim), (2 * n * n + G, O * n * n), 'dimensions' + what)
        xs = N.values(case['vs'] + 3, 2 * n * n + G)
        out = net.activate(xs)
        if case['lstm']:
            return
        pre = net.predefined
        dims = (n, n)
        x = dict((u, xs[2 * (u[0] * n + u[1]):2 * (u[0] * n + u[1]) + 2]) for u in itertools.product(range(n), range(n)))
        bias = (lambda d, u: list(pre['borderconn'].params)) if case['simple'] else \
            (lambda d, u: list(pre['bordconns'][0][(min(u[1 - d], n - 1 - u[1 - d]),)].params))
        win, D = list(pre['inconn'].params), 2
        if G:
            # global inputs reach every hidden unit through one shared weight matrix
            wg = list(pre['globalinconn'].params)
            g = xs[2 * n * n:]
            win = [v for o in range(H) for v in win[o * 2:o * 2 + 2] + wg[o * G:(o + 1) * G]]
            xx = dict((u, v + g) for u, v in x.items())
            if case['direct']:
                dc = list(pre['directconn'].params)
                direct = [v for o in range(O) for v in dc[o * 2:o * 2 + 2] + [0.0] * G]
            else:
                direct = None
        else:
            xx = x
            direct = list(pre['directconn'].params) if case['direct'] else None
        want = swiping_reference(dims, xx, win, list(pre['outconn'].params), lambda d, s: list(pre['hconns'][0].params), H, O,
                                 N.tnh, N.sgm, bias, direct)
        h.close(out, flatten(dims, want), 'output' + what, rtol=1e-8, atol=1e-10)
        # board symmetry
        k = case['sym']
        ys = [0.0] * (2 * n * n) + xs[2 * n * n:]
        for u in itertools.product(range(n), range(n)):
            v = sym_map(k, n, u)
            for q in range(2):
                ys[2 * (v[0] * n + v[1]) + q] = xs[2 * (u[0] * n + u[1]) + q]
        sym = net.activate(ys)
        for u in itertools.product(range(n), range(n)):
            v = sym_map(k, n, u)
            h.close(sym[O * (v[0] * n + v[1]):O * (v[0] * n + v[1]) + O], out[O * (u[0] * n + u[1]):O * (u[0] * n + u[1]) + O],
                    'output for a rotated or mirrored board' + what, rtol=1e-8, atol=1e-10)
    check(net, n, '')
    cur, cn = net, n
    for r in case['resize']:
        h.label('resized')
        before = snapshot(cur)
        bp = cur.params.copy()
        new = cur.resizedTo(r)
        h.eq(new.size, r, 'size after resizing')
        h.check(new is not cur, 'resizedTo gives a new network')
        h.close(cur.params, bp, 'the original keeps its parameters', rtol=0, atol=0)
        after = snapshot(new)
        for k in before:
            h.check(k in after, 'shared weights %s survive resizing' % (k,))
            h.close(after[k], before[k], 'shared weights %s after resizing' % (k,), rtol=0, atol=0)
        check(new, r, ' after resizing from %d to %d' % (cn, r))
        np_ = new.params.copy()
        new.params[:] = 0.25
        h.close(cur.params, bp, 'the original is independent of its resized copy', rtol=0, atol=0)
        check(cur, cn, ' of the original after resizing')
        # extrapolated border weights: between the smallest and the largest known ones
        new.params[:] = np_
        if not case['simple'] and r != cn:
            known = [v for k, v in before.items() if k[0] == 'b' and k[1] == 0]
            for k, v in after.items():
                if k[0] == 'b' and k not in before:
                    h.label('extrapolated')
                    for q in range(len(v)):
                        lo, hi = min(w[q] for w in known), max(w[q] for w in known)
                        h.check(lo - 1e-9 <= v[q] <= hi + 1e-9, 'extrapolated border weights are averages of known ones')
                    near = max(t for t in [kk[2] for kk in before if kk[0] == 'b' and kk[1] == 0] if t < k[2])
                    h.close(v, before['b', 0, near], 'extrapolated border weights are those of the closest known place', rtol=1e-9)
        cur, cn = new, r
    h.nontrivial(n > 2 or bool(case['resize']))


def gen_bidir(st):
    return st.fixed_dictionaries({'seqlen': st.integers(2, 5), 'i': st.integers(1, 2), 'o': st.integers(1, 2), 'hid': st.integers(1, 3),
                                  'sym': st.booleans(), 'vs': st.integers(0, 10 ** 6), 'n': st.integers(1, 3)})


def run_bidir(case, h):
    from pybrain.structure.networks.bidirectional import BidirectionalNetwork
    L, I, O, H = case['seqlen'], case['i'], case['o'], case['hid']
    net = BidirectionalNetwork(seqlen=L, inputsize=I, outputsize=O, hiddensize=H, symmetric=case['sym'])
    h.eq((net.indim, net.outdim), (L * I, L * O), 'dimensions')
    k = I * H + H * O + H * H
    h.eq(net.paramdim, k if case['sym'] else 2 * k, 'number of parameters')
    fill(net, case['vs'])
    W = {}
    for c in itertools.chain(*net.connections.values()):
        a, b = c.inmod.name, c.outmod.name
        if a == 'input':
            key = ('in', b[7:8])
        elif b == 'output':
            key = ('out', a[7:8])
        else:
            key = ('h', a[7:8])
        w = [float(v) for v in c.params]
        h.eq(W.setdefault(key, w), w, 'all %s connections share their weights' % (key,))
    h.eq(len(W), 6, 'kinds of connections')
    if case['sym']:
        for q in ('in', 'out', 'h'):
            h.eq(W[q, '0'], W[q, '1'], 'symmetric network: both directions share weights')
    for n in range(case['n']):
        xs = N.values(case['vs'] + 5 + n, L * I)
        f, b = [None] * L, [None] * L
        for t in range(L):
            z = matvec(W['in', '0'], xs[t * I:(t + 1) * I], H)
            if t:
                z = vadd(z, matvec(W['h', '0'], f[t - 1], H))
            f[t] = [N.tnh(v) for v in z]
        for t in reversed(range(L)):
            z = matvec(W['in', '1'], xs[t * I:(t + 1) * I], H)
            if t < L - 1:
                z = vadd(z, matvec(W['h', '1'], b[t + 1], H))
            b[t] = [N.tnh(v) for v in z]
        want = []
        for t in range(L):
            want += [N.sgm(v) for v in vadd(matvec(W['out', '0'], f[t], O), matvec(W['out', '1'], b[t], O))]
        out = net.activate(xs)
        h.close(out, want, 'output of the bidirectional network', rtol=1e-8, atol=1e-10)
        if case['sym']:
            rev = [v for t in reversed(range(L)) for v in xs[t * I:(t + 1) * I]]
            orev = [v for t in reversed(range(L)) for v in out[t * O:(t + 1) * O]]
            h.close(net.activate(rev), orev, 'a symmetric network commutes with time reversal', rtol=1e-8, atol=1e-10)
    h.nontrivial(L > 2)


def gen_conv(st):
    return st.fixed_dictionaries({'board': st.booleans(), 'inputdim': st.integers(1, 2), 'size': st.integers(2, 5), 'conv': st.integers(1, 4),
                                  'maps': st.integers(1, 3), 'vs': st.integers(0, 10 ** 6), 'n': st.integers(1, 2)})


def run_conv(case, h):
    from pybrain.structure.networks.convolutional import SimpleConvolutionalNetwork
    from pybrain.structure.networks.custom.convboard import ConvolutionalBoardNetwork
    C, F, S = case['conv'], case['maps'], case['size']
    if case['board']:
        D = 2
        net = ConvolutionalBoardNetwork(S, C, F)
        insize = S + C - 1
        lo = C // 2
    else:
        D = case['inputdim']
        C = min(C, S)
        if S - C + 1 == 1 and F * 2 < 2:
            h.discard()
        insize, lo = S, 0
        if S == C:
            # a single position: no proper slices of the hidden layer exist
            h.discard()
        net = SimpleConvolutionalNetwork(D, S, C, F)
    out = insize - C + 1
    h.eq((net.indim, net.outdim), (D * S * S, out * out), 'dimensions')
    h.eq(net.paramdim, C * C * F * D + F + (D if case['board'] and C > 1 else 0), 'number of parameters')
    fill(net, case['vs'])
    conv, wout, wb = {}, None, [0.0] * D
    for c in itertools.chain(*net.connections.values()):
        if c.outmod.name == 'out':
            wout = list(c.params)
        elif c.inmod.indim == 0:
            wb = list(c.params)
    for m in net.motherconnections:
        if m.name.startswith('conv'):
            conv[int(m.name[4:])] = list(m.params)
    for n in range(case['n']):
        xs = N.values(case['vs'] + 5 + n, D * S * S)
        grid = [[list(wb) for _ in range(insize)] for _ in range(insize)]
        for i in range(S):
            for j in range(S):
                grid[i + lo][j + lo] = xs[(i * S + j) * D:(i * S + j + 1) * D]
        want = []
        for i in range(out):
            for j in range(out):
                hid = [0.0] * F
                for k in range(C):
                    row = [v for q in range(C) for v in grid[i + k][j + q]]
                    hid = vadd(hid, matvec(conv[k], row, F))
                want.append(N.sgm(sum(a * N.tnh(b) for a, b in zip(wout, hid))))
        h.close(net.activate(xs), want, 'output of the convolutional network', rtol=1e-8, atol=1e-10)
    h.label('board' if case['board'] else 'simple')
    h.nontrivial(out > 1)


FACETS = {
    'swipe': {'gen': gen_swipe, 'run': run_swipe, 'quick': 300, 'thorough': 4000},
    'capture': {'gen': gen_capture, 'run': run_capture, 'quick': 240, 'thorough': 3000},
    'bidir': {'gen': gen_bidir, 'run': run_bidir, 'quick': 300, 'thorough': 3000},
    'conv': {'gen': gen_conv, 'run': run_conv, 'quick': 300, 'thorough': 3000},
}
