"""Random network specifications (JSON), their construction with pybrain, and an independent
pure-Python reference evaluator that also works on complex numbers (complex-step derivatives)."""
import cmath, math, random

# ---------------------------------------------------------------------------------------------
# generation (hypothesis side)
DIFF = ['lin', 'sig', 'tanh', 'softsign', 'relu', 'mult', 'gate', 'dgate', 'switch']


def dims(m):
    k, d = m['k'], m.get('d', 0)
    if k == 'bias':
        return 0, 1
    if k in ('mult', 'gate'):
        return 2 * d, d
    if k == 'dgate':
        return 2 * d, 2 * d
    if k == 'switch':
        return d, 2 * d
    if k == 'lstm':
        return 4 * d, d
    if k == 'mdlstm':
        return (3 + 2 * m['dims']) * d, 2 * d
    return d, d


def mod_paramdim(m):
    if m['k'] == 'lstm' and m['peep']:
        return 3 * m['d']
    if m['k'] == 'mdlstm' and m['peep']:
        return (2 + m['dims']) * m['d']
    return 0


def conn_paramdim(c, spec):
    """own parameters (0 for shared)"""
    a, b = cdims(c, spec)
    if c.get('mother') is not None:
        return 0
    return {'full': a * b, 'fns': a * b, 'lincon': a, 'subs': b}.get(c['k'], 0)


def cdims(c, spec):
    i, o = dims(spec['mods'][c['i']])[1], dims(spec['mods'][c['o']])[0]
    a = (c['is'][1] - c['is'][0]) if c['is'] else i
    b = (c['os'][1] - c['os'][0]) if c['os'] else o
    return a, b


def draw_slice(draw, st, n, size=None):
    if size is None:
        if n == 1 or draw(st.integers(0, 2)) > 0:
            return None
        a = draw(st.integers(0, n - 1))
        b = draw(st.integers(a + 1, n))
        return [a, b]
    a = draw(st.integers(0, n - size))
    if size == n and draw(st.booleans()):
        return None
    return [a, a + size]


def draw_conn(draw, st, spec, i, o, ckinds, mothers):
    mo, mi = dims(spec['mods'][i])[1], dims(spec['mods'][o])[0]
    c = {'i': i, 'o': o, 'via': draw(st.integers(0, 15)), 'mother': None}
    k = draw(st.sampled_from(ckinds))
    if k in ('id', 'fns', 'lincon', 'perm'):
        size = draw(st.integers(1, min(mo, mi)))
        if k == 'fns' and size == 1:
            k = 'id'
        c['is'] = draw_slice(draw, st, mo, size)
        c['os'] = draw_slice(draw, st, mi, size)
        if k == 'perm':
            blocks = [b for b in range(1, size + 1) if size % b == 0]
            bs = draw(st.sampled_from(blocks))
            c['bs'] = bs
            c['perm'] = draw(st.permutations(list(range(size // bs))))
    else:
        c['is'] = draw_slice(draw, st, mo)
        c['os'] = draw_slice(draw, st, mi)
    c['k'] = k
    if k == 'full':
        a, b = cdims(c, spec)
        cands = [j for j, n in enumerate(mothers) if n == a * b]
        if cands and draw(st.booleans()):
            c['mother'] = draw(st.sampled_from(cands))
        elif draw(st.integers(0, 3)) == 0:
            mothers.append(a * b)
            c['mother'] = len(mothers) - 1
    return c


def net_strategy(st, kinds=DIFF, ckinds=('full', 'full', 'full', 'id', 'lincon', 'fns', 'perm'), recurrent=False,
                 lstm=False, maxmods=6, maxdim=3, scales=(1.0,), bias=True, dup=False):
    @st.composite
    def gen(draw):
        n = draw(st.integers(2, maxmods))
        mods = []
        allk = list(kinds) + (['mdlstm'] * 4 if lstm == 'md' else ['lstm', 'lstm', 'mdlstm'] if lstm else [])
        for i in range(n):
            if i == 0:
                k = draw(st.sampled_from(['lin', 'lin', 'lin', 'tanh', 'sig']))
            elif bias and i == 1 and n > 2 and draw(st.booleans()):
                mods.append({'k': 'bias'})
                continue
            else:
                k = draw(st.sampled_from(allk))
            m = {'k': k, 'd': draw(st.integers(1, maxdim))}
            if k in ('lstm', 'mdlstm'):
                m['peep'] = draw(st.booleans())
            if k == 'mdlstm':
                m['dims'] = draw(st.sampled_from([1, 1, 2, 2, 3]))
            mods.append(m)
        spec = {'mods': mods, 'conns': [], 'rec': []}
        mothers = []
        for o in range(1, n):
            if mods[o]['k'] == 'bias':
                continue
            for _ in range(draw(st.integers(1, 3))):
                i = draw(st.integers(0, o - 1))
                spec['conns'].append(draw_conn(draw, st, spec, i, o, list(ckinds), mothers))
        tgt = [i for i in range(n) if mods[i]['k'] != 'bias']
        if recurrent:
            for _ in range(draw(st.integers(1, 3))):
                i, o = draw(st.sampled_from(tgt)), draw(st.sampled_from(tgt))
                spec['rec'].append(draw_conn(draw, st, spec, i, o, list(ckinds), mothers))
        spec['mothers'] = mothers
        ins = [0]
        for i in tgt[1:]:
            if draw(st.integers(0, 5)) == 0:
                ins.append(i)
        outs = [tgt[-1]]
        for i in tgt[:-1]:
            if draw(st.integers(0, 4)) == 0:
                outs.append(i)
        spec['in'] = draw(st.permutations(ins))
        spec['out'] = draw(st.permutations(outs))
        spec['names'] = draw(st.permutations(list(range(n)))) if draw(st.booleans()) else None
        nc = len(spec['conns']) + len(spec['rec'])
        spec['cnames'] = draw(st.permutations(list(range(nc)))) if draw(st.booleans()) else None
        spec['early'] = draw(st.integers(0, nc))       # connections added before the modules
        if dup:         # several modules, connections or mothers may have the same name
            spec['dup'] = draw(st.sampled_from([0, 0, 0, 1, 2]))
        spec['vseed'] = draw(st.integers(0, 10 ** 6))
        spec['vscale'] = draw(st.sampled_from(list(scales)))
        return spec
    return gen()


def values(seed, n, scale=1.0):
    r = random.Random(seed)
    return [round(r.gauss(0, 1) * scale, 6) for _ in range(n)]


def draw_params(spec, salt=0):
    """parameter values per container"""
    P = {}
    s = spec['vseed'] * 1000 + salt
    for i, m in enumerate(spec['mods']):
        if mod_paramdim(m):
            P['m%d' % i] = values(s + 1 + i, mod_paramdim(m), spec['vscale'])
    for tag in ('conns', 'rec'):
        for i, c in enumerate(spec[tag]):
            n = conn_paramdim(c, spec)
            if n:
                P['%s%d' % (tag, i)] = values(s + (100 if tag == 'conns' else 200) + i, n, spec['vscale'])
    for i, n in enumerate(spec['mothers']):
        used = any(c.get('mother') == i for c in spec['conns'] + spec['rec'])
        if used:
            P['mo%d' % i] = values(s + 300 + i, n, spec['vscale'])
    if spec['vseed'] % 4 == 1 and not any(m['k'] == 'relu' for m in spec['mods']):
        # some parameters are exactly zero or equal
        r = random.Random(s)
        for k in P:
            P[k] = [r.choice([v, v, v, 0.0, 0.5, P[k][0]]) for v in P[k]]
    return P


# ---------------------------------------------------------------------------------------------
# reference evaluation; works for floats and complex numbers
def sgm(x):
    if x.real > 0:
        return 1 / (1 + cmath.exp(-x)) if isinstance(x, complex) else 1 / (1 + math.exp(-x))
    if x.real < -700:
        return x * 0
    e = cmath.exp(x) if isinstance(x, complex) else math.exp(x)
    return e / (1 + e)


def tnh(x):
    if isinstance(x, complex):
        if abs(x.real) > 300:
            return complex(math.copysign(1, x.real), 0)
        return cmath.tanh(x)
    return math.tanh(x)


def layer(m, x, st, t):
    """output of module m with input list x; st: list of earlier cell states (lstm), appended to"""
    k = m['k']
    d = m.get('d')
    if k == 'bias':
        return [1.0]
    if k == 'lin':
        return list(x)
    if k == 'sig':
        return [sgm(v) for v in x]
    if k == 'tanh':
        return [tnh(v) for v in x]
    if k == 'softsign':
        return [v / (1 + (v if v.real > 0 else -v)) for v in x]
    if k == 'relu':
        return [v if v.real > 0 else v * 0 for v in x]
    if k == 'softmax':
        mx = max(v.real for v in x)
        e = [cmath.exp(v - mx) if isinstance(v, complex) else math.exp(v - mx) for v in x]
        s = sum(e)
        return [v / s for v in e]
    if k == 'psoftmax':
        r = []
        for q in range(0, d, m['sl']):
            r += layer({'k': 'softmax'}, x[q:q + m['sl']], None, 0)
        return r
    if k == 'mult':
        return [x[i] * x[d + i] for i in range(d)]
    if k == 'gate':
        return [sgm(x[i]) * x[d + i] for i in range(d)]
    if k == 'dgate':
        return [sgm(x[i]) * x[d + i] for i in range(d)] + [(1 - sgm(x[i])) * x[d + i] for i in range(d)]
    if k == 'switch':
        return [sgm(v) for v in x] + [1 - sgm(v) for v in x]
    if k == 'lstm':
        w = m['P'] if m['peep'] else [0.0] * (3 * d)
        prev = st[-1] if st else [0.0] * d
        out, state = [], []
        for j in range(d):
            ig = sgm(x[j] + w[j] * prev[j])
            fg = sgm(x[d + j] + w[d + j] * prev[j])
            c = ig * tnh(x[2 * d + j]) + fg * prev[j]
            og = sgm(x[3 * d + j] + w[2 * d + j] * c)
            state.append(c)
            out.append(og * tnh(c))
        st.append(state)
        return out
    if k == 'mdlstm':
        D = m['dims']
        w = m['P'] if m['peep'] else [0.0] * ((2 + D) * d)
        last = x[d * (3 + D):]
        out, state = [], []
        for j in range(d):
            gi = x[j]
            for q in range(D):
                gi = gi + w[j] * last[q * d + j]
            ig = sgm(gi)
            c = ig * tnh(x[d * (1 + D) + j])
            for q in range(D):
                fg = sgm(x[d + q * d + j] + w[d + q * d + j] * last[q * d + j])
                c = c + fg * last[q * d + j]
            og = sgm(x[d * (2 + D) + j] + w[d * (1 + D) + j] * c)
            state.append(c)
            out.append(og * tnh(c))
        return out + state
    raise ValueError(k)


def conn(c, spec, w, src, dst):
    """add the contribution of connection c from output list src to input list dst"""
    i0, i1 = c['is'] or (0, len(src))
    o0, o1 = c['os'] or (0, len(dst))
    a = src[i0:i1]
    n, m = i1 - i0, o1 - o0
    k = c['k']
    if k == 'full':
        for o in range(m):
            s = 0.0
            for i in range(n):
                s = s + w[o * n + i] * a[i]
            dst[o0 + o] = dst[o0 + o] + s
    elif k == 'fns':
        for o in range(m):
            s = 0.0
            for i in range(n):
                if i != o:
                    s = s + w[o * n + i] * a[i]
            dst[o0 + o] = dst[o0 + o] + s
    elif k == 'id':
        for o in range(m):
            dst[o0 + o] = dst[o0 + o] + a[o]
    elif k == 'lincon':
        for o in range(m):
            dst[o0 + o] = dst[o0 + o] + a[o] * w[o]
    elif k == 'subs':
        av = sum(a) / len(a)
        for o in range(m):
            dst[o0 + o] = dst[o0 + o] + av * w[o]
    elif k == 'perm':
        bs = c['bs']
        for b, p in enumerate(c['perm']):
            for j in range(bs):
                dst[o0 + b * bs + j] = dst[o0 + b * bs + j] + a[p * bs + j]
    else:
        raise ValueError(k)


def reference(spec, P, seq):
    """outputs (list of lists) for the input sequence; modules are in topological order by index"""
    mods = [dict(m, P=P.get('m%d' % i)) for i, m in enumerate(spec['mods'])]
    states = [[] for _ in mods]
    prevout = None
    res = []

    def weights(tag, j, c):
        if c.get('mother') is not None:
            return P['mo%d' % c['mother']]
        return P.get('%s%d' % (tag, j))
    for t, x in enumerate(seq):
        inb = [[0.0] * dims(m)[0] for m in mods]
        k = 0
        for i in spec['in']:
            n = len(inb[i])
            inb[i] = list(x[k:k + n])
            k += n
        if prevout is not None:
            for j, c in enumerate(spec['rec']):
                conn(c, spec, weights('rec', j, c), prevout[c['i']], inb[c['o']])
        outs = [None] * len(mods)
        for i, m in enumerate(mods):
            for j, c in enumerate(spec['conns']):
                if c['o'] == i:
                    conn(c, spec, weights('conns', j, c), outs[c['i']], inb[i])
            outs[i] = layer(m, inb[i], states[i], t)
        prevout = outs
        o = []
        for i in spec['out']:
            o.extend(outs[i])
        res.append(o)
    return res


def indim(spec):
    return sum(dims(spec['mods'][i])[0] for i in spec['in'])


def outdim(spec):
    return sum(dims(spec['mods'][i])[1] for i in spec['out'])


def npar(P):
    return sum(len(v) for v in P.values())


H_STEP = 1e-30


def cstep(spec, P, seq, errs, key=None, idx=None, t=None, i=None, direction=None):
    """d/dtheta of sum_t errs[t].out[t] by the complex step; theta: parameter P[key][idx], input seq[t][i],
    or the parameter direction (dict like P)"""
    Q = dict(P)
    s = [list(x) for x in seq]
    if direction is not None:
        Q = dict((k, [complex(v, H_STEP * d) for v, d in zip(P[k], direction[k])]) for k in P)
    elif key is not None:
        Q[key] = list(P[key])
        Q[key][idx] = complex(Q[key][idx], H_STEP)
    else:
        s[t][i] = complex(s[t][i], H_STEP)
    outs = reference(spec, Q, s)
    tot = 0.0
    for e, o in zip(errs, outs):
        for a, b in zip(e, o):
            tot += a * (b.imag if isinstance(b, complex) else 0.0)
    return tot / H_STEP


# ---------------------------------------------------------------------------------------------
# construction with pybrain
def classes():
    from pybrain.structure import modules as M
    from pybrain.structure.modules.softsign import SoftSignLayer
    from pybrain.structure.modules.relulayer import ReluLayer
    from pybrain.structure.modules.gate import MultiplicationLayer, GateLayer, DoubleGateLayer, SwitchLayer
    return {'lin': M.LinearLayer, 'sig': M.SigmoidLayer, 'tanh': M.TanhLayer, 'softmax': M.SoftmaxLayer,
            'softsign': SoftSignLayer, 'relu': ReluLayer, 'mult': MultiplicationLayer, 'gate': GateLayer,
            'dgate': DoubleGateLayer, 'switch': SwitchLayer, 'lstm': M.LSTMLayer, 'mdlstm': M.MDLSTMLayer,
            'bias': M.BiasUnit, 'psoftmax': M.PartialSoftmaxLayer}


def make_module(m, name):
    C = classes()[m['k']]
    if m['k'] == 'bias':
        return C(name=name) if name else C()
    kw = {}
    if name:
        kw['name'] = name
    if m['k'] == 'lstm':
        return C(m['d'], peepholes=m['peep'], **kw)
    if m['k'] == 'psoftmax':
        return C(m['d'], m['sl'])
    if m['k'] == 'mdlstm':
        return C(m['d'], dimensions=m['dims'], peepholes=m['peep'], **kw)
    return C(m['d'], **kw)


def make_conn(c, spec, mods, mothers, name):
    from pybrain.structure.connections import FullConnection, IdentityConnection, LinearConnection, FullNotSelfConnection, SharedFullConnection
    from pybrain.structure.connections.permutation import PermutationConnection
    from pybrain.structure.connections.subsampling import SubsamplingConnection
    from pybrain.structure.moduleslice import ModuleSlice
    a, b = mods[c['i']], mods[c['o']]
    kw = {}
    # a slice object needs to be strictly smaller than what it slices
    if c['is']:
        i0, i1 = c['is']
        n = a.outdim
        short = c['via'] & 8            # leave out upper bounds that are the end
        if c['via'] & 4 and (i0 > 0 or (short and i1 < n)):
            lo, hi = (i0 + 1) // 2, i1 if short else n
            a = ModuleSlice(a, outSliceFrom=lo, outSliceTo=hi) if hi < n else ModuleSlice(a, outSliceFrom=lo)
            i0, i1, n = i0 - lo, i1 - lo, hi - lo
        if c['via'] & 1 and i1 - i0 < n:
            a = ModuleSlice(a, outSliceFrom=i0) if short and i1 == n else ModuleSlice(a, outSliceFrom=i0, outSliceTo=i1)
        else:
            kw.update(inSliceFrom=i0)
            if not (short and i1 == n):
                kw.update(inSliceTo=i1)
    if c['os']:
        i0, i1 = c['os']
        n = b.indim
        short = c['via'] & 8
        if c['via'] & 4 and (i0 > 0 or (short and i1 < n)):
            lo, hi = (i0 + 1) // 2, i1 if short else n
            b = ModuleSlice(b, inSliceFrom=lo, inSliceTo=hi) if hi < n else ModuleSlice(b, inSliceFrom=lo)
            i0, i1, n = i0 - lo, i1 - lo, hi - lo
        if c['via'] & 2 and i1 - i0 < n:
            b = ModuleSlice(b, inSliceFrom=i0) if short and i1 == n else ModuleSlice(b, inSliceFrom=i0, inSliceTo=i1)
        else:
            kw.update(outSliceFrom=i0)
            if not (short and i1 == n):
                kw.update(outSliceTo=i1)
    if name:
        kw['name'] = name
    k = c['k']
    if k == 'full':
        if c.get('mother') is not None:
            return SharedFullConnection(mothers[c['mother']], a, b, **kw)
        return FullConnection(a, b, **kw)
    if k == 'perm':
        return PermutationConnection(a, b, c['perm'], c['bs'], **kw)
    return {'id': IdentityConnection, 'lincon': LinearConnection, 'fns': FullNotSelfConnection, 'subs': SubsamplingConnection}[k](a, b, **kw)


class Built(object):
    pass


def build(spec, P, recurrent=False, netclass=None, sort=True):
    """the pybrain network for spec with parameter values P set before sorting"""
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork
    from pybrain.structure.connections.shared import MotherConnection
    B = Built()
    names = spec['names']
    dup = spec.get('dup', 0)
    if dup and names:
        names = [i % dup for i in names]
    B.mods = [make_module(m, None if names is None else 'm%02d' % names[i]) for i, m in enumerate(spec['mods'])]
    B.mothers = [MotherConnection(n, name='mother%d' % (0 if dup else i)) for i, n in enumerate(spec['mothers'])]
    cn = spec['cnames']
    if dup and cn:
        cn = [i % dup for i in cn]
    nc = len(spec['conns'])
    B.conns = [make_conn(c, spec, B.mods, B.mothers, None if cn is None else 'c%02d' % cn[i]) for i, c in enumerate(spec['conns'])]
    B.rec = [make_conn(c, spec, B.mods, B.mothers, None if cn is None else 'c%02d' % cn[nc + i]) for i, c in enumerate(spec['rec'])]
    for k, v in P.items():
        container(B, k)._setParameters(list(v))
    net = (netclass or (RecurrentNetwork if recurrent else FeedForwardNetwork))()
    B.net = net
    allc = [(c, False) for c in B.conns] + [(c, True) for c in B.rec]

    def addc(lst):
        for c, r in lst:
            (net.addRecurrentConnection if r else net.addConnection)(c)
    addc(allc[:spec['early']])
    for i in spec['in']:
        net.addInputModule(B.mods[i])
    for i, m in enumerate(B.mods):
        if i not in spec['in'] and i not in spec['out']:
            net.addModule(m)
    for i in spec['out']:
        net.addOutputModule(B.mods[i])
    addc(allc[spec['early']:])
    if sort:
        net.sortModules()
    return B


def container(B, key):
    if key.startswith('mo'):
        return B.mothers[int(key[2:])]
    if key.startswith('m'):
        return B.mods[int(key[1:])]
    if key.startswith('conns'):
        return B.conns[int(key[5:])]
    return B.rec[int(key[3:])]
