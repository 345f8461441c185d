"""C34: grid searches, keyword argument processing, Indian buffet matrices, adaptive resampling, dictionary files, cross entropy of tools."""
RULE = ("random search boxes, step counts and objective functions with every validated point recorded; random keyword declarations; random binary matrices; scripted noisy functions; scratch directories; compared with explicit enumeration and reference models; non-trivial: more than one grid point, argument, column or file")
ASSUMPTIONS = ["ties between equally good grid points may be broken either way", "Indian buffet matrices are judged by frequencies with tolerances beyond six standard deviations", "files are written to a scratch directory that the check creates and removes"]


def gen_grid(st):
    return st.fixed_dictionaries({'lo': st.lists(st.sampled_from([0.0, -1.0, 2.0, -5.0]), min_size=2, max_size=2), 'w': st.lists(st.sampled_from([1.0, 4.0, 0.5, 18.0]), min_size=2, max_size=2), 'steps': st.one_of(st.integers(2, 8), st.lists(st.integers(2, 7), min_size=2, max_size=2)), 'c': st.lists(st.floats(min_value=0, max_value=1, allow_nan=False), min_size=2, max_size=2), 'doe': st.booleans(), 'it': st.integers(1, 6), 'shape': st.sampled_from(['bowl', 'plane', 'const'])})


def run_grid(case, h):
    import itertools
    import numpy as np
    from pybrain.tools.gridsearch import GridSearch2D, GridSearchDOE
    lo, hi = case['lo'], [a + b for a, b in zip(case['lo'], case['w'])]
    opt = [a + c * w for a, c, w in zip(lo, case['c'], case['w'])]

    def f(p):
        u = [(float(p[i]) - opt[i]) / case['w'][i] for i in range(2)]
        return {'bowl': -u[0] ** 2 - 2 * u[1] ** 2, 'plane': u[0] + 3 * u[1], 'const': 1.0}[case['shape']]
    calls = []
    steps_done = []
    base = GridSearchDOE if case['doe'] else GridSearch2D

    class G(base):
        def _validate(self, params):
            calls.append(tuple(float(v) for v in params))
            return f(params)

        def _onStep(self):
            steps_done.append(len(calls))
    if not case['doe']:
        g = G(lo, hi, n_steps=case['steps'])
        best = g.search()
        ns = case['steps'] if isinstance(case['steps'], list) else [case['steps']] * 2
        axes = [np.linspace(lo[i], hi[i], ns[i]) for i in range(2)]
        exp = sorted((float(a), float(b)) for a, b in itertools.product(*axes))
        h.close(sorted(calls), exp, 'every grid point is validated exactly once')
        perfs = g.getPerformances()
        h.eq(len(perfs), len(exp), 'one performance per grid point')
        h.close(sorted(perfs.keys()), exp, 'performances are keyed by the parameters')
        for k in perfs:
            h.close(perfs[k], f(k), 'performance')
        h.close(f(best), max(f(p) for p in exp), 'the best grid point is returned')
        h.check(tuple(best) in perfs, 'the result is a grid point')
        h.check(len(steps_done) >= max(ns) and steps_done == sorted(steps_done) and steps_done[-1] == len(calls), 'intermediate steps are announced')
        perfs.clear()
        h.eq(len(g.getPerformances()), len(exp), 'performances are handed out as a copy')
        h.label('grid')
    else:
        g = G(lo, hi, n_iterations=case['it'])
        best = np.array(g.search(), float)
        h.eq(len(calls), 13 * case['it'], 'thirteen points per refinement')
        P = np.array(calls).reshape(case['it'], 13, 2)
        w = np.array(case['w'])
        h.check((P >= np.array(lo) - 1e-9).all() and (P <= np.array(hi) + 1e-9).all(), 'all points within the bounds')
        pat = sorted([(float(a), float(b)) for a, b in itertools.product([-1, 0, 1], repeat=2)] + [(a, b) for a, b in itertools.product([-.5, .5], repeat=2)])
        center = np.array(lo) + w / 2
        for l in range(case['it']):
            half = w / 2 / 2.0 ** l
            c = np.minimum(np.maximum(center, np.array(lo) + half), np.array(hi) - half)
            h.close(sorted(map(tuple, P[l])), sorted(tuple(c + half * np.array(p)) for p in pat), 'pattern of refinement %d' % l, rtol=1e-9, atol=1e-9)
            v = [f(p) for p in P[l]]
            # any of the best points may be the next center; follow the one the search took
            cands = [P[l][i] for i in range(13) if v[i] == max(v)]
            if l + 1 < case['it']:
                nxt = (P[l + 1].max(axis=0) + P[l + 1].min(axis=0)) / 2
                nh = half / 2
                ok = [q for q in cands if abs(np.minimum(np.maximum(q, np.array(lo) + nh), np.array(hi) - nh) - nxt).max() < 1e-9]
                h.check(len(ok) > 0, 'the next refinement is centred at the best point')
                center = ok[0]
            else:
                h.check(any(abs(q - best).max() < 1e-12 for q in cands), 'the best point of the last refinement is returned')
        if case['shape'] == 'bowl' and case['it'] > 1:
            h.check(f(best) >= -1.0 and f(best) >= max(f(p) for p in P[0]) - 1e-12 - 0.3, 'refinement does not lose the optimum')
        h.label('doe')
    h.nontrivial()


def gen_svmgrid(st):
    return st.fixed_dictionaries({'doe': st.booleans(), 'folds': st.integers(2, 5), 'per': st.integers(2, 4), 'ctor': st.booleans(), 'epochs': st.sampled_from([None, 1, 3]), 'lo': st.sampled_from([None, [-1.0, -2.0], [0.0, 0.0]]), 'w': st.sampled_from([[2.0, 3.0], [0.5, 0.25], [8.0, 0.1]]), 'n': st.integers(1, 5), 'opt': st.lists(st.floats(min_value=-3, max_value=3, allow_nan=False), min_size=2, max_size=2), 'seed': st.integers(0, 9999)})


def run_svmgrid(case, h):
    import math
    import numpy as np
    from pybrain.datasets import SupervisedDataSet
    from pybrain.tools.gridsearch import GridSearchCostGamma, GridSearchDOECostGamma
    np.random.seed(case['seed'])
    N = case['folds'] * case['per']
    ds = SupervisedDataSet(1, 1)
    for k in range(N):
        ds.addSample([float(k)], [1])

    def hits(cost, gamma, epochs):
        """how many of the samples are classified correctly"""
        z = abs(math.log(cost, 2) - case['opt'][0]) + abs(math.log(gamma, 2) - case['opt'][1])
        return int(round(N * math.exp(-z / (2.0 if epochs is None else 1.0 + epochs))))

    class Mod(object):
        good = 0

        def reset(self):
            pass

        def activate(self, x):
            return np.array([1]) if x[0] < self.good else np.array([0])

    class Trainer(object):
        def __init__(self):
            self.module = Mod()
            self.args = None

        def setArgs(self, **kw):
            self.args = kw

        def setData(self, d):
            self.size = len(d)

        def train(self):
            self.trainEpochs(None)

        def trainEpochs(self, n):
            sizes.append(self.size)
            self.module.good = hits(self.args['cost'], self.args['gamma'], n)
    sizes = []
    kw = {}
    if case['lo'] is not None:
        kw['min_params'] = case['lo']
        kw['max_params'] = [a + b for a, b in zip(case['lo'], case['w'])]
    lo, hi = kw.get('min_params', [-5, -15]), kw.get('max_params', [15, 3])
    kw['n_iterations' if case['doe'] else 'n_steps'] = case['n'] if case['doe'] else case['n'] + 1
    late = {'nfolds': case['folds']}
    if case['epochs'] is not None:
        late['max_epochs'] = case['epochs']
    seen = []
    base = GridSearchDOECostGamma if case['doe'] else GridSearchCostGamma

    class G(base):
        def _validate(self, params):
            v = base._validate(self, params)
            seen.append((tuple(float(p) for p in params), v))
            return v
    tr = Trainer()
    if case['ctor']:
        kw.update(late)
    g = G(tr, ds, **kw)
    if not case['ctor']:
        g.setArgs(**late)
    best = g.search()
    h.check(tr.args is None and tr.module.good == 0, 'the given trainer is left alone')

    def f(p):
        return hits(2 ** p[0], 2 ** p[1], case['epochs']) / float(N)
    h.eq(len(seen), 13 * case['n'] if case['doe'] else (case['n'] + 1) ** 2, 'validated points')
    for p, v in seen:
        h.check(all(a - 1e-9 <= x <= b + 1e-9 for a, x, b in zip(lo, p, hi)), 'points within the bounds')
        h.close(v, f(p), 'the performance is the cross-validated hit rate')
    last = seen[-13:] if case['doe'] else seen
    h.close(f(best), max(v for _, v in last), 'the best setting is returned')
    h.check(len(sizes) % case['folds'] == 0 and sizes and all(z == N - case['per'] for z in sizes), 'every training leaves one fold out')
    h.label('doe' if case['doe'] else 'grid')
    if len(set(v for _, v in seen)) > 1:
        h.nontrivial()


def gen_kw(st):
    return st.fixed_dictionaries({'decl': st.lists(st.tuples(st.sampled_from(['a', 'b', 'c', 'd', 'e']), st.sampled_from(['plain', 'default', 'mandatory', 'none']), st.booleans(), st.integers(0, 9)), min_size=1, max_size=5), 'given': st.lists(st.tuples(st.sampled_from(['a', 'b', 'c', 'x']), st.sampled_from([0, 1, None, 'v', False])), max_size=4)})


def run_kw(case, h):
    from pybrain.tools.kwargsprocessor import KWArgsProcessor

    class O(object):
        pass
    o = O()
    given = dict((a, b) for a, b in case['given'])
    keep = dict(given)
    kp = KWArgsProcessor(o, given)
    exp = {}
    for name, kind, private, val in case['decl']:
        kw = {'private': True} if private else {}
        if kind == 'default':
            kw['default'] = val
        elif kind == 'none':
            kw['default'] = None
        elif kind == 'mandatory':
            kw['mandatory'] = True
        attr = '_' + name if private else name
        if name in given:
            exp[attr] = given[name]
        elif 'default' in kw:
            exp[attr] = kw['default']
        elif kind == 'mandatory':
            h.raises(KeyError, lambda: kp.add(name, **kw), 'a missing mandatory argument')
            h.eq(dict(o.__dict__), exp, 'attributes after a failure')
            continue
        kp.add(name, **kw)
        h.eq(dict(o.__dict__), exp, 'attributes after each declaration')
    h.raises(AssertionError, lambda: kp.add('q', mandatory=True, default=1), 'mandatory arguments have no default')
    h.eq(given, keep, 'arguments unchanged')
    if len(case['decl']) > 1:
        h.nontrivial()


def gen_ibp(st):
    return st.fixed_dictionaries({'M': st.lists(st.lists(st.integers(0, 1), min_size=6, max_size=6), min_size=1, max_size=10), 'cols': st.integers(1, 6), 'cust': st.integers(1, 8), 'alpha': st.sampled_from([1.0, 2.0, 0.5, 5.0]), 'rp': st.sampled_from([1.0, 0.5, 0.8]), 'seed': st.integers(0, 9999), 'stat': st.integers(0, 7)})


def run_ibp(case, h):
    import random
    import numpy as np
    from pybrain.tools.ibp import leftordered, generateIBP
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    M = np.array([r[:case['cols']] for r in case['M']])
    L = np.array(leftordered(M))
    h.eq(L.shape, M.shape, 'shape')
    cols = [tuple(int(v) for v in c) for c in M.T]
    h.eq([tuple(int(v) for v in c) for c in L.T], sorted(cols, reverse=True), 'columns in decreasing binary order')
    h.eq(np.array(leftordered(L)).tolist(), L.tolist(), 'ordering again changes nothing')
    n, a, rp = case['cust'], case['alpha'], case['rp']
    lam = a * sum(1.0 / i for i in range(1, n + 1))
    K = int(lam + 2 * np.sqrt(lam)) + 1
    tot, N = [], 250 if case['stat'] == 0 else 3
    for _ in range(N):
        Z = np.array(generateIBP(n, a, rp) if rp != 1.0 else generateIBP(n, a))
        h.eq(Z.shape[0], n, 'one row per customer')
        h.check(Z.shape[1] <= K, 'number of dishes')
        Zi = Z.astype(int)
        h.check(((Zi == 0) | (Zi == 1)).all(), 'binary matrix')
        h.check((Zi.sum(axis=0) > 0).all(), 'every dish was taken by somebody')
        tot.append(Zi.sum() / float(n))
    if case['stat'] == 0:
        aa = a / rp
        mean = a * (1 - (aa / (aa + 1)) ** K)
        sd = np.std(tot) / np.sqrt(N) + 1e-3
        h.check(abs(np.mean(tot) - mean) <= 7 * sd, 'average number of dishes per customer')
        h.label('stat')
    if case['cols'] > 1:
        h.nontrivial()


def gen_resample(st):
    return st.fixed_dictionaries({'vals': st.lists(st.sampled_from([0.0, 1.0, -1.0, 2.0, 5.0, -4.0, 0.5]), min_size=1, max_size=12), 'batch': st.integers(2, 5), 'fac': st.sampled_from([1.5, 2.0, 3.0]), 'thr': st.sampled_from([0.2, 0.5, 0.0]), 'max': st.one_of(st.none(), st.integers(1, 4)), 'calls': st.integers(1, 40)})


def run_resample(case, h):
    import numpy as np
    from pybrain.tools.aptativeresampling import AdaptiveResampler
    k = [0]
    vals = case['vals']

    def val(i):
        return vals[i % len(vals)] + 0.1 * ((i * 7) % 5)

    def f(x):
        k[0] += 1
        return x + val(k[0] - 1)
    r = AdaptiveResampler(f, case['batch'], case['fac'], case['thr'], case['max'])
    over, rec, used = 1, [None] * case['batch'], 0
    ups = 0
    for c in range(case['calls']):
        x = float(c % 3)
        got = r(x)
        n = int(over)
        res = np.median([x + val(used + i) for i in range(n)])
        used += n
        if c % case['batch'] == 0 and c > 0:
            alt = np.median([x + val(used + i) for i in range(n)])
            used += n
            flips = sum(1 for y in rec[1:] if (y - res) * (y - alt) < 0)
            if flips >= case['thr'] * (case['batch'] - 1):
                over *= case['fac']
                ups += 1
                if case['max'] is not None and over > case['max']:
                    over = case['max']
            elif flips == 0:
                over = max(over / case['fac'], 1)
            res = 0.5 * res + 0.5 * alt
        rec[c % case['batch']] = res
        h.close(got, res, 'value of the resampled function')
        h.eq(k[0], used, 'number of evaluations')
        h.close(r.resample_over, over, 'number of resamplings')
        if over > 60:
            break
    if ups:
        h.nontrivial()


def gen_files(st):
    return st.fixed_dictionaries({'names': st.lists(st.text(alphabet='abx-', min_size=1, max_size=4), min_size=0, max_size=6, unique=True), 'exts': st.lists(st.sampled_from(['.pickle', '.txt', '.xml', '']), min_size=6, max_size=6), 'tag': st.sampled_from(['', 'a', 'ab', 'x']), 'ext': st.sampled_from(['.pickle', '.txt', '.xml']), 'subs': st.lists(st.sampled_from(['a', 'b', 'ab', 'x', '-', 'xx', 'aa']), max_size=6), 'all': st.booleans(),
                                  'ops': st.lists(st.tuples(st.sampled_from(['add', 'add', 'add', 'add', 'dump', 'read']), st.sampled_from(['n1', 'n2']), st.sampled_from(['k', 'l']), st.sampled_from([1, 'two', [3], None])), max_size=20), 'seq': st.lists(st.integers(0, 9), min_size=2, max_size=9), 'win': st.integers(1, 4)})


def run_files(case, h):
    import copy
    import os
    import shutil
    import tempfile
    from pybrain.tools.filehandling import getAllFilesIn, selectSome, pickleDumpDict, pickleReadDict, addToDictFile
    d = tempfile.mkdtemp(prefix='c34')
    try:
        full = []
        for n, e in zip(case['names'], case['exts']):
            open(os.path.join(d, n + e), 'w').close()
            full.append(n + e)
        h.eq(sorted(getAllFilesIn(d, tag=case['tag'], extension=case['ext'])), sorted(n[:-len(case['ext'])] for n in full if n.endswith(case['ext']) and n.startswith(case['tag'])), 'files with tag and extension')
        test = any if not case['all'] else all
        if case['subs']:
            h.eq(selectSome(full, case['subs'], requireAll=case['all']), [n for n in full if test(s in n for s in case['subs'])], 'selected names')
        else:
            h.eq(selectSome(full), full, 'nothing required')
        model = {}
        for op, n, k, v in case['ops']:
            p = os.path.join(d, n)
            if op == 'dump':
                h.eq(pickleDumpDict(p, {k: [v]}), True, 'dumped')
                model[n] = {k: [v]}
            elif op == 'add':
                addToDictFile(p, k, v)
                model.setdefault(n, {}).setdefault(k, []).append(v)
            h.eq(pickleReadDict(p), model.get(n, {}), 'contents of the dictionary file')
        h.eq(sorted(x for x in os.listdir(d) if x[:-7] in ('n1', 'n2')), sorted(n + '.pickle' for n in model), 'one file per dictionary')
        h.eq(pickleDumpDict(os.path.join(d, 'nodir', 'x'), {}), False, 'a failed dump is reported')
        obj = {'a': [1.5, ('x', None)], 2: {'n': set([1])}}
        pickleDumpDict(os.path.join(d, 'o'), obj)
        h.eq(pickleReadDict(os.path.join(d, 'o')), obj, 'nested values')
    finally:
        shutil.rmtree(d)
    if len(case['ops']) > 1:
        h.nontrivial()


FACETS = {'grid': {'gen': gen_grid, 'run': run_grid, 'quick': 400, 'thorough': 8000},
          'svmgrid': {'gen': gen_svmgrid, 'run': run_svmgrid, 'quick': 150, 'thorough': 3000},
          'kw': {'gen': gen_kw, 'run': run_kw, 'quick': 400, 'thorough': 8000},
          'ibp': {'gen': gen_ibp, 'run': run_ibp, 'quick': 200, 'thorough': 4000},
          'resample': {'gen': gen_resample, 'run': run_resample, 'quick': 400, 'thorough': 8000},
          'files': {'gen': gen_files, 'run': run_files, 'quick': 300, 'thorough': 5000}}
