"""C32: general helpers: sampling, encodings, combinatorics, graph search, matrix rearrangement, decorators."""
RULE = ("random arguments for every helper, compared with brute-force definitions (enumeration, breadth-first search over explicit graphs, index arithmetic, frequencies); non-trivial: at least two elements")
ASSUMPTIONS = ["random helpers are judged by frequencies with a tolerance beyond six standard deviations", "reachable finds destinations over paths that do not pass through another destination (as its only user relies on)", "block sizes divide the size of the array"]

V = [0.0, 1.0, -1.0, 2.5, 0.5, -3.0, 7.0]


def gen_draw(st):
    return st.fixed_dictionaries({'w': st.one_of(st.lists(st.integers(0, 5), min_size=1, max_size=6), st.lists(st.integers(0, 5), min_size=6, max_size=15)), 'scale': st.sampled_from([1.0, 3.0, 0.5]), 'vals': st.one_of(st.lists(st.sampled_from(V), min_size=1, max_size=5), st.lists(st.sampled_from([0.0, 1.0, 1.0]), min_size=4, max_size=9)), 'temp': st.sampled_from([1.0, 0.0, 2.0, 0.1]), 'list': st.booleans(), 'seed': st.integers(0, 9999)})


def run_draw(case, h):
    import random
    import numpy as np
    from pybrain.utilities import drawIndex, drawGibbs, r_argmax, all_argmax
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    w = np.array(case['w'], float)
    if w.sum() == 0:
        h.discard()
    N = 1200

    def freq(f, p, what):
        c = np.zeros(len(p))
        for _ in range(N):
            i = f()
            h.check(int(i) == i and 0 <= i < len(p), what + ': index in range')
            c[int(i)] += 1
        for i in range(len(p)):
            h.check(abs(c[i] - N * p[i]) <= 6.5 * np.sqrt(N * p[i] * (1 - p[i])) + 1e-6, what)
    p = w / w.sum()
    arg = list(p) if case['list'] else p
    freq(lambda: drawIndex(arg), p, 'drawIndex follows the probabilities')
    freq(lambda: drawIndex(w * case['scale'], tolerant=True), p, 'tolerant drawing normalizes')
    if abs(w.sum() * case['scale'] - 1) > 1e-3:
        h.raises(ValueError, lambda: drawIndex(w * case['scale']), 'probabilities have to sum to one')
    v = np.array(case['vals'])
    v0 = v.copy()
    t = case['temp']
    if t == 0:
        g = (v == v.max()) / float((v == v.max()).sum())
    else:
        z = np.maximum((v - v.max()) / t + 20, -20)
        g = np.exp(z) / np.exp(z).sum()
    freq(lambda: drawGibbs(v, t), g, 'drawGibbs follows the softmax')
    h.check((v == v0).all(), 'values unchanged')
    m = (v == v.max()) / float((v == v.max()).sum())
    freq(lambda: r_argmax(v if case['list'] else list(v)), m, 'random argmax breaks ties evenly')
    h.eq([int(i) for i in all_argmax(list(v))], [i for i in range(len(v)) if v[i] == v.max()], 'all maxima')
    h.label('temp%s' % t)
    if len(w) > 1 and len(v) > 1:
        h.nontrivial()


def gen_code(st):
    return st.fixed_dictionaries({'i': st.one_of(st.integers(0, 40), st.integers(0, 2 ** 40)), 'bits': st.one_of(st.lists(st.integers(0, 1), min_size=1, max_size=80), st.lists(st.integers(0, 1), min_size=30, max_size=70)), 'bin': st.lists(st.lists(st.integers(0, 1), min_size=2, max_size=6), min_size=2, max_size=12), 'n': st.integers(1, 8), 'k': st.integers(0, 7), 'tup': st.one_of(st.lists(st.integers(0, 4), min_size=1, max_size=4), st.lists(st.integers(0, 2), min_size=4, max_size=6)), 'list': st.lists(st.sampled_from(V), min_size=1, max_size=12),
                                  'targets': st.lists(st.sampled_from([0.5, 1.0, 0.1, 0.0, 3.0]), min_size=1, max_size=4, unique=True), 'runs': st.lists(st.lists(st.sampled_from([5.0, 3.0, 1.0, 0.5, 0.2, 0.0, 0.1]), min_size=1, max_size=8), min_size=1, max_size=9), 'batch': st.integers(1, 3), 'median': st.booleans(), 'seed': st.integers(0, 999)})


def run_code(case, h):
    import itertools
    import numpy as np
    from pybrain import utilities as U
    i = case['i']
    size = max(1, i.bit_length()) + case['k']
    g = U.int2gray(i)
    h.eq(int(U.gray2int(g, size)), i, 'Gray code round trip')
    h.eq(bin(U.int2gray(i) ^ U.int2gray(i + 1)).count('1'), 1, 'neighbouring integers differ in one bit')
    h.check(0 <= g < 2 ** size, 'Gray code length')
    if size <= 8:
        h.eq(sorted(U.int2gray(j) for j in range(2 ** size)), list(range(2 ** size)), 'Gray code is a permutation')
    h.eq(U.asBinary(i), bin(i)[2:], 'binary string')
    b = case['bits']
    for dt in (int, bool, np.int8):
        h.eq(int(U.binArr2int(np.array(b).astype(dt))), int(''.join(map(str, b)), 2), 'integer of a binary array')
    n, k = case['n'], case['k'] % case['n']
    a = U.one_to_n(k, n)
    h.eq([float(x) for x in a], [1.0 if j == k else 0.0 for j in range(n)], 'one-in-n code')
    h.eq(int(U.n_to_one(a)), k, 'one-in-n round trip')
    t = tuple(case['tup'])
    h.eq(sorted(map(tuple, U.iterCombinations(t))), sorted(itertools.product(*[range(x) for x in t])), 'all combinations below')
    h.eq(list(map(tuple, U.crossproduct([list(range(x)) for x in t]))), list(itertools.product(*[range(x) for x in t])), 'cross product')
    h.eq(sorted(U.decrementAny(t)), sorted(t[:j] + (t[j] - 1,) + t[j + 1:] for j in range(len(t)) if t[j] > 0), 'single decrements')
    for j in range(len(t)):
        h.eq(U.tupleRemoveItem(t, j), t[:j] + t[j + 1:], 'removed item')
    l = np.array(case['list'])
    l2 = np.roll(l, 1)
    h.close(U.percentError(l, l2), 100.0 * (l != l2).sum() / len(l), 'percentage of mismatches')
    h.close(U.percentError(list(l), list(l2)), 100.0 * (l != l2).sum() / len(l), 'percentage of mismatches for lists')
    if l.max() > l.min():
        h.close(U.linscale(l, (4.0, 1.0)), 4.0 - 3.0 * (l - l.min()) / (l.max() - l.min()), 'scaled to descending limits')
        s = U.linscale(l, (-2.0, 5.0))
        h.close((s.min(), s.max()), (-2.0, 5.0), 'scaled limits')
        h.close(s, -2.0 + 7.0 * (l - l.min()) / (l.max() - l.min()), 'scaled values')
    h.close(U.confidenceIntervalSize(2.0, n), 2 * 1.98 * 2.0 / np.sqrt(n), 'confidence interval')
    perm = np.random.RandomState(case['seed']).permutation(len(l))
    h.close(U.permute(list(l), perm), l[perm], 'permuted elements')
    m = np.outer(np.arange(len(l)), [1, 10])
    h.close(U.permute(m, perm), m[perm], 'permuted rows')
    txt = U.fListToString(list(l), 2)
    h.check(txt[0] == '[' and txt[-1] == ']', 'list of floats as string')
    h.close([float(x) for x in txt[1:-1].split(',')], np.around(l, 2), 'values of the string')
    T = sorted(case['targets'], reverse=True)
    runs = case['runs']
    longest = max(map(len, runs))
    exp = []
    for tv in T:
        f = [next((j for j, x in enumerate(r) if x <= tv), longest) for r in runs]
        exp.append(np.median(f) if case['median'] else np.mean(f))
    h.close(U.avgFoundAfter(T, [list(r) for r in runs], batchSize=case['batch'], useMedian=case['median']), np.array(exp) * case['batch'], 'average number of steps until found')
    arrs = [np.array(r) for r in runs]
    uniq = U.uniqueArrays(arrs + [x.copy() for x in arrs])
    h.eq(sorted(tuple(x) for x in uniq), sorted(set(tuple(r) for r in runs)), 'unique arrays')
    bins = [np.array(x) for x in case['bin']]
    h.eq(sorted(tuple(int(v) for v in x) for x in U.uniqueArrays(bins)), sorted(set(map(tuple, case['bin']))), 'unique binary arrays')
    for x in arrs + bins:
        for y in arrs + bins:
            if x.shape == y.shape and x.dtype == y.dtype:
                h.eq(U.xhash(x) == U.xhash(y), bool((x == y).all()), 'array hashes')
    if len(t) > 1:
        h.nontrivial()


def gen_graph(st):
    return st.fixed_dictionaries({'n': st.one_of(st.integers(1, 9), st.integers(7, 12)), 'edges': st.one_of(st.lists(st.tuples(st.integers(0, 8), st.integers(0, 8)), min_size=0, max_size=20), st.lists(st.tuples(st.integers(0, 11), st.integers(0, 11)), min_size=10, max_size=40)), 'start': st.lists(st.integers(0, 8), min_size=0, max_size=3), 'dest': st.one_of(st.lists(st.integers(0, 8), min_size=0, max_size=4), st.lists(st.integers(0, 11), min_size=4, max_size=9)), 'full': st.one_of(st.none(), st.lists(st.integers(0, 8), min_size=0, max_size=9), st.lists(st.integers(0, 11), min_size=8, max_size=20)), 'rel': st.one_of(st.none(), st.lists(st.integers(0, 11), min_size=1, max_size=3), st.lists(st.integers(0, 11), min_size=4, max_size=10)), 'as': st.sampled_from(['list', 'set'])})


def run_graph(case, h):
    from pybrain.utilities import reachable, flood
    n = case['n']
    adj = dict((i, []) for i in range(n))
    for a, b in case['edges']:
        adj[a % n].append(b % n)
    mk = list if case['as'] == 'list' else set
    uniq = lambda l: sorted(set(x % n for x in l))
    start, dest = uniq(case['start']), uniq(case['dest'])
    s, d = mk(start), mk(dest)
    got = reachable(lambda v: list(adj[v]), s, d)
    exp, seen, front, k = {}, set(), set(start), 0
    while front:
        nxt = set()
        for v in front:
            seen.add(v)
            if v in dest:
                exp[v] = k
            else:
                nxt.update(adj[v])
        front = nxt - seen - front
        k += 1
    h.eq(got, exp, 'reachable destinations and their distances')
    h.eq((sorted(s), sorted(d)), (start, dest), 'arguments unchanged')
    h.eq(reachable(lambda v: list(adj[v]), s, d), exp, 'asked again')
    full = None if case['full'] is None else uniq(case['full'])
    allowed = set(range(n)) if full is None else set(full)
    # closure within the allowed set
    clos = set(x for x in start if x in allowed)
    while True:
        new = set(y for x in clos for y in adj[x] if y in allowed) - clos
        if not new:
            break
        clos |= new
    res = flood(lambda v: list(adj[v]), full, mk(start))
    h.eq(sorted(res), sorted(clos), 'flooded elements')
    if case['rel'] is not None:
        rel = uniq(case['rel'])
        res = flood(lambda v: list(adj[v]), full, mk(start), relevant=mk(rel))
        h.check(set(res) <= clos and len(res) == len(set(res)), 'flooding stays within the connected elements')
        h.check(set(x for x in start if x in allowed) <= set(res), 'flooding contains its start')
        h.eq(set(rel) & set(res), set(rel) & clos, 'all connected relevant elements are found')
        if not set(rel) <= clos:
            h.eq(sorted(res), sorted(clos), 'without reaching all relevant elements everything is flooded')
    if len(exp) > 0 and len(clos) > 1:
        h.nontrivial()
    h.label('found%d' % min(3, len(exp)))


def gen_blocks(st):
    return st.fixed_dictionaries({'nb': st.lists(st.one_of(st.integers(1, 3), st.integers(1, 5)), min_size=2, max_size=3), 'bs': st.lists(st.one_of(st.integers(1, 3), st.integers(1, 4)), min_size=3, max_size=3), 'dim': st.one_of(st.integers(1, 6), st.integers(5, 14)), 'hs': st.lists(st.integers(1, 4), min_size=1, max_size=6), 'vs': st.lists(st.integers(1, 4), min_size=1, max_size=6), 'seed': st.integers(0, 9999)})


def run_blocks(case, h):
    import itertools
    import random
    import numpy as np
    from pybrain import utilities as U
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    nb = case['nb']
    bs = case['bs'][:len(nb)]
    shape = [a * b for a, b in zip(nb, bs)]
    arr = np.arange(int(np.prod(shape)), dtype=float).reshape(shape) + 1
    exp = []
    for blk in itertools.product(*[range(x) for x in nb]):
        for off in itertools.product(*[range(x) for x in bs]):
            exp.append(arr[tuple(b * s + o for b, s, o in zip(blk, bs, off))])
    before = arr.copy()
    h.close(U.permuteToBlocks(arr, tuple(bs)), exp, 'blocks in order')
    h.check(arr.shape == before.shape and (arr == before).all(), 'array unchanged')
    h.raises(ValueError, lambda: U.permuteToBlocks(arr, (2,)), 'one dimension is not enough')
    h.raises(NotImplementedError, lambda: U.permuteToBlocks(arr, (1, 1, 1, 1)), 'four dimensions')
    d = case['dim']
    M = np.triu(np.random.randn(d, d))
    f = U.triu2flat(M)
    h.close(f, [M[i, j] for i in range(d) for j in range(i, d)], 'flattened upper triangle')
    h.close(U.flat2triu(f, d), M, 'upper triangle round trip')
    L = [np.random.randn(k, k) for k in case['hs']]
    B = U.blockList2Matrix(L)
    E = np.zeros((sum(case['hs']),) * 2)
    i = 0
    for m in L:
        E[i:i + len(m), i:i + len(m)] = m
        i += len(m)
    h.close(B, E, 'block diagonal matrix')
    G = [[np.random.randn(v, k) for k in case['hs']] for v in case['vs']]
    h.close(U.blockCombine(G), np.vstack([np.hstack(r) for r in G]), 'combined blocks')
    for name, f in (('dense', U.dense_orth), ('sparse', U.sparse_orth)):
        Q = f(d)
        Q = np.array(Q.todense()) if name == 'sparse' else np.array(Q)
        h.close(Q.dot(Q.T), np.eye(d), name + ' orthogonal matrix', atol=1e-7)
        if name == 'sparse':
            h.check((Q != 0).sum() <= max(1, 4 * d), 'sparse')
        elif d > 1:
            h.check((abs(Q) > 1e-12).mean() > 0.6, 'dense')
    if len(nb) > 2 or d > 2:
        h.nontrivial()
    h.label('dims%d' % len(nb))


def gen_deco(st):
    return st.fixed_dictionaries({'calls': st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2), st.booleans(), st.integers(0, 2)), min_size=1, max_size=14), 'rep': st.integers(1, 12), 'lists': st.one_of(st.lists(st.lists(st.integers(0, 3), min_size=1, max_size=3), min_size=0, max_size=3), st.lists(st.lists(st.integers(0, 9), min_size=2, max_size=9), min_size=1, max_size=2)), 'scalar': st.booleans(), 'sel': st.lists(st.tuples(st.sampled_from(['a', 'b', 'c', 'd']), st.booleans(), st.one_of(st.lists(st.integers(0, 3), min_size=1, max_size=3), st.lists(st.integers(0, 3), min_size=4, max_size=9))), min_size=0, max_size=4),
                                  'd': st.lists(st.tuples(st.sampled_from(['a', 'b', 'c']), st.integers(0, 3)), min_size=0, max_size=3), 'keys': st.lists(st.sampled_from(['a', 'b', 'c', 'z']), max_size=5), 'seed': st.integers(0, 10 ** 6), 'w': st.lists(st.tuples(st.integers(0, 4), st.integers(1, 3)), min_size=2, max_size=16), 'cut': st.integers(1, 15)})


def run_deco(case, h):
    import itertools
    import random
    import numpy as np
    from pybrain import utilities as U
    n = [0]

    def f(a, b=0):
        n[0] += 1
        return (a, b)

    def f3(a, b=0, c=0):
        n[0] += 1
        return (a, b, c)
    mf = U.memoize(f3)
    seen = set()
    for a, b, kw, c in case['calls']:
        key = (a, b, kw, c if kw else 0)
        seen.add(key)
        if kw:
            h.eq(mf(a, b=b, c=c), (a, b, c), 'memoized result')
            h.eq(mf(a, c=c, b=b), (a, b, c), 'memoized result, in another order of keywords')
        else:
            h.eq(mf(a, b), (a, b, 0), 'memoized result')
        h.eq(n[0], len(seen), 'one evaluation for equal arguments')
    cnt = [0]

    def g(x, y=1):
        cnt[0] += 1
        return x * cnt[0] + y
    h.close(U.multiEvaluate(case['rep'])(g)(2.0, y=3), np.mean([2.0 * (i + 1) + 3 for i in range(case['rep'])]), 'average of repeated evaluations')
    h.eq(cnt[0], case['rep'], 'number of evaluations')
    h.eq(U.garbagecollect(f)(4, b=5), (4, 5), 'garbage collecting decorator keeps results')

    class C(object):
        def __call__(self, x):
            return x * 2
    obj = C()
    res = U.storeCallResults(obj)
    for a, _, _, _ in case['calls']:
        h.eq(obj(a), a * 2, 'observed calls keep their results')
    h.eq(list(res), [a * 2 for a, _, _, _ in case['calls']], 'stored results')
    import threading
    out = []
    before = threading.active_count()
    ev = threading.Event()

    def cb(x):
        out.append(x)
        ev.set()
    U.threaded(cb)(f)(7, b=8)
    h.check(ev.wait(20), 'the callback of the thread is called')
    h.eq(out, [(7, 8)], 'result reported by the thread')
    ld = dict(('k%d' % i, (l[0] if case['scalar'] and i == 0 else (l if i % 2 else tuple(l)))) for i, l in enumerate(case['lists']))
    keep = dict(ld)
    combos = U.dictCombinations(ld)
    exp = [dict(zip(sorted(ld), c)) for c in itertools.product(*[sorted(set(ld[k])) if not isinstance(ld[k], int) else [ld[k]] for k in sorted(ld)])]
    key = lambda x: sorted(x.items())
    h.eq(sorted(map(key, combos)), sorted(map(key, exp)), 'all combinations of a dictionary')
    h.eq(ld, keep, 'dictionary unchanged')
    d = dict(case['d'])
    sel = dict((k, (v if l else v[0])) for k, l, v in case['sel'])
    for ex in (False, True):
        e = all((d[k] in v if isinstance(v, list) else d[k] == v) if k in d else not ex for k, v in sel.items())
        h.eq(bool(U.matchingDict(d, sel, ex)), e, 'matching dictionary')
    h.eq(U.subDict(d, case['keys']), dict((k, v) for k, v in d.items() if k in case['keys']), 'sub dictionary')
    h.eq(U.subDict(d, case['keys'], flip=True), dict((k, v) for k, v in d.items() if k not in case['keys']), 'complementary sub dictionary')

    def rnd():
        return [random.random() for _ in range(3)] + list(np.random.rand(3))
    U.seedit(case['seed'])
    r1 = rnd()
    U.seedit(case['seed'])
    h.eq(rnd(), r1, 'seeding makes both generators repeatable')
    U.seedit(case['seed'] + 1)
    h.check(rnd() != r1, 'another seed')
    U.seedit()
    r1 = rnd()
    U.seedit(0)
    h.eq(rnd(), r1, 'default seed')
    # names

    class N(U.Named):
        pass
    objs = [N() for _ in range(len(case['calls']) + 2)]
    names = [o.name for o in objs]
    h.eq(len(set(names)), len(names), 'generated names are unique')
    h.eq([o.name for o in objs], names, 'names do not change')
    objs[0].name = 'xyz'
    h.eq((objs[0].name, objs[1].name), ('xyz', names[1]), 'names can be set')
    h.check('xyz' in repr(objs[0]) and 'N' in repr(objs[0]), 'representation')
    o = N()
    o.alpha, o.beta = 1, 2
    o.setArgs(alpha=5, beta=[1])
    h.eq((o.alpha, o.beta, o.argdict), (5, [1], {'alpha': 5, 'beta': [1]}), 'arguments set and remembered')
    for nm, e in (('a.mat', 'matlab'), ('x/y.txt', 'ascii'), ('b.svm', 'libsvm'), ('c.d.pkl', 'pickle'), ('e.nc', 'netcdf'), ('noext', None), ('f.unknown', None)):
        h.eq(U.formatFromExtension(nm), e, 'format of ' + nm)
    # weighted U test
    c = case['cut'] % (len(case['w']) - 1) + 1
    g1, g2 = case['w'][:c], case['w'][c:]
    f1 = lambda a, b: float(U.weightedUtest([x for x, _ in a], [w for _, w in a], [x for x, _ in b], [w for _, w in b]))
    p = f1(g1, g2)
    h.check(0 <= p <= 1, 'confidence level')
    h.close(p + f1(g2, g1), 1.0, 'confidence of the opposite')
    ex = lambda a: [(x, 1) for x, w in a for _ in range(w)]
    h.close(f1(ex(g1), ex(g2)), p, 'weights count as repetitions')
    h.close(f1([(x + 3, w) for x, w in g1], [(x + 3, w) for x, w in g2]), p, 'shift invariance')
    h.close(f1(g1, g1), 0.5, 'identical groups')
    if len(case['lists']) > 1:
        h.nontrivial()


FACETS = {'draw': {'gen': gen_draw, 'run': run_draw, 'quick': 150, 'thorough': 2000},
          'code': {'gen': gen_code, 'run': run_code, 'quick': 400, 'thorough': 8000},
          'graph': {'gen': gen_graph, 'run': run_graph, 'quick': 800, 'thorough': 20000},
          'blocks': {'gen': gen_blocks, 'run': run_blocks, 'quick': 300, 'thorough': 5000},
          'deco': {'gen': gen_deco, 'run': run_deco, 'quick': 300, 'thorough': 5000}}
