"""C29: Gaussian processes, importance mixing, k-means, principal components, locality sensitive hashing."""
RULE = ("random training sets, hyperparameters, densities, clusters, spectra and hash contents; closed-form posterior, frequencies, exhaustive greedy seeding, an independent eigendecomposition and explicit hash signatures as oracles; non-trivial: at least two samples, clusters, components or stored items")
ASSUMPTIONS = ["random draws are judged by frequencies and moments with tolerances beyond six standard deviations", "principal components are compared as subspaces, with separated eigenvalues", "hash tables with at most four dimensions for Euclidean space (the number of grids explodes beyond)"]

Q = [0.0, 0.5, -0.5, 1.0, -1.0, 2.0, 0.25, -1.5, 3.0]


def gen_gp(st):
    return st.fixed_dictionaries({'dim': st.integers(1, 3), 'ops': st.lists(st.sampled_from(['add', 'train', 'append', 'reset', 'hyper', 'mean', 'test', 'draw']), min_size=1, max_size=14),
                                  'pts': st.lists(st.sampled_from(Q), min_size=3, max_size=20), 'ys': st.lists(st.sampled_from(Q), min_size=1, max_size=7), 'hyp': st.tuples(st.sampled_from([0.5, 1.0, 0.25, 2.0]), st.sampled_from([2.0, 1.0, 0.5])),
                                  'm': st.sampled_from([0.0, 1.0, -2.0, 4.0]), 'start': st.sampled_from([0.0, -1.0, 0.5]), 'n': st.lists(st.integers(1, 4), min_size=3, max_size=3), 'step': st.sampled_from([0.5, 0.25, 1.0]), 'scalar': st.booleans(), 'k': st.sampled_from([1, 2, 3, 6]), 'seed': st.integers(0, 999)})


def run_gp(case, h):
    import itertools
    import random
    import numpy as np
    from pybrain.auxiliary.gaussprocess import GaussianProcess
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    d = case['dim']
    axes = []
    if case['scalar']:
        n = case['n'][0] if d < 3 else min(2, case['n'][0])
        gp = GaussianProcess(d, start=case['start'], stop=case['start'] + n * case['step'], step=case['step'])
        axes = [[case['start'] + i * case['step'] for i in range(n)]] * d
    else:
        ns = [min(x, 4 if d < 3 else 2) for x in case['n'][:d]]
        st = tuple(case['start'] + 0.5 * i for i in range(d))
        sp = tuple(case['step'] * (i + 1) for i in range(d))
        gp = GaussianProcess(d, start=st, stop=tuple(s + k * p for s, k, p in zip(st, ns, sp)), step=sp)
        axes = [[s + j * p for j in range(k)] for s, k, p in zip(st, ns, sp)]
    grid = np.array(list(itertools.product(*axes)))
    h.eq(np.array(gp.testx).shape, grid.shape, 'sampling grid shape')
    h.close(gp.testx, grid, 'sampling grid', rtol=1e-12)
    tx, X, Y, noise, mean, hyp = grid, np.zeros((0, d)), np.zeros(0), np.zeros(0), 0.0, (0.5, 2.0, 0.1)
    pos = [0]
    pend = [False]

    def point():
        p = [case['pts'][(pos[0] + 3 * i) % len(case['pts'])] + 0.37 * ((pos[0] + i) % 5) for i in range(d)]
        pos[0] += 1
        return p, case['ys'][pos[0] % len(case['ys'])] * (1 + 0.1 * (pos[0] % 3))

    def kern(A, B):
        D = ((A[:, None, :] - B[None, :, :]) ** 2).sum(axis=2)
        return hyp[1] ** 2 * np.exp(-D / (2 * hyp[0] ** 2))

    def post():
        if not len(X):
            return np.zeros(len(tx)), np.eye(len(tx))
        K = kern(X, X) + np.diag(noise)
        ks = kern(X, tx)
        return mean + ks.T.dot(np.linalg.solve(K, Y - mean)), kern(tx, tx) - ks.T.dot(np.linalg.solve(K, ks))
    stale = False
    for op in case['ops']:
        h.label(op)
        if op == 'add':
            p, y = point()
            gp.addSample(p, y)
            X, Y, noise = np.vstack([X, [p]]), np.append(Y, y), np.append(noise, 0.001)
            stale = False
        elif op in ('train', 'append'):
            ds = SupervisedDataSet(d, 1) if pos[0] % 2 == 0 else SequentialDataSet(d, 1)
            P, T = [], []
            for _ in range(case['k']):
                p, y = point()
                ds.addSample(p, [y])
                P.append(p)
                T.append(y)
            if op == 'train':
                gp.trainOnDataset(ds)
                X, Y = np.array(P), np.array(T)
            else:
                gp.addDataset(ds)
                X, Y = np.vstack([X, P]), np.append(Y, T)
            noise = np.full(len(X), 0.001)
            stale = False
        elif op == 'reset':
            gp.reset()
            X, Y, noise = np.zeros((0, d)), np.zeros(0), np.zeros(0)
            stale = False
            h.eq(len(gp.trainx), 0, 'no training points after a reset')
            h.close(gp.pred_mean, np.zeros(len(tx)), 'prior mean after a reset')
            h.close(gp.pred_cov, np.eye(len(tx)), 'prior covariance after a reset')
        elif op == 'hyper':
            hyp = (case['hyp'][0], case['hyp'][1], 0.1)
            gp.hyper = hyp
            stale = True
        elif op == 'mean':
            mean = case['m']
            gp.mean = mean
            stale = True
        elif op == 'test' and len(X):
            T = np.array([point()[0] for _ in range(case['k'])])
            tx = T
            m, c = post()
            got = gp.testOnArray(T.copy())
            h.close(got, m, 'posterior mean', rtol=1e-4, atol=1e-5)
            h.close(gp.pred_cov, c, 'posterior covariance', rtol=1e-4, atol=1e-5)
            stale = False
            if len(X) > 1:
                h.nontrivial()
        elif op == 'draw' and len(X) and not stale:
            N = 300
            S = np.array([gp.draw() for _ in range(N)])
            m, c = post()
            h.eq(S.shape, (N, len(tx)), 'draws')
            h.close(gp.pred_mean, m, 'posterior mean before drawing', rtol=1e-4, atol=1e-5)
            sd = np.sqrt(np.maximum(np.diag(c), 0))
            h.check((abs(S.mean(axis=0) - m) <= 7 * sd / np.sqrt(N) + 1e-3).all(), 'mean of the draws')
            v = S.var(axis=0)
            h.check((abs(v - sd ** 2) <= 8 * sd ** 2 * np.sqrt(2.0 / N) + 1e-3).all(), 'variance of the draws')
            i, j = 0, len(tx) - 1
            cv = ((S[:, i] - m[i]) * (S[:, j] - m[j])).mean()
            h.check(abs(cv - c[i, j]) <= 8 * sd[i] * sd[j] * np.sqrt(2.0 / N) + 1e-3, 'covariance of the draws')
        h.eq(len(gp.trainx), len(X), 'training points kept')
        h.close(np.ravel(gp.trainx), X.ravel(), 'training inputs', rtol=1e-12)
        h.close(np.ravel(gp.trainy), Y, 'training targets', rtol=1e-12)


def gen_mix(st):
    return st.fixed_dictionaries({'old': st.lists(st.integers(1, 6), min_size=2, max_size=5), 'new': st.lists(st.integers(1, 6), min_size=5, max_size=5), 'fr': st.sampled_from([0.01, 0.1, 0.5, 0.3, 1.0]), 'batch': st.sampled_from([400, 50, 10, 3]), 'seed': st.integers(0, 9999)})


def run_mix(case, h):
    import random
    import numpy as np
    from pybrain.auxiliary.importancemixing import importanceMixing
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    k = len(case['old'])
    p = np.array(case['old'], float)
    p /= p.sum()
    q = np.array(case['new'][:k], float)
    q /= q.sum()
    n = case['batch']
    runs = max(1, 3000 // n)
    tot, reuse, oldtot = np.zeros(k), np.zeros(k), np.zeros(k)
    fr = case['fr']
    nre = 0
    for _ in range(runs):
        pts = [int(x) for x in np.random.choice(k, n, p=p)]
        made = []

        def draw():
            x = int(np.random.choice(k, p=q))
            made.append(x)
            return x
        idx, new = importanceMixing(list(pts), lambda x: p[x], lambda x: q[x], draw, fr)
        h.eq(len(idx) + len(new), n, 'the batch keeps its size')
        h.check(all(0 <= i < n for i in idx) and list(idx) == sorted(set(idx)), 'reused indices are distinct and in order')
        rest = list(made)
        for x in new:
            h.check(x in rest, 'new points come from the new distribution')
            rest.remove(x)
        for i in idx:
            tot[pts[i]] += 1
            reuse[pts[i]] += 1
        for x in new:
            tot[x] += 1
        for x in pts:
            oldtot[x] += 1
        nre += len(idx)
        h.check(len(new) >= int(max(1, n * fr) + 1e-9), 'forced refresh: never only old points')
    N = float(n * runs)
    acc = np.minimum(1.0, (1 - fr) * q / p)
    full = N * (p * acc).sum()
    # each batch stops reusing once few new points remain to be generated
    h.check(nre <= full + 7 * np.sqrt(full + 1) + 2, 'not more points reused than the densities allow')
    cap = (n - max(1, n * fr)) * runs
    if full < 0.8 * cap and n >= 50:
        for j in range(k):
            e = oldtot[j] * acc[j]
            h.check(abs(reuse[j] - e) <= 7 * np.sqrt(oldtot[j] * acc[j] * (1 - acc[j])) + 2, 'reuse frequency of each point')
        h.nontrivial()
    if n >= 50:
        for j in range(k):
            h.check(abs(tot[j] - N * q[j]) <= 9 * np.sqrt(N * q[j] * (1 - q[j])) + 2 * runs * (n < 100), 'the mixed batch follows the new density')
    h.label('batch%d' % n)


def gen_kmeans(st):
    return st.fixed_dictionaries({'dim': st.integers(1, 3), 'sizes': st.one_of(st.lists(st.integers(2, 6), min_size=1, max_size=4), st.lists(st.integers(2, 8), min_size=1, max_size=7)), 'vals': st.lists(st.sampled_from(Q), min_size=3, max_size=15), 'far': st.booleans(), 'k': st.one_of(st.integers(1, 4), st.integers(1, 9)), 'perm': st.integers(0, 999), 'seed': st.integers(0, 9999)})


def run_kmeans(case, h):
    import random
    import numpy as np
    from pybrain.auxiliary.kmeans import kinit, kmeanspp
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    d = case['dim']
    X, lab = [], []
    c = 0
    for g, s in enumerate(case['sizes']):
        for _ in range(s):
            X.append([case['vals'][(c * 2 + 3 * i) % len(case['vals'])] * (1 + 0.01 * c) + (100.0 * g if case['far'] else 0) * (1 if i == 0 else (-1) ** g) for i in range(d)])
            lab.append(g)
            c += 1
    r = random.Random(case['perm'])
    order = list(range(len(X)))
    r.shuffle(order)
    X, lab = np.array([X[i] for i in order]), [lab[i] for i in order]
    k = len(case['sizes']) if case['far'] else min(case['k'], len(X))
    before = X.copy()
    C = kinit(X, k)
    h.eq(C.shape, (k, d), 'number and dimension of the seeds')
    h.check((X == before).all(), 'data unchanged')
    D2 = ((X[:, None] - X[None]) ** 2).sum(axis=2)
    h.check(any((x == C[0]).all() for x in X), 'the first seed is a data point')
    D = ((X - C[0]) ** 2).sum(axis=1)
    for i in range(1, k):
        pots = [np.minimum(D, D2[j]).sum() for j in range(len(X))]
        h.check(any((x == C[i]).all() for x in X), 'seeds are data points')
        D = np.minimum(D, ((X - C[i]) ** 2).sum(axis=1))
        h.check(D.sum() <= min(pots) * (1 + 1e-9) + 1e-9, 'each further seed lowers the potential as much as any point can')
    firsts = set(tuple(kinit(X, 1)[0]) for _ in range(40 * len(X))) if len(X) <= 16 else set(map(tuple, X))
    h.eq(firsts, set(map(tuple, X)), 'every point can become the first seed')
    if case['far']:
        cen, a = kmeanspp(X, k)
        h.eq((np.array(cen).shape, len(a)), ((k, d), len(X)), 'shapes')
        for g in range(k):
            mem = [i for i in range(len(X)) if lab[i] == g]
            h.eq(len(set(int(a[i]) for i in mem)), 1, 'a separated cluster gets one label')
            h.close(cen[int(a[mem[0]])], X[mem].mean(axis=0), 'centroid', rtol=1e-9, atol=1e-9)
        h.eq(len(set(int(v) for v in a)), k, 'as many labels as clusters')
        h.label('separated')
    if k > 1:
        h.nontrivial()


def gen_pca(st):
    return st.fixed_dictionaries({'d': st.one_of(st.integers(1, 5), st.integers(4, 10)), 'dim': st.one_of(st.integers(1, 5), st.integers(1, 9)), 'n': st.one_of(st.integers(6, 25), st.integers(20, 60)), 'decay': st.sampled_from([2.0, 4.0, 10.0]), 'shift': st.sampled_from([0.0, 5.0, -100.0]), 'scale': st.sampled_from([1.0, 0.01, 30.0]), 'matrix': st.booleans(), 'func': st.sampled_from(['pca', 'pPca', 'pca']), 'seed': st.integers(0, 9999)})


def run_pca(case, h):
    import random
    import numpy as np
    from pybrain.auxiliary import pca as P
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    d, dim = case['d'], min(case['dim'], case['d'])
    decay = min(case['decay'], 10.0 if d < 6 else 2.0) if case['func'] == 'pca' else 10.0
    n = case['n']
    # exactly known spectrum: orthonormal scores times scales times rotation
    Z = np.random.randn(max(n, d + 2), d)
    Z -= Z.mean(axis=0)
    U = np.linalg.svd(Z, full_matrices=False)[0][:, :d]
    R = np.linalg.qr(np.random.randn(d, d))[0]
    s = case['scale'] * 5.0 * decay ** (-np.arange(d) * 1.0)
    if case['func'] == 'pPca':
        s = s / s[0] * 5.0
        s = np.maximum(s, 0.02)
        if dim < d:
            s[dim:] = np.minimum(s[dim:], s[dim - 1] / 5)
    if dim < d and s[dim] > s[dim - 1] * 0.7:
        h.discard()
    X = (U * s * np.sqrt(len(Z))).dot(R) + case['shift'] * np.arange(1, d + 1)
    # orthonormal scores need centred columns
    X0 = X - X.mean(axis=0)
    data = np.asmatrix(X) if case['matrix'] else X
    ev, E = np.linalg.eigh(np.atleast_2d(np.cov(X.T)))
    top = E[:, ::-1][:, :dim].T
    if dim < d and ev[::-1][dim] > 0.6 * ev[::-1][dim - 1]:
        h.discard()
    h.close(np.array(P.makeCentered(data)), X0, 'centred data', rtol=1e-9, atol=1e-9 * (1 + abs(X).max()))
    before = X.copy()
    proj = top.T.dot(top)
    if case['func'] == 'pca':
        pc = np.array(P.pca(data, dim))
        h.eq(pc.shape, (dim, d), 'one row per component')
        h.check(abs(np.imag(pc)).max() < 1e-12, 'real components')
        pc = np.real(pc)
        h.close(pc.dot(pc.T), np.eye(dim), 'orthonormal components', rtol=1e-7, atol=1e-7)
        h.close(pc.T.dot(pc), proj, 'components span the leading eigenspace', rtol=1e-5, atol=1e-5)
        C = np.atleast_2d(np.cov(X.T))
        for v in pc:
            l = v.dot(C).dot(v)
            h.check(abs(C.dot(v) - l * v).max() <= 1e-6 * ev.max() + 1e-12, 'every component is an eigenvector of the covariance')
        red = np.real(np.array(P.reduceDim(data, dim) if case['seed'] % 2 else P.reduceDim(data, dim, 'pca')))
        h.eq(red.shape, (len(X), dim), 'reduced data')
        h.close(red, X0.dot(pc.T), 'reduced data are the projections', rtol=1e-6, atol=1e-7 * (1 + abs(X0).max()))
        h.close(red.var(axis=0, ddof=1).sum(), ev[::-1][:dim].sum(), 'captured variance', rtol=1e-6)
    else:
        W = np.array(P.pPca(data, dim))
        h.eq(W.shape, (dim, d), 'one row per component')
        Wn = np.linalg.qr(W.T)[0]
        h.check(abs(Wn.dot(Wn.T) - proj).max() < 0.1, 'probabilistic components span the leading eigenspace')
        red = np.array(P.reduceDim(data, dim, func='pPca'))
        h.eq(red.shape, (len(X), dim), 'reduced data')
    h.check((X == before).all(), 'data unchanged')
    h.raises(ValueError, lambda: P.reduceDim(data, dim, 'nosuchfunction'), 'unknown method')
    h.raises(AssertionError, lambda: P.pca(data, d + 1), 'too many components')
    h.label(case['func'])
    if d > 1 and dim < d:
        h.nontrivial()


def gen_minhash(st):
    return st.fixed_dictionaries({'dim': st.integers(1, 7), 'perms': st.one_of(st.integers(1, 3), st.integers(1, 6)), 'own': st.booleans(), 'items': st.lists(st.lists(st.integers(0, 1), min_size=7, max_size=7), min_size=0, max_size=24), 'q': st.lists(st.lists(st.integers(0, 1), min_size=7, max_size=7), min_size=1, max_size=4), 'k': st.one_of(st.integers(0, 4), st.integers(0, 12)), 'seed': st.integers(0, 9999)})


def run_minhash(case, h):
    import random
    import numpy as np
    from pybrain.supervised.knn.lsh.minhash import MinHash, arrayPermutation, jacardCoefficient
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    d = case['dim']
    m = MinHash(d, case['perms'])
    perms = np.array(m.permutations)
    h.eq(perms.shape, (case['perms'], d), 'permutations')
    for p in perms:
        h.eq(sorted(int(x) for x in p), list(range(d)), 'each is a permutation')
    if case['own']:
        perms = np.array([np.random.permutation(d) for _ in range(case['perms'])])
        m.permutations = perms
        h.check((np.array(m.permutations) == perms).all(), 'permutations can be set')

    def sig(x):
        r = []
        for p in perms:
            y = [x[i] for i in p]
            r.append(y.index(1) if 1 in y else d)
        return tuple(r)
    store = []
    for i, it in enumerate(case['items']):
        m.put(np.array(it[:d]), i)
        store.append((it[:d], i))
    for round_ in range(2):
        for q in case['q'] + [x for x in case['items'][:3]]:
            q = q[:d]
            res = m.knn(np.array(q), case['k'])
            same = [(x, s) for x, s in store if sig(x) == sig(q)]
            jac = lambda x: sum(1 for a, b in zip(x, q) if a == b) / float(d)
            h.eq(len(res), min(case['k'], len(same)), 'as many neighbours as asked for and stored under the same signature')
            got = [([int(v) for v in x], s) for x, s in res]
            for g in got:
                h.check(g in same, 'neighbours are stored items with the same signature')
            h.eq(len(set(s for _, s in got)), len(got), 'no item twice')
            sims = [jac(x) for x, _ in got]
            h.close(sims, sorted([jac(x) for x, _ in same], reverse=True)[:len(got)], 'the most similar ones first')
            for x, _ in res[:2]:
                h.close(jacardCoefficient(x, np.array(q)), jac([int(v) for v in x]), 'similarity')
            if len(same) > 1:
                h.nontrivial()
        m.put(np.array(case['q'][0][:d]), 'late')
        store.append((case['q'][0][:d], 'late'))
    h.raises(ValueError, lambda: m.put(np.zeros(d + 1), 0), 'wrong size')
    h.raises(ValueError, lambda: m.knn(np.zeros((1, d)), 1), 'wrong dimension')
    h.raises(ValueError, lambda: jacardCoefficient(np.zeros(d), np.zeros(d + 1)), 'shapes differ')
    p = np.random.permutation(d)
    v = np.arange(d) * 3
    h.close(arrayPermutation(p)(v), v[p], 'array permutation')
    h.label('perms%d' % case['perms'])
    # collision probability of a fresh single permutation
    a, b = case['q'][0][:d], case['q'][-1][:d]
    uni = sum(1 for x, y in zip(a, b) if x or y)
    inter = sum(1 for x, y in zip(a, b) if x and y)
    if uni and case['seed'] % 10 == 0:
        N = 300
        c = 0
        for _ in range(N):
            f = MinHash(d, 1)
            f.put(np.array(a), 'a')
            c += len(f.knn(np.array(b), 1))
        pr = inter / float(uni)
        h.check(abs(c - N * pr) <= 6.5 * np.sqrt(N * pr * (1 - pr)) + 1, 'collision probability of a random permutation')


def gen_euclid(st):
    pt = st.lists(st.sampled_from([0.0, 0.3, 1.0, -1.0, 2.5, 7.0, -3.2, 11.0, 0.9]), min_size=3, max_size=3)
    near = st.lists(st.sampled_from([0.0, 0.3, 1.0, 0.9, 0.55, 0.7]), min_size=3, max_size=3)
    return st.fixed_dictionaries({'dim': st.integers(1, 3), 'omega': st.sampled_from([4, 2, 3.0]), 'prob': st.sampled_from([0.8, 0.5, 0.95]), 'pts': st.one_of(st.lists(pt, min_size=1, max_size=20), st.lists(near, min_size=12, max_size=30)), 'q': st.lists(st.one_of(pt, near), min_size=1, max_size=4), 'k': st.one_of(st.integers(0, 5), st.integers(0, 30)), 'seed': st.integers(0, 9999)})


def run_euclid(case, h):
    import math
    import random
    import numpy as np
    from pybrain.supervised.knn.lsh.nearoptimal import MultiDimHash
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    d = case['dim']
    m = MultiDimHash(d, omega=case['omega'], prob=case['prob'])
    r = d ** 0.25
    side = case['omega'] * r
    h.close(m.radius, r, 'radius')
    N = (case['omega'] * math.sqrt(d)) ** d
    h.eq(len(m.gridBalls), int(math.ceil(math.log((1 - case['prob']) / N) / math.log(1 - 1.0 / N))), 'number of balls')
    balls = np.array(m.gridBalls)
    h.check(((balls >= r - 1e-9) & (balls <= r + side + 1e-9)).all(), 'balls within the cell')
    near = [False]

    def key(p):
        cell, rel = [], []
        for x in p:
            c = math.floor(x / side)
            if abs(x / side - round(x / side)) < 1e-9 and x != 0:
                near[0] = True
            cell.append(int(c))
            rel.append(x - c * side)
        dd = ((balls - np.array(rel)) ** 2).sum(axis=1)
        if (abs(dd - r * r) < 1e-9).any():
            near[0] = True
        w = np.nonzero(dd <= r * r)[0]
        return tuple(cell), (int(w[0]) if len(w) else None)
    store = []
    for i, p in enumerate(case['pts']):
        m.insert(np.array(p[:d]), i)
        store.append((p[:d], i))
    for q in case['q'] + case['pts'][:3]:
        q = q[:d]
        res = m.knn(np.array(q), case['k'])
        same = [(p, s) for p, s in store if key(p) == key(q)]
        if near[0]:
            h.discard()
        got = [([float(v) for v in np.ravel(p)], s) for p, s in res]
        h.eq(len(got), min(case['k'], len(same)), 'as many neighbours as asked for and available in the bucket')
        for g in got:
            h.check(g in same, 'neighbours come from the bucket of the query')
        h.eq(len(set(s for _, s in got)), len(got), 'no item twice')
        ds = [sum((a - b) ** 2 for a, b in zip(p, q)) for p, _ in got]
        h.close(ds, sorted(sum((a - b) ** 2 for a, b in zip(p, q)) for p, _ in same)[:len(got)], 'the closest ones first')
        if len(same) > 1:
            h.nontrivial()
    h.label('dim%d' % d)


FACETS = {'gp': {'gen': gen_gp, 'run': run_gp, 'quick': 300, 'thorough': 4000},
          'mix': {'gen': gen_mix, 'run': run_mix, 'quick': 60, 'thorough': 800},
          'kmeans': {'gen': gen_kmeans, 'run': run_kmeans, 'quick': 150, 'thorough': 3000},
          'pca': {'gen': gen_pca, 'run': run_pca, 'quick': 300, 'thorough': 5000},
          'minhash': {'gen': gen_minhash, 'run': run_minhash, 'quick': 300, 'thorough': 5000},
          'euclid': {'gen': gen_euclid, 'run': run_euclid, 'quick': 300, 'thorough': 5000}}
