"""C33: special functions, densities and Fisher information."""
RULE = ("random scalars, arrays of one to three dimensions, covariance matrices; closed formulas, finite differences, quadrature, moments and matrix identities as oracles; non-trivial: more than one element or dimension")
ASSUMPTIONS = ["finite differences are taken away from the kinks of piecewise functions", "covariance matrices are well conditioned", "the multivariate Cauchy sample is judged by its quartiles in the diagonal form only"]


def gen_fun(st):
    x = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.5, 1e-9, -1e-9, 600.0, -600.0, 30.0, -30.0]), st.floats(min_value=-20, max_value=20, allow_nan=False))
    return st.fixed_dictionaries({'xs': st.lists(x, min_size=1, max_size=12), 'shape': st.sampled_from(['1d', 'list', '2d', '3d', 'col']), 'R': st.one_of(st.lists(st.sampled_from([0.0, 1.0, -2.0, 5.0, 0.5, 7.5]), min_size=1, max_size=8), st.lists(st.floats(min_value=-1000, max_value=1000, allow_nan=False), min_size=5, max_size=16))})


def run_fun(case, h):
    import numpy as np
    from pybrain.tools import functions as F
    xs = case['xs']
    x = np.array(xs, float)
    shp = {'1d': (len(x),), 'list': (1, len(x)), '2d': (1, len(x)), 'col': (len(x), 1), '3d': (1, len(x), 1)}[case['shape']]
    if case['shape'] == '2d' and len(x) % 2 == 0:
        shp = (2, len(x) // 2)
    arg = list(xs) if case['shape'] == 'list' else x.reshape(shp)
    arr = x.reshape(shp) if case['shape'] != 'list' else x
    se = np.exp(np.clip(x, -500, 500))
    low = np.exp(np.minimum(np.maximum(x, -500), 0))

    def eq(name, got, exp, shape=None):
        got = np.array(got, float)
        h.eq(got.shape, shape or np.shape(arr), name + ': shape')
        h.close(got.ravel(), exp, name, rtol=1e-10, atol=1e-300)
    keep = np.array(arr)
    eq('semilinear', F.semilinear(arg), np.where(x < 0, low, x + 1), shp)
    eq('semilinearPrime', F.semilinearPrime(arg), np.where(x < 0, low, 1.0), shp)
    eq('safeExp', F.safeExp(arr), se)
    h.check(np.isfinite(F.safeExp(arr * 1e5)).all(), 'the bounded exponential is finite')
    sg = np.where(x >= 0, 1 / (1 + np.exp(-np.clip(x, 0, 500))), low / (1 + low))
    h.close(np.ravel(F.sigmoid(arr)), sg, 'sigmoid', rtol=1e-9, atol=1e-200)
    h.close(np.ravel(F.sigmoidPrime(arr)), sg * (1 - sg), 'sigmoidPrime', rtol=1e-6, atol=1e-15)
    h.close(np.ravel(F.tanhPrime(arr)), 1 - np.tanh(x) ** 2, 'tanhPrime', rtol=1e-9, atol=1e-15)
    if case['shape'] in ('1d', 'list'):
        eq('expln', F.expln(arg), np.where(x < 0, np.exp(np.minimum(x, 0)), np.log(np.maximum(x, 0) + 1) + 1), (len(x),))
        eq('explnPrime', F.explnPrime(arg), np.where(x < 0, np.exp(np.minimum(x, 0)), 1 / (np.maximum(x, 0) + 1)), (len(x),))
        h.close(F.expln(xs[0]), F.expln([xs[0]])[0], 'scalar expln', rtol=1e-12)
        h.close(F.explnPrime(xs[0]), F.explnPrime([xs[0]])[0], 'scalar explnPrime', rtol=1e-12)
    h.check((np.array(arr) == keep).all(), 'argument unchanged')
    # derivatives belong to their functions
    s = x[(abs(x) > 1e-3) & (abs(x) < 15)]
    if len(s):
        e = 1e-5
        for f, df in ((F.semilinear, F.semilinearPrime), (F.expln, F.explnPrime), (F.sigmoid, F.sigmoidPrime), (np.tanh, F.tanhPrime)):
            num = (np.ravel(f(s + e)) - np.ravel(f(s - e))) / (2 * e)
            h.close(np.ravel(df(s)), num, 'derivative', rtol=1e-5, atol=1e-7)
        for f in (F.semilinear, F.expln):
            h.check((np.ravel(f(s)) > 0).all(), 'always positive')
            lo = np.ravel(f(np.array([-1e-9, 0.0, 1e-9])))
            h.check(abs(lo - 1).max() < 1e-8, 'continuous at zero')
    R = case['R']
    r = [int(v) for v in F.ranking(R)]
    h.eq(sorted(r), list(range(len(R))), 'ranks are a permutation')
    for i in range(len(R)):
        for j in range(len(R)):
            if R[i] < R[j]:
                h.check(r[i] < r[j], 'larger values have larger ranks')
    h.eq([int(v) for v in F.ranking(np.array(R))], r, 'ranking of an array')
    if len(x) > 1:
        h.nontrivial()
    h.label(case['shape'])


def _spd(np, d, cond):
    R = np.linalg.qr(np.random.randn(d, d))[0]
    s = np.exp(np.random.uniform(-cond, cond, d))
    M = R.dot(np.diag(s)).dot(R.T)
    return (M + M.T) / 2


def gen_gauss(st):
    return st.fixed_dictionaries({'d': st.one_of(st.integers(1, 5), st.integers(4, 8)), 'cond': st.sampled_from([0.0, 0.5, 1.5]), 'z': st.lists(st.sampled_from([0.0, 1.0, -0.5, 2.0, -3.0]), min_size=8, max_size=8), 'zs': st.sampled_from([1.0, 1.0, 4.0]), 'x': st.lists(st.sampled_from([0.0, 1.0, -0.5, 2.0]), min_size=8, max_size=8), 'mode': st.sampled_from(['pdf', 'fisher', 'cauchy', 'fisher']), 'seed': st.integers(0, 9999)})


def run_gauss(case, h):
    import math
    import random
    import numpy as np
    from pybrain.tools import functions as F
    from pybrain.tools.fisher import calcFisherInformation, calcInvFisher
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    d = case['d']
    S = _spd(np, d, case['cond'])
    S0 = S.copy()
    z, x = np.array(case['z'][:d]) * case['zs'], np.array(case['x'][:d])
    if case['mode'] == 'pdf':
        p = F.multivariateNormalPdf(z, x, S)
        w, V = np.linalg.eigh(S)
        y = V.T.dot(z - x)
        h.close(p, np.prod([math.exp(-0.5 * yi * yi / wi) / math.sqrt(2 * math.pi * wi) for yi, wi in zip(y, w)]), 'multivariate normal density', rtol=1e-7, atol=1e-300)
        h.close(F.multivariateNormalPdf(x, z, S), p, 'symmetric', rtol=1e-8, atol=1e-300)
        A = np.linalg.cholesky(S)
        h.close(F.simpleMultivariateNormalPdf(np.linalg.solve(A, z - x), np.linalg.det(A)), p, 'density from the factorized covariance', rtol=1e-6, atol=1e-300)
        if d == 1:
            g = np.linspace(-12, 12, 2001) * math.sqrt(S[0, 0]) + x[0]
            h.close(sum(F.multivariateNormalPdf(np.array([v]), x, S) for v in g) * (g[1] - g[0]), 1.0, 'integral', rtol=1e-6)
        Q = F.sqrtm(S)
        h.close(Q.dot(Q), S, 'matrix square root', rtol=1e-6, atol=1e-8)
        h.close(Q, Q.T, 'symmetric root')
        h.check(np.linalg.eigvalsh((Q + Q.T) / 2).min() > 0, 'positive root')
        n = d + case['seed'] % 30
        exact = math.sqrt(2) * math.exp(math.lgamma((n + 1) / 2.0) - math.lgamma(n / 2.0))
        h.close(F.approxChiFunction(n), exact, 'expected length of a normal vector', rtol=3e-3 if n > 1 else 1e-2)
    elif case['mode'] == 'cauchy':
        N = 900
        diag = np.abs(np.random.randn(d)) + 0.2
        X = np.array([np.ravel(F.multivariateCauchy(x, np.diag(diag))) for _ in range(N)])
        h.eq(X.shape, (N, d), 'shape')
        for i in range(d):
            for q, pr in ((x[i], 0.5), (x[i] - diag[i], 0.25), (x[i] + diag[i], 0.75), (x[i] + diag[i] * math.tan(math.pi * 0.4), 0.9)):
                c = (X[:, i] <= q).sum()
                h.check(abs(c - N * pr) <= 6.5 * math.sqrt(N * pr * (1 - pr)), 'quantiles of the Cauchy sample')
        if d > 1:
            c = ((X[:, 0] > x[0]) & (X[:, 1] > x[1])).sum()
            h.check(abs(c - N / 4.0) <= 6.5 * math.sqrt(N * 3 / 16.0), 'components are independent')
        h.eq(np.shape(F.multivariateCauchy(x, S, False)), (d,), 'full covariance: shape')
    else:
        iS, U = np.linalg.inv(S), np.linalg.cholesky(S).T
        a, b = calcFisherInformation(S), calcInvFisher(S)
        h.eq((len(a), len(b)), (d + 1, d + 1), 'diagonal blocks')
        h.close(a[0], iS, 'first block is the inverse covariance', rtol=1e-7, atol=1e-9)
        for k in range(d):
            E = iS[k:, k:].copy()
            E[0, 0] += U[k, k] ** -2
            h.close(a[k + 1], E, 'Fisher information block', rtol=1e-7, atol=1e-9)
        for k in range(d + 1):
            h.close(np.array(a[k]).dot(np.array(b[k])), np.eye(len(a[k])), 'inverse Fisher information', rtol=1e-6, atol=1e-6)
        a2, b2 = calcFisherInformation(S, iS, U), calcInvFisher(S, iS, U)
        for k in range(d + 1):
            h.close(a2[k], a[k], 'with given inverse and factor', rtol=1e-7, atol=1e-9)
            h.close(b2[k], b[k], 'inverse with given inverse and factor', rtol=1e-6, atol=1e-8)
        # the score of the Cholesky factor parametrization has this covariance
        if d <= 3 and case['seed'] % 4 == 0:
            N = 4000
            iU = np.linalg.inv(U)
            Zs = np.random.randn(N, d)
            eps = Zs.dot(U)
            g0 = eps.dot(iS)
            C = g0.T.dot(g0) / N
            h.check(abs(C - a[0]).max() <= 0.2 * abs(a[0]).max(), 'covariance of the score of the mean')
            # d log p / d U[k, k:] = (iU^T ... ) row k of  U^-T (z z^T - I)
            for k in range(d):
                sc = (Zs[:, k:k + 1] * Zs.dot(iU.T) - iU[:, k])[:, k:]
                Ck = sc.T.dot(sc) / N
                h.check(abs(Ck - a[k + 1]).max() <= 0.5 * abs(a[k + 1]).max(), 'covariance of the score of the factor')
    h.check((S == S0).all(), 'covariance unchanged')
    h.label(case['mode'])
    if d > 1:
        h.nontrivial()


FACETS = {'fun': {'gen': gen_fun, 'run': run_fun, 'quick': 600, 'thorough': 15000},
          'gauss': {'gen': gen_gauss, 'run': run_gauss, 'quick': 300, 'thorough': 6000}}
