"""C22: ranking functions order fitnesses as documented."""
RULE = ("fitness arrays of 1-70 values (distinct, tied, negative, huge, integers or floats) through every ranking function with drawn settings; non-trivial: at least 4 values that are not all equal")
ASSUMPTIONS = ["fitnesses are finite", "functions that divide by the number of samples minus one are called with at least two"]
KINDS = ['linear', 'gini', 'exponential', 'hansen', 'top', 'toplinear', 'bilinear', 'tournament', 'ranked', 'normalized']


def gen(st):
    val = st.one_of(st.integers(-5, 5).map(float), st.floats(-1e6, 1e6, allow_nan=False), st.integers(-3, 3).map(lambda e: 10.0 ** e), st.tuples(st.integers(-9, 9), st.integers(4, 14)).map(lambda t: t[0] * 10.0 ** t[1]))
    return st.fixed_dictionaries({'kind': st.sampled_from(KINDS), 'R': st.one_of(st.integers(1, 25), st.integers(1, 70)).flatmap(lambda n: st.lists(val, min_size=n, max_size=n)), 'ints': st.booleans(), 'aslist': st.booleans(),
                                  'p': st.sampled_from([0.02, 0.1, 0.2, 0.34, 0.5, 0.75, 0.9, 1.0]), 'lin': st.sampled_from([0.0, 0.05, 0.3, 0.8, 1.0]), 'ts': st.integers(1, 7), 'temp': st.sampled_from([0.1, 0.5, 2.0, 10.0, 11.0, 30.0, 60.0]), 'bf': st.sampled_from([0, 1, 5, 20, 50]), 'seed': st.integers(0, 9999), 'perm': st.integers(0, 9999)})


def run(case, h):
    import numpy as np, random
    from pybrain.tools import rankingfunctions as F
    kind = case['kind']
    R = [round(v) for v in case['R']] if case['ints'] else list(case['R'])
    n = len(R)
    if n < 2 and kind in ('gini', 'exponential', 'linear', 'bilinear', 'normalized'):
        R = R + [R[0] + 1]
        n = 2
    if kind == 'normalized' and len(set(R)) < 2:
        R[0] += 1
    A = np.array(R, int) if case['ints'] else np.array(R, float)
    h.label(kind)
    # ranks: ties are ranked by position
    order = sorted(range(n), key=lambda i: (R[i], i))
    rank = [0] * n
    for k, i in enumerate(order):
        rank[i] = k
    old = A.copy()
    arg = list(R) if case['aslist'] and kind != 'normalized' else A
    p = case['p']
    random.seed(case['seed'])
    if kind == 'ranked':
        res = np.array(F.rankedFitness(arg), float)
        ref = rank
    elif kind == 'normalized':
        res = np.array(F.normalizedFitness(A), float)
        h.close(np.mean(res), 0.0, 'mean', rtol=0, atol=1e-6)
        h.close(np.std(res), 1.0, 'standard deviation', rtol=1e-6)
        ref = [(v - np.mean(A)) / np.std(A) for v in R]
    elif kind == 'linear':
        res = F.RankingFunction()(arg)
        ref = [k / float(n - 1) for k in rank]
    elif kind == 'gini':
        res = F.SmoothGiniRanking(gini=p, linearComponent=case['lin'])(arg)
        ref = np.array([k * case['lin'] + (k / float(n - 1)) ** (2 / p - 1) * (1 - case['lin']) for k in rank])
        ref = ref / ref.max()
    elif kind == 'exponential':
        res = F.ExponentialRanking(temperature=case['temp'])(arg)
        ref = [np.exp(case['temp'] * k / (n - 1.0)) for k in rank]
    elif kind == 'hansen':
        res = F.HansenRanking()(arg)
        ref = [max(0.0, np.log(n / 2.0 + 1) - np.log(n - k)) for k in rank]
    elif kind == 'top':
        res = F.TopSelection(topFraction=p)(arg)
        ref = [1.0 if k >= n * (1.0 - p) else 0.0 for k in rank]
    elif kind == 'toplinear':
        f = F.TopLinearRanking(topFraction=0.3)
        f.setParameter(p)
        res = f(arg)
        cut = n * (1.0 - p)
        ref = np.array([max(0.0, k - cut) for k in rank])
        if ref.max() > 1e-9:
            ref = ref / ref.max()
        else:
            ref = None
    elif kind == 'bilinear':
        res = F.BilinearRanking(bilinearFactor=case['bf'])(arg)
        t = 4 * n / 5.0
        ref = np.array([k + max(0.0, k - t) * case['bf'] for k in rank])
        ref = ref / ref.max()
    else:
        res = F.TournamentSelection(tournamentSize=case['ts'])(arg)
        h.eq(int(sum(res)), n, 'one winner per tournament')
        h.check(all(v == int(v) and v >= 0 for v in res), 'numbers of wins')
        best = max(R)
        h.check(sum(res[i] for i in range(n) if R[i] == best) >= 1, 'the best wins its own tournament')
        if case['ts'] == 1:
            h.eq([int(v) for v in res], [1] * n, 'tournaments of one')
        elif n > 1 and R.count(min(R)) == 1:
            h.eq(int(res[R.index(min(R))]), 0, 'the worst one wins nothing')
        ref = None
        if n == 2 and case['ts'] > 1 and R[0] != R[1]:
            ref = [0.0, 2.0] if R[1] > R[0] else [2.0, 0.0]
    h.eq(len(res), n, 'one value per sample')
    h.close(A, old, 'the fitnesses are unchanged', rtol=0, atol=0)
    cut = n * (1.0 - p)
    if kind == 'top' and abs(cut - round(cut)) < 1e-9 and p not in (0.5, 0.75, 1.0):
        # the rank at the threshold is decided by rounding
        res2 = [v for v, k in zip(res, rank) if k != round(cut)]
        h.close(res2, [v for v, k in zip(ref, rank) if k != round(cut)], 'values', rtol=1e-7, atol=1e-9)
    elif ref is not None:
        h.close(res, ref, 'values', rtol=1e-7, atol=1e-9)
    if kind != 'tournament':
        for a, b in zip(order, order[1:]):
            h.check(res[a] <= res[b] + 1e-9, 'a better fitness never gets a lower value')
        if kind in ('linear', 'gini', 'toplinear', 'bilinear'):
            h.close([max(res)], [1.0], 'the best gets one')
            h.check(min(res) >= 0, 'no negative values')
        if kind not in ('normalized',) and len(set(R)) == n:
            # only the order matters, and every position is treated alike
            f = {'ranked': F.rankedFitness, 'linear': F.RankingFunction(), 'gini': F.SmoothGiniRanking(gini=p, linearComponent=case['lin']), 'exponential': F.ExponentialRanking(temperature=case['temp']), 'hansen': F.HansenRanking(),
                 'top': F.TopSelection(topFraction=p), 'toplinear': F.TopLinearRanking(topFraction=p), 'bilinear': F.BilinearRanking(bilinearFactor=case['bf'])}[kind]
            perm = np.random.RandomState(case['perm']).permutation(n)
            h.close(f(np.array([rank[i] ** 3 for i in perm])), [res[i] for i in perm], 'only the order of the fitnesses matters', rtol=1e-9, atol=1e-12)
    h.nontrivial(n >= 4 and len(set(R)) > 1)


FACETS = {'rankings': {'gen': gen, 'run': run, 'quick': 1500, 'thorough': 40000}}
