"""C21: multi-objective optimization keeps non-dominated fronts."""
RULE = ("fronts and sorts of 1-260 items with 1-3 objectives on a small grid of values (with many ties) or random values, with and without constraints and equality; crowding distances; NSGA-II "
        "selections; runs of the multi-objective genetic algorithms on the library's benchmarks and random objectives with and without elitism; non-trivial: at least two fronts, or two generations")
ASSUMPTIONS = ["smaller is better in the fronts, as the library's benchmark set-up makes it", "the violations of infeasible items are compared by the absolute value of their sum, as in the code"]


def gen_front(st):
    return st.fixed_dictionaries({'n': st.sampled_from([1, 2, 3, 5, 8, 12, 20, 40, 100, 101, 130, 260]), 'm': st.integers(1, 3), 'grid': st.sampled_from([2, 4, 10, 0]), 'seed': st.integers(0, 99999),
                                  'pts': st.lists(st.lists(st.integers(0, 4), min_size=3, max_size=3), min_size=1, max_size=12), 'small': st.booleans(), 'wide': st.sampled_from([0, 0, 5, 9]), 'eq': st.booleans(),
                                  'con': st.booleans(), 'tuplekeys': st.booleans(), 'frac': st.integers(0, 10)})


def items(case):
    import numpy as np
    r = np.random.RandomState(case['seed'])
    m = case['m']
    if case['small']:
        F = [tuple(float(v) for v in p[:m]) for p in case['pts']]
    elif case['grid']:
        F = [tuple(float(v) for v in r.randint(0, case['grid'], m)) for _ in range(case['n'])]
    else:
        F = [tuple(float(v) for v in r.randn(m)) for _ in range(case['n'])]
    if case['wide'] and m > 1:
        # many items that do not dominate each other
        F = [f[:-1] + (-sum(f[:-1]),) if r.randint(0, 10) < case['wide'] else f for f in F]
    V = [bool(v) for v in r.rand(len(F)) < 0.5]
    C = [np.zeros(2) if v else -r.randint(1, 5, 2).astype(float) for v in V]
    return F, V, C


def dominates(a, b, eq):
    if eq:
        return all(x < y for x, y in zip(a, b))
    return all(x <= y for x, y in zip(a, b))


def run_front(case, h):
    import numpy as np
    from pybrain.tools import nondominated as N
    from pybrain.optimization.populationbased.multiobjective import nsga2, constnsga2
    F, V, C = items(case)
    n, eq, con = len(F), case['eq'], case['con']
    ids = ['i%d' % i for i in range(n)]
    num = dict((i, k) for k, i in enumerate(ids))
    key = (lambda i: [np.array(F[num[i]]), V[num[i]], C[num[i]]]) if con else (lambda i: F[num[i]])

    def dom(i, j):
        # i is better than j
        a, b = num[i], num[j]
        if con:
            if V[a] != V[b]:
                return V[a]
            if not V[a]:
                return abs(sum(C[a])) < abs(sum(C[b])) or (abs(sum(C[a])) == abs(sum(C[b])) and None)
        return dominates(F[a], F[b], eq)

    def check_front(front, rest, what):
        front = set(front)
        h.check(front and front <= set(rest), what + ': a non-empty subset')
        for i in rest:
            better = [j for j in rest if j != i and dom(j, i)]
            if eq and not con:
                h.eq(i in front, not better, what + ': exactly the items no other one dominates')
            elif i in front:
                # of equally good ones only one remains
                h.check(all(dom(i, j) or dom(i, j) is None for j in better) and not any(j in front for j in better), what + ': no dominated item is in the front')
            else:
                h.check(any(dom(j, i) is not False for j in front), what + ': an item outside is dominated by the front')
    fn = N.const_non_dominated_front if con else N.non_dominated_front
    front = fn(list(ids), key, eq)
    check_front(front, ids, 'front')
    if not con:
        for other in (N._non_dominated_front_fast, N._non_dominated_front_merge) + ((N._non_dominated_front_old,) if n <= 20 else ()):
            check_front(other(list(ids), key, eq), ids, 'front ' + other.__name__)
    fronts = (N.const_non_dominated_sort if con else N.non_dominated_sort)(list(ids), key, eq)
    h.eq(sorted(x for f in fronts for x in f), sorted(ids), 'the sorted fronts are a partition')
    rest = list(ids)
    if n <= 60:
        for f in fronts:
            check_front(f, rest, 'sort')
            rest = [i for i in rest if i not in f]
    h.label('%s fronts' % (len(fronts) if len(fronts) < 4 else 'many'))
    if n > 100:
        h.label('more than 100')
    # selection
    k = max(1, n * case['frac'] // 10)
    fit = dict((i, key(i)) for i in ids)
    sel = (constnsga2 if con else nsga2).nsga2select(list(ids), fit, k, eq)
    h.eq(len(sel), min(k, n), 'number of survivors')
    h.eq(len(set(sel)), len(sel), 'survivors are different')
    left = set(sel)
    fr = (N.const_non_dominated_sort if con else N.non_dominated_sort)(list(ids), key, eq)
    if eq and not con:
        for f in fr:
            inside = left & f
            if inside != f:
                h.check(len(inside) < len(f) and not (left - inside), 'better fronts survive first')
                # the cut front keeps the extremes
                for o in range(case['m']):
                    if len(inside) >= 2 * case['m']:
                        vals = [F[num[i]][o] for i in f]
                        h.check(any(F[num[i]][o] == min(vals) for i in inside) and any(F[num[i]][o] == max(vals) for i in inside), 'extremes of a cut front survive')
                break
            left -= f
    h.nontrivial(len(fronts) >= 2)


def gen_cut(st):
    return st.fixed_dictionaries({'n': st.integers(2, 60), 'm': st.integers(2, 3), 'extra': st.integers(0, 30), 'k': st.integers(1, 90), 'con': st.booleans(), 'eq': st.booleans(), 'seed': st.integers(0, 99999)})


def run_cut(case, h):
    """the survivors of the front that does not fit are the least crowded ones"""
    import numpy as np
    from pybrain.optimization.populationbased.multiobjective import nsga2, constnsga2
    r = np.random.RandomState(case['seed'])
    n, m = case['n'], case['m']
    X = np.abs(r.randn(n, m)) + 0.01
    X = X / np.sqrt((X ** 2).sum(axis=1))[:, None]
    # the front is concave: nothing dominates anything; the others lie behind
    F = [tuple(float(t) for t in -x) for x in X]
    back = [tuple(float(t) for t in 3 - np.abs(r.randn(m)) * 0.1) for _ in range(case['extra'])]
    pts = [tuple([float(i)]) for i in range(n + len(back))]
    vals = dict(zip(pts, F + back))
    fit = dict((p, [np.array(v), True, np.zeros(1)]) for p, v in vals.items()) if case['con'] else dict((p, np.array(v)) for p, v in vals.items())
    order = [pts[i] for i in r.permutation(len(pts))]
    k = min(case['k'], len(pts))
    sel = (constnsga2 if case['con'] else nsga2).nsga2select(order, fit, k, case['eq'])
    h.eq(len(set(sel)), k, 'number of survivors')
    first = set(pts[:n])
    if k >= n:
        h.check(first <= set(sel), 'the best front survives')
        h.label('whole front')
    else:
        h.check(set(sel) <= first, 'only members of the best front survive')
        X = np.array(F)
        d = {}
        for i in range(n):
            t = 0.0
            for o in range(m):
                col = X[:, o]
                if col[i] == col.min() or col[i] == col.max():
                    t = 1e100
                    break
                t += (min(v for v in col if v > col[i]) - max(v for v in col if v < col[i])) / (col.max() - col.min())
            d[pts[i]] = t
        worst = min(d[p] for p in sel)
        best = max(d[p] for p in first - set(sel))
        h.check(worst >= best - 1e-9, lambda: 'the least crowded survive: kept one of %r, lost one of %r' % (worst, best))
        h.label('cut')
    h.nontrivial(k < n)


def gen_crowd(st):
    return st.fixed_dictionaries({'n': st.integers(1, 12), 'm': st.integers(1, 3), 'seed': st.integers(0, 99999), 'grid': st.sampled_from([0, 0, 3, 1]), 'con': st.booleans(), 'shift': st.sampled_from([0.0, 10.0, -100.0]), 'arrays': st.booleans()})


def run_crowd(case, h):
    import numpy as np
    from pybrain.tools import nondominated as N
    r = np.random.RandomState(case['seed'])
    n, m = case['n'], case['m']
    X = (r.randint(0, case['grid'], (n, m)).astype(float) if case['grid'] else r.randn(n, m)) + case['shift']
    ids = ['i%d' % i for i in range(n)]
    fit = dict((i, x if case['arrays'] else tuple(x)) for i, x in zip(ids, X))
    if case['con']:
        d = N.const_crowding_distance(list(ids), dict((i, [f, True, np.zeros(2)]) for i, f in fit.items()))
    else:
        d = N.crowding_distance(list(ids), fit)
    for i in ids:
        h.check(d[i] >= 0 and not np.isnan(d[i]), lambda: 'distance %r' % d[i])
    h.check(sum(1 for i in ids if d[i] >= 1e99) >= min(2, n), 'the extremes are far from the others')
    h.check(sum(1 for i in ids if d[i] >= 1e99) <= 2 * m, 'only the extremes are')
    if not case['grid']:
        for k, i in enumerate(ids):
            if any(X[k, o] in (X[:, o].min(), X[:, o].max()) for o in range(m)):
                h.check(d[i] >= 1e99, 'extreme of one objective')
                continue
            ref = 0.0
            for o in range(m):
                lo = max(v for v in X[:, o] if v < X[k, o])
                hi = min(v for v in X[:, o] if v > X[k, o])
                ref += (hi - lo) / (X[:, o].max() - X[:, o].min())
            h.close(d[i], ref, 'crowding distance', rtol=1e-6, atol=1e-9)
    h.nontrivial(n > 2 * m)


BENCH = ['SchBenchmark', 'FonBenchmark', 'PolBenchmark', 'KurBenchmark', 'Deb', 'Pol', 'ConstDeb', 'ConstSrn', 'ConstOsy', 'ConstTnk', 'ConstBnh']


def gen_bench(st):
    return st.fixed_dictionaries({'b': st.sampled_from(BENCH), 'seed': st.integers(0, 99999), 'x': st.lists(st.integers(0, 20), min_size=6, max_size=6), 'pc': st.booleans()})


def ref_bench(name, x):
    from math import sin, cos, exp, sqrt, atan, pi
    g = None
    if name == 'SchBenchmark':
        f = [x[0] ** 2, (x[0] - 2) ** 2]
    elif name == 'FonBenchmark':
        f = [1 - exp(-sum((v - s / sqrt(3)) ** 2 for v in x)) for s in (1, -1)]
    elif name in ('PolBenchmark', 'Pol'):
        A1, A2 = 0.5 * sin(1) - 2 * cos(1) + sin(2) - 1.5 * cos(2), 1.5 * sin(1) - cos(1) + 2 * sin(2) - 0.5 * cos(2)
        B1, B2 = 0.5 * sin(x[0]) - 2 * cos(x[0]) + sin(x[1]) - 1.5 * cos(x[1]), 1.5 * sin(x[0]) - cos(x[0]) + 2 * sin(x[1]) - 0.5 * cos(x[1])
        f = [1 + (A1 - B1) ** 2 + (A2 - B2) ** 2, (x[0] + 3) ** 2 + (x[1] + 1) ** 2]
    elif name == 'KurBenchmark':
        f = [sum(-10 * exp(-0.2 * sqrt(x[i] ** 2 + x[i + 1] ** 2)) for i in range(2)), sum(abs(v) ** 0.8 + 5 * sin(v ** 3) for v in x)]
    elif name in ('Deb', 'ConstDeb'):
        f = [x[0], (1 + x[1]) / x[0]]
        g = [x[1] + 9 * x[0] - 6, 9 * x[0] - x[1] - 1]
    elif name == 'ConstSrn':
        f = [2 + (x[0] - 2) ** 2 + (x[1] - 1) ** 2, 9 * x[0] - (x[1] - 1) ** 2]
        g = [225 - x[0] ** 2 - x[1] ** 2, 3 * x[1] - x[0] - 10]
    elif name == 'ConstOsy':
        f = [-(25 * (x[0] - 2) ** 2 + (x[1] - 2) ** 2 + (x[2] - 1) ** 2 + (x[3] - 4) ** 2 + (x[4] - 1) ** 2), sum(v * v for v in x)]
        g = [x[0] + x[1] - 2, 6 - x[0] - x[1], 2 - x[1] + x[0], 2 - x[0] + 3 * x[1], 4 - (x[2] - 3) ** 2 - x[3], (x[4] - 3) ** 2 + x[5] - 4]
    elif name == 'ConstTnk':
        f = [x[0], x[1]]
        g = [x[0] ** 2 + x[1] ** 2 - 1 - 0.1 * cos(16 * (atan(x[0] / x[1]) if x[1] else pi / 2)), 0.5 - (x[0] - 0.5) ** 2 - (x[1] - 0.5) ** 2]
    else:
        f = [4 * x[0] ** 2 + 4 * x[1] ** 2, (x[0] - 5) ** 2 + (x[1] - 5) ** 2]
        g = [25 - (x[0] - 5) ** 2 - x[1] ** 2, (x[0] - 8) ** 2 + (x[1] + 3) ** 2 - 7.7]
    return f, g if name.startswith('Const') else None


def run_bench(case, h):
    import numpy as np
    from pybrain.rl.environments.functions import multiobjective as MO
    from pybrain.rl.environments.functions.transformations import oppositeFunction
    from pybrain.structure.parametercontainer import ParameterContainer
    name = case['b']
    b = getattr(MO, name)()
    d = b.xdim
    h.label(name)
    if name in BENCH[:4]:
        x = np.array(case['x'][:d]) / 4.0 - 2.5
    else:
        lo, hi = np.array([v[0] for v in b.xbound]), np.array([v[1] for v in b.xbound])
        h.eq(len(lo), d, 'one bound per dimension')
        x = lo + (hi - lo) * np.array(case['x'][:d]) / 20.0
    arg = x.copy()
    if case['pc']:
        arg = ParameterContainer(d)
        arg._setParameters(x.copy())
    y = b(arg)
    f, g = ref_bench(name, [float(v) for v in x])
    h.close(y, [-v for v in f], 'objectives, negated')
    if g is not None:
        if min(abs(v) for v in g) < 1e-9:
            h.label('on a constraint')
        else:
            ok = all(v >= 0 for v in g)
            h.eq(bool(b.outfeasible), ok, 'feasible')
            h.close(b.outviolation, [0.0, 0.0] if ok else g, 'violation')
            h.label('feasible' if ok else 'infeasible')
    opp = oppositeFunction(b)
    h.close(opp(x.copy()), f, 'the opposite function')
    if g is not None and min(abs(v) for v in g) >= 1e-9:
        h.eq(bool(opp.outfeasible), ok, 'feasibility from the opposite function')
    h.nontrivial(True)


def gen_run(st):
    return st.fixed_dictionaries({'b': st.sampled_from(BENCH + ['random', 'random', 'grid', 'grid']), 'pop': st.sampled_from([12, 16, 30, 120]), 'gens': st.lists(st.integers(0, 3), min_size=1, max_size=3), 'elit': st.booleans(),
                                  'eq': st.booleans(), 'seed': st.integers(0, 99999), 'prob': st.sampled_from([0.1, 0.5]), 'top': st.sampled_from([0.5, 0.5, 0.3]), 'elite': st.sampled_from([0.5, 1.0, 0.1])})


def run_run(case, h):
    import numpy as np, random, logging
    from pybrain.optimization import MultiObjectiveGA, ConstMultiObjectiveGA
    from pybrain.rl.environments.functions import multiobjective as MO
    logging.disable(logging.CRITICAL)
    name = case['b']
    con = name.startswith('Const')
    h.label(name)
    calls = []
    r = np.random.RandomState(case['seed'])
    if name in BENCH:
        class B(getattr(MO, name)):
            def f(self, x):
                y = getattr(MO, name).f(self, x)
                calls.append((tuple(x), tuple(-float(v) for v in y), self.feasible if con else None))
                return y
        ev = B()
        if name in ('SchBenchmark', 'FonBenchmark', 'PolBenchmark', 'KurBenchmark'):
            x0 = np.zeros(ev.xdim)
        else:
            x0 = np.array([(a + b) / 2.0 for a, b in ev.xbound])
    else:
        W = r.randn(2, 3)
        x0 = np.zeros(3)

        def ev(x):
            y = np.abs(np.dot(W, x) + 1.0)
            if name == 'grid':
                y = np.floor(y)
            calls.append((tuple(x), tuple(float(v) for v in y), None))
            return y
    A = ConstMultiObjectiveGA if con else MultiObjectiveGA
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    o = A(ev, x0, populationSize=case['pop'], elitism=case['elit'], allowEquality=case['eq'], mutationProb=case['prob'], storeAllPopulations=True, storeAllEvaluations=True, topProportion=case['top'], eliteProportion=case['elite'])
    total = 0
    for k in case['gens']:
        xs, ys = o.learn(k)
        total += k
        h.eq(o.numEvaluations, len(calls), 'number of evaluations')
        if total == 0:
            continue
        table = dict((c[0], c) for c in calls)
        gens = o._allGenerations
        if len(gens) < total:
            h.label('stopped')
            h.check(name == 'grid' or not case['eq'] or con or name == 'SchBenchmark', lambda: 'stopped after %d generations of %d' % (len(gens), total))
            return
        h.eq(len(gens), total, 'generations')
        for pop, _ in gens:
            h.eq(len(pop), case['pop'], 'population size')
            for x in pop:
                h.check(tuple(x) in table, 'every individual was evaluated')
        if getattr(ev, 'xbound', None) and name in BENCH[4:]:
            for c in calls:
                h.check(all(lo <= v <= hi for v, (lo, hi) in zip(c[0], ev.xbound)), 'individuals stay inside the bounds')
        h.check(len(xs) == len(ys) and len(xs) >= 1, 'one value per point')
        front = {}
        for x, y in zip(xs, ys):
            h.check(tuple(x) in table, 'points of the front were evaluated')
            c = table[tuple(x)]
            if con:
                h.close(y[0], c[1], 'values of the front', rtol=1e-9, atol=1e-12)
                h.eq(bool(y[1]), bool(c[2]), 'feasibility')
            else:
                h.close(y, c[1], 'values of the front', rtol=1e-9, atol=1e-12)
            front[tuple(x)] = c
        base = set(tuple(x) for x in gens[-1][0]) if case['elit'] else set(c[0] for c in calls)
        h.check(set(front) <= base, 'the front is part of the population')
        feas = [x for x in base if not con or table[x][2]]
        if con:
            h.check(all(table[x][2] for x in front) if feas else len(front) >= 1, 'feasible points come first')
        if feas:
            for x in feas:
                dom = [z for z in feas if z != x and dominates(table[z][1], table[x][1], case['eq'])]
                if case['eq']:
                    h.eq(x in front, not dom, 'the front has exactly the non-dominated points')
                elif x in front:
                    h.check(all(table[z][1] == table[x][1] and z not in front for z in dom), 'no dominated point in the front')
                else:
                    h.check(any(dominates(table[z][1], table[x][1], False) for z in front), 'points outside the front are dominated')
    h.nontrivial(total >= 2)


FACETS = {'cut': {'gen': gen_cut, 'run': run_cut, 'quick': 500, 'thorough': 8000}, 'fronts': {'gen': gen_front, 'run': run_front, 'quick': 500, 'thorough': 10000}, 'crowding': {'gen': gen_crowd, 'run': run_crowd, 'quick': 600, 'thorough': 10000},
          'benchmarks': {'gen': gen_bench, 'run': run_bench, 'quick': 800, 'thorough': 10000}, 'runs': {'gen': gen_run, 'run': run_run, 'quick': 300, 'thorough': 5000}}
