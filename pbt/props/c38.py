"""C38: search algorithms select, breed and move by their documented rules."""
RULE = ("lineages of evolution strategies and hill climbers on scalar individuals, genetic populations of vectors with distinct genes, swarms of 2-8 particles with rings or full neighbourhoods, natural evolution "
        "strategies and CMA-ES whose random numbers are repeated so that their distribution shows in their samples, and all continuous searches on a bowl; non-trivial: at least two generations")
ASSUMPTIONS = ["deterministic objectives without ties between different individuals, except where noise is added on purpose", "a search consumes the same number of random numbers in each generation",
               "the thresholds of the progress check lie far outside the observed range (hundreds of runs per algorithm)"]


def gen_breed(st):
    return st.fixed_dictionaries({'alg': st.sampled_from(['ES', 'ES', 'ES', 'HillClimber', 'StochasticHillClimber']), 'mu': st.integers(1, 6), 'k': st.integers(1, 4), 'elitism': st.booleans(), 'noisy': st.sampled_from([False, False, True]),
                                  'min': st.booleans(), 'temp': st.lists(st.sampled_from([1e-9, 1.0, 1e9]), min_size=1, max_size=4), 'steps': st.integers(1, 12), 'hof': st.booleans(), 'seed': st.integers(0, 99999)})


def run_breed(case, h):
    import random, logging, numpy as np
    import pybrain.optimization as O
    from pybrain.structure.evolvables.evolvable import Evolvable
    logging.disable(logging.CRITICAL)
    rnd = random.Random(case['seed'])
    count = [0]

    class Ind(Evolvable):
        """an individual that knows where it comes from"""

        def __init__(self, uid=0, par=None, x=0.0):
            self.uid, self.par, self.x = uid, par, x

        def copy(self):
            return Ind(self.uid, self.par, self.x)

        def mutate(self, **args):
            count[0] += 1
            self.uid, self.par = count[0], self.uid
            self.x += rnd.gauss(0, 1)
    log = []

    def f(i):
        v = 3 * i.x
        if case['noisy']:
            v += rnd.gauss(0, 1)
        log.append((i.uid, i.par, v))
        return v
    name, mn = case['alg'], case['min']
    best = min if mn else max
    order = (lambda l: sorted(l)) if mn else (lambda l: sorted(l, reverse=True))
    noisy = case['noisy']
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    h.label(name)
    if name == 'ES':
        mu, lam = case['mu'], case['mu'] * case['k']
        o = O.ES(f, Ind(), mu=mu, lambada=lam, elitism=case['elitism'], evaluatorIsNoisy=noisy, minimize=mn, storeHallOfFame=case['hof'])
        size = mu + lam if case['elitism'] else lam
        h.eq(len(log), size, 'evaluations of the first population')
        h.check(all(u == 0 or p == 0 for u, p, v in log) and len(set(u for u, p, v in log)) == size, 'the first population: the initial individual and its mutants')
        pool = dict((u, v) for u, p, v in log)
        hall = [best(pool.values())]
        for s in range(case['steps']):
            del log[:]
            o.learn(1)
            ev = list(log)
            if noisy:
                again = ev[:mu]
                ev = ev[mu:]
                top = order(pool.values())[:mu]
                h.eq(order(pool.get(u) for u, p, v in again), top, 'the parents are evaluated again')
                for u, p, v in again:
                    pool[u] = v
            h.eq(len(ev), lam, 'evaluations of generation %d' % s)
            used = {}
            for u, p, v in ev:
                used.setdefault(p, 0)
                used[p] += 1
            h.check(set(used) <= set(pool), 'parents stem from the last population')
            h.eq(order(pool[p] for p in used), order(pool.values())[:mu], 'the parents are the mu best')
            h.check(set(used.values()) == {case['k']}, lambda: 'each of the mu best has lambda/mu offspring: %r' % (used,))
            if case['elitism']:
                pool = dict((p, pool[p]) for p in used)
            else:
                pool = {}
            pool.update((u, v) for u, p, v in ev)
            h.eq(len(pool), size, 'size of the population')
            hall.append(best(pool.values()))
            h.eq(len(o.population), size, 'population')
            h.eq(sorted(i.uid for _, i in o.population), sorted(pool), 'the population holds its individuals')
        if case['hof']:
            h.eq(len(o.hallOfFame), len(hall), 'one entry in the hall of fame per generation')
            if not noisy:
                for i, v in zip(o.hallOfFame, hall):
                    h.close(3 * i.x, v, 'the hall of fame holds the best of each generation', rtol=1e-12, atol=1e-12)
        else:
            h.eq(len(o.hallOfFame), 0, 'no hall of fame')
        h.nontrivial(case['steps'] > 1 and case['mu'] > 1)
        return
    kw = {'temperature': case['temp'][0]} if name == 'StochasticHillClimber' else {}
    o = getattr(O, name)(f, Ind(), minimize=mn, evaluatorIsNoisy=noisy, **kw)
    value = {}
    cur = {0}
    for u, p, v in log:
        value[u] = v
    for s in range(case['steps']):
        n = len(log)
        temp = case['temp'][s % len(case['temp'])]
        o.temperature = temp
        o.learn(1)
        ev = log[n:]
        h.eq(len(ev), 2 if noisy else 1, 'evaluations per step')
        if noisy:
            h.check(ev[0][0] in cur, 'the current individual is evaluated again')
            value[ev[0][0]] = ev[0][2]
            ev = ev[1:]
        u, p, v = ev[0]
        h.check(p in cur, lambda: 'the challenger is a mutant of the current individual: %r of %r' % (p, cur))
        better = v < value[p] if mn else v > value[p]
        if better:
            cur = {u}
        elif name == 'HillClimber' or temp < 1e-6:
            cur = {p}
        elif temp > 1e6:
            # everything is accepted
            cur = {u}
        else:
            cur = {u, p}
        value[u] = v
    h.nontrivial(case['steps'] > 2)


def gen_ga(st):
    return st.fixed_dictionaries({'dim': st.integers(1, 5), 'pop': st.integers(4, 24), 'top': st.sampled_from([0.2, 0.5, 0.75, 1.0]), 'elitism': st.booleans(), 'elite': st.sampled_from([None, None, 1, 3]), 'eprop': st.sampled_from([0.1, 0.25, 0.5]),
                                  'mprob': st.sampled_from([0.0, 0.0, 0.3, 1.0]), 'min': st.booleans(), 'steps': st.integers(2, 5), 'bound': st.booleans(), 'given': st.booleans(), 'scale': st.sampled_from([1.0, 10.0]), 'seed': st.integers(0, 99999)})


def run_ga(case, h):
    import random, logging, numpy as np
    from pybrain.optimization import GA
    from pybrain.rl.environments.functions.function import FunctionEnvironment
    logging.disable(logging.CRITICAL)
    dim, size, mn = case['dim'], case['pop'], case['min']
    top = int(size * case['top'])
    if top < 2:
        h.discard()
    r = random.Random(case['seed'])
    w = [r.uniform(0.5, 2) * r.choice([-1, 1]) for _ in range(dim)]
    log = []
    wild = case['bound'] and case['scale'] == 1.0
    sd = 2.0 if wild else 1e-7 if case['mprob'] else 0.5

    def val(x):
        v = float(np.dot(w, x))
        log.append(([float(t) for t in x], v))
        return v
    bounds = [(-4.0, 1.0 + i) for i in range(dim)]
    if case['bound']:
        class Env(FunctionEnvironment):
            toBeMinimized = mn

            def f(self, x):
                return val(x)
        ev = Env(dim)
        ev.xbound, ev.desiredValue = bounds, None
    else:
        ev = val
    kw = {}
    if case['elite'] is not None:
        kw['_eliteSize'] = case['elite']
    x0 = np.array([r.uniform(-1, 0.5) for _ in range(dim)])
    given = None
    if case['given']:
        given = [np.array([r.uniform(-1, 0.5) for _ in range(dim)]) for _ in range(size)]
        kw['initialPopulation'] = [g.copy() for g in given]
    np.random.seed(case['seed'])
    random.seed(case['seed'])
    o = GA(ev, x0.copy(), populationSize=size, topProportion=case['top'], elitism=case['elitism'], eliteProportion=case['eprop'], mutationProb=case['mprob'], mutationStdDev=sd, initRangeScaling=case['scale'] / sd, minimize=mn, **kw)
    prev = None
    touched = total = 0
    for s in range(case['steps']):
        del log[:]
        o.learn(1)
        cur = list(log)
        h.eq(len(cur), size, 'evaluations per generation')
        if case['bound'] and not case['given']:
            for x, v in cur:
                h.check(all(a - 1e-6 <= t <= b + 1e-6 for t, (a, b) in zip(x, bounds)), lambda: 'individuals lie within the bounds: %r' % (x,))
        if prev is None:
            if given is not None:
                for a, b in zip(cur, given):
                    h.close(a[0], list(b), 'the given first population', rtol=0, atol=0)
            else:
                h.close(cur[0][0], list(x0), 'the first population starts with the initial point', rtol=0, atol=0)
                h.check(len(set(tuple(x) for x, v in cur)) == size, 'distinct random individuals')
        elif not (wild and case['mprob']):
            ranked = sorted(prev, key=lambda c: c[1], reverse=not mn)
            parents = ranked[:top]
            # duplicates of equal value beyond the cut
            es = min(((case['elite'] if case['elite'] is not None else int(size * case['eprop'])) if case['elitism'] else 0), top)
            h.close([v for x, v in cur[:es]], [v for x, v in ranked[:es]], 'the elite survives', rtol=0, atol=0)
            kids = cur[es:] if es < size else cur
            tol = 1e-5 if case['mprob'] else 0.0
            cut = parents[-1][1]
            cand = [x for x, v in prev if (v <= cut if mn else v >= cut)]
            for x, v in kids:
                ok = False
                for p in cand:
                    if dim < 2:
                        ok = abs(p[0] - x[0]) <= tol
                    else:
                        a = [abs(p[i] - x[i]) <= tol for i in range(dim)]
                        k = 0
                        while k < dim and a[k]:
                            k += 1
                        if k == 0:
                            continue
                        for q in cand:
                            b = [abs(q[i] - x[i]) <= tol for i in range(dim)]
                            j = dim
                            while j > 0 and b[j - 1]:
                                j -= 1
                            # genes before the cut from one, the others from the other
                            if j < dim and max(j, 1) <= min(k, dim - 1):
                                ok = True
                                break
                    if ok:
                        break
                h.check(ok, lambda: 'a child is a one-point crossover of two of the best individuals: %r' % (x,))
                if case['mprob']:
                    known = [set(p[i] for p in cand) for i in range(dim)]
                    touched += sum(x[i] not in known[i] for i in range(dim))
                    total += dim
            if case['mprob'] == 0 and len(kids) >= 2 * (top // 2) and top % 2 == 0 and len(cand) == top:
                # all parents pass on all their genes
                for i in range(dim):
                    h.eq(set(x[i] for x, v in kids), set(p[i] for p in cand), 'all genes of the parents live on (gene %d)' % i)
        prev = cur
    if case['mprob'] == 1.0 and not case['bound']:
        h.check(touched >= total - 2, lambda: 'mutation probability one changes all genes: %d of %d' % (touched, total))
    elif case['mprob'] and not case['bound'] and total > 100:
        p = case['mprob']
        h.check(abs(touched - p * total) < 7 * (total * p * (1 - p)) ** 0.5 + 2, lambda: 'mutated genes: %d of %d' % (touched, total))
        h.label('mutation rate')
    h.nontrivial(case['steps'] > 2)


def gen_swarm(st):
    return st.fixed_dictionaries({'dim': st.integers(3, 6), 'size': st.integers(2, 8), 'ring': st.booleans(), 'memory': st.sampled_from([0.0, 2.0, 0.5]), 'social': st.sampled_from([0.0, 2.0, 0.5]), 'inertia': st.sampled_from([0.9, 0.5, 0.0, 1.0]),
                                  'min': st.booleans(), 'bounds': st.booleans(), 'steps': st.integers(2, 8), 'seed': st.integers(0, 99999)})


def run_swarm(case, h):
    import logging, numpy as np
    from pybrain.optimization import ParticleSwarmOptimizer
    from pybrain.optimization.populationbased.pso import ring, fullyConnected
    logging.disable(logging.CRITICAL)
    dim, size, mn = case['dim'], case['size'], case['min']
    log = []

    def f(x):
        v = float(np.dot(x, x)) * (1 if mn else -1)
        log.append((np.array(x, float), v))
        return v
    kw = {}
    b = [(-10, 10)] * dim
    if case['bounds']:
        b = kw['boundaries'] = [(-1.0 * i, 2.0 + i) for i in range(dim)]
    if case['ring'] and size > 2:
        kw['neighbourfunction'] = ring
    np.random.seed(case['seed'])
    o = ParticleSwarmOptimizer(f, None, numParameters=dim, size=size, memory=case['memory'], sociality=case['social'], inertia=case['inertia'], minimize=mn, **kw)
    o.learn(case['steps'])
    h.eq(len(log), size * case['steps'], 'evaluations')
    X = [[log[t * size + i][0] for i in range(size)] for t in range(case['steps'])]
    F = [[log[t * size + i][1] for i in range(size)] for t in range(case['steps'])]
    for i in range(size):
        h.check(all(lo <= x <= hi for x, (lo, hi) in zip(X[0][i], b)), 'particles start within the boundaries')
    pick = min if mn else max
    pulls = {0: [], 1: []}
    for t in range(case['steps'] - 1):
        for i in range(size):
            # own best position so far
            pb = X[pick(range(t + 1), key=lambda s: F[s][i])][i]
            nb = [(i + 1) % size, (i - 1) % size] if 'neighbourfunction' in kw else list(range(size))
            j = pick(nb, key=lambda k: F[t][k])
            vel = X[t][i] - X[t - 1][i] if t else np.zeros(dim)
            res = X[t + 1][i] - X[t][i] - case['inertia'] * vel
            scale = 1e-9 * (1 + np.abs(X[t + 1][i]).max() + np.abs(X[t][i]).max() + np.abs(pb).max())
            best = None
            # the neighbour may have moved already
            for target in (X[t][j], X[t + 1][j]):
                cols = []
                if case['memory'] and np.abs(pb - X[t][i]).max() > 0:
                    cols.append((pb - X[t][i], case['memory']))
                if case['social'] and j != i and np.abs(target - X[t][i]).max() > 0:
                    cols.append((target - X[t][i], case['social']))
                if cols:
                    D = np.array([c for c, _ in cols]).T
                    sv = np.linalg.svd(D, compute_uv=False)
                    coef = np.linalg.lstsq(D, res, rcond=-1)[0]
                    rest = np.abs(res - D.dot(coef)).max()
                    bad = 0.0
                    if sv[-1] > 1e-6 * sv[0]:
                        for c, (_, m) in zip(coef, cols):
                            bad = max(bad, -c, c - m)
                        if rest <= scale * 10 and len(cols) == 2:
                            for q in (0, 1):
                                pulls[q].append(coef[q] / cols[q][1])
                else:
                    rest, bad = np.abs(res).max(), 0.0
                if best is None or (rest > scale * 10, bad) < best:
                    best = (rest > scale * 10, bad)
            if best[0]:
                h.fail('particle %d moves at step %d by its inertia, towards its best position and its best neighbour: %s' % (i, t, res))
            h.check(best[1] <= 1e-4, lambda: 'the pull of particle %d at step %d lies between 0 and its weight: %s' % (i, t, best[1]))
    for q in (0, 1):
        if len(pulls[q]) >= 10:
            h.label('pulls')
            h.check(max(pulls[q]) > 0.1 and min(pulls[q]) < 0.9, lambda: 'the pulls are random: %r' % (pulls[q],))
    h.nontrivial(case['steps'] > 2 and (case['memory'] or case['social']) > 0)


def gen_dist(st):
    return st.fixed_dictionaries({'alg': st.sampled_from(['SNES', 'XNES', 'CMAES']), 'dim': st.integers(1, 4), 'min': st.booleans(), 'steps': st.integers(2, 12), 'clr': st.sampled_from([1.0, 0.5]), 'cov': st.sampled_from([None, 0.1, 0.5]),
                                  'scale': st.sampled_from([None, 0.2]), 'base': st.booleans(), 'batch': st.sampled_from([None, 8, 12]), 'var': st.sampled_from([1.0, 0.3]), 'rank': st.sampled_from(['hansen', 'hansen', 'linear']),
                                  'rot': st.booleans(), 'shift': st.sampled_from([0, 10.0, 1000.0]), 'clear': st.booleans(), 'form': st.sampled_from(['array', 'pc']), 'seed': st.integers(0, 99999)})


def run_dist(case, h):
    """the same random numbers in each generation: all populations are affine images of the first one"""
    import random, logging, math, numpy as np
    import pybrain.optimization as O
    from pybrain.structure.parametercontainer import ParameterContainer
    from pybrain.tools.rankingfunctions import RankingFunction
    logging.disable(logging.CRITICAL)
    name, dim, mn = case['alg'], case['dim'], case['min']
    r = random.Random(case['seed'])
    w = np.array([r.uniform(0.2, 3) for _ in range(dim)])
    c0 = np.array([r.uniform(-3, 3) for _ in range(dim)])
    mix = np.array([r.uniform(-0.5, 0.5) for _ in range(dim)]) if case['rot'] else np.zeros(dim)
    log = []

    def f(x):
        x = np.array(getattr(x, 'params', x), float)
        v = (float(np.dot(w * (x - c0), x - c0) + np.dot(mix, x) ** 2) - case['shift']) * (1 if mn else -1)
        log.append((x, v))
        return v
    x0 = np.array([r.uniform(-3, 3) for _ in range(dim)])
    kw = {}
    if name != 'CMAES':
        kw['centerLearningRate'] = case['clr']
        kw['uniformBaseline'] = case['base']
        if case['cov'] is not None:
            kw['covLearningRate'] = case['cov']
        if case['batch'] is not None:
            kw['batchSize'] = case['batch']
        if case['rank'] == 'linear':
            kw['shapingFunction'] = RankingFunction()
        if name == 'SNES':
            kw['initVariance'] = case['var']
            kw['clearStorage'] = case['clear']
        elif case['scale'] is not None:
            kw['scaleLearningRate'] = case['scale']
    init = x0.copy()
    if case['form'] == 'pc':
        init = ParameterContainer(dim)
        init._setParameters(x0.copy())
    o = getattr(O, name)(f, init, minimize=mn, **kw)
    h.label(name)
    gens = []
    for s in range(case['steps']):
        np.random.seed(case['seed'])
        random.seed(case['seed'])
        del log[:]
        o.learn(1)
        if not log:
            # converged
            break
        gens.append(list(log))
    n = len(gens[0])
    want = case['batch'] if name != 'CMAES' and case['batch'] is not None else 4 + int(3 * math.log(dim))
    h.eq(n, want, 'population size')
    s0 = 0.5 if name == 'CMAES' else case['var'] if name == 'SNES' else 1.0
    Z = (np.array([x for x, v in gens[0]]) - x0) / s0
    if n <= dim + 1:
        h.discard()
    L = np.hstack([Z, np.ones((n, 1))])
    sv = np.linalg.svd(L, compute_uv=False)
    if sv[-1] < 1e-3 * sv[0]:
        h.discard()
    c, A = x0.copy(), np.eye(dim) * s0
    for g, pop in enumerate(gens):
        h.eq(len(pop), n, 'population size of generation %d' % g)
        X = np.array([x for x, v in pop])
        V = [v for x, v in pop]
        if len(set(V)) < n or np.abs(X).max() > 1e6:
            h.label('ties')
            return
        co = np.linalg.lstsq(L, X, rcond=-1)[0]
        tol = 1e-7 * (1 + np.abs(X).max())
        h.close(np.abs(L.dot(co) - X).max(), 0.0, 'all populations are drawn from one distribution', rtol=0, atol=tol)
        B = co[:dim].T
        h.close(co[dim], c, 'centre of generation %d' % g, rtol=0, atol=10 * tol)
        order = np.argsort(V) if mn else np.argsort(V)[::-1]
        if name == 'CMAES':
            mu = n // 2
            u = np.log(mu + 1) - np.log(np.arange(1, mu + 1))
            u = u / u.sum()
            c = X[order[:mu]].T.dot(u)
            continue
        h.close(B, A, 'shape of generation %d' % g, rtol=0, atol=100 * tol / s0)
        u = np.zeros(n)
        if case['rank'] == 'linear':
            u[order] = np.arange(n)[::-1] / float(n - 1)
        else:
            u[order] = np.maximum(0, np.log(n / 2.0 + 1) - np.log(np.arange(1, n + 1)))
        u = u / u.sum()
        if case['base']:
            u = u - 1.0 / n
        if name == 'SNES':
            lr = case['cov'] if case['cov'] is not None else 0.6 * (3 + math.log(dim)) / 3 / math.sqrt(dim)
            c = c + case['clr'] * A.dot(Z.T.dot(u))
            A = A * np.exp(0.5 * lr * u.dot(Z ** 2 - 1))
        else:
            lr = case['cov'] if case['cov'] is not None else 0.6 * (3 + math.log(dim)) / dim / math.sqrt(dim)
            ls = case['scale'] if case['scale'] is not None else lr
            G = sum(ui * (np.outer(z, z) - np.eye(dim)) for ui, z in zip(u, Z))
            tr = np.trace(G) / dim
            M = 0.5 * (ls * tr * np.eye(dim) + lr * (G - tr * np.eye(dim)))
            ev, Q = np.linalg.eigh((M + M.T) / 2)
            c = c + case['clr'] * A.dot(Z.T.dot(u))
            A = A.dot(Q.dot(np.diag(np.exp(ev))).dot(Q.T))
    h.nontrivial(len(gens) > 2)


# evaluations, and the part of the initial value that is left at most
GOAL = {'HillClimber': (600, 0.005), 'StochasticHillClimber': (800, 0.2), 'RandomSearch': (600, 0.3), 'WeightGuessing': (600, 0.3), 'NelderMead': (400, 1e-6), 'ES': (600, 0.6), 'GA': (600, 0.05), 'ParticleSwarmOptimizer': (1000, 3.0),
        'FiniteDifferences': (600, 0.05), 'PGPE': (600, 1e-3), 'CMAES': (600, 1e-4), 'SNES': (600, 1e-3), 'XNES': (600, 1e-3), 'Rank1NES': (600, 0.05)}


def gen_progress(st):
    return st.fixed_dictionaries({'alg': st.sampled_from(sorted(GOAL)), 'dim': st.integers(2, 4), 'min': st.booleans(), 'seed': st.integers(0, 99999), 'long': st.booleans()})


def run_progress(case, h):
    import random, logging, numpy as np
    import pybrain.optimization as O
    from pybrain.optimization.distributionbased.rank1 import Rank1NES
    logging.disable(logging.CRITICAL)
    name, dim = case['alg'], case['dim']
    r = random.Random(case['seed'])
    c = np.array([r.uniform(-2, 2) for _ in range(dim)])
    x0 = c + np.array([r.choice([-3.0, 3.0]) for _ in range(dim)])
    w = np.array([1.0] + [r.choice([1.0, 4.0]) for _ in range(dim - 1)]) if case['long'] and name != 'FiniteDifferences' else np.ones(dim)
    s = 1 if case['min'] else -1

    def f(x):
        d = np.clip(np.asarray(getattr(x, 'params', x), float) - c, -1e6, 1e6)
        return s * float(np.dot(w * d, d))
    n, goal = GOAL[name]
    kw = {}
    if name == 'ES':
        kw = dict(mu=5, lambada=20)
    elif name == 'ParticleSwarmOptimizer':
        kw = dict(size=10)
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    A = getattr(O, name) if name != 'Rank1NES' else Rank1NES
    x, v = A(f, x0.copy(), minimize=case['min'], maxEvaluations=n, **kw).learn()
    left = abs(v) / abs(f(x0))
    h.label(name)
    if left > 0.5 * goal:
        h.label('near the limit: ' + name)
    h.check(left <= goal, lambda: '%s leaves %.3g of the initial value after %d evaluations (at most %s)' % (name, left, n, goal))
    h.nontrivial()


FACETS = {'breed': {'gen': gen_breed, 'run': run_breed, 'quick': 1000, 'thorough': 20000}, 'genetic': {'gen': gen_ga, 'run': run_ga, 'quick': 500, 'thorough': 8000}, 'swarm': {'gen': gen_swarm, 'run': run_swarm, 'quick': 400, 'thorough': 6000},
          'distribution': {'gen': gen_dist, 'run': run_dist, 'quick': 600, 'thorough': 10000}, 'progress': {'gen': gen_progress, 'run': run_progress, 'quick': 250, 'thorough': 4000}}
