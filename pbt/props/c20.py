"""C20: every optimizer reports the best point it evaluated."""
RULE = ("every optimizer with every form of initial point (none, list, array, parameter container, network, evolvable), objective (function, fitness evaluator, function environment) and "
        "direction, under random limits, desired values and splits into several calls of learn, on smooth, linear, stepped, constant and multimodal objectives of 1-4 dimensions; "
        "non-trivial: at least 3 different values were evaluated")
ASSUMPTIONS = ["deterministic objectives without NaN or infinite values", "the listener is only counted"]
ALGS = ['HillClimber', 'StochasticHillClimber', 'RandomSearch', 'WeightGuessing', 'WeightMaskGuessing', 'NelderMead', 'ES', 'GA', 'ParticleSwarmOptimizer', 'FiniteDifferences', 'SimpleSPSA', 'PGPE',
        'CMAES', 'SNES', 'XNES', 'Rank1NES', 'FEM', 'VanillaGradientEvolutionStrategies', 'ExactNES', 'OriginalNES', 'MemeticSearch', 'InnerMemeticSearch', 'InverseMemeticSearch', 'InnerInverseMemeticSearch']
TOPO = ('WeightMaskGuessing', 'MemeticSearch', 'InnerMemeticSearch', 'InverseMemeticSearch', 'InnerInverseMemeticSearch')
DISCRETE = ('HillClimber', 'StochasticHillClimber', 'RandomSearch', 'WeightGuessing', 'ES')
SMALL = {'ES': dict(mu=4, lambada=8), 'GA': dict(populationSize=12), 'ParticleSwarmOptimizer': dict(size=5), 'FiniteDifferences': dict(batchSize=4), 'FEM': dict(windowSize=6, batchSize=1),
         'MemeticSearch': dict(localSteps=4), 'InverseMemeticSearch': dict(localSteps=4), 'InnerMemeticSearch': dict(localSteps=4, mu=2, lambada=2), 'InnerInverseMemeticSearch': dict(localSteps=4, mu=2, lambada=2),
         'VanillaGradientEvolutionStrategies': dict(batchSize=12), 'ExactNES': dict(batchSize=12), 'OriginalNES': dict(batchSize=12)}


def gen(st):
    return st.fixed_dictionaries({'alg': st.sampled_from(ALGS), 'dim': st.integers(1, 4), 'fn': st.sampled_from(['sphere', 'sphere', 'linear', 'steps', 'const', 'wave']), 'sign': st.sampled_from([1, -1]),
                                  'offset': st.sampled_from([0.0, 0.0, 5.0, -5.0, 100.0]), 'shift': st.integers(-8, 8).map(lambda i: i / 4.0),
                                  'form': st.sampled_from(['none', 'list', 'array', 'array', 'pc', 'net', 'evo']), 'ev': st.sampled_from(['plain', 'plain', 'evaluator', 'env']),
                                  'min': st.sampled_from([None, True, True, False]), 'when': st.sampled_from(['ctor', 'before', 'after']), 'tbm': st.booleans(), 'desired': st.sampled_from([None, None, 0.25, 0.5]),
                                  'maxE': st.sampled_from([None, 1, 7, 20, 50, 77]), 'steps': st.lists(st.integers(0, 5), min_size=0, max_size=3), 'store': st.sampled_from([None, None, 'evals', 'both']),
                                  'seed': st.integers(0, 9999), 'x0': st.lists(st.integers(-8, 8).map(lambda i: i / 4.0), min_size=4, max_size=4), 'flags': st.sampled_from([None, None, 'elitism', 'decay', 'momentum', 'rprop', 'noisy'])})


def objective(case):
    import numpy as np

    def f(x):
        x = np.asarray(x, float)
        y = x - case['shift']
        k = case['fn']
        if k == 'sphere':
            v = float(np.dot(np.clip(y, -1e6, 1e6), np.clip(y, -1e6, 1e6)))
        elif k == 'linear':
            v = float(np.dot(np.clip(y, -1e6, 1e6), np.arange(1, len(y) + 1)))
        elif k == 'steps':
            v = float(np.sum(np.floor(np.clip(y, -1e6, 1e6))))
        elif k == 'wave':
            v = float(np.sum(np.sin(3 * np.clip(y, -1e6, 1e6)) + 0.1 * np.abs(np.clip(y, -1e6, 1e6))))
        else:
            v = 0.0
        return case['sign'] * v + case['offset']
    return f


def run(case, h):
    import numpy as np, random, logging
    import pybrain.optimization as O
    from pybrain.optimization.distributionbased.rank1 import Rank1NES
    from pybrain.structure.parametercontainer import ParameterContainer
    from pybrain.structure.evolvables.evolvable import Evolvable
    from pybrain.structure.modules.module import Module
    from pybrain.rl.environments.fitnessevaluator import FitnessEvaluator
    from pybrain.rl.environments.functions.function import FunctionEnvironment
    from pybrain.tools.shortcuts import buildNetwork
    logging.disable(logging.CRITICAL)
    name, dim = case['alg'], case['dim']
    if name == 'Rank1NES':
        dim = max(2, dim)
    A = getattr(O, name) if name != 'Rank1NES' else Rank1NES
    form, evk = case['form'], case['ev']
    if form == 'evo' and name not in DISCRETE:
        form = 'array'
    if form == 'evo' and evk == 'env':
        evk = 'plain'
    h.label(name)
    h.label('form ' + form)
    base = objective(case)
    calls = []

    def raw(x):
        if isinstance(x, Evo):
            return [x.x] * dim
        if isinstance(x, ParameterContainer):
            return np.array(x.params, float)
        return np.array(x, float)

    def f(x):
        p = raw(x)
        v = base(p)
        calls.append((p, v))
        return v

    class Evo(Evolvable):
        def __init__(self, x):
            self.x = x

        def mutate(self):
            self.x += random.random() - 0.3

        def copy(self):
            return Evo(self.x)

        def randomize(self):
            self.x = 10 * random.random() - 2
    nan = case['desired']

    def goal(minimize):
        # a value that some points reach
        x0 = base([1.0] * dim)
        return x0 - nan if minimize else x0 + nan
    want_min = case['min']
    if evk == 'plain':
        ev = f
    elif evk == 'evaluator':
        class E(FitnessEvaluator):
            toBeMinimized = case['tbm']

            def f(self, x):
                return f(x)
        ev = E()
    else:
        class Env(FunctionEnvironment):
            toBeMinimized = case['tbm']

            def f(self, x):
                return f(x)
        ev = Env(dim)
    minimize = want_min if want_min is not None else (case['tbm'] if evk != 'plain' else False)
    kw = dict(SMALL.get(name, {}))
    if evk != 'plain':
        ev.desiredValue = goal(minimize) if nan else None
        desired = ev.desiredValue
    else:
        desired = goal(minimize) if nan else None
        if desired is not None:
            kw['desiredEvaluation'] = desired
    if case['maxE'] is not None:
        kw['maxEvaluations'] = case['maxE']
    elif not case['steps']:
        kw['maxEvaluations'] = 40
    if case['store']:
        kw['storeAllEvaluations'] = True
        if case['store'] == 'both':
            kw['storeAllEvaluated'] = True
    if case['flags'] == 'elitism' and name in ('ES', 'GA'):
        kw['elitism'] = True
    if case['flags'] == 'decay' and name in ('FiniteDifferences', 'SimpleSPSA', 'PGPE'):
        kw['learningRateDecay'] = 0.9
    if case['flags'] == 'momentum' and name in ('FiniteDifferences', 'SimpleSPSA', 'PGPE'):
        kw['momentum'] = 0.5
    if case['flags'] == 'noisy' and name in ('HillClimber', 'StochasticHillClimber', 'ES', 'InnerMemeticSearch'):
        kw['evaluatorIsNoisy'] = True
    x0 = case['x0'][:dim]
    if form == 'list':
        init = list(x0)
    elif form == 'array':
        init = np.array(x0)
    elif form == 'pc':
        init = ParameterContainer(dim)
        init._setParameters(np.array(x0))
    elif form == 'net':
        init = buildNetwork(dim, 1, bias=False)
        init._setParameters(np.array(x0))
    elif form == 'evo':
        init = Evo(x0[0])
    else:
        init = None
        if evk != 'env':
            h.raises((ValueError,), lambda: A(ev, **kw), 'an unknown dimension is refused')
            kw['numParameters'] = dim
    if form not in ('none', 'evo') and evk == 'env' and case['seed'] % 5 == 0:
        class Env2(FunctionEnvironment):
            def f(self, x):
                return 0.0
        h.raises((ValueError,), lambda: A(Env2(dim + 1), init, **kw), 'another dimension than that of the environment is refused')
    when = case['when'] if want_min is not None else 'ctor'
    limit = kw.get('maxEvaluations')

    def make():
        k = dict(kw)
        ticks = []
        k['listener'] = lambda b, v: ticks.append(v)
        if want_min is not None and when == 'ctor':
            k['minimize'] = want_min
        if when == 'before':
            o = A(**k)
            o.minimize = want_min
            o.setEvaluator(ev, init)
        else:
            o = A(ev, init, **k)
            if when == 'after':
                n = len(calls)
                o.minimize = want_min
                if len(calls) > n:
                    h.label('start again')
                    stale[0] = n
        return o, ticks
    stale = [0]
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    o, ticks = make()
    ninit = len(calls)
    h.check(ninit == o.numEvaluations, 'the number of evaluations counts the initial ones')
    plan = case['steps'] or [None]
    best = min if minimize else max
    reached = lambda v: desired is not None and (v <= desired if minimize else v >= desired)
    for k in plan:
        before = o.numLearningSteps
        t0 = len(ticks)
        res = o.learn(k) if k is not None else o.learn()
        h.check(len(res) == 2, 'learn returns a point and its value')
        x, v = res
        if not calls:
            # nothing was evaluated yet
            h.check(v is None, lambda: 'no value without an evaluation: %r' % (v,))
            continue
        if form == 'evo':
            h.check(isinstance(x, Evo), 'the best point has the form of the initial one')
        elif form == 'pc' and name not in TOPO:
            h.check(isinstance(x, ParameterContainer), 'the best point has the form of the initial one')
        elif form == 'net':
            h.check(isinstance(x, Module), 'the best point is a module')
        elif form in ('list', 'array', 'none'):
            h.check(isinstance(x, np.ndarray), lambda: 'the best point is an array: %r' % (x,))
        px = raw(x)
        if form == 'net':
            got = x.activate([1.0] * dim)
            h.close(got, [sum(px)], 'the best network computes with its parameters')
        h.close(base(px), v, 'the value is that of the point', rtol=1e-9, atol=1e-9)
        h.close(v, best(c[1] for c in calls[stale[0]:]), 'the value is the best of all evaluations', rtol=1e-9, atol=1e-9)
        h.eq(o.numEvaluations, len(calls), 'number of evaluations')
        steps = o.numLearningSteps - before
        h.eq(len(ticks) - t0, steps, 'the listener is called once per step')
        stopped = (desired is not None and any(reached(c[1]) for c in calls[stale[0]:])) or (limit is not None and len(calls) + o.batchSize > limit)
        if k is not None:
            h.check(steps <= k, lambda: 'learn(%d) did %d steps' % (k, steps))
            if not stopped and name not in ('NelderMead', 'CMAES', 'SNES'):
                h.eq(steps, k, 'number of steps')
        elif name not in ('NelderMead', 'CMAES', 'SNES'):
            h.check(stopped, 'it only stops for a reason')
        if limit is not None:
            h.check(len(calls) <= max(limit, ninit, dim + 2 if name == 'NelderMead' else 0) + (dim + 2 if name == 'NelderMead' else 0), lambda: '%d evaluations of at most %d' % (len(calls), limit))
        first = [i for i, c in enumerate(calls) if i >= stale[0] and reached(c[1])]
        if first:
            h.label('desired value reached')
            h.check(len(calls) - first[0] <= max(o.batchSize, ninit, 2 * dim + 4 if name == 'NelderMead' else 0), lambda: 'it stops when the desired value is reached: call %d of %d' % (first[0], len(calls)))
    if case['store']:
        h.close(o._allEvaluations, [c[1] for c in calls], 'stored evaluations', rtol=1e-9, atol=1e-9)
        if case['store'] == 'both':
            h.eq(len(o._allEvaluated), len(calls), 'number of stored points')
            if form != 'evo':
                for a, c in zip(o._allEvaluated, calls):
                    h.close(raw(a), c[0], 'stored point', rtol=0, atol=0)
    if form in ('list', 'array'):
        h.close(init, x0, 'the initial point is unchanged', rtol=0, atol=0)
    elif form in ('pc', 'net'):
        h.close(init.params, x0, 'the initial point is unchanged', rtol=0, atol=0)
    h.nontrivial(len(set(c[1] for c in calls)) >= 3)
    # the same steps in one call
    if len(plan) > 1 and name not in ('NelderMead', 'CMAES'):
        h.label('one call instead of several')
        old = list(calls)
        del calls[:]
        random.seed(case['seed'])
        np.random.seed(case['seed'])
        o2, _ = make()
        if form != 'evo':
            o2.learn(sum(plan))
            h.eq(len(calls), len(old), 'number of evaluations of the same steps in one call')
            for a, b in zip(calls, old):
                h.close(a[0], b[0], 'the same points in one call', rtol=1e-9, atol=1e-12)


# comparison-based algorithms only look at the order of the values
RANKED = ('HillClimber', 'RandomSearch', 'WeightGuessing', 'WeightMaskGuessing', 'ES', 'GA', 'ParticleSwarmOptimizer', 'SNES', 'XNES', 'Rank1NES', 'FEM', 'MemeticSearch', 'InverseMemeticSearch')
MOVABLE = ('HillClimber', 'ES', 'SNES', 'XNES', 'Rank1NES', 'FiniteDifferences', 'SimpleSPSA', 'PGPE', 'StochasticHillClimber')


def gen_sym(st):
    return st.fixed_dictionaries({'alg': st.sampled_from(ALGS), 'dim': st.integers(1, 4), 'fn': st.sampled_from(['sphere', 'wave', 'linear']), 'sign': st.sampled_from([1, -1]), 'offset': st.sampled_from([0.0, 3.0]),
                                  'shift': st.integers(-8, 8).map(lambda i: i / 4.0), 'min': st.booleans(), 'seed': st.integers(0, 9999), 'n': st.integers(5, 80), 'rel': st.sampled_from(['opposite', 'opposite', 'order', 'moved', 'list']),
                                  'x0': st.lists(st.integers(-8, 8).map(lambda i: i / 4.0), min_size=4, max_size=4), 'flags': st.sampled_from([None, None, 'elitism', 'momentum'])})


def trace(name, dim, f, x0, minimize, n, seed, kw):
    import numpy as np, random
    import pybrain.optimization as O
    from pybrain.optimization.distributionbased.rank1 import Rank1NES
    calls = []

    def g(x):
        x = np.array(getattr(x, 'params', x), float)
        v = f(x)
        calls.append((x, v))
        return v
    random.seed(seed)
    np.random.seed(seed)
    A = getattr(O, name) if name != 'Rank1NES' else Rank1NES
    o = A(g, x0, minimize=minimize, maxEvaluations=n, **dict(SMALL.get(name, {}), **kw))
    return o.learn(), calls


def run_sym(case, h):
    import numpy as np, logging
    from pybrain.structure.parametercontainer import ParameterContainer
    logging.disable(logging.CRITICAL)
    name, dim, rel = case['alg'], case['dim'], case['rel']
    if name == 'Rank1NES':
        dim = max(2, dim)
    if rel == 'order' and name not in RANKED:
        rel = 'opposite'
    if rel == 'moved' and (name not in MOVABLE or case['fn'] == 'linear' or (case['fn'] == 'sphere' and (case['sign'] == 1) != case['min'])):
        rel = 'opposite'
    if rel == 'list' and name in TOPO:
        rel = 'opposite'
    f = objective(case)
    x0 = np.array(case['x0'][:dim])
    kw = {}
    if case['flags'] == 'elitism' and name in ('ES', 'GA'):
        kw['elitism'] = True
    if case['flags'] == 'momentum' and name in ('FiniteDifferences', 'SimpleSPSA', 'PGPE'):
        kw['momentum'] = 0.5
    args = (case['n'], case['seed'], kw)
    (x, v), A = trace(name, dim, f, x0.copy(), case['min'], *args)
    h.label(rel)
    h.label(name)
    tol = dict(rtol=1e-9, atol=1e-9)
    if rel == 'opposite':
        (x2, v2), B = trace(name, dim, lambda p: -f(p), x0.copy(), not case['min'], *args)
        h.eq(len(B), len(A), 'evaluations of the opposite problem')
        for a, b in zip(A, B):
            h.close(b[0], a[0], 'minimizing f and maximizing -f look at the same points', **tol)
        if A:
            h.close(v2, -v, 'value of the opposite problem', **tol)
    elif rel == 'order':
        (x2, v2), B = trace(name, dim, lambda p: 8 * f(p), x0.copy(), case['min'], *args)
        h.eq(len(B), len(A), 'evaluations of the scaled problem')
        for a, b in zip(A, B):
            h.close(b[0], a[0], 'only the order of the values matters', **tol)
    elif rel == 'moved':
        d = np.array([0.5, -1.0, 2.0, 4.0][:dim])
        (x2, v2), B = trace(name, dim, lambda p: f(p - d), x0 + d, case['min'], *args)
        h.eq(len(B), len(A), 'evaluations of the moved problem')
        for a, b in zip(A, B):
            m = 1 + np.abs(a[0]).max()
            if m > 1e4 or not abs(a[1]) < 1e4:
                break
            h.close(b[0] - d, a[0], 'a moved problem is searched at the moved points', rtol=1e-6, atol=1e-6)
    else:
        (x2, v2), B = trace(name, dim, f, list(x0), case['min'], *args)
        h.eq(len(B), len(A), 'evaluations with the initial point as a list')
        for a, b in zip(A, B):
            h.close(b[0], a[0], 'the form of the initial point does not matter', **tol)
    h.nontrivial(len(A) >= 5)


def gen_grad(st):
    v = st.integers(-8, 8).map(lambda i: i / 4.0)
    return st.fixed_dictionaries({'alg': st.sampled_from(['FiniteDifferences', 'FiniteDifferences', 'SimpleSPSA', 'PGPE']), 'dim': st.integers(1, 4), 'w': st.lists(v, min_size=4, max_size=4), 'x0': st.lists(v, min_size=4, max_size=4),
                                  'offset': st.sampled_from([0.0, 100.0, -7.0]), 'lr': st.sampled_from([0.1, 0.5, 0.02]), 'decay': st.sampled_from([None, 0.9, 0.5]), 'mom': st.sampled_from([0.0, 0.0, 0.5]), 'rprop': st.sampled_from([False, False, True]),
                                  'eps': st.sampled_from([1e-3, 0.5, 2.0]), 'gamma': st.sampled_from([None, 0.5]), 'extra': st.integers(0, 4), 'steps': st.integers(1, 6), 'min': st.booleans(), 'bowl': st.booleans(), 'wdecay': st.booleans(), 'seed': st.integers(0, 9999)})


def run_grad(case, h):
    import numpy as np, random, logging
    import pybrain.optimization as O
    logging.disable(logging.CRITICAL)
    name, dim = case['alg'], case['dim']
    w, x0 = np.array(case['w'][:dim]), np.array(case['x0'][:dim])
    calls = []
    bowl = case['bowl'] and name != 'FiniteDifferences'

    def f(x):
        v = float(np.dot(w, x)) + case['offset'] - (float(np.dot(x, x)) * (-1 if case['min'] else 1) if bowl else 0)
        calls.append((np.array(x), v))
        return v
    kw = dict(learningRate=case['lr'], momentum=case['mom'], epsilon=case['eps'], minimize=case['min'])
    if case['decay'] is not None:
        kw['learningRateDecay'] = case['decay']
    if case['gamma'] is not None and name != 'PGPE':
        kw['gamma'] = case['gamma']
    if name == 'FiniteDifferences':
        kw['batchSize'] = dim + 1 + case['extra']
        kw['rprop'] = case['rprop']
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    o = getattr(O, name)(f, x0.copy(), **kw)
    o.learn(case['steps'])
    h.label(name)
    s = -1.0 if case['min'] else 1.0
    if name == 'FiniteDifferences':
        gamma = case['gamma'] if case['gamma'] is not None else 0.999
        m = kw['batchSize']
        h.eq(len(calls), m * case['steps'], 'evaluations of a batch')
        x, mv, lr, eps = x0.copy(), np.zeros(dim), case['lr'], case['eps']
        width = np.zeros(dim) + 0.1
        last = np.zeros(dim)
        g = s * w
        n = 0
        if case['rprop'] and np.any(np.abs(w) < 1e-9):
            h.discard()
        for k in range(case['steps']):
            seen = calls[k * m:(k + 1) * m]
            for p, _ in seen:
                d = np.abs(p - x)
                h.check((d <= eps * (1 + 1e-9) + 1e-6).all(), lambda: 'step %d explores around %s within %s: %s' % (k, x, eps, p))
                eps *= gamma
            n += len(seen)
            # with so many distinct points, a linear function is known exactly
            D = np.array([np.append(p - x, 1.0) for p, _ in seen])
            sv = np.linalg.svd(D, compute_uv=False)
            if sv[-1] < 1e-7 * sv[0]:
                h.label('degenerate batch')
                return
            if case['rprop']:
                x = x + np.sign(g) * width
                width = np.where(last * g > 0, width * 1.2, width).clip(0.01, 5.0)
                last = g.copy()
            else:
                mv = case['mom'] * mv + lr * g
                lr *= case['decay'] if case['decay'] is not None else 1.0
                x = x + mv
        h.nontrivial(case['steps'] >= 3 and bool(np.any(w)))
        return
    h.eq(len(calls), 2 * case['steps'], 'evaluations in pairs')
    mids = []
    for k in range(case['steps']):
        (a, va), (b, vb) = calls[2 * k:2 * k + 2]
        mids.append((a + b) / 2.0)
        if name == 'SimpleSPSA':
            gamma = case['gamma'] if case['gamma'] is not None else 0.9995
            h.close(np.abs(a - b) / 2.0, [case['eps'] * gamma ** k] * dim, 'size of the perturbation', rtol=1e-6, atol=1e-9)
    h.close(mids[0], x0, 'the first pair lies around the initial point', rtol=0, atol=1e-9)
    moved = False
    if case['mom'] == 0:
        for k in range(case['steps'] - 1):
            (a, va), (b, vb) = calls[2 * k:2 * k + 2]
            up = (a - b) * (s * (va - vb))
            step = mids[k + 1] - mids[k]
            size = np.abs(step).max()
            if size > 1e-7:
                moved = True
            tol = 1e-7 * (1 + np.abs(mids[k]).max())
            if va == vb:
                h.close(step, [0.0] * dim, 'equal values do not move the point', rtol=0, atol=tol)
            elif name == 'SimpleSPSA':
                h.check((step * np.sign(up) >= -tol).all(), lambda: 'step %d goes towards the better point: %s, %s' % (k, step, up))
            else:
                h.check(float(np.dot(step, up)) >= -tol * (1 + np.abs(up).max()), lambda: 'step %d goes towards the better point: %s, %s' % (k, step, up))
                u = (a - b)
                if size > 1e-6:
                    c = abs(float(np.dot(step, u))) / (np.linalg.norm(step) * np.linalg.norm(u))
                    h.check(c > 1 - 1e-4, 'the step follows the perturbation')
            if k > 0 and va != vb and abs(va - vb) > 1e-6 and size < 1e-14 and case['eps'] > 0.1:
                h.fail('step %d does not move although the values differ' % k)
    h.nontrivial(moved)


FACETS = {'search': {'gen': gen, 'run': run, 'quick': 2400, 'thorough': 60000}, 'relations': {'gen': gen_sym, 'run': run_sym, 'quick': 900, 'thorough': 30000}, 'gradient': {'gen': gen_grad, 'run': run_grad, 'quick': 1200, 'thorough': 20000}}
