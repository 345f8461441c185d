"""C23: benchmark functions have their minimum of zero at the stated optimum; transformations compose."""
RULE = ("every benchmark function in 1-7 dimensions at points around its optimum, on a grid and far outside, as arrays and parameter containers; chains of up to three transformations; the BBOB 2010 functions with and "
        "without noise; atom configurations; non-trivial: a point away from the optimum")
ASSUMPTIONS = ["the three-hump function of Branin reaches its minimum within 1e-6", "sparse rotations (dimension 500 and more) are sampled only in the thorough tier"]
UNI = ['SphereFunction', 'SchwefelFunction', 'CigarFunction', 'TabletFunction', 'ElliFunction', 'StepElliFunction', 'AttractiveSectorFunction', 'SharpRFunctionBis', 'DiffPowFunction', 'RosenbrockFunction',
       'GlasmachersFunction', 'BoundedLinear']
MULTI = ['FunnelFunction', 'RastriginFunction', 'WeierstrassFunction', 'SchaffersF7Function', 'AckleyFunction', 'GriewankFunction', 'BucheRastriginFunction', 'GriewankRosenbrockFunction', 'Schwefel_2_13Function',
         'Schwefel20Function', 'GallagherGauss101MeFunction', 'GallagherGauss21HiFunction', 'KatsuuraFunction', 'LunacekBiRastriginFunction', 'BraninFunction']
UNB = ['LinearFunction', 'ParabRFunction', 'SharpRFunction']
# functions whose only zero is the optimum
STRICT = ('SphereFunction', 'SchwefelFunction', 'CigarFunction', 'TabletFunction', 'ElliFunction', 'AttractiveSectorFunction', 'DiffPowFunction', 'RosenbrockFunction', 'GlasmachersFunction', 'FunnelFunction', 'AckleyFunction',
          'RastriginFunction', 'GriewankFunction', 'BucheRastriginFunction')


def make(name, d):
    import sys, io
    from pybrain.rl.environments.functions import unimodal as U, multimodal as M, unbounded as B
    for m in (U, M, B):
        if name in vars(m):
            c = getattr(m, name)
            d = max(d, c.xdimMin, 2 if name in ('RosenbrockFunction', 'SharpRFunctionBis') else 1)
            if c.xdimMax or name == 'BraninFunction':
                d = 2
            old = sys.stdout
            sys.stdout = io.StringIO()
            try:
                return c(d)
            finally:
                sys.stdout = old


def reference(name, f, x):
    """independent formulas"""
    from math import cos, sin, sqrt, exp, log, pi
    n = len(x)
    x = [float(v) for v in x]
    if name == 'SphereFunction':
        return sum(v * v for v in x)
    if name == 'SchwefelFunction':
        s, r = 0.0, 0.0
        for v in x:
            s += v
            r += s * s
        return r
    if name == 'CigarFunction':
        return x[0] ** 2 + 1e6 * sum(v * v for v in x[1:])
    if name == 'TabletFunction':
        return 1e6 * x[0] ** 2 + sum(v * v for v in x[1:])
    if name == 'ElliFunction':
        return sum(1e6 ** (i / (n - 1.0)) * v * v for i, v in enumerate(x))
    if name == 'SharpRFunctionBis':
        return x[0] ** 2 + 100 * sqrt(sum(v * v for v in x[1:]))
    if name == 'DiffPowFunction':
        return sum(abs(v) ** (2 + 10.0 * i / (n - 1)) for i, v in enumerate(x))
    if name == 'RosenbrockFunction':
        return sum(100 * (x[i] ** 2 - x[i + 1]) ** 2 + (x[i] - 1) ** 2 for i in range(n - 1))
    if name == 'GlasmachersFunction':
        a, b = 0.1 * sqrt(sum(v * v for v in x[:n // 2])), sqrt(sum(v * v for v in x[n // 2:]))
        return a + b + sqrt(2 * a * b + b * b)
    if name == 'FunnelFunction':
        return min(sum((v - 2.5) ** 2 for v in x), n + sum((v + 2.5) ** 2 for v in x))
    if name == 'RastriginFunction':
        return sum(v * v - 10 * cos(2 * pi * v) + 10 for v in x)
    if name == 'WeierstrassFunction':
        return sum(0.5 ** k * (cos(2 * pi * 3 ** k * (v + 0.5)) + 1) for v in x for k in range(20))
    if name == 'SchaffersF7Function':
        s = [sqrt(x[i] ** 2 + x[i + 1] ** 2) for i in range(n - 1)]
        return sum(sqrt(v) * (1 + sin(50 * v ** 0.2) ** 2) for v in s) ** 2
    if name == 'AckleyFunction':
        return -20 * exp(-0.2 * sqrt(sum(v * v for v in x) / n)) - exp(sum(cos(2 * pi * v) for v in x) / n) + 20 + exp(1)
    if name == 'GriewankFunction':
        p = 1.0
        for i, v in enumerate(x):
            p *= cos(v / sqrt(i + 1.0))
        return sum(v * v for v in x) / 4000 - p + 1
    if name == 'GriewankRosenbrockFunction':
        s = [100 * (x[i] ** 2 - x[i + 1]) ** 2 + (x[i] - 1) ** 2 for i in range(n - 1)]
        return sum(v / 4000 - cos(v) for v in s) / (n - 1.0) + 1
    if name == 'KatsuuraFunction':
        p = 1.0
        for i, v in enumerate(x):
            p *= (1 + (i + 1) * sum(abs(2.0 ** j * v - int(2.0 ** j * v)) / 2.0 ** j for j in range(1, 33))) ** (10 / n ** 1.2)
        return p - 1
    if name == 'BraninFunction':
        return (x[1] - 5.1 / (4 * pi ** 2) * x[0] ** 2 + 5 / pi * x[0] - 6) ** 2 + 10 * (1 - 1 / (8 * pi)) * cos(x[0]) + 10 - 0.397887
    if name == 'AttractiveSectorFunction':
        q = sum((100 * (v - o)) ** 2 if (v - o) * o > 0 else (v - o) ** 2 for v, o in zip(x, f.xopt))
        return 0.0 if q == 0 else exp(log(q) + 0.049 * (sin(10 * q) + sin(7.9 * q))) ** 0.9
    if name == 'BoundedLinear':
        w = [10 ** (i / (n - 1.0)) for i in range(n)]
        return sum(5 * a - a * min(5.0, v * (1 if o > 0 else -1)) for a, v, o in zip(w, x, f.xopt))
    if name == 'BucheRastriginFunction':
        z = [v * 10 ** (0.5 * i / (n - 1) + (1 if v <= 0 or i % 2 == 0 else 0)) for i, v in enumerate(x)]
        return sum(v * v - 10 * cos(2 * pi * v) + 10 for v in z)
    if name == 'LinearFunction':
        return sum(x)
    if name == 'ParabRFunction':
        return -x[0] + 100 * sum(v * v for v in x[1:])
    if name == 'SharpRFunction':
        return -x[0] + 100 * sqrt(sum(v * v for v in x[1:]))
    return None


def parameters(name, d, x, h):
    """the variants of the functions"""
    import numpy as np
    from pybrain.rl.environments.functions import unimodal as U, multimodal as M
    y = [float(t) for t in x]
    tol = dict(rtol=1e-7, atol=1e-7)
    if name == 'DiffPowFunction':
        for a in (4, 10, 1):
            h.close(float(U.DiffPowFunction(d, a=a)(x)), sum(abs(v) ** (2 + float(a) * i / (d - 1)) for i, v in enumerate(y)), 'powers up to 2 + %d' % a, **tol)
    elif name == 'ElliFunction':
        for a in (100, 10):
            h.close(float(U.ElliFunction(d, a=a)(x)), sum(a ** (2 * i / (d - 1.0)) * v * v for i, v in enumerate(y)), 'condition %d^2' % a, **tol)
    elif name == 'WeierstrassFunction':
        h.close(float(M.WeierstrassFunction(d, kmax=11)(x)), sum(0.5 ** k * (np.cos(2 * np.pi * 3 ** k * (v + 0.5)) + 1) for v in y for k in range(11)), 'eleven terms', rtol=1e-6, atol=1e-5)
    elif name == 'FunnelFunction':
        for depth, size in ((2.0, 1.0), (0.5, 0.7)):
            f = M.FunnelFunction(d, funnelDepth=depth, funnelSize=size)
            h.close(float(f(x)), min(sum((v - 2.5) ** 2 for v in y), depth * d + size * sum((v + 2.5) ** 2 for v in y)), 'two funnels', **tol)
    elif name == 'GlasmachersFunction':
        a, b = 0.5 * sum(v * v for v in y[:d // 2]) ** 0.5, sum(v * v for v in y[d // 2:]) ** 0.5
        h.close(float(U.GlasmachersFunction(d, c=0.5)(x)), a + b + (2 * a * b + b * b) ** 0.5, 'another weight', **tol)
    else:
        return
    h.label('variant')


def pts(st):
    return st.lists(st.one_of(st.integers(-20, 20).map(lambda i: i / 4.0), st.integers(-80, 80).map(lambda i: i / 4.0), st.floats(-6, 6), st.just(0.0)), min_size=7, max_size=7)


def gen_fun(st):
    return st.fixed_dictionaries({'name': st.sampled_from(UNI + MULTI + UNB), 'd': st.integers(1, 7), 'seed': st.integers(0, 99999), 'x': pts(st), 'near': st.sampled_from([None, None, 0.01, 1.0, 30.0]), 'zero': st.integers(0, 127), 'par': st.booleans(), 'pc': st.booleans()})


def run_fun(case, h):
    import numpy as np, random
    from pybrain.structure.parametercontainer import ParameterContainer
    name = case['name']
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    f = make(name, case['d'])
    d = f.xdim
    h.label(name)
    h.eq(f.indim, d, 'dimension')
    h.eq(len(f.xbound), d, 'one bound per dimension')
    x = np.array(case['x'][:d])
    opt = np.array(f.xopt, float)
    h.eq(opt.shape, (d,), 'dimension of the optimum')
    if case['near'] is not None:
        x = opt + case['near'] * x
    elif case['zero'] < 64:
        # points on the axes
        x = x * np.array([(case['zero'] >> i) & 1 for i in range(d)])
    x0 = x.copy()
    v = float(f(x))
    h.close(x, x0, 'the argument is unchanged', rtol=0, atol=0)
    h.close(float(f(x)), v, 'the same value again', rtol=1e-9, atol=1e-12)
    if case['par']:
        parameters(name, d, x, h)
    if case['pc']:
        p = ParameterContainer(d)
        p._setParameters(x.copy())
        h.close(float(f(p)), v, 'value of a parameter container', rtol=1e-9, atol=1e-12)
    f.performAction(x)
    h.close(f.getSensors(), [v], 'value as sensor', rtol=1e-9, atol=1e-12)
    ref = reference(name, f, x)
    if ref is not None:
        # the small scales of this function amplify rounding
        t = dict(rtol=1e-7, atol=1e-4) if name == 'WeierstrassFunction' else dict(rtol=1e-7, atol=1e-7)
        h.close(v, ref, 'value', **t)
    if name not in UNB:
        h.close(float(f(opt.copy())), 0.0, 'the value of the optimum is zero', rtol=0, atol=1e-6)
        h.check(v >= -1e-6, lambda: 'no value is negative: %r' % v)
        far = float(np.abs(x - opt).max())
        if name in STRICT and far > 0.3:
            h.check(v > 1e-9, 'other points are worse')
    h.nontrivial(float(np.abs(x - opt).max()) > 1e-3)


def gen_tr(st):
    tr = st.fixed_dictionaries({'k': st.sampled_from(['opposite', 'translate', 'translate', 'rotate', 'soft']), 'off': st.one_of(st.none(), st.lists(st.integers(-8, 8).map(lambda i: i / 4.0), min_size=5, max_size=5)),
                                'dist': st.sampled_from([0.1, 1.0, 3.0]), 'fac': st.sampled_from([1.0, 0.5, 100.0]), 'skew': st.booleans(), 'des': st.sampled_from([None, None, 0, 0.0, -2.5])})
    return st.fixed_dictionaries({'name': st.sampled_from(UNI + MULTI), 'd': st.integers(1, 5), 'seed': st.integers(0, 99999), 'x': pts(st), 'trs': st.lists(tr, min_size=1, max_size=3), 'pc': st.booleans()})


def run_tr(case, h):
    import numpy as np, random
    from pybrain.rl.environments.functions import transformations as T
    from pybrain.structure.parametercontainer import ParameterContainer
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    f = make(case['name'], case['d'])
    d = f.xdim
    f0 = f
    x = np.array(case['x'][:d])
    opt = np.array(f.xopt, float)
    y, sgn, base = float(f.f(x.copy())), 1.0, []
    h.label(case['name'])
    tiny = dict(rtol=1e-6, atol=1e-6)
    moved = False
    for t in case['trs']:
        k = t['k']
        g, gopt = f, np.array(f.xopt, float)
        if t['des'] is not None:
            g.desiredValue = t['des']
        want = g.desiredValue
        q = x.copy()
        if k == 'opposite':
            f = T.oppositeFunction(g)
            h.eq(bool(f.toBeMinimized), not g.toBeMinimized, 'the direction is opposite')
            if want is not None:
                h.check(f.desiredValue == -want, 'opposite desired value')
            ref = -float(g(x.copy()))
            sgn = -sgn
        elif k == 'translate':
            off = None if t['off'] is None else np.array(t['off'][:d])
            f = T.TranslateFunction(g, distance=t['dist'], offset=off)
            moved = True
            if off is None:
                off = np.array(f.xopt) - gopt
                h.close(float(np.sqrt(np.dot(off, off))), t['dist'], 'distance of the random offset')
            else:
                h.close(off, t['off'][:d], 'the offset is unchanged', rtol=0, atol=0)
            h.close(f.xopt, gopt + off, 'the optimum moves')
            ref = float(g(x - off))
        elif k == 'rotate':
            if d < 2:
                continue
            f = T.RotateFunction(g)
            # a rotation keeps lengths: recover it from a sphere
            h.close(float(f(np.array(f.xopt))), float(g(gopt.copy())), 'value at the rotated optimum', **tiny)
            h.close(float(np.dot(f.xopt, f.xopt)), float(np.dot(gopt, gopt)), 'a rotation keeps lengths', rtol=1e-7, atol=1e-9)
            R = np.linalg.qr(np.random.RandomState(case['seed']).randn(d, d))[0]
            if t['skew']:
                # any invertible matrix
                R = R * np.linspace(0.5, 2.0, d)
            f = T.RotateFunction(g, R)
            h.close(np.dot(f.xopt, R), gopt, 'the optimum rotates', **tiny)
            ref = float(g(np.dot(x, R)))
        else:
            f = T.SoftConstrainedFunction(g, distance=t['dist'], penalizationFactor=t['fac'])
            out = np.maximum(np.abs(x) - t['dist'], 0)
            pen = 0.0 if g.penalized else float(np.dot(out, out)) * t['fac'] * (1 if g.toBeMinimized else -1)
            if pen:
                h.label('penalty')
            ref = float(g(x.copy())) + pen
        if k != 'opposite':
            h.eq(f.desiredValue, want, 'the desired value is kept')
            h.eq(bool(f.toBeMinimized), bool(g.toBeMinimized), 'the direction is kept')
        h.eq(f.xdim, d, 'dimension')
        h.close(np.array(g.xopt, float), gopt, 'the optimum of the base function stays', rtol=0, atol=0)
        arg = q.copy()
        if case['pc']:
            arg = ParameterContainer(d)
            arg._setParameters(q.copy())
        h.close(float(f(arg)), ref, k, rtol=1e-7, atol=1e-7 + 1e-9 * abs(ref))
        h.label(k)
    if not any(t['k'] == 'soft' for t in case['trs']):
        h.close(float(f(np.array(f.xopt, float))), 0.0, 'the value of the optimum is zero', rtol=0, atol=2e-4 if case['name'] in ('DiffPowFunction', 'SchaffersF7Function', 'WeierstrassFunction', 'KatsuuraFunction') else 1e-6)
    h.nontrivial(float(np.abs(x - opt).max()) > 1e-3)


def gen_bbob(st):
    return st.fixed_dictionaries({'i': st.one_of(st.integers(0, 23), st.integers(0, 53)), 'd': st.integers(2, 5), 'seed': st.integers(0, 99999), 'x': pts(st), 'near': st.booleans()})


def run_bbob(case, h, d=None):
    import numpy as np, random, sys, io
    from pybrain.rl.environments.functions import bbob2010 as B
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    all_ = B.bbob_collection + B.bbob_noise_collection
    i = case['i']
    d = d or case['d']
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        f = all_[i](d)
    finally:
        sys.stdout = old
    h.label('f%d' % i)
    x = np.resize(np.array(case['x']), d)
    opt = np.array(f.xopt, float)
    h.check((np.abs(opt) <= 5).all(), 'the optimum lies within [-5, 5]')
    if case['near']:
        x = opt + 0.05 * x
    x0 = x.copy()
    v = float(f(x))
    h.close(x, x0, 'the argument is unchanged', rtol=0, atol=0)
    h.check(v >= -1e-6, lambda: 'no value is negative: %r' % v)
    h.close(float(f(opt.copy())), 0.0, 'the value of the optimum is zero', rtol=0, atol=1e-6)
    if i < 24:
        h.close(float(f(x.copy())), v, 'the same value again', rtol=1e-7, atol=1e-9)
    far = float(np.abs(x - opt).max())
    # penalty: these grow outside of the box
    if f.penalized and i < 24:
        y = 1.0 * x0
        y[0] = 25.0
        out = np.maximum(np.abs(y) - 5, 0)
        low = {3: 100, 6: 1, 16: 10, 17: 10}.get(i, 0)
        h.check(float(f(y)) >= low * float(np.dot(out, out)) - 1e-6, 'points outside are penalized')
    h.check(f.toBeMinimized, 'to be minimized')
    h.nontrivial(far > 1e-3)


def gen_known(st):
    return st.fixed_dictionaries({'i': st.sampled_from([0, 1, 2, 3, 4, 7, 13, 118]), 'd': st.integers(2, 5), 'seed': st.integers(0, 99999), 'x': pts(st), 'near': st.booleans()})


def run_known(case, h):
    """BBOB functions without a rotation follow from their pieces"""
    import numpy as np, random
    from pybrain.rl.environments.functions import bbob2010 as B
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    i, d = case['i'], case['d']
    f = B.bbob_collection[i](d) if i < 24 else (B.bbob_f119)(d)
    opt = np.array(f.xopt, float)
    h.label('f%d' % (i + 1))
    if i in (13, 118):
        # rotated: the growth far away shows the highest power
        u = np.array([0.3 + abs(t) for t in case['x'][:d]])
        u /= np.linalg.norm(u)
        if i == 13:
            a, b = float(f(opt + 1e4 * u)), float(f(opt + 1e7 * u))
            p = np.log(b / a) / np.log(1e3)
            h.check(p < 6 + 1e-6, lambda: 'powers up to 6: %s' % p)
            h.check(p > 3.5, lambda: 'powers up to 6: %s' % p)
        h.nontrivial()
        return
    x = np.array(case['x'][:d])
    if case['near']:
        x = opt + 0.05 * x
    y = [float(t) for t in x - opt]
    osc = lambda v: 0.0 if v == 0 else float(np.sign(v) * np.exp(np.log(abs(v)) + 0.049 * (np.sin(10 * v) + np.sin(7.9 * v) if v > 0 else np.sin(5.5 * v) + np.sin(3.1 * v))))
    asy = lambda z, beta: [v if v <= 0 else v ** (1 + beta * k / (d - 1.0) * v ** 0.5) for k, v in enumerate(z)]
    pen = float(np.dot(np.maximum(np.abs(x) - 5, 0), np.maximum(np.abs(x) - 5, 0)))
    if i == 0:
        ref = sum(v * v for v in y)
    elif i == 1:
        ref = sum(1e6 ** (k / (d - 1.0)) * osc(v) ** 2 for k, v in enumerate(y))
    elif i == 2:
        ref = reference('RastriginFunction', f, asy([osc(v) for v in y], 0.2))
    elif i == 3:
        ref = reference('BucheRastriginFunction', f, [osc(v) for v in y]) + 100 * pen
    elif i == 4:
        ref = reference('BoundedLinear', f, x)
    else:
        ref = reference('RosenbrockFunction', f, [v + 1 for v in y])
    h.close(float(f(x)), ref, 'value of function %d' % (i + 1), rtol=1e-6, atol=1e-5)
    h.nontrivial(max(abs(v) for v in y) > 1e-3)


def gen_noise(st):
    return st.fixed_dictionaries({'k': st.sampled_from(['g', 'u', 'c', 'none']), 'lev': st.sampled_from([0.01, 1.0]), 'beta': st.sampled_from([0.05, 0.2]), 'd': st.integers(1, 4), 'seed': st.integers(0, 99999), 'log': st.integers(-10, 3), 'pen': st.sampled_from([0, 1, 10]),
                                  'far': st.booleans(), 'dir': st.lists(st.integers(1, 8), min_size=4, max_size=4)})


def run_noise(case, h):
    """noise multiplies or adds to the value, never at the optimum, never below zero, and leaves the penalty alone"""
    import numpy as np, random
    from pybrain.rl.environments.functions.transformations import BBOBTransformationFunction as T
    from pybrain.rl.environments.functions.unimodal import SphereFunction
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    d, k, lev = case['d'], case['k'], case['lev']
    kw = {'g': dict(gnoise=lev), 'u': dict(unoise=lev), 'c': dict(cnoise=(lev, case['beta'])), 'none': {}}[k]
    f = T(SphereFunction(d), penalized=case['pen'], **kw)
    opt = np.array(f.xopt, float)
    u = np.array(case['dir'][:d], float)
    x = opt + u / np.linalg.norm(u) * 10.0 ** (case['log'] / 2.0)
    if case['far']:
        x[0] = 7.0
    out = np.maximum(np.abs(x) - 5, 0)
    pen = case['pen'] * float(np.dot(out, out))
    base = float(np.dot(x - opt, x - opt))
    vs = [float(f(x)) - pen for _ in range(30)]
    h.label(k)
    tol = 1e-9 * (1 + pen)
    h.check(f.penalized == (case['pen'] != 0), 'it knows whether it is penalized')
    if base < 0.99e-8 or k == 'none':
        for v in vs:
            h.close(v, base, 'no noise at the optimum', rtol=1e-9, atol=tol)
    elif base > 1.01e-8 and pen == 0:
        vs = [v - 1.01e-8 for v in vs]
        if k == 'g':
            z = [np.log(max(v, 1e-300) / base) / lev for v in vs]
            h.check(max(abs(t) for t in z) < 8, lambda: 'log-normal factors of level %s: %r' % (lev, z))
            h.check(len(set(vs)) > 25 and abs(np.mean(z)) < 1.3 and 0.3 < np.std(z) < 2.2, lambda: 'log-normal factors of level %s: %r' % (lev, z))
        elif k == 'u':
            alpha = 0.49 / d * lev
            top = max(1.0, (1e9 / base) ** alpha)
            h.check(all(-tol <= v <= base * top * (1 + 1e-9) + tol for v in vs), lambda: 'uniform factors: %r of %r' % (vs, base))
            h.check(len(set(vs)) > 25, 'different noise each time')
        else:
            n = sum(v > base * (1 + 1e-9) + tol for v in vs)
            h.check(all(v >= base * (1 - 1e-9) - tol for v in vs), 'rare outliers only add to the value')
            h.check(n <= 30 * case['beta'] / 2 + 7 * (30 * case['beta'] / 2) ** 0.5 + 1, lambda: '%d outliers of 30' % n)
    h.nontrivial(k != 'none')


def gen_big(st):
    return st.fixed_dictionaries({'i': st.sampled_from([0, 1, 6, 8, 11, 16, 22]), 'dd': st.integers(500, 503), 'seed': st.integers(0, 99999), 'x': pts(st), 'near': st.booleans()})


def run_big(case, h):
    run_bbob(case, h, case['dd'])


def gen_osc(st):
    return st.fixed_dictionaries({'x': pts(st), 'd': st.integers(2, 7), 'beta': st.sampled_from([0.2, 0.5, 0.0])})


def run_osc(case, h):
    import numpy as np
    from math import exp, log, sin, sqrt
    from pybrain.rl.environments.functions.transformations import BBOBTransformationFunction as B, penalize, generateDiags
    d = case['d']
    x = np.array(case['x'][:d])
    o = B.oscillatify(x.copy())
    ref = [0.0 if v == 0 else (1 if v > 0 else -1) * exp(log(abs(v)) + 0.049 * (sin(10 * v) + sin(7.9 * v) if v > 0 else sin(5.5 * v) + sin(3.1 * v))) for v in x]
    h.close(o, ref, 'oscillation', rtol=1e-9, atol=1e-12)
    a = B.asymmetrify(x.copy(), case['beta'])
    ref = [v if v <= 0 else v ** (1 + case['beta'] * i / (d - 1.0) * sqrt(v)) for i, v in enumerate(x)]
    h.close(a, ref, 'asymmetry', rtol=1e-7, atol=1e-9)
    h.close(penalize(x), sum(max(0.0, abs(v) - 5) ** 2 for v in x), 'penalty')
    D = generateDiags(10.0, d)
    h.close(D, np.diag([10 ** (0.5 * i / (d - 1.0)) for i in range(d)]), 'conditioning')
    S = generateDiags(10.0, d, shuffled=True)
    h.close(sorted(np.diag(S)), sorted(np.diag(D)), 'shuffled conditioning')
    h.nontrivial(bool(np.any(x > 0)) and bool(np.any(x < 0)))


def gen_lj(st):
    return st.fixed_dictionaries({'n': st.integers(1, 6), 'seed': st.integers(0, 99999), 'scale': st.sampled_from([1.0, 1.5, 3.0]), 'pair': st.integers(8, 30).map(lambda i: i / 10.0)})


def run_lj(case, h):
    import numpy as np
    from pybrain.rl.environments.functions.lennardjones import LennardJones
    r = np.random.RandomState(case['seed'])
    n = case['n']
    f = LennardJones(3 * n)
    P = r.rand(n, 3) * case['scale'] * 2 * n ** (1 / 3.0)
    ds = [float(np.sqrt(((P[i] - P[j]) ** 2).sum())) for i in range(n) for j in range(i)]
    if ds and min(ds) < 0.5:
        h.discard()
    v = float(f(P.flatten()))
    h.close(v, 4 * sum(d ** -12 - d ** -6 for d in ds), 'energy', rtol=1e-7, atol=1e-9)
    tol = dict(rtol=1e-6, atol=1e-6)
    h.close(float(f(P[r.permutation(n)].flatten())), v, 'the order of the atoms does not matter', **tol)
    R = np.linalg.qr(r.randn(3, 3))[0]
    h.close(float(f((np.dot(P, R) + r.randn(3)).flatten())), v, 'moving the whole configuration does not matter', **tol)
    h.check(v >= f.desiredValue - 2e-5, 'no configuration is better than the best known')
    for n2, best in ((2, -1), (3, -3), (4, -6), (5, -9.103852), (6, -12.712062), (7, -16.505384), (13, -44.326801), (38, -173.928427), (55, -279.248470), (75, -397.492331)):
        h.close(LennardJones(3 * n2).desiredValue, best, 'best known energy of %d atoms' % n2, rtol=0, atol=2e-5)
    two = LennardJones(6)
    d = case['pair']
    h.close(float(two(np.array([0.0, 0, 0, 0, d, 0]))), 4 * (d ** -12 - d ** -6), 'energy of a pair')
    h.nontrivial(n >= 3)


FACETS = {'functions': {'gen': gen_fun, 'run': run_fun, 'quick': 2500, 'thorough': 60000}, 'transformations': {'gen': gen_tr, 'run': run_tr, 'quick': 1200, 'thorough': 30000},
          'bbob': {'gen': gen_bbob, 'run': run_bbob, 'quick': 800, 'thorough': 20000}, 'known': {'gen': gen_known, 'run': run_known, 'quick': 400, 'thorough': 8000}, 'noise': {'gen': gen_noise, 'run': run_noise, 'quick': 300, 'thorough': 6000}, 'pieces': {'gen': gen_osc, 'run': run_osc, 'quick': 300, 'thorough': 5000}, 'atoms': {'gen': gen_lj, 'run': run_lj, 'quick': 300, 'thorough': 5000},
          'large': {'gen': gen_big, 'run': run_big, 'quick': 0, 'thorough': 60}}
