"""C14: classification conversions and preprocessing."""
RULE = ("classification data sets of 0-25 samples with 1-5 classes built in several ways, converted to and from one-of-many, added, counted, cast; "
        "sequential data cut into windows; data with missing values; normalization by range and by mean/deviation; non-trivial: at least 3 samples and 2 classes / sequences")
ASSUMPTIONS = ["classes are numbered from 0", "a normalization file keeps 6 significant digits", "columns used for normalization are not constant, except where stated"]


def gen(st):
    val = st.integers(-20, 20).map(lambda i: i / 4.0)
    return st.fixed_dictionaries({'cls': st.lists(st.integers(0, 4), max_size=25), 'extra': st.lists(st.integers(0, 4), max_size=6), 'di': st.integers(1, 3), 'nb': st.booleans(), 'labels': st.booleans(),
                                  'how': st.sampled_from(['add', 'arr', 'list', 'copy', 'clear']), 'bounds': st.sampled_from([None, [0, 1], [-1, 1], [0.1, 0.9], [-0.5, 0.5], [2, 5], [1, 0]]),
                                  'mis': st.sampled_from([None, None, 'dim', 'nb', 'type', 'many']), 'vals': st.lists(val, min_size=5, max_size=5), 'vcols': st.booleans(), 'again': st.booleans(),
                                  'imp': st.booleans()})


def row(i, d):
    return [i + 0.25 * j for j in range(1, d + 1)]


def make(cls, di, how, nb, labels, first=0):
    import numpy as np
    from pybrain.datasets import ClassificationDataSet
    kw = {'class_labels': ['c%d' % i for i in range(5)]} if labels else {}
    inp = [row(first + i, di) for i in range(len(cls))]
    if how in ('arr', 'list') and cls:
        tar = [[c] for c in cls]
        d = ClassificationDataSet(np.array(inp) if how == 'arr' else inp, np.array(tar) if how == 'arr' else tar, nb_classes=nb, **kw)
    else:
        d = ClassificationDataSet(di, 1, nb_classes=nb, **kw)
        if how == 'clear':
            d.addSample([1.] * di, [0])
            d.clear(True)
        for i, c in zip(inp, cls):
            d.addSample(i, [c])
        if how == 'copy':
            d = d.copy()
    return d, inp


def contents(d):
    return [(list(map(float, a)), list(map(float, b))) for a, b in zip(d['input'], d['target'])]


def run(case, h):
    import numpy as np
    from pybrain.datasets import SupervisedDataSet, ClassificationDataSet
    from pybrain.tools.validation import ClassificationHelper
    cls, di = case['cls'], case['di']
    k = 5
    nb = 5
    if not case['nb'] and cls and set(cls) == set(range(max(cls) + 1)):
        nb, k = 0, max(cls) + 1
    case['extra'] = [c % k for c in case['extra']]
    d, inp = make(cls, di, case['how'], nb, case['labels'])
    plain = [(i, [float(c)]) for i, c in zip(inp, cls)]
    h.eq(contents(d), plain, 'contents')
    if case['labels']:
        h.eq([d.getClass(i) for i in range(5)], ['c%d' % i for i in range(5)], 'class labels')
    elif case['how'] in ('arr', 'list') and cls:
        h.eq([int(d.getClass(i)) for i in range(len(set(cls)))], sorted(set(cls)), 'class labels')
    if cls:
        h.eq(dict((int(a), int(b)) for a, b in d.calculateStatistics().items()), dict((c, cls.count(c)) for c in range(k)), 'class histogram')
        h.eq(int(d.nClasses), k, 'number of classes')
        h.eq([int(c[0]) for c in d['class']], cls, 'class field')
    # addition
    e, inp2 = make(case['extra'], di + (case['mis'] == 'dim'), 'add', (nb or k) + (case['mis'] == 'nb'), False, 100)
    if case['mis'] == 'type':
        e = SupervisedDataSet(di, 1)
    if case['mis'] == 'many' and case['extra'] and (nb or k) > 1:
        e._convertToOneOfMany()
    d.assignClasses()
    if case['mis'] in ('dim', 'type', 'nb') or (case['mis'] == 'many' and case['extra'] and (nb or k) > 1):
        h.raises((TypeError, IndexError), lambda: d + e, 'adding data sets that do not match (%s)' % case['mis'])
        h.label('mismatch')
    elif cls and not (case['mis'] == 'many' and case['extra']):
        s = d + e
        h.eq(contents(s), plain + [(i, [float(c)]) for i, c in zip(inp2, case['extra'])], 'sum')
        h.eq([int(c[0]) for c in s['class']], cls + case['extra'], 'classes of the sum')
        h.eq(int(s.nClasses), k, 'number of classes of the sum')
        h.check(type(s) is ClassificationDataSet, 'type of the sum')
        h.label('sum')
        if case['extra']:
            h.eq(contents(e), [(i, [float(c)]) for i, c in zip(inp2, case['extra'])], 'second operand')
    h.eq(contents(d), plain, 'first operand')
    # regression
    vals = np.array(case['vals'])
    if case['vcols']:
        vals = vals.reshape(-1, 1)
    if cls:
        extra = len(cls) % 2
        if extra:
            for f in ('importance', 'note'):
                d.setField(f, np.arange(len(cls)).reshape(-1, 1) + .5)
        r = d.castToRegression(vals)
        if extra:
            for f in ('importance', 'note'):
                h.close(np.ravel(r[f]), np.arange(len(cls)) + .5, 'field %s after the cast' % f)
                del d.data[f], d.endmarker[f]
        h.eq([int(v) for v in np.ravel(r['class'])], cls, 'classes after the cast')
        h.eq([list(map(float, a)) for a in r['input']], inp, 'inputs after the cast')
        h.close(np.ravel(r['target']), [case['vals'][c] for c in cls], 'targets after the cast')
        h.eq(len(r), len(cls), 'length after the cast')
    # one of many and back
    if not cls:
        return
    b = case['bounds'] or [0, 1]
    for rep in range(2 if case['again'] else 1):
        if case['bounds'] is None:
            d._convertToOneOfMany()
        else:
            d._convertToOneOfMany(bounds=b if case['again'] else tuple(b))
        want = [[b[1] if j == c else b[0] for j in range(k)] for c in cls]
        h.close(d['target'], want, 'one-of-many targets')
        h.eq(d.outdim, k, 'target dimension')
        h.eq([list(map(float, a)) for a in d['input']], inp, 'inputs')
        h.eq([int(c[0]) for c in d['class']], cls, 'class field after the conversion')
        if b[1] > b[0]:
            h.eq([int(c) for c in ClassificationHelper.oneOfManyToClasses(d['target'])], cls, 'classes from the maximum')
        h.eq([float(x) for x in np.ravel([s[1] for s in d])], [float(x) for q in want for x in q], 'samples')
        if k > 1:
            d._convertToOneOfMany(bounds=(7, 8))
            h.close(d['target'], want, 'targets converted twice')
            h.eq(dict((int(a), int(v)) for a, v in d.calculateStatistics().items()), dict((c, cls.count(c)) for c in range(k)), 'class histogram of one-of-many data')
            r = d.castToRegression(vals)
            h.close(np.ravel(r['target']), [case['vals'][c] for c in cls], 'targets of one-of-many data after the cast')
        c = d.copy()
        d._convertToClassNb()
        h.eq(contents(d), plain, 'converted back')
        h.eq(d.outdim, 1, 'target dimension after converting back')
        h.close(c['target'], want, 'a copy made before')
    h.label(case['how'])
    h.nontrivial(len(cls) >= 3 and len(set(cls)) >= 2)


def gen_win(st):
    return st.fixed_dictionaries({'lens': st.lists(st.integers(1, 9), min_size=1, max_size=6), 'w': st.integers(1, 4), 'di': st.integers(1, 3), 'dt': st.integers(1, 2),
                                  'kind': st.sampled_from(['seq', 'seqclass', 'imp']), 'new': st.sampled_from(['sup', 'class']), 'remove': st.booleans()})


def run_win(case, h):
    from pybrain.datasets import SequentialDataSet, SupervisedDataSet, ImportanceDataSet, ClassificationDataSet, SequenceClassificationDataSet
    from pybrain.tools.datasettools import convertSequenceToTimeWindows
    di, dt = case['di'], case['dt']
    cl = case['kind'] == 'seqclass' or case['new'] == 'class'
    dt = 1 if cl else dt
    d = {'seq': SequentialDataSet, 'imp': ImportanceDataSet, 'seqclass': SequenceClassificationDataSet}[case['kind']](di, dt)
    seqs, i = [], 0
    for n in case['lens']:
        d.newSequence()
        q = []
        for _ in range(n):
            t = [float(i % 3)] if cl else row(1000 + i, dt)
            d.addSample(row(i, di), t)
            q.append((row(i, di), t))
            i += 1
        seqs.append(q)
    if case['remove'] and len(seqs) > 1:
        d.removeSequence(0)
        seqs = seqs[1:]
    w = case['w']
    r = convertSequenceToTimeWindows(d, SupervisedDataSet if case['new'] == 'sup' else ClassificationDataSet, w)
    want = []
    for q in seqs:
        for s in range(0, len(q) - w + 1, w):
            want.append((sum((x[0] for x in q[s:s + w]), []), q[s + w - 1][1]))
    h.eq(contents(r), want, 'windows')
    h.eq((r.indim, r.outdim), (di * w, dt), 'dimensions')
    h.nontrivial(len(seqs) >= 2 and want)


def gen_nan(st):
    v = st.one_of(st.integers(-20, 20), st.integers(-20, 20), st.sampled_from(['nan', 'inf', '-inf', 'nan']))
    return st.fixed_dictionaries({'rows': st.lists(st.lists(v, min_size=4, max_size=4), min_size=1, max_size=9), 'kind': st.sampled_from(['sup', 'unsup', 'seq', 'plain'])})


def run_nan(case, h):
    from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet, SequentialDataSet
    from pybrain.datasets.dataset import DataSet
    rows = [[float(v) for v in r] for r in case['rows']]
    bad = lambda v: v != v or abs(v) == float('inf')
    if case['kind'] == 'plain':
        d, cut = DataSet(), {'a': (0, 1), 'b': (1, 4)}
        d.addField('a', 1)
        d.addField('b', 3)
        for r in rows:
            d.append('a', r[:1])
        for r in rows[1:]:
            d.append('b', r[1:])
        start = {'a': 0, 'b': 1}
    else:
        start = {}
        if case['kind'] == 'unsup':
            d, cut = UnsupervisedDataSet(4), {'sample': (0, 4)}
        else:
            d, cut = (SupervisedDataSet if case['kind'] == 'sup' else SequentialDataSet)(3, 1), {'input': (0, 3), 'target': (3, 4)}
        for k, r in enumerate(rows):
            if case['kind'] == 'seq' and k % 3 == 0:
                d.newSequence()
            d.addSample(*[r[a:b] for _, (a, b) in sorted(cut.items())])
    d.replaceNansByMeans()
    some = False
    for l, (a, b) in cut.items():
        part = [r[a:b] for r in rows[start.get(l, 0):]]
        want = [list(r) for r in part]
        for j in range(b - a):
            ok = [r[j] for r in part if not bad(r[j])]
            for r in want:
                if bad(r[j]) and ok:
                    r[j] = sum(ok) / len(ok)
                    some = True
        if part:
            h.close(d[l], want, 'field ' + l)
        h.eq(len(d[l]), len(part), 'length of field ' + l)
    h.nontrivial(some and len(rows) >= 3)


def gen_norm(st):
    v = st.integers(-40, 40).map(lambda i: i / 4.0)
    return st.fixed_dictionaries({'rows': st.lists(st.lists(v, min_size=3, max_size=3), min_size=1, max_size=10), 'other': st.lists(st.lists(v, min_size=3, max_size=3), min_size=1, max_size=4),
                                  'b': st.sampled_from([None, [-1, 1], [0, 1], [-2.5, 4], [0.25, 0.75]]), 'meanstd': st.booleans(), 'field': st.sampled_from(['input', 'target']), 'file': st.booleans(), 'pat': st.booleans()})


def run_norm(case, h):
    import numpy as np
    from pybrain.datasets import SupervisedDataSet
    from pybrain.tools.datasettools import DataSetNormalizer
    rows, f = case['rows'], case['field']

    def make(rs):
        d = SupervisedDataSet(3, 3)
        for i, r in enumerate(rs):
            d.addSample(*((r, row(i, 3)) if f == 'input' else (row(i, 3), r)))
        return d
    d, e = make(rows), make(case['other'])
    n = DataSetNormalizer(meanstd=case['meanstd'])
    h.raises(IndexError, lambda: n.normalize(d, f), 'normalizing without parameters')
    b = case['b'] or [-1, 1]
    kw = {} if case['b'] is None else {'bounds': b}
    n.calculate(d, field=f, **kw)
    A = np.array(rows)
    lo, hi = A.min(0), A.max(0)
    if not case['meanstd'] and case['pat'] and (hi > lo).all():
        h.close([n.normalizePattern(np.array(r)) for r in case['other']], [[(v - l) / (u - l) * (b[1] - b[0]) + b[0] for v, l, u in zip(r, lo, hi)] for r in case['other']], 'normalized patterns')
    tol = 1e-9
    if case['file'] and not case['meanstd'] and (hi > lo).all():
        n.save('norm.txt')
        n = DataSetNormalizer('norm.txt')
        tol = 1e-4
        h.label('file')
    h.eq(n.dim, 3, 'dimension')
    n.normalize(d, f)
    n.normalize(e, f)
    for ds, rs, name in ((d, rows, 'the data set'), (e, case['other'], 'another data set')):
        if case['meanstd']:
            sd = A.std(0)
            want = [[(v - m) / (s if s > 0 else 1.) for v, m, s in zip(r, A.mean(0), sd)] for r in rs]
        else:
            want = [[(v - l) / (u - l) * (b[1] - b[0]) + b[0] if u > l else v - l + b[0] for v, l, u in zip(r, lo, hi)] for r in rs]
        h.close(ds[f], want, 'normalized values of ' + name, rtol=tol, atol=tol)
        h.eq([list(map(float, r)) for r in ds['target' if f == 'input' else 'input']], [row(i, 3) for i in range(len(rs))], 'the other field of ' + name)
        h.eq(len(ds), len(rs), 'length')
    n.dim = 3
    bad = SupervisedDataSet(2, 2)
    bad.addSample([1, 2], [3, 4])
    h.raises(IndexError, lambda: n.normalize(bad, f), 'normalizing data of another dimension')
    h.label('meanstd' if case['meanstd'] else 'range')
    h.nontrivial(len(rows) >= 3 and (hi > lo).all())


FACETS = {
    'classes': {'gen': gen, 'run': run, 'quick': 2500, 'thorough': 35000},
    'windows': {'gen': gen_win, 'run': run_win, 'quick': 1000, 'thorough': 15000},
    'nans': {'gen': gen_nan, 'run': run_nan, 'quick': 1000, 'thorough': 15000},
    'normalize': {'gen': gen_norm, 'run': run_norm, 'quick': 1500, 'thorough': 20000},
}
