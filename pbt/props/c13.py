"""C13: splits, batches and folds partition the data."""
RULE = ("data sets of 0-30 samples / 1-10 sequences of all kinds whose samples are tagged, split by proportion, by class, stratified, into batches and into "
        "cross validation folds; non-trivial: at least 4 samples and two non-empty parts")
ASSUMPTIONS = ["proportions in [0, 1]; test and validation fractions sum to at most 1", "classes are numbered from 0", "proportional splits of supervised data may be plain supervised data sets"]
CALLS = []


def gen_split(st):
    return st.fixed_dictionaries({'kind': st.sampled_from(['sup', 'seq', 'imp', 'reinf', 'seqclass', 'class']), 'n': st.integers(0, 30), 'p': st.integers(0, 20),
                                  'dims': st.lists(st.integers(1, 3), min_size=2, max_size=2), 'lens': st.lists(st.integers(1, 5), min_size=1, max_size=10),
                                  'open': st.booleans(), 'grow': st.booleans(), 'default': st.sampled_from([False, False, False, True])})


def row(i, d, k=0.0):
    return [i + 0.25 * j + k for j in range(1, d + 1)]


def tag(v):
    import numpy as np
    return int(np.floor(np.ravel(v)[0]))


def make_seq(case):
    from pybrain.datasets import SequentialDataSet, ImportanceDataSet, ReinforcementDataSet, SequenceClassificationDataSet
    kind, (di, dt) = case['kind'], case['dims']
    d = {'seq': SequentialDataSet, 'imp': ImportanceDataSet, 'reinf': ReinforcementDataSet}.get(kind)
    d = d(di, dt) if d else SequenceClassificationDataSet(di, 1, nb_classes=3)
    i, seqs = 0, []
    for n in case['lens']:
        d.newSequence()
        q = []
        for _ in range(n):
            s = [row(i, di), row(i, dt, .1) if kind != 'seqclass' else [i % 3]]
            if kind == 'imp':
                s.append(row(i, dt, .05))
            if kind == 'reinf':
                s.append([i + .5])
            d.addSample(*s)
            q.append(tuple(tuple(float(v) for v in x) for x in s))
            i += 1
        seqs.append(tuple(q))
    if case['open']:
        d.newSequence()
        seqs.append(())
    return d, seqs


def read_seqs(d):
    return [tuple(tuple(tuple(float(v) for v in x) for x in s) for s in q) for q in d]


def run_split(case, h):
    import numpy as np
    from pybrain.datasets import SupervisedDataSet, ClassificationDataSet
    p = 0.5 if case['default'] else case['p'] / 20.0
    kw = {} if case['default'] else {'proportion': p}
    kind, (di, dt) = case['kind'], case['dims']
    h.label(kind)
    if kind in ('sup', 'class'):
        d = SupervisedDataSet(di, dt) if kind == 'sup' else ClassificationDataSet(di, 1, nb_classes=3)
        n = case['n']
        want = []
        for i in range(n):
            s = (row(i, di), row(i, dt, .1) if kind == 'sup' else [i % 3])
            d.addSample(*s)
            want.append(tuple(tuple(float(v) for v in x) for x in s))
        l, r = d.splitWithProportion(**kw)
        read = lambda x: [tuple(tuple(float(v) for v in f) for f in s) for s in zip(x['input'], x['target'])]
        a, b = read(l), read(r)
        h.check(abs(len(a) - n * p) < 1 + 1e-9 and len(a) <= n, 'size of the left part: %d of %d at %g' % (len(a), n, p))
        h.eq((len(l), len(r)), (len(a), len(b)), 'lengths')
        h.seq(sorted(a + b), sorted(want), 'samples of both parts together')
        h.seq(read(d), want, 'the split data set')
        h.eq((l.indim, r.indim, l.outdim, r.outdim), (di, di, d.outdim, d.outdim), 'dimensions')
        if case['grow'] and a:
            l['input'][0][:] = 777
            l.addSample(row(n, di), [5] * d.outdim)
            h.seq(read(d), want, 'the split data set after changing a part')
            h.seq(read(r), b, 'the other part after changing a part')
            h.eq(len(l), len(a) + 1, 'length of the extended part')
            h.eq(read(l)[-1], (tuple(row(n, di)), (5.,) * d.outdim), 'the sample added to a part')
        h.nontrivial(n >= 4 and a and b)
        return
    d, seqs = make_seq(case)
    l, r = d.splitWithProportion(**kw)
    a, b = [q for q in read_seqs(l) if q], [q for q in read_seqs(r) if q]
    full = [q for q in seqs if q]
    h.seq(sorted(a + b), sorted(full), 'sequences of both parts together')
    h.check(abs(len(a) - len(seqs) * p) < 2 + 1e-9 if case['open'] else abs(len(a) - len(seqs) * p) < 1 + 1e-9, 'number of sequences in the left part')
    h.check(type(l) is type(d) and type(r) is type(d), 'class of the parts')
    order = dict((q, i) for i, q in enumerate(full))
    for part in (a, b):
        idx = [order[q] for q in part]
        h.eq(idx, sorted(idx), 'order of the sequences in a part')
    h.seq(read_seqs(d), seqs, 'the split data set')
    for part, want, name in ((l, a, 'left'), (r, b, 'right')):
        h.eq(len(part), sum(len(q) for q in want), 'number of samples in the %s part' % name)
        h.eq([part.getSequenceLength(i) for i in range(part.getNumSequences()) if part.getSequenceLength(i)], [len(q) for q in want], 'sequence lengths of the %s part' % name)
        for f in part.link:
            h.eq(len(part[f]), sum(len(q) for q in want), 'length of field %s of the %s part' % (f, name))
        h.eq((part.indim, part.outdim), (d.indim, d.outdim), 'dimensions of the %s part' % name)
        if kind == 'seqclass':
            h.eq((part.nClasses, list(part.class_labels)), (d.nClasses, list(d.class_labels)), 'classes of the %s part' % name)
    if case['grow'] and a:
        l['input' if kind != 'reinf' else 'state'][0][:] = 777
        k = [bool(q) for q in read_seqs(l)].index(True)
        l.removeSequence(k)
        h.seq([q for q in read_seqs(l) if q], a[1:], 'a part after removing its first sequence')
        h.eq(len(l), sum(len(q) for q in a[1:]), 'length of a part after removing a sequence')
        if len(r) and r.getSequenceLength(r.getNumSequences() - 1):
            r.newSequence()
        s = seqs[0][0] if seqs[0] else full[0][0]
        r.addSample(*s)
        h.seq([q for q in read_seqs(r) if q], b + [(s,)], 'a part after adding a sequence')
        h.seq(read_seqs(d), seqs, 'the split data set after changing a part')
    h.nontrivial(len(full) >= 4 and a and b)


def gen_class(st):
    return st.fixed_dictionaries({'cls': st.lists(st.integers(0, 3), min_size=0, max_size=25), 'di': st.integers(1, 3), 'sel': st.integers(0, 3), 'how': st.sampled_from(['add', 'arr', 'assigned', 'many', 'added']),
                                  'nb': st.booleans(), 'lens': st.lists(st.integers(1, 4), min_size=1, max_size=14), 'tst': st.integers(0, 20), 'val': st.integers(0, 20),
                                  'grow': st.booleans(), 'imp': st.booleans()})


def run_class(case, h):
    import numpy as np
    from pybrain.datasets import ClassificationDataSet
    cls, di = case['cls'], case['di']
    inp = [row(i, di) for i in range(len(cls))]
    nb = 4 if case['nb'] or len(set(cls)) != max(cls + [0]) + 1 else 0
    if case['how'] == 'arr' and cls:
        d = ClassificationDataSet(np.array(inp), np.array(cls).reshape(-1, 1), nb_classes=nb)
    else:
        d = ClassificationDataSet(di, 1, nb_classes=nb or 4)
        for i, c in zip(inp, cls):
            d.addSample(i, [c])
            if case['how'] == 'added':
                d.assignClasses()
    if case['how'] == 'assigned':
        d.assignClasses()
    if case['how'] == 'many' and cls:
        d._convertToOneOfMany()
    if case['imp']:
        d.setField('importance', np.array([[i + .75] for i in range(len(cls))], float).reshape(-1, 1))
    h.label(case['how'])
    sel = case['sel']
    tars = [list(map(float, t)) for t in d['target']]
    l, r = d.splitByClass(sel)
    for part, want, name in ((l, [i for i, c in enumerate(cls) if c == sel], 'selected class'), (r, [i for i, c in enumerate(cls) if c != sel], 'remaining classes')):
        h.eq([list(map(float, x)) for x in part['input']], [inp[i] for i in want], name + ': inputs')
        h.eq([list(map(float, x)) for x in part['target']], [tars[i] for i in want], name + ': targets')
        h.eq([int(x[0]) for x in part['class']], [cls[i] for i in want], name + ': classes')
        h.eq(len(part), len(want), name + ': length')
        if case['imp']:
            h.eq([float(x[0]) for x in part['importance']], [i + .75 for i in want], name + ': importance')
        h.check(isinstance(part, ClassificationDataSet), name + ': type')
        h.eq((part.indim, part.outdim), (d.indim, d.outdim), name + ': dimensions')
        h.eq((part.nClasses, [str(x) for x in part.class_labels]), (d.nClasses, [str(x) for x in d.class_labels]), name + ': class labels')
        if case['how'] != 'many' and case['grow']:
            part.addSample([3.] * di, [sel])
            h.eq(len(part), len(want) + 1, name + ': length after adding')
            part.assignClasses()
            h.eq([int(x[0]) for x in part['class']], [cls[i] for i in want] + [sel], name + ': classes after adding')
            hist = part.calculateStatistics()
            h.eq(dict((int(k), int(v)) for k, v in hist.items()), dict((c, ([cls[i] for i in want] + [sel]).count(c)) for c in range(d.nClasses)), name + ': histogram after adding')
    h.eq([list(map(float, x)) for x in d['input']], inp, 'inputs of the split data set')
    h.eq([list(map(float, x)) for x in d['target']], tars, 'targets of the split data set')
    h.nontrivial(len(cls) >= 4 and 0 < cls.count(sel) < len(cls))


def run_strat(case, h):
    import numpy as np
    from pybrain.datasets import SequenceClassificationDataSet
    di = case['di']
    d = SequenceClassificationDataSet(di, 1, nb_classes=4)
    i, want = 0, []
    cl = case['cls'] or [0]
    for j, n in enumerate(case['lens']):
        d.newSequence()
        c = cl[j % len(cl)]
        q = []
        for k in range(n):
            d.addSample(row(i, di), [c if k == n - 1 else (c + k) % 4])
            q.append(tuple(row(i, di)))
            i += 1
        want.append((c, tuple(q)))
    d.assignClasses()
    t, v = case['tst'] / 20., case['val'] / 20.
    if t + v > 1:
        v = 1 - t
    if v <= 0:
        v = 0
    parts = d.stratifiedSplit(testfrac=t, evalfrac=v)
    h.check(len(parts) in (2, 3), 'number of parts')
    read = lambda x: [(int(x.getSequence(k)[1][-1][0]), tuple(tuple(float(u) for u in s) for s in x.getSequence(k)[0])) for k in range(x.getNumSequences()) if len(x.getSequence(k)[0])]
    got = [read(x) for x in parts]
    h.seq(sorted(sum(got, [])), sorted(want), 'sequences of all parts together')
    for c in range(4):
        n = len([1 for q in want if q[0] == c])
        for name, k, frac in (('training', 0, 1 - t - v), ('test', 1, t), ('validation', 2, v)):
            if k < len(got):
                m = len([1 for q in got[k] if q[0] == c])
                h.check(abs(m - n * frac) < (2 if k == 0 else 1) + 1e-9, '%s: %d of %d sequences of class %d at fraction %g' % (name, m, n, c, frac))
    if len(got) == 2:
        h.check(all(int(v * len([1 for q in want if q[0] == c]) + 1e-9) == 0 or v == 0 or abs(v * len([1 for q in want if q[0] == c]) - 1) < 1e-6 for c in range(4)), 'no validation set')
    for x, g in zip(parts, got):
        h.eq((x.nClasses, len(x), type(x) is type(d), x.indim), (4, sum(len(q[1]) for q in g), True, di), 'classes, length, kind and dimension of a part')
        h.eq([int(u[0]) for u in x['class']], [int(u[0]) for u in x['target']], 'class field of a part')
        x.newSequence()
        x.addSample([1.] * di, [2])
        h.seq(read(x), g + [(2, ((1.,) * di,))], 'a part after adding a sequence')
    for g in got:
        h.eq([q[0] for q in g], sorted(q[0] for q in g), 'sequences sorted by class')
    h.seq(read(d), want, 'the split data set')
    h.nontrivial(len(want) >= 4 and got[0] and got[1])


def gen_batch(st):
    return st.fixed_dictionaries({'n': st.integers(0, 25), 'b': st.integers(1, 12), 'dims': st.lists(st.integers(1, 3), min_size=2, max_size=2), 'perm': st.one_of(st.none(), st.permutations(list(range(25)))),
                                  'random': st.booleans(), 'lazy': st.booleans(), 'kind': st.sampled_from(['sup', 'unsup', 'plain'])})


def run_batch(case, h):
    import numpy as np
    from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet
    from pybrain.datasets.dataset import DataSet
    di, dt = case['dims']
    n, b = case['n'], case['b']
    rows = [row(i, di) for i in range(n)]
    if case['kind'] == 'sup':
        d, label = SupervisedDataSet(di, dt), 'input'
        for r in rows:
            d.addSample(r, [1.] * dt)
    elif case['kind'] == 'unsup':
        d, label = UnsupervisedDataSet(di), 'sample'
        for r in rows:
            d.addSample(r)
    else:
        d, label = DataSet(), 'f'
        d.addField('f', di)
        for r in rows:
            d.append('f', r)
    chunks = [rows[i:i + b] for i in range(0, n, b)]
    read = lambda it: [[list(map(float, r)) for r in x] for x in it]
    if case['random']:
        seen = set()
        for _ in range(6):
            got = read(d.randomBatches(label, b))
            h.seq(sorted(got), sorted(chunks), 'random batches')
            seen.add(str(got))
        if len(chunks) >= 5:
            h.check(len(seen) > 1, 'random batches always come in the same order')
        h.label('random')
    elif case['perm'] is not None:
        p = [i for i in case['perm'] if i < len(chunks)]
        got = read(d.batches(label, b, iter(p) if case['lazy'] else p))
        h.seq(got, [chunks[i] for i in p], 'permuted batches')
        h.label('permuted')
    else:
        h.seq(read(d.batches(label, b)), chunks, 'batches')
    h.nontrivial(n >= 4 and len(chunks) > 1)


def gen_cv(st):
    return st.fixed_dictionaries({'n': st.integers(2, 30), 'folds': st.sampled_from([2, 3, 4, 5, 5, 6, 7, 8]), 'dims': st.lists(st.integers(1, 2), min_size=2, max_size=2), 'epochs': st.sampled_from([None, 1, 3]),
                                  'kind': st.sampled_from(['sup', 'class', 'seq'])})


class StubModule(object):
    pass


class StubTrainer(object):
    def __init__(self):
        self.module = StubModule()
        self.module.trained = []
        self.ds = None

    def setData(self, ds):
        self.ds = ds

    def train(self):
        self.module.trained.append((1, self.ds))

    def trainEpochs(self, n=1):
        self.module.trained.append((n, self.ds))


def run_cv(case, h):
    from pybrain.datasets import SupervisedDataSet, ClassificationDataSet, SequentialDataSet
    from pybrain.tools.validation import CrossValidator
    n, k = case['n'], case['folds']
    if n <= k:
        h.discard()
    di, dt = case['dims']
    if case['kind'] == 'class':
        d = ClassificationDataSet(di, 1, nb_classes=3)
        want = [(row(i, di), [float(i % 3)]) for i in range(n)]
    else:
        d = SupervisedDataSet(di, dt) if case['kind'] == 'sup' else SequentialDataSet(di, dt)
        want = [(row(i, di), row(i, dt, .1)) for i in range(n)]
    for s in want:
        d.addSample(*s)
    read = lambda x: [(list(map(float, a)), list(map(float, b))) for a, b in zip(x['input'], x['target'])]
    folds = []

    def val(module, test):
        folds.append((module, read(test)))
        return len(folds) ** 2

    tr = StubTrainer()
    kw = {} if case['epochs'] is None else {'max_epochs': case['epochs']}
    if k != 5 or n % 2:
        kw['n_folds'] = k
    res = CrossValidator(tr, d, valfunc=val, **kw).validate()
    h.eq(len(folds), k, 'number of folds')
    h.close(res, sum(i * i for i in range(1, k + 1)) / float(k), 'mean of the validation results')
    h.seq(sorted(sum((t for _, t in folds), [])), sorted(want), 'test samples of all folds together')
    for i, (m, t) in enumerate(folds):
        h.check(n // k <= len(t) <= n // k + 1, 'size of test part %d: %d' % (i, len(t)))
        h.eq(len(m.trained), 1, 'trainings of the module of fold %d' % i)
        h.eq(m.trained[0][0], case['epochs'] or 1, 'training epochs')
        h.seq(sorted(read(m.trained[0][1])), sorted(s for s in want if s not in t), 'training samples of fold %d' % i)
    h.eq(tr.module.trained, [], 'the original trainer is not trained')
    h.eq(read(d), want, 'the data set')
    h.nontrivial(n >= 4 and k > 1)


FACETS = {
    'split': {'gen': gen_split, 'run': run_split, 'quick': 2000, 'thorough': 30000},
    'byclass': {'gen': gen_class, 'run': run_class, 'quick': 1500, 'thorough': 20000},
    'stratified': {'gen': gen_class, 'run': run_strat, 'quick': 1500, 'thorough': 20000},
    'batches': {'gen': gen_batch, 'run': run_batch, 'quick': 1500, 'thorough': 20000},
    'folds': {'gen': gen_cv, 'run': run_cv, 'quick': 800, 'thorough': 8000},
}
