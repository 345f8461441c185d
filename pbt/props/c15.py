"""C15: data sets survive files."""
RULE = ("data sets of every kind with 0-12 samples in 1-4 sequences, saved and loaded through files and file-like objects in every protocol (also compact), then "
        "extended; random sparse LIBSVM files; random IDX image and label files; non-trivial: at least 3 samples")
ASSUMPTIONS = ["feature indices within a LIBSVM line are increasing", "files are read by the same version of the code"]
KINDS = ['sup', 'unsup', 'seq', 'imp', 'reinf', 'class', 'seqclass', 'plain', 'many']


def gen(st):
    val = st.one_of(st.integers(-40, 40).map(lambda i: i / 4.0), st.sampled_from([1e-300, 1e300, 0.1, 1 / 3., -2.0 ** 60]))
    return st.fixed_dictionaries({'kind': st.sampled_from(KINDS), 'rows': st.lists(st.lists(val, min_size=6, max_size=6), max_size=12), 'cuts': st.lists(st.booleans(), min_size=12, max_size=12),
                                  'dims': st.lists(st.integers(1, 3), min_size=2, max_size=2), 'way': st.sampled_from(['file', 'file', 'like', 'base']), 'ext': st.sampled_from(['.ds', '.pickle', '', '.pkl', '.xml']),
                                  'protocol': st.sampled_from([None, 0, 1, 2]), 'compact': st.booleans(), 'vf': st.sampled_from(['none', 'none', '1d', '2d', 'list']), 'fmt': st.sampled_from([None, None, 'pickle', 'bogus']),
                                  'more': st.booleans(), 'labels': st.booleans()})


def build(case):
    from pybrain.datasets import (SupervisedDataSet, UnsupervisedDataSet, SequentialDataSet, ImportanceDataSet, ReinforcementDataSet, ClassificationDataSet, SequenceClassificationDataSet)
    from pybrain.datasets.dataset import DataSet
    di, dt = case['dims']
    k = case['kind']
    kw = {'class_labels': ['x', 'y', 'z']} if case['labels'] else {}
    d = {'sup': lambda: SupervisedDataSet(di, dt), 'unsup': lambda: UnsupervisedDataSet(di), 'seq': lambda: SequentialDataSet(di, dt), 'imp': lambda: ImportanceDataSet(di, dt),
         'reinf': lambda: ReinforcementDataSet(di, dt), 'class': lambda: ClassificationDataSet(di, 1, nb_classes=3, **kw), 'many': lambda: ClassificationDataSet(di, 1, nb_classes=3, **kw),
         'seqclass': lambda: SequenceClassificationDataSet(di, 1, nb_classes=3, **kw), 'plain': lambda: DataSet()}[k]()
    if k == 'plain':
        d.addField('u', di)
        d.addField('v', dt)
        d.addField('w', 2)
        d.linkFields(['u', 'v'])
    for i, r in enumerate(case['rows']):
        if k in ('seq', 'imp', 'reinf', 'seqclass') and case['cuts'][i] and len(d):
            d.newSequence()
        d.addSample(*sample(case, r)) if k != 'plain' else d.appendLinked(*sample(case, r))
        if k == 'plain' and i % 2:
            d.append('w', r[:2])
    if k in ('class', 'many'):
        d.assignClasses()
    if k == 'many' and case['rows']:
        d._convertToOneOfMany()
    return d


def sample(case, r):
    di, dt = case['dims']
    k = case['kind']
    a, b = r[:di], r[3:3 + dt]
    if k == 'unsup':
        return (a,)
    if k in ('class', 'many', 'seqclass'):
        return a, [int(abs(r[0])) % 3]
    if k == 'imp':
        return a, b, [abs(v) for v in b]
    if k == 'reinf':
        return a, b, [r[5]]
    return a, b


def content(d):
    return dict((l, ([list(map(float, r)) for r in d.getField(l)], d.getDimension(l))) for l in d.getFieldNames())


def run(case, h):
    import io
    d = build(case)
    d.vectorformat = case['vf'] if not case['compact'] or case['vf'] != 'list' else 'none'
    before = content(d)
    link, n = list(d.link), len(d)
    kw = {}
    if case['protocol'] is not None:
        kw['protocol'] = case['protocol']
    if case['compact']:
        kw['compact'] = True
    cls = type(d)
    fn = 'data' + case['ext']
    fmt = case['fmt']
    if fmt == 'bogus':
        h.raises(ValueError, lambda: d.saveToFileLike(io.BytesIO(), 'bogus'), 'an unknown format')
        h.raises(ValueError, lambda: d.saveToFile(fn, 'bogus'), 'an unknown format')
        h.raises(ValueError, lambda: cls.loadFromFileLike(io.BytesIO(b''), 'bogus'), 'an unknown format')
        fmt = 'pickle'
    if case['ext'] == '.xml' and fmt is None:
        fmt = 'pickle'
    if case['way'] == 'like':
        f = io.BytesIO()
        h.call('saveToFileLike', d.saveToFileLike, f, fmt, **kw)
        f.seek(0)
        e = h.call('loadFromFileLike', cls.loadFromFileLike, f, fmt)
    else:
        h.call('saveToFile', d.saveToFile, fn, fmt, **kw)
        from pybrain.datasets.dataset import DataSet
        e = h.call('loadFromFile', (cls if case['way'] == 'file' else DataSet).loadFromFile, fn, fmt)
        h.eq(e.filename, fn, 'name of the file')
    h.check(type(e) is cls, 'type of the loaded data set')
    for x, name in ((d, 'saved data set'), (e, 'loaded data set')):
        h.eq(len(x), n, name + ': length')
        h.eq(list(x.link), link, name + ': links')
        h.eq(content(x), before, name + ': fields')
        h.eq(x.vectorformat, d.vectorformat, name + ': vector format')
    for a in ('indim', 'outdim', 'dim', 'nClasses', 'class_labels', 'statedim', 'actiondim'):
        if hasattr(d, a):
            h.eq(getattr(e, a), getattr(d, a), 'attribute ' + a)
    if hasattr(d, 'getNumSequences'):
        h.eq([e.getSequenceLength(i) for i in range(e.getNumSequences())], [d.getSequenceLength(i) for i in range(d.getNumSequences())], 'lengths of the sequences')
    if link and case['kind'] != 'many':
        e.reset()
        h.eq(len([s for s in e]), len([s for s in d]), 'iteration')
    if case['more'] and case['kind'] != 'many':
        r = [1.5, 2.5, -3.5, 4.5, 5.5, 6.5]
        for x in (e, d):
            if hasattr(x, 'newSequence') and n:
                x.newSequence()
            for _ in range(3):
                x.addSample(*sample(case, r)) if case['kind'] != 'plain' else x.appendLinked(*sample(case, r))
        h.eq(content(e), content(d), 'fields after adding samples')
        h.eq(len(e), n + 3, 'length after adding samples')
    h.label(case['kind'], case['way'])
    h.nontrivial(n >= 3)


def gen_svm(st):
    line = st.fixed_dictionaries({'l': st.integers(-3, 9), 'f': st.dictionaries(st.integers(1, 8).map(str), st.integers(-40, 40).map(lambda i: i / 8.0), max_size=5)})
    return st.fixed_dictionaries({'lines': st.lists(line, min_size=1, max_size=8), 'plus': st.booleans(), 'nl': st.booleans(), 'way': st.sampled_from(['load', 'svmdata', 'raw'])})


def run_svm(case, h):
    from pybrain.datasets import ClassificationDataSet
    from pybrain.tools.svmdata import SVMData
    lines = [(l['l'], sorted((int(k), v) for k, v in l['f'].items())) for l in case['lines']]
    nf = max([k for _, f in lines for k, v in f] + [0])
    if nf == 0:
        h.discard()
    rows = [[dict(f).get(j, 0.0) for j in range(1, nf + 1)] for _, f in lines]
    if case['way'] == 'raw':
        with open('x_data', 'w') as fo, open('x_targets', 'w') as ft:
            for (l, f), r in zip(lines, rows):
                fo.write(' '.join(repr(v) for v in r) + '\n')
                ft.write(' '.join('1' if j == abs(l) % 4 else '0' for j in range(4)) + '\n')
        d = SVMData('x_data')
        h.eq([list(map(float, r)) for r in d['input']], rows, 'features')
        h.eq([float(t[0]) for t in d['target']], [float(abs(l) % 4) for l, _ in lines], 'labels')
        h.eq((d.getNbSamples(), d.getNbClasses()), (len(rows), 4), 'numbers of samples and classes')
    else:
        text = '\n'.join(' '.join([('+%d' % l if case['plus'] and l > 0 else '%d' % l)] + ['%d:%r' % kv for kv in f]) for l, f in lines) + ('\n' if case['nl'] else '')
        with open('x.svm', 'w') as fo:
            fo.write(text)
        if case['way'] == 'load':
            with open('x.svm') as fi:
                d = ClassificationDataSet.load_libsvm(fi)
            h.check(isinstance(d, ClassificationDataSet), 'type')
        else:
            d = SVMData('x.svm')
            h.eq(d.getNbSamples(), len(rows), 'number of samples')
            h.eq(d.getFileName(), 'x.svm', 'file name')
        h.eq([list(map(float, r)) for r in d['input']], rows, 'features')
        h.eq([float(t[0]) for t in d['target']], [float(l) for l, _ in lines], 'labels')
        h.eq(d.indim, nf, 'dimension')
    if case['way'] != 'load':
        ls = [float(t[0]) for t in d['target']]
        h.eq(dict((float(a), b) for a, b in d.getClassHistogram().items()), dict((l, ls.count(l)) for l in ls), 'class histogram')
    h.eq(len(d), len(rows), 'length')
    h.label(case['way'])
    h.nontrivial(len(rows) >= 3)


def gen_mnist(st):
    return st.fixed_dictionaries({'train': st.lists(st.integers(0, 9), max_size=4), 'test': st.lists(st.integers(0, 9), max_size=3), 'seed': st.integers(0, 10 ** 6), 'r': st.integers(1, 6), 'c': st.integers(1, 6), 'magic': st.booleans()})


def run_mnist(case, h):
    import struct, random, os
    from pybrain.tools.datasets import mnist
    rnd = random.Random(case['seed'])
    os.mkdir('m')

    def write(prefix, labels, r, c):
        ims = [[rnd.randint(0, 255) for _ in range(r * c)] for _ in labels]
        with open('m/%s-images-idx3-ubyte' % prefix, 'wb') as f:
            f.write(struct.pack('>iiii', 2051, len(labels), r, c) + b''.join(bytes(bytearray(i)) for i in ims))
        with open('m/%s-labels-idx1-ubyte' % prefix, 'wb') as f:
            f.write(struct.pack('>ii', 2049, len(labels)) + bytes(bytearray(labels)))
        return ims
    small = write('s', case['train'], case['r'], case['c'])
    h.eq([[int(v) for v in i] for i in mnist.images('m/s-images-idx3-ubyte')], small, 'images')
    h.eq([int(v) for v in mnist.labels('m/s-labels-idx1-ubyte')], case['train'], 'labels')
    with open('m/bad', 'wb') as f:
        f.write(struct.pack('>iiii', 17, 1, 1, 1) + b'x')
    h.raises(Exception, lambda: list(mnist.images('m/bad')), 'a file of another kind')
    h.raises(Exception, lambda: list(mnist.labels('m/bad')), 'a file of another kind')
    tr, te = write('train', case['train'], 28, 28), write('t10k', case['test'], 28, 28)
    a, b = mnist.makeMnistDataSets('m')
    for d, ims, ls, name in ((a, tr, case['train'], 'training'), (b, te, case['test'], 'test')):
        h.eq([[int(v) for v in i] for i in d['input']], ims, name + ' images')
        h.eq([[int(v) for v in t] for t in d['target']], [[int(j == l) for j in range(10)] for l in ls], name + ' labels')
    h.nontrivial(len(case['train']) >= 3)


FACETS = {
    'files': {'gen': gen, 'run': run, 'quick': 3000, 'thorough': 40000},
    'libsvm': {'gen': gen_svm, 'run': run_svm, 'quick': 1000, 'thorough': 15000},
    'mnist': {'gen': gen_mnist, 'run': run_mnist, 'quick': 200, 'thorough': 2000},
}
