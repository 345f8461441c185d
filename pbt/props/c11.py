"""C11: DataSet is a faithful table of linked and unlinked fields (stateful, against a model)."""
import pickle
RULE = ("histories of 1-25 operations (add, append, link, unlink, set, convert, read in all vector formats, iterate, clear, copy, pickle) on plain, "
        "unsupervised and supervised data sets; non-trivial: at least 3 stored rows and 5 operations")
ASSUMPTIONS = ["indices are non-negative", "fields that are set while linked keep the common length", "values appended to a field converted to integers are integers"]
LABELS = ['input', 'target', 'a', 'b', 'sample']


def gen(st):
    val = st.integers(-40, 40).map(lambda i: i / 4.0)
    lab = st.integers(0, 9)
    rows = st.lists(val, min_size=3, max_size=3)
    f = st.fixed_dictionaries
    K = lambda name, **k: f(dict(k, op=st.just(name)))
    how = st.integers(0, 2)
    op = st.one_of(
        K('add', rows=st.lists(rows, min_size=1, max_size=3), how=how), K('add', rows=st.lists(rows, min_size=1, max_size=9), how=how),
        K('append', lab=lab, row=rows, how=how), K('append', lab=lab, row=rows, how=how), K('addField', lab=lab, dim=st.integers(1, 3)),
        K('setField', lab=lab, n=st.integers(0, 5), rows=st.lists(rows, min_size=5, max_size=5), dim=st.integers(1, 3)),
        K('setall', n=st.integers(0, 5), rows=st.lists(rows, min_size=5, max_size=5)),
        K('link', labs=st.lists(lab, min_size=1, max_size=3, unique=True)), K('unlink', labs=st.one_of(st.none(), st.lists(lab, min_size=1, max_size=2))),
        K('get', i=st.integers(0, 12)), K('next', n=st.integers(1, 4)), K('next', n=st.integers(1, 4)), K('iter', n=st.integers(0, 12)), K('reset'),
        K('clear', unlinked=st.booleans()), K('copy', how=st.integers(0, 3), cont=st.booleans()), K('vf', vf=st.sampled_from(['1d', '2d', 'list', 'none', 'bogus'])),
        K('convert', lab=lab), K('bad', n=st.integers(0, 1)), K('end'))
    return f({'kind': st.sampled_from(['plain', 'plain', 'unsup', 'sup', 'sup', 'suparr']), 'dims': st.lists(st.integers(1, 3), min_size=2, max_size=2),
              'init': st.lists(rows, max_size=4), 'ops': st.integers(2, 25).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))})


class Model(object):
    def __init__(self):
        self.f, self.dim, self.link, self.index, self.vf, self.ints = {}, {}, [], 0, 'none', set()

    def copy(self):
        m = Model()
        m.f = dict((k, [list(r) for r in v]) for k, v in self.f.items())
        m.dim, m.link, m.index, m.vf, m.ints = dict(self.dim), list(self.link), self.index, self.vf, set(self.ints)
        return m

    def length(self):
        if self.link:
            return len(self.f[self.link[0]])
        return max([len(v) for v in self.f.values()] or [0])


def formatted(h, got, row, vf, what):
    import numpy as np
    if vf == 'list':
        h.check(isinstance(got, list), what + ': not a list')
        h.seq(got, row, what)
    elif vf == '2d':
        h.close(got, [row], what)
    else:
        h.check(isinstance(got, np.ndarray), what + ': not an array')
        h.close(got, row, what)


def compare(h, d, m, what):
    from pybrain.datasets.dataset import NoLinkedFieldsError
    h.eq(len(d), m.length(), what + ': len')
    h.eq(d.getLength(), m.length(), what + ': getLength')
    h.eq(sorted(d.getFieldNames()), sorted(m.f), what + ': field names')
    h.eq(list(d.link), m.link, what + ': linked fields')
    h.eq(d.vectorformat, m.vf, what + ': vector format')
    for l in LABELS:
        h.eq(bool(d.hasField(l)), l in m.f, what + ': hasField')
    for l in m.f:
        h.eq(d.getDimension(l), m.dim[l], what + ': dimension of ' + l)
        got = d.getField(l)
        if m.vf == 'list':
            h.check(isinstance(got, list), what + ': field not a list')
        h.seq([list(map(float, r)) for r in got], m.f[l], '%s: field %s' % (what, l))
        h.eq([list(map(float, r)) for r in d[l]], m.f[l], '%s: field %s by []' % (what, l))
    if not m.link:
        h.raises(NoLinkedFieldsError, lambda: d.getLinked(0), what + ': getLinked without linked fields')


def run(case, h):
    import numpy as np, copy
    from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet
    from pybrain.datasets.dataset import DataSet, OutOfSyncError, NoLinkedFieldsError, VectorFormatError
    m = Model()
    kind = case['kind']
    di, dt = case['dims']
    if kind == 'plain':
        d = DataSet()
    elif kind == 'unsup':
        d = UnsupervisedDataSet(di)
        m.f['sample'], m.dim['sample'], m.link = [], di, ['sample']
    elif kind == 'sup':
        d = SupervisedDataSet(di, dt)
    else:
        d = SupervisedDataSet(np.array([r[:di] for r in case['init']], float).reshape(-1, di), np.array([r[::-1][:dt] for r in case['init']], float).reshape(-1, dt))
    if kind[:3] == 'sup':
        m.f = {'input': [], 'target': []}
        m.dim = {'input': di, 'target': dt}
        m.link = ['input', 'target']
        if kind == 'suparr':
            m.f['input'] = [r[:di] for r in case['init']]
            m.f['target'] = [r[::-1][:dt] for r in case['init']]
    shadows = []
    total = 0

    def conv(row, how):
        a = np.array(row, float)
        return [list(row), tuple(row), a][how]

    def put(l, row):
        row = [float(int(v)) for v in row] if l in m.ints else list(row)
        return row[:m.dim[l]]

    for k, o in enumerate(case['ops']):
        n = o['op']
        what = 'step %d %s' % (k, n)
        kinds = dict((l, np.asarray(d.getField(l)).dtype.kind) for l in m.f) if m.vf != 'list' and n in ('add', 'append') else {}
        labs = sorted(m.f)
        pick = lambda i: (labs if labs and i < 8 else LABELS)[i % len(labs if labs and i < 8 else LABELS)]
        if n == 'add':
            if not m.link:
                continue
            for r in o['rows']:
                vals = [put(l, r[i:] + r[:i]) for i, l in enumerate(m.link)]
                args = [conv(v, o['how']) for v in vals]
                if kind != 'plain' and len(m.link) == (1 if kind == 'unsup' else 2) and k % 2:
                    d.addSample(*args)
                else:
                    d.appendLinked(*args)
                for a in args:
                    if isinstance(a, np.ndarray):
                        a[:] = 99
                for l, v in zip(m.link, vals):
                    m.f[l].append(v)
                total += 1
        elif n == 'append':
            l = pick(o['lab'])
            if l not in m.f:
                continue
            v = put(l, o['row'])
            if l in m.link:
                h.raises(OutOfSyncError, lambda: d.append(l, v), what + ': append to a linked field')
            else:
                a = conv(v, o['how'])
                d.append(l, a)
                if isinstance(a, np.ndarray):
                    a[:] = 99
                m.f[l].append(v)
                total += 1
        elif n == 'addField':
            l = LABELS[o['lab'] % len(LABELS)]
            if l in m.link:
                continue
            d.addField(l, o['dim'])
            m.f[l], m.dim[l] = [], o['dim']
            m.ints.discard(l)
        elif n == 'setField':
            l = pick(o['lab'])
            nrow = len(m.f[m.link[0]]) if l in m.link else o['n']
            if nrow > 5:
                continue
            rows = [r[:o['dim']] for r in o['rows'][:nrow]]
            arr = np.array(rows, float).reshape(nrow, o['dim'])
            d.setField(l, arr)
            m.f[l], m.dim[l] = rows, o['dim']
            m.ints.discard(l)
            if kind[:3] == 'sup' and l in ('input', 'target'):
                h.eq(d.indim if l == 'input' else d.outdim, o['dim'], what + ': dimension attribute')
        elif n == 'setall':
            for l in m.link:
                rows = [r[:m.dim[l]] for r in o['rows'][:o['n']]]
                d.setField(l, np.array(rows, float).reshape(o['n'], m.dim[l]))
                m.f[l] = rows
                m.ints.discard(l)
        elif n == 'link':
            ls = []
            for i in o['labs']:
                if pick(i) in m.f and pick(i) not in ls:
                    ls.append(pick(i))
            if not ls:
                continue
            if len(set(len(m.f[l]) for l in ls)) > 1:
                h.raises(OutOfSyncError, lambda: d.linkFields(list(ls)), what + ': linking fields of different length')
            else:
                d.linkFields(list(ls))
                m.link = ls
        elif n == 'unlink':
            if o['labs'] is None:
                d.unlinkFields()
                m.link = []
            else:
                ls = [pick(i) for i in o['labs']]
                d.unlinkFields(ls)
                m.link = [l for l in m.link if l not in ls]
        elif n == 'get':
            if not m.link:
                continue
            i = o['i']
            if i >= m.length():
                h.raises(IndexError, lambda: d.getLinked(i), what + ': index beyond the end')
                d.reset()
                m.index = 0
            else:
                r = d.getSample(i) if kind != 'plain' and k % 2 else d.getLinked(i)
                h.eq(len(r), len(m.link), what + ': number of fields')
                for l, v in zip(m.link, r):
                    formatted(h, v, m.f[l][i], m.vf, what + ' ' + l)
                m.index = i + 1
        elif n == 'next':
            for j in range(o['n']):
                if not m.link:
                    h.raises(NoLinkedFieldsError, lambda: d.getLinked(), what)
                elif m.index >= m.length():
                    h.raises(IndexError, lambda: d.getLinked(), what + ': read past the end')
                    d.reset()
                    m.index = 0
                else:
                    r = d.getLinked()
                    for l, v in zip(m.link, r):
                        formatted(h, v, m.f[l][m.index], m.vf, what + ' ' + l)
                    m.index += 1
        elif n == 'iter':
            if not m.link:
                continue
            i = 0
            for r in d:
                h.check(i < m.length(), what + ': too many samples')
                for l, v in zip(m.link, r):
                    formatted(h, v, m.f[l][i], m.vf, what + ' ' + l)
                i += 1
                if i >= o['n'] > 0:
                    break
            h.eq(i, min(m.length(), o['n'] or m.length()), what + ': number of samples')
            m.index = i
        elif n == 'reset':
            d.reset()
            m.index = 0
        elif n == 'end':
            if m.index <= m.length():
                h.eq(bool(d.endOfData()), m.index == m.length(), what)
        elif n == 'clear':
            d.clear(o['unlinked'])
            for l in (m.link if m.link and not o['unlinked'] else list(m.f)):
                m.f[l] = []
                m.ints.discard(l)
            m.index = 0
        elif n == 'copy':
            c = [d.copy, lambda: pickle.loads(pickle.dumps(d, 2)), lambda: copy.deepcopy(d), lambda: pickle.loads(pickle.dumps(d, 0))][o['how']]
            c = h.call(what, c)
            h.check(type(c) is type(d) and c is not d, what + ': type of the copy')
            mc = m.copy()
            if kind[:3] == 'sup':
                h.eq((c.indim, c.outdim), (d.indim, d.outdim), what + ': dimensions of the copy')
            if o['cont']:
                shadows.append((d, m, 'original of ' + what))
                d, m = c, mc
            else:
                shadows.append((c, mc, 'copy of ' + what))
            d.reset()
            m.index = 0
        elif n == 'vf':
            if o['vf'] == 'bogus':
                def bad():
                    d.vectorformat = 'bogus'
                h.raises(VectorFormatError, bad, what)
            else:
                d.vectorformat = o['vf']
                m.vf = o['vf']
        elif n == 'convert':
            l = pick(o['lab'])
            if l not in m.f:
                h.raises(KeyError, lambda: d.convertField(l, int), what + ': unknown field')
                h.raises(KeyError, lambda: d.getDimension(l), what + ': unknown field')
            else:
                d.convertField(l, int)
                h.check(np.asarray(d.getField(l)).dtype.kind in 'i' or m.vf == 'list', what + ': type')
                m.f[l] = [[float(int(v)) for v in r] for r in m.f[l]]
                m.ints.add(l)
        elif n == 'bad':
            if m.link:
                h.raises(Exception, lambda: d.appendLinked(*([[1.0]] * (len(m.link) + 1))), what + ': too many values')
                if o['n']:
                    h.raises(Exception, lambda: d.appendLinked(*([[1.0]] * (len(m.link) - 1))), what + ': too few values')
        compare(h, d, m, what)
        for l in kinds:
            h.eq(np.asarray(d.getField(l)).dtype.kind, kinds[l], what + ': adding rows changed the type of field ' + l)
        str(d)
        h.label(n)
    for sd, sm, what in shadows:
        compare(h, sd, sm, what + ' at the end')
    if shadows:
        h.label('shadow')
    h.nontrivial(total >= 3 and len(case['ops']) >= 5)


def gen_scalar(st):
    return st.fixed_dictionaries({'vals': st.lists(st.integers(-40, 40).map(lambda i: i / 4.0), min_size=1, max_size=6), 'vf': st.lists(st.sampled_from(['1d', '2d', 'list', 'none']), min_size=1, max_size=5),
                                  'two': st.booleans()})


def run_scalar(case, h):
    """fields that hold plain numbers: every vector format turns each of them into a vector of that format"""
    import numpy as np
    from pybrain.datasets.dataset import DataSet
    d = DataSet()
    d.setField('a', list(case['vals']))
    if case['two']:
        d.setField('b', np.array(case['vals'])[::-1])
    d.linkFields(['a', 'b'] if case['two'] else ['a'])
    n = len(case['vals'])
    h.eq(len(d), n, 'length')
    for k, vf in enumerate(case['vf']):
        d.vectorformat = vf
        i = (k * 3 + 1) % n
        got = d.getLinked(i)
        h.eq(len(got), 1 + case['two'], 'linked values')
        for g, v in zip(got, (case['vals'][i], case['vals'][n - 1 - i])):
            if vf == 'list':
                h.check(isinstance(g, list), 'not a list')
                h.seq(g, [v], 'number as list')
            elif vf == '2d':
                h.close(g, [[v]], 'number in 2d format')
            elif vf == '1d':
                h.close(g, [v], 'number in 1d format')
            else:
                h.close(g, v, 'number without format')
        h.label(vf)
    h.nontrivial(n >= 2 and '2d' in case['vf'])


FACETS = {'table': {'gen': gen, 'run': run, 'quick': 5000, 'thorough': 70000},
          'scalars': {'gen': gen_scalar, 'run': run_scalar, 'quick': 400, 'thorough': 4000}}
