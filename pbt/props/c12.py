"""C12: sequential data sets keep every sequence apart, through any history (stateful, against a model)."""
import pickle
RULE = ("histories of 2-25 operations (new sequences, samples, removal of sequences, marker movement, clear, copy, pickle) on sequential, importance, "
        "reinforcement and sequence classification data sets; non-trivial: at least two sequences and 4 samples at some point")
ASSUMPTIONS = ["sequence indices are non-negative", "removing the last sequence reopens the one before it", "class of a sequence is asked only while no sequence is empty", "the class field, reward sums and removal are used with array formats, not lists"]


def gen(st):
    val = st.integers(-40, 40).map(lambda i: i / 4.0)
    row = st.lists(val, min_size=9, max_size=9)
    f = st.fixed_dictionaries
    K = lambda name, **k: f(dict(k, op=st.just(name)))
    idx = st.integers(0, 7)
    op = st.one_of(K('add', rows=st.lists(row, min_size=1, max_size=4)), K('seq', rows=st.lists(row, min_size=1, max_size=5)), K('seq', rows=st.lists(row, min_size=1, max_size=2)),
                   K('new'), K('remove', i=idx), K('remove', i=idx), K('goto', i=idx, n=st.integers(0, 4)), K('get', i=idx), K('sum'), K('clear'),
                   K('copy', how=st.integers(0, 2), cont=st.booleans()), K('vf', vf=st.sampled_from(['none', '1d', '2d', 'list'])))
    return f({'kind': st.sampled_from(['seq', 'imp', 'reinf', 'seqclass']), 'dims': st.lists(st.integers(1, 3), min_size=2, max_size=2),
              'ops': st.integers(2, 25).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))})


class Model(object):
    def __init__(self):
        self.seqs, self.index = [[]], 0

    def copy(self):
        m = Model()
        m.seqs = [[tuple(map(tuple, s)) for s in q] for q in self.seqs]
        return m

    def flat(self):
        return [s for q in self.seqs for s in q]

    def starts(self):
        r, n = [], 0
        for q in self.seqs:
            r.append(n)
            n += len(q)
        return r


def tup(s):
    import numpy as np
    return tuple(tuple(float(v) for v in np.ravel(x)) for x in s)


def compare(h, d, m, kind, what):
    flat = m.flat()
    h.eq(len(d), len(flat), what + ': len')
    h.eq(d.getNumSequences(), len(m.seqs), what + ': number of sequences')
    for i, q in enumerate(m.seqs):
        h.eq(d.getSequenceLength(i), len(q), what + ': length of sequence %d' % i)
        got = d.getSequence(i)
        h.eq(len(got), 2 if kind in ('seq', 'seqclass') else 3, what + ': fields of a sequence')
        h.seq([tup(s) for s in zip(*got)], q, what + ': sequence %d' % i)
        h.seq([tup(s) for s in d.getSequenceIterator(i)], q, what + ': samples of sequence %d' % i)
    for i in (len(m.seqs), len(m.seqs) + 3):
        for fn in (d.getSequence, d.getSequenceLength, d.endOfSequence, d.gotoSequence, d.removeSequence):
            h.raises(IndexError, lambda: fn(i), what + ': %s of a missing sequence' % fn.__name__)
    its = [[tup(s) for s in q] for q in d]
    h.eq(its, m.seqs, what + ': iteration')
    for l, k in zip(d.link, range(3)):
        h.seq([tuple(float(v) for v in r) for r in d.getField(l)], [s[k] for s in flat], what + ': field ' + l)


def run(case, h):
    import numpy as np, copy
    from pybrain.datasets import SequentialDataSet, ImportanceDataSet, ReinforcementDataSet, SequenceClassificationDataSet
    from pybrain.datasets.sequential import EmptySequenceError
    kind = case['kind']
    di, dt = case['dims']
    if kind == 'seq':
        d = SequentialDataSet(di, dt)
    elif kind == 'imp':
        d = ImportanceDataSet(di, dt)
    elif kind == 'reinf':
        d = ReinforcementDataSet(di, dt)
    else:
        dt = 1
        d = SequenceClassificationDataSet(di, 1, nb_classes=4)
    m = Model()
    shadows = []
    good = False

    def sample(r, j):
        inp, tar = tuple(r[:di]), tuple(r[3:3 + dt])
        if kind == 'seq':
            return (inp, tar), (inp, tar)
        if kind == 'imp':
            if j % 2:
                return (inp, tar), (inp, tar, (1.0,) * dt)
            imp = tuple(abs(v) for v in r[6:6 + dt])
            return (inp, tar, np.array(imp) if j % 4 else imp), (inp, tar, imp)
        if kind == 'reinf':
            return (inp, tar, (r[8],)), (inp, tar, (r[8],))
        c = float(int(abs(r[8])) % 4)
        return (inp, (c,)), (inp, (c,))

    def add(rows):
        for r in rows:
            args, want = sample(r, len(m.flat()))
            d.addSample(*args)
            m.seqs[-1].append(want)

    def new(what):
        if not m.flat():
            d.newSequence()
        elif not m.seqs[-1]:
            h.raises(EmptySequenceError, d.newSequence, what + ': new sequence after an empty one')
        else:
            d.newSequence()
            m.seqs.append([])

    vf = 'none'
    for k, o in enumerate(case['ops']):
        n = o['op']
        what = 'step %d %s' % (k, n)
        if n == 'add':
            add(o['rows'])
        elif n == 'seq':
            new(what)
            add(o['rows'])
        elif n == 'new':
            new(what)
        elif n == 'remove':
            i = o['i'] % len(m.seqs)
            if vf == 'list':
                d.vectorformat = vf = 'none'
            d.removeSequence(i)
            st = m.starts()[i]
            del m.seqs[i]
            if not m.seqs:
                m.seqs = [[]]
            h.eq(int(d.index), min(st, len(m.flat())), what + ': marker after removal')
            if not m.flat():
                # nothing left: one open sequence
                if len(m.seqs) > 1:
                    h.fail(what + ': model')
                m.seqs = [[]]
        elif n == 'goto':
            i = o['i'] % len(m.seqs)
            d.gotoSequence(i)
            pos = m.starts()[i]
            flat = m.flat()
            for j in range(o['n'] + 1):
                # which sequence does the marker point into: the last one starting at or before it
                cur = max(q for q, s in enumerate(m.starts()) if s <= pos)
                h.eq(int(d.getCurrentSequence()), cur, what + ': current sequence at %d' % pos)
                for q in range(len(m.seqs)):
                    end = m.starts()[q] + len(m.seqs[q])
                    if q < len(m.seqs) - 1 or pos <= end:
                        h.eq(bool(d.endOfSequence(q)), pos >= end, what + ': end of sequence %d at %d' % (q, pos))
                if j == o['n'] or pos >= len(flat):
                    break
                h.eq(tup(d.getSample()), flat[pos], what + ': sample %d' % pos)
                pos += 1
        elif n == 'get':
            flat = m.flat()
            if flat:
                i = (o['i'] * 3) % len(flat)
                h.eq(tup(d.getSample(i)), flat[i], what)
        elif n == 'sum':
            if kind == 'reinf' and vf != 'list':
                for j, l in enumerate(['state', 'action', 'reward']):
                    want = [[sum(s[j][c] for s in q) for c in range(len(q[0][j]) if q else {0: di, 1: dt, 2: 1}[j])] for q in m.seqs]
                    h.close(d.getSumOverSequences(l), want, what + ': sums of ' + l)
            elif kind == 'seqclass' and all(m.seqs) and vf != 'list':
                d.assignClasses()
                want = [q[-1][1][0] for q in m.seqs]
                h.close(d.getSequenceClass(), want, what + ': classes of the sequences')
                h.close([d.getSequenceClass(i) for i in range(len(m.seqs))], want, what + ': class of each sequence')
                h.raises(IndexError, lambda: d.getSequenceClass(len(m.seqs)), what + ': class of a missing sequence')
        elif n == 'clear':
            d.clear()
            m.seqs = [[]]
        elif n == 'copy':
            c = [d.copy, lambda: pickle.loads(pickle.dumps(d, 2)), lambda: copy.deepcopy(d)][o['how']]
            c = h.call(what, c)
            h.check(type(c) is type(d), what + ': type')
            mc = m.copy()
            if o['cont']:
                shadows.append((d, m, what + ' original'))
                d, m = c, mc
            else:
                shadows.append((c, mc, what + ' copy'))
        elif n == 'vf':
            if kind == 'seqclass' and o['vf'] == 'list':
                continue
            d.vectorformat = vf = o['vf']
        compare(h, d, m, kind, what)
        good = good or (len(m.seqs) >= 2 and len(m.flat()) >= 4)
        h.label(kind + '/' + n)
    for sd, sm, what in shadows:
        compare(h, sd, sm, kind, what + ' at the end')
    h.nontrivial(good)


def gen_long(st):
    return st.fixed_dictionaries({'kind': st.sampled_from(['seq', 'imp', 'reinf', 'seqclass']), 'dims': st.lists(st.integers(1, 2), min_size=2, max_size=2),
                                  'lens': st.lists(st.one_of(st.integers(1, 6), st.integers(60, 400)), min_size=1, max_size=4), 'seed': st.integers(0, 9999), 'rem': st.integers(0, 5)})


def run_long(case, h):
    """long sequences: contents, lengths, sums, classes and removal, by direct comparison"""
    import numpy as np
    from pybrain.datasets import SequentialDataSet, ImportanceDataSet, ReinforcementDataSet, SequenceClassificationDataSet
    kind = case['kind']
    di, dt = case['dims'] if kind != 'seqclass' else (case['dims'][0], 1)
    r = np.random.RandomState(case['seed'])
    d = {'seq': SequentialDataSet, 'imp': ImportanceDataSet, 'reinf': ReinforcementDataSet}.get(kind)
    d = d(di, dt) if d else SequenceClassificationDataSet(di, 1, nb_classes=3)
    seqs = []
    for n in case['lens']:
        d.newSequence()
        cols = [r.randint(-50, 50, (n, di)) / 4., (r.randint(0, 3, (n, 1)) if kind == 'seqclass' else r.randint(-50, 50, (n, dt)) / 4.)]
        cols += [r.randint(0, 9, (n, dt)) / 2.] if kind == 'imp' else [r.randint(-9, 9, (n, 1)) / 2.] if kind == 'reinf' else []
        for t in range(n):
            d.addSample(*[c[t] for c in cols])
        seqs.append(cols)

    def compare(what):
        h.eq(d.getNumSequences(), len(seqs), 'number of sequences' + what)
        h.eq(len(d), sum(len(q[0]) for q in seqs), 'length' + what)
        start = 0
        for k, q in enumerate(seqs):
            h.eq(d.getSequenceLength(k), len(q[0]), 'sequence length' + what)
            for a, b in zip(d.getSequence(k), q):
                h.close(np.asarray(a, float), np.asarray(b, float), 'sequence' + what)
            it = list(d.getSequenceIterator(k))
            h.eq(len(it), len(q[0]), 'length of the iteration over a sequence' + what)
            h.close(np.ravel(it[-1][0]), q[0][-1], 'last sample of the iteration' + what)
            d.gotoSequence(k)
            h.eq(d.index, start, 'position after moving to a sequence' + what)
            for t in range(len(q[0])):
                h.check(not d.endOfSequence(k), 'end of sequence too early' + what)
                got = d.getLinked()
                if t % 37 == 0 or t == len(q[0]) - 1:
                    h.close(np.ravel(got[0]), q[0][t], 'sample read in order' + what)
                    h.eq(d.getCurrentSequence(), k if t < len(q[0]) - 1 or k == len(seqs) - 1 else k + 1, 'current sequence' + what)
            h.check(d.endOfSequence(k), 'end of sequence' + what)
            start += len(q[0])
        if kind == 'reinf':
            for f, k in (('reward', 2), ('state', 0), ('action', 1)):
                h.close(d.getSumOverSequences(f), [np.sum(q[k], 0) for q in seqs], 'sums of ' + f + what)
        if kind == 'seqclass':
            d.assignClasses()
            h.seq([int(c) for c in d.getSequenceClass()], [int(q[1][-1, 0]) for q in seqs], 'classes of the sequences' + what)
    compare('')
    if len(seqs) > 1:
        k = case['rem'] % len(seqs)
        d.removeSequence(k)
        del seqs[k]
        compare(' after removing one')
    h.label(kind)
    h.nontrivial(max(case['lens']) > 100)


FACETS = {'sequences': {'gen': gen, 'run': run, 'quick': 3000, 'thorough': 45000},
          'long': {'gen': gen_long, 'run': run_long, 'quick': 120, 'thorough': 1500}}
