"""C19: early stopping keeps the best validated parameters."""
import itertools
from . import trainlib as L
RULE = ("small networks trained until convergence by back-propagation (batch) and RProp on explicit or internally split data of all kinds, with random epoch limits, patience and thresholds, "
        "on nets whose validation error falls, rises or oscillates; the regression and classification training tools with and without test and validation data; "
        "non-trivial: at least 3 epochs and the best epoch is not the last")
ASSUMPTIONS = ["the first epoch is always accepted, as documented in the code", "the twin trainer that replays the epochs takes the steps of C17/C18", "tools stop within one increment of maxepochs"]


def gen(st):
    v = st.integers(-8, 8).map(lambda i: i / 8.0)
    rows = st.lists(st.lists(st.lists(v, min_size=6, max_size=6), min_size=1, max_size=2), min_size=1, max_size=3)
    return st.fixed_dictionaries(dict(L.spec(st, maxseq=3, maxlen=2), val=rows, rprop=st.booleans(), lr=st.sampled_from([0.02, 0.3, 1.5]), d0=st.sampled_from([0.05, 0.4]), maxE=st.sampled_from([None, 1, 2, 3, 5, 8, 13]),
                                      cont=st.sampled_from([1, 2, 2, 3, 4, 10]), thr=st.sampled_from([10, 10, 3, 1]), split=st.booleans(), prop=st.sampled_from([0.25, 0.5, 0.4]), passds=st.booleans(), again=st.booleans()))


def run(case, h):
    import numpy as np
    from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
    net, d, seqs = L.make(case)
    valid = L.dataset(dict(case, seqs=case['val']), net.indim, net.outdim)
    splits = []
    big = L.dataset(dict(case, seqs=case['seqs'] * 2 + case['val']), net.indim, net.outdim)
    base = big.splitWithProportion

    def record(p=0.5):
        r = base(p)
        splits.append((p, r))
        return r
    big.splitWithProportion = record
    mk = (lambda n, ds: RPropMinusTrainer(n, dataset=ds, delta0=case['d0'])) if case['rprop'] else (lambda n, ds: BackpropTrainer(n, ds, learningrate=case['lr'], batchlearning=True))
    main = big if case['split'] else L.dataset(case, net.indim, net.outdim)
    tr = mk(net, main)
    twin = net.copy()
    tt = mk(twin, main)
    kw = {'continueEpochs': case['cont'], 'convergence_threshold': case['thr'], 'verbose': False}
    kw['maxEpochs'] = case['maxE'] if case['maxE'] is not None or (case['rprop'] is False and case['lr'] < 1) else 40
    if kw['maxEpochs'] is None:
        # the error of a small rate converges slowly: a coarse threshold ends it
        kw['convergence_threshold'] = 2
    rounds = 2 if case['again'] else 1
    best, worse = False, False
    for r in range(rounds):
        args = {}
        if case['split']:
            args['validationProportion'] = case['prop']
            if case['passds']:
                args['dataset'] = big
        else:
            args.update(trainingData=d, validationData=valid)
        start = np.array(net.params)
        del splits[:]
        if case['split']:
            n = big.getNumSequences() if case['kind'] != 'sup' else len(big)
        try:
            a, b = tr.trainUntilConvergence(**dict(args, **kw))
        except ValueError:
            # nothing to train on, or to validate with
            h.check(case['split'] and (not len(splits[0][1][0]) or not len(splits[0][1][1])), 'training data is refused')
            h.eq(list(net.params), list(start), 'parameters after training was refused')
            return
        except Exception:
            # numbers overflow when a large rate makes the training diverge; the twin sees that, too
            tt.setData(splits[0][1][0] if case['split'] else d)
            for e in range(60):
                tt.train()
                if not (abs(np.array(twin.params)) < 1e6).all():
                    h.discard()
            raise
        if case['split']:
            h.eq(len(splits), 1, 'number of splits of the data')
            h.close(splits[0][0], 1 - case['prop'], 'proportion of the training data')
            td, vd = splits[0][1]
            h.check(len(td) and len(vd), 'training with empty data')
        else:
            td, vd = d, valid
        h.check(tr.ds is main or tr.ds is args.get('dataset'), 'the data set of the trainer is restored')
        # replay
        tt.setData(td)
        verr, terr, ps = [tt.testOnData(vd)], [], [start.copy()]
        E = len(tr.trainingErrors)
        h.check(E >= 1, 'at least one epoch')
        h.check(kw['maxEpochs'] is None or E <= kw['maxEpochs'], 'trained %d epochs, at most %r allowed' % (E, kw['maxEpochs']))
        for e in range(E):
            terr.append(tt.train())
            verr.append(tt.testOnData(vd))
            ps.append(np.array(twin.params))
            if len(verr) >= 2 * case['cont']:
                old, new = verr[-2 * case['cont']:-case['cont']], verr[-case['cont']:]
                t = kw['convergence_threshold']
                rnd = [round(y, t) for y in new]
                must = min(new) > max(old) + 1e-9 * abs(max(old)) or all(x == rnd[-1] for x in rnd)
                near = any(abs(abs(y * 10 ** t) % 1 - 0.5) < 1e-4 for y in new)
                may = min(new) >= max(old) - 1e-9 * abs(max(old)) or near or abs(sum(x - rnd[-1] for x in rnd)) < 1e-12 * (1 + abs(sum(rnd)))
            else:
                must = may = near = False
            last = e == E - 1
            if not last and must and not near:
                h.fail('epoch %d: training goes on although the validation errors converged or rise: %s' % (e, verr))
            if last and E != kw['maxEpochs'] and not may:
                h.fail('training stopped after epoch %d without a reason: %s' % (e, verr))
        h.close(tr.trainingErrors, terr, 'training errors', rtol=1e-6, atol=1e-9)
        h.close(tr.validationErrors, verr, 'validation errors', rtol=1e-6, atol=1e-9)
        h.eq(tr.totalepochs, tt.totalepochs, 'number of epochs')
        h.check(list(a) == list(tr.trainingErrors[:len(a)]) and list(b) == list(tr.validationErrors[:len(b)]), 'returned errors are those of the first epochs')
        m = min(verr[1:])
        cand = [i for i in range(1, E + 1) if verr[i] <= m + 1e-9 * abs(m)]
        if not any(np.allclose(ps[i], net.params, rtol=1e-6, atol=1e-9) for i in cand):
            h.fail('parameters after training are %s, best validation error was after epochs %s: %s' % (list(net.params), cand, [list(ps[i]) for i in cand]))
        h.close(tr.testOnData(vd), m, 'validation error of the final network', rtol=1e-6, atol=1e-12)
        best = best or cand[0] < E
        worse = worse or E >= 3
        # go on from there
        twin.params[:] = net.params
        if len(cand) > 1:
            break
    h.label('best before last' if best else 'best is last', 'limit' if E == kw['maxEpochs'] else 'converged')
    h.nontrivial(best and worse)


# ------------------------------------------------------------------ training tools
def gen_tools(st):
    v = st.integers(-8, 8).map(lambda i: i / 8.0)
    rows = lambda a, b: st.lists(st.lists(v, min_size=4, max_size=4), min_size=a, max_size=b)
    return st.fixed_dictionaries({'cls': st.booleans(), 'tr': rows(3, 6), 'ts': st.one_of(st.none(), rows(3, 4)), 'vs': st.one_of(st.none(), rows(3, 3)), 'hidden': st.integers(1, 3), 'hset': st.booleans(), 'inc': st.integers(1, 3),
                                  'max': st.integers(1, 6), 'conv': st.integers(0, 2), 'rprop': st.booleans(), 'seed': st.integers(0, 10 ** 6), 'rnn': st.booleans(), 'lr': st.sampled_from([0.05, 1.0])})


def run_tools(case, h):
    import os, tempfile, shutil, logging, csv
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import numpy as np
    logging.disable(logging.CRITICAL)
    from pybrain.tools.neuralnets import NNregression, NNclassifier
    from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
    from pybrain.datasets import SupervisedDataSet, ClassificationDataSet, SequenceClassificationDataSet
    from pybrain.tools.customxml import NetworkReader
    from pybrain.tools.validation import Validator
    rnn = case['rnn'] and case['cls']

    def data(rows):
        if rows is None:
            return None
        if not case['cls']:
            d = SupervisedDataSet(2, 1)
            for r in rows:
                d.addSample(r[:2], r[2:3])
            return d
        if rnn:
            d = SequenceClassificationDataSet(2, 1, nb_classes=3)
            for i, r in enumerate(rows):
                d.newSequence()
                d.appendLinked(r[:2], [i % 3])
                d.appendLinked(r[1:3], [i % 3])
            return d
        d = ClassificationDataSet(2, 1, nb_classes=3)
        for i, r in enumerate(rows):
            d.appendLinked(r[:2], [i % 3])
        return d
    D, T, V = data(case['tr']), data(case['ts']), data(case['vs'])
    kw = {'epoinc': case['inc'], 'maxepochs': case['max']}
    if T is not None:
        kw['TDS'] = T
    if V is not None:
        kw['VDS'] = V
    if case['hset']:
        kw['hidden'] = case['hidden']
    nn = (NNclassifier if case['cls'] else NNregression)(D, **kw)
    states, epochs = [], [0]

    class Rec(RPropMinusTrainer if case['rprop'] and not rnn else BackpropTrainer):
        def trainEpochs(self, n=1, *a, **k):
            super(Rec, self).trainEpochs(n, *a, **k)
            epochs[0] += n
            states.append(np.array(self.module.params))
    args = {} if issubclass(Rec, RPropMinusTrainer) else {'learningrate': case['lr']}
    if not case['hset']:
        args['hidden'] = case['hidden']
    (nn.setupRNN if rnn else nn.setupNN)(trainer=Rec, **args)
    net = nn.Trainer.module
    rs = np.random.RandomState(case['seed'] % 2 ** 31)
    net.params[:] = rs.uniform(-1, 1, net.paramdim)
    h.eq((net.indim, net.outdim), (2, 3 if case['cls'] else 1), 'dimensions of the network')
    if case['cls']:
        for x in (D, T, V):
            if x is not None:
                h.eq(x.outdim, 3, 'targets are one-of-many')
                h.check(all(sum(t) == 1 and max(t) == 1 for t in x['target']), 'targets are one-of-many')
    nn.runTraining(convergence=case['conv'])
    scratch = net.copy()

    def error(p, ds):
        scratch.params[:] = p
        if not case['cls']:
            return float(np.mean([(scratch.activate(i)[0] - t[0]) ** 2 for i, t in ds]))
        if rnn:
            wrong = tot = 0
            for q in range(ds.getNumSequences()):
                scratch.reset()
                s, last = 0, None
                for smp in ds.getSequenceIterator(q):
                    s = s + scratch.activate(smp[0])
                    last = smp[1]
                o = np.sort(s)
                if o[-1] - o[-2] < 1e-9:
                    return None
                wrong += np.argmax(s) != np.argmax(last)
                tot += 1
            return 100.0 * wrong / tot
        wrong = 0
        for smp in ds:
            scratch.reset()
            y = scratch.activate(smp[0])
            o = np.sort(y)
            if o[-1] - o[-2] < 1e-9:
                return None
            wrong += np.argmax(y) != np.argmax(smp[1])
        return 100.0 * wrong / len(ds)
    n = len(states)
    h.eq(epochs[0], n * case['inc'], 'epochs per increment')
    tst = [error(p, T) for p in states] if T is not None else []
    trn = [error(p, D) for p in states]
    if None in tst or None in trn:
        h.label('tie')
        return
    # the convergence rule
    count, bestn = 0, 0
    b = float('inf')
    for i, e in enumerate(tst):
        if e < b - 1e-12:
            b, bestn, count = e, i, 0
        else:
            if e < b + 1e-12 and e != b:
                return
            count += 1
        if case['conv'] > 0 and count >= case['conv']:
            h.eq(i, n - 1, 'training stops when the test error has not improved for %d increments: %s' % (case['conv'], tst))
            break
    else:
        h.check((n - 1) * case['inc'] <= case['max'] <= n * case['inc'], 'trained %d epochs with maxepochs=%d' % (n * case['inc'], case['max']))
    want = states[bestn] if T is not None and V is not None else states[-1]
    h.close(net.params, want, 'parameters after training', rtol=0, atol=1e-12)
    x, y, z = nn.trainCurve
    h.eq(list(x), [case['inc'] * i for i in range(n + 1)], 'epochs of the training curve')
    h.close(y[1:], trn, 'training errors of the curve', rtol=1e-7, atol=1e-9)
    if T is not None:
        h.close(z[1:], tst, 'test errors of the curve', rtol=1e-7, atol=1e-9)
    tmp = tempfile.mkdtemp()
    try:
        f = os.path.join(tmp, 'curve.csv')
        nn.saveTrainingCurve(f)
        got = [[float(c) for c in r] for r in csv.reader(open(f)) if r]
        want = [[x[i], y[i]] + ([z[i]] if T is not None else []) for i in range(1, n + 1)]
        h.eq(len(got), n, 'rows of the saved curve')
        for g, w in zip(got, want):
            h.close(g, w, 'row of the saved curve', rtol=1e-9, atol=1e-9)
        f = os.path.join(tmp, 'net.xml')
        nn.saveNetwork(f)
        m = NetworkReader.readFrom(f)
        h.close(m.params, net.params, 'parameters of the saved network', rtol=1e-12)
    finally:
        shutil.rmtree(tmp)
    h.label('rnn' if rnn else 'cls' if case['cls'] else 'reg')
    h.nontrivial(n >= 2 and (not tst or bestn < n - 1))


FACETS = {
    'converge': {'gen': gen, 'run': run, 'quick': 700, 'thorough': 10000},
    'tools': {'gen': gen_tools, 'run': run_tools, 'quick': 250, 'thorough': 3000},
}
