"""C35: Evolino networks, populations, operators and trainer; self-organizing maps; mixtures of Gaussians."""
RULE = ("random Evolino networks, genomes, sequences and population histories, random maps and input streams, random mixtures and reward streams; compared with metamorphic relations, least squares optimality, a dictionary model of the population and the update formulas; non-trivial: more than one cell, individual, sequence or neuron")
ASSUMPTIONS = ["sequences are long enough to leave at least one washout and one training step", "fitness comparisons are made on finite fitness values", "the order of weights inside one chromosome is not prescribed"]
F = lambda a, b: dict(min_value=a, max_value=b, allow_nan=False, width=32)


def gen_net(st):
    return st.fixed_dictionaries({'out': st.integers(1, 3), 'hid': st.integers(1, 4), 'seed': st.integers(0, 10 ** 6), 'len': st.one_of(st.integers(1, 8), st.integers(9, 30)), 'gen': st.one_of(st.integers(1, 8), st.integers(9, 30)), 'cut': st.integers(0, 8), 'bp': st.sampled_from([None, 0.5, 0.0, 1.0]), 'scale': st.sampled_from([0.1, 1.0, 3.0]), 'cell': st.integers(0, 3)})


def run_net(case, h):
    import numpy as np
    from pybrain.structure.modules.evolinonetwork import EvolinoNetwork
    d, n = case['out'], case['hid']
    r = np.random.RandomState(case['seed'])
    net = EvolinoNetwork(d, n)
    if case['bp'] is not None:
        net.backprojectionFactor = case['bp']
    g0 = net.getGenome()
    h.eq(len(g0), n, 'one chromosome per cell')
    for c in g0:
        h.eq(len(c), 4 * (d + 1 + n), 'a chromosome holds all the weights into one cell')
    genome = [[float(x) for x in case['scale'] * r.randn(len(c))] for c in g0]
    given = [list(c) for c in genome]
    net.setGenome(given)
    h.eq(given, genome, 'the given genome is left alone')
    h.close(np.array(net.getGenome()), np.array(genome), 'genome round trip', rtol=0, atol=0)
    W = r.randn(d, n)
    net.setOutputWeightMatrix(W)
    h.close(net.getOutputWeightMatrix(), W, 'output weights round trip', rtol=0, atol=0)
    h.close(np.array(net.getGenome()), np.array(genome), 'output weights are not part of the genome', rtol=0, atol=0)
    seq = r.randn(case['len'], d)
    keep = seq.copy()
    net.reset()
    phi = np.array(net.washout(seq))
    h.eq(phi.shape, (case['len'], n), 'one raw output row per step')
    h.close(seq, keep, 'the sequence is left alone', rtol=0, atol=0)
    h.check((abs(phi) <= 1 + 1e-12).all(), 'cell outputs are bounded')
    G = case['gen']
    cont = np.array(net.generate(G))
    h.eq(cont.shape, (G, d), 'generated shape')
    ext = np.array(net.extrapolate(seq, G))
    h.close(ext, cont, 'extrapolation is reset, washout and generation')
    h.close(np.array(net.extrapolate(seq, G)), ext, 'extrapolation does not depend on the history')
    net.reset()
    h.close(np.array(net.washout(seq)), phi, 'washout after a reset is repeatable')
    # the first generated value is the linear read-out of the next raw output
    net.reset()
    full = np.array(net.washout(np.concatenate([seq, ext])))
    h.close(full[:case['len']], phi, 'washout is causal')
    h.close(full[case['len']:].dot(W.T), ext, 'generated values are the read-out of the hidden state')
    k = min(case['cut'], G - 1)
    if k:
        h.close(np.array(net.extrapolate(np.concatenate([seq, ext[:k]]), G - k)), ext[k:], 'feeding back its own outputs continues the same sequence')
    # raw outputs do not depend on the read-out weights
    net.setOutputWeightMatrix(r.randn(d, n))
    net.reset()
    h.close(np.array(net.washout(seq)), phi, 'washout ignores the output weights')
    net.setOutputWeightMatrix(W)
    # a second network with the same genome and weights is the same predictor
    net2 = EvolinoNetwork(d, n)
    net2.backprojectionFactor = net.backprojectionFactor
    net2.setGenome(net.getGenome())
    net2.setOutputWeightMatrix(net.getOutputWeightMatrix())
    h.close(np.array(net2.extrapolate(seq, G)), ext, 'genome and output weights determine the network')
    # a chromosome belongs to one cell
    c = case['cell'] % n
    g = [list(x) for x in genome]
    g[c] = [float(x) for x in r.randn(len(g[c]))]
    net2.setGenome(g)
    net2.reset()
    p2 = np.array(net2.washout(seq[:1]))[0]
    others = [i for i in range(n) if i != c]
    h.close(p2[others], phi[0][others], 'other cells ignore the chromosome in the first step')
    if case['scale'] >= 1:
        h.check(abs(p2[c] - phi[0][c]) > 1e-12, 'the chromosome determines its cell')
    if net.backprojectionFactor == 0:
        net.reset()
        alt = np.array(net.washout(r.randn(case['len'], d)))
        h.close(alt, phi, 'without backprojection the inputs do not matter')
        h.label('nobackprojection')
    elif case['len'] > 1:
        net.reset()
        s2 = seq.copy()
        s2[0] += 1.0
        alt = np.array(net.washout(s2))
        h.close(alt[0], phi[0], 'a target is seen one step later')
        h.check(abs(alt[1] - phi[1]).max() > 1e-14, 'targets are fed back')
    h.raises((NotImplementedError,), lambda: net.activate(np.zeros(d)), 'single activations are not supported')
    h.label('hid:%d' % n)
    if n > 1 and case['len'] > 1:
        h.nontrivial()


def gen_train(st):
    return st.fixed_dictionaries({'out': st.integers(1, 2), 'hid': st.integers(1, 3), 'seed': st.integers(0, 10 ** 6), 'lens': st.lists(st.integers(6, 14), min_size=1, max_size=3), 'sub': st.one_of(st.integers(1, 6), st.integers(7, 9)), 'par': st.sampled_from([None, 1, 2, 'all']), 'comb': st.integers(1, 3), 'wt': st.sampled_from([None, [1, 2], [1, 1], 0.5, 0.25, [2.0, 1.0]]), 'epochs': st.integers(1, 3), 'burst': st.sampled_from([None, 1, 2]), 'bp': st.sampled_from([None, 0.1, 0.0]), 'custom': st.booleans(), 'api': st.booleans()})


def run_train(case, h):
    import numpy as np
    from pybrain.datasets.sequential import SequentialDataSet
    from pybrain.structure.modules.evolinonetwork import EvolinoNetwork
    from pybrain.supervised.trainers.evolino import EvolinoTrainer
    d = case['out']
    r = np.random.RandomState(case['seed'])
    import random
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 31)
    ds = SequentialDataSet(0, d)
    for L in case['lens']:
        ds.newSequence()
        ph = r.rand(d) * 6
        for t in range(L):
            ds.addSample([], np.sin(ph + t * 0.7) + 0.3 * r.randn(d))
    net = EvolinoNetwork(d, case['hid'])
    kw = {}
    if case['par'] is not None:
        kw['nParents'] = case['sub'] if case['par'] == 'all' else min(case['par'], case['sub'])
    if case['wt'] is not None:
        kw['wtRatio'] = tuple(case['wt']) if isinstance(case['wt'], list) else case['wt']
    if case['burst'] is not None:
        kw['nBurstMutationEpochs'] = case['burst']
    if case['bp'] is not None:
        kw['backprojectionFactor'] = case['bp']
    calls = []
    if case['custom']:
        def ev(out, tgt):
            v = -float(abs(np.asarray(out) - np.asarray(tgt)).max())
            calls.append(v)
            return v
        kw['evalfunc'] = ev
    tr = EvolinoTrainer(net, ds, subPopulationSize=case['sub'], nCombinations=case['comb'], initialWeightRange=(-1.0, 1.0), mutationAlpha=0.05, **kw)
    w = case['wt'] if case['wt'] is not None else [1, 3]
    frac = w[0] / float(sum(w)) if isinstance(w, list) else w
    seqs = [np.array(ds.getSequence(i)[1]) for i in range(len(case['lens']))]
    cuts = [int(frac * len(s)) for s in seqs]
    # rounding of the ratio may go either way when it hits an integer exactly
    if any(abs(frac * len(s) - round(frac * len(s))) < 1e-9 and int(frac * len(s)) != int(round(frac * len(s))) for s in seqs):
        h.discard()
    h.eq(net.backprojectionFactor, case['bp'] if case['bp'] is not None else 0.01, 'backprojection factor')
    n0 = 0
    for e in range(case['epochs']):
        if case['api']:
            tr.trainEpochs(1)
        else:
            tr.train()
        h.eq(tr.totalepochs, e + 1, 'epochs are counted')
        outs, tgts, phis = [], [], []
        for s, c in zip(seqs, cuts):
            outs.append(np.array(net.extrapolate(s[:c], len(s) - c)))
            tgts.append(s[c:])
        for s, c in zip(seqs, cuts):
            net.reset()
            net.washout(s[:c])
            phis.append(np.array(net.washout(s[c:])))
        out, tgt, phi = np.concatenate(outs), np.concatenate(tgts), np.concatenate(phis)
        if case['custom']:
            h.eq(len(calls) - n0, case['comb'] * case['sub'], 'every assembled individual is evaluated once')
            exp = -abs(out - tgt).max()
            h.close(tr.evaluation.max_fitness, max(calls[n0:]), 'the best fitness of the epoch is reported', rtol=1e-12, atol=0)
            n0 = len(calls)
        else:
            exp = -((out - tgt) ** 2).mean()
        if abs(out).max() < 1e3:
            h.close(tr.evaluation.max_fitness, exp, 'the network carries the best individual of the epoch', rtol=1e-6, atol=1e-9)
        else:
            h.label('diverging')
        W = np.array(net.getOutputWeightMatrix())
        res = phi.dot(W.T) - tgt
        best = phi.dot(np.linalg.lstsq(phi, tgt, rcond=1e-12)[0]) - tgt
        h.check((res ** 2).sum() <= (best ** 2).sum() * (1 + 1e-6) + 1e-9, 'the read-out is a least squares solution')
    h.raises((NotImplementedError,), lambda: tr.trainOnDataset(ds), 'only epochs are supported')
    h.label('wt:%s' % (case['wt'],))
    h.label('sequences:%d' % len(seqs))
    if case['sub'] > 1 and len(seqs) > 1:
        h.nontrivial()


def gen_pop(st):
    op = st.one_of(st.tuples(st.just('add'), st.integers(0, 7)), st.tuples(st.just('addmany'), st.lists(st.integers(0, 7), max_size=4)), st.tuples(st.just('remove'), st.integers(0, 7)), st.tuples(st.just('removemany'), st.integers(0, 3)), st.tuples(st.just('fit'), st.integers(0, 7), st.integers(-5, 5)), st.tuples(st.just('fit'), st.integers(0, 7), st.sampled_from([0, -1e5, -1e4 - 1, 1e6, 1e-4])), st.tuples(st.just('all'), st.integers(-3, 3)), st.tuples(st.just('clear')), st.tuples(st.just('worst'), st.integers(0, 9)), st.tuples(st.just('look'), st.integers(0, 9)))
    return st.lists(op, min_size=1, max_size=25)


def run_pop(case, h):
    from pybrain.supervised.evolino.gpopulation import SimplePopulation

    class Ind(object):
        def __init__(self, k):
            self.k = k
    inds = [Ind(k) for k in range(8)]
    p = SimplePopulation()
    m = {}
    NI = float('-inf')
    for op in case:
        op = list(op)
        o = op[0]
        if o == 'add':
            p.addIndividual(inds[op[1]])
            m[op[1]] = NI
        elif o == 'addmany':
            p.addIndividuals([inds[i] for i in op[1]])
            m.update((i, NI) for i in op[1])
        elif o == 'remove' and op[1] in m:
            p.removeIndividual(inds[op[1]])
            del m[op[1]]
        elif o == 'removemany':
            ks = sorted(m)[:op[1]]
            p.removeIndividuals([inds[i] for i in ks])
            for i in ks:
                del m[i]
        elif o == 'fit' and op[1] in m:
            p.setIndividualFitness(inds[op[1]], op[2])
            m[op[1]] = op[2]
        elif o == 'all' and m:
            for n, k in enumerate(sorted(m)):
                p.setIndividualFitness(inds[k], (n * 3) % 5 + op[1])
                m[k] = (n * 3) % 5 + op[1]
            h.close(p.getAverageFitness(), sum(m.values()) / float(len(m)), 'average fitness of all')
        elif o == 'clear':
            p.clearFitness()
            for k in m:
                m[k] = NI
        elif o == 'worst':
            p.removeWorstIndividuals(op[1])
            left = set(i.k for i in p.getIndividuals())
            h.check(left <= set(m), 'only members remain')
            h.eq(len(left), max(0, len(m) - op[1]), 'the number of individuals removed')
            gone = [m[k] for k in m if k not in left]
            h.check(not gone or not left or max(gone) <= min(m[k] for k in left), 'the least fit are removed')
            m = dict((k, m[k]) for k in left)
            h.label('worst:%d' % min(op[1], 1))
        elif o == 'look':
            n = op[1]
            fits = sorted(m.values(), reverse=True)
            s = p.getSortedIndividualList()
            h.eq(sorted(i.k for i in s), sorted(m), 'ranking holds everybody')
            h.eq([m[i.k] for i in s], fits, 'ranking is by falling fitness')
            b = p.getBestIndividualsSorted(n)
            h.eq([m[i.k] for i in b], fits[:n], 'best individuals')
            bs = p.getBestIndividuals(n)
            h.eq(sorted((m[i.k] for i in bs), reverse=True), fits[:n], 'set of best individuals')
            w = p.getWorstIndividuals(n)
            h.eq(sorted(m[i.k] for i in w), sorted(m.values())[:n], 'worst individuals')
            if m:
                h.eq(p.getMaxFitness(), fits[0], 'maximal fitness')
                if NI not in fits:
                    h.close(p.getAverageFitness(), sum(fits) / float(len(fits)), 'average fitness')
                h.label('looked')
                if len(m) > 2:
                    h.nontrivial()
        h.eq(p.getIndividualsN(), len(m), 'size')
        got = p.getIndividuals()
        h.eq(sorted(i.k for i in got), sorted(m), 'members')
        h.eq(dict((i.k, f) for i, f in p.getFitnessMap().items()), m, 'fitness map')
        for k in m:
            h.eq(p.getIndividualFitness(inds[k]), m[k], 'fitness of a member')
        got.clear()
        p.getFitnessMap().clear()
        h.eq(p.getIndividualsN(), len(m), 'containers are handed out as copies')


def gen_evo(st):
    return st.fixed_dictionaries({'chrom': st.one_of(st.lists(st.integers(1, 4), min_size=1, max_size=3), st.lists(st.integers(1, 2), min_size=4, max_size=8)), 'fscale': st.sampled_from([1.0, 1.0, 1e4, 1e-3]), 'nested': st.booleans(), 'size': st.integers(1, 9), 'comb': st.integers(1, 3), 'par': st.sampled_from([None, 1, 2, 3, 'all']), 'fits': st.lists(st.integers(-20, 20), min_size=30, max_size=30), 'seed': st.integers(0, 10 ** 6), 'rng': st.sampled_from([[-0.1, 0.1], [2.0, 3.0], [0.0, 1.0]]), 'burst': st.booleans(), 'alpha': st.sampled_from([0.0, 1e-6])})


def run_evo(case, h):
    import copy
    import random
    from pybrain.supervised.evolino.population import EvolinoPopulation
    from pybrain.supervised.evolino.individual import EvolinoIndividual, EvolinoSubIndividual
    from pybrain.supervised.evolino.filter import EvolinoSelection, EvolinoReproduction, EvolinoBurstMutation
    from pybrain.supervised.evolino.gfilter import Randomization
    from pybrain.supervised.evolino.variate import GaussianVariate, UniformVariate
    random.seed(case['seed'])
    N = case['size']

    def chrom(n):
        return [0.5] * n if not case['nested'] else [[0.5] * n, 0.25, []]
    genome = [chrom(n) for n in case['chrom']]
    orig = copy.deepcopy(genome)
    lo, hi = case['rng']
    proto = EvolinoSubIndividual(genome)
    pop = EvolinoPopulation(proto, N, case['comb'], Randomization(lo, hi))

    def leaves(x):
        return [v for y in x for v in leaves(y)] if isinstance(x, list) else [x]

    def shape(x):
        return [shape(y) for y in x] if isinstance(x, list) else 0
    h.eq(genome, orig, 'the prototype is left alone')
    sps = pop.getSubPopulations()
    h.eq(len(sps), len(genome), 'one subpopulation per chromosome')
    for sp, g in zip(sps, orig):
        h.eq(sp.getIndividualsN(), N, 'subpopulation size')
        h.eq(sp.getMaxNIndividuals(), N, 'subpopulation capacity')
        for i in sp.getIndividuals():
            h.eq(shape(i.getGenome()), shape(g), 'the shape of the prototype')
            h.check(all(lo <= v <= hi for v in leaves(i.getGenome())), 'initial weights lie in the range')
        h.eq(len(set(tuple(leaves(i.getGenome())) for i in sp.getIndividuals())), N, 'members are initialised individually')
    inds = pop.getIndividuals()
    h.eq(len(inds), N * case['comb'], 'number of assembled individuals')
    cnt = {}
    for ind in inds:
        subs = ind.getSubIndividuals()
        h.eq(len(subs), len(sps), 'one part from each subpopulation')
        for sp, s in zip(sps, subs):
            h.check(s in sp.getIndividuals(), 'parts come from their subpopulation in order')
            cnt[s] = cnt.get(s, 0) + 1
        h.eq(ind.getGenome(), [s.getGenome() for s in subs], 'the genome is the list of chromosomes')
        g = ind.getGenome()
        g[0][0] = 99.0
        h.check(99.0 not in leaves(subs[0].getGenome()), 'the genome is handed out as a copy')
    h.check(all(v == case['comb'] for v in cnt.values()) and len(cnt) == N * len(sps), 'every part is used equally often')
    # fitness propagation
    best = {}
    for k, ind in enumerate(inds):
        f = (case['fits'][k % 30] + 0.01 * k) * case['fscale']
        pop.setIndividualFitness(ind, f)
        for s in ind.getSubIndividuals():
            best[s] = max(best.get(s, f), f)
    for sp in sps:
        for s in sp.getIndividuals():
            h.eq(sp.getIndividualFitness(s), best[s], 'a part inherits the best fitness of its individuals')
    members = [dict((s, copy.deepcopy(s.getGenome())) for s in sp.getIndividuals()) for sp in sps]
    var = GaussianVariate(0, case['alpha'])
    if case['burst']:
        h.label('burst')
        keep = 1
        EvolinoBurstMutation(mutationVariate=var).apply(pop)
    else:
        keep = max(1, N // 4) if case['par'] is None else N if case['par'] == 'all' else min(case['par'], N)
        sel = EvolinoSelection()
        if case['par'] is not None:
            sel.nParents = keep
        sel.apply(pop)
        for sp, mem in zip(sps, members):
            left = sp.getIndividuals()
            h.eq(len(left), keep, 'selection keeps the parents')
            h.check(all(s in mem for s in left), 'selection adds nobody')
            gone = [best[s] for s in mem if s not in left]
            h.check(not gone or max(gone) <= min(best[s] for s in left), 'selection keeps the fittest')
        EvolinoReproduction(mutationVariate=var).apply(pop)
        h.label('keep:%s' % ('all' if keep == N else keep))
    for sp, mem in zip(sps, members):
        now = sp.getIndividuals()
        h.eq(len(now), N, 'reproduction fills the subpopulation')
        old = [s for s in now if s in mem]
        h.eq(len(old), keep, 'the parents stay')
        h.check(min(best[s] for s in old) >= max([best[s] for s in mem if s not in old] or [-1e99]), 'the parents are the fittest')
        for s in old:
            h.eq(s.getGenome(), mem[s], 'parents are not mutated')
        use = dict((s, 0) for s in old)
        for c in now:
            if c in mem:
                continue
            h.eq(sp.getIndividualFitness(c), float('-inf'), 'children have no fitness yet')
            lv = leaves(c.getGenome())
            near = [s for s in old if max(abs(a - b) for a, b in zip(lv, leaves(s.getGenome()))) <= case['alpha'] * 10]
            h.check(len(near) >= 1, 'a child resembles a parent')
            if len(near) == 1:
                use[near[0]] += 1
        if N - keep > 0 and len(set(tuple(leaves(s.getGenome())) for s in old)) == len(old) and case['alpha'] == 0.0:
            # the fittest parents reproduce in turn
            par = sorted(old, key=lambda s: -best[s])[:N - keep]
            h.check(max(use[s] for s in par) - min(use[s] for s in par) <= 1 and all(use[s] == 0 for s in old if s not in par or best[s] < best[par[-1]]), 'parents reproduce equally often')
    pop.clearFitness()
    for sp in sps:
        h.check(all(v == float('-inf') for v in sp.getFitnessMap().values()), 'fitness is cleared')
    u = UniformVariate(lo, hi)
    h.check(all(lo <= u.getSample() <= hi for _ in range(5)), 'uniform variate')
    sub = EvolinoSubIndividual([1.0, [2.0]])
    cp = sub.copy()
    cp.getGenome()[1][0] = 7.0
    h.eq(sub.getGenome(), [1.0, [2.0]], 'copies are independent')
    h.check(cp.id != sub.id, 'copies have their own identity')
    if N > 2 and len(sps) > 1:
        h.nontrivial()


def gen_burst(st):
    return st.fixed_dictionaries({'burst': st.integers(1, 4), 'fits': st.lists(st.integers(-4, 4), min_size=1, max_size=14), 'sub': st.integers(1, 3), 'hid': st.integers(1, 2), 'seed': st.integers(0, 10 ** 6), 'spread': st.booleans()})


def run_burst(case, h):
    import random
    import numpy as np
    from pybrain.datasets.sequential import SequentialDataSet
    from pybrain.structure.modules.evolinonetwork import EvolinoNetwork
    from pybrain.supervised.trainers.evolino import EvolinoTrainer
    from pybrain.supervised.evolino.filter import EvolinoBurstMutation, EvolinoEvaluation
    from pybrain.supervised.evolino.population import EvolinoPopulation
    from pybrain.supervised.evolino.individual import EvolinoSubIndividual
    from pybrain.supervised.evolino.gfilter import Randomization
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 31)
    r = np.random.RandomState(case['seed'])
    ds = SequentialDataSet(0, 1)
    ds.newSequence()
    for t in range(6):
        ds.addSample([], [np.sin(t)])
    log, bursts, epoch = [], [], [0]

    def ev(out, tgt):
        v = case['fits'][epoch[0]] - (len(log) % case['sub'] if case['spread'] else 0)
        log.append(v)
        return v

    class Burst(EvolinoBurstMutation):
        def apply(self, population):
            bursts.append(epoch[0] + 1)
            EvolinoBurstMutation.apply(self, population)
    net = EvolinoNetwork(1, case['hid'])
    tr = EvolinoTrainer(net, ds, subPopulationSize=case['sub'], nCombinations=1, nBurstMutationEpochs=case['burst'], burstMutation=Burst(), evalfunc=ev)
    exp = {0: [], 1: []}
    last, top = {0: 0, 1: 0}, float('-inf')
    for e in range(len(case['fits'])):
        epoch[0] = e
        tr.train()
        for k in exp:
            # stagnation may or may not count the current epoch
            if e + 1 - last[k] >= case['burst'] + k:
                exp[k].append(e + 1)
                last[k] = e + 1
        m = max(log[-case['sub']:])
        if m > top:
            top = m
            last = {0: e + 1, 1: e + 1}
        h.check(bursts in list(exp.values()), 'bursts follow the epochs without an increase of fitness')
        h.close(tr.evaluation.max_fitness, m, 'the best fitness of the epoch is reported')
    # evaluation on its own: fitness belongs to the latest evaluation
    given = []

    class Pop(EvolinoPopulation):
        def setIndividualFitness(self, individual, fitness):
            given.append((individual, fitness))
            EvolinoPopulation.setIndividualFitness(self, individual, fitness)
    pop = Pop(EvolinoSubIndividual(net.getGenome()), case['sub'], 2, Randomization(-1.0, 1.0))
    vals = []

    def ev2(out, tgt):
        vals.append(float(r.randint(-9, 9)))
        return vals[-1]
    e = EvolinoEvaluation(net, ds, evalfunc=ev2)
    for _ in range(3):
        del given[:]
        n = len(vals)
        e.apply(pop)
        h.eq(len(given), 2 * case['sub'], 'every individual is evaluated')
        h.eq([f for _, f in given], vals[n:], 'the fitness is the one of the evaluation function')
        h.eq(e.max_fitness, max(vals[n:]), 'best fitness')
        best = {}
        for ind, f in given:
            for s in ind.getSubIndividuals():
                best[s] = max(best.get(s, f), f)
        for sp in pop.getSubPopulations():
            for s in sp.getIndividuals():
                h.eq(sp.getIndividualFitness(s), best[s], 'a part has the best fitness of the latest evaluation')
        tops = [ind for ind, f in given if f == e.max_fitness]
        h.check(any(np.allclose(np.array(net.getGenome()), np.array(i.getGenome()), rtol=0, atol=0) for i in tops), 'the network carries the best individual')
    h.label('burst:%d' % case['burst'])
    if len(case['fits']) > 2 and bursts:
        h.nontrivial()


def gen_som(st):
    return st.fixed_dictionaries({'dim': st.integers(1, 6), 'n': st.integers(1, 9), 'seed': st.integers(0, 10 ** 6), 'steps': st.integers(1, 25), 'lr': st.sampled_from([None, 0.5, 1.0, 0.1]), 'nb': st.sampled_from([None, 0.0, 1.0, 2.5]), 'decay': st.sampled_from([None, 0.5, 0.9]), 'clustered': st.booleans()})


def run_som(case, h):
    import numpy as np
    from pybrain.structure.modules import KohonenMap
    np.random.seed(case['seed'] % 2 ** 31)
    r = np.random.RandomState(case['seed'])
    n, d = case['n'], case['dim']
    som = KohonenMap(d, n)
    h.eq(np.array(som.neurons).shape, (n, n, d), 'a square grid of neurons')
    h.check((som.neurons >= 0).all() and (som.neurons <= 1).all(), 'initial neurons lie in the unit cube')
    if case['lr'] is not None:
        som.learningrate = case['lr']
    if case['nb'] is not None:
        som.neighbours = case['nb']
    if case['decay'] is not None:
        som.neighbourdecay = case['decay']
    lr = 0.01 if case['lr'] is None else case['lr']
    nb = float(n) if case['nb'] is None else case['nb']
    dec = 0.9999 if case['decay'] is None else case['decay']
    gx, gy = np.mgrid[0:n, 0:n]
    for t in range(case['steps']):
        x = r.rand(d) * (0.1 if case['clustered'] else 2.0)
        W = np.array(som.neurons).copy()
        out = np.array(som.activate(x))
        h.close(som.neurons, W, 'answering does not train', rtol=0, atol=0)
        dist = ((W - x) ** 2).sum(axis=2)
        i, j = int(out[0]), int(out[1])
        h.check(out[0] == i and out[1] == j and 0 <= i < n and 0 <= j < n, 'the winner is a grid position')
        h.check(dist[i, j] <= dist.min() + 1e-12, 'the winner is the closest neuron')
        som.backward()
        k = int(np.floor(nb))
        nb *= dec
        g = np.maximum(0, 1 - (abs(gx - i) + abs(gy - j)) / float(n))
        g = g * (abs(gx - i) <= k) * (abs(gy - j) <= k)
        exp = W - lr * g[:, :, None] * (W - x)
        h.close(som.neurons, exp, 'neurons in the neighbourhood move towards the input', rtol=1e-9, atol=1e-12)
        h.close(som.neighbours, nb, 'the neighbourhood shrinks')
    if n > 1:
        h.nontrivial()
    h.label('nb:%s' % case['nb'])


def gen_mog(st):
    return st.fixed_dictionaries({'pure': st.booleans(), 'n': st.integers(2, 12), 'seed': st.integers(0, 10 ** 6), 'al': st.lists(st.sampled_from([0.02, 0.1, 0.0]), min_size=3, max_size=3), 'data': st.lists(st.tuples(st.floats(**F(-25, 25)), st.floats(**F(-2, 2))), max_size=15)})


def run_mog(case, h):
    import numpy as np
    np.random.seed(case['seed'] % 2 ** 31)
    kw = dict(numOGaus=case['n'], alphaA=case['al'][0], alphaM=case['al'][1], alphaS=case['al'][2])
    if case['pure']:
        from pybrain.tools.mixtures.mogpuremax import MixtureOfGaussians
        m = MixtureOfGaussians(**kw)
    else:
        from pybrain.tools.mixtures.mixtureofgaussian import MixtureOfGaussians
        m = MixtureOfGaussians('rastrigin', **kw)

    def weights():
        return np.array(m.sigmo(m.alpha))

    def dens(x):
        return float((weights() * np.exp(-0.5 * ((x - m.mue) / m.sigma) ** 2) / np.sqrt(2 * np.pi) / m.sigma).sum())
    h.close(m.mue, np.linspace(-20, 20, case['n']), 'means are spread over the range')
    h.close(m.sigma, np.ones(case['n']) * 40.0 / (case['n'] - 1) / np.sqrt(2), 'initial widths')
    h.close(weights(), np.ones(case['n']) / case['n'], 'initially equal weights')
    base, best = 0.0, 1e-6
    for x, y in case['data']:
        mu, sg, w = m.mue.copy(), m.sigma.copy(), weights()
        h.close(m.getGaus(m.alpha, m.mue, m.sigma, x), dens(x), 'density', rtol=0.03, atol=2e-4)
        base = 0.99 * base + 0.01 * y
        best = max(best, y)
        if best - base < 1e-9:
            h.discard()
        fakt = max(-1.0, (y - base) / (best - base))
        m.learn(x, y)
        h.close(m.baseline, base, 'baseline')
        h.close(m.best, best, 'best reward')
        w2 = weights()
        h.close(w2.sum(), 1.0, 'weights sum to one', rtol=1e-9)
        h.check((w2 > 0).all() and (m.sigma > 0).all() and np.isfinite(m.mue).all(), 'parameters stay valid')
        if fakt > 0:
            h.check((abs(x - m.mue) <= abs(x - mu) + 1e-12).all(), 'means move towards a rewarded sample')
            far = abs(x - mu) > sg
            far2 = abs(x - m.mue) > sg
            h.check((m.sigma[far & far2] >= sg[far & far2] - 1e-12).all() and (m.sigma[~far] <= sg[~far] + 1e-12).all(), 'widths grow for distant and shrink for close components')
        else:
            h.check((abs(x - m.mue) >= abs(x - mu) - 1e-12).all(), 'means move away from a punished sample')
            h.close(m.sigma, sg, 'widths are kept', rtol=0, atol=0)
        near = int(np.argmax(np.exp(-0.5 * ((x - mu) / sg) ** 2) / sg))
        if abs(fakt) > 0.05 and case['al'][1] > 0 and 1e-3 < abs(x - mu[near]) < 3.5 * sg[near] and w[near] > 1e-6:
            h.check((m.mue[near] - mu[near]) * (x - mu[near]) * fakt > 0, 'the mean of the closest component is moved')
            h.label('moved:%s' % ('towards' if fakt > 0 else 'away'))
        if case['al'][1] == 0.0:
            h.close(m.mue, mu, 'means are kept without a learning rate', rtol=0, atol=0)
        if case['al'][0] == 0.0:
            h.close(w2, w, 'weights are kept without a learning rate', rtol=1e-9)
    # the components are sampled by their weights
    if m.numOGaus >= 2:
        m.sigma = np.ones(m.numOGaus) * 1e-3
        m.mue = np.arange(m.numOGaus) * 1.0
        w = np.random.RandomState(case['seed']).rand(m.numOGaus) + 0.05
        w /= w.sum()
        m.alpha = m.invSigmo(w * (1 + 1e-12))
        K = 200
        s = [m.getSample() for _ in range(K)]
        idx = np.array([int(round(v)) for v in s])
        h.check(max(abs(v - i) for v, i in zip(s, idx)) < 0.02 and idx.min() >= 0 and idx.max() < m.numOGaus, 'samples come from the components')
        cnt = np.bincount(idx, minlength=m.numOGaus)
        sd = np.sqrt(K * w * (1 - w))
        h.check((abs(cnt - K * w) <= 6.5 * sd + 3).all(), 'components are chosen by their weights')
    if len(case['data']) > 1:
        h.nontrivial()
    h.label('pure' if case['pure'] else 'mixture')


FACETS = {
    'evolinonet': {'gen': gen_net, 'run': run_net, 'quick': 150, 'thorough': 1500},
    'evolinotrainer': {'gen': gen_train, 'run': run_train, 'quick': 60, 'thorough': 600},
    'population': {'gen': gen_pop, 'run': run_pop, 'quick': 400, 'thorough': 5000},
    'evolinopopulation': {'gen': gen_evo, 'run': run_evo, 'quick': 250, 'thorough': 3000},
    'burst': {'gen': gen_burst, 'run': run_burst, 'quick': 150, 'thorough': 2000},
    'kohonen': {'gen': gen_som, 'run': run_som, 'quick': 200, 'thorough': 2000},
    'mixture': {'gen': gen_mog, 'run': run_mog, 'quick': 200, 'thorough': 2000},
}
