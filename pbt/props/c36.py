"""C36: coevolution with one, two or many populations."""
RULE = ("random population sizes, selection, tournament and averaging settings, seeds, games and budgets for the three algorithms, run generation by generation with every game recorded; compared with a model of the bookkeeping, of the fitness and of selection; non-trivial: at least two generations of a population of three or more")
ASSUMPTIONS = ["at least one individual is selected and no more seeds than places are given", "the budget allows at least one generation", "fitness is compared where every opponent comes from the current populations"]


def gen_co(st):
    return st.fixed_dictionaries({'alg': st.sampled_from(['single', 'competitive', 'multi']), 'size': st.integers(2, 9), 'sel': st.sampled_from([0.5, 0.5, 0.3, 0.8, 1.0]), 'elitism': st.booleans(), 'avg': st.sampled_from([1.0, 1.0, 0.5, 0.25]), 'tourn': st.sampled_from([None, None, 1, 2, 3, 20]), 'hof': st.sampled_from([0.0, 0.0, 0.5, 1.0]), 'shared': st.booleans(), 'abs': st.sampled_from([0.0, 0.0, 0.5, 1.0]), 'pops': st.integers(1, 4), 'nseeds': st.integers(1, 6), 'seed': st.integers(0, 10 ** 6), 'gens': st.integers(1, 6), 'game': st.sampled_from(['skill', 'margin', 'cyclic', 'biased', 'draw']), 'limit': st.sampled_from(['gens', 'steps', 'evals']), 'extra': st.floats(min_value=0, max_value=0.95, allow_nan=False)})


def run_co(case, h):
    import random
    import numpy as np
    from pybrain.optimization.populationbased.coevolution import Coevolution, CompetitiveCoevolution, MultiPopulationCoevolution
    random.seed(case['seed'])
    rnd = random.Random(case['seed'] + 1)
    size = case['size']
    nsel = int(size * case['sel'])
    if nsel < 1:
        h.discard()

    class Player(object):
        def __init__(self, x):
            self.params = np.array(x, float)

        def _setParameters(self, p):
            self.params = np.array(p, float)

        def copy(self):
            q = Player(self.params)
            if hasattr(self, 'parent'):
                q.parent = self.parent
            return q

        def mutate(self):
            # the second coordinate counts mutations, averaging makes it fractional
            self.params[0] += rnd.choice([-1, 1]) * rnd.random()
            self.params[1] += 1.0

        def randomize(self):
            self.params[0] = rnd.random() * 4
            self.params[1] = 0.0
    log = []

    def game(a, b):
        x, y = a.params[0], b.params[0]
        g = case['game']
        if g == 'skill':
            s = float(np.sign(x - y))
        elif g == 'margin':
            s = x - y
        elif g == 'cyclic':
            s = float(np.sign(np.sin(x - y)))
        elif g == 'biased':
            s = 1.0 if x > y - 0.7 else -1.0
        else:
            s = 0.0
        log.append((a, b, s))
        return s
    cls = {'single': Coevolution, 'competitive': CompetitiveCoevolution, 'multi': MultiPopulationCoevolution}[case['alg']]
    npops = {'single': 1, 'competitive': 2, 'multi': case['pops']}[case['alg']]
    if case['alg'] == 'multi' and npops < 2 and case['abs'] == 0.0:
        h.label('lonely')
    nseeds = min(case['nseeds'], size)
    seeds = [Player([rnd.random() * 4, 0.0]) for _ in range(nseeds)]
    given, vals = list(seeds), [s.params.copy() for s in seeds]
    kw = dict(populationSize=size, selectionProportion=case['sel'], elitism=case['elitism'], parentChildAverage=case['avg'], tournamentSize=case['tourn'], hallOfFameEvaluation=case['hof'], useSharedSampling=case['shared'])
    skill = lambda p: float(p.params[0])
    if case['abs']:
        kw.update(absEvaluator=skill, absEvalProportion=case['abs'])
    if case['alg'] == 'multi':
        kw['numPops'] = npops
    x = cls(game, seeds, **kw)
    h.eq(len(seeds), len(given), 'the list of seeds is left alone')
    h.check(all(a is b for a, b in zip(seeds, given)) and all((a.params == v).all() for a, v in zip(seeds, vals)), 'the seeds are left alone')
    h.eq(len(log), 0, 'no game before learning')
    tourn = size if case['tourn'] is None else case['tourn']
    per_gen = 2 * size * tourn * (max(0, npops - 1) if case['alg'] == 'multi' else 1)

    def populations():
        if case['alg'] == 'single':
            return [x.pop]
        if case['alg'] == 'competitive':
            return [x.pop, x.parasitePop]
        return list(x.pops)
    everyone = [p for q in populations() for p in q]
    for q in populations():
        h.eq(len(q), size, 'population size')
    h.check(all(any(s is p for p in everyone) for s in seeds) or (case['alg'] == 'multi' and len(seeds) > npops * size), 'the seeds take part')
    h.eq(len(set(map(id, everyone))), len(everyone), 'the individuals are distinct')
    if npops > 1:
        share = [len([1 for s in seeds if any(s is p for p in q)]) for q in populations()]
        h.check(max(share) - min(share) <= 1, 'the seeds are spread over the populations')

    budget = per_gen + int(case['extra'] * per_gen)

    def run_one():
        n = len(log)
        if case['limit'] == 'gens' or per_gen == 0:
            x.maxGenerations = x.generation + 1
            r = x.learn()
        elif case['limit'] == 'steps':
            g = x.generation
            if g:
                h.check(x.learn(per_gen - 1) is x.hallOfFame[-1] and len(log) == n, 'no generation is begun which may exceed the budget')
            r = x.learn(budget)
            h.check(x.generation >= g + 1, 'a sufficient budget is used')
        else:
            if x.generation:
                x.maxEvaluations = len(log) + per_gen - 1
                h.check(x.learn() is x.hallOfFame[-1] and len(log) == n, 'no generation is begun which may exceed the number of evaluations')
            x.maxEvaluations = len(log) + budget
            r = x.learn()
        return r, log[n:]
    for gen in range(case['gens']):
        pops = [list(q) for q in populations()]
        main = list(x.pop)
        hof_before = list(x.hallOfFame)
        g0, n0 = x.generation, len(log)
        params0 = dict((id(p), p.params.copy()) for q in pops for p in q)
        best, games = run_one()
        gens = x.generation - g0
        h.eq(len(log), x.steps, 'every game is counted')
        if case['limit'] != 'gens':
            h.check(per_gen == 0 or len(games) <= budget, 'the budget of games is respected')
        else:
            h.eq(gens, 1, 'the generation limit is respected')
            n1 = len(log)
            h.check(x.learn() is best and len(log) == n1, 'nothing happens once the generations are used up')
        h.check(gens >= 1, 'progress within a sufficient budget')
        h.eq(len(x.hallOfFame), x.generation, 'one champion per generation')
        h.check(best is x.hallOfFame[-1], 'the last champion is returned')
        # the bookkeeping matches the games played
        res = {}
        for a, b, s in log:
            res.setdefault((a, b), []).append(s)
        h.eq(len(x.allResults), len(res), 'recorded pairs')
        for k in (res if gen == case['gens'] - 1 else set((a, b) for a, b, _ in games)):
            w, n, t, l = x.allResults[k]
            h.eq((w, n), (len([s for s in res[k] if s > 0]), len(res[k])), 'wins and games')
            h.close(t, sum(res[k]), 'total score')
            h.close(l, res[k], 'single scores')
        # games are played in both directions, never against oneself
        cnt = {}
        for a, b, s in games:
            cnt[(a, b)] = cnt.get((a, b), 0) + 1
        for (a, b), n in cnt.items():
            h.check(a is not b, 'nobody plays against himself')
            h.eq(cnt.get((b, a), 0), n, 'every pairing is played in both directions')
        new = [list(q) for q in populations()]
        for q in new:
            h.eq(len(q), size, 'population size is kept')
        h.check(all((p.params == params0[id(p)]).all() for q in pops for p in q), 'individuals are not changed in place')
        if gens != 1:
            # fewer games than planned were played, so that the budget allowed several generations
            h.label('several generations')
            continue
        mainset = set(main)
        h.check(best in mainset, 'the champion comes from the current population')
        members = set(p for q in pops for p in q)
        hall = set(hof_before)
        for a, b, s in games:
            h.check((a in mainset and (b in members or b in hall)) or (b in mainset and (a in members or a in hall)), 'one side of each game belongs to the current population')
        hofn = 0 if case['alg'] == 'multi' else min(x.generation, int(tourn * case['hof']))
        if case['alg'] == 'single':
            opps = main
        elif case['alg'] == 'competitive':
            opps = [q for q in pops if set(q) != mainset][0]
        else:
            opps = None
        met = dict((p, []) for p in main)
        for a, b, s in games:
            if a in met and (case['alg'] != 'competitive' or a in mainset):
                met[a].append(b)
        if case['alg'] == 'competitive' and hofn == 0:
            for a, b, s in games:
                h.check((a in mainset) != (b in mainset), 'hosts play against parasites only')
            k = min(tourn, size)
            for p in main:
                h.eq((len(met[p]), len(set(met[p]))), (k, k), 'every host meets its share of opponents')
            if case['shared'] and x.generation > 2:
                h.eq(len(set(o for p in main for o in met[p])), k, 'all hosts meet the same sample of opponents')
                h.label('shared')
        elif case['alg'] == 'multi':
            k = min(tourn, max(1, size // 2))
            for p in main:
                for q in pops:
                    if p in q:
                        h.check(not [o for o in met[p] if o in q], 'no games within a population')
                    else:
                        os_ = [o for o in met[p] if o in q]
                        h.eq((len(os_), len(set(os_))), (k, k), 'every other population is met')
                        h.check(set(os_) <= set(q[:max(1, size // 2)]), 'opponents come from the leading half of the other population')
        elif hofn == 0:
            k = min(tourn, size)
            tot = 0
            if not case['shared']:
                kk = min(k, size - 1)
                h.eq(len(games), 2 * size * kk, 'number of games')
                for p in main:
                    h.check(len(met[p]) >= kk and len(set(met[p])) >= kk, 'everybody meets its share of opponents')
            else:
                h.check(2 * size * (k - 1) <= len(games) <= 2 * size * k, 'number of games against the sample')
                h.label('shared')
        if hofn and case['alg'] != 'multi':
            h.check(len(games) <= 2 * size * tourn, 'games against champions are part of the tournament')
            if hof_before and hofn >= 1:
                inhall = [o for p in main for o in met[p] if o in hall]
                if x.generation > 1 and case['hof'] == 1.0 and tourn >= 2 and not (case['alg'] == 'single' and case['elitism']):
                    h.check(len(inhall) > 0, 'former champions are met')
                h.label('hof')
        # fitness

        memo = {}

        def beats(a, b):
            if (a, b) not in res:
                return 0.0
            if (a, b) not in memo:
                u, v = res[(a, b)], res.get((b, a), [])
                memo[(a, b)] = (sum(u) - sum(v)) / float(len(u) + len(v))
            return memo[(a, b)]
        fits = None
        tol = 1e-9
        champs = set(hof_before) if hofn else set()
        k = min(tourn - hofn, size)
        if case['alg'] == 'single' and (not case['shared'] or k == size):
            fits = [sum(beats(p, o) for o in main) + sum(beats(p, o) for o in champs) for p in main]
            if champs:
                h.label('champions')
        elif case['alg'] == 'single' and k < size - 1 and not (champs & mainset):
            sample = [p for p in main if len(set(met[p]) & mainset) == size - 1]
            h.eq(len(sample), k, 'a sample of opponents is met by everybody')
            fits = [sum(beats(p, o) for o in sample) + sum(beats(p, o) for o in champs) for p in main]
            # the sample is built greedily from those who won against most of the uncovered members before
            early = {}
            for u, v, sc in log[:n0]:
                early.setdefault((u, v), []).append(sc)

            def won(u, v):
                return sum(early.get((u, v), [0])) - sum(early.get((v, u), [0])) > 0

            def greedy(left, need, uncovered):
                if not need:
                    return True
                cnts = dict((u, len([1 for v in uncovered if won(u, v)])) for u in left)
                top = max(cnts.values())
                return any(greedy(left - {u}, need - {u}, frozenset(v for v in uncovered if not won(u, v))) for u in need if cnts[u] == top)
            if len(sample) <= 4 and all(len(early.get((v, u), [])) == len(early[(u, v)]) for u, v in early):
                h.check(greedy(frozenset(main), frozenset(sample), frozenset(main)), 'the sample covers the population')
                if any(u in mainset and v in mainset for u, v in early):
                    h.label('greedy sample')
        elif case['alg'] == 'multi':
            fits = [sum(beats(p, o) for q in pops if p not in q for o in q) for p in main]
        elif case['alg'] == 'competitive':
            tol = 5e-5 if case['game'] != 'margin' else 1e-3

            def share(others):
                r = []
                nb = dict((o, len([1 for p in main if beats(p, o) > 0])) for o in others)
                for p in main:
                    f = sum(1.0 / nb[o] for o in others if beats(p, o) > 0)
                    played = len([1 for o in others if beats(p, o) != 0])
                    r.append(f / played if played else f)
                return r
            fits = share(opps)
            if hofn:
                w = min(tourn - hofn, size)
                f2 = share(hof_before) if hof_before else [0.0] * size
                fits = [w * u + hofn * v for u, v in zip(fits, f2)]
                tol *= max(1, w + hofn)
            elif not case['elitism']:
                # equal fitness: the better average score decides
                def score(p):
                    sc = [z if u is p else -z for u, v, z in log if u is p or v is p]
                    return sum(sc) / (len(sc) + 0.01)
                tied = [p for p, f in zip(main, fits) if f >= max(fits) - 1e-12]
                sco = dict((p, score(p)) for p in tied)
                if best in sco and len(set(len([1 for u, v, z in log if u is p or v is p]) for p in tied)) == 1:
                    h.check(sco[best] >= max(sco.values()) - 1e-9, 'ties are broken by the average score')
                    if max(sco.values()) - min(sco.values()) > 1e-6:
                        h.label('tie')
        if fits is not None:
            if case['abs'] and case['alg'] != 'competitive':
                fits = [(1 - case['abs']) * f + case['abs'] * skill(p) for f, p in zip(fits, main)]
            bf = sorted(fits, reverse=True)[:nsel]
            h.close(x.hallOfFitnesses[-1], bf, 'the best fitness values are recorded', rtol=1e-9, atol=tol)
            h.check(fits[[i for i, p in enumerate(main) if p is best][0]] >= max(fits) - 2 * tol, 'the champion has the best fitness')
            h.label('fitness:%s' % case['alg'])
        # selection and reproduction of the current population; the others rest
        if case['alg'] == 'single':
            newmain = new[0]
        elif case['alg'] == 'competitive':
            newmain = list(x.parasitePop)
            h.check(len(x.pop) == size and set(x.pop) == set(opps), 'the populations take turns')
        else:
            i = [j for j, q in enumerate(pops) if set(q) == mainset][0]
            newmain = new[i]
            for j, q in enumerate(pops):
                if j != i:
                    h.check(len(new[j]) == size and all(a is b for a, b in zip(new[j], q)), 'the other populations rest')
            h.check(set(x.pop) == set(new[(i + 1) % npops]), 'the populations take turns')
        old = [p for p in newmain if p in mainset]
        selmax = max(fits) if fits is not None else None
        if not case['elitism']:
            h.eq(len(old), 0, 'without elitism nobody survives')
        elif case['avg'] == 1.0:
            h.eq((len(old), len(set(old))), (nsel, nsel), 'the selected survive')
            if fits is not None:
                fm = dict((id(p), f) for p, f in zip(main, fits))
                gone = [fm[id(p)] for p in main if p not in old]
                h.check(not gone or max(gone) <= min(fm[id(p)] for p in old) + 2 * tol, 'the fittest survive')
        if case['avg'] < 1.0:
            near = 0
            fm = dict((id(p), f) for p, f in zip(main, fits)) if fits is not None else None
            bar = sorted(fits, reverse=True)[nsel - 1] if fits is not None else None
            for p in newmain:
                if getattr(p, 'parent', None) is not None and p.parent in mainset and abs(p.params[1] - p.parent.params[1] - case['avg']) < 1e-9:
                    near += 1
                    if fm is not None and not case['elitism']:
                        h.check(fm[id(p.parent)] >= bar - 2 * tol, 'parents are among the fittest')
            h.check(near >= (size if not case['elitism'] else size - nsel), 'children are averaged with their parents')
            h.label('averaged')
        else:
            lev = set(round(p.params[1], 9) for p in main)
            for p in newmain:
                if p not in mainset:
                    h.check(round(p.params[1] - 1.0, 9) in lev, 'children are mutated once')
                    if case['game'] != 'x':
                        h.check(any(abs(p.params[0] - q.params[0]) <= 1.0 and abs(p.params[1] - 1.0 - q.params[1]) < 1e-9 for q in main), 'children resemble a member')
        if case['game'] == 'skill' and case['alg'] == 'single' and case['tourn'] is None and hofn == 0 and not case['shared'] and case['abs'] == 0.0:
            h.close(skill(best), max(skill(p) for p in main), 'in a transitive game the strongest is the champion')
            h.label('transitive')
    h.label(case['alg'])
    h.label('limit:' + case['limit'])
    if size >= 3 and case['gens'] >= 2:
        h.nontrivial()


FACETS = {'coevolution': {'gen': gen_co, 'run': run_co, 'quick': 500, 'thorough': 6000}}
