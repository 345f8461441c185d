"""C28: explorers and policy gradient learners."""
RULE = ("explorers of random dimensions, temperatures, rates and states judged by frequencies, moments and closed-form likelihood gradients; policy gradient and reward-weighted learners fed with recorded episodes and compared with an explicit recomputation; non-trivial: at least two actions or two episodes")
ASSUMPTIONS = ["random choices are judged by frequencies and moments with a tolerance of six standard deviations", "likelihood gradients follow the convention of the code: they are scaled by the variance of the explored action", "the parameters of module and explorer are set before the learner is attached, because the descent object copies them at that time"]


def gen_discrete(st):
    return st.fixed_dictionaries({'kind': st.sampled_from(['egreedy', 'boltzmann', 'sde', 'egreedy', 'boltzmann']), 'q': st.lists(st.sampled_from([0.0, 1.0, 0.5, -1.0, 2.0, 30.0, 1.88, 0.9]), min_size=1, max_size=9), 'rows': st.integers(1, 4), 'row': st.integers(0, 9), 'rate': st.sampled_from([0.3, 0.0, 1.0, 0.05]), 'tau': st.sampled_from([2.0, 0.5, 10.0, 0.0, 0.08]), 'decay': st.sampled_from([0.9, 0.99, 0.9999]),
                                  'net': st.booleans(), 'steps': st.sampled_from([1, 3, 12, 60]), 'seed': st.integers(0, 9999)})


def run_discrete(case, h):
    import random
    import numpy as np
    from pybrain.rl.explorers import EpsilonGreedyExplorer, BoltzmannExplorer, DiscreteStateDependentExplorer
    from pybrain.rl.learners import ActionValueTable, ActionValueNetwork, Q, NFQ
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    k, n = len(case['q']), case['rows']
    row = case['row'] % n
    if case['net']:
        mod = ActionValueNetwork(2, k)
        state = np.array([0.5, -1.0])
        q = np.ravel(mod.getActionValues(state)).astype(float)
        learner = NFQ()
    else:
        mod = ActionValueTable(n, k)
        mod.initialize(0.0)
        for j in range(k):
            mod.updateValue(row, j, case['q'][j])
        state = np.array([float(row)])
        q = np.array(case['q'])
        learner = Q()
    before = np.array(mod.network.params if case['net'] else mod.params)
    kind = case['kind']
    h.label(kind)
    default = learner.explorer
    h.check(isinstance(default, EpsilonGreedyExplorer) and default.epsilon == 0.3, 'default explorer')

    def explorer(decay):
        e = EpsilonGreedyExplorer(case['rate'], decay) if kind == 'egreedy' else BoltzmannExplorer(case['tau'], decay) if kind == 'boltzmann' else DiscreteStateDependentExplorer()
        learner.explorer = e
        learner.module = mod
        h.check(e.module is mod, 'the explorer knows the module')
        learner.newEpisode()
        return e
    greedy = int(mod.getMaxAction(state if case['net'] else row))
    e = explorer(1.0)
    N = 1500
    c = np.zeros(k)
    for _ in range(N):
        a = np.ravel(learner.explore(state, np.array([float(greedy)])))
        h.check(len(a) == 1 and float(a[0]).is_integer() and 0 <= a[0] < k, 'action in range')
        c[int(a[0])] += 1
    if kind == 'egreedy':
        p = np.full(k, case['rate'] / k)
        p[greedy] += 1 - case['rate']
        h.eq(e.epsilon, case['rate'], 'no decay')
    elif kind == 'boltzmann':
        if case['tau'] == 0:
            p = (q == q.max()) / float((q == q.max()).sum())
        else:
            p = np.exp(np.maximum((q - q.max()) / case['tau'], -40))
            p = p / p.sum()
        h.eq(e.tau, case['tau'], 'no decay')
    else:
        # one slightly changed table per episode: a constant action, which is the greedy one where values differ clearly
        srt = np.sort(q)
        m = int(np.argmax(c))
        h.check(c[m] >= N - 20, 'constant action within an episode')
        if not case['net'] and k > 1 and srt[-1] - srt[-2] > 0.085:
            h.eq(m, greedy, 'nearly greedy')
        elif not case['net'] and k > 1:
            h.check(q[m] >= q.max() - 0.085, 'nearly greedy among ties')
        p = None
    if p is not None:
        for i in range(k):
            h.check(abs(c[i] - N * p[i]) <= 6 * np.sqrt(N * p[i] * (1 - p[i])) + 2, 'action frequencies')
    h.check((before == (mod.network.params if case['net'] else mod.params)).all(), 'exploring does not modify the module')
    if kind == 'sde' and not case['net'] and k > 1:
        # later episodes follow what has been learned in the meantime
        for t, new in enumerate(((greedy + 1) % k, (greedy + k - 1) % k)):
            mod.updateValue(row, new, 100.0 * (t + 1))
            learner.newEpisode()
            got = [int(np.ravel(learner.explore(state, np.array([float(new)])))[0]) for _ in range(40)]
            h.check(got.count(new) >= 36, 'the next episode explores around the current values')
    e = explorer(case['decay'])
    for i in range(case['steps']):
        learner.explore(state, np.array([float(greedy)]))
        if kind == 'egreedy':
            h.close(e.epsilon, case['rate'] * case['decay'] ** (i + 1), 'decay of epsilon')
        elif kind == 'boltzmann':
            h.close(e.tau, case['tau'] * case['decay'] ** (i + 1), 'decay of the temperature')
    h.nontrivial(k >= 2)


def expln(v):
    import math
    return math.exp(v) if v < 0 else math.log(v + 1) + 1


def explnp(v):
    import math
    return math.exp(v) if v < 0 else 1 / (v + 1)


SIG = [-2.0, -0.5, 0.0, 1.0, 3.0]


def gen_cont(st):
    return st.fixed_dictionaries({'kind': st.sampled_from(['normal', 'sde']), 'dim': st.integers(1, 4), 'sd': st.integers(1, 4), 'sigma': st.lists(st.sampled_from(SIG), min_size=4, max_size=4), 'scalar': st.booleans(), 'mean': st.lists(st.floats(-3, 3), min_size=4, max_size=4), 'state': st.lists(st.lists(st.integers(-3, 3).map(float), min_size=4, max_size=4), min_size=2, max_size=4), 'seed': st.integers(0, 9999)})


def run_cont(case, h):
    import random
    import numpy as np
    from pybrain.rl.explorers import NormalExplorer
    from pybrain.rl.explorers.continuous.sde import StateDependentExplorer
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    d, sd = case['dim'], case['sd']
    sig = [case['sigma'][0]] * d if case['scalar'] else case['sigma'][:d]
    mean = np.array(case['mean'][:d])
    std = np.array([expln(s) for s in sig])
    prime = np.array([explnp(s) for s in sig])
    h.label(case['kind'])
    if case['kind'] == 'normal':
        e = NormalExplorer(d, sig[0])
    else:
        e = StateDependentExplorer(sd, d, sig[0])
    h.close([float(v) for v in e.sigma], [sig[0]] * d, 'initial sigma')
    e.sigma = sig
    h.close([float(v) for v in e.sigma], sig, 'sigma')
    h.close([float(v) for v in e.params], sig, 'sigma is the parameter vector')
    N = 400
    states = [np.array(s[:sd]) for s in case['state']]
    rows = []
    for i in range(N):
        s = states[i % len(states)]
        if case['kind'] == 'sde' and i % 2 == 0:
            e.newEpisode()
        out = np.array(e.activate(s, mean))
        h.eq(out.shape, (d,), 'shape')
        tot = std if case['kind'] == 'normal' else std * np.sqrt((s ** 2).sum())
        if case['kind'] == 'sde' and i % 2 == 0:
            o2 = np.array(e.activate(2 * s, mean))
            h.close(o2 - mean, 2 * (out - mean), 'exploration is linear in the state', rtol=1e-9, atol=1e-9)
            t = states[(i + 1) % len(states)]
            o3 = np.array(e.activate(t, mean))
            o4 = np.array(e.activate(s + t, mean))
            h.close(o4 - mean, (out - mean) + (o3 - mean), 'exploration is additive within an episode', rtol=1e-9, atol=1e-9)
            h.close(np.array(e.activate(s, mean + 1)), out + 1, 'exploration is added to the action', rtol=1e-9, atol=1e-9)
        if i < 6:
            e.reset()
            e.resetDerivatives()
            out = np.array(e.activate(s, mean))
            e.backward()
            h.close([float(v) for v in e.derivs], ((out - mean) ** 2 - tot ** 2) / std * prime, 'likelihood gradient of sigma', rtol=1e-7, atol=1e-9)
            h.close([float(v) for v in np.ravel(e.inputerror[0])], out - mean, 'likelihood gradient of the mean', rtol=1e-7, atol=1e-9)
            one = np.array(e.derivs)
            e.backward()
            h.close([float(v) for v in e.derivs], 2 * one, 'gradients accumulate', rtol=1e-7, atol=1e-9)
            e.resetDerivatives()
        if case['kind'] == 'normal' or (i % 2 == 0 and tot.all()):
            rows.append((out - mean) / tot)
    if rows:
        z = np.array(rows)
        n = len(z)
        h.check((abs(z.mean(0)) <= 6 / np.sqrt(n)).all(), 'mean of the exploration')
        h.check((abs((z ** 2).mean(0) - 1) <= 6 * np.sqrt(2.0 / n) + 20.0 / n).all(), 'variance of the exploration')
        h.check((abs(z) < 7).all(), 'normal tails')
        if d > 1:
            h.check(abs((z[:, 0] * z[:, 1]).mean()) <= 6 / np.sqrt(n) + 10.0 / n, 'independent components')
    h.nontrivial(len(rows) > 50)


def gen_pg(st):
    return st.fixed_dictionaries({'algo': st.sampled_from(['Reinforce', 'ENAC']), 'inp': st.integers(1, 3), 'hid': st.sampled_from([0, 0, 1, 2]), 'out': st.integers(1, 2), 'bias': st.booleans(), 'sigma': st.lists(st.sampled_from([-1.0, -0.3, 0.0, 0.5]), min_size=2, max_size=2), 'explorer': st.sampled_from(['default', 'normal', 'sde']),
                                  'eps': st.lists(st.lists(st.tuples(st.lists(st.floats(-2, 2).map(lambda v: round(v, 2)), min_size=3, max_size=3), st.floats(-2, 2).map(lambda v: round(v, 2))), min_size=1, max_size=4), min_size=1, max_size=14), 'alpha': st.sampled_from([0.1, 0.01, 0.001]), 'momentum': st.sampled_from([0.0, 0.0, 0.9]), 'rounds': st.integers(1, 2), 'seed': st.integers(0, 9999),
                                  'quad': st.booleans()})


def run_pg(case, h):
    import contextlib
    import io
    import random
    import numpy as np
    from pybrain.rl.learners import Reinforce, ENAC
    from pybrain.rl.agents import LearningAgent
    from pybrain.rl.explorers import NormalExplorer
    from pybrain.rl.explorers.continuous.sde import StateDependentExplorer
    from pybrain.tools.shortcuts import buildNetwork
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    dims = [case['inp']] + ([case['hid']] if case['hid'] else []) + [case['out']]
    net = buildNetwork(*dims, bias=case['bias'])
    if case['hid'] and case['bias']:
        pass
    d, di = case['out'], case['inp']
    P = len(net.params)
    ref = net.copy()
    learner = {'Reinforce': Reinforce, 'ENAC': ENAC}[case['algo']]()
    agent = LearningAgent(net, learner)
    if case['explorer'] != 'default':
        e = NormalExplorer(d) if case['explorer'] == 'normal' else StateDependentExplorer(di, d)
        e.sigma = case['sigma'][:d]
        learner.explorer = e
        sig = case['sigma'][:d]
    else:
        sig = [0.0] * d
    learner.learningRate = case['alpha']
    h.eq(learner.gd.alpha, case['alpha'], 'learning rate')
    learner.gd.momentum = case['momentum']
    h.label(case['algo'], case['explorer'])
    theta = np.array(net.params)
    full = np.concatenate([theta, sig])
    mom = np.zeros(P + d)

    def mu(o, th):
        ref.params[:] = th
        ref.reset()
        return np.array(ref.activate(o))

    def jac(o, th):
        J = np.zeros((d, P))
        for i in range(P):
            hh = 1e-5
            up, dn = np.array(th), np.array(th)
            up[i] += hh
            dn[i] -= hh
            J[:, i] = (mu(o, up) - mu(o, dn)) / (2 * hh)
        return J
    ret_sign = 0
    for rnd in range(case['rounds']):
        rows, returns = [], []
        for ep in case['eps']:
            agent.newEpisode()
            acc, tot = np.zeros(P + d), 0.0
            for o, r in ep:
                o = np.array(o[:di])
                agent.integrateObservation(o)
                a = np.array(agent.getAction())
                rew = -((a - 1) ** 2).sum() if case['quad'] else r
                agent.giveReward(rew)
                m = mu(o, full[:P])
                diff = a - m
                std = np.array([expln(s) for s in full[P:]])
                pr = np.array([explnp(s) for s in full[P:]])
                tv = std ** 2 * (1 if case['explorer'] != 'sde' else (o ** 2).sum())
                g = np.concatenate([diff.dot(jac(o, full[:P])), (diff ** 2 - tv) / std * pr])
                h.close([float(v) for v in learner.loglh['loglh'][len(learner.loglh['loglh']) - 1]], g, 'logged likelihood gradient', rtol=1e-5, atol=1e-6)
                acc += g
                tot += rew
            rows.append(acc)
            returns.append(tot)
        rows, returns = np.array(rows), np.array(returns)
        h.eq(len(learner.loglh['loglh']), sum(len(ep) for ep in case['eps']), 'one gradient per action')
        if case['algo'] == 'Reinforce':
            den = (rows ** 2).mean(0)
            if (den < 1e-6).any():
                h.discard()
            base = (rows ** 2 * returns[:, None]).mean(0) / den
            grad = (rows * (returns[:, None] - base)).mean(0)
            tol = 1e-4
        else:
            X = np.hstack([rows, np.ones((len(rows), 1))])
            sv = np.linalg.svd(X, compute_uv=False)
            if sv.min() < 1e-2:
                h.discard()
            grad = np.linalg.pinv(X).dot(returns)[:-1]
            tol = 1e-3
        if abs(grad).max() > 900:
            h.discard()
        with contextlib.redirect_stdout(io.StringIO()):
            agent.learn()
        mom = mom * case['momentum'] + case['alpha'] * grad
        full = full + mom
        if abs(full).max() > 20:
            h.discard()
        h.close([float(v) for v in net.params], full[:P], 'module parameters after learning', rtol=tol, atol=tol * (1 + abs(mom).max()))
        h.close([float(v) for v in learner.explorer.sigma], full[P:], 'exploration parameters after learning', rtol=tol, atol=tol * (1 + abs(mom).max()))
        full = np.concatenate([np.array(net.params), np.array(learner.explorer.sigma)])
        agent.reset()
        h.eq((len(agent.history), len(learner.loglh['loglh'])), (0, 0), 'a reset clears the logs')
    h.nontrivial(len(case['eps']) >= 2)


def gen_climb(st):
    return st.fixed_dictionaries({'algo': st.sampled_from(['Reinforce', 'ENAC']), 'target': st.sampled_from([2.0, -1.5, 1.0]), 'seed': st.integers(0, 9999)})


def run_climb(case, h):
    import contextlib
    import io
    import random
    import numpy as np
    from pybrain.rl.learners import Reinforce, ENAC
    from pybrain.rl.agents import LearningAgent
    from pybrain.tools.shortcuts import buildNetwork
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    net = buildNetwork(1, 1, bias=False)
    net.params[:] = 0
    learner = {'Reinforce': Reinforce, 'ENAC': ENAC}[case['algo']]()
    agent = LearningAgent(net, learner)
    learner.learningRate = 0.05
    avg = []
    for _ in range(60):
        for ep in range(20):
            agent.newEpisode()
            agent.integrateObservation(np.array([1.0]))
            a = float(agent.getAction()[0])
            agent.giveReward(-(a - case['target']) ** 2)
        avg.append(float(np.mean(agent.history['reward'])))
        with contextlib.redirect_stdout(io.StringIO()):
            agent.learn()
        agent.reset()
    h.label(case['algo'])
    h.check(np.mean(avg[-10:]) > avg[0] and np.mean(avg[-10:]) > -0.6 - 0.5 * case['target'] ** 2, 'the expected reward increases')
    h.nontrivial()


def gen_rwr(st):
    return st.fixed_dictionaries({'obs': st.integers(1, 3), 'k': st.integers(2, 4), 'lens': st.lists(st.integers(1, 4), min_size=30, max_size=30), 'batch': st.one_of(st.integers(3, 6), st.integers(3, 6), st.integers(3, 6), st.just(40)), 'batches': st.integers(1, 2), 'greedy': st.integers(1, 3), 'discount': st.sampled_from([1.0, 0.9, 0.5]), 'min': st.sampled_from([0.0, -1.0, -2.0]), 'spread': st.sampled_from([0.5, 4.0]), 'seed': st.integers(0, 9999), 'value': st.booleans()})


def run_rwr(case, h):
    import random
    import numpy as np
    from pybrain.rl.learners import RWR
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.structure import SoftmaxLayer, FullConnection
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    rs = np.random.RandomState(case['seed'] + 5)

    class Task(object):
        outdim, indim, discount, minReward = case['obs'], case['k'], case['discount'], case['min']
        episodes = []

        def reset(self):
            self.episodes.append([])
            self.length = case['lens'][len(self.episodes) % 30]
            mirror._setParameters(np.array(net.params))
            mirror.reset()

        def isFinished(self):
            return len(self.episodes[-1]) >= self.length

        def getObservation(self):
            self.o = rs.randn(self.outdim)
            return self.o

        def performAction(self, a):
            self.a = int(a)
            p = np.array(mirror.activate(self.o))
            if (len(self.episodes) - 1) % (case['batch'] + case['greedy']) >= case['batch']:
                h.check(p[self.a] >= p.max() - 1e-9, 'greedy episodes take the most probable action, given the episode so far')
            else:
                h.check(p[self.a] > 1e-7, 'actions are drawn from the output of the network, given the episode so far')
                freq[0] += p[self.a] - (p ** 2).sum()
                freq[1] += (p ** 3).sum() - (p ** 2).sum() ** 2

        def getReward(self):
            r = self.minReward + 0.01 + rs.rand() + 0.5 * (self.a == 1)
            self.episodes[-1].append((self.o, self.a, r))
            return r
    freq = [0.0, 0.0]
    task = Task()
    Task.episodes = []
    net = buildNetwork(case['obs'], 2, case['k'], outclass=SoftmaxLayer, recurrent=True)
    net.addRecurrentConnection(FullConnection(net['hidden0'], net['hidden0']))
    net.sortModules()
    net._setParameters(rs.randn(net.paramdim) * case['spread'])
    mirror = net.copy()
    kw = {'valueNetwork': buildNetwork(case['obs'], 2, 1, recurrent=True)} if case['value'] else {}
    L = RWR(net, task, batchSize=case['batch'], greedyRuns=case['greedy'], verbose=False, maxEpochs=1, **kw)
    h.eq((L.batchSize, L.greedyRuns), (case['batch'], case['greedy']), 'options')
    tau = 1.0
    eps = Task.episodes
    B, G = case['batch'], case['greedy']
    total = 0
    for b in range(case['batches']):
        first = len(eps)
        L.learn(1)
        mine = eps[first:]
        h.eq(len(mine), B + G, 'episodes per batch')
        h.check(all(len(ep) for ep in mine), 'episodes run to their end')
        R0 = []
        for ep in mine[:B]:
            R0.append(sum(case['discount'] ** i * r for i, (_, _, r) in enumerate(ep)))
        R0 = np.array(R0)
        total += B
        h.eq(L.totalEpisodes, total, 'episode counter')
        h.eq(L.totalSteps, sum(len(ep) for bb in range(b + 1) for ep in eps[bb * (B + G):bb * (B + G) + B]), 'step counter')
        h.close(float(L.lengthAvg[-1]), np.mean([len(ep) for ep in mine[:B]]), 'average length')
        h.close(float(L.initr0Avg[-1]), R0.mean(), 'average return')
        h.close(float(L.rewardAvg[-1]), np.mean([np.mean([r for _, _, r in ep]) for ep in mine[:B]]), 'average reward')
        h.close(float(L.greedyAvg[-1]), np.mean([np.mean([r for _, _, r in ep]) for ep in mine[B:]]), 'average greedy reward')
        U = np.exp(tau * R0)
        want = U / U.max()
        h.eq(L.weightedDs.getNumSequences(), B, 'one weighted sequence per episode')
        for i, ep in enumerate(mine[:B]):
            seq = list(L.weightedDs.getSequenceIterator(i))
            h.eq(len(seq), len(ep), 'sequence length')
            raw = L.rawDs.getSequence(i)
            ret = 0.0
            rets = []
            for _, _, r in reversed(ep):
                ret = ret * case['discount'] + r
                rets.insert(0, ret)
            h.close([float(v) for v in np.ravel(raw[2])], rets, 'discounted returns')
            for (o, t, imp), (oo, a, _) in zip(seq, ep):
                h.close([float(v) for v in o], oo, 'observation')
                h.eq([float(v) for v in t], [float(j == a) for j in range(case['k'])], 'action target')
                h.close([float(v) for v in np.ravel(imp)], [want[i]] * case['k'], 'importance of an episode')
        tau = U.sum() / ((R0 - case['min']) * U).sum()
        h.close(float(L.tau), tau, 'inverse temperature')
    # Bernstein's inequality: less than one in 1e7
    h.check(abs(freq[0]) < 12 + 6 * max(freq[1], 0) ** 0.5, 'actions follow the output of the network, given the episode so far')
    h.check(np.isfinite(net.params).all(), 'finite parameters')
    h.nontrivial(B >= 2)


FACETS = {
    'discrete': {'gen': gen_discrete, 'run': run_discrete, 'quick': 50, 'thorough': 800},
    'continuous': {'gen': gen_cont, 'run': run_cont, 'quick': 60, 'thorough': 1500},
    'gradient': {'gen': gen_pg, 'run': run_pg, 'quick': 150, 'thorough': 4000},
    'climb': {'gen': gen_climb, 'run': run_climb, 'quick': 6, 'thorough': 100},
    'weighted': {'gen': gen_rwr, 'run': run_rwr, 'quick': 40, 'thorough': 800},
}
