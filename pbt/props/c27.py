"""C27: value-based and model-based reinforcement learning."""
RULE = ("tables and histories of random sizes learned by Q, SARSA, Q(lambda), fitted Q and the linear learners next to an explicit recomputation, and random Markov decision processes solved exactly; non-trivial: at least three updates, or a process with at least two states and actions")
ASSUMPTIONS = ["Q(lambda) is claimed for histories of one episode", "transitions across the border of two episodes are not claimed for linear learners", "fitted Q is compared with the same trainer run on the documented targets under the same random seed"]


def history(st, maxseq=4, maxlen=7):
    return st.lists(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99), st.one_of(st.integers(-3, 3).map(float), st.floats(-2, 2).map(lambda v: round(v, 4)))), min_size=1, max_size=maxlen), min_size=1, max_size=maxseq)


def long_history(st):
    """ one episode of twenty to forty steps over few states """
    step = st.tuples(st.integers(0, 99), st.integers(0, 99), st.integers(-3, 3).map(float))
    return st.lists(st.lists(step, min_size=20, max_size=40), min_size=1, max_size=1)


def gen_table(st):
    return st.fixed_dictionaries({'algo': st.sampled_from(['Q', 'SARSA', 'QLambda']), 'n': st.one_of(st.integers(1, 5), st.integers(1, 9)), 'k': st.one_of(st.integers(1, 4), st.integers(1, 7)), 'hist': st.one_of(history(st), history(st), history(st, 6, 15), history(st, 2, 60), long_history(st)), 'online': st.booleans(), 'repeat': st.integers(1, 3), 'alpha': st.sampled_from([0.5, 0.1, 1.0, 0.33]), 'gamma': st.sampled_from([0.99, 0.5, 0.0, 1.0]),
                                  'lam': st.sampled_from([0.9, 0.5, 0.0, 1.0]), 'init': st.lists(st.sampled_from([0.0, 1.0, -1.0, 0.25, 2.0]), min_size=63, max_size=63), 'agent': st.booleans(), 'tie': st.one_of(st.just(0), st.just(0), st.integers(1, 127)), 'seed': st.integers(0, 999)})


def q_update(V, algo, alpha, gamma, s, a, r, s2, a2):
    nxt = max(V[s2]) if algo == 'Q' else V[s2][a2]
    V[s][a] += alpha * (r + gamma * nxt - V[s][a])


def run_table(case, h):
    import random
    import numpy as np
    from pybrain.rl.learners import Q, SARSA, QLambda, ActionValueTable
    from pybrain.rl.agents import LearningAgent
    from pybrain.datasets import ReinforcementDataSet
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    n, k, algo = case['n'], case['k'], case['algo']
    hist = [[(s % n, a % k, r) for s, a, r in seq] for seq in case['hist']]
    if algo == 'QLambda':
        hist = hist[:1]
    V = [[case['init'][i * k + j] for j in range(k)] for i in range(n)]
    table = ActionValueTable(n, k)
    table.initialize(7.0)
    h.check(all(float(v) == 7.0 for v in table.params), 'initialize fills the table')
    for i in range(n):
        for j in range(k):
            table.updateValue(i, j, V[i][j])
    learner = QLambda(case['alpha'], case['gamma'], case['lam']) if algo == 'QLambda' else {'Q': Q, 'SARSA': SARSA}[algo](case['alpha'], case['gamma'])
    h.eq(learner.offPolicy, algo != 'SARSA', 'off-policy flag')
    online = case['online']
    if algo != 'QLambda':
        h.check(learner.batchMode is True, 'batch mode is the default')
        learner.batchMode = not online
    h.label(algo + (' online' if online else ' batch'))
    al, ga, la = case['alpha'], case['gamma'], case['lam']
    tol = [1e-9]
    ups = [0]

    def reflearn(seqs):
        if algo == 'QLambda':
            seq = seqs[0]
            for i in range(len(seq) - 1, 0, -1):
                w = la ** (len(seq) - 1 - i)
                if w < 1.01e-4:         # updates this small may be left out
                    tol[0] = max(tol[0], 2e-3)
                    continue
                (s, a, r), (s2, _, _) = seq[i - 1], seq[i]
                V[s][a] += al * w * (r + ga * max(V[s2]) - V[s][a])
                ups[0] += 1
        elif online:
            seq = seqs[-1]
            if len(seq) >= 2:
                (s, a, r), (s2, a2, _) = seq[-2:]
                q_update(V, algo, al, ga, s, a, r, s2, a2)
                ups[0] += 1
        else:
            for seq in seqs:
                for (s, a, r), (s2, a2, _) in zip(seq, seq[1:]):
                    q_update(V, algo, al, ga, s, a, r, s2, a2)
                    ups[0] += 1

    def same(what):
        got = [[float(table.getValue(i, j)) for j in range(k)] for i in range(n)]
        h.close(got, V, what, rtol=tol[0], atol=tol[0] * 10)
    if case['agent']:
        # the actions come from the explorer; they are read from the history afterwards
        agent = LearningAgent(table, learner)
        seqs = []
        for seq in hist:
            agent.newEpisode()
            seqs.append([])
            if online:
                agent.learn()
                reflearn(seqs)
                same('learning at the start of an episode')
            for s, _, r in seq:
                agent.integrateObservation(np.array([float(s)]))
                a = agent.getAction()
                agent.giveReward(r)
                a = int(np.ravel(a)[0])
                h.check(0 <= a < k, 'action in range')
                seqs[-1].append((s, a, r))
                if online:
                    agent.learn()
                    reflearn(seqs)
                    same('online learning')
        if not online:
            agent.learn(case['repeat'])
            for _ in range(case['repeat']):
                reflearn(seqs)
            same('learning from the history')
        agent.learning = False
        agent.learn()
        same('nothing is learned while learning is off')
    else:
        ds = ReinforcementDataSet(1, 1)
        for seq in hist:
            ds.newSequence()
            for s, a, r in seq:
                ds.addSample([s], [a], [r])
        learner.module = table
        learner.learnOnDataset(ds, case['repeat'])
        for _ in range(case['repeat']):
            reflearn(hist)
        same('learning from a data set')
    for i in range(n):
        best = [j for j in range(k) if table.getValue(i, j) == max(table.getActionValues(i))]
        h.eq([float(v) for v in table.getActionValues(float(i))], [float(table.getValue(i, j)) for j in range(k)], 'action values')
        h.check(int(table.getMaxAction(i)) in best, 'greedy action')
        h.check(int(table.activate([i])[0]) in best, 'activation is the greedy action')
    i = case['seed'] % n
    if case['tie']:
        for j in range(k):
            table.updateValue(i, j, 3.0 if case['tie'] >> j & 1 else -2.0)
        best = [j for j in range(k) if case['tie'] >> j & 1] or list(range(k))
        got = [int(table.activate([i])[0]) for _ in range(130)] + [int(table.getMaxAction(i)) for _ in range(120)]
        h.eq(sorted(set(got[:130])), best, 'activation draws among all the best actions')
        h.eq(sorted(set(got[130:])), best, 'every best action is the greedy one at times')
        for j in range(k):
            h.check(got.count(j) * len(best) <= 250 + 6 * np.sqrt(250 * len(best)) + 6, 'no best action is preferred')
    h.nontrivial(ups[0] >= 3 and n * k >= 2)


def gen_network(st):
    return st.fixed_dictionaries({'dim': st.integers(1, 3), 'k': st.one_of(st.integers(1, 4), st.integers(1, 8)), 'states': st.lists(st.lists(st.floats(-2, 2), min_size=3, max_size=3), min_size=1, max_size=4), 'seed': st.integers(0, 9999), 'hist': st.lists(st.lists(st.tuples(st.lists(st.floats(-2, 2), min_size=3, max_size=3), st.integers(0, 9), st.one_of(st.floats(-2, 2), st.sampled_from([0.0, 0.0, 1.0]))), min_size=1, max_size=14), min_size=1, max_size=4),
                                  'learn': st.booleans(), 'epochs': st.integers(1, 4), 'gamma': st.sampled_from([0.9, 0.5, 0.0]), 'agent': st.booleans()})


def run_network(case, h):
    import random
    import numpy as np
    from pybrain.rl.learners import NFQ, ActionValueNetwork
    from pybrain.rl.agents import LearningAgent
    from pybrain.datasets import ReinforcementDataSet, SupervisedDataSet
    from pybrain.supervised.trainers import RPropMinusTrainer
    dim, k = case['dim'], case['k']
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    net = ActionValueNetwork(dim, k)

    def value(network, s, a):
        return float(network.activate(list(s[:dim]) + [float(j == a) for j in range(k)])[0])

    for s in case['states']:
        want = [value(net.network, s, a) for a in range(k)]
        h.close([float(v) for v in np.ravel(net.getActionValues(np.array(s[:dim])))], want, 'action values')
        h.close([float(net.getValue(np.array(s[:dim]), a)[0]) for a in range(k)], want, 'single values')
        m = int(net.getMaxAction(np.array(s[:dim])))
        h.close(want[m], max(want), 'greedy action', rtol=1e-12, atol=1e-12)
        h.eq(int(net.activate(s[:dim])[0]), m, 'activation is the greedy action')
    if case['learn']:
        learner = NFQ(maxEpochs=case['epochs'])
        learner.gamma = case['gamma']
        hist = []
        if case['agent']:
            agent = LearningAgent(net, learner)
            for seq in case['hist']:
                agent.newEpisode()
                hist.append([])
                for s, a, r in seq:
                    agent.integrateObservation(np.array(s[:dim]))
                    a = int(agent.getAction()[0])
                    h.check(0 <= a < k, 'action in range')
                    agent.giveReward(r)
                    hist[-1].append((s, a, r))
        else:
            ds = ReinforcementDataSet(dim, 1)
            for seq in case['hist']:
                ds.newSequence()
                hist.append([(s, a % k, r) for s, a, r in seq])
                for s, a, r in hist[-1]:
                    ds.addSample(s[:dim], [a], [r])
            learner.module = net
            learner.dataset = ds
        ref = net.network.copy()
        sup = SupervisedDataSet(dim + k, 1)
        for seq in hist:
            for (s, a, r), (s2, _, _) in zip(seq, seq[1:]):
                qv = value(ref, s, a)
                sup.addSample(list(s[:dim]) + [float(j == a) for j in range(k)], [qv + 0.5 * (r + case['gamma'] * max(value(ref, s2, b) for b in range(k)) - qv)])
        if len(sup) < 4:
            h.discard()
        random.seed(case['seed'] + 1)
        np.random.seed(case['seed'] + 1)
        RPropMinusTrainer(ref, dataset=sup, batchlearning=True, verbose=False).trainUntilConvergence(maxEpochs=case['epochs'])
        random.seed(case['seed'] + 1)
        np.random.seed(case['seed'] + 1)
        before = net.network.params.copy()
        learner.learn()
        h.close([float(v) for v in net.network.params], [float(v) for v in ref.params], 'fitted values', rtol=1e-6, atol=1e-8)
        h.label('nfq', 'changed' if (before != net.network.params).any() else 'unchanged')
    h.nontrivial(case['learn'] and k > 1)


ALGOS = ['Q_LinFA', 'QLambda_LinFA', 'SARSALambda_LinFA', 'LSTDQLambda', 'LSPI', 'GQLambda']


def gen_linfa(st):
    return st.fixed_dictionaries({'algo': st.sampled_from(ALGOS), 'k': st.one_of(st.integers(1, 3), st.integers(1, 6)), 'f': st.one_of(st.integers(1, 4), st.integers(1, 6)), 'breaks': st.lists(st.integers(0, 39), max_size=12), 'steps': st.lists(st.tuples(st.lists(st.floats(-1, 1).map(lambda v: round(v, 3)), min_size=6, max_size=6), st.floats(-1, 1).map(lambda v: round(v, 3)), st.integers(0, 9)), min_size=2, max_size=40), 'mode': st.sampled_from(['agent', 'direct']),
                                  'zero': st.booleans(), 'gamma': st.sampled_from([0.99, 0.5, 0.0]), 'lam': st.sampled_from([0.9, 0.5, 0.0]), 'lr': st.sampled_from([0.5, 0.1, 0.02]), 'policy': st.sampled_from(['greedy', 'epsilon', 'boltzmann']), 'lazy': st.sampled_from([20, None, 3]), 'seed': st.integers(0, 9999), 'episodes': st.integers(0, 4), 'decay': st.sampled_from([100, 10]),
                                  'sec': st.sampled_from([1.0, 0.3]), 'explore': st.booleans()})


def run_linfa(case, h):
    import random
    import numpy as np
    import pybrain.rl.learners.valuebased.linearfa as lf
    from pybrain.rl.agents.linearfa import LinearFA_Agent
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    k, f, algo = case['k'], case['f'], case['algo']
    cls = getattr(lf, algo)
    kw = {'rewardDiscount': case['gamma'], 'learningRate': case['lr'], 'learningRateDecay': case['decay'], 'randomInit': not case['zero']}
    if algo == 'LSPI':
        kw['lazyInversions'] = case['lazy']
        kw['exploring'] = case['explore']
        kw['randomInit'] = False
    if algo == 'GQLambda':
        kw['sec_learningRate'] = case['sec']
    L = cls(k, f, **kw)
    L._lambda = case['lam']
    n0 = case['decay']
    h.close(float(L.learningRate), case['lr'] * (n0 + 1.0) / (n0 + 2.0), 'first decay of the learning rate')
    for e in range(case['episodes']):
        L.newEpisode()
        h.close(float(L.learningRate), case['lr'] * (n0 + 1.0) / (n0 + 3.0 + e), 'decay of the learning rate')
    h.label(algo, case['mode'])
    theta = np.array(L._theta, float)
    h.eq(theta.shape, (k, f), 'one row of weights per action')
    if kw['randomInit'] is False:
        h.check(not theta.any(), 'zero weights')
    trace = np.zeros((k, f))
    A, b = np.zeros((k * f, k * f)), np.zeros(k * f)
    w2 = np.zeros((k, f))
    st = {'count': 0, 'theta': theta, 'untouched': np.ones(k * f, bool), 'pure': True, 'loose': 1e-7}
    g, lam = case['gamma'], case['lam']

    def probs_greedy(x):
        q = st['theta'].dot(x)
        best = np.nonzero(q == q.max())[0]
        srt = np.sort(q)
        if len(q) > 1 and srt[-1] - srt[-2] < 1e-9:
            return None
        p = np.zeros(k)
        p[best[0]] = 1
        return p

    agent = None
    if case['mode'] == 'agent':
        agent = LinearFA_Agent(L)
        agent.newEpisode() if case['episodes'] % 2 and len(agent.history) else None
        agent.epsilonGreedy = case['policy'] == 'epsilon'
        agent.greedy = case['policy'] == 'greedy'
        h.eq((agent.indim, agent.outdim), (f, 1), 'agent dimensions')

    def behaviour(x):
        if agent is None:
            q = st['theta'].dot(x)
            e = np.exp(np.clip(q - q.max(), -20, 0))
            return e / e.sum()
        pg = probs_greedy(x)
        if case['policy'] == 'greedy':
            return pg
        if case['policy'] == 'epsilon':
            return None if pg is None else pg * 0.9 + 0.1 / k
        q = st['theta'].dot(x)
        e = np.exp(np.clip(q - q.max(), -20, 0))
        return e / e.sum()

    def update(s, a, r, s2, a2, lr):
        th = st['theta']
        phi = np.zeros((k, f))
        phi[a] = s
        if algo == 'Q_LinFA':
            th = th + lr * (r + g * max(th.dot(s2)) - th[a].dot(s)) * phi
        elif algo in ('QLambda_LinFA', 'SARSALambda_LinFA'):
            trace[:] = trace * g * lam + phi
            nxt = max(th.dot(s2)) if algo == 'QLambda_LinFA' else th[a2].dot(s2)
            th = th + lr * (r + g * nxt - th[a].dot(s)) * trace
        elif algo == 'LSTDQLambda':
            trace[:] = trace * g * lam + phi
            p = probs_greedy(s2)
            if p is None:
                return False
            A[:] += np.outer(trace.ravel(), (phi - g * np.outer(p, s2)).ravel())
            b[:] += r * trace.ravel()
            th = None
        elif algo == 'LSPI':
            p2 = np.zeros((k, f))
            p2[a2] = s2
            A[:] += np.outer(phi.ravel(), phi.ravel() - g * p2.ravel())
            b[:] += r * phi.ravel()
            if case['lazy'] is None or st['count'] % case['lazy'] == 0:
                rhs = b
                if case['explore']:
                    st['untouched'] &= phi.ravel() == 0
                    rhs = b + 1.0 * st['untouched']
                st['rhs'] = np.array(rhs)
                th = None
            st['count'] += 1
        else:
            lp, bp = probs_greedy(s), behaviour(s)
            if lp is None or bp is None or bp[a] == 0:
                return False
            rho = lp[a] / bp[a]
            trace[:] = trace * g * lam * rho + phi
            pn = probs_greedy(s2)
            if pn is None:
                return False
            bar = np.outer(pn, s2)
            d = r + g * (th * bar).sum() - th[a].dot(s)
            th = th + lr * (d * trace - g * (1 - lam) * (w2 * trace).sum() * bar)
            w2[:] += lr * case['sec'] * (d * trace - (w2 * phi).sum() * phi)
        st['theta'] = th
        return True

    def compare():
        got = np.array(L._theta, float)
        if st['theta'] is None:
            # least squares: the minimum norm solution of A theta = b
            sv = np.linalg.svd(A, compute_uv=False)
            if sv.max() > 0 and ((sv < 1e-5 * sv.max()) & (sv > 1e-13 * sv.max())).any():
                return False
            rhs = st.get('rhs') if algo == 'LSPI' else b
            U, S, Vt = np.linalg.svd(A)
            keep = S > 1e-8 * max(S.max(), 1e-300)
            want = Vt.T[:, keep].dot((U.T.dot(rhs))[keep] / S[keep]) if keep.any() else np.zeros(k * f)
            h.close(got.ravel(), want, 'least squares solution', rtol=1e-5, atol=1e-6 * (1 + abs(want).max()))
            st['theta'] = got
        else:
            if not np.isfinite(st['theta']).all() or abs(st['theta']).max() > 1e6:
                return False
            h.close(got, st['theta'], 'weights', rtol=1e-6, atol=1e-8)
            st['theta'] = got
        return True

    last = None
    n = 0
    eps = case['episodes']
    for i, (s, r, a) in enumerate(case['steps']):
        if agent is None:
            for _ in range(case['breaks'].count(i)):
                L.newEpisode()
                h.close(float(L.learningRate), case['lr'] * (n0 + 1.0) / (n0 + 3.0 + eps), 'decay of the learning rate')
                eps += 1
                trace[:] = 0
                last = None
        s = np.array(s[:f])
        a = a % k
        lr = float(L.learningRate)
        if agent is None:
            if last is not None:
                ls, la, lrw = last
                if L.passNextAction:
                    L._updateWeights(ls, la, lrw, s, a)
                else:
                    L._updateWeights(ls, la, lrw, s)
                if not update(ls, la, lrw, s, a, lr) or not compare():
                    h.discard()
                n += 1
            last = (s, a, r)
        else:
            agent.integrateObservation(s)
            if last is not None and not L.passNextAction:
                if not update(last[0], last[1], last[2], s, None, lr) or not compare():
                    h.discard()
                n += 1
            bp = behaviour(s)
            act = agent.getAction()
            a = int(np.ravel(act)[0])
            h.check(0 <= a < k, 'action in range')
            if bp is not None and case['policy'] == 'greedy':
                h.eq(a, int(np.argmax(bp)), 'greedy agents act greedily')
            if last is not None and L.passNextAction:
                if not update(last[0], last[1], last[2], s, a, lr) or not compare():
                    h.discard()
                n += 1
            agent.giveReward(r)
            last = (s, a, r)
    if agent is not None:
        h.eq(len(agent.history), len(case['steps']), 'history')
        for (o, a, r), (s, rr, _) in zip(agent.history.getSequenceIterator(agent.history.getNumSequences() - 1), case['steps']):
            h.close([float(v) for v in o], s[:f], 'logged observation')
            h.close(float(r[0]), rr, 'logged reward')
    h.nontrivial(n >= 3)


def gen_policy(st):
    return st.fixed_dictionaries({'q': st.lists(st.sampled_from([0.0, 1.0, 0.5, -1.0, 2.0, 6.0, -8.0]), min_size=1, max_size=7), 'mode': st.sampled_from(['greedy', 'epsilon', 'boltzmann', 'temp0']), 'eps': st.sampled_from([0.1, 0.5, 1.0, 0.0]), 'temp': st.sampled_from([1.0, 0.3, 5.0]), 'seed': st.integers(0, 9999)})


def run_policy(case, h):
    import random
    import numpy as np
    from pybrain.rl.learners.valuebased.linearfa import Q_LinFA
    from pybrain.rl.agents.linearfa import LinearFA_Agent
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    k = len(case['q'])
    L = Q_LinFA(k, 1, randomInit=False)
    L.learningRate = 0.0
    agent = LinearFA_Agent(L, learning=False)
    agent.logging = False
    L._theta[:, 0] = case['q']
    q = np.array(case['q'])
    best = q == q.max()
    if case['mode'] == 'greedy':
        agent.greedy = True
        p = best / best.sum()
    elif case['mode'] == 'epsilon':
        agent.epsilonGreedy = True
        agent.init_exploration = case['eps']
        agent.reset()
        e = agent._expl_proportion
        h.check(abs(e - case['eps']) <= 0.011 * case['eps'] + 1e-12, 'initial exploration')
        p = best / best.sum() * (1 - e) + e / k
    else:
        t = case['temp'] if case['mode'] == 'boltzmann' else 0
        agent.init_temperature = t
        agent.reset()
        t2 = agent._temperature
        h.check(abs(t2 - t) <= 0.011 * t + 1e-12, 'initial temperature')
        p = best / best.sum() if t == 0 else np.exp((q - q.max()) / t2) / np.exp((q - q.max()) / t2).sum()
    L._theta[:, 0] = case['q']
    N = 1500
    c = np.zeros(k)
    for _ in range(N):
        agent.integrateObservation(np.array([1.0]))
        c[int(agent.getAction()[0])] += 1
        agent.giveReward(0.0)
    h.label(case['mode'])
    for i in range(k):
        h.check(abs(c[i] - N * p[i]) <= 6 * np.sqrt(N * p[i] * (1 - p[i])) + 2 + 1e-6 * N, 'action frequencies')
    h.close(L._theta[:, 0], case['q'], 'weights do not change without learning')
    h.nontrivial(k > 1)


def gen_mdp(st):
    return st.fixed_dictionaries({'nk': st.one_of(st.tuples(st.integers(1, 5), st.integers(1, 3)), st.tuples(st.integers(1, 8), st.integers(1, 2)), st.tuples(st.integers(1, 3), st.integers(1, 6))), 'seed': st.integers(0, 10 ** 6), 'kind': st.sampled_from(['dense', 'sparse', 'deterministic', 'chain']), 'gamma': st.sampled_from([0.0, 0.3, 0.7, 0.9, 0.95]), 'feat': st.integers(1, 4), 'limit': st.booleans(), 'intR': st.booleans(), 'part': st.booleans(), 'init': st.booleans()})


def run_mdp(case, h):
    import itertools
    import random
    import numpy as np
    from pybrain.rl.learners.modelbased import trueValues, trueQValues, policyIteration, LSTD_values, LSTD_Qvalues, LSPI_policy, LSTD_PI_policy
    import pybrain.rl.learners.modelbased.policyiteration as pi
    import pybrain.rl.learners.modelbased.leastsquares as ls
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    rs = np.random.RandomState(case['seed'])
    (n, k), g = case['nk'], case['gamma']

    def row(s, a):
        kind = case['kind']
        p = np.zeros(n)
        if kind == 'dense':
            p = rs.rand(n) + 0.01
        elif kind == 'sparse':
            for j in rs.randint(0, n, 2):
                p[j] += rs.rand() + 0.05
        elif kind == 'deterministic':
            p[rs.randint(n)] = 1
        else:
            p[min(n - 1, s + 1) if a == 0 else max(0, s - 1)] = 1
        return p / p.sum()
    Ts = [np.array([row(s, a) for s in range(n)]) for a in range(k)]
    R = rs.randint(-2, 3, n).astype(float) if case['intR'] else rs.randn(n)
    h.label(case['kind'])
    tol = 2e-4 * (abs(R).max() + 1e-9) / (1 - g)

    def V_of(T):
        return np.linalg.solve(np.eye(n) - g * T, T.dot(R))
    policy = rs.rand(n, k) + 1e-3
    if case['kind'] == 'deterministic':
        policy = np.eye(k)[rs.randint(0, k, n)]
    policy = policy / policy.sum(1)[:, None]
    T = np.array([sum(policy[s, a] * Ts[a][s] for a in range(k)) for s in range(n)])
    Tc = [t.copy() for t in Ts]
    h.close(pi.collapsedTransitions(Ts, policy), T, 'collapsed transitions', rtol=1e-9, atol=1e-12)
    V = V_of(T)
    h.close(trueValues(T, R, g), V, 'state values', rtol=1e-9, atol=tol)
    Qref = np.array([[Ts[a][s].dot(R + g * V) for a in range(k)] for s in range(n)])
    h.close(trueQValues(Ts, R, g, policy), Qref, 'state-action values', rtol=1e-9, atol=tol)
    p, Tr = pi.randomPolicy(Ts)
    h.close(p, np.full((n, k), 1.0 / k), 'random policy')
    h.close(Tr, sum(Ts) / k, 'random policy dynamics', rtol=1e-9, atol=1e-12)
    p, Tr = pi.randomDeterministic(Ts)
    h.check(((p == 0) | (p == 1)).all() and (p.sum(1) == 1).all(), 'random deterministic policy')
    h.close(Tr, [Ts[int(np.argmax(p[s]))][s] for s in range(n)], 'random deterministic dynamics', rtol=1e-9, atol=1e-12)
    # greedy policies
    Vr = rs.randint(-2, 3, n).astype(float)
    gp, gT = pi.greedyPolicy(Ts, R, g, Vr)
    qs = np.array([[Ts[a][s].dot(R + g * Vr) for a in range(k)] for s in range(n)])
    h.close(gp.sum(1), np.ones(n), 'greedy policy rows sum to one')
    for s in range(n):
        for a in range(k):
            if gp[s, a] > 0:
                h.check(qs[s, a] >= qs[s].max() - 1e-9, 'only best actions are chosen')
            elif qs[s, a] >= qs[s].max() - 1e-15 and case['kind'] in ('deterministic', 'chain') and case['intR'] and g in (0.0,):
                h.fail('tied actions share the probability')
    h.close(gT, [sum(gp[s, a] * Ts[a][s] for a in range(k)) for s in range(n)], 'greedy dynamics', rtol=1e-9, atol=1e-12)
    qi = rs.randint(0, 3, (n, k) if n % 2 else (rs.randint(1, 14), rs.randint(1, 10))).astype(float)
    want = np.array([(q == q.max()) / float((q == q.max()).sum()) for q in qi])
    h.close(pi.greedyQPolicy(qi), want, 'greedy on state-action values')
    # optimal policy by enumeration
    best = None
    for c in itertools.product(range(k), repeat=n):
        v = V_of(np.array([Ts[a][s] for s, a in enumerate(c)]))
        best = v if best is None else np.maximum(best, v)
    init = {'initpolicy': policy} if case['init'] else {}
    for name, fun in (('policy iteration', lambda: policyIteration(Ts, R, g, **init)), ('least squares policy iteration', lambda: LSPI_policy(np.eye(n), Ts, R, g, **init)),
                      ('policy iteration with least squares values', lambda: LSTD_PI_policy(np.eye(n), Ts, R, g, **init))):
        p, Tp = fun()
        h.close(np.array(p).sum(1), np.ones(n), name + ' returns a policy')
        Tw = np.array([sum(p[s, a] * Ts[a][s] for a in range(k)) for s in range(n)])
        h.close(Tp, Tw, name + ' returns the dynamics of its policy', rtol=1e-9, atol=1e-12)
        h.close(V_of(Tw), best, name + ' is optimal', rtol=1e-9, atol=3 * tol / (1 - g))
    # least squares with features (one row per feature)
    h.close(LSTD_values(T, R, np.eye(n), g), V, 'LSTD with tabular features', rtol=1e-6, atol=1e-7 / (1 - g) ** 2)
    F = rs.randn(case['feat'], n)
    if case['feat'] < n:
        A = F.dot(F.T - g * T.dot(F.T))
        b = F.dot(T.dot(R))
        if np.linalg.cond(A) < 1e6:
            want = np.linalg.solve(A, b).dot(F)
            h.close(LSTD_values(T, R, F, g), want, 'LSTD fixed point', rtol=1e-6, atol=1e-7 * (1 + abs(want).max()))
            h.close(LSTD_values(T, R, F, g, MAT_LIMIT=0), want, 'LSTD fixed point without large arrays', rtol=1e-6, atol=1e-7 * (1 + abs(want).max()))
            h.label('features')
    h.close(LSTD_Qvalues(Ts, policy, R, np.eye(n), g), Qref, 'LSTD state-action values', rtol=1e-6, atol=1e-6 / (1 - g) ** 2)
    h.check(all((x == y).all() for x, y in zip(Ts, Tc)), 'the model is not modified')
    h.nontrivial(n >= 2 and k >= 2)


FACETS = {
    'table': {'gen': gen_table, 'run': run_table, 'quick': 400, 'thorough': 12000},
    'network': {'gen': gen_network, 'run': run_network, 'quick': 60, 'thorough': 1500},
    'linfa': {'gen': gen_linfa, 'run': run_linfa, 'quick': 300, 'thorough': 8000},
    'policy': {'gen': gen_policy, 'run': run_policy, 'quick': 30, 'thorough': 400},
    'mdp': {'gen': gen_mdp, 'run': run_mdp, 'quick': 200, 'thorough': 5000},
}
