"""C25: experiments, agents and tasks interact in a fixed protocol."""
RULE = ("random tasks (episode lengths, rewards, scalings), agents and schedules of experiment calls, recorded call by call and compared with a model of the protocol; non-trivial: at least four interactions")
ASSUMPTIONS = ["optimization agents wrap optimizers that evaluate one candidate at a time", "sensor and actor limits are non-empty intervals"]
import itertools


def world(log, obsdim, actdim, lengths, episodic, obs_of, rew_of):
    import numpy as np
    from pybrain.rl.environments import Environment, EpisodicTask, Task

    class Env(Environment):
        indim = actdim
        outdim = obsdim
        t = 0

        def getSensors(self):
            log.append(('sense', self.t))
            return np.array(obs_of(self.t))

        def performAction(self, a):
            self.t += 1
            log.append(('act', [float(x) for x in a]))

        def reset(self):
            log.append(('envreset',))

    base = EpisodicTask if episodic else Task

    class MyTask(base):
        episode = -1
        step = 0

        def __init__(self):
            base.__init__(self, Env())

        def reset(self):
            base.reset(self)
            self.episode += 1
            self.step = 0

        def performAction(self, a):
            self.step += 1
            base.performAction(self, a)

        def isFinished(self):
            return self.step >= lengths[self.episode % len(lengths)]

        def getReward(self):
            log.append(('reward', self.env.t))
            return rew_of(self.env.t)
    return MyTask()


def gen_steps(st):
    return st.fixed_dictionaries({'obsdim': st.one_of(st.integers(1, 3), st.integers(1, 7)), 'actdim': st.one_of(st.integers(1, 3), st.integers(1, 7)), 'lengths': st.lists(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(6, 120)), min_size=1, max_size=4), 'kind': st.sampled_from(['plain', 'continuous', 'episodic', 'queued']),
                                  'plan': st.lists(st.tuples(st.sampled_from(['do', 'learn', 'episodes', 'episodes', 'reset', 'toggle', 'logging', 'agentlearn', 'new']), st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 12), st.integers(1, 40))), min_size=1, max_size=7),
                                  'learner': st.booleans(), 'rec': st.booleans(), 'scale': st.sampled_from(['none', 'none', 'both', 'some']), 'clip': st.booleans(), 'noise': st.sampled_from([0.0, 1.0, 5.0]), 'queue': st.one_of(st.integers(1, 4), st.integers(1, 9)), 'cycles': st.one_of(st.integers(0, 4), st.integers(0, 9)), 'zero': st.booleans(), 'seed': st.integers(0, 9999)})


def run_steps(case, h):
    import numpy as np
    from pybrain.rl.agents import LearningAgent
    from pybrain.rl.experiments import Experiment, ContinuousExperiment, EpisodicExperiment
    from pybrain.structure import FullConnection
    from pybrain.rl.experiments.queued import QueuedExperiment
    from pybrain.rl.learners.learner import ExploringLearner, DataSetLearner
    from pybrain.tools.shortcuts import buildNetwork
    rs = np.random.RandomState(case['seed'])
    od, ad = case['obsdim'], case['actdim']
    log = []
    table = rs.uniform(-3, 3, (500, od))
    rewards = rs.uniform(-2, 2, 500)
    if case['zero']:
        rewards[::2] = 0.0
    kind = case['kind']
    episodic = kind in ('episodic', 'queued')
    task = world(log, od, ad, case['lengths'], episodic, lambda t: table[t % 500], lambda t: rewards[t % 500])
    task.clipping = case['clip']
    slim = alim = None
    if case['scale'] != 'none':
        slim = [None if case['scale'] == 'some' and i % 2 else (-1.0 - i, 2.0) for i in range(od)]
        alim = [None if case['scale'] == 'some' and i % 2 == 0 else (-4.0, 1.0 + i) for i in range(ad)]
        task.setScaling(slim, alim)

    class Learner(ExploringLearner, DataSetLearner):
        def learn(self):
            log.append(('learn', [[[[float(x) for x in f] for f in s] for s in seq] for seq in self.dataset]))

        def explore(self, state, action):
            log.append(('explore', [float(x) for x in state], [float(x) for x in action]))
            return action + case['noise'] * (1 + len(state))

        def newEpisode(self):
            log.append(('newEpisode',))

        def reset(self):
            log.append(('learnerreset',))
    if case['rec']:
        net = buildNetwork(od, 2, ad, bias=True, recurrent=True)
        net.addRecurrentConnection(FullConnection(net['hidden0'], net['hidden0']))
        net.sortModules()
    else:
        net = buildNetwork(od, ad, bias=True)
    net._setParameters(rs.normal(0, 1, net.paramdim))
    mirror = net.copy()
    Wt = net.params.copy()
    learner = Learner() if case['learner'] else None
    agent = LearningAgent(net, learner)
    if learner is not None:
        h.check(learner.module is net and learner.dataset is agent.history, 'the learner knows module and history')
    h.eq(agent.learning, learner is not None, 'an agent without learner does not learn')
    exp = {'plain': Experiment, 'continuous': ContinuousExperiment, 'episodic': EpisodicExperiment, 'queued': QueuedExperiment}[kind](task, agent)
    h.label(kind)
    m = {'t': 0, 'hist': [], 'learning': learner is not None, 'logging': True, 'episode': -1, 'stepid': 0}
    want = []

    def clipf(v, a, b):
        return min(max(v, a), b) if case['clip'] else v

    def net_out(x):
        return np.array(mirror.activate(np.array(x)))

    def obs_now():
        o = [float(v) for v in table[m['t'] % 500]]
        if slim:
            o = [v if l is None else clipf((v - l[0]) / (l[1] - l[0]) * 2 - 1, -1, 1) for v, l in zip(o, slim)]
        return o

    def step():
        want.append(('sense', m['t']))
        o = obs_now()
        a = net_out(o)
        if m['learning']:
            want.append(('explore', o, [float(v) for v in a]))
            a = a + case['noise'] * (1 + od)
        e = [float(v) for v in a]
        if alim:
            e = [v if l is None else clipf((v + 1) / 2 * (l[1] - l[0]) + l[0], *l) for v, l in zip(e, alim)]
        want.append(('act', e))
        m['t'] += 1
        r = float(rewards[m['t'] % 500])
        if episodic:
            want.append(('reward', m['t']))    # accumulated by the task
        want.append(('reward', m['t']))
        if m['logging']:
            if not m['hist']:
                m['hist'].append([])
            m['hist'][-1].append([o, [float(v) for v in a], [r]])
        m['stepid'] += 1
        return r

    def learn(n):
        if m['learning']:
            for _ in range(n):
                want.append(('learn', [list(s) for s in m['hist'] or [[]]]))

    def episode():
        if m['logging'] and (not m['hist'] or m['hist'][-1]):
            m['hist'].append([])
        if m['learning']:
            want.append(('newEpisode',))
        mirror.reset()
        m['stepid'] = 0
        m['episode'] += 1
        want.append(('envreset',))
        return [step() for _ in range(case['lengths'][m['episode'] % len(case['lengths'])])]

    def reset():
        m['hist'] = []
        mirror.reset()
        if m['learning']:
            want.append(('learnerreset',))

    def flat(x):
        if isinstance(x, (list, tuple)):
            r = ['(']
            for v in x:
                r += flat(v)
            return r + [')']
        return [x]

    def compare(what):
        h.eq([e[0] for e in log], [e[0] for e in want], 'order of calls during %s' % what)
        for a, b in zip(log, want):
            fa, fb = flat(a[1:]), flat(b[1:])
            h.eq([v for v in fa if isinstance(v, str)], [v for v in fb if isinstance(v, str)], 'shape of %s' % a[0])
            h.close([v for v in fa if not isinstance(v, str)], [v for v in fb if not isinstance(v, str)], 'values of %s during %s' % (a[0], what))
        del log[:], want[:]
        got = [[[[float(x) for x in f] for f in s] for s in seq] for seq in agent.history]
        mod = [s for s in m['hist'] if s]
        h.eq([len(s) for s in got if s], [len(s) for s in mod], 'lengths of logged episodes after %s' % what)
        for a, b in zip([s for s in got if s], mod):
            fa, fb = flat(a), flat(b)
            h.close([v for v in fa if not isinstance(v, str)], [v for v in fb if not isinstance(v, str)], 'logged episode after %s' % what)

    total = 0
    for op, n in case['plan']:
        if episodic and op in ('do', 'learn'):
            op = 'episodes'
            n = 1 + n % 4
        elif not episodic and op == 'episodes':
            op = 'learn' if kind == 'continuous' else 'do'
        elif kind == 'plain' and op == 'learn':
            op = 'do'
        if op == 'do' and not episodic:
            for _ in range(n):
                step()
            h.eq(exp.doInteractions(n), m['stepid'], 'number of interactions')
        elif op == 'learn' and kind == 'continuous':
            for _ in range(n):
                step()
                learn(1)
            h.eq(exp.doInteractionsAndLearn(n), m['stepid'], 'number of interactions')
        elif op == 'episodes' and episodic:
            rs_ = [episode() for _ in range(n)]
            got = exp.doEpisodes(n)
            h.eq([len(r) for r in got], [len(r) for r in rs_], 'lengths of episodes')
            h.close([float(v) for r in got for v in r], [v for r in rs_ for v in r], 'rewards of the steps')
            h.eq(exp.stepid, m['stepid'], 'number of interactions in the last episode')
            h.close(task.getTotalReward(), sum(rs_[-1]), 'total reward')
        elif op == 'reset':
            reset()
            agent.reset()
        elif op == 'toggle':
            agent.learning = not m['learning']
            m['learning'] = learner is not None and not m['learning']
            h.eq(agent.learning, m['learning'], 'learning flag')
        elif op == 'logging':
            agent.logging = m['logging'] = not m['logging']
        elif op == 'agentlearn':
            learn(n)
            agent.learn(n)
        elif op == 'new' and not episodic and (not m['hist'] or m['hist'][-1]):
            if m['logging'] and (not m['hist'] or m['hist'][-1]):
                m['hist'].append([])
            mirror.reset()
            if m['learning']:
                want.append(('newEpisode',))
            agent.newEpisode()
        compare(op)
        total = max(total, m['t'])
    if kind == 'queued':
        agent.logging = m['logging'] = True
        reset()
        for _ in range(case['queue']):
            episode()
        for _ in range(case['cycles']):
            learn(1)
            m['hist'] = m['hist'][1:]
            episode()
        exp.run(case['queue'], case['cycles'])
        compare('run')
        h.eq(agent.history.getNumSequences(), case['queue'], 'length of the queue')
    h.close(net.params, Wt, 'parameters stay')
    h.nontrivial(m['t'] >= 4)


def gen_total(st):
    return st.fixed_dictionaries({'lengths': st.lists(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 80)), min_size=1, max_size=5), 'discount': st.sampled_from([None, None, 0.5, 0.9, 0.99, 1.0, 1.02]), 'batch': st.one_of(st.integers(1, 4), st.integers(1, 14)), 'agent': st.sampled_from(['module', 'agent']), 'calls': st.integers(1, 3), 'call': st.booleans(), 'seed': st.integers(0, 9999), 'recurrent': st.booleans()})


def run_total(case, h):
    import numpy as np
    from pybrain.rl.agents import LearningAgent
    from pybrain.structure import FullConnection
    from pybrain.tools.shortcuts import buildNetwork
    rs = np.random.RandomState(case['seed'])
    log = []
    rewards = rs.uniform(-2, 2, 500)
    obs = rs.uniform(-2, 2, (500, 2))
    task = world(log, 2, 1, case['lengths'], True, lambda t: obs[t % 500], lambda t: rewards[t % 500])
    task.discount = case['discount']
    task.batchSize = case['batch']
    net = buildNetwork(2, 2, 1, bias=True, recurrent=case['recurrent'])
    if case['recurrent']:
        net.addRecurrentConnection(FullConnection(net['hidden0'], net['hidden0']))
        net.sortModules()
    net._setParameters(rs.normal(0, 1, net.paramdim))
    mirror = net.copy()
    x = net if case['agent'] == 'module' else LearningAgent(net)
    t, e = 0, 0
    acts = []
    for k in range(case['calls']):
        tot = []
        for b in range(case['batch']):
            r = 0.0
            mirror.reset()
            n = case['lengths'][e % len(case['lengths'])]
            for i in range(n):
                acts.append([float(v) for v in mirror.activate(obs[t % 500])])
                t += 1
                r += (case['discount'] or 1.0) ** (i + 1) * rewards[t % 500]
            e += 1
            tot.append(r)
        got = task(x) if case['call'] else task.f(x)
        h.close(got, np.mean(tot), 'average total reward')
        h.close(task.getTotalReward(), tot[-1], 'total reward of the last episode')
        h.eq(task.samples, n, 'samples of the last episode')
    h.close([l[1] for l in log if l[0] == 'act'], acts, 'actions')
    h.eq(len([1 for l in log if l[0] == 'envreset']), e, 'resets')
    h.label(case['agent'])
    h.nontrivial(t >= 4)
    h.raises(ValueError, lambda: task.f(object()), 'nothing else can be evaluated')
    h.eq((task.indim, task.outdim), (1, 2), 'dimensions')


def gen_scaling(st):
    lim = st.one_of(st.none(), st.tuples(st.floats(-50, 50), st.sampled_from([0.01, 1.0, 7.5, 100.0])), st.sampled_from([[0.0, 1.0], [-1.0, 2.0], [0.0, 5.0], [-3.0, 3.0], [-1.0, 1.0]]))
    return st.fixed_dictionaries({'limits': st.lists(lim, min_size=1, max_size=9), 'vals': st.lists(st.floats(-80, 80), min_size=9, max_size=9), 'units': st.lists(st.floats(-1.5, 1.5), min_size=9, max_size=9), 'clip': st.booleans()})


def run_scaling(case, h):
    import numpy as np
    from pybrain.rl.environments import Task, Environment

    class Env(Environment):
        def getSensors(self):
            return np.array(self.s)

        def performAction(self, a):
            self.a = a
    env = Env()
    task = Task(env)
    task.clipping = case['clip']
    lim = [None if l is None else (l[0], l[0] + l[1]) for l in case['limits']]
    n = len(lim)
    env.s = list(case['vals'][:n])
    h.close(task.getObservation(), env.s, 'no scaling')
    task.performAction(case['units'][:n])
    h.close([float(v) for v in env.a], case['units'][:n], 'no scaling of actions')
    task.setScaling(lim, lim)
    o = [float(v) for v in task.getObservation()]
    exp = []
    for l, v in zip(lim, env.s):
        if l is not None:
            v = (v - l[0]) / (l[1] - l[0]) * 2 - 1
            if case['clip']:
                v = min(1.0, max(-1.0, v))
        exp.append(v)
    h.close(o, exp, 'normalized sensors', rtol=1e-6, atol=1e-6)
    task.performAction(case['units'][:n])
    exp = []
    for l, u in zip(lim, case['units']):
        if l is not None:
            u = l[0] + (u + 1) / 2 * (l[1] - l[0])
            if case['clip']:
                u = min(l[1], max(l[0], u))
        exp.append(u)
    h.close([float(v) for v in env.a], exp, 'denormalized actions', rtol=1e-6, atol=1e-6)
    # the two are inverse within the limits
    back = task.denormalize(task.normalize(env.s))
    for l, v, b in zip(lim, env.s, back):
        if l is not None and case['clip']:
            v = min(l[1], max(l[0], v))
        h.close(float(b), v, 'there and back', rtol=1e-6, atol=1e-5)
    task.setScaling(None, None)
    h.close(task.getObservation(), env.s, 'scaling disabled')
    h.nontrivial(any(l is not None for l in lim))


def gen_order(st):
    return st.fixed_dictionaries({'calls': st.lists(st.sampled_from(['o', 'a', 'r', 'oar', 'oar', 'oa', 'n', 'reset']), min_size=1, max_size=15), 'obs': st.integers(0, 99)})


def run_order(case, h):
    import numpy as np
    from pybrain.rl.agents import LearningAgent
    from pybrain.tools.shortcuts import buildNetwork
    if not __debug__:
        h.discard()
    net = buildNetwork(2, 1, bias=False)
    net._setParameters(np.array([1.0, 2.0]))
    a = LearningAgent(net)
    state = 0    # 0 nothing, 1 observation, 2 action, 3 reward
    hist = [[]]
    k = case['obs']
    for c in ''.join(x if len(x) < 4 else 'R' for x in case['calls']):
        k += 1
        if c == 'o':
            obs = np.array([float(k), 0.5])
            a.integrateObservation(obs)
            state = 1
        elif c == 'a':
            if state == 1:
                act = a.getAction()
                h.close(act, [k_obs(obs)], 'action')
                state = 2
            else:
                h.raises(AssertionError, a.getAction, 'no action without a new observation')
        elif c == 'r':
            if state == 2:
                a.giveReward(float(k))
                hist[-1].append([[float(v) for v in obs], k_obs(obs), float(k)])
                state = 3
            else:
                h.raises(AssertionError, lambda: a.giveReward(1.0), 'no reward without an action')
        elif c == 'n':
            if hist[-1]:
                a.newEpisode()
                hist.append([])
        else:
            a.reset()
            state = 0
            hist = [[]]
    got = [[[[float(v) for v in s[0]], float(s[1][0]), float(s[2][0])] for s in seq] for seq in a.history]
    h.eq([s for s in got if s], [s for s in hist if s], 'only complete interactions are logged')
    h.nontrivial(sum(len(s) for s in hist) >= 2)


def k_obs(o):
    return float(o[0] + 2 * o[1])


def gen_optim(st):
    return st.fixed_dictionaries({'alg': st.sampled_from(['HillClimber', 'StochasticHillClimber', 'RandomSearch']), 'numbers': st.lists(st.integers(1, 15), min_size=1, max_size=4), 'batch': st.integers(1, 3), 'length': st.integers(1, 3), 'seed': st.integers(0, 9999)})


def run_optim(case, h):
    import numpy as np, random
    import pybrain.optimization as O
    from pybrain.rl.agents import OptimizationAgent
    from pybrain.rl.experiments import EpisodicExperiment
    from pybrain.tools.shortcuts import buildNetwork
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    log = []
    task = world(log, 2, 1, [case['length']], True, lambda t: [1.0, -0.5], lambda t: 0.0)
    task.batchSize = case['batch']

    # reward: actions close to 1
    def reward():
        a = [l[1][0] for l in log if l[0] == 'act']
        return -abs(a[-1] - 1.0) if a else 0.0
    task.getReward = reward
    net = buildNetwork(2, 1, bias=False)
    net._setParameters(np.array([3.0, 1.0]))
    start = net.params.copy()
    v0 = -abs(start[0] - 0.5 * start[1] - 1.0) * case['length']
    learner = getattr(O, case['alg'])()
    agent = OptimizationAgent(net, learner)
    e = EpisodicExperiment(task, agent)
    tot = learner.numEvaluations
    last = None
    for n in case['numbers']:
        e.doEpisodes(n)
        tot += n
        h.eq(learner.numEvaluations, tot, 'evaluations')
        h.eq(len([1 for l in log if l[0] == 'envreset']), tot * case['batch'], 'episodes')
        if case['alg'] != 'StochasticHillClimber':
            h.check(last is None or learner.bestEvaluation >= last - 1e-9, 'the best never gets worse')
        last = learner.bestEvaluation
    best = learner.bestEvaluable
    h.close(task.f(best), last, 'the best module found has the evaluation stated', rtol=1e-6)
    if case['alg'] == 'HillClimber':
        h.check(last >= v0 - 1e-9, 'no worse than the start')
    h.raises(Exception, lambda: e._oneInteraction(), 'full episodes only')
    h.label(case['alg'])
    h.nontrivial(tot >= 4)


FACETS = {
    'steps': {'gen': gen_steps, 'run': run_steps, 'quick': 400, 'thorough': 10000},
    'totals': {'gen': gen_total, 'run': run_total, 'quick': 200, 'thorough': 5000},
    'scaling': {'gen': gen_scaling, 'run': run_scaling, 'quick': 200, 'thorough': 5000},
    'order': {'gen': gen_order, 'run': run_order, 'quick': 200, 'thorough': 5000},
    'optimization': {'gen': gen_optim, 'run': run_optim, 'quick': 80, 'thorough': 2000},
}
