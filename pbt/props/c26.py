"""C26: simulated environments and their tasks behave as documented."""
RULE = ("random mazes, POMDP tasks, classic control tasks, poles, ship and flexible cube driven by random action sequences next to independent simulations; non-trivial: at least five actions")
ASSUMPTIONS = ["mazes are enclosed by walls", "matplotlib is not installed: the pole environments run with a stand-in for matplotlib.mlab.rk4 (classical Runge-Kutta) and without renderer", "stochastic transitions are judged by frequencies with a tolerance of six standard deviations"]
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1)]


def gen_maze(st):
    return st.tuples(st.integers(1, 5), st.integers(1, 6)).flatmap(lambda d: st.fixed_dictionaries({'rows': st.just(d[0]), 'cols': st.just(d[1]), 'cells': st.lists(st.integers(0, 3), min_size=d[0] * d[1], max_size=d[0] * d[1]), 'goal': st.integers(0, 99), 'start': st.integers(0, 99), 'fixed': st.booleans(),
                                                                                                    'polar': st.booleans(), 'task': st.sampled_from(['env', 'mdp', 'maze', 'maze']), 'actions': st.lists(st.integers(0, 4), min_size=0, max_size=25), 'obs': st.sampled_from([0, 0, 0, 1]), 'stoch': st.sampled_from([0, 0, 0, 1]), 'array': st.booleans(),
                                                                                                    'bang': st.sampled_from([0, -1, -0.5]), 'default': st.sampled_from([0, -0.1]), 'final': st.sampled_from([1, 5]), 'max': st.sampled_from([None, None, 3, 10]), 'discount': st.sampled_from([None, 0.9]), 'seed': st.integers(0, 9999)}))


def run_maze(case, h):
    import random
    import numpy as np
    from pybrain.rl.environments.mazes import Maze, PolarMaze, MazeTask, MDPMazeTask
    R, C = case['rows'] + 2, case['cols'] + 2
    T = np.ones((R, C), int)
    for k, v in enumerate(case['cells']):
        T[1 + k // case['cols'], 1 + k % case['cols']] = int(v == 0)
    free = [(i, j) for i in range(R) for j in range(C) if not T[i, j]]
    if len(free) < 2:
        h.discard()
    goal = free[case['goal'] % len(free)]
    starts = [p for p in free if p != goal]
    start = starts[case['start'] % len(starts)]
    cls = PolarMaze if case['polar'] and case['task'] != 'mdp' else Maze
    random.seed(case['seed'])
    kw = {'initPos': [start]} if case['fixed'] else {}
    h.label(case['task'])
    if case['task'] == 'maze':
        ini = [start] if case['fixed'] else None

        class MyTask(MazeTask):
            topology = T
            mazeclass = cls
            initPos = ini
            actions = 5 if cls is PolarMaze else 4
        MyTask.goal = goal
        task = MyTask(bangPenalty=case['bang'], defaultPenalty=case['default'], finalReward=case['final'], maxSteps=case['max'], discount=case['discount'], stochAction=case['stoch'], stochObs=case['obs'])
        env = task.env
        h.eq(task.noisy, case['obs'] > 0, 'noisy')
        h.eq(float(task.minReward), float(min(case['bang'], case['default'])), 'minimal reward')
        h.eq((task.indim, task.outdim), (MyTask.actions, 4), 'dimensions')
    else:
        env = cls(T, goal, stochAction=case['stoch'], stochObs=case['obs'], **kw)
        task = MDPMazeTask(env) if case['task'] == 'mdp' else None
    h.check(env.perseus == start if case['fixed'] else env.perseus in starts, 'start')
    if task is not None and case['task'] == 'maze':
        task.reset()
    stoch = case['stoch']
    pos = tuple(env.perseus)
    d = env.perseusDir if cls is PolarMaze else 0
    bang = False
    total, finished, steps = 0.0, False, 0

    def observe():
        o = [int(T[pos[0] + v[0], pos[1] + v[1]]) for v in DIRS]
        o = [o[(k + d) % 4] for k in range(4)]
        return [1 - v if case['obs'] else v for v in o]
    for a in case['actions']:
        a = a % (5 if cls is PolarMaze else 4)
        h.eq([int(v) for v in env.getSensors()], observe(), 'observation')
        if case['task'] == 'mdp':
            o = task.getObservation()
            h.eq([int(v) for v in o], [pos[0] * C + pos[1]], 'state')
        elif case['task'] == 'maze':
            h.eq([int(v) for v in task.getObservation()], observe(), 'task observation')
        old = pos
        if case['task'] == 'mdp':
            task.performAction(np.array([a]))
        elif case['task'] == 'maze' and case['array']:
            task.performAction(np.array([float(k == a) for k in range(task.actions)]))
        else:
            (task or env).performAction(a)
        if stoch:
            # some action has happened
            now = tuple(env.perseus)
            h.check(not T[now], 'never inside a wall')
            h.check(now == old or now in [(old[0] + v[0], old[1] + v[1]) for v in DIRS], 'one step at most')
            if now != old:
                h.check(not env.bang, 'no bang when moving')
            if cls is PolarMaze:
                nd = env.perseusDir
                h.check(now == old or (nd == d and now == (old[0] + DIRS[d][0], old[1] + DIRS[d][1])), 'forward only')
                d = nd
            elif now == old:
                h.check(env.bang, 'standing still means running into a wall')
            pos, bang = now, bool(env.bang)
        else:
            bang = False
            if cls is Maze or a == 1:
                v = DIRS[d if cls is PolarMaze else a]
                nxt = (pos[0] + v[0], pos[1] + v[1])
                if T[nxt]:
                    bang = True
                else:
                    pos = nxt
            elif a == 2:
                d = (d + 2) % 4
            elif a == 3:
                d = (d + 1) % 4
            elif a == 4:
                d = (d - 1) % 4
            h.eq(tuple(env.perseus), pos, 'position')
            h.eq(bool(env.bang), bang, 'bang')
            if cls is PolarMaze:
                h.eq(env.perseusDir, d, 'direction')
        steps += 1
        if case['task'] == 'mdp':
            h.eq(float(task.getReward()), float(pos == goal), 'reward')
            if pos == goal:
                pos = tuple(env.perseus)
                h.check(pos == start if case['fixed'] else pos in starts, 'back to the start')
        elif case['task'] == 'maze':
            r = case['final'] if pos == goal else (case['bang'] if bang else case['default'])
            h.eq(float(task.getReward()), float(r), 'reward')
            total += r * (case['discount'] or 1.0) ** steps
            h.close(task.getTotalReward(), total, 'total reward')
            fin = pos == goal or (case['max'] is not None and steps >= case['max'])
            h.eq(bool(task.isFinished()), fin, 'finished')
            h.eq(task.steps, steps, 'steps')
            if fin:
                break
    str(env)
    h.nontrivial(steps >= 5)
    (task if case['task'] == 'maze' else env).reset()
    h.check(env.perseus == start if case['fixed'] else env.perseus in starts, 'start after reset')
    h.check(not env.bang, 'no bang after reset')
    if case['task'] == 'maze':
        h.eq((task.steps, float(task.getTotalReward())), (0, 0.0), 'fresh episode')


POMDPS = ['TrivialMaze', 'CheeseMaze', 'TMaze', 'FourByThreeMaze', 'EightyNineStateMaze', 'ShuttleDocking', 'TigerTask']


def gen_pomdp(st):
    return st.fixed_dictionaries({'kind': st.sampled_from(POMDPS), 'episodes': st.lists(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 9)), min_size=1, max_size=30), min_size=1, max_size=3), 'length': st.integers(1, 10), 'array': st.booleans(), 'max': st.sampled_from([None, None, 5]), 'seed': st.integers(0, 9999)})


def run_pomdp(case, h):
    import random
    import numpy as np
    from pybrain.rl.environments.mazes import tasks
    kind = case['kind']
    random.seed(case['seed'])
    kw = {'length': case['length']} if kind == 'TMaze' else {}
    if case['max']:
        kw['maxSteps'] = case['max']
    task = getattr(tasks, kind)(**kw)
    h.label(kind)
    L = task.length if kind == 'TMaze' else 0
    na = 5 if kind == 'EightyNineStateMaze' else task.actions
    walls = {}
    for ep in case['episodes']:
        task.reset()
        total, k = 0.0, 0
        seen_tiger = []
        if kind != 'TigerTask':
            env = task.env
            goal = tuple(env.goal)
        if kind == 'TMaze':
            h.check(goal in ((3, L + 1), (1, L + 1)), 'goal at one end of the bar')
        opened = None
        for a, bias in ep:
            a = a % na
            if bias > 5 and kind in ('TMaze', 'TrivialMaze'):
                a = 1           # walk to the east
            if kind == 'ShuttleDocking' and bias > 4:
                a = 1
            if kind == 'TigerTask' and bias > 2:
                a = 0
            if task.isFinished():
                break
            o = np.array(task.getObservation(), float)
            h.eq(len(o), task.outdim, 'observation length')
            h.check(all(v in (0.0, 1.0) for v in o), 'binary observations')
            if kind in ('CheeseMaze', 'TMaze', 'ShuttleDocking', 'TigerTask'):
                h.eq(int(sum(o)), 1, 'exactly one observation is on')
            if kind == 'CheeseMaze':
                w = tuple(int(v) for v in env.getSensors()) if tuple(env.perseus) != goal else 'goal'
                if isinstance(w, tuple) and sum(w) == 3:
                    w = 'dead end'
                walls.setdefault(w, int(np.argmax(o)))
                h.eq(int(np.argmax(o)), walls[w], 'same walls, same observation')
                h.eq(len(set(walls.values())), len(walls), 'different walls, different observations')
            elif kind == 'TMaze':
                exp = (0 if goal[0] == 3 else 1) if tuple(env.perseus) == (2, 1) else (2 if env.perseus[1] == L + 1 else 3)
                h.eq(int(np.argmax(o)), exp, 'T-maze observation')
            elif kind == 'FourByThreeMaze':
                t = env.mazeTable
                r, c = env.perseus
                w, e = bool(t[r][c - 1]), bool(t[r][c + 1])
                h.eq([bool(v) for v in o], [w, e, w and e, not w and not e], 'east and west walls')
            elif kind == 'TigerTask':
                seen_tiger.append(int(o[0]))
            old = tuple(env.perseus) if kind != 'TigerTask' else None
            olddir = env.perseusDir if kind == 'ShuttleDocking' else None
            task.performAction(np.array([float(q == a) for q in range(na)]) if case['array'] else a)
            k += 1
            r = float(task.getReward())
            total += r * (task.discount or 1.0) ** k
            h.close(task.getTotalReward(), total, 'total reward after %d steps' % k)
            h.close(float(task.getReward()), r, 'asking for the reward has no effect')
            pos = tuple(env.perseus) if kind != 'TigerTask' else None
            over = k >= (case['max'] or 10 ** 9)
            if kind == 'TigerTask':
                if a == 0:
                    h.eq(r, -1.0, 'listening costs one')
                else:
                    exp = -100.0 if (a == 1) == bool(task.tigerLeft) else 10.0
                    h.eq(r, exp, 'reward of opening a door')
                h.eq(bool(task.isFinished()), a != 0 or over, 'an episode ends with opening a door')
                continue
            h.check(not env.mazeTable[pos], 'never inside a wall')
            if kind == 'TMaze':
                wrong = (4 - goal[0], L + 1)
                exp = 4.0 if pos == goal else (-0.1 if pos == wrong or env.bang else 0.0)
                h.close(r, exp, 'T-maze reward')
                h.eq(bool(task.isFinished()), pos in (goal, wrong) or over, 'T-maze ends at both ends of the bar')
                h.check(pos == ((old[0] + DIRS[a][0], old[1] + DIRS[a][1]) if not env.bang else old), 'deterministic move')
            elif kind == 'FourByThreeMaze':
                exp = 1.0 if pos == (3, 4) else (-1.0 if pos == (2, 4) else -0.04)
                h.close(r, exp, 'reward of the 4x3 maze')
                h.check(r >= task.minReward, 'minimal reward')
                h.eq(bool(task.isFinished()), pos in ((3, 4), (2, 4)) or over, 'goal and trap are absorbing')
            elif kind == 'ShuttleDocking':
                exp = 10.0 if pos == goal else (-3.0 if env.bang else 0.0)
                h.close(r, exp, 'reward of docking')
                h.eq(bool(task.isFinished()), pos == goal or over, 'docking ends the episode')
                fw = (old[0] + DIRS[olddir][0], old[1] + DIRS[olddir][1])
                bw = (old[0] - DIRS[olddir][0], old[1] - DIRS[olddir][1])
                if a == 2:
                    h.check(pos == old and env.perseusDir == (olddir + 2) % 4, 'turn around')
                elif a == 1:
                    if env.mazeTable[fw] or fw in (goal, (1, 1)):
                        h.check(pos == old and env.bang, 'no way through or into the stations forward')
                    else:
                        h.check(pos == fw and env.perseusDir == olddir, 'forward')
                else:
                    h.check((pos == old) or (pos == bw and env.perseusDir == olddir), 'backup moves backwards or turns')
            else:
                h.close(r, 1.0 if pos == goal else 0.0, 'reward at the goal')
                h.eq(bool(task.isFinished()), pos == goal or over, 'the goal ends the episode')
        h.nontrivial(k >= 5)


def gen_freq(st):
    return st.fixed_dictionaries({'kind': st.sampled_from(['4x3', 'obs', 'action', 'tiger', 'polar', 'shuttle', 'shuttle']), 'where': st.integers(2, 4), 'listen': st.integers(0, 15), 'a': st.integers(0, 3), 'p': st.sampled_from([0.2, 0.5, 0.8]), 'seed': st.integers(0, 9999)})


def run_freq(case, h):
    import random
    import numpy as np
    from pybrain.rl.environments.mazes import Maze, PolarMaze, tasks
    random.seed(case['seed'])
    n = 1500

    def freq(count, p, what):
        h.check(abs(count - n * p) <= 6 * np.sqrt(n * p * (1 - p)) + 1, lambda: '%s: %d of %d, expected %g' % (what, count, n, n * p))
    T = np.ones((5, 5), int)
    T[1:4, 1:4] = 0
    p = case['p']
    a = case['a']
    h.label(case['kind'])
    h.nontrivial(True)
    if case['kind'] == '4x3':
        task = tasks.FourByThreeMaze()
        task.env.mazeTable = T
        cnt = {}
        for _ in range(n):
            task.env.perseus = (2, 2)
            task.performAction(a)
            d = (task.env.perseus[0] - 2, task.env.perseus[1] - 2)
            cnt[d] = cnt.get(d, 0) + 1
        q = 0.1                  # the maze itself replaces one of ten actions
        freq(cnt.get(DIRS[a], 0), 0.8 * (1 - q) + q / 4, 'intended direction')
        freq(cnt.get(DIRS[(a + 1) % 4], 0), 0.1 * (1 - q) + q / 4, 'slip to one side')
        freq(cnt.get(DIRS[(a + 3) % 4], 0), 0.1 * (1 - q) + q / 4, 'slip to the other side')
        freq(cnt.get(DIRS[(a + 2) % 4], 0), q / 4, 'backwards')
    elif case['kind'] == 'obs':
        env = Maze(T, (3, 3), stochObs=p, initPos=[(1, 1)])
        c = sum(np.array([env.getSensors() for _ in range(n)]))
        for k, w in enumerate([0, 0, 1, 1]):
            freq(c[k], 1 - p if w else p, 'noisy observation %d' % k)
    elif case['kind'] == 'action':
        env = Maze(T, (3, 3), stochAction=p, initPos=[(2, 2)])
        cnt = {}
        for _ in range(n):
            env.reset()
            env.performAction(a)
            d = (env.perseus[0] - 2, env.perseus[1] - 2)
            cnt[d] = cnt.get(d, 0) + 1
        for k in range(4):
            freq(cnt.get(DIRS[k], 0), (1 - p if k == a else 0) + p / 4, 'direction %d' % k)
    elif case['kind'] == 'shuttle':
        task = tasks.ShuttleDocking()
        task.reset()
        col, d = case['where'], 1 if a % 2 else 3
        front = (col, d) in ((2, 3), (4, 1))
        seen = back = turn = 0
        for _ in range(n):
            task.env.perseus, task.env.perseusDir = (1, col), d
            seen += int(np.argmax(task.getObservation())) == d
            task.performAction(task.Backup)
            if task.env.perseus != (1, col):
                h.eq((tuple(task.env.perseus), task.env.perseusDir), ((1, col - (1 if d == 1 else -1)), d), 'backwards')
                back += 1
            else:
                turn += task.env.perseusDir != d
        pb, pt = (0.8, 0.1) if col == 3 else ((0.3, 0.3) if front else (0.7, 0.0))
        freq(back, pb, 'moving backwards')
        freq(turn, pt, 'turning instead')
        freq(seen, 0.3 if col == 3 else 0.0, 'seeing the station ahead')
    elif case['kind'] == 'polar':
        env = PolarMaze(T, (3, 3), stochAction=p, initPos=[(2, 2)])
        moved = dirs = 0
        for _ in range(n):
            env.reset()
            dirs += env.perseusDir == a
            env.performAction(1)
            moved += env.perseus != (2, 2)
        freq(moved, 1 - p + p / 5, 'forward')
        freq(dirs, 0.25, 'initial direction')
    else:
        task = tasks.TigerTask(stochObs=p)
        left = ok = 0
        for _ in range(n):
            task.reset()
            left += task.tigerLeft
            for _ in range(case['listen']):
                task.performAction(task.Listen)
            ok += (task.getObservation()[0] == 1) == task.tigerLeft
        freq(left, 0.5, 'tiger on the left')
        freq(ok, 1 - p, 'correct observations')


def gen_classic(st):
    return st.fixed_dictionaries({'kind': st.sampled_from(['car', 'acrobot', 'simple', 'verysimple', 'swinger', 'xor', 'and', 'chain', 'xorrandom']), 'max': st.sampled_from([1, 2, 3, 20, 999]), 'init': st.one_of(st.just(None), st.lists(st.floats(-1, 1), min_size=4, max_size=4), st.sampled_from([[0.62, 1.0, 0.0, 0.0], [0.55, 0.9, 0.0, 0.0], [-0.99, 1.0, 0.5, 0.5]])), 'policy': st.sampled_from(['random', 'random', 'pump', 'right']), 'acts': st.lists(st.integers(0, 2), min_size=1, max_size=40), 'repeat': st.integers(1, 12),
                                  'easy': st.booleans(), 'cutoff': st.integers(0, 3), 'seed': st.integers(0, 9999), 'episodes': st.integers(1, 2), 'onsuccess': st.booleans()})


def run_classic(case, h):
    import random
    import numpy as np
    from math import sin, cos, pi
    from pybrain.rl.environments.classic import acrobot, mountaincar, xor
    random.seed(case['seed'])
    kind = case['kind']
    h.label(kind)
    acts = [a for a in case['acts'] for _ in range(case['repeat'])]
    if kind in ('xor', 'and', 'chain', 'xorrandom'):
        task = (xor.XORChainTask if kind == 'chain' else xor.XORTask)()
        task.and_task = kind == 'and' or (kind == 'chain' and case['easy'])
        task.randomorder = kind == 'xorrandom'
        task.reward_cutoff = case['cutoff']
        total, state = 0, 0
        for i, a in enumerate(acts):
            a = a % 2
            o = [int(v) for v in task.getObservation()]
            h.eq([float(v) for v in o], [float(v) for v in task.obs], 'integer observation')
            if kind == 'chain':
                h.eq(o, [state % 2, state // 2, 1], 'observation of the chain')
            elif kind != 'xorrandom':
                h.eq(o, [i % 2, (i // 2) % 2, 1], 'observation')
            else:
                h.check(o[0] in (0, 1) and o[1] in (0, 1) and o[2] == 1, 'binary observation')
            good = a == ((o[0] & o[1]) if task.and_task else (o[0] ^ o[1]))
            task.performAction(a)
            if kind == 'chain':
                r = (1 if state >= case['cutoff'] else -1) if good else -1
                state = min(state + 1, 3) if good else 0
            else:
                r = 1 if good else -1
            h.eq(task.getReward(), r, 'reward')
            total += r
            h.eq(task.getTotalReward(), total, 'total reward')
            h.check(not task.isFinished(), 'continuous task')
        h.nontrivial(len(acts) >= 5)
        return
    car = kind == 'car'
    task = mountaincar.MountainCar() if car else {'acrobot': acrobot.AcrobotTask, 'simple': acrobot.SimpleAcrobot, 'verysimple': acrobot.VerySimpleAcrobot, 'swinger': acrobot.SingleArmSwinger}[kind]()
    target = {'acrobot': 1.5, 'simple': -0.5, 'verysimple': -1.0, 'swinger': 1.95}.get(kind)
    task.maxSteps = case['max']
    task.resetOnSuccess = case['onsuccess']
    task.easy_rewards = case['easy']
    for e in range(case['episodes']):
        task.reset()
        s = [-0.5, 0.0] if car else ([pi, 0, 0, 0] if kind == 'swinger' else [0, 0, 0, 0])
        h.close(task.state, s, 'initial state')
        h.eq(float(task.getTotalReward()), 0.0, 'fresh episode')
        if case['init'] and e == 0:
            i = case['init']
            s = [-0.2 + i[0], 0.07 * i[1]] if car else [pi * i[0], pi * i[1], 4 * pi * i[2], 9 * pi * i[3]]
            if kind == 'swinger':
                s[0], s[2] = pi, 0
            task.state = list(s)
        done = steps = 0
        total = r = 0.0
        for a in acts:
            if case['policy'] == 'pump':
                a = 2 if s[-1] >= 0 else 0
            elif case['policy'] == 'right':
                a = 2
            if car:
                h.close(task.getObservation(), [s[0], s[1] * 100, 1], 'observation')
            elif kind == 'swinger':
                h.close(task.getObservation(), [s[2] / pi, s[3] / pi, 1], 'observation')
            else:
                h.close(task.getObservation(), [v / pi for v in s] + [1], 'observation')
            task.performAction(a)
            if done:
                done += 1
            else:
                steps += 1
                if car:
                    v = min(0.07, max(-0.07, s[1] + 0.001 * (a - 1) - 0.0025 * cos(3 * s[0])))
                    p = s[0] + v
                    if p <= -1.4:
                        p, v = -1.4, 0.0
                    s = [p, v]
                    win = p >= 0.45
                    r = float(win)
                else:
                    s = arm(s, a - 1.0)
                    y = -cos(s[0]) - cos(s[1])
                    win = y >= target
                    r = (10 * y if win else y) if case['easy'] else float(win)
                done = 5 if steps >= case['max'] else int(win)
                total += r
            if kind == 'swinger':
                s = [pi, s[1], 0, s[3]]
            h.close(task.state, s, 'state', rtol=1e-6, atol=1e-8)
            s = [float(v) for v in task.state]
            h.close(float(task.getReward()), r, 'reward', rtol=1e-6, atol=1e-8)
            h.close(float(task.getTotalReward()), total, 'total reward', rtol=1e-6, atol=1e-7)
            fin = done >= 3
            h.eq(bool(task.isFinished()), fin and not case['onsuccess'], 'finished')
            if fin:
                h.label('finished')
                break
    h.nontrivial(steps >= 5)


def arm(s, torque):
    """ four Euler steps of the two-link arm (unit masses and lengths, inertia one) """
    from math import sin, cos, pi
    t1, t2, w1, w2 = s
    g, dt = 9.8, 0.05
    for _ in range(4):
        d1 = 0.25 + (1.25 + cos(t2)) + 2
        d2 = (0.25 + 0.5 * cos(t2)) + 1
        phi2 = 0.5 * g * cos(t1 + t2 - pi / 2)
        phi1 = -0.5 * w2 * sin(t2) * (w2 - 2 * w1) + 1.5 * g * cos(t1 - pi / 2) + phi2
        a2 = (torque + phi1 * d2 / d1 - 0.5 * w1 * w1 * sin(t2) - phi2) / (1.25 - d2 * d2 / d1)
        a1 = -(d2 * a2 + phi1) / d1
        w1 = max(-4 * pi, min(4 * pi, w1 + a1 * dt))
        t1 += w1 * dt
        w2 = max(-9 * pi, min(9 * pi, w2 + a2 * dt))
        t2 += w2 * dt
    def wrap(t):
        return t + 2 * pi if t < -pi else (t - 2 * pi if t > pi else t)
    return [wrap(t1), wrap(t2), w1, w2]


def gen_ship(st):
    return st.fixed_dictionaries({'acts': st.lists(st.tuples(st.floats(-1.3, 1.3), st.floats(-1.3, 1.3)), min_size=1, max_size=8), 'repeat': st.integers(1, 60), 'max': st.sampled_from([1000, 50]), 'init': st.one_of(st.just(None), st.tuples(st.floats(-180, 180), st.floats(-180, 180), st.floats(-10, 40))), 'task': st.booleans(), 'seed': st.integers(0, 9999)})


def run_ship(case, h):
    import numpy as np
    from pybrain.rl.environments.shipsteer import ShipSteeringEnvironment, GoNorthwardTask
    np.random.seed(case['seed'])
    env = ShipSteeringEnvironment(render=False)
    task = GoNorthwardTask(env, maxsteps=case['max'])
    s = [float(v) for v in env.getSensors()]
    h.check(abs(s[0]) <= 30 and s[1] == 0 and s[2] == 0, 'at rest, roughly northward')
    h.eq((env.indim, env.outdim), (2, 3), 'dimensions')
    if case['init']:
        s = [float(v) for v in case['init']]
        env.sensors = list(s)
    total, t = 0.0, 0
    for a in [a for a in case['acts'] for _ in range(case['repeat'])]:
        if t >= case['max']:
            break
        if case['task']:
            o = [float(v) for v in task.getObservation()]
            h.close(o, [s[0] / 180, s[1] / 180, (s[2] - 15) / 25], 'normalized observation')
            task.performAction(np.array(a))
            thrust = -1 + (min(1, max(-1, a[0])) + 1) / 2 * 3
            rudder = 90 * min(1, max(-1, a[1]))
        else:
            thrust, rudder = 2 * a[0], 100 * a[1]
            env.performAction([thrust, rudder])
            thrust, rudder = min(2, max(-1, thrust)), min(90, max(-90, rudder))
        n = [float(v) for v in env.getSensors()]
        h.check(-180 <= n[0] <= 180 and -180 <= n[1] <= 180 and -10 <= n[2] <= 40, 'state within its limits')
        # noise is small: 6 standard deviations
        v, w = s[2], s[1]
        ev = v + 0.004 * (30 * thrust - 2 * v - 0.02 * v * (5 * s[0] + rudder ** 2))
        tolv = 0.004 * (0.02 * abs(v) + 3.0) * 6 + 1e-9
        h.check(min(40, max(-10, ev - tolv)) <= n[2] <= min(40, max(-10, ev + tolv)), lambda: 'speed %r, expected %r' % (n[2], ev))
        ew = w - n[2] * (rudder + s[0] + w) / 1000.0
        tolw = abs(n[2]) * 10 * 6 / 1000.0 + 1e-9
        h.check(min(180, max(-180, ew - tolw)) <= n[1] <= min(180, max(-180, ew + tolw)), lambda: 'angular velocity %r, expected %r' % (n[1], ew))
        eh = s[0] + (w + n[1]) / 2
        eh = eh - 360 if eh > 180 else (eh + 360 if eh < -180 else eh)
        h.close(n[0], eh, 'heading')
        s = n
        t += 1
        if case['task']:
            r = s[2] * 100.0 / case['max'] / 40 if abs(s[0]) < 5 else 0.0
            total += r
            h.close(float(task.getReward()), r, 'reward')
            h.close(float(task.getTotalReward()), total, 'total reward')
            h.eq(bool(task.isFinished()), t >= case['max'], 'finished')
    h.nontrivial(t >= 5)
    task.reset()
    h.check(abs(env.getHeading()) <= 30 and env.getSpeed() == 0, 'reset')
    h.check(not task.isFinished() and task.getTotalReward() == 0, 'fresh episode')


def gen_simple(st):
    return st.fixed_dictionaries({'dim': st.integers(1, 4), 'acts': st.lists(st.lists(st.floats(-5, 5), min_size=4, max_size=4), min_size=1, max_size=15), 'seed': st.integers(0, 99)})


def run_simple(case, h):
    import numpy as np
    from pybrain.rl.environments.simple import SimpleEnvironment, MinimizeTask
    d = case['dim']
    env = SimpleEnvironment(d)
    task = MinimizeTask(env)
    s = np.full(d, 2.0)
    total, t = 0.0, 0
    task.reset()
    while not task.isFinished():
        h.close(task.getObservation(), s, 'observation')
        a = np.array(case['acts'][t % len(case['acts'])][:d])
        task.performAction(a)
        s = s + 0.1 * a
        # the accumulated reward belongs to the previous action
        r = -float(sum(s ** 2))
        h.close(float(task.getReward()), r, 'reward')
        t += 1
    h.eq(t, 15, 'episode length')
    h.eq((env.indim, env.outdim), (d, d), 'dimensions')
    h.close(env.getSensors(), s, 'final state')
    h.nontrivial(True)
    task.reset()
    h.close(task.getObservation(), np.full(d, 2.0), 'reset')


EDGES = [(i, j) for i in range(8) for j in range(i + 1, 8) if bin(i ^ j).count('1') == 1]


def gen_cube(st):
    return st.fixed_dictionaries({'acts': st.lists(st.lists(st.floats(-1.5, 1.5), min_size=12, max_size=12), min_size=1, max_size=6), 'repeat': st.integers(1, 8), 'kind': st.sampled_from(['env', 'grow', 'walk', 'none', 'jump', 'roll']), 'episodes': st.integers(1, 2)})


def run_cube(case, h):
    import numpy as np
    from pybrain.rl.environments.flexcube import FlexCubeEnvironment, GrowTask, WalkTask, NoRewardTask, JumpTask, RollingUpTask
    env = FlexCubeEnvironment(render=False)
    kind = case['kind']
    h.label(kind)
    task = None
    if kind != 'env':
        task = {'grow': GrowTask, 'walk': WalkTask, 'none': NoRewardTask, 'jump': JumpTask, 'roll': RollingUpTask}[kind](env)
        task.epiLen = 1000
    for e in range(case['episodes']):
        (task or env).reset()
        H = 200.0 if kind == 'roll' else 10.0
        P = np.array([[20.0 * i - 10, 20.0 * j - 10 + H, 20.0 * k - 10] for i in (0, 1) for j in (0, 1) for k in (0, 1)])
        V = np.zeros((8, 3))
        want = np.full(12, 20.0)
        D0 = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1))
        n = 0
        jump = 0.0
        for a in [a for a in case['acts'] for _ in range(case['repeat'])]:
            if task is None:
                env.performAction(np.array(a) * 6 + 20)
                want = np.clip(np.array(a) * 6 + 20, 14.0, 26.0)
            else:
                task.getObservation()
                task.performAction(np.array(a))
                ms = 12.0 / (10 if kind == 'jump' else 30)
                want = np.clip((np.array(a) + 1) / 2 * 12.0 + 14.0, want_t(n, want0 if n else None) - ms, want_t(n, want0 if n else None) + ms)
                want0 = want.copy()
                want = np.clip(want, 14.0, 26.0)
            n += 1
            L = D0.copy()
            for (i, j), w in zip(EDGES, want):
                L[i, j] = L[j, i] = w
            diff = P[:, None] - P[None]
            D = np.sqrt((diff ** 2).sum(-1))
            V = V + (diff * ((L - D) / (D + 1e-10))[:, :, None]).sum(1) * 60.0 * 0.02
            V = V + np.array([0, -100.0, 0]) * 0.02
            V = V * (1 - 0.4 * 0.02)
            P = P + V * 0.02
            for i in range(8):
                if P[i, 1] < 0:
                    P[i, 1] = 0.0
                    V[i] = [0.0, -V[i, 1], 0.0]
            h.close(env.pos, P, 'positions after %d steps' % n, rtol=1e-6, atol=1e-6)
        E = np.array([np.linalg.norm(P[i] - P[j]) for i, j in EDGES])
        cog = P.mean(0)
        ref = {'EdgesReal': E / 30, 'EdgesSumReal': [E.sum() - 240], 'EdgesTarget': want / 30, 'VerticesContact': np.clip(1 - P[:, 1], 0, 1), 'VerticesMinHight': [P[:, 1].min()],
               'DistToOrigin': [np.sqrt(cog[0] ** 2 + cog[2] ** 2) * 0.00125], 'Time': [np.sin(n / 4.0), np.sin(n / 8.0), np.sin(n / 16.0)]}
        for name, size, vals in env.getSensors():
            h.eq(len(vals), size, 'size of %s' % name)
            h.close(vals, ref[name], name, rtol=1e-6, atol=1e-6)
        if task is not None:
            obs = np.array(task.getObservation(), float)
            sens = {'grow': ['EdgesReal', 'EdgesTarget'], 'none': ['EdgesReal'], 'jump': ['EdgesTarget', 'EdgesReal', 'VerticesContact'], 'walk': ['EdgesTarget', 'EdgesReal', 'VerticesContact', 'Time'], 'roll': ['EdgesTarget', 'EdgesReal', 'VerticesContact', 'Time']}[kind]
            parts = {s[0]: s[2] for s in env.getSensors()}
            h.eq(len(obs), sum(len(parts[s]) for s in sens), 'length of the observation')
            h.close(sorted(obs), sorted(v for s in sens for v in parts[s]), 'observation holds the sensors', rtol=1e-6, atol=1e-6)
            r = task.getReward()
            if kind == 'grow':
                h.close(float(r), ref['EdgesSumReal'][0] - ((np.clip(E / 30, 1, 4) - 1) ** 2).sum(), 'growing is rewarded', rtol=1e-6, atol=1e-6)
            h.eq(bool(task.isFinished()), False, 'not finished yet')
    h.nontrivial(n >= 5)


def want_t(n, w):
    import numpy as np
    return np.full(12, 20.0) if w is None else w


def poles():
    """ the pole environments with stand-ins for matplotlib """
    import sys
    import types
    import numpy as np

    def rk4(derivs, y0, t):
        y = np.zeros((len(t), len(y0)))
        y[0] = y0
        for i in range(len(t) - 1):
            dt = t[i + 1] - t[i]
            f = lambda v, s: np.array(derivs(v, s), float).ravel()
            k1 = f(y[i], t[i])
            k2 = f(y[i] + dt / 2 * k1, t[i] + dt / 2)
            k3 = f(y[i] + dt / 2 * k2, t[i] + dt / 2)
            k4 = f(y[i] + dt * k3, t[i] + dt)
            y[i + 1] = y[i] + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        return y
    if 'matplotlib' not in sys.modules:
        for name, attrs in (('matplotlib', []), ('matplotlib.mlab', []), ('pylab', ['ion', 'figure', 'draw', 'Rectangle', 'Line2D', 'plot', 'arange'])):
            m = types.ModuleType(name)
            for a in attrs:
                setattr(m, a, None)
            sys.modules[name] = m
        sys.modules['matplotlib.mlab'].rk4 = rk4
        sys.modules['matplotlib'].mlab = sys.modules['matplotlib.mlab']
    import pybrain.rl.environments.cartpole as cp
    return cp


def gen_pole(st):
    return st.fixed_dictionaries({'env': st.sampled_from(['single', 'double', 'nonmarkov', 'nonmarkovdouble', 'linear']), 'task': st.sampled_from(['BalanceTask', 'JustBalanceTask', 'EasyBalanceTask', 'DiscreteBalanceTask', 'DiscreteNoHelpTask']), 'max': st.sampled_from([5, 100, 300]), 'length': st.sampled_from([None, 0.3, 1.0]), 'acts': st.lists(st.floats(-1.2, 1.2), min_size=1, max_size=40), 'repeat': st.sampled_from([1, 1, 3, 9]), 'on': st.booleans(), 'det': st.sampled_from([False, False, True]), 'init': st.one_of(st.just(None), st.tuples(st.floats(-0.7, 0.7), st.floats(-2, 2), st.one_of(st.floats(-2.4, 2.4), st.sampled_from([2.2, -2.1, -2.3, 2.37])), st.floats(-2, 2))), 'scale': st.sampled_from([0.02, 0.3, 1.0]), 'seed': st.integers(0, 9999)})


def run_pole(case, h):
    import numpy as np
    from math import sin, cos, pi
    cp = poles()
    np.random.seed(case['seed'])
    kind = case['env']
    h.label(kind)
    cls = {'single': cp.CartPoleEnvironment, 'double': cp.DoublePoleEnvironment, 'nonmarkov': cp.NonMarkovPoleEnvironment, 'nonmarkovdouble': cp.NonMarkovDoublePoleEnvironment, 'linear': cp.CartPoleLinEnvironment}[kind]
    if kind == 'linear':
        env = cls()
        s = [float(v) for v in env.getSensors()]
        for a in case['acts']:
            env.performAction(np.array([a * 10]))
            n = [float(v) for v in env.getSensors()]
            h.eq(len(n), 4, 'sensors')
            # linear dynamics up to small noise
            A = np.eye(4)
            tau = 1 / 60.0
            A[0, 1] = A[2, 3] = tau
            A[1, 0] = 13.2 * tau
            e = np.array(s).dot(A) + a * 10 * np.array([0, 13.2 * tau / 9.80665, 0, tau])
            h.close(n, e, 'linear dynamics', rtol=0, atol=0.007)
            h.close([float(env.getPoleAngles()[0]), float(env.getCartPosition())], [n[0], n[2]], 'angle and position')
            s = n
        h.nontrivial(len(case['acts']) >= 5)
        return
    env = cls(case['length']) if kind in ('single', 'nonmarkov') and case['length'] else cls()
    double = 'double' in kind
    discrete = case['task'].startswith('Discrete')
    task = getattr(cp, case['task'])(env, case['max'])
    if not double:
        env.randomInitialization = not case['det']
    task.reset()

    def full():
        if double:
            return [list(map(float, env.p1.sensors)), list(map(float, env.p2.sensors))]
        return [list(map(float, env.sensors))]

    def visible(st_):
        if double:
            (a, b, _, _), (c, d, x, v) = st_
            return [a, c, x] if kind == 'nonmarkovdouble' else [a, b, c, d, x, v]
        a, b, x, v = st_[0]
        return [a, x] if kind == 'nonmarkov' else [a, b, x, v]
    state = full()
    if not double and case['det']:
        h.close(state[0], [-0.2, 0, 0.2, 0], 'fixed initial state')
    h.check(all(abs(q[0]) <= 0.2 and abs(q[2]) <= 0.5 and q[1] == 0 and q[3] == 0 for q in state), 'initial state')
    if double:
        h.eq(state[0][2], state[1][2], 'one cart')
    if case['init']:
        i = [float(v) for v in case['init']]
        if double:
            env.p1.sensors, env.p2.sensors = tuple(i), (i[1] / 3, 0.0, i[2], i[3])
        else:
            env.sensors = tuple(i)
        state = full()
    masses = [(case['length'] or 0.5, 0.1)] if not double else [(0.5, 0.1), (0.05, 0.01)]
    t = 0
    on = case['on']
    for a in [a for a in case['acts'] for _ in range(case['repeat'])]:
        if not on and t and task.isFinished():
            break
        o = [float(v) for v in env.getSensors()]
        h.eq(len(o), env.outdim, 'number of sensors')
        h.close(o, visible(state), 'sensors')
        to = [float(v) for v in task.getObservation()]
        h.eq(len(to), len(o), 'size of the observation')
        if discrete:
            h.close(to, o, 'raw observation')
            k = int(abs(a) * 100) % 3
            task.performAction(np.array([k]))
            F = 50.0 * (k - 1)
        else:
            h.check(all(abs(x) <= 1 + 1e-9 or l is None for x, l in zip(to, task.sensor_limits)), 'normalized observation')
            task.performAction(np.array([a * case['scale']]))
            F = 50.0 * min(1, max(-1, a * case['scale']))
        t += 1
        new = []
        for q, (l, mp) in zip(state, masses):
            def der(y):
                th, w, x, v = y
                al = (9.81 * sin(th) * (1 + mp) - (F + mp * l * w * w * sin(th)) * cos(th)) / (4.0 / 3 * l * (1 + mp) - mp * l * cos(th) ** 2)
                return np.array([w, al, v, (F - mp * l * (al * cos(th) - w * w * sin(th))) / (1 + mp)])
            y = np.array(q)
            dt = 0.02
            k1 = der(y)
            k2 = der(y + dt / 2 * k1)
            k3 = der(y + dt / 2 * k2)
            k4 = der(y + dt * k3)
            new.append(list(y + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)))
        got = full()
        h.close(got, new, 'dynamics', rtol=1e-6, atol=1e-7)
        state = got
        env.getSensors()
        angles = [abs(q[0]) for q in state]
        x = abs(state[-1][2])
        h.close([abs(float(v)) for v in env.getPoleAngles()], angles, 'pole angles')
        h.close(abs(float(env.getCartPosition())), x, 'cart position')
        out = max(angles) > 0.7 or x > 2.4
        h.eq(bool(task.isFinished()), out or t >= case['max'], 'finished')
        N = case['max']
        if case['task'] == 'BalanceTask':
            r = 0 if min(angles) < 0.05 and x < 0.05 else (-2 * (N - t) if out else -1)
        elif case['task'] == 'JustBalanceTask':
            r = 0 if min(angles) < 0.05 else (-2 * (N - t) if out else -1)
        elif case['task'] == 'EasyBalanceTask':
            r = 0 if min(angles) < 0.05 and x < 0.05 else (-2 * (N - t) if out else -x / 2)
        elif case['task'] == 'DiscreteBalanceTask':
            r = 1 if min(angles) < 0.05 else (-(N - t) if out else 0)
        else:
            r = -(N - t) if out else 0
        h.close(float(task.getReward()), float(r), 'reward')
    h.nontrivial(t >= 5)


FACETS = {
    'maze': {'gen': gen_maze, 'run': run_maze, 'quick': 500, 'thorough': 10000},
    'pomdp': {'gen': gen_pomdp, 'run': run_pomdp, 'quick': 400, 'thorough': 10000},
    'noise': {'gen': gen_freq, 'run': run_freq, 'quick': 40, 'thorough': 600},
    'classic': {'gen': gen_classic, 'run': run_classic, 'quick': 400, 'thorough': 5000},
    'ship': {'gen': gen_ship, 'run': run_ship, 'quick': 60, 'thorough': 2000},
    'simple': {'gen': gen_simple, 'run': run_simple, 'quick': 40, 'thorough': 600},
    'cube': {'gen': gen_cube, 'run': run_cube, 'quick': 60, 'thorough': 2000},
    'poles': {'gen': gen_pole, 'run': run_pole, 'quick': 150, 'thorough': 4000},
}
