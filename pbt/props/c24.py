"""C24: capture game, Go-Moku and Pente follow their rules; players, tasks and tournaments agree with the games."""
RULE = ("random games of capture game (3-8), Go-Moku (5x5-9x9) and Pente with illegal and suicidal moves, handicaps and random boards, mirrored in flood-fill reference boards; "
        "non-trivial: at least six accepted moves or a finished game")
ASSUMPTIONS = ["positions asked for liberties hold ordinary stones of an undecided game", "module players use modules with non-negative outputs",
               "tasks get opponents that were given the colour that fits opponentStart"]

B, W = 1, -1
DIRS = [(0, 1), (1, 0), (1, 1), (1, -1)]


class RefCapture(object):
    def __init__(self, n, suicide=True):
        self.n = n
        self.suicide_ok = suicide
        self.b = {}
        self.winner = None
        self.moves = 0
        self.pos = [(i, j) for i in range(n) for j in range(n)]

    def nb(self, p):
        return [(p[0] + i, p[1] + j) for i, j in ((0, 1), (1, 0), (0, -1), (-1, 0)) if 0 <= p[0] + i < self.n and 0 <= p[1] + j < self.n]

    def group(self, p):
        c = self.b[p]
        g, todo = set([p]), [p]
        while todo:
            for q in self.nb(todo.pop()):
                if self.b.get(q) == c and q not in g:
                    g.add(q)
                    todo.append(q)
        return g

    def libs(self, p):
        return set(q for s in self.group(p) for q in self.nb(s) if q not in self.b)

    def captures(self, c, p):
        return any(self.b.get(q) == -c and self.libs(q) == set([p]) for q in self.nb(p))

    def suicidal(self, c, p):
        if self.captures(c, p):
            return False
        self.b[p] = c
        try:
            return not self.libs(p)
        finally:
            del self.b[p]

    def legal(self, c, p):
        return p in self.pos and p not in self.b and (self.suicide_ok or not self.suicidal(c, p))

    def legals(self, c):
        return [p for p in self.pos if self.legal(c, p)]

    def acceptable(self, c):
        return [p for p in self.legals(c) if not self.suicidal(c, p)]

    def killing(self, c):
        return [p for p in self.legals(c) if self.captures(c, p)]

    def play(self, c, p):
        if p == 'resign':
            self.moves += 1
            self.winner = -c
            return True
        if not self.legal(c, p):
            return False
        self.moves += 1
        if self.suicidal(c, p):
            self.winner = -c
            self.last = p
        elif self.captures(c, p):
            self.winner = c
            self.last = p
        else:
            self.b[p] = c
        return True


class RefGomoku(object):
    def __init__(self, size, pente=False):
        self.size = size
        self.pente = pente
        self.b = {}
        self.winner = None
        self.moves = 0
        self.pairs = {B: 0, W: 0}
        self.pos = [(i, j) for i in range(size[0]) for j in range(size[1])]
        if pente:
            self.b[(size[0] // 2, size[1] // 2)] = W
            self.moves = 1

    def five(self, c, p):
        mine = set(q for q, v in self.b.items() if v == c) | set([p])
        for d in DIRS:
            for k in range(5):
                s = (p[0] - k * d[0], p[1] - k * d[1])
                if all((s[0] + i * d[0], s[1] + i * d[1]) in mine for i in range(5)):
                    return True
        return False

    def taken(self, c, p):
        res = set()
        if self.pente:
            for d in DIRS:
                for s in (-1, 1):
                    q = [(p[0] + s * i * d[0], p[1] + s * i * d[1]) for i in (1, 2, 3)]
                    if self.b.get(q[0]) == -c and self.b.get(q[1]) == -c and self.b.get(q[2]) == c:
                        res.update(q[:2])
        return res

    def legal(self, c, p):
        return p in self.pos and p not in self.b

    def legals(self, c):
        return [p for p in self.pos if p not in self.b]

    acceptable = legals

    def kills(self, c, p):
        return self.five(c, p) or (self.pente and self.pairs[c] + len(self.taken(c, p)) // 2 >= 5)

    def killing(self, c):
        return [p for p in self.legals(c) if self.kills(c, p)]

    def play(self, c, p):
        if not self.legal(c, p):
            return False
        self.moves += 1
        if self.kills(c, p):
            self.winner = c
            self.last = p
            return True
        t = self.taken(c, p)
        self.b[p] = c
        for q in t:
            del self.b[q]
        self.pairs[c] += len(t) // 2
        if len(self.b) == len(self.pos):
            self.winner = 'draw'
        return True


def pick(ref, c, kind, k):
    """ resolve a generated move into a position """
    def of(l):
        return l[k % len(l)] if l else None
    if kind == 'near':
        l = [p for p in ref.legals(c) if any((p[0] + i, p[1] + j) in ref.b for i in (-1, 0, 1) for j in (-1, 0, 1))]
        return of(l) or of(ref.legals(c))
    if kind == 'safe':
        kill = set(ref.killing(c))
        l = [p for p in ref.acceptable(c) if p not in kill]
        return of(l) or of(ref.legals(c))
    if kind == 'kill':
        return of(ref.killing(c)) or of(ref.legals(c))
    if kind == 'take' and isinstance(ref, RefGomoku):
        return of([p for p in ref.legals(c) if ref.taken(c, p)]) or of(ref.legals(c))
    if kind in ('suicide', 'take') and isinstance(ref, RefCapture):
        return of([p for p in ref.pos if p not in ref.b and ref.suicidal(c, p)]) or of(ref.legals(c))
    if kind == 'occupied':
        return of(sorted(ref.b)) or of(ref.legals(c))
    return of(ref.legals(c))


def genmoves(st, kinds, n):
    return st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 97), st.booleans()), min_size=0, max_size=n)


def gen_capture(st):
    kinds = ['near'] * 3 + ['safe'] * 12 + ['any', 'suicide', 'kill', 'occupied', 'outside']
    return st.fixed_dictionaries({'n': st.integers(3, 7), 'suicide': st.booleans(), 'start': st.sampled_from(['empty', 'empty', 'handicap', 'random', 'played']), 'k': st.integers(0, 30), 'color': st.sampled_from([B, W]),
                                  'moves': genmoves(st, kinds, 40), 'resign': st.booleans(), 'twice': st.integers(0, 60), 'every': st.sampled_from([1, 3, 100]), 'seed': st.integers(0, 9999)})


def sync(ref, g, positions):
    ref.b = {}
    for p, v in zip(positions, g.getSensors()):
        if v != 0:
            ref.b[p] = int(v)


def compare(h, g, ref, deep):
    s = g.getSensors()
    h.eq(len(s), len(ref.pos), 'number of positions')
    h.eq(g.getWinner(), ref.winner, 'winner')
    h.eq(g.gameOver(), ref.winner is not None, 'game over')
    h.eq(int(g.movesDone), ref.moves, 'moves done')
    last = getattr(ref, 'last', None) if ref.winner is not None else None
    for p, v in zip(ref.pos, s):
        if p != last:
            h.eq(v, ref.b.get(p, 0), 'board at %r' % (p,))
    if last is not None:
        return
    a = [int(v) for v in g.getBoardArray()]
    h.eq(a, [int(ref.b.get(p) == c) for p in ref.pos for c in (W, B)], 'board array')
    h.eq(int(g.outdim), len(a), 'outdim')
    h.eq(int(g.indim), len(ref.pos), 'indim')
    if not deep or ref.winner is not None:
        return
    for c in (B, W):
        h.eq(sorted(g.getLegals(c)), ref.legals(c), 'legal positions of %d' % c)
        h.eq(sorted(g.getKilling(c)), ref.killing(c), 'killing positions of %d' % c)
        h.eq([p for p in ref.pos if g.isLegal(c, p)], ref.legals(c), 'isLegal of %d' % c)
    if isinstance(ref, RefCapture):
        for c in (B, W):
            h.eq(sorted(g.getAcceptable(c)), ref.acceptable(c), 'acceptable positions of %d' % c)
        for p in ref.pos:
            if p in ref.b:
                h.eq(g.getLiberties(p), len(ref.libs(p)), 'liberties at %r' % (p,))
                h.eq(g.getGroupSize(p), len(ref.group(p)), 'group size at %r' % (p,))
            else:
                h.eq(g.getLiberties(p), None, 'liberties of an empty position')
                h.eq(g.getGroupSize(p), None, 'group size of an empty position')
    elif ref.pente:
        h.eq((g.pairsTaken[B], g.pairsTaken[W]), (ref.pairs[B], ref.pairs[W]), 'pairs taken')


def run_capture(case, h):
    import random
    from pybrain.rl.environments.twoplayergames import CaptureGame
    n = case['n']
    random.seed(case['seed'])
    g = CaptureGame(n, case['suicide'])
    ref = RefCapture(n, case['suicide'])
    h.label('n%d' % n)
    h.label(case['start'])
    c = B
    if case['start'] == 'played':
        # a game that was played before leaves nothing behind
        for kind, k, other in case['moves'][::-1]:
            p = g.getLegals(c)
            if not p or g.gameOver():
                break
            g.doMove(c, p[k % len(p)])
            c = -c
        g.reset()
        c = B
    elif case['start'] == 'handicap':
        g.giveHandicap(case['k'], case['color'])
        sync(ref, g, ref.pos)
        total = 1 if n == 3 else 4 + 4 * max(0, n - 4)
        h.eq(len(ref.b), min(case['k'], total), 'handicap stones')
        h.check(all(v == case['color'] for v in ref.b.values()), 'colour of handicap stones')
    elif case['start'] == 'random':
        done = g.randomBoard(case['k'])
        sync(ref, g, ref.pos)
        h.check(done <= case['k'], 'random board is no longer than asked for')
        h.eq((sum(v == B for v in ref.b.values()), sum(v == W for v in ref.b.values())), ((done + 1) // 2, done // 2), 'stones on a random board')
        h.check(all(ref.libs(p) for p in ref.b), 'all stones of a random board have liberties')
        if done < case['k']:
            col = B if done % 2 == 0 else W
            h.eq([p for p in ref.acceptable(col) if not ref.captures(col, p)], [], 'a random board ends early only when nothing can be played')
        c = B if done % 2 == 0 else W
    compare(h, g, ref, True)
    ok = 0
    for i, (kind, k, resign) in enumerate(case['moves']):
        if ref.winner is not None:
            break
        if kind == 'outside':
            p = [(-1, 0), (n, 0), (0, n), (n, n), (0, -1)][k % 5]
        else:
            p = pick(ref, c, kind, k)
            if p is None:
                p = (0, 0)
        lead = k == case['twice']
        if resign and case['resign'] and i > 20:
            p = 'resign'
        if lead:
            h.check(g.isLegal(c, p) == ref.legal(c, p) if p != 'resign' else True, 'isLegal')
        if i % 2:
            h.eq(bool(g.doMove(c, p)), ref.play(c, p), 'move %r accepted' % (p,))
        else:
            g.performAction([c, p])
            ref.play(c, p)
        compare(h, g, ref, i % case['every'] == 0)
        if ref.moves > ok:
            ok = ref.moves
            if not lead:
                c = -c
    compare(h, g, ref, True)
    h.label('winner %s' % ref.winner)
    str(g) if ref.winner is None else None
    h.nontrivial(ref.moves >= 6 or ref.winner is not None)
    g.reset()
    compare(h, g, RefCapture(n, case['suicide']), False)


def gen_gomoku(st):
    kinds = ['near'] * 4 + ['safe'] * 10 + ['any', 'occupied', 'kill']
    pk = ['near'] * 8 + ['safe'] * 3 + ['take'] * 5 + ['any', 'occupied']

    def moves(pente):
        return st.one_of(genmoves(st, pk if pente else kinds, 30), genmoves(st, pk if pente else kinds, 90), st.tuples(st.integers(20, 95), st.lists(st.tuples(st.sampled_from(pk if pente else kinds + ['safe'] * 20), st.integers(0, 97), st.booleans()), min_size=3, max_size=6)).map(lambda t: [[m[0], m[1] + 7 * i, m[2]] for i, m in enumerate((list(t[1]) * 40)[:t[0]])]))
    return st.booleans().flatmap(lambda pente: st.fixed_dictionaries({'pente': st.just(pente), 'size': st.tuples(st.integers(5, 8), st.integers(5, 7)), 'moves': moves(pente), 'mono': st.booleans(), 'every': st.sampled_from([1, 4, 100])}))


def run_gomoku(case, h):
    from pybrain.rl.environments.twoplayergames import GomokuGame
    from pybrain.rl.environments.twoplayergames.pente import PenteGame
    size = tuple(case['size'])
    g = (PenteGame if case['pente'] else GomokuGame)(size)
    ref = RefGomoku(size, case['pente'])
    h.label('pente' if case['pente'] else 'gomoku')
    c = B
    compare(h, g, ref, True)
    for i, (kind, k, other) in enumerate(case['moves']):
        if ref.winner is not None:
            break
        p = pick(ref, c, kind, k)
        if p is None:
            break
        if i % 2:
            h.eq(bool(g.doMove(c, p)), ref.play(c, p), 'move %r accepted' % (p,))
        else:
            g.performAction([c, p])
            ref.play(c, p)
        compare(h, g, ref, i % case['every'] == 0)
        if kind != 'occupied' and not (case['mono'] and other):
            c = -c
    compare(h, g, ref, True)
    h.label('winner %s' % ref.winner)
    if case['pente']:
        h.label('pairs %d' % min(5, max(ref.pairs.values())))
    h.nontrivial(ref.moves >= 6 or ref.winner is not None)
    g.reset()
    compare(h, g, RefGomoku(size, case['pente']), False)


def gen_free(st):
    return st.fixed_dictionaries({'n': st.integers(4, 8), 'moves': st.lists(st.tuples(st.sampled_from(['safe', 'safe', 'safe', 'grow', 'grow', 'atari', 'kill', 'suicide']), st.integers(0, 997), st.sampled_from([B, W])), min_size=5, max_size=60), 'suicide': st.booleans(), 'every': st.sampled_from([1, 1, 7]), 'games': st.integers(1, 2)})


def run_free(case, h):
    """ colours in any order: large groups, merged groups, many in atari """
    from pybrain.rl.environments.twoplayergames import CaptureGame
    n = case['n']
    g = CaptureGame(n, case['suicide'])
    big = 0
    for again in range(case['games']):
        ref = RefCapture(n, case['suicide'])
        for i, (kind, k, c) in enumerate(case['moves'][::-1] if again else case['moves']):
            if ref.winner is not None:
                break
            if kind in ('kill', 'suicide') and i < len(case['moves']) - 2:
                kind = 'safe'
            cands = None
            if kind in ('safe', 'grow', 'atari'):
                kill = set(ref.killing(c))
                cands = [p for p in ref.acceptable(c) if p not in kill]
                if kind == 'grow':
                    cands = [p for p in cands if sum(ref.b.get(q) == c for q in ref.nb(p)) >= (1 + k % 2)] or cands
                elif kind == 'atari':
                    cands = [p for p in cands if any(ref.b.get(q) == -c and len(ref.libs(q)) == 2 for q in ref.nb(p))] or cands
                if not cands:
                    continue
                p = cands[k % len(cands)]
            else:
                p = pick(ref, c, kind, k)
                if p is None:
                    continue
            h.eq(bool(g.doMove(c, p)), ref.play(c, p), 'move %r accepted' % (p,))
            compare(h, g, ref, i % case['every'] == 0)
        compare(h, g, ref, True)
        big = max([big] + [len(ref.group(p)) for p in ref.b])
        h.label('winner %s' % ref.winner)
        g.reset()
    h.nontrivial(big >= 4)


def gen_star(st):
    return st.fixed_dictionaries({'size': st.tuples(st.integers(7, 9), st.integers(7, 9)), 'c': st.sampled_from([B, W]), 'rays': st.lists(st.tuples(st.sampled_from(['full', 'full', 'open', 'short', 'own', 'gap', 'long', 'empty']), st.booleans()), min_size=8, max_size=8), 'off': st.tuples(st.integers(0, 2), st.integers(0, 2)), 'order': st.integers(0, 9999), 'pente': st.sampled_from([True, True, True, False]),
                                  'more': st.lists(st.tuples(st.integers(0, 97), st.booleans()), max_size=12), 'rounds': st.integers(1, 2)})


def run_star(case, h):
    """ stones of both colours around one point, which is then played """
    import numpy as np
    from pybrain.rl.environments.twoplayergames import GomokuGame
    from pybrain.rl.environments.twoplayergames.pente import PenteGame
    size = tuple(case['size'])
    g = (PenteGame if case['pente'] else GomokuGame)(size)
    ref = RefGomoku(size, case['pente'])
    most = 0
    for r in range(case['rounds']):
        if ref.winner is not None:
            break
        c = case['c'] if r == 0 else -case['c']
        center = (3 + case['off'][0] % (size[0] - 6), 3 + case['off'][1] % (size[1] - 6))
        if r == 0 and center in ref.b:
            center = (center[0] - 1, center[1]) if size[0] == 7 else (3, 3)
        if not ref.legal(c, center):
            break
        stones = []
        for (kind, flip), d in zip(case['rays'], [(0, 1), (0, -1), (1, 0), (-1, 0), (1, 1), (-1, -1), (1, -1), (-1, 1)]):
            row = {'full': [-c, -c, c], 'open': [-c, -c, 0], 'short': [-c, c, c], 'own': [c, c, c], 'gap': [-c, 0, c], 'long': [-c, -c, -c], 'empty': [0, 0, 0]}[kind]
            for k, v in enumerate(row, 1):
                p = (center[0] + k * d[0], center[1] + k * d[1])
                if v and p in ref.pos:
                    stones.append((v, p))
        np.random.RandomState(case['order'] + r).shuffle(stones)
        for v, p in [(int(v), tuple(int(x) for x in p)) for v, p in stones]:
            if ref.winner is not None:
                break
            if ref.kills(v, p) or ref.taken(v, p):
                continue
            h.eq(bool(g.doMove(v, p)), ref.play(v, p), 'stone at %r accepted' % (p,))
        if ref.winner is None:
            compare(h, g, ref, True)
            most = max(most, len(ref.taken(c, center)) // 2)
            h.label('takes %d' % (len(ref.taken(c, center)) // 2))
            h.eq(bool(g.doMove(c, center)), ref.play(c, center), 'centre accepted')
            compare(h, g, ref, True)
    for k, black in case['more']:
        if ref.winner is not None:
            break
        v = B if black else W
        p = pick(ref, v, 'near', k)
        if p is None:
            break
        h.eq(bool(g.doMove(v, p)), ref.play(v, p), 'stone at %r accepted' % (p,))
        compare(h, g, ref, True)
    h.label('winner %s' % ref.winner)
    h.nontrivial(most >= 2 or ref.winner is not None)


GAMES = ['capture', 'capture', 'gomoku', 'pente']
PLAYERS = ['random', 'killing', 'nonsuicide', 'module', 'greedy']


def make_game(kind, size, suicide=True):
    from pybrain.rl.environments.twoplayergames import CaptureGame, GomokuGame
    from pybrain.rl.environments.twoplayergames.pente import PenteGame
    if kind == 'capture':
        return CaptureGame(size[0], suicide), RefCapture(size[0], suicide)
    return (PenteGame if kind == 'pente' else GomokuGame)(tuple(size)), RefGomoku(tuple(size), kind == 'pente')


def make_net(g, seed):
    import numpy as np
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.structure import SigmoidLayer, FullConnection
    kind = seed % 4
    rs = np.random.RandomState(seed)
    if kind == 1:
        # remembers earlier moves unless it is reset
        n = buildNetwork(g.outdim, 4, g.indim, outclass=SigmoidLayer, bias=True, recurrent=True)
        n.addRecurrentConnection(FullConnection(n['hidden0'], n['hidden0']))
        n.sortModules()
        n._setParameters(rs.normal(0, 2, n.paramdim))
    else:
        n = buildNetwork(g.outdim, g.indim, outclass=SigmoidLayer, bias=True)
        n._setParameters(rs.normal(0, 1, n.paramdim))
    if kind == 2:
        # tiny values
        for c in n.connections[n['bias']]:
            c.params[:] -= 25.0
    return n


def make_player(kind, name, g, color, seed):
    from pybrain.rl.environments.twoplayergames import capturegameplayers as CP, gomokuplayers as GP
    if name in ('module', 'greedy'):
        cls = CP.ModuleDecidingPlayer if kind == 'capture' else GP.ModuleDecidingPlayer
        net = make_net(g, seed)
        return cls(net, g, color=color, greedySelection=(name == 'greedy')), net
    if kind == 'capture':
        cls = {'random': CP.RandomCapturePlayer, 'killing': CP.KillingPlayer, 'nonsuicide': CP.NonSuicidePlayer}[name]
    else:
        cls = GP.KillingGomokuPlayer if name == 'killing' else GP.RandomGomokuPlayer
    return cls(g, color=color), None


def gen_players(st):
    return st.fixed_dictionaries({'game': st.sampled_from(GAMES), 'size': st.tuples(st.integers(5, 6), st.integers(5, 7)), 'small': st.booleans(), 'suicide': st.booleans(), 'p': st.tuples(st.sampled_from(PLAYERS), st.sampled_from(PLAYERS)), 'seed': st.integers(0, 9999), 'second': st.booleans()})


def run_players(case, h):
    import random
    import numpy as np
    kind = case['game']
    size = list(case['size'])
    if kind == 'capture' and case['small']:
        size[0] = 4
    g, ref = make_game(kind, size, case['suicide'])
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    cols = [W, B] if case['second'] else [B, W]
    players = [make_player(kind, name, g, c, case['seed'] + c + 1) for name, c in zip(case['p'], cols)]
    h.label(kind)
    turn = 0
    while ref.winner is None:
        c = cols[turn % 2]
        player, net = players[turn % 2]
        name = case['p'][turn % 2]
        if not ref.legals(c):
            break
        act = player.getAction()
        h.eq(len(act), 2, 'a move is a colour and a position')
        h.eq(act[0], c, 'colour of the move')
        p = tuple(int(v) for v in act[1])
        h.check(ref.legal(c, p), '%s plays a legal move' % name)
        if name == 'killing' and ref.killing(c):
            h.check(p in ref.killing(c), 'kills when possible')
        if kind == 'capture' and name in ('killing', 'nonsuicide') and ref.acceptable(c):
            h.check(not ref.suicidal(c, p), 'no avoidable suicide')
        if name == 'greedy':
            # stones of one's own colour are in the odd, those of the opponent in the even inputs
            x = [float(ref.b.get(q) == d) for q in ref.pos for d in (-c, c)]
            net.reset()
            out = dict(zip(ref.pos, [float(v) for v in net.activate(np.array(x))]))
            best = max(out[q] for q in ref.legals(c))
            h.check(out[p] >= best * (1 - 1e-7), 'the greedy move has the highest output of all legal ones')
        g.performAction(act)
        ref.play(c, p)
        turn += 1
        compare(h, g, ref, False)
        h.check(turn < 500, 'games end')
    h.nontrivial(turn >= 3)
    h.label('winner %s' % ref.winner)
    # playing by itself until the end
    if kind != 'capture' or case['suicide']:
        g.reset()
        p1, p2 = players[0][0], players[1][0]
        g.playToTheEnd(p1, p2)
        h.check(g.gameOver(), 'played to the end')
        h.check(g.getWinner() in (B, W, 'draw'), 'a winner or a draw')
        if kind == 'capture':
            h.check(g.getWinner() != 'draw', 'no draws in the capture game')


def gen_tasks(st):
    return st.fixed_dictionaries({'game': st.sampled_from(GAMES), 'size': st.integers(5, 6), 'oppstart': st.booleans(), 'alt': st.booleans(), 'coef': st.sampled_from([0.0, 0.3, 0.5, 1.0]), 'reward': st.sampled_from([1.0, 2.0, 10.0]), 'opp': st.sampled_from(['none', 'class', 'instance']),
                                  'oname': st.sampled_from(PLAYERS[:3]), 'agent': st.sampled_from(PLAYERS), 'games': st.integers(1, 5), 'seed': st.integers(0, 9999), 'asmodule': st.booleans()})


def make_task(case, make):
    from pybrain.rl.environments.twoplayergames import tasks as T
    kind = case['game']
    cls = {'capture': T.CaptureGameTask, 'gomoku': T.GomokuTask, 'pente': T.PenteTask}[kind]
    kw = dict(opponentStart=case['oppstart'], alternateStarting=case['alt'], numMovesCoeff=case['coef'], winnerReward=case['reward'], averageOverGames=case['games'])
    if case['opp'] != 'none':
        other, _ = make_game(kind, [case['size']] * 2)
        o = make_player(kind, case['oname'], other, B, 0)[0]
        kw['opponent'] = o.__class__ if case['opp'] == 'class' else o
    return cls(case['size'], **kw)


def run_tasks(case, h):
    import random
    import numpy as np
    kind = case['game']
    h.label(kind)

    def start():
        random.seed(case['seed'])
        np.random.seed(case['seed'])
        return make_task(case, None)
    task = start()
    env = task.env
    nm = case['size'] ** 2
    minm = 3 if kind == 'capture' else 9
    agent, net = make_player(kind, case['agent'], env, W, case['seed'])
    res = []
    lastcolor = None
    for k in range(case['games']):
        c = -task.opponent.color
        if k == 0:
            h.eq(c, W if case['oppstart'] else B, 'colour of the agent')
        elif case['alt']:
            h.eq(c, -lastcolor, 'the starting player alternates')
        else:
            h.eq(c, lastcolor, 'the starting player is the same')
        lastcolor = c
        agent.color = c
        task.reset()
        agent.newEpisode()
        first = 1 if kind == 'pente' else 0
        h.eq(env.movesDone, first + (1 if c == W else 0), 'black moves first')
        h.check(not task.isFinished(), 'a new game is open')
        while not env.gameOver():
            h.eq(task.getReward(), 0, 'no reward during the game')
            task.performAction(agent.getAction())
        w = env.getWinner()
        if w == 'draw':
            exp = 0.0
        else:
            exp = (case['reward'] - case['coef'] * (env.movesDone - minm) / float(nm - minm)) * (1 if w == c else -1)
        h.check(task.isFinished(), 'finished')
        h.close(task.getReward(), exp, 'final reward')
        h.close(task.getTotalReward(), exp, 'total reward')
        h.check(task.isFinished(), 'still finished')
        h.close(task.getReward(), exp, 'final reward, asked again')
        res.append(exp)
        h.label('draw' if w == 'draw' else ('win' if w == c else 'loss'))
    h.nontrivial(case['games'] >= 2)
    # evaluation is the average over the same games
    task2 = start()
    if net is not None and case['asmodule'] and case['agent'] == 'greedy':
        x = net
    else:
        x, _ = make_player(kind, case['agent'], task2.env, W, case['seed'])
    v = float(task2.f(x))
    m = max(abs(r) for r in res + [case['reward']])
    h.check(abs(v) <= max(m, case['reward'] + case['coef']) + 1e-9, 'average within the range of rewards')
    h.close(v, np.mean(res), 'average over games')


def scripted(base):
    class Scripted(base):
        """ plays or resigns as told by self.script(game number, stones on the board when the game began) """
        number = -1
        log = None

        def getAction(self):
            first = self.game.movesDone == 0
            if first:
                self.start(sum(1 for v in self.game.getSensors() if v != 0))
            if self.resigns():
                return [self.color, 'resign']
            l = self.game.getLegals(self.color)
            return [self.color, l[(self.a + self.b * self.game.movesDone) % len(l)]]
        a, b = 0, 0

        def start(self, stones):
            pass

        def resigns(self):
            return False
    return Scripted


def gen_handicap(st):
    return st.fixed_dictionaries({'size': st.integers(4, 7), 'levels': st.lists(st.sampled_from(['win', 'win', 'win', 'lose', 'mix']), min_size=0, max_size=20), 'rest': st.sampled_from(['win', 'lose', 'mix']), 'min': st.integers(3, 7), 'max': st.sampled_from([200, 200, 30, 5, 300]), 'again': st.booleans()})


def run_handicap(case, h):
    """ a player that wins or loses according to a script: the handicaps that it is given, and its score """
    from pybrain.rl.environments.twoplayergames.tasks.handicaptask import HandicapCaptureTask
    from pybrain.rl.environments.twoplayergames.capturegameplayers.captureplayer import CapturePlayer
    from pybrain.rl.environments.twoplayergames import CaptureGame
    size, levels, rest = case['size'], case['levels'], case['rest']
    P = scripted(CapturePlayer)
    seen, count = [], {}
    state = {}

    class Opponent(P):
        def start(self, stones):
            seen.append(stones)
            count[stones] = count.get(stones, 0) + 1
            kind = levels[stones] if stones < len(levels) else rest
            state['win'] = kind == 'win' or (kind == 'mix' and count[stones] % 2 == 0)

        def resigns(self):
            return state['win']

    class Player(P):
        def resigns(self):
            return not state['win']
    top = 2 * (size - 2) + 2 * (size - 4)
    task = HandicapCaptureTask(size, opponent=Opponent(CaptureGame(size)), minEvals=case['min'], maxGames=case['max'])
    del seen[:]
    # the documented procedure
    m = case['min']

    def kind(l):
        return levels[l] if l < len(levels) else rest
    exp, cnt, cur, high = [], {}, 0, 0

    def up(l):
        return cnt.get(l, 0) >= m and kind(l) == 'win'

    def down(l):
        return cnt.get(l, 0) >= m and kind(l) == 'lose'
    while len(exp) < case['max']:
        n = cnt.get(cur, 0)
        fluct = high > 0 and cnt.get(high, 0) >= 2 * m and cnt.get(high - 1, 0) >= 2 * m and up(high - 1) and down(high)
        if fluct or (n >= 2 * m and (kind(cur) == 'mix' or (kind(cur) == 'win' and cur >= top) or (kind(cur) == 'lose' and cur == 0))):
            break
        exp.append(cur)
        cnt[cur] = n + 1
        high = max(high, cur)
        if up(cur) and cur < top:
            cur += 1
        elif down(cur) and cur > 0:
            cur -= 1
    runs = 2 if case['again'] else 1
    for r in range(runs):
        count.clear()
        del seen[:]
        score = float(task.f(Player(task.env)))
        h.eq(seen, exp, 'handicaps of the games')
        last = len(exp) < case['max']
        h.check(-1.3 <= score <= high + 1.1, 'score between -1 and one more than the highest handicap')
        if last and kind(cur) == 'mix' and high == cur:
            h.close([score], [float(cur)], 'score when half of the games are won', atol=0.45, rtol=0)
        elif last and kind(cur) == 'lose' and high == cur == 0:
            h.close([score], [-1.0], 'score when all games are lost', atol=0.3, rtol=0)
        elif last and kind(cur) == 'win' and cur == top:
            h.close([score], [top + 1.0], 'score when all games are won', atol=0.3, rtol=0)
        elif last and cur in (high, high - 1) and kind(high) == 'lose' and kind(high - 1) == 'win':
            h.close([score], [high - 0.5], 'score when two handicaps alternate', atol=0.3, rtol=0)
    h.label('highest %d' % min(high, 6))
    h.label('stable' if len(exp) < case['max'] else 'cut off')
    h.nontrivial(high >= 1)


def gen_relative(st):
    pol = st.tuples(st.integers(0, 40), st.integers(0, 40))
    return st.fixed_dictionaries({'game': st.sampled_from(['capture', 'gomoku']), 'size': st.integers(5, 7), 'p': st.tuples(pol, pol), 'games': st.integers(1, 16), 'coef': st.sampled_from([0.0, 0.5, 1.0]), 'prop': st.sampled_from([0.0, 0.5, 0.5, 1.0, 0.25]), 'calls': st.integers(1, 2)})


def run_relative(case, h):
    """ two players that always answer a position alike: the score of one against the other """
    from pybrain.rl.environments.twoplayergames.tasks import RelativeCaptureTask
    from pybrain.rl.environments.twoplayergames.tasks.relativegomokutask import RelativeGomokuTask
    from pybrain.rl.environments.twoplayergames.capturegameplayers.captureplayer import CapturePlayer
    from pybrain.rl.environments.twoplayergames.gomokuplayers.gomokuplayer import GomokuPlayer
    size, kind = case['size'], case['game']
    P = scripted(CapturePlayer if kind == 'capture' else GomokuPlayer)
    players = []
    g, _ = make_game(kind, [size] * 2)
    for a, b in case['p']:
        x = P(g)
        x.a, x.b = a, b
        players.append(x)
    if kind == 'capture':
        task = RelativeCaptureTask(size, maxGames=case['games'], numMovesCoeff=case['coef'], presetGamesProportion=case['prop'])
        presets = [(i, j) for i in range(1, (size + 1) // 2) for j in range(i, (size + 1) // 2)] if case['prop'] > 0 else []
    else:
        task = RelativeGomokuTask(size, maxGames=case['games'], numMovesCoeff=case['coef'])
        presets = []
    h.label(kind)
    minm = 3 if kind == 'capture' else 9

    def game(p1, p2, preset=None):
        g, ref = make_game(kind, [size] * 2)
        order = [p1, p2]
        c = B
        if preset is not None:
            ref.play(B, preset)
            g.doMove(B, preset)
            order = [p2, p1]
        p1.color, p2.color = B, W
        p1.game = p2.game = g
        while ref.winner is None:
            for p in order:
                if ref.winner is None:
                    act = p.getAction()
                    g.performAction(act)
                    ref.play(*act)
        if ref.winner == 'draw':
            h.discard()
        s = 1 - case['coef'] * (ref.moves - minm) / float(size * size - minm)
        return s if ref.winner == B else -s
    for r in range(case['calls']):
        p1, p2 = players if r == 0 else players[::-1]
        n = case['games']
        if not presets:
            exp = game(p1, p2)
        else:
            cases = int(len(presets) / case['prop'])
            free = cases - len(presets)
            num = den = 0.0
            for i in range(n):
                k = i % cases
                if k >= free:
                    num += game(p1, p2, presets[k - free])
                    den += 1
                elif i == 0:
                    num += free * game(p1, p2)
                    den += free
                elif i >= cases:
                    num += game(p1, p2)
                    den += 1
            exp = num / den
        h.close([float(task(p1, p2))], [exp], 'score of the first player', rtol=1e-9, atol=1e-9)
    h.nontrivial(n >= 2)


def gen_tournament(st):
    return st.fixed_dictionaries({'game': st.sampled_from(GAMES), 'size': st.integers(5, 6), 'policies': st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40), st.integers(1, 7)), min_size=2, max_size=4), 'repeat': st.lists(st.integers(1, 2), min_size=1, max_size=2), 'forced': st.booleans(), 'sloppy': st.booleans(), 'k': st.sampled_from([16, 32]), 'start': st.sampled_from([1500, 1000])})


def run_tournament(case, h):
    from pybrain.rl.environments.twoplayergames import CaptureGame
    from pybrain.rl.environments.twoplayergames.capturegameplayers.captureplayer import CapturePlayer
    from pybrain.rl.environments.twoplayergames.gomokuplayers.gomokuplayer import GomokuPlayer
    from pybrain.rl.experiments.tournament import Tournament
    kind = case['game']
    g, ref = make_game(kind, [case['size']] * 2)
    base = CapturePlayer if kind == 'capture' else GomokuPlayer

    class Policy(base):
        def setup(self, pol):
            self.pol = pol
            self.count = 0
            self.episodes = 0

        def newEpisode(self):
            self.count = 0
            self.episodes += 1

        def getAction(self):
            a, b, s = self.pol
            self.count += 1
            if sloppy and self.count % 3 == 0 and not self.game.isLegal(self.color, (a % size, b % size)) and not self.last:
                self.last = True
                return [self.color, (a % size, b % size)]
            self.last = False
            l = self.game.getLegals(self.color)
            return [self.color, l[(a + b * (self.count // s)) % len(l)]]
        last = False
    size = case['size']
    sloppy = case['sloppy'] and case['forced']
    agents = []
    for pol in case['policies']:
        a = Policy(g)
        a.setup(pol)
        agents.append(a)
    t = Tournament(g, agents)
    t.forcedLegality = case['forced']
    rounds = 0
    for r in case['repeat']:
        res = t.organize(r)
        rounds += r
    n = len(agents)
    h.eq(t.rounds, rounds, 'rounds')
    h.eq(t.numGames, rounds * n * (n - 1), 'number of games')
    h.eq(set(res.keys()), set((a, b) for a in agents for b in agents if a is not b), 'all ordered pairs')
    h.label(kind)
    h.nontrivial(n >= 3 or rounds >= 2)
    sloppy_used = sloppy
    sloppy = False
    for (a, b), out in res.items():
        h.eq(len(out), rounds, 'games per pair')
        # play the game again
        g2, _ = make_game(kind, [size] * 2)
        sloppy = sloppy_used
        for x, c in ((a, B), (b, W)):
            x.game = g2
            x.color = c
            x.newEpisode()
        i = 0
        while not g2.gameOver():
            act = (a, b)[i % 2].getAction()
            if not g2.isLegal(*act):
                act = (a, b)[i % 2].getAction()
            g2.performAction(act)
            i += 1
        w = g2.getWinner()
        exp = {B: a, W: b}.get(w, 'draw')
        h.label('outcome %s' % w)
        for o in out:
            h.check(o is exp or (exp == 'draw' and isinstance(o, str) and o == 'draw'), lambda: 'recorded outcome %r, expected %r' % (o, w))
    # elo scores
    elos = t.eloScore(startingscore=case['start'], k=case['k'])
    h.eq(set(elos.keys()), set(agents), 'everybody gets a score')
    h.close(sum(elos.values()), case['start'] * n, 'scores are exchanged', rtol=1e-9)

    def pair(ra, rb):
        a, b = agents
        out = res[(a, b)] + res[(b, a)]
        s = sum(1.0 if o is a else (0.5 if isinstance(o, str) else 0.0) for o in out)
        e = len(out) / (1.0 + 10 ** ((rb - ra) / 400.0))
        return ra + case['k'] * (s - e), rb - case['k'] * (s - e)
    if n == 2:
        ra, rb = pair(float(case['start']), float(case['start']))
        h.close([elos[agents[0]], elos[agents[1]]], [ra, rb], 'scores')
        elos = t.eloScore(k=case['k'])
        h.close([elos[agents[0]], elos[agents[1]]], list(pair(ra, rb)), 'scores start from earlier ones')
    h.close([a.elo for a in agents], [elos[a] for a in agents], 'agents know their score')
    t.reset()
    h.eq((t.rounds, t.numGames, len(t.results)), (0, 0, 0), 'reset')


FACETS = {
    'capture': {'gen': gen_capture, 'run': run_capture, 'quick': 500, 'thorough': 8000},
    'gomoku': {'gen': gen_gomoku, 'run': run_gomoku, 'quick': 450, 'thorough': 6000},
    'free': {'gen': gen_free, 'run': run_free, 'quick': 250, 'thorough': 5000},
    'star': {'gen': gen_star, 'run': run_star, 'quick': 250, 'thorough': 5000},
    'players': {'gen': gen_players, 'run': run_players, 'quick': 220, 'thorough': 3000},
    'tasks': {'gen': gen_tasks, 'run': run_tasks, 'quick': 200, 'thorough': 3000},
    'handicap': {'gen': gen_handicap, 'run': run_handicap, 'quick': 60, 'thorough': 1000},
    'relative': {'gen': gen_relative, 'run': run_relative, 'quick': 80, 'thorough': 1500},
    'tournament': {'gen': gen_tournament, 'run': run_tournament, 'quick': 120, 'thorough': 2000},
}
