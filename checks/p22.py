#!/usr/bin/env python3
"""P22: a fixed-depth mate search answers mate exactly when the tree of the moves it lists says so."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main, venv
venv()
import build
from lin import *
from multiprocessing import Pool

REP = ['Not', 'Draw', 'Win', 'Lose', 'Superior', 'Inferior']

class Mate(Interp):
    """the searches with the position, the lists of moves and the verdicts on positions as symbolic facts; a node of the tree is
    the tuple of moves made"""
    def __init__(self, m):
        E = {k: dict(v) for k, v in m['enums'].items()}
        self.mt = E['MoveType']; r = E['RepetitionType']
        self.rep = [r['NotRepetition']] + [r['Repetition' + x] for x in REP[1:]]
        self.ext = m['records']['ExtMove']['size'] // 8
        super().__init__(m, None, [
            (r'generateMoves<', Mate.generate), (r'Position::doMove\(', Mate.do), (r'Position::undoMove\(', Mate.undo), (r'Position::isDraw\(', Mate.draw),
            (r'Position::mateMoveIn1Ply', Mate.one), (r'Position::moveGivesCheck', Mate.gives), (r'Position::checkMoveIsEvasion', Mate.evades),
            (r'Position::pseudoLegalMoveIsLegal<', Mate.legal), (r'Position::inCheck', Mate.check), (r'Position::pinnedBB|CheckInfo::CheckInfo', lambda it, st, d, a: K(0))], 6000000 if '--thorough' in sys.argv else 800000)
    def binop(self, st, op, a, b, w):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and TOP not in (a.off, b.off): return super().binop(st, op, a.off, b.off, 64)
        return super().binop(st, op, a, b, w)
    def fork(self, st, cond):
        if cond == TOP: raise Undecided('condition not followed')
        return super().fork(st, cond)
    def dead(self, st, op, blk):
        if op == 'unreachable' and not st.approx and not any(x['op'] in ('call', 'invoke') for x in blk): self.lost.append((self.path(st), st))
    def path(self, st): return st.mem.get(('path',), {0: ((), 1)})[0][0]
    def field(self, st, f, n):
        if f not in st.sizes: st.sizes[f] = n
        if f not in st.dom: st.dom[f] = tuple(range(n))
        return fld(f, n)
    def num(self, st, v):
        if not isinstance(v, V) or st.norm(v).p: raise Undecided('move')
        return st.norm(v).c
    def mv(self, st, v):
        """the move an argument stands for"""
        if isinstance(v, Ptr): v = self.load(st, v, 4)
        return self.num(st, v)
    def generate(self, st, dem, a):
        p = self.path(st); t = int(re.search(r'generateMoves<\(MoveType\)(\d+)', dem).group(1))
        want = self.mt['CheckAll'] if (len(p) + self.androot) % 2 == 0 else self.mt['Evasion']
        st.ev = getattr(st, 'ev', ())
        if t != want: raise Undecided('list of another kind (%d)' % t)
        L = moves(p, self.width_)
        if not isinstance(a[0], Ptr): raise Undecided('list')
        for k, m in enumerate(L): self.store(st, Ptr(a[0].o, add(a[0].off, K(self.ext * k))), K(m), 4)
        return Ptr(a[0].o, add(a[0].off, K(self.ext * len(L))))
    def do(self, st, dem, a):
        p = self.path(st); m = self.mv(st, a[1])
        if m not in moves(p, self.width_): raise Undecided('another move made')
        if len(a) >= 5:
            g = st.norm(a[4]) if isinstance(a[4], V) else TOP
            if g == TOP: raise Undecided('flag')
            want = K(1) if (len(p) + self.androot) % 2 == 0 else self.field(st, 'G%d' % m, 2)
            d = differ(st, self.point(st, lambda x: int(x & 1), g), want)
            if d is not None and not st.approx: self.flags.append((p, m))
        st.mem[('path',)] = {0: (p + (m,), 1)}; return K(0)
    def undo(self, st, dem, a):
        p = self.path(st); m = self.mv(st, a[1])
        if not p or p[-1] != m: raise Undecided('undo of another move')      # P07
        st.mem[('path',)] = {0: (p[:-1], 1)}; return K(0)
    def draw(self, st, dem, a):
        p = self.path(st); f = self.field(st, 'R' + str(p), 6)
        n = st.norm(a[1]) if len(a) > 1 and isinstance(a[1], V) else K(0)
        if n.p or n.c < 16: raise Undecided('repetitions looked for in fewer plies')
        return tab('R' + str(p), self.rep)
    def one(self, st, dem, a):
        f = 'M' + str(self.path(st)); self.field(st, f, 2); r = tab(f, [0, 9])
        if len(a) > 1: self.store(st, a[0], r, 4)            # the move is returned in memory
        return r
    def gives(self, st, dem, a):
        p = self.path(st); m = self.mv(st, a[1])
        return K(1) if (len(p) + self.androot) % 2 == 0 else self.field(st, 'G%d' % m, 2)
    def evades(self, st, dem, a): return self.field(st, 'E%d' % self.mv(st, a[1]), 2)
    def legal(self, st, dem, a): return self.field(st, 'L%d' % self.mv(st, a[1]), 2)
    def check(self, st, dem, a):
        p = self.path(st)
        if (len(p) + self.androot) % 2: return K(1)
        return self.field(st, 'G%d' % p[-1], 2) if p else self.field(st, 'C', 2)

def moves(p, width):
    """the moves of a node: distinct numbers; width[level] many"""
    b = 1
    for m in p: b = b * 16 + m % 16
    return [b * 16 + k + 1 for k in range(width[len(p)] if len(p) < len(width) else 1)]

class Tree:
    """three-valued value of the tree: True, False, None"""
    def __init__(self, I, st): self.I = I; self.st = st
    def get(self, f, n=2): return self.st.dom.get(f, tuple(range(n)))
    def bit(self, f):
        d = self.get(f); return None if len(d) > 1 else bool(d[0])
    @staticmethod
    def all(xs):
        r = True
        for x in xs:
            if x is False: return False
            if x is None: r = None
        return r
    @staticmethod
    def neg(x): return None if x is None else not x
    def any(self, xs): return self.neg(self.all([self.neg(x) for x in xs]))
    def same(self, xs):
        xs = set(xs); return xs.pop() if len(xs) == 1 else None
    def branch(self, p, m, d):
        """one checking move (OR node of depth d > 1)"""
        q = p + (m,); lg = True
        c = self.bit('C' if not p else 'G%d' % p[-1])
        e = self.bit('E%d' % m)
        lg = self.any([self.neg(c), e]) if c is not False else True
        def v(r):
            return True if r == 'Lose' else False if r in ('Draw', 'Win', 'Superior') else self.AND(q, d - 1)
        return self.all([lg, self.same([v(REP[i]) for i in self.get('R' + str(q), 6)])])
    def OR(self, p, d): return self.any([self.branch(p, m, d) for m in moves(p, self.I.width_)])
    def three(self, p):
        c = self.bit('G%d' % p[-1]); out = []
        for m in moves(p, self.I.width_):
            lg = self.any([self.neg(c), self.bit('E%d' % m)]) if c is not False else True
            q = p + (m,)
            rs = [self.any([self.neg(self.bit('L%d' % m2)), self.all([self.neg(self.bit('G%d' % m2)), self.bit('M' + str(q + (m2,)))])]) for m2 in moves(q, self.I.width_)]
            out.append(self.all([lg, self.all(rs)]))
        return self.any(out)
    def AND(self, p, d):
        out = []
        for m in moves(p, self.I.width_):
            q = p + (m,)
            def v(r):
                if r == 'Win': return True
                if r in ('Draw', 'Lose', 'Inferior'): return False
                if d == 2: return self.all([self.neg(self.bit('G%d' % m)), self.bit('M' + str(q))])
                if d == 4: return self.three(q)
                return self.OR(q, d - 1)
            out.append(self.any([self.neg(self.bit('L%d' % m)), self.same([v(REP[i]) for i in self.get('R' + str(q), 6)])]))
        return self.all(out)

def show(I, st):
    out = []
    for f, d in sorted(st.dom.items()):
        n = 6 if f[0] == 'R' else 2
        if len(d) == n: continue
        if f[0] == 'R': out.append('repetition after %s: %s' % (f[1:], '/'.join(REP[i] for i in d)))
        else: out.append('%s %s = %d' % ({'M': 'mate in one after', 'G': 'gives check', 'E': 'answers the check', 'L': 'legal', 'C': 'in check'}[f[0]], f[1:], d[0]))
    return '; '.join(out)

MOD = None
def tree(job):
    d, entry, w = job
    n = 0; und = set(); viol = []
    I = Mate(MOD); I.width_ = w; I.androot = 0 if entry == 'w_mate' else 1; I.flags = []; I.lost = []
    name = '%s(%d)' % ('mate_move' if entry == 'w_mate' else 'is_mate', d)
    try: outs = I.run(entry, [Ptr(('board',), K(0)), K(d)], State({}))
    except (Undecided, KeyError, TypeError, AttributeError) as e:
        if str(e) == 'too many steps': return 0, [], []
        return 0, ['%s: %s' % (name, e)], []
    for p, mv in I.flags[:1]:
        viol.append(('flag %d' % (len(p) % 2), '%s check flag' % name, '%s: at depth %d the position is told wrongly whether the move gives check' % (name, d - len(p))))
    for p, st in I.lost[:1]: viol.append(('lost', name + ' no answer', '%s: no case for: %s' % (name, show(I, st))))
    for v, st in outs:
        n += 1
        if st.approx: und.add(name + ': path not followed'); continue
        if I.path(st): und.add(name + ': moves left'); continue
        if not isinstance(v, V) or (st.norm(v).p and entry == 'w_mate'): und.add(name + ': answer'); continue
        for a, s2 in ([(st.norm(v).c, st)] if not st.norm(v).p else [(b, x) for b, x in I.fork(st, v)]):
            T = Tree(I, s2); val = T.OR((), d) if entry == 'w_mate' else T.AND((), d)
            if entry == 'w_mate' and a:
                if a not in moves((), w): msg = 'a move is returned that was not tried'
                elif T.branch((), a, d) is True: continue
                else: msg = 'a move is returned that does not mate'
            elif bool(a) == val: continue
            else: msg = 'mate is claimed where there is an escape' if a else 'a mate in the tree is missed'
            if not any(k == (entry, msg) for k, _, _ in viol): viol.append(((entry, msg), '%s %s' % (name, msg), '%s: %s: moves per level %s; %s' % (name, msg, list(w), show(I, s2))))
    return n, sorted(und), viol

def run(chk):
    m = build.matemod(); bad = set()
    # width of the tree per level, the widest levels one after another
    todo = []
    for d, entry in ((3, 'w_mate'), (5, 'w_mate'), (7, 'w_mate'), (2, 'w_isMate'), (4, 'w_isMate'), (6, 'w_isMate')):
        n = d if entry == 'w_mate' else d
        ws = {tuple(w) for w in itertools.product((0, 1, 2), repeat=min(n, 4)) if sum(w) <= (5 if n <= 4 else 4)}
        ws |= {tuple([1] * k + [w] + [1] * (n - 1 - k)) for k in range(n) for w in (0, 2, 3)} | {tuple([1] * k + [2, 2] + [1] * (n - 2 - k)) for k in range(n - 1)}
        for w in sorted(ws): todo.append((d, entry, tuple(w) + (1,) * (n - len(w))))
    global MOD
    MOD = m
    with Pool(8) as pool:
        for n, und, viol in pool.imap_unordered(tree, todo):
            chk.obligation('trees' if n or und else 'trees beyond the step budget'); chk.obligation('paths', n)
            for u in und: chk.undecide(u)
            for key, where, msg in viol:
                if key not in bad: bad.add(key); chk.violation(where, msg)
    if not chk.undecided: chk.need('paths', 2000)
    chk.assumptions += ['the lists of checks and evasions are those of the generators (P05), the verdict on repetitions is that of isDraw (P17), mate in one is that of mateMoveIn1Ply']
    chk.finish('The searches are interpreted on trees of up to 7 plies with up to 3 moves per node, where legality, check, repetition verdict and mate in one of every node are symbolic; on every path the answer must equal the three-valued value of the AND/OR tree under the facts the path has established, so an answer that looks at too little is reported as well.')

if __name__ == '__main__': main(run, Check('P22', technique='abstract interpretation of the searches over symbolic game trees against the AND/OR value'))
