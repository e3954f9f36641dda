#!/usr/bin/env python3
"""P05: the moves generated are exactly the legal ones."""
import os, sys, itertools, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main, venv
venv()
import build
from focus import *
from multiprocessing import Pool, TimeoutError

FC = None
FT = None
def focus(entry=None):
    global FC, FT
    if entry in ('usi', 'csa'):
        if FT is None: FT = Focus(build.textmod(), fuel=3000000)
        return FT
    if FC is None: FC = Focus(build.rulesmod(), fuel=3000000)
    return FC

# ---- the rules of shogi, on the tracked squares --------------------------------------------------------------------
def zone(c, y): return y <= 2 if c == 0 else y >= 6
def dead(kind, c, y):
    r = y if c == 0 else 8 - y
    return kind in ('Pawn', 'Lance') and r == 0 or kind == 'Knight' and r < 2

class Game:
    """one concrete case of a scenario: coordinates relative to each base, contents, state of the lines"""
    def __init__(self, sq, con, a, rel=None):
        self.sq = sq; self.a = a; self.rel = rel
        self.at = {n: c[a.get('c' + n, 0)] for n, c in con.items()}
    def attacks(self, n, x, at=None):
        at = at or self.at; p = at.get(n)
        if p is None or n == x: return False
        (b, ax, ay), (b2, bx, by) = self.sq[n], self.sq[x]
        if b != b2: return bool(self.rel and self.rel(n, x))
        r = reach(p[0], p[1], bx - ax, by - ay)
        if r is None: return False
        if r == 'step': return True
        d = max(abs(bx - ax), abs(by - ay)); known = 0
        for y, (b3, cx, cy) in self.sq.items():
            if b3 == b and any((cx, cy) == (ax + r[0] * k, ay + r[1] * k) for k in range(1, d)):
                known += 1
                if at.get(y) is not None: return False
        return known == d - 1 or bool(self.a.get('clr' + ''.join(sorted((n, x))), 1))
    def attacked(self, x, by, at=None):
        at = at or self.at
        return any(p is not None and p[1] == by and self.attacks(n, x, at) for n, p in at.items())
    def king(self, c, at):
        for n, p in at.items():
            if p == ('King', c): return n
    def after(self, frm, to, piece):
        at = dict(self.at)
        if frm: at[frm] = None
        at[to] = piece
        return at
    def coord(self, n):
        b, dx, dy = self.sq[n]; x, y = self.a.get(b + 'x'), self.a.get(b + 'y')
        return None if y is None else y + dy
    def legal_board(self, f, t, pseudo=False):
        """promotion flags allowed for the piece on f going to t"""
        p, q = self.at[f], self.at[t]
        if p is None or q is not None and (q[1] == p[1] or q[0] == 'King') or not self.attacks(f, t): return []
        k = t if p[0] == 'King' else self.king(p[1], self.at)
        if not pseudo and k and self.attacked(k, 1 - p[1], self.after(f, t, p)): return []
        out = []; fy, ty = self.coord(f), self.coord(t)
        if not dead(p[0], p[1], ty): out.append(0)
        if p[0] in PRO and (zone(p[1], fy) or zone(p[1], ty)): out.append(1)
        return out
    def drop_ok(self, us, kind, t):
        if self.at[t] is not None or dead(kind, us, self.coord(t)): return False
        at = self.after(None, t, (kind, us))
        if kind == 'Pawn':
            b, dx, dy = self.sq[t]
            if any(n != t and p == ('Pawn', us) and self.sq[n][0] == b and self.sq[n][1] == dx for n, p in self.at.items()): return False
        k = self.king(us, self.at)
        if k and self.attacked(k, 1 - us, at): return False
        if kind == 'Pawn':
            e = self.king(1 - us, self.at)
            if e and self.attacks(t, e, at) and not self.replies(1 - us, at): return False
        return True
    def replies(self, c, at):
        """whether this side has a move in the tracked squares (no drops: only used against a pawn dropped next to the king)"""
        k = self.king(c, at)
        for f, p in at.items():
            if p is None or p[1] != c: continue
            for t in self.sq:
                q = at.get(t)
                if q is not None and (q[1] == c or q[0] == 'King') or not self.attacks(f, t, at): continue
                n = dict(at); n[f] = None; n[t] = p
                if not self.attacked(t if f == k else k, 1 - c, n): return True
        return False

# ---- running the generator ------------------------------------------------------------------------------------------
def cname(c): return 'nothing' if c is None else '%s %s' % (('Black', 'White')[c[1]], c[0])
def decode(I, st, v):
    out = {}
    for k in ('to', 'from', 'cap', 'ptFrom', 'ptDropped', 'isDrop', 'isProm'):
        r = I.run('x_' + k, [v], st.copy())
        if len(r) != 1 or not isinstance(r[0][0], V): return None
        out[k] = st.norm(r[0][0])
    return out
def emitted(I, end, st):
    if not isinstance(end, Ptr) or end.o != ('ml',): return None
    o = st.norm(end.off)
    if o.p: return None
    cells = st.mem.get(('ml',), {})
    return [cells.get(4 * k, (None,))[0] for k in range(o.c // 4)]
def assignments(st, fields):
    fields = [f for f in fields if f in st.dom]
    for c in itertools.product(*[st.dom[f] for f in fields]): yield dict(zip(fields, c))

class Res(dict):
    def __init__(self): super().__init__(n=0, paths=0, cases=0, und={}, viol=[])
    def und(self, k): self['und'][k] = self['und'].get(k, 0) + 1

def generated(I, entry, st, mover, to):
    """[(moves of interest, state)]"""
    res = []
    for end, s in I.run(entry, [Ptr(('ml',), K(0)), Ptr(('pos',), K(0))], st):
        if s.approx: res.append(('path not followed', s)); continue
        ms = emitted(I, end, s)
        if ms is None: res.append(('list not followed', s)); continue
        got = []
        for v in ms:
            d = decode(I, s, v) if isinstance(v, V) else None
            if d is None or d['isProm'].p or d['isDrop'].p or d['ptDropped'].p and d['isDrop'].c: got = 'move not followed'; break
            if differ(s, d['to'], I.loc[to]) is not None: continue
            if d['isDrop'].c:
                if mover is None: got.append(d['ptDropped'].c)
                continue
            if mover is None or differ(s, d['from'], I.loc[mover]) is not None: continue
            PT = I.E['PieceType']
            want = I.tabc(to, lambda c: 0 if c is None else PT[c[0]]); pf = I.tabc(mover, lambda c: 0 if c is None else PT[c[0]])
            if differ(s, d['ptFrom'], pf) is not None or differ(s, d['cap'], want) is not None: got.append('wrong'); continue
            got.append(d['isProm'].c)
        res.append((got if isinstance(got, str) else sorted(map(str, got)), s))
    return res

CSA = dict(zip(['Pawn', 'Lance', 'Knight', 'Silver', 'Bishop', 'Rook', 'Gold', 'King', 'ProPawn', 'ProLance', 'ProKnight', 'ProSilver', 'Horse', 'Dragon'], 'FU KY KE GI KA HI KI OU TO NY NK NG UM RY'.split()))
USI = dict(zip(['Pawn', 'Lance', 'Knight', 'Silver', 'Gold', 'Bishop', 'Rook'], 'PLNSGBR'))
def movetext(I, entry, mover, to, x):
    """the text of the move (None: this notation has none)"""
    def place(n):
        b, dx, dy = I.sq[n]
        return [add(fld(b + 'x', 9), K(49 + dx)), add(fld(b + 'y', 9), K((97 if entry == 'usi' else 49) + dy))]
    kinds = {v: k for k, v in I.E['PieceType'].items() if k in KINDS}
    if mover is None:
        k = kinds[x]
        if entry == 'csa': return [K(48), K(48)] + place(to) + [K(ord(c)) for c in CSA[k]]
        return [K(ord(USI[k])), K(42)] + place(to) if k in USI else None
    if entry == 'usi': return place(mover) + place(to) + ([K(43)] if x else [])
    if x and not any(c and c[0] in PRO for c in I.con[mover]): return None
    return place(mover) + place(to) + [I.tabc(mover, lambda c, j=j: 63 if c is None or x and c[0] not in PRO else ord(CSA[PRO[c[0]] if x else c[0]][j])) for j in (0, 1)]
def candidates(I, st, con, mover, to, hand, entry='is_legal'):
    """the same for is_legal or a reader of move texts, asked about every move from mover to to (or every drop on to)"""
    PT = I.E['PieceType']; cur = [([], st)]
    B = next(x['off'] // 8 for x in I.m['records']['__Board']['members'] if x['name'] == 'pos')
    brd = Ptr(('pos',), K(-B)); pos = Ptr(('pos',), K(0))
    pf = None if mover is None else I.tabc(mover, lambda c: 0 if c is None else PT[c[0]])
    for x in (PT[k] for k in KINDS) if mover is None else (0, 1):
        nxt = []; keep = [(g, s.copy()) for g, s in cur]
        if entry != 'is_legal':
            text = movetext(I, entry, mover, to, x)
            if text is None: continue
            for got, s in cur:
                s.strs[(('in',), 0)] = text
                for r, s2 in I.run('t_fromUsi' if entry == 'usi' else 't_fromCsa', [brd, Ptr(('in',), K(0))], s):
                    if not isinstance(r, V): s2.approx = True; nxt.append((got, s2)); continue
                    r = I.compare(s2, 'ne', r, K(0), 32)
                    if r == TOP: s2.approx = True; nxt.append((got, s2)); continue
                    for tv, s3 in I.fork(s2, r): nxt.append((got + [str(x)] if tv else got, s3))
            cur = nxt; continue
        for got, s in cur:
            mk = I.run('x_drop', [K(x), I.loc[to]], s) if mover is None else I.run('x_makep' if x else 'x_make', [pf, I.loc[mover], I.loc[to], pos], s)
            for v, s1 in mk:
                for r, s2 in I.run('w_extLegal', [brd, v], s1):
                    if not isinstance(r, (V, Cmp)): s2.approx = True; nxt.append((got, s2)); continue
                    for tv, s3 in I.fork(s2, r): nxt.append((got + [str(x)] if tv else got, s3))
        if mover is None and any(s.approx for _, s in nxt) and not any(s.approx for _, s in cur): nxt = keep      # this drop is not decided
        cur = nxt
    return [(sorted(g), s) for g, s in cur]

def explore(I, res, entry, us, sq, con, king, expect, fields, label, check=None, hand=None, extra=None, mover=None, to='T', grel=None, restrict=None, gen=None, what=None):
    """run the generator on a scenario and compare the moves mover -> to (None: drops on to) with the rules, for every
    assignment of the fields that the scenario leaves open.  expect(game) -> None (position cannot arise) | sorted list"""
    st = I.scenario(sq, con, us, hand=hand or {0: K(0), 1: K(0)}, king=king, check=check, extra=extra)
    if st is None: return
    for f, vs in (restrict or {}).items():
        st.dom[f] = tuple(v for v in st.dom[f] if v in vs)
        if not st.dom[f]: return
    st.mem[('ml',)] = {}
    res['n'] += 1
    try: outs = candidates(I, st, con, mover, to, hand, entry) if entry in ('is_legal', 'usi', 'csa') else (gen or generated)(I, entry, st, mover, to)
    except (Undecided, ForkField) as e: res.und(str(e)); return
    for got, s in outs:
        res['paths'] += 1
        if s.approx: res.und('path not followed'); continue
        if isinstance(got, str): res.und(got); continue
        for a in assignments(s, fields):
            g = Game(sq, con, a, grel)
            exp = expect(g)
            if exp is None: continue
            res['cases'] += 1
            exp, may = exp if isinstance(exp, tuple) else (exp, False)
            if may and not got: continue
            if got != sorted(map(str, exp)):
                if s.mem[('unk',)]: res.und('depends on an untracked square'); break
                if len(res['viol']) < 3:
                    N = {v: k for k, v in I.E['PieceType'].items() if k in KINDS}
                    def txt(l): return ', '.join((N.get(int(y), y) if mover is None else {'1': 'promoting', '0': 'not promoting'}.get(y, 'a wrong piece or captured piece')) if y.isdigit() else 'a wrong piece or captured piece' for y in l) or 'no move'
                    where = '; '.join('%s %s' % (n if dxy[0] != sq[to][0] else '%s%+d%+d' % (n, dxy[1] - sq[to][1], dxy[2] - sq[to][2]), cname(g.at[n])) for n, dxy in sq.items())
                    res['viol'].append((label, '%s, %s to move, rank of the destination %s, squares relative to it: %s%s: yields %s, the rules allow %s' % (
                        {'w_legal': 'legal moves', 'w_pseudo': 'pseudo-legal moves', 'is_legal': 'is_legal', 'usi': 'move_from_usi', 'csa': 'move_from_csa'}.get(entry, what or 'moves tried as checks'), ('Black', 'White')[us], g.coord(to) + 1 if g.coord(to) is not None else '?', where,
                        ''.join(', %s=%s' % (k, v) for k, v in sorted(a.items()) if k.startswith(('clr', 'h', 'btw'))), txt(got), txt(map(str, exp)))))
                break

OTHER = [k for k in KINDS if k != 'King']
def board(job):
    """moves of a piece on the board from F to T = F + (dx, dy).  mode: free (not in check); capture (T holds the only
    checker), block (T lies between the checker and the king), away (neither), double (two checkers, one of them on T),
    double2 (T blocks one of two checkers)"""
    entry, us, kind, mode = job
    I = focus(entry); res = Res(); them = 1 - us; I.assume_clear = False
    tc = [None] + [(k, them) for k in OTHER] + [(k, us) for k in (OTHER if kind == 'King' else KINDS)]
    if kind == 'King': tc = [c for c in tc if c != ('King', us)]
    if mode == 'capture': tc = [(k, them) for k in OTHER]
    if mode == 'double': tc = [('Knight', them), ('Horse', them)]
    if mode == 'away': tc = [None, ('Pawn', them), ('Dragon', them), ('Gold', us)]
    if mode in ('block', 'double2'): tc = [None]
    ok = mode in ('free', 'capture', 'block')
    def rel(st, what, c, n, x):
        if what == 'between': return K(int(mode in ('block', 'double2') and x == 'T' and set(n) == {'C', 'K'}))
        return K(0)
    I.rel = rel
    for dx in range(-8, 9):
        for dy in range(-8, 9):
            if (dx, dy) == (0, 0): continue
            sq = {'F': ('f', 0, 0), 'T': ('f', dx, dy), 'E': ('e', 0, 0)}
            con = {'F': [(kind, us)], 'T': tc, 'E': [('King', them)]}
            king = {them: 'E', us: 'F'}; check = {}
            if kind != 'King': sq['K'] = ('k', 0, 0); con['K'] = [('King', us)]; king[us] = 'K'
            if mode in ('capture', 'double'): check['T'] = K(1)
            if mode in ('block', 'away', 'double', 'double2'): sq['C'] = ('c', 0, 0); con['C'] = [('Rook', them)]; check['C'] = K(1)
            if mode == 'double2': sq['D'] = ('d', 0, 0); con['D'] = [('Bishop', them)]; check['D'] = K(1)
            expect = lambda g: sorted(g.legal_board('F', 'T')) if ok else []
            rows = {'fy': [y for y in range(9) if not dead(kind, us, y)]}
            explore(I, res, entry, us, sq, con, king, expect, ['fy', 'cT', 'cC', 'clrFT'], '%s:%s:%s:%d' % (entry, kind, mode, us), check=check, extra={'clrFT': 2}, mover='F', restrict=rows)
    return res

def kingmove(job):
    """moves of the king from K to its neighbour T, with a piece A of the opponent anywhere; A checks or does not"""
    entry, us, n8 = job
    I = focus(entry); res = Res(); them = 1 - us; I.rel = None; I.assume_clear = False
    tx, ty = n8
    for ax in range(-8, 9):
        for ay in range(-8, 9):
            if (ax, ay) == (0, 0): continue
            same = (ax, ay) == (tx, ty)
            for chk in (0, 1):
                kinds = [k for k in OTHER if bool(reach(k, them, -ax, -ay)) or not chk]
                if not kinds: continue
                sq = {'K': ('k', 0, 0), 'T': ('k', tx, ty), 'E': ('e', 0, 0)}
                con = {'K': [('King', us)], 'E': [('King', them)]}
                A = 'T' if same else 'A'
                sq[A] = ('k', ax, ay); con[A] = [(k, them) for k in kinds]
                if not same: con['T'] = [None, ('Pawn', them), ('Gold', us)]
                extra = {'clr' + ''.join(sorted((A, x))): 2 for x in ('K', 'T') if x != A}
                def expect(g):
                    if g.attacks(A, 'K') != bool(chk): return None
                    # a clear line to the farther square is clear to the nearer one, too
                    u = (ax > 0) - (ax < 0), (ay > 0) - (ay < 0)
                    on = 0 in (ax, ay) or abs(ax) == abs(ay)
                    if not same and on and (tx, ty) in (u, (-u[0], -u[1])) and g.a.get('clrAT') != g.a.get('clrAK') and max(abs(ax), abs(ay)) > ((tx, ty) == u) + 1: return None
                    if entry != 'w_pseudo': return g.legal_board('K', 'T')
                    r = g.legal_board('K', 'T', True)
                    return (r, True) if not g.legal_board('K', 'T') else r
                explore(I, res, entry, us, sq, con, {us: 'K', them: 'E'}, expect, ['ky', 'cA', 'cT'] + list(extra), '%s:king:%d' % (entry, us), check={A: K(chk)}, extra=extra, mover='K')
    return res

def pin(job, entry='w_legal'):
    """moves of a piece F that may be pinned: K, F = K + i*u, A = K + j*u, perhaps another piece B in between"""
    us, u, i, j = job
    I = focus(entry); res = Res(); them = 1 - us; I.rel = None; I.assume_clear = True
    line = reach('Dragon' if 0 in u else 'Horse', 0, *u) is not None
    ds = {(a * k, b * k) for a, b in STEP['King'] for k in (1, 2)} | {(a, b) for a in (-1, 1) for b in (-2, 2)} | {(u[0] * (k - i), u[1] * (k - i)) for k in range(1, j + 1)} - {(0, 0)}
    bs = [None] + [k for k in range(1, j) if k != i]
    if len(bs) > 3: bs = [None, bs[1], bs[-1]]
    for b in bs:
        for dx, dy in sorted(ds):
            if not any(reach(k, us, dx, dy) for k in OTHER): continue
            fk = [(k, us) for k in OTHER if reach(k, us, dx, dy) and k not in ('ProPawn', 'ProLance', 'ProKnight')]
            sq = {'K': ('k', 0, 0), 'F': ('k', u[0] * i, u[1] * i), 'A': ('k', u[0] * j, u[1] * j), 'E': ('e', 0, 0)}
            con = {'K': [('King', us)], 'F': fk, 'A': [(k, them) for k in ('Lance', 'Bishop', 'Rook', 'Horse', 'Dragon', 'Gold')], 'E': [('King', them)]}
            if b: sq['B'] = ('k', u[0] * b, u[1] * b); con['B'] = [('Gold', us), ('Pawn', them)]
            t = ('k', u[0] * i + dx, u[1] * i + dy); to = 'T'
            for n in sq:
                if sq[n] == t: to = n
            if to in ('K', 'B'): continue
            tk = [(k, them) for k in OTHER if reach(k, them, -t[1], -t[2])]
            for chk in (0, 1):
                if chk and (to != 'T' or not tk): continue
                if to == 'T': sq['T'] = t; con['T'] = tk if chk else [None, ('Pawn', them)]
                def expect(g):
                    if g.attacks('A', 'K') or b and g.attacks('B', 'K') and g.at['B'][1] == them: return None
                    if to == 'T' and g.attacks('T', 'K') != bool(chk): return None
                    if dead(g.at['F'][0], us, g.coord('F')): return None
                    return g.legal_board('F', to)
                explore(I, res, entry, us, sq, con, {us: 'K', them: 'E'}, expect, ['ky', 'cA', 'cT', 'cF', 'cB'], '%s:pin:%d' % (entry, us), mover='F', to=to, check={'T': K(1)} if chk else None)
    return res

def hands(I, kinds, full=False):
    """the hand as a sum of one field for each kind"""
    v = K(0); extra = {}
    for h in HAND:
        if h not in kinds: continue
        f = 'h' + h; extra[f] = 2
        one = I.handone(h); v = add(v, tab(f, [0, one * ({'Pawn': 18, 'Bishop': 2, 'Rook': 2}.get(h, 4) if full else 1)]))
    return v, extra

def drop(job):
    """drops on T; N is a square of the same or the next file; mode as for board.  kinds may be in the hand, fixed are"""
    entry, us, kinds, fixed, mode, nx = job
    I = focus(entry); res = Res(); them = 1 - us; I.assume_clear = True
    def rel(st, what, c, n, x):
        if what == 'between': return K(int(mode in ('block', 'double2') and x == 'T' and set(n) == {'C', 'K'}))
        return K(0)
    I.rel = rel
    h, extra = hands(I, kinds, nx == 1)
    for k in fixed: h = add(h, K(I.handone(k)))
    ok = mode in ('free', 'block')
    for ny in range(-8, 9) if nx is not None else [0]:
        if (nx, ny) == (0, 0) or nx and abs(ny) > 1: continue
        sq = {'T': ('t', 0, 0), 'K': ('k', 0, 0), 'E': ('e', 0, 0)}
        con = {'T': [None] if mode != 'free' else [None, ('Pawn', them), ('Knight', us)], 'K': [('King', us)], 'E': [('King', them)]}
        if nx is not None: sq['N'] = ('t', nx, ny); con['N'] = [None, ('Pawn', us), ('Pawn', them), ('ProPawn', us), ('Lance', us)] if mode == 'free' else [None, ('Pawn', us)]
        check = {}
        if mode != 'free': sq['C'] = ('c', 0, 0); con['C'] = [('Rook', them)]; check['C'] = K(1)
        if mode in ('double', 'double2'): sq['D'] = ('d', 0, 0); con['D'] = [(('Knight' if mode == 'double' else 'Bishop'), them)]; check['D'] = K(1)
        PT = I.E['PieceType']
        def expect(g):
            if not ok: return []
            if any(g.at.get(n) is not None and dead(g.at[n][0], g.at[n][1], g.coord(n)) for n in 'TN'): return None
            return [PT[k] for k in HAND if (k in fixed or g.a.get('h' + k)) and g.drop_ok(us, k, 'T')]
        for rows in (None, {'ey': [8 if us == 0 else 0]}):      # a king on the last rank cannot be checked by a pawn
            if rows is None and (nx == 0 and abs(ny) > 1 or nx is None): continue
            explore(I, res, entry, us, sq, con, {us: 'K', them: 'E'}, expect, ['ty', 'cT', 'cN'] + list(extra), '%s:drop:%s:%d' % (entry, mode, us), check=check, hand={us: h, them: K(0)}, extra=extra, mover=None, restrict=rows)
    return res

def uchi(job, entry='w_legal'):
    """dropping a pawn in front of the king of the opponent: S supports it, X is a square the king may go to, D may
    capture the pawn, P may pin D.  Untracked squares around the king are not available to it."""
    us, what, dx, dy = job
    I = focus(entry); res = Res(); them = 1 - us; I.assume_clear = True; I.rel = None
    h, extra = hands(I, ['Pawn']); f = -1 if us == 0 else 1
    PT = I.E['PieceType']
    base = {'T': ('t', 0, 0), 'E': ('t', 0, f), 'K': ('k', 0, 0)}
    jobs = []; dk = [(k, them) for k in OTHER if reach(k, them, -dx, -dy)]
    if what != 'S' and not dk: return res
    if what == 'S':            # support, and one escape square
        for ex, ey in STEP['King']:
            ks = [k for k in OTHER if reach(k, us, -dx, -dy) or reach(k, us, ex - dx, ey + f - dy)]
            if ks: jobs.append(({'S': ('t', dx, dy), 'X': ('t', ex, ey + f)}, {'S': [(k, us) for k in ks], 'X': [None, ('Gold', us), ('Pawn', them)]}))
    elif what == 'D':          # a piece that may capture the pawn, supported by a gold behind
        jobs.append(({'D': ('t', dx, dy), 'S': ('t', 0, -f)}, {'D': dk, 'S': [('Gold', us)]}))
    else:                      # the capturing piece may be pinned
        ex, ey = dx, dy - f; n = max(abs(ex), abs(ey))
        if not n: return res
        if ex and ey and abs(ex) != abs(ey): return res
        ux, uy = ex // n, ey // n
        for k in range(n + 1, 9): jobs.append(({'D': ('t', dx, dy), 'P': ('t', ux * k, f + uy * k), 'S': ('t', 0, -f)}, {'D': dk, 'P': [(q, us) for q in ('Rook', 'Bishop', 'Lance', 'Dragon', 'Horse', 'Gold')], 'S': [('Gold', us)]}))
    for s2, c2 in jobs:
        sq = dict(base); con = {'T': [None], 'E': [('King', them)], 'K': [('King', us)]}
        if len({v for v in list(base.values()) + list(s2.values())}) < len(base) + len(s2): continue
        sq.update(s2); con.update(c2)
        def expect(g):
            e = 'E'
            if any(g.attacks(n, e) for n, p in g.at.items() if p and p[1] == us): return None
            if any(p is not None and g.sq[n][0] == 't' and dead(p[0], p[1], g.coord(n)) for n, p in g.at.items()): return None
            return [PT['Pawn']] if g.a['hPawn'] and g.drop_ok(us, 'Pawn', 'T') else []
        explore(I, res, entry, us, sq, con, {us: 'K', them: 'E'}, expect, ['ty', 'hPawn'] + ['c' + n for n in sq], '%s:uchifuzume:%s:%d' % (entry, what, us), hand={us: h, them: K(0)}, extra=extra, mover=None)
    return res

def alljobs(thorough):
    J = []
    for e in ('w_legal', 'w_pseudo'):
        for us in (0, 1):
            for k in KINDS:
                for mode in ('free', 'capture', 'block', 'away', 'double', 'double2'):
                    if k == 'King' and mode != 'free': continue
                    if e == 'w_pseudo' and not thorough and (k not in ('Pawn', 'Lance', 'Silver', 'Rook', 'King') or mode not in ('free', 'capture')): continue
                    J.append((board, (e, us, k, mode)))
            J += [(kingmove, (e, us, n)) for n in STEP['King']]
            for mode in ('free', 'block', 'away', 'double', 'double2'):
                for nx in (0, 1, -1):
                    if nx and mode != 'free': continue
                    J.append((drop, (e, us, ('Pawn',), (), mode, nx)))
                for m in range(8 if e == 'w_legal' or thorough else 0):
                    J.append((drop, (e, us, ('Silver', 'Gold', 'Bishop', 'Rook'), tuple(k for b, k in enumerate(('Pawn', 'Lance', 'Knight')) if m >> b & 1), mode, None)))
    P = [(i, j) for j in range(2, 9) for i in range(1, j)]
    if not thorough: P = [p for p in P if p in ((1, 2), (1, 3), (2, 4), (1, 8))]
    for us in (0, 1):
        J += [(pin, (us, u, i, j)) for u in STEP['King'] for i, j in P]
        J += [(uchi, (us, w, dx, dy)) for w in 'SDP' for dx in range(-8, 9) for dy in range(-8, 9) if (dx, dy) != (0, 0) and (thorough or w != 'P' or max(abs(dx), abs(dy)) < 4)]
    return J

ASSUME = ['A position in which no piece stands where it could never move, and the side not to move is not in check.',
    'Squares that are not tracked influence a move only through the lines named in the scenario (asked as a flag, or empty).',
    'Attack functions and tables are the ones of the rules: decided by the same check (see P19).']
def collect(chk, jobs):
    rs = []
    with Pool(8) as p:
        it = p.imap(call, jobs, chunksize=1)
        for k in range(len(jobs)):
            try:
                rs.append(it.next(max(1, 720 - (time.time() - chk.t0))))
                if any(k not in chk.known for k, _ in rs[-1]['viol']) or chk.violations: chk.cov['stopped'] = 'at the first violation, after %d of %d jobs' % (len(rs), len(jobs)); break
            except TimeoutError: chk.undecide('%d of %d jobs not reached in time' % (len(jobs) - k, len(jobs))); break
        p.terminate()
    for (f, j), r in zip(jobs, rs):
        chk.obligation('scenarios', r['n']); chk.obligation('paths', r['paths']); chk.obligation('cases compared', r['cases'])
        for k, n in r['und'].items(): chk.undecide('%s %s: %s (%d)' % (f.__name__, j, k, n))
        for k, t in r['viol']: chk.violation(k, t)

def lists(chk):
    """whoever walks through a list of moves sees each of them once, and then the end"""
    N = 5
    def gen(it, st, dem, a):
        p = a[0]
        for k in range(st.mem[('count',)][0][0]): it.store(st, Ptr(p.o, add(p.off, K(4 * k))), fld('m%d' % k, 3), 4)
        return Ptr(p.o, add(p.off, K(4 * st.mem[('count',)][0][0])))
    try: I = Interp(build.listmod(), hooks=[(r'generateMoves<', gen)])
    except build.Broken as e: chk.undecide('lists of moves: %s' % str(e)[:200]); return
    for i, cls in enumerate(('__LegalMoveList', '__PseudoLegalMoveList')):
        try:
            # (a list that grows has no room of its own)
            room = I.run('l_room%d' % i, [], State({}))[0][0].c
            chk.obligation('lists of moves')
            if 64 < room < 593: chk.violation('list:room', '%s holds at most %d moves; positions have up to 593' % (cls, room)); continue
            for n in range(N):
                sizes = {'m%d' % k: 3 for k in range(N)}
                st = State(sizes, {f: (0, 1, 2) for f in sizes}); st.mem[('count',)] = {0: (n, 0)}
                st.mem[('own',)] = {0: (Ptr(('list',), K(0)), 8)}; own = Ptr(('own',), K(0))
                def one(f, a, st):
                    r = I.run(f + str(i), a, st)
                    if len(r) != 1 or r[0][1].approx: raise Undecided('more than one way')
                    return r[0]
                _, st = one('l_make', [Ptr(('list',), K(0)), Ptr(('pos',), K(0))], st)
                chk.obligation('walks through lists')
                seen = []; v = None
                for k in range(N + 1):
                    e, st = one('l_end', [own], st); z, st = one('l_size', [own], st)
                    if not isinstance(e, V) or not isinstance(z, V) or st.norm(e).p or st.norm(z).p: raise Undecided('end not followed')
                    if st.norm(z).c != n: v = 'a list of %d moves has size %d after %d steps' % (n, st.norm(z).c, k); break
                    if st.norm(e).c & 1: break
                    m, st = one('l_move', [own], st); seen.append(m)
                    _, st = one('l_next', [own], st)
                if v is None and len(seen) != n: v = 'a list of %d moves yields %d' % (n, len(seen))
                if v is None and any(not isinstance(m, V) for m in seen): raise Undecided('move not followed')
                if v is None and sorted(repr(st.norm(m)) for m in seen) != sorted(repr(st.norm(fld('m%d' % k, 3))) for k in range(n)): v = 'a list of %d moves does not yield each of them once' % n
                if v: chk.violation('list:walk', '%s: %s' % (cls, v)); break
        except (Undecided, ForkField, AttributeError, TypeError, KeyError, IndexError, RecursionError) as e: chk.undecide('%s: %s' % (cls, e))

def run(chk):
    import attacks
    attacks.lemma(chk)
    lists(chk)
    focus()
    jobs = alljobs(chk.tier == 'thorough')
    collect(chk, jobs)
    if not chk.violations: chk.need('cases compared', 100000)
    chk.assumptions += ASSUME
    chk.finish('The move generators behind legal_moves and pseudo_legal_moves are interpreted (LLVM IR of the current tree) on positions seen through up to six '
        'tracked squares with symbolic coordinates, contents, hands and line flags, for both colours. For every path and every case of the symbolic fields, the moves from '
        'the tracked piece to the tracked square (or the drops on it) are compared with the rules: piece movement, promotion and dead squares, captures, blocked lines, '
        'capturing or blocking a checker, double check, king moves into direct and x-ray attacks, pinned pieces, two pawns on a file, mate by a dropped pawn.',
        functions=sorted({j[0].__name__ for j in jobs}), rule='moves generated = moves of the rules, for every case')
def call(j):
    try: return j[0](j[1])
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError) as e:       # a construct the interpreter does not know
        r = Res(); r.und('not interpreted: %s %s' % (type(e).__name__, e)); return r
if __name__ == '__main__': main(run, Check('P05'))
