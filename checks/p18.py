#!/usr/bin/env python3
"""P18: the recorded checkers are exactly the pieces that attack the king of the side to move."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from report import Check, main, venv
venv()
import p05
from p05 import *

def checkers(I, s):
    p = s.mem[('posm',)].get(I.P['st_'])
    if p is None or not isinstance(p[0], Ptr): return None
    c = s.mem.get(p[0].o, {}).get(s.norm(p[0].off).c + I.S['checkersBB'])
    return c[0] if c and c[1] == 16 and isinstance(c[0], (BB, CB)) else None

def judge(I, res, sq, con, outs, fields, king, expect, label, what):
    """expect(game) -> None | set of names of squares that give check now"""
    for _, s in outs:
        res['paths'] += 1
        if s.approx or s.mem[('unk',)]: res.und('path not followed'); continue
        b = checkers(I, s)
        if b is None: res.und('checkers not followed'); continue
        try: got = {n: I.mem(s, b, n) for n in sq}
        except (Undecided, ForkField) as e: res.und(str(e)); continue
        done = False
        for a in assignments(s, fields):
            g = Game(sq, con, a); exp = expect(g)
            if exp is None: continue
            res['cases'] += 1
            now = {n for n, v in got.items() if v.c + sum(t[a.get(f, s.dom[f][0])] for f, t in v.p)}
            if now != exp and not done:
                done = True
                if len(res['viol']) < 3:
                    where = '; '.join('%s%+d%+d %s' % (n, q[1], q[2], cname(g.at[n])) if q[0] == sq[king][0] else '%s %s' % (n, cname(g.at[n])) for n, q in sq.items())
                    res['viol'].append((label, '%s: squares relative to the king: %s%s: recorded as checking: %s, the rules say %s' % (what(g), where, ''.join(', %s=%s' % (k, v) for k, v in sorted(a.items()) if k.startswith('clr')), ', '.join(sorted(now)) or 'nothing', ', '.join(sorted(exp)) or 'nothing')))
    return res

def brd(I): return Ptr(('pos',), K(-next(x['off'] // 8 for x in I.m['records']['__Board']['members'] if x['name'] == 'pos')))
def moves(I, st, mover, to, prom):
    """[(move, state)]"""
    PT = I.E['PieceType']
    pf = I.tabc(mover, lambda c: 0 if c is None else PT[c[0]])
    return I.run('x_makep' if prom else 'x_make', [pf, I.loc[mover], I.loc[to], Ptr(('pos',), K(0))], st)

def base(I, sq, con, us, kings, extra=None, hand=None):
    st = I.scenario(sq, con, us, hand=hand or {0: K(0), 1: K(0)}, king=kings, extra=extra)
    if st is None: return None
    st.mem[('new',)] = {}
    cc = next((x for x in I.m['records']['StateInfo']['members'] if x['name'] == 'continuousCheck'), None)
    if cc:
        for k in range(2): st.mem[('st',)][cc['off'] // 8 + 4 * k] = (K(0), 4)
    return st

def direct(job):
    """a piece arriving on T (from elsewhere, or dropped): E is the king of the opponent"""
    us, dx, dy, drop = job
    I = focus(); res = Res(); them = 1 - us; I.rel = lambda st, what, c, n, x: K(I.E['Direction']['DirecMisc']) if what == 'relation' else K(0); I.assume_clear = False
    PT = I.E['PieceType']
    for kind in (HAND if drop else KINDS):
        for prom in ((0, 1) if not drop and kind in PRO else (0,)):
            sq = {'E': ('e', 0, 0), 'T': ('e', dx, dy)}; con = {'E': [('King', them)], 'T': [None] if drop else [None, ('Pawn', them), ('Horse', them)]}
            kings = {them: 'E'}
            if not drop: sq['F'] = ('f', 0, 0); con['F'] = [(kind, us)]
            if kind == 'King': kings[us] = 'F'
            else: sq['K'] = ('k', 0, 0); con['K'] = [('King', us)]; kings[us] = 'K'
            st = base(I, sq, con, us, kings, extra={'clrET': 2}, hand={us: K(I.handone(kind)) if drop else K(0), them: K(0)})
            if st is None: continue
            res['n'] += 1
            arrived = (PRO[kind] if prom else kind, us)
            try:
                mk = I.run('x_drop', [K(PT[kind]), I.loc['T']], st) if drop else moves(I, st, 'F', 'T', prom)
                outs = []
                for v, s in mk: outs += I.run('w_push', [brd(I), v, Ptr(('new',), K(0))], s)
            except (Undecided, ForkField) as e: res.und(str(e)); continue
            def expect(g):
                at = g.after(None if drop else 'F', 'T', arrived)
                if dead(arrived[0], us, g.coord('T')): return None
                if kind == 'King' and g.attacks('T', 'E', at): return None
                return {'T'} if g.attacks('T', 'E', at) else set()
            judge(I, res, sq, con, outs, ['ey', 'cT', 'clrET'], 'E', expect, 'direct:%d' % us, lambda g: '%s %s arrives%s' % (('Black', 'White')[us], arrived[0], ' by a drop' if drop else ''))
    return res

def hidden(job):
    """a piece F leaving the line between A and the king E, to T; B may stand in between"""
    us, u, i, j, other = job
    I = focus(); res = Res(); them = 1 - us; I.rel = lambda st, what, c, n, x: K(I.E['Direction']['DirecMisc']) if what == 'relation' else K(0); I.assume_clear = True
    ds = {(a * k, b * k) for a, b in STEP['King'] for k in (1, 2, 3)} | {(a, b) for a in (-1, 1) for b in (-2, 2)} | {(u[0] * (k - i), u[1] * (k - i)) for k in range(1, 9)} - {(0, 0)}
    bs = [None] + [k for k in range(1, j) if k != i]
    if len(bs) > 2: bs = [None, bs[-1]]
    # another own piece elsewhere around the king, not attacking it
    if other: ds = [(-1, -1), (1, -1), (-1, 1), (1, 1), (0, -1), (0, 1), (1, 0), (-1, 0)]; bs = [(v[0] * k, v[1] * k) for v in STEP['King'] if v != u for k in ((1, 2, 3) if other == 2 else (2,))]
    for b in bs:
        for dx, dy in sorted(ds):
            for prom in (0, 1):
                fk = [(k, us) for k in KINDS if reach(k, us, dx, dy) and k not in ('ProPawn', 'ProLance', 'ProKnight') and (not prom or k in PRO)]
                if not fk: continue
                sq = {'E': ('e', 0, 0), 'F': ('e', u[0] * i, u[1] * i), 'A': ('e', u[0] * j, u[1] * j)}
                con = {'E': [('King', them)], 'F': fk, 'A': [(k, us) for k in ('Lance', 'Bishop', 'Rook', 'Horse', 'Dragon', 'Gold')]}
                if other:
                    fk = [c for c in fk if c[0] in ('Silver', 'Gold', 'Pawn', 'Dragon')]
                    if not fk or prom: continue
                    sq['B'] = ('e',) + b; con['B'] = [(k, us) for k in OTHER if k not in ('ProPawn', 'ProLance', 'ProKnight')]; con['F'] = fk
                    con['A'] = [(k, us) for k in ('Lance', 'Rook', 'Dragon', 'Bishop', 'Horse') if reach(k, us, -u[0] * j, -u[1] * j)]
                elif b: sq['B'] = ('e', u[0] * b, u[1] * b); con['B'] = [('Gold', us), ('Pawn', them)]
                t = ('e', u[0] * i + dx, u[1] * i + dy)
                if t in sq.values(): continue
                sq['T'] = t; con['T'] = [None, ('Silver', them)]
                for king in (0, 1):
                    f2 = [c for c in fk if (c[0] == 'King') == bool(king)]
                    if not f2 or king and abs(i) == 1 and max(map(abs, u)) == 1: continue
                    s2 = dict(sq); c2 = dict(con, F=f2)
                    if not king: s2['K'] = ('k', 0, 0); c2['K'] = [('King', us)]
                    st = base(I, s2, c2, us, {them: 'E', us: 'F' if king else 'K'})
                    if st is None: continue
                    res['n'] += 1
                    try:
                        outs = []
                        for v, s in moves(I, st, 'F', 'T', prom): outs += I.run('w_push', [brd(I), v, Ptr(('new',), K(0))], s)
                    except (Undecided, ForkField) as e: res.und(str(e)); continue
                    def expect(g):
                        if g.attacks('A', 'E') or g.attacks('F', 'E') or b and g.at['B'][1] == us and g.attacks('B', 'E'): return None
                        if not g.attacks('F', 'T'): return None
                        p = g.at['F']; p = (PRO[p[0]], us) if prom else p
                        if any(g.at[n] and dead(g.at[n][0], g.at[n][1], g.coord(n)) for n in g.at if g.sq[n][0] == 'e') or dead(p[0], us, g.coord('T')): return None
                        at = g.after('F', 'T', p)
                        r = {n for n, q in at.items() if q is not None and q[1] == us and q[0] != 'King' and g.attacks(n, 'E', at)}
                        return None if any(q and q[0] == 'King' and q[1] == us and g.attacks(n, 'E', at) for n, q in at.items() if g.sq[n][0] == 'e') else r
                    judge(I, res, s2, c2, outs, ['ey', 'cA', 'cB', 'cF', 'cT'], 'E', expect, 'discovered:%d' % us, lambda g: '%s %s leaves the line of a %s' % (('Black', 'White')[us], g.at['F'][0], g.at['A'][0]))
    return res

def setup(job):
    """findCheckers, called by everything that sets up a position: A anywhere around the king"""
    us, ax, ay = job
    I = focus(); res = Res(); them = 1 - us; I.rel = None; I.assume_clear = False
    sq = {'K': ('k', 0, 0), 'A': ('k', ax, ay), 'E': ('e', 0, 0)}
    con = {'K': [('King', us)], 'A': [None] + [(k, c) for c in (them, us) for k in OTHER], 'E': [('King', them)]}
    st = base(I, sq, con, us, {us: 'K', them: 'E'}, extra={'clrAK': 2})
    if st is None: return res
    res['n'] += 1
    try: outs = I.run('w_find', [Ptr(('pos',), K(0))], st)
    except (Undecided, ForkField) as e: res.und(str(e)); return res
    judge(I, res, sq, con, outs, ['ky', 'cA', 'clrAK'], 'K', lambda g: {'A'} if g.at['A'] and g.at['A'][1] == them and g.attacks('A', 'K') else set(), 'setup:%d' % us, lambda g: 'a position set up with %s to move' % ('Black', 'White')[us])
    return res

def alljobs(thorough):
    J = []; D = [(x, y) for x in range(-8, 9) for y in range(-8, 9) if x or y]
    for us in (0, 1):
        J += [(direct, (us, x, y, d)) for x, y in D for d in (0, 1) if thorough or max(abs(x), abs(y)) < 5 or (x + y) % 3 == 0 or 0 in (x, y) or abs(x) == abs(y)]
        J += [(setup, (us, x, y)) for x, y in D]
        J += [(hidden, (us, u, i, j, 0)) for u in STEP['King'] for j in range(2, 9) for i in range(1, j) if thorough or (i, j) in ((1, 2), (1, 3), (2, 3), (2, 5), (1, 8))]
        J += [(hidden, (us, u, i, j, 2 if thorough else 1)) for u in STEP['King'] for i, j in ((1, 2), (1, 3), (2, 3), (3, 4))]
    return J
def run(chk):
    import attacks
    attacks.lemma(chk)
    focus()
    p05.collect(chk, alljobs(chk.tier == 'thorough'))
    chk.assumptions += ['Squares that are not tracked influence a check only through the line named in the scenario.', 'The side to move does not already attack the opposing king.']
    chk.finish('Making a move (the function behind push) and setting up a position are interpreted (LLVM IR of the current tree) on positions seen through tracked squares: the arriving piece anywhere around the opposing king with '
        'open or blocked line; a piece leaving the line between an own piece and the king, in all eight directions, with or without another piece between; the piece found by the set-up routine. The set of checkers recorded for the side to move is compared with the rules '
        'for every kind, colour, promotion, capture and rank.', rule='recorded checkers = pieces attacking the king of the side to move')
if __name__ == '__main__': main(run, Check('P18'))
