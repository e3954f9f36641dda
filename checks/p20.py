#!/usr/bin/env python3
"""P20: the checking moves the mate searches try are exactly the legal moves that give check."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from report import Check, main, venv
venv()
import p05
from p05 import *

FK = None; KIND = None; PICK = None; TABLES = {}
def focus(entry=None):
    global FK, KIND, PICK
    if FK is None:
        m = build.checkmod(); KIND = m['kinds']; PICK = m['pickers']
        import attacks
        P = attacks.Prims(m); P.prepare()
        for n, f in P.fns(r'^(Bitboard )?\w+CheckTable\(Color, Square\)'):
            T = TABLES[f['dem']] = {}
            for c in (0, 1):
                for s in range(81):
                    v = P.run(n, f, [c, s])[0]
                    bits = [P.sqbit(v, i) for i in range(81)]
                    if any(b not in (0, 1) for b in bits): raise Undecided('table ' + f['dem'])
                    T[c, s] = sum(b << i for i, b in enumerate(bits))
        def table(it, st, dem, a):
            T = next((t for d, t in TABLES.items() if d == dem), None)
            c = st.norm(a[1])
            if T is None or c.p: raise Undecided('table of checks')
            it.put(st, a[0], BB({n: (lambda s0, n=n, k=a[2]: it.over(s0, [k, it.loc[n]], lambda s, x: T[c.c, s] >> x & 1)) for n in it.sq}))
            return K(0)
        FK = Focus(m, hooks=[(r'^(Bitboard )?\w+CheckTable\(Color, Square\)', table)], fuel=3000000)
    return FK

# ---- the checking moves of a position ------------------------------------------------------------------------------
def generated(I, entry, st, mover, to):
    """p05's reader, after the filter the searches apply when the side to move is in check"""
    if entry.startswith('k_'):
        o = I.run('k_begin', [Ptr(('ml',), K(0))], st.copy())
        if len(o) != 1 or not isinstance(o[0][0], Ptr) or o[0][0].o != ('ml',) or st.norm(o[0][0].off) != K(0): raise Undecided('list of the solver laid out differently')
        return p05.generated(I, entry, st, mover, to)
    return p05.generated(I, entry, st, mover, to) if not I.filter else filtered(I, entry, st, mover, to)
def filtered(I, entry, st, mover, to):
    out = []
    for end, s in I.run(entry, [Ptr(('ml',), K(0)), Ptr(('pos',), K(0))], st):
        ms = None if s.approx else emitted(I, end, s)
        if ms is None: out.append(('list not followed', s)); continue
        cur = [([], s)]
        for v in ms:
            nxt = []
            for got, s1 in cur:
                if isinstance(got, str): nxt.append((got, s1)); continue
                d = decode(I, s1, v) if isinstance(v, V) else None
                if d is None or d['isProm'].p or d['isDrop'].p or d['ptDropped'].p and d['isDrop'].c: nxt.append(('move not followed', s1)); continue
                if differ(s1, d['to'], I.loc[to]) is not None: nxt.append((got, s1)); continue
                if bool(d['isDrop'].c) != (mover is None) or mover and differ(s1, d['from'], I.loc[mover]) is not None: nxt.append((got, s1)); continue
                for r, s2 in I.run('w_evades', [Ptr(('pos',), K(0)), v], s1):
                    if not isinstance(r, (V, Cmp)): nxt.append(('filter not followed', s2)); continue
                    for tv, s3 in I.fork(s2, r): nxt.append((got + [str(d['ptDropped'].c if mover is None else d['isProm'].c)] if tv else got, s3))
            cur = nxt
        out += [(g if isinstance(g, str) else sorted(g), s1) for g, s1 in cur]
    return out

def aligned(a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    return dx == 0 or dy == 0 or abs(dx) == abs(dy)
def open_lines(sq, names):
    """line flags for the pairs that have untracked squares between them"""
    fl = {}
    for n, x in itertools.combinations(names, 2):
        (b, ax, ay), (b2, bx, by) = sq[n], sq[x]
        if b == b2 and aligned((ax, ay), (bx, by)) and max(abs(ax - bx), abs(ay - by)) > 1: fl['clr' + ''.join(sorted((n, x)))] = 2
    return fl

def checks(g, f, t, us):
    """promotion flags of the legal moves from f to t that give check"""
    e = g.king(1 - us, g.at); out = []
    for p in g.legal_board(f, t):
        k = g.at[f][0]
        if g.attacked(e, us, g.after(f, t, (PRO[k] if p else k, us))): out.append(p)
    return out
def possible(g, us, skip=()):
    """a position that can arise: nothing on a dead square, the side to move does not attack the king"""
    if any(p and g.sq[n][0] == g.sq['E'][0] and dead(p[0], p[1], g.coord(n)) for n, p in g.at.items()): return False
    return not g.attacked('E', us)

FEW = [k for k in OTHER if k not in ('ProPawn', 'ProLance', 'ProKnight')]
def free(st, what, c, n, x): return K(0)
def setup(us):
    I = focus(); them = 1 - us; I.filter = False
    def rel(st, what, c, n, x): return K(I.E['Direction']['DirecMisc']) if what == 'relation' else K(0)
    I.rel = rel
    return I, Res(), them
def go(I, res, us, sq, con, kings, expect, fields, label, picker=False, **kw):
    if picker:
        for kind in PICK: explore(I, res, kind, us, sq, con, kings, expect, fields, label + ':solver', gen=generated, what='moves the DfPn solver tries', **kw)
    for kind in KIND: explore(I, res, 'c_' + kind, us, sq, con, kings, expect, fields, label, gen=generated, what='moves tried as checks', **kw)

def direct(job):
    """F goes to T; E is the king of the opponent; B may stand between F and E"""
    us, tx, ty, ds, full = job
    I, res, them = setup(us)
    for dx, dy in ds:
        f = (tx + dx, ty + dy)
        if f == (0, 0): continue
        fk = [(k, us) for k in (OTHER if full else FEW) if reach(k, us, -dx, -dy)]
        if not fk: continue
        base = {'E': ('e', 0, 0), 'T': ('e', tx, ty), 'F': ('e',) + f, 'K': ('k', 0, 0)}
        con = {'E': [('King', them)], 'T': [None, ('Pawn', them), ('Gold', us)], 'F': fk, 'K': [('King', us)]}
        n = max(map(abs, f)); line = aligned((0, 0), f) and n > 1
        u = tuple((v > 0) - (v < 0) for v in f)
        bs = [None] + ([k for k in range(1, n) if (u[0] * k, u[1] * k) != (tx, ty)] if line else [])
        if len(bs) > 3: bs = [None, bs[1], bs[-1]]
        for b in bs:
            sq = dict(base); c2 = dict(con)
            if b: sq['B'] = ('e', u[0] * b, u[1] * b); c2['B'] = [('Gold', them), ('Pawn', us)]
            # a line through F and the king holds no piece but the tracked ones; other lines may be blocked
            fl = {} if line else open_lines(sq, ('E', 'T', 'F'))
            I.assume_clear = line
            def expect(g): return sorted(checks(g, 'F', 'T', us)) if possible(g, us) else None
            go(I, res, us, sq, c2, {them: 'E', us: 'K'}, expect, ['ey', 'cT', 'cF', 'cB'] + list(fl), 'check:direct:%d' % us, extra=fl, mover='F', picker=b is None and max(abs(tx), abs(ty)) == 1)
    return res

def discovered(job):
    """F leaves (or stays on) the line between A and the king E; the mover may be the king"""
    us, u, i, j, full = job
    I, res, them = setup(us); I.assume_clear = True
    ds = {(a * k, b * k) for a, b in STEP['King'] for k in ((1, 2, 3) if full else (1, 2))} | {(a, b) for a in (-1, 1) for b in (-2, 2)} | {(u[0] * (k - i), u[1] * (k - i)) for k in range(1, 9)} - {(0, 0)}
    bs = [None] + [k for k in range(1, j) if k != i][-1:]
    for b in bs:
        for dx, dy in sorted(ds):
            fk = [(k, us) for k in FEW + ['King'] if reach(k, us, dx, dy)]
            if not fk: continue
            sq = {'E': ('e', 0, 0), 'F': ('e', u[0] * i, u[1] * i), 'A': ('e', u[0] * j, u[1] * j)}
            con = {'E': [('King', them)], 'F': fk, 'A': [(k, us) for k in ('Lance', 'Bishop', 'Rook', 'Horse', 'Dragon', 'Gold') if k == 'Gold' or reach(k, us, -u[0], -u[1])]}
            if b: sq['B'] = ('e', u[0] * b, u[1] * b); con['B'] = [('Gold', us), ('Pawn', them)]
            t = ('e', u[0] * i + dx, u[1] * i + dy)
            if t in sq.values(): continue
            sq['T'] = t; con['T'] = [None, ('Silver', them)]
            for king in (0, 1):
                f2 = [c for c in fk if (c[0] == 'King') == bool(king)]
                if not f2 or king and i == 1: continue
                s2 = dict(sq); c2 = dict(con, F=f2)
                if not king: s2['K'] = ('k', 0, 0); c2['K'] = [('King', us)]
                def expect(g):
                    if not possible(g, us): return None
                    if king and g.attacked('F', them): return None
                    return sorted(checks(g, 'F', 'T', us))
                go(I, res, us, s2, c2, {them: 'E', us: 'F' if king else 'K'}, expect, ['ey', 'cA', 'cB', 'cF', 'cT'], 'check:discovered:%d' % us, mover='F')
    return res

def pinned(job):
    """F may be pinned to its own king K by A, and goes to T from where it checks E"""
    us, u, i, j, full = job
    I, res, them = setup(us); I.assume_clear = True
    ds = {(a * k, b * k) for a, b in STEP['King'] for k in (1, 2)} | {(a, b) for a in (-1, 1) for b in (-2, 2)}
    for dx, dy in sorted(ds):
        fk = [(k, us) for k in FEW if reach(k, us, dx, dy)]
        if not fk: continue
        t = (u[0] * i + dx, u[1] * i + dy)
        es = [(t[0] + a * k, t[1] + b * k) for a, b in STEP['King'] for k in ((1, 2) if full else (1,))] + ([(t[0] + a, t[1] + b) for a in (-1, 1) for b in (-2, 2)])
        for e in es:
            sq = {'K': ('e', 0, 0), 'F': ('e', u[0] * i, u[1] * i), 'A': ('e', u[0] * j, u[1] * j), 'E': ('e',) + e}
            con = {'K': [('King', us)], 'F': fk, 'A': [(k, them) for k in ('Lance', 'Bishop', 'Rook', 'Gold') if k == 'Gold' or reach(k, them, -u[0], -u[1])], 'E': [('King', them)]}
            to = 'A' if t == (u[0] * j, u[1] * j) else 'T'
            if to == 'T': sq['T'] = ('e',) + t; con['T'] = [None]
            if len(set(sq.values())) < len(sq) or max(map(abs, e)) < 2: continue
            def expect(g):
                if not possible(g, us) or g.attacked('K', them): return None
                return sorted(checks(g, 'F', to, us))
            go(I, res, us, sq, con, {them: 'E', us: 'K'}, expect, ['ey', 'cA', 'cF'], 'check:pinned:%d' % us, mover='F', to=to)
    return res

def drop(job):
    """drops on T around the king E; N may hold a pawn of the same file"""
    us, tx, ty, full = job
    I, res, them = setup(us); I.assume_clear = False
    PT = I.E['PieceType']
    for kinds, ny in [(('Pawn', 'Lance', 'Knight', 'Silver'), None), (('Gold', 'Bishop', 'Rook'), None)] + ([(('Pawn',), k) for k in range(-8, 9) if k and (full or abs(k) < 4)] if tx == 0 else []):
        h, extra = hands(I, kinds)
        sq = {'E': ('e', 0, 0), 'T': ('e', tx, ty), 'K': ('k', 0, 0)}
        con = {'E': [('King', them)], 'T': [None, ('Pawn', them), ('Knight', us)], 'K': [('King', us)]}
        if ny is not None:
            if (tx, ty + ny) == (0, 0): continue
            sq['N'] = ('e', tx, ty + ny); con['N'] = [('Pawn', us), ('Pawn', them), ('ProPawn', us), ('Lance', us)]
        front = ('e', 0, 1 if us == 0 else -1)
        if ny is not None and front not in sq.values(): sq['G'] = front; con['G'] = [None]
        I.assume_clear = ny is not None; fl = {} if ny is not None else open_lines(sq, ('E', 'T')); extra = dict(extra, **fl)
        def expect(g):
            if not possible(g, us): return None
            # whether the king has a reply to a dropped pawn is decided by the family below
            return [PT[k] for k in kinds if g.a.get('h' + k) and p05_drop(g, us, k) and g.attacks('T', 'E', g.after(None, 'T', (k, us)))]
        rows = {'ey': [y for y in range(9)]}
        go(I, res, us, sq, con, {them: 'E', us: 'K'}, expect, ['ey', 'cT', 'cN'] + list(extra), 'check:drop:%d' % us, hand={us: h, them: K(0)}, extra=extra, mover=None, picker=max(abs(tx), abs(ty)) <= 2)
    return res
def p05_drop(g, us, kind): return g.drop_ok(us, kind, 'T')

def evade(job):
    """the side to move is itself in check: F goes to T; the checker stands on T, or T blocks it, or neither, or there are two"""
    us, tx, ty, mode, full = job
    I, res, them = setup(us); I.filter = True; I.assume_clear = True
    def rel(st, what, c, n, x):
        if what == 'relation': return K(I.E['Direction']['DirecMisc'])
        if what == 'between': return K(int(mode in ('block', 'double2') and x == 'T' and set(n) == {'C', 'K'}))
        return K(0)
    I.rel = rel
    for dx, dy in sorted({(a, b) for a, b in STEP['King']} | {(a, b) for a in (-1, 1) for b in (-2, 2)} | ({(2 * a, 2 * b) for a, b in STEP['King']} if full else set())):
        f = (tx + dx, ty + dy)
        if f == (0, 0): continue
        fk = [(k, us) for k in FEW if reach(k, us, -dx, -dy)]
        if not fk: continue
        sq = {'E': ('e', 0, 0), 'T': ('e', tx, ty), 'F': ('e',) + f, 'K': ('k', 0, 0)}
        con = {'E': [('King', them)], 'T': {'capture': [('Rook', them), ('Knight', them)], 'double': [('Knight', them)]}.get(mode, [None]), 'F': fk, 'K': [('King', us)]}
        check = {}
        if mode in ('capture', 'double'): check['T'] = K(1)
        if mode != 'capture': sq['C'] = ('c', 0, 0); con['C'] = [('Rook', them)]; check['C'] = K(1)
        if mode == 'double2': sq['D'] = ('d', 0, 0); con['D'] = [('Dragon', them)]; check['D'] = K(1)
        def expect(g):
            if not possible(g, us): return None
            return sorted(checks(g, 'F', 'T', us)) if mode in ('capture', 'block') else []
        go(I, res, us, sq, con, {them: 'E', us: 'K'}, expect, ['ey', 'cF', 'cT'], 'check:evading:%s:%d' % (mode, us), check=check, mover='F', picker=True)
    return res

def kingout(job):
    """the king F of the side to move is in check by C and discovers the check of A by going to T"""
    us, u, i, k = job
    I, res, them = setup(us); I.filter = True; I.assume_clear = True
    for cx, cy in STEP['King']:
        ck = [(q, them) for q in FEW if reach(q, them, -cx * k, -cy * k)]
        if not ck: continue
        for dx, dy in STEP['King']:
            for j in (i + 1, i + 3):
                f = (u[0] * i, u[1] * i); t = (f[0] + dx, f[1] + dy)
                sq = {'E': ('e', 0, 0), 'F': ('e',) + f, 'A': ('e', u[0] * j, u[1] * j), 'C': ('e', f[0] + cx * k, f[1] + cy * k)}
                con = {'E': [('King', them)], 'F': [('King', us)], 'A': [(q, us) for q in ('Lance', 'Bishop', 'Rook') if reach(q, us, -u[0], -u[1])], 'C': ck}
                to = next((n for n in sq if sq[n] == ('e',) + t), 'T')
                if to in ('E', 'A') or max(map(abs, t)) < 2 or len(set(sq.values())) < 4: continue
                if to == 'T': sq['T'] = ('e',) + t; con['T'] = [None, ('Pawn', them)]
                def expect(g):
                    if not possible(g, us) or not g.attacks('C', 'F') or to == 'T' and g.at['T'] and g.attacks('T', 'F'): return None
                    return sorted(checks(g, 'F', to, us))
                go(I, res, us, sq, con, {them: 'E', us: 'F'}, expect, ['ey', 'cA', 'cC', 'cT'], 'check:king:%d' % us, check={'C': K(1)}, mover='F', to=to, picker=True)
    return res

def uchi(job):
    r = Res(); I = focus(); I.filter = False
    for kind in KIND:
        q = p05.uchi(job, 'c_' + kind)
        for k in ('n', 'paths', 'cases'): r[k] += q[k]
        for k, n in q['und'].items(): r['und'][k] = r['und'].get(k, 0) + n
        r['viol'] += q['viol']
    return r

def alljobs(thorough):
    J = []; L = (1, 2, 4) if not thorough else range(1, 9)
    T = sorted({(a * k, b * k) for a, b in STEP['King'] for k in L} | {(a, b) for a in (-1, 1) for b in (-2, 2)} | {(a, b) for a in (-2, 2) for b in (-1, 1)})
    D = sorted({(a * k, b * k) for a, b in STEP['King'] for k in ((1, 2, 3) if not thorough else range(1, 9))} | {(a, b) for a in (-1, 1) for b in (-2, 2)})
    for us in (0, 1):
        J += [(direct, (us, x, y, D[k::4], thorough)) for x, y in T for k in range(4)]
        J += [(discovered, (us, u, i, j, thorough)) for u in STEP['King'] for j in range(2, 9) for i in range(1, j) if thorough or (i, j) in ((1, 2), (2, 3), (2, 5), (1, 8))]
        J += [(pinned, (us, u, i, j, thorough)) for u in STEP['King'] for i, j in ([(1, 2), (1, 3), (2, 4)] if thorough else [(1, 2)])]
        J += [(drop, (us, x, y, thorough)) for x, y in T]
        J += [(evade, (us, x, y, m, thorough)) for x, y in [(a, b) for a, b in STEP['King']] + [(a, b) for a in (-1, 1) for b in (-2, 2)] for m in ('capture', 'block', 'away', 'double', 'double2')]
        J += [(kingout, (us, u, i, k)) for u in STEP['King'] for i in (2, 3, 4) for k in ((1, 2, 3) if thorough else (1, 2)) if thorough or i < 4]
        J += [(uchi, (us, w, dx, dy)) for w in 'SDP' for dx in range(-8, 9) for dy in range(-8, 9) if (dx, dy) != (0, 0) and (thorough or max(abs(dx), abs(dy)) < (3 if w == 'P' else 4))]
    return J

def run(chk):
    import attacks
    attacks.lemma(chk)
    p05.focus = focus
    I = focus()
    if not KIND: chk.undecide('no generator of checks found in the mate searches'); chk.finish('nothing to interpret', rule='-')
    p05.collect(chk, alljobs(chk.tier == 'thorough'))
    if not chk.violations: chk.need('cases compared', 20000)
    chk.assumptions += ['Squares that are not tracked influence a check only through the lines named in the scenario.', 'The side to move does not already attack the opposing king.']
    chk.finish('The generator the mate searches use for the attacking side (%s), with its pre-computed tables of candidate squares folded from their initialiser, is interpreted (LLVM IR of the current tree) on positions seen through tracked squares around the '
        'opposing king: pieces of every kind arriving on squares from where they check or do not, raw or promoted, with open or blocked lines; pieces and the king leaving or staying on a line to the king; pinned pieces; drops, two pawns on a file, mate by a dropped pawn; and, '
        'when the side to move is in check itself, the filter the searches apply. The moves produced are compared with the legal moves that give check.' % ', '.join(KIND), rule='moves tried = legal moves that give check, for every case')
if __name__ == '__main__': main(run, Check('P20'))
