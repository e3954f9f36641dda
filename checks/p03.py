#!/usr/bin/env python3
"""P03: every encoding of a move (32-bit, 16-bit, PSV, USI, CSA, rotated, network label) carries the same move."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main, REPO, venv
venv()
import build, pyx, fold
from lin import *

def setup(m, posload=None, chk=None):
    one = lambda it, st, dem, args: K(1)
    zero = lambda it, st, dem, args: K(0)
    I = Interp(m, posload, hooks=[(r'Position::(moveIsPseudoLegal|pseudoLegalMoveIsLegal)', one), (r'Position::(pinnedBB|hiddenCheckers)', zero)])
    I.folded = fold.fold(m)
    # static initialisers: tables of strings, maps
    st = State({})
    for n in sorted(n for n in m['fns'] if n.startswith('__cxx_global_var_init')):
        s = st.copy()
        try: outs = I.run(n, [], s)
        except (Undecided, ForkField, RecursionError, AttributeError, TypeError, KeyError): continue
        if len(outs) == 1: st = outs[0][1]
    return I, st

def run(chk):
    m = build.codecmod()
    E = {k: dict(v) for k, v in m['enums'].items()}
    PT, HP = E['PieceType'], E['HandPiece']
    KINDS = ['Pawn', 'Lance', 'Knight', 'Silver', 'Bishop', 'Rook', 'Gold', 'King', 'ProPawn', 'ProLance', 'ProKnight', 'ProSilver', 'Horse', 'Dragon']
    CSA = ['FU', 'KY', 'KE', 'GI', 'KA', 'HI', 'KI', 'OU', 'TO', 'NY', 'NK', 'NG', 'UM', 'RY']
    HAND = ['Pawn', 'Lance', 'Knight', 'Silver', 'Bishop', 'Rook', 'Gold']
    PRO = {'Pawn': 'ProPawn', 'Lance': 'ProLance', 'Knight': 'ProKnight', 'Silver': 'ProSilver', 'Bishop': 'Horse', 'Rook': 'Dragon'}
    USI = dict(zip(HAND, 'PLNSBRG'))
    pr = m['records']['Position']; br = m['records']['__Board']
    po = next((x['off'] // 8 for x in br['members'] if x['type'] == 'Position'), None)
    pc = next((x for x in pr['members'] if re.match(r'Piece\[81\]', x['type'])), None)
    if po is None or pc is None: chk.broken('board layout not recognised')
    esz = pc['bits'] // 8 // 81
    piece = E['Piece']
    sizes = dict(fx=9, fy=9, tx=9, ty=9, pt=14, d=7, cap=14)
    FROM = add(fld('fx', 9, 9), fld('fy', 9)); TO = add(fld('tx', 9, 9), fld('ty', 9))
    ptv = tab('pt', [PT[k] for k in KINDS]); dv = tab('d', [PT[k] for k in HAND]); capv = tab('cap', [PT[k] for k in KINDS])
    promoted = tab('pt', [PT[PRO.get(k, k)] for k in KINDS])
    hpv = tab('d', [HP['H' + k] for k in HAND])
    sq = lambda v, k=1: scale(v, k)
    for us in (0, 1):
        col = 'BW'[us]; opp = 'BW'[1 - us]
        for drop in (0, 1):
            for prom in ((0, 1) if not drop else (0,)):
                for cap in ((0, 1) if not drop else (0,)):
                    cls = '%s, %s%s%s' % ('White' if us else 'Black', 'drop' if drop else 'board move', ', promoting' if prom else '', ', capturing' if cap else '')
                    def posload(it, st, off, sz, us=us, drop=drop, cap=cap):
                        if sz != esz: return TOP
                        o = add(off, K(-(po + pc['off'] // 8)))
                        if not drop and st.norm(add(o, scale(FROM, esz), -1)) == K(0): return tab('pt', [piece['BW'[us] + k] for k in KINDS])
                        if st.norm(add(o, scale(TO, esz), -1)) == K(0): return tab('cap', [piece['BW'[1 - us] + k] for k in KINDS]) if cap else K(piece['Empty'])
                        return TOP
                    if 'I' not in locals() or True:
                        if not hasattr(run, 'base'): run.base = setup(m)
                    I, st0 = run.base; I.posload = posload
                    def state(zones=None):
                        s = State(sizes, zones=zones); s.strs = dict(st0.strs); s.maps = st0.maps; s.mem = {k: dict(v) for k, v in st0.mem.items()}; s.n = st0.n + 1000
                        if prom: s.dom['pt'] = tuple(i for i, k in enumerate(KINDS) if k in PRO)
                        if cap: s.dom['cap'] = tuple(i for i, k in enumerate(KINDS) if k != 'King')
                        return s
                    cval = capv if cap else K(0)
                    if drop: mv = add(TO, scale(add(dv, K(80)), 128))
                    else:
                        mv = add(add(TO, scale(FROM, 128)), add(K(prom << 14), scale(ptv, 1 << 16)))
                        if cap: mv = add(mv, scale(capv, 1 << 20))
                    m16 = add(TO, scale(add(dv, K(80)), 128)) if drop else add(add(TO, scale(FROM, 128)), K(prom << 14))
                    psv = add(add(TO, scale(dv, 128)), K(1 << 14)) if drop else add(add(TO, scale(FROM, 128)), K(prom << 15))
                    rot = add(add(mv, TO, -1), K(0)); rot = add(rot, add(K(80), TO, -1))
                    if not drop: rot = add(rot, scale(add(K(80), scale(FROM, 2), -1), 128))
                    B = Ptr(('pos',), K(0))
                    def judge(what, fn, args, want, zones=None, w=32):
                        if fn not in m['fns']: chk.broken('wrapper %s missing' % fn)
                        try: outs = I.run(fn, args, state(zones))
                        except (Undecided, ForkField) as e: chk.undecide('%s (%s): %s' % (what, cls, e)); return
                        chk.obligation('encodings'); n = 0
                        for v, s in outs:
                            n += 1; chk.obligation('paths')
                            if not isinstance(v, V): chk.undecide('%s (%s): value not followed' % (what, cls)); continue
                            v = I.sgn(s, v, w) if w > 1 else v
                            if v == TOP: chk.undecide('%s (%s): value not followed' % (what, cls)); continue
                            a = differ(s, v, want)
                            if a is not None:
                                if s.approx: chk.undecide('%s (%s): path condition not followed' % (what, cls)); continue
                                chk.violation('%s:%s' % (fn, cls), '%s is wrong for a %s: computed %s, expected %s%s (%s)' % (what, cls, s.norm(v), s.norm(want), ' e.g. at %s' % a if a else '', site(m, fn)))
                        if not n: chk.undecide('%s (%s): no path returns' % (what, cls))
                    def text(what, fn, want, back):
                        if fn not in m['fns']: chk.broken('wrapper %s missing' % fn)
                        out = Ptr(('out',), K(0))
                        try: outs = I.run(fn, [out, mv], state())
                        except (Undecided, ForkField) as e: chk.undecide('%s (%s): %s' % (what, cls, e)); return
                        chk.obligation('notations')
                        for _, s in outs:
                            L = s.strs.get((('out',), 0)); chk.obligation('paths')
                            if L is None: chk.undecide('%s (%s): text not followed' % (what, cls)); continue
                            if len(L) != len(want): bad = 'has %d characters, expected %d' % (len(L), len(want))
                            else:
                                bad = next(('character %d is %s, expected %s' % (k + 1, s.norm(x), s.norm(y)) for k, (x, y) in enumerate(zip(L, want)) if differ(s, x, y) is not None), None)
                            if bad and s.approx: chk.undecide('%s (%s): path condition not followed' % (what, cls)); continue
                            if bad: chk.violation('%s:%s' % (fn, cls), '%s of a %s %s (%s)' % (what, cls, bad, site(m, fn)))
                        # and back
                        s = state(); s.strs[(('in',), 0)] = want
                        try: outs = I.run(back, [B, Ptr(('in',), K(0))], s)
                        except (Undecided, ForkField) as e: chk.undecide('reading %s (%s): %s' % (what, cls, e)); return
                        chk.obligation('notations')
                        for v, s in outs:
                            chk.obligation('paths')
                            if not isinstance(v, V): chk.undecide('reading %s (%s): value not followed' % (what, cls)); continue
                            a = differ(s, I.sgn(s, v, 32), mv)
                            if a is None: continue
                            if s.approx: chk.undecide('reading %s (%s): path condition not followed' % (what, cls)); continue
                            chk.violation('%s:%s' % (back, cls), 'reading the %s of a %s gives %s, the move is %s (%s)' % (what, cls, s.norm(v), s.norm(mv), site(m, back)))
                    for x in ('x', 'y'):
                        judge('destination square', x + '_to', [mv], TO)
                        judge('origin', x + '_from', [mv], add(dv, K(80)) if drop else FROM)
                        judge('captured kind', x + '_cap', [mv], cval)
                        judge('promotion flag', x + '_isProm', [mv], K(prom), w=1)
                        judge('drop test', x + '_isDrop', [mv], K(drop), w=1)
                        if not drop: judge('moving kind', x + '_ptFrom', [mv], ptv)
                        else: judge('dropped hand piece', x + '_hpDropped', [mv], hpv)
                    judge('kind after the move', 'x_ptTo', [mv], dv if drop else promoted if prom else ptv)
                    judge('kind of the mover', 'x_ptFromOrDropped', [mv], dv if drop else ptv)
                    if drop: judge('dropped kind', 'x_ptDropped', [mv], dv)
                    judge('capture test', 'x_isCapture', [mv], K(cap), w=1)
                    judge('capture-or-promotion test', 'x_isCaptureOrPromotion', [mv], K(int(cap or prom)), w=1)
                    judge('16-bit move', 'y_move16', [mv], m16, w=17)
                    judge('PSV move', 'y_toPsv', [m16], psv, w=17)
                    judge('16-bit move from PSV', 'y_fromPsv', [psv], m16, w=17)
                    judge('rotated move', 'y_rotate', [mv], rot)
                    zs = [None] if drop else [{('fx', 'tx'): (1, 8)}, {('fx', 'tx'): (-8, -1)}, {('fx', 'tx'): (0, 0), ('fy', 'ty'): (1, 8)}, {('fx', 'tx'): (0, 0), ('fy', 'ty'): (-8, -1)}]
                    for z in zs:                       # origin and destination differ
                        judge('move from 16 bits', 'z_move16', [B, m16], mv, zones=z)
                        judge('move from PSV', 'z_psv', [B, psv], mv, zones=z)
                    if drop: judge('drop built from its parts', 'z_drop', [B, TO, dv], mv)
                    else: judge('move built from its parts', 'z_move', [B, FROM, TO, K(prom)], mv)
                    # label of the policy output
                    tgt = add(K(80), TO, -1) if us else TO
                    if drop: judge('network label', 'y_label', [mv, K(us)], add(scale(add(K(20 - PT['Pawn']), dv), 81), tgt))
                    elif not cap:
                        D = []
                        for k in range(-8, 9):
                            if k < 0: D += [('UP', 0, k), ('UP_LEFT', k, k), ('UP_RIGHT', -k, k)]
                            if k > 0: D += [('DOWN', 0, k), ('DOWN_LEFT', -k, k), ('DOWN_RIGHT', k, k), ('RIGHT', k, 0), ('LEFT', -k, 0)]
                        D += [('UP2_LEFT', -1, -2), ('UP2_RIGHT', 1, -2)]
                        order = ['UP', 'UP_LEFT', 'UP_RIGHT', 'LEFT', 'RIGHT', 'DOWN', 'DOWN_LEFT', 'DOWN_RIGHT', 'UP2_LEFT', 'UP2_RIGHT']
                        for nm, dx, dy in D:
                            s = -1 if us else 1
                            z = {('fx', 'tx'): (s * dx,) * 2, ('tx', 'fx'): (-s * dx,) * 2, ('ty', 'fy'): (s * dy,) * 2, ('fy', 'ty'): (-s * dy,) * 2}
                            judge('network label (%s)' % nm, 'y_label', [mv, K(us)], add(K((order.index(nm) + 10 * prom) * 81), tgt), zones=z)
                    # notations
                    A = lambda s: [K(ord(c)) for c in s]
                    f1, r1 = fld('fx', 9, 1, ord('1')), fld('fy', 9, 1, ord('a')); f2, r2 = fld('tx', 9, 1, ord('1')), fld('ty', 9, 1, ord('a'))
                    usi = [tab('d', [ord(USI[k]) for k in HAND]), K(ord('*')), f2, r2] if drop else [f1, r1, f2, r2] + A('+' * prom)
                    after = [CSA[KINDS.index(PRO.get(k, k) if prom else k)] for k in KINDS]
                    names = [tab('d', [ord(CSA[KINDS.index(k)][j]) for k in HAND]) for j in (0, 1)] if drop else [tab('pt', [ord(a[j]) for a in after]) for j in (0, 1)]
                    n1, n2 = fld('fy', 9, 1, ord('1')), fld('ty', 9, 1, ord('1'))
                    csa = (A('00') if drop else [f1, n1]) + [f2, n2] + names
                    for x in ('', '2'):
                        text('USI text', 't_usi' + x, usi, 't_fromUsi')
                        text('CSA text', 't_csa' + x, csa, 't_fromCsa')
    # pieces and squares
    I, st0 = run.base
    def unary(what, fn, field, vals, want):
        s = State({field: len(vals)})
        try: outs = I.run(fn, [tab(field, vals)], s)
        except (Undecided, ForkField) as e: chk.undecide('%s: %s' % (what, e)); return
        chk.obligation('encodings')
        for v, s in outs:
            if not isinstance(v, V): chk.undecide(what); continue
            a = differ(s, I.sgn(s, v, 32), tab(field, want))
            if a is not None and not s.approx: chk.violation(fn, '%s is wrong: %s, expected %s e.g. at %s (%s)' % (what, s.norm(v), tab(field, want), a, site(m, fn)))
    ks = [(c, k) for c in 'BW' for k in KINDS]
    unary('kind of a piece', 'y_pieceType', 'p', [piece[c + k] for c, k in ks], [PT[k] for c, k in ks])
    unary('kind of a hand piece', 'y_handPieceType', 'h', [HP['H' + k] for k in HAND], [PT[k] for k in HAND])
    for fn, what, want in (('y_file', 'file of a square', fld('tx', 9)), ('y_rank', 'rank of a square', fld('ty', 9))):
        try: outs = I.run(fn, [TO], State(sizes))
        except (Undecided, ForkField) as e: chk.undecide('%s: %s' % (what, e)); continue
        chk.obligation('encodings')
        for v, s in outs:
            if isinstance(v, V) and differ(s, v, want) is not None and not s.approx: chk.violation(fn, '%s is wrong: %s' % (what, s.norm(v)))
    delegates(chk)
    chk.need('encodings', 100); chk.need('notations', 20)
    chk.assumptions += ['the move is one the rules allow (legality is not judged here)', 'captured and moving kinds are read from the position at the move\'s own squares']
    chk.finish('Abstract interpretation of every encoder and decoder with symbolic origin, destination, kinds and colour (value = constant + one finite map per field), compared with the defined layout; texts as lists of symbolic characters, read back through the parsers.', functions=sorted(m['fns'][n].get('dem', n)[:80] for n in I.called)[:200])

def site(m, fn):
    """the repository function behind a wrapper"""
    for b in m['fns'][fn]['blocks']:
        for i in b:
            for l in i.get('loc', ()):
                t = l if isinstance(l, str) else ':'.join(map(str, l))
                if '/src/' in t: return t.replace(REPO + '/', '')
            c = i.get('callee', {}).get('n')
            if i['op'] in ('call', 'invoke') and c in m['fns'] and m['fns'][c].get('file', '').find('/src/') >= 0: return '%s:%s' % (m['fns'][c]['file'].replace(REPO + '/', ''), m['fns'][c].get('line'))
    return fn

DELEG = {'move_to': '__move_to', 'move_from': '__move_from', 'move_cap': '__move_cap', 'move_is_promotion': '__move_is_promotion', 'move_is_drop': '__move_is_drop', 'move_from_piece_type': '__move_from_piece_type', 'move_drop_hand_piece': '__move_drop_hand_piece',
         'move16': '__move16', 'move16_from_psv': '__move16_from_psv', 'move16_to_psv': '__move16_to_psv', 'move_rotate': '__move_rotate', 'move_to_usi': '__move_to_usi', 'move_to_csa': '__move_to_csa', '_dlshogi_make_move_label': '__dlshogi_make_move_label'}
def delegates(chk):
    """the Python functions hand their arguments over unchanged"""
    tree, ex, us = pyx.load(REPO)
    F = pyx.functions(tree)
    ext = {e.name for e in ex}
    for py, cc in DELEG.items():
        r = F.get(py)
        if not r: chk.undecide('Python function %s not found' % py); continue
        call = pyx.delegation(r)
        if call is None: chk.undecide('Python function %s is not a plain delegation' % py); continue
        chk.obligation('Python entry points')
        if call[0] not in ext: continue
        if call[0] != cc and call[0] in DELEG.values(): chk.violation('deleg:' + py, 'cshogi.%s calls %s instead of %s (cshogi/_cshogi.pyx:%d)' % (py, call[0], cc, r.pos[1]))
        elif call[1] != [a for a in pyx.params(r)]: chk.violation('delegargs:' + py, 'cshogi.%s passes %s for its parameters %s (cshogi/_cshogi.pyx:%d)' % (py, call[1], pyx.params(r), r.pos[1]))
if __name__ == '__main__': main(run, Check('P03', technique='abstract interpretation'))
