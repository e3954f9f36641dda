#!/usr/bin/env python3
"""P04: a move from outside is accepted exactly when it is legal."""
import os, sys, re, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from report import Check, main, venv
venv()
import p05
from p05 import *
import build

def pin4(j): return p05.pin(j, 'is_legal')
def pinu(j): return p05.pin(j, 'usi')
def pinc(j): return p05.pin(j, 'csa')
def uchi4(j): return p05.uchi(j, 'is_legal')

CAPS = [None, 'Pawn', 'Silver', 'Rook', 'Gold', 'ProSilver', 'Horse']
def foreign(job):
    """moves made for another position: moving kind, captured kind or origin do not fit"""
    us, kind = job
    I = focus(); res = Res(); them = 1 - us; I.rel = None; I.assume_clear = True
    PT = I.E['PieceType']; B = next(x['off'] // 8 for x in I.m['records']['__Board']['members'] if x['name'] == 'pos')
    for dx, dy in [(0, -1), (0, 1), (1, -1), (-1, 2), (1, -2), (1, 0), (3, 3), (0, -4), (4, 0)]:
        sq = {'F': ('f', 0, 0), 'T': ('f', dx, dy), 'K': ('k', 0, 0), 'E': ('e', 0, 0)}
        con = {'F': [None] + [(k, c) for c in (us, them) for k in OTHER], 'T': [None if k is None else (k, them) for k in CAPS], 'K': [('King', us)], 'E': [('King', them)]}
        st = I.scenario(sq, con, us, hand={0: K(0), 1: K(0)}, king={us: 'K', them: 'E'}, extra={'cap': len(CAPS), 'prom': 2})
        if st is None: continue
        res['n'] += 1
        cap = tab('cap', [0 if k is None else PT[k] for k in CAPS])
        try:
            outs = []
            for v, s in I.run('x_raw', [K(PT[kind] if kind else 0), I.loc['F'], I.loc['T'], cap, fld('prom', 2)], st): outs += [(r, s2) for r, s2 in I.run('w_extLegal', [Ptr(('pos',), K(-B)), v], s)]
        except (Undecided, ForkField) as e: res.und(str(e)); continue
        for r, s in outs:
            res['paths'] += 1
            if s.approx or not isinstance(r, V): res.und('path not followed'); continue
            for tv, s2 in I.fork(s, r):
                if not tv: continue
                for a in assignments(s2, ['fy', 'cF', 'cT', 'cap', 'prom']):
                    g = Game(sq, con, a); f, t = g.at['F'], g.at['T']
                    if f is not None and dead(f[0], f[1], g.coord('F')) or t is not None and dead(t[0], t[1], g.coord('T')): continue
                    res['cases'] += 1
                    want = CAPS
                    if f != (kind, us) or (t and t[0]) != want[a['cap']] or a['prom'] not in g.legal_board('F', 'T'):
                        if len(res['viol']) < 2: res['viol'].append(('is_legal:foreign:%d' % us, 'is_legal, %s to move: accepts a %smove of a %s capturing %s by %+d%+d although the squares hold %s and %s (origin on rank %d)' % (('Black', 'White')[us], 'promoting ' if a['prom'] else '', kind or 'vacant square', want[a['cap']] or 'nothing', dx, dy, cname(f), cname(t), g.coord('F') + 1)))
                        break
    return res

def texts(chk):
    """move texts: accepted only when both legality tests say so, and only when the whole text is a move"""
    import p03
    m = build.codecmod()
    I, st0 = p03.setup(m)
    called = set()
    def ask(name):
        def h(it, st, dem, a): called.add(name); return fld(name, 2)
        return h
    I.hooks = [(re.compile(r'Position::inCheck'), lambda it, st, dem, a: fld('ic', 2)), (re.compile(r'Position::moveIsPseudoLegal'), ask('ps')), (re.compile(r'Position::pseudoLegalMoveIsLegal'), ask('lg')), (re.compile(r'Position::moveIsLegal'), ask('al'))] + I.hooks
    E = {k: dict(v) for k, v in m['enums'].items()}
    I.posload = lambda it, st, off, sz: tab('pc', [E['Piece'][x] for x in ('WLance', 'BSilver', 'WRook', 'BPawn')]) if sz == 4 else TOP
    ANY = tuple(range(1, 128)); B = Ptr(('pos',), K(0))
    d1, da = tuple(map(ord, '123456789')), tuple(map(ord, 'abcdefghi')); L = tuple(map(ord, 'PLNSGBR'))
    plus, star, zero = (ord('+'),), (ord('*'),), (ord('0'),)
    names = [tuple(map(ord, x)) for x in ('FU', 'GI', 'RY', 'TO')]
    shapes = []                          # (reader, what, list of sets of characters that are right)
    shapes.append(('t_fromUsi', 'USI board move', [d1, da, d1, da])); shapes.append(('t_fromUsi', 'USI promotion', [d1, da, d1, da, plus]))
    shapes.append(('t_fromUsi', 'USI drop', [L, star, d1, da]))
    for n in names: shapes.append(('t_fromCsa', 'CSA board move', [d1, d1, d1, d1, n[:1], n[1:]])); shapes.append(('t_fromCsa', 'CSA drop', [zero, zero, d1, d1, n[:1], n[1:]]))
    def check(fn, what, chars, right, must):
        """chars: sets of characters; must: the text is a move when every character is right"""
        if fn not in m['fns']: chk.broken('wrapper %s missing' % fn)
        sizes = {'ic': 2, 'ps': 2, 'lg': 2, 'al': 2, 'pc': 4}; dom = {}; text = []
        for k, c in enumerate(chars):
            if len(c) == 1: text.append(K(c[0])); continue
            f = 's%d' % k; sizes[f] = len(c); text.append(tab(f, c))
        s = State(sizes); s.strs = dict(st0.strs); s.maps = st0.maps; s.mem = {k: dict(v) for k, v in st0.mem.items()}; s.n = st0.n + 1000
        s.strs[(('in',), 0)] = text
        called.clear()
        try: outs = I.run(fn, [B, Ptr(('in',), K(0))], s)
        except (Undecided, ForkField, AttributeError, TypeError, KeyError) as e: chk.undecide('%s: %s' % (what, e)); return
        chk.obligation('move texts')
        for v, s in outs:
            chk.obligation('paths')
            if not isinstance(v, V) or s.approx: chk.undecide('%s: not followed' % what); continue
            v = s.norm(v)
            if v == K(0): continue
            lo, hi = s.range(v)
            if lo <= 0 <= hi: chk.undecide('%s: value not followed' % what); continue
            # a move is returned
            if not must: bad = 'is read as a move'
            elif {'ps', 'lg'} <= called and (0 in s.dom['ps'] or 0 in s.dom['lg']) and not ('al' in called and s.dom['al'] == (1,)): bad = 'is accepted although the move is not legal'
            elif not called: bad = 'is accepted without any test of legality'
            elif right is not None and any(chr(chars[right[0]][i]) not in map(chr, right[1]) for i in s.dom.get('s%d' % right[0], ())):
                i = next(i for i in s.dom['s%d' % right[0]] if chars[right[0]][i] not in right[1]); bad = 'is accepted with %r as character %d' % (chr(chars[right[0]][i]), right[0] + 1)
            else: continue
            chk.violation('%s:%s' % (fn, what), 'the text of a %s %s (%s)' % (what, bad, p03.site(m, fn)))
    for fn, what, right in shapes:
        check(fn, what, right, None, True)
        for k in range(len(right)):
            if fn == 't_fromCsa' and k >= 4: continue                 # two letters name the kind together
            if fn == 't_fromUsi' and k == 0 or fn == 't_fromCsa' and k < 2: ok = None
            else: ok = right[k]
            if ok is not None: check(fn, what + ', character %d open' % (k + 1), [c if i != k else ANY for i, c in enumerate(right)], (k, set(ok)), True)
        check(fn, what + ' with a further character', right + [tuple(c for c in ANY if what != 'USI board move' or c != ord('+'))], None, False)
        check(fn, what + ' without its last character', right[:-1], None, what == 'USI promotion')

def alljobs(thorough):
    J = []
    for us in (0, 1):
        for k in KINDS:
            for mode in ('free', 'capture', 'block', 'away', 'double', 'double2'):
                if k != 'King' or mode == 'free': J.append((p05.board, ('is_legal', us, k, mode)))
        J += [(p05.kingmove, ('is_legal', us, n)) for n in STEP['King']]
        for mode in ('free', 'block', 'away', 'double', 'double2'):
            J += [(p05.drop, ('is_legal', us, ('Pawn',), (), mode, nx)) for nx in (0, 1, -1) if not nx or mode == 'free']
            J.append((p05.drop, ('is_legal', us, tuple(HAND), (), mode, None)))
        P = [(i, j) for j in range(2, 9) for i in range(1, j)]
        J += [(pin4, (us, u, i, j)) for u in STEP['King'] for i, j in P if thorough or (i, j) in ((1, 2), (1, 3), (2, 4), (1, 8))]
        J += [(uchi4, (us, w, dx, dy)) for w in 'SDP' for dx in range(-8, 9) for dy in range(-8, 9) if (dx, dy) != (0, 0) and (thorough or w != 'P' or max(abs(dx), abs(dy)) < 4)]
        J += [(foreign, (us, k)) for k in [None] + KINDS]
        for e, f in (('usi', pinu), ('csa', pinc)):
            for k in KINDS if thorough else ('Pawn', 'Knight', 'Silver', 'King', 'ProLance', 'Horse', 'Rook'):
                for mode in ('free', 'capture', 'block', 'away', 'double', 'double2'):
                    if k != 'King' or mode == 'free': J.append((p05.board, (e, us, k, mode)))
            J += [(p05.kingmove, (e, us, n)) for n in STEP['King']]
            for mode in ('free', 'block', 'away', 'double', 'double2'): J.append((p05.drop, (e, us, ('Silver', 'Gold', 'Bishop', 'Rook'), ('Pawn', 'Lance', 'Knight'), mode, None)))
            J += [(f, (us, u, i, j)) for u in STEP['King'] for i, j in P if thorough or (i, j) in ((1, 2), (2, 4))]
    return J

def run(chk):
    import attacks
    attacks.lemma(chk)
    focus(); focus('usi')
    texts(chk)
    p05.collect(chk, alljobs(chk.tier == 'thorough'))
    if not chk.violations: chk.need('cases compared', 10000)
    chk.assumptions += p05.ASSUME
    chk.finish('Board.is_legal (the test every USI and CSA move text passes as well) is interpreted (LLVM IR of the current tree) on positions seen through up to six tracked squares with symbolic '
        'coordinates, contents, hands and line flags; the moves asked about are all moves between two tracked squares with and without promotion, all drops of every kind on a tracked square, and moves '
        'whose moving or captured kind does not fit the position. The answer is compared with the rules on every path and case.', rule='is_legal(move) = the rules allow the move, for every case')
if __name__ == '__main__': main(run, Check('P04'))
