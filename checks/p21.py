#!/usr/bin/env python3
"""P21: a position that has been set up is complete, and its keys depend on nothing but the position."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main
import build
from fmt import *

ALL = ('the square of the Black king', 'the square of the White king', 'the set of gold-movers', 'the board key', 'the hand key', 'the recorded hand of the side to move', 'the checking pieces')
K0, K1, GOLD, BK, HK, SH, CH = range(7)
TYPES = ['Empty', 'Pawn', 'Lance', 'Knight', 'Silver', 'Bishop', 'Rook', 'Gold', 'King', 'ProPawn', 'ProLance', 'ProKnight', 'ProSilver', 'Horse', 'Dragon']
def pname(v): return 'nothing' if v == 0 else ('Black ' if v < 16 else 'White ') + TYPES[v & 15]
def sqname(s): return '%d%s' % (s // 9 + 1, 'abcdefghi'[s % 9])

def derived(chk, X, name, g, fresh):
    """every way to the end leaves each derived member computed after the last change it depends on"""
    P, S = X.P, X.S
    asks = any(f.startswith('c:') and 'turn' in f for v in g.values() for _, doms, _, _ in v for f in doms)
    def kill(s, *ix): return tuple(0 if i in ix else v for i, v in enumerate(s))
    def setv(s, i, v): return s[:i] + (v,) + s[i + 1:]
    def step(s, e, doms):
        k = e[0]
        if k == 'piece': return kill(s, K0, K1, GOLD, BK, CH)
        if k == 'hand': return kill(s, HK, SH)
        if k == 'zero' and e[1] == 'pos':
            if isinstance(e[2], V) and isinstance(e[3], V) and not e[2].p and not e[3].p:
                a, b = e[2].c, e[2].c + e[3].c
                inside = lambda o: a <= o < b
                if inside(P['piece_']) or inside(P['byTypeBB_']): s = kill(s, K0, K1, GOLD, BK, CH)
                if inside(P['hand_']): s = kill(s, HK, SH)
                if inside(P['turn_']): s = kill(s, BK, SH, CH)
                for c in (0, 1):
                    if inside(P['kingSquare_'] + 4 * c): s = kill(s, K0 + c)
                if inside(P['goldsBB_']): s = kill(s, GOLD)
                if inside(P['startState_']): s = kill(s, BK, HK, SH, CH)
                return s
            return (2,) * 7
        if k == 'pos':
            o, v = e[1], e[2]
            if not isinstance(o, V) or o.p: return (2,) * 7
            o = o.c
            if o == P['turn_']: return kill(s, BK, SH, CH)
            for c in (0, 1):
                if o == P['kingSquare_'] + 4 * c:
                    any_ = doms.get("c:%r" % Term('any', Term('bb', 8, c)))
                    if v == Term('first', Term('bb', 8, c)): ok = 1 if any_ == (1,) else 2 if any_ is None else 0
                    elif v == K(81): ok = 1 if any_ == (0,) else 2 if any_ is None else 0
                    elif isinstance(v, Term) and v.t[0] == 'first' and isinstance(v.t[1], Term) and v.t[1].t[0] == 'bb' and all(isinstance(x, int) for x in v.t[1].t[1:]): ok = 0
                    else: ok = 2
                    return kill(setv(s, K0 + c, ok), CH)
            if o == P['goldsBB_']:
                if isinstance(v, Term) and v.t[0] == 'bb' and all(isinstance(x, int) for x in v.t[1:]): ok = int(sorted(v.t[1:]) == [7, 9, 10, 11, 12])
                else: ok = 2
                return kill(setv(s, GOLD, ok), CH)
            if P['hand_'] <= o < P['hand_'] + 8: return kill(s, HK, SH)
            if P['piece_'] <= o < P['piece_'] + 324: return kill(s, K0, K1, GOLD, BK, CH)
            if P['goldsBB_'] < o < P['goldsBB_'] + 16: return setv(s, GOLD, 2)
            return s
        if k == 'st':
            o, v = e[1], e[2]
            if not isinstance(o, V) or o.p: return s[:BK] + (2,) * 4
            o = o.c
            if o == S['boardKey']: return setv(s, BK, 1 if v == Term('bkey') else 2 if not isinstance(v, V) or v.p else 0)
            if o == S['handKey']: return setv(s, HK, 1 if v == Term('hkey') else 2 if not isinstance(v, V) or v.p else 0)
            if o == S['hand']:
                if v == Term('handof', Term('turn')): ok = 1
                elif isinstance(v, Term) and v.t[0] == 'hand' and not asks: ok = 0
                else: ok = 2
                return setv(s, SH, ok)
            if S['checkersBB'] <= o < S['checkersBB'] + 16: return setv(s, CH, 2)
            return s
        if k == 'find': return setv(s, CH, 2 if 2 in (s[K0], s[K1], s[GOLD]) else int(s[K0] and s[K1] and s[GOLD]))
        if k in ('approx', 'fill'): return tuple(2 if v == 0 else v for v in s)
        return s
    init = (0,) * 7 if fresh else (1,) * 7
    seen = {('start', init)}; work = [('start', init)]; bad = {}
    while work:
        n, s = work.pop()
        for dst, doms, evs, ret in g.get(n, ()):
            t = s
            for e in evs:
                t = step(t, e, doms)
            chk.obligation('paths between cuts')
            if dst in ('throw', 'far'): continue
            if dst == 'end':
                for i, v in enumerate(t):
                    chk.obligation('members at an exit')
                    if v == 0: bad[i] = True
                    if v == 2: chk.undecide('%s: %s' % (name, ALL[i]))
                continue
            if (dst, t) not in seen: seen.add((dst, t)); work.append((dst, t))
    if not any(e[0] == 'end' for v in g.values() for e in v): chk.undecide('%s: no end' % name)
    for i in bad: chk.violation('%s %s' % (name, ALL[i]), '%s: %s is not that of the position that was set (a path to the end changes the position after it was computed, or never computes it)' % (name, ALL[i]))

# ---- keys from scratch ----------------------------------------------------------------------------------
class KeyX(Fmt):
    """sums of table entries as events"""
    TABLES = r'(zobrist_|zobHand_|ZobPiece|ZobHand|ZobTurn)'
    def leaf(self): return [h for h in super().leaf() if 'compute' not in h[0]]
    def isld(self, v): return isinstance(v, Term) and v.t[0] == 'ld'
    def load(self, st, p, sz, isptr=False):
        if isinstance(p, Ptr) and p.o[0] == 'g' and p.off != TOP and sz == 8 and re.search(self.TABLES, self.G.get(p.o[1], {}).get('dem', p.o[1])):
            return Term('ld', re.search(self.TABLES, self.G[p.o[1]].get('dem', p.o[1])).group(1), self.canon(st, p.off))
        return super().load(st, p, sz, isptr)
    def binop(self, st, op, a, b, w):
        if w == 64 and op in ('add', 'xor', 'sub') and (self.isld(a) or self.isld(b)):
            if self.isld(a) and self.isld(b): st.ev.append((op, a, 'first')); st.ev.append((op, b)); return K(0)
            if self.isld(a) and op != 'sub': a, b = b, a
            if not self.isld(b): return TOP
            st.ev.append((op, b)); return a
        return super().binop(st, op, a, b, w)

def offs(v, doms, X):
    """[(offset, domains)] of a table entry"""
    if isinstance(v, int): return [(v, doms)]
    if not (isinstance(v, tuple) and v and v[0] == 'V'): raise Undecided('entry')
    out = [(v[1], doms)]
    for f, t in v[2]:
        nx = []
        for c, d in out:
            for i in d.get(f, PIECES if f[0] == 'p' else range(X.full[f])): nx.append((c + t[i], dict(d, **{f: (i,)})))
        out = nx
    return out

def key(chk, m, fn, args, expect, what, init, turn=False):
    """expect(field, value) -> {(op, table, offset): n}: what one square, count or the turn contributes"""
    X = KeyX(m); g = X.extract(fn, args); fields = set(init)
    full = lambda f: tuple(PIECES) if f[0] == 'p' else tuple(range(X.full.get(f, 2)))
    # state: node, fields settled, domains of open ones, residual
    start = ('start', frozenset(), (), (), False); seen = {start}; work = [start]; viol = None
    def settle(done, d, res):
        for f in [f for f in d if len(d[f]) == 1 and f not in done and f in fields]:
            done = done | {f}
            for k, n in expect(f, d[f][0]).items(): res = put(res, k, -n)
        return done, {f: v for f, v in d.items() if f not in done or f[0] != 'p'}, res
    def put(res, k, n):
        r = dict(res); r[k] = r.get(k, 0) + n
        if not r[k]: del r[k]
        return tuple(sorted(r.items()))
    while work:
        nd = work.pop(); n, done, dm, res, lz = nd
        for dst, doms, evs, ret in g.get(n, ()):
            d = dict(dm); ok = True; l2 = lz
            for f, v in doms.items():
                if f not in fields and f != 'turn' or f in done and f not in d: l2 = True; continue
                x = tuple(i for i in d.get(f, full(f)) if i in v)
                if not x: ok = False; break
                d[f] = x
            if not ok: continue
            cur = [(done, d, res)]
            # a field the edge restricts to several values is followed value by value when the edge uses it
            for e in evs:
                if e[0] == 'approx': l2 = True; continue
                if e[0] not in ('add', 'xor', 'sub'): l2 = True; continue
                nx = []
                for dn, dd, rr in cur:
                    for o, d2 in offs(e[1].t[2], dd, X):
                        nx.append((dn, d2, put(rr, (e[0] if e[0] != 'sub' else 'add', e[1].t[1], o), -1 if e[0] == 'sub' else 1)))
                cur = nx
                if len(cur) > 3000: raise Undecided('entries')
            chk.obligation('key transitions')
            for dn, dd, rr in cur:
                alts = [(dn, dd, rr)]
                # squares whose content stays open on this edge but adds nothing: follow each content
                for f in [f for f in dd if f[0] == 'p' and f in doms and len(dd[f]) > 1 and f not in dn]:
                    alts = [(a, dict(b, **{f: (v,)}), c) for a, b, c in alts for v in dd[f]]
                for a in {(x[0], tuple(sorted(x[1].items())), x[2]) for x in alts}:
                    dn2, dd2, rr2 = settle(a[0], dict(a[1]), a[2])
                    if any(f in fields for f in doms): dd2 = {f: v for f, v in dd2.items() if f not in dn2 or f in doms}
                    rr2 = tuple((k, n) for k, n in rr2 if not (k[0] == 'xor' and n % 2 == 0))
                    if dst in ('throw', 'far'): raise Undecided(dst)
                    if dst == 'end':
                        if not isinstance(ret, V): raise Undecided('key is more than a sum of entries')
                        for tv in dd2.get('turn', (0, 1)) if turn else (0,):
                            r = ret.c + sum(t[tv] for f, t in ret.p if f == 'turn')
                            if any(f != 'turn' for f, _ in ret.p) or r not in (0, 1): raise Undecided('key is more than a sum of entries')
                            if r != (tv if turn else 0) and not l2 and not viol: viol = ('turn', tv, ((('xor', 'turn', 0), r - tv),))
                        # fields never looked at: any value
                        for f in fields - dn2:
                            vals = dd2.get(f, full(f))
                            if any(expect(f, v) for v in vals) and not viol and not l2:
                                w = next(v for v in vals if expect(f, v))
                                r3 = rr2
                                for k, c in expect(f, w).items(): r3 = put(r3, k, -c)
                                if r3: viol = (f, w, r3)
                        if rr2 and not l2 and not viol: viol = (None, None, rr2)
                        if l2: chk.undecide('%s: not exact' % what)
                        continue
                    if len(rr2) > 3: raise Undecided('%s: entries far from what they depend on' % what)
                    k = (dst, dn2, tuple(sorted(dd2.items())), rr2, l2)
                    if k not in seen:
                        if len(seen) > 200000: raise Undecided('too many states')
                        seen.add(k); work.append(k)
            if viol: break
        if viol: break
    chk.obligation('key states', len(seen))
    if viol:
        f, w, r = viol
        k, c = r[0]
        chk.violation('%s %s' % (fn, k[1]), '%s: the entry of table %s at offset %d is counted %d times %s than it should be' % (what, k[1], k[2], abs(c), 'more' if c > 0 else 'less'))

def run(chk):
    m = build.fmtmod(); pos = Ptr(('pos',), K(0))
    try: R = Fmt(m, True)
    except Undecided as e: chk.undecide(str(e)); chk.finish('tables not followed'); return
    for name, fn, args, fresh in (('set_sfen', 'f_set', [pos, Ptr(('str',), K(0))], True), ('set_hcp', 'f_setHcp', [pos, Ptr(('in',), K(0))], True), ('set_psfen', 'f_setPsfen', [pos, Ptr(('in',), K(0))], True),
                                  ('set_pieces', 'f_setPieces', [pos, Ptr(('in',), K(0)), Ptr(('in2',), K(0))], True), ('turn', 'f_setTurn', [pos, Term('c')], False)):
        try: derived(chk, R, name, R.extract(fn, args), fresh)
        except (Undecided, KeyError, TypeError, AttributeError) as e: chk.undecide('%s: %s' % (name, e))
    X = Fmt(m)
    sq = ['p%d' % i for i in range(81)]; hd = ['h%d%s' % (c, n) for c in (0, 1) for n in HP]
    def board(f, v):
        return {('add', 'zobrist_', ((v & 15) * 81 + int(f[1:])) * 16 + 8 * (v >> 4)): 1} if v else {}
    def hand(f, v): return {('add', 'zobHand_', HP.index(f[2:]) * 16 + 8 * int(f[1])): v} if v else {}
    for fn, fs, ex, what, turn in (('f_boardKey', sq, board, 'computeBoardKey', True), ('f_handKey', hd, hand, 'computeHandKey', False)):
        try: key(chk, m, fn, [pos], ex, what, fs, turn)
        except (Undecided, KeyError, TypeError, AttributeError) as e: chk.undecide('%s: %s' % (what, e))
    if not chk.undecided: chk.need('members at an exit', 1000); chk.need('key states', 300)
    chk.assumptions += ['the key tables hold what start-up put there (same tables the moves use, P02)', 'the sets of squares per kind and colour follow the pieces set (setPiece, decided by P10)', 'findCheckers is decided by P18']
    chk.finish('Typestate over the transducers extracted from the IR of every set-up routine (SFEN, HCP, PSFEN, piece array, turn): each derived member must have been computed, from the right source, after the last write it depends on, on every path to an exit. The key functions are turned into multisets of table entries (accumulator additions as effects) and compared with one entry per piece on its square, per piece in hand and the turn, for all contents of all squares and all hand counts.')

if __name__ == '__main__': main(run, Check('P21', technique='typestate over the transducers of all set-up routines; symbolic sums of key table entries'))
