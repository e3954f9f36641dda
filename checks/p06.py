#!/usr/bin/env python3
"""P06: the declaration win is reported exactly when the 27-point rule grants it."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main, venv
venv()
import build
from count import *

BIG = {'Rook', 'Dragon', 'Bishop', 'Horse'}
FN = {'eq': lambda x: x == 0, 'ne': lambda x: x != 0, 'gt': lambda x: x > 0, 'ge': lambda x: x >= 0, 'lt': lambda x: x < 0, 'le': lambda x: x <= 0}
def feasible(want):
    """want: [(number, kinds it may be made of, on the board)]: enough pieces exist?  (augmenting paths)"""
    cap = dict(LIMIT); cap['King'] = 0; use = {}
    for g, (n, kinds, _) in enumerate(want):
        for _ in range(n):
            seen = set()
            def place(g):
                for k in want[g][1]:
                    if k in seen: continue
                    seen.add(k)
                    if sum(use.get((k, h), 0) for h in range(len(want))) < cap[k]: use[(k, g)] = use.get((k, g), 0) + 1; return True
                    for h in range(len(want)):
                        if use.get((k, h), 0) and h != g and place(h):
                            use[(k, h)] -= 1; use[(k, g)] = use.get((k, g), 0) + 1; return True
                return False
            if not place(g): return False
    return sum(n for n, _, b in want if b) <= 26

def run(chk):
    import attacks
    attacks.lemma(chk, ('prims',))
    m = build.rulesmod()
    I = Count(m)
    B = next(x['off'] // 8 for x in m['records']['__Board']['members'] if x['name'] == 'pos')
    for us in (0, 1):
        name = ('Black', 'White')[us]
        try: outs = I.explore('w_nyu', us, [Ptr(('pos',), K(-B))])
        except (Undecided, ForkField, AttributeError, TypeError, KeyError) as e: chk.undecide('%s: %s' % (name, e)); continue
        zone = 0
        for x in range(9):
            for y in (range(3) if us == 0 else range(6, 9)): zone |= 1 << (9 * x + y)
        if any(a & zone and a & ~zone for a in I.atoms): chk.undecide('%s: the zone is not a union of parts' % name); continue
        st = outs[0][1]
        num = K(-10); pts = K(-28 if us == 0 else -27)
        for (i, k, c), f in I.field.items():
            if c == us and I.atoms[i] & zone: num = add(num, fld(f, st.sizes[f])); pts = add(pts, fld(f, st.sizes[f], 5 if k in BIG else 1))
        for k in HAND: pts = add(pts, fld('h%s.%d' % (k, us), LIMIT[k] + 1, 5 if k in BIG else 1))
        for r, s0 in outs:
            for v, s in (I.fork(s0, r) if isinstance(r, (V, Cmp)) else [(None, s0)]):
                chk.obligation('paths')
                if v is None or s.approx or s.mem[('unk',)]: chk.undecide('%s: path not followed' % name); continue
                conds = list(s.mem[('cond',)].values())
                forms = [d for _, d in conds] + [num, pts]
                for ky in s.dom['ky']:
                    for ch in s.dom['chk']:
                        chk.obligation('cases compared')
                        w = witness(I, s, us, conds, forms, num, pts, bool(v), not ch and (ky < 3 if us == 0 else ky > 5), ky)
                        if w is None: continue
                        if w == 'large': chk.undecide('%s: too many groups of pieces' % name); continue
                        chk.violation('nyugyoku:%s' % name, 'is_nyugyoku answers %s for %s, %s, king on rank %d, %s, but the 27-point rule says %s' % (bool(v), name, 'in check' if ch else 'not in check', ky + 1, w, not v))
                        break
    chk.assumptions.append('The checkers recorded for the position are the pieces that give check, and every view of the board agrees (P02).')
    chk.finish('is_nyugyoku is interpreted (LLVM IR of the current tree) on a position of which only numbers are known: how many pieces of every kind and colour stand on every part of the board, both hands, the rank of the king, '
        'check or not. Conditions on sums stay linear; the decision tree that results is compared with the rule (own king in the last three ranks, not in check, ten other own pieces there, 28 points for Black or 27 for White) '
        'on every combination of numbers the sets of pieces allow.', functions=['nyugyoku'], rule='answer = 27-point rule')

def witness(I, s, us, conds, forms, num, pts, answer, base, ky):
    """a combination of numbers on this path for which the answer is not the rule's"""
    fs = sorted({f for d in forms for f, _ in s.norm(d).p if f not in ('kx', 'ky', 'ex', 'ey', 'chk')})
    fix = {'ky': ky, 'chk': s.dom['chk'][0], 'kx': s.dom['kx'][0], 'ex': s.dom['ex'][0], 'ey': s.dom['ey'][0]}
    T = [dict(d.p) for d in forms]
    const = [d.c + sum(t[f][fix[f]] for f in fix if f in t) for d, t in zip(forms, T)]
    groups = {}
    for f in fs:
        rows = [t.get(f) for t in T]
        if all(r is None or affine(r) for r in rows): sig = tuple(0 if r is None else affine(r) for r in rows)
        else: sig = (f,)
        groups.setdefault(sig, []).append(f)
    G = []; size = 1
    for sig, l in groups.items():
        kinds = {}
        for f in l:
            k = f[1:].split('.')[0] if f[0] == 'h' else f.split('.')[1]
            kinds[RAW.get(k, k)] = 1
        hi = sum(LIMIT[k] for k in kinds if k != 'King')
        board = l[0][0] == 'n'
        if any((f[0] == 'n') != board for f in l): board = False
        if board: hi = min(hi, 26)
        one = len(sig) == 1 and isinstance(sig[0], str)
        vals = list(s.dom[l[0]]) if len(l) == 1 else list(range(hi + 1))
        contrib = [[sum((T[j].get(l[0]) or [0] * 99)[n] for _ in (0,)) for j in range(len(T))] if one else [sig[j] * n for j in range(len(T))] for n in vals]
        G.append((vals, contrib, [k for k in kinds if k != 'King'], board, l)); size *= len(vals)
    if size > 3000000:                              # fewer values of each: the ends and a few between
        G = [([v for v in g[0] if v in (0, 1, 2, 3, 4) or v % 6 == 0], [c for v, c in zip(g[0], g[1]) if v in (0, 1, 2, 3, 4) or v % 6 == 0], *g[2:]) for g in G]
        size = 1
        for g in G: size *= len(g[0])
        if size > 20000000: return 'large'
    P = [FN[p] for p, _ in conds]; n = len(conds)
    def rec(i, acc, pick):
        if i == len(G):
            if all(p(x) for p, x in zip(P, acc)):
                spec = base and acc[n] >= 0 and acc[n + 1] >= 0
                if spec != answer:
                    want = [(v, g[2], g[3]) for v, g in zip(pick, G) if v]
                    if feasible(want): return pick
            return None
        for v, c in zip(G[i][0], G[i][1]):
            r = rec(i + 1, [x + y for x, y in zip(acc, c)], pick + [v])
            if r: return r
    r = rec(0, const, [])
    if r is None: return None
    def lab(g):
        ks = {f[1:].split('.')[0] for f in g[4]} if not g[3] else {f.split('.')[1] for f in g[4]}
        return '%s %s' % ('/'.join(sorted(ks)), 'in the zone or on part of it' if g[3] else 'in hand')
    return ', '.join('%d %s' % (v, lab(g)) for v, g in zip(r, G) if v) or 'no other pieces'
if __name__ == '__main__': main(run, Check('P06'))
