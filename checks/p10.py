#!/usr/bin/env python3
"""P10: positions written as SFEN, HCP and PSFEN follow those formats, and reading gives the position back."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main
import build
from fmt import *

LETTER = {1: 'P', 2: 'L', 3: 'N', 4: 'S', 5: 'B', 6: 'R', 7: 'G', 8: 'K', 9: '+P', 10: '+L', 11: '+N', 12: '+S', 13: '+B', 14: '+R'}
TYPE = ['', 'Pawn', 'Lance', 'Knight', 'Silver', 'Bishop', 'Rook', 'Gold', 'King', 'ProPawn', 'ProLance', 'ProKnight', 'ProSilver', 'Horse', 'Dragon']
HPTYPE = [1, 2, 3, 4, 7, 5, 6]                 # piece type of each kind in hand
HPOF = {t: k for k, t in enumerate(HPTYPE)}
HPOF.update({9: 0, 10: 1, 11: 2, 12: 3, 13: 5, 14: 6})
def usi(pc): return LETTER[pc & 15] if pc < 16 else LETTER[pc & 15].lower()
def pname(pc): return 'nothing' if pc == 0 else 'piece %s' % (pc,) if pc not in PIECES else ('Black ' if pc < 16 else 'White ') + TYPE[pc & 15]
def sqname(s): return '%d%s' % (s // 9 + 1, 'abcdefghi'[s % 9])
def lsb(v, n): return ''.join(str(v >> i & 1) for i in range(n))

# the documented codes, first bit first
def code(v, n): return lsb(v, n)
HCP = {'board': {0: '0'}, 'hand': {}, 'box': {}}
PSF = {'board': {0: '0'}, 'hand': {}, 'box': {}}
# Apery's HCP: value and length for Black, the bit that makes it White, the bit that makes it promoted
AP = {1: (0b1, 4, 2, 3), 2: (0b11, 6, 4, 5), 3: (0b111, 6, 4, 5), 4: (0b1011, 6, 4, 5), 7: (0b1111, 6, 5, None), 5: (0b11111, 8, 6, 7), 6: (0b111111, 8, 6, 7)}
AH = [(0b0, 3, 2, 0b10), (0b1, 5, 4, 0b1001), (0b11, 5, 4, 0b1011), (0b101, 5, 4, 0b1101), (0b111, 5, 4, 0b11101), (0b11111, 7, 6, 0b1111), (0b111111, 7, 6, 0b101111)]
# YaneuraOu's packed SFEN
YP = {1: (0b1, 4, 3, 2), 2: (0b11, 6, 5, 4), 3: (0b1011, 6, 5, 4), 4: (0b111, 6, 5, 4), 7: (0b1111, 6, 5, None), 5: (0b11111, 8, 7, 6), 6: (0b111111, 8, 7, 6)}
YH = [(0b0, 3, 2, 0b10), (0b1, 5, 4, 0b1001), (0b101, 5, 4, 0b1101), (0b11, 5, 4, 0b1011), (0b111, 5, 4, 0b11011), (0b1111, 7, 6, 0b101111), (0b11111, 7, 6, 0b111111)]
for T, bd, hd in ((HCP, AP, AH), (PSF, YP, YH)):
    for t, (v, n, w, p) in bd.items():
        for c in (0, 1):
            T['board'][t + 16 * c] = code(v | (c << w), n)
            if p: T['board'][t + 8 + 16 * c] = code(v | (c << w) | (1 << p), n)
    for k, (v, n, w, b) in enumerate(hd):
        for c in (0, 1): T['hand'][(c, k)] = code(v | (c << w), n)
        T['box'][k] = code(b, n)

class Bad(Exception): pass
def assigns(v, doms, full):
    """[(value, narrowed domains)]"""
    if not isinstance(v, V): raise Undecided('value')
    out = [(v.c, doms)]
    for f, t in v.p:
        nx = []
        for c, d in out:
            by = {}
            for i in d.get(f, full(f)): by.setdefault(t[i], []).append(i)
            for x, ix in by.items(): e = dict(d); e[f] = tuple(ix); nx.append((c + x, e))
        out = nx
        if len(out) > 20000: raise Undecided('too many values')
    return out

# ---- writers ------------------------------------------------------------------------------------------
class BitsW:
    def __init__(self, T): self.T = T
    start = ('turn',)
    def order(self, s):
        return {'turn': 0, 'k': 1, 'sq': 10, 'hand': 100, 'box': 114, 'done': 121}[s[0]] + (s[1] * 7 + s[2] if s[0] == 'hand' else s[1] if len(s) > 1 else 0)
    def ford(self, f):
        if f == 'turn': return 0
        if f in ('k0', 'k1'): return 1 + int(f[1])
        if f[0] == 'p': return 10 + int(f[1:])
        if f[0] == 'h': return 100 + int(f[1]) * 7 + HP.index(f[2:])
        if f[0] == '@': return 114 + int(f[1:])
        return 10000
    def adv(self, s, doms, cd):
        k = s[0]
        if k == 'turn':
            d = doms.get('turn', (0, 1))
            return ('out', str(d[0]), None, ('k', 0)) if len(d) == 1 else ('wait', 'turn', d)
        if k == 'k':
            f = 'k%d' % s[1]; d = doms.get(f, range(81))
            return ('out', lsb(d[0], 7), None, ('k', 1) if s[1] == 0 else ('sq', 0)) if len(d) == 1 else ('wait', f, d)
        if k == 'sq':
            f = 'p%d' % s[1]; d = doms.get(f, PIECES)
            outs = {('', None) if p & 15 == 8 else (self.T['board'][p], HPOF.get(p & 15)) for p in d}
            if len(outs) > 1: return ('wait', f, d)
            o, h = outs.pop()
            return ('out', o, None if h is None else (h, -1), ('sq', s[1] + 1) if s[1] < 80 else ('hand', 0, 0, 0))
        if k == 'hand':
            _, c, h, i = s; f = 'h%d%s' % (c, HP[h]); d = doms.get(f, range(HMAX[h] + 1))
            if min(d) > i: return ('out', self.T['hand'][(c, h)], None, ('hand', c, h, i + 1))
            if max(d) == i: return ('out', '', (h, -i), ('hand', c, h + 1, 0) if h < 6 else ('hand', 1, 0, 0) if c == 0 else ('box', 0, 0))
            return ('wait', f, d)
        if k == 'box':
            _, h, i = s
            if cd[h] >= 500: raise Undecided('no count of the pieces left over')
            f = '@%d' % h; d = [v + cd[h] for v in doms.get(f, range(19)) if 0 <= v + cd[h] <= BOX[h]]
            if not d: raise Bad
            if min(d) > i: return ('out', self.T['box'][h], None, ('box', h, i + 1))
            if max(d) == i: return ('out', '', None, ('box', h + 1, 0) if h < 6 else ('done',))
            return ('wait', f, [v - cd[h] for v in d])
        return ('done',)
    def show(self, f, v):
        if f == 'turn': return '%s to move' % ('Black', 'White')[v]
        if f in ('k0', 'k1'): return '%s king on %s' % (('Black', 'White')[int(f[1])], sqname(v))
        if f[0] == 'p': return '%s on %s' % (pname(v), sqname(int(f[1:])))
        if f[0] == 'h': return '%s has %d %s in hand' % (('Black', 'White')[int(f[1])], v, f[2:])
        if f[0] == '@': return '%d %s in the box' % (v, HP[int(f[1:])])
        return '%s=%s' % (f, v)

SFH = [6, 5, 4, 3, 2, 1, 0]
class SfenW(BitsW):
    def __init__(self): pass
    start = ('sq', 0, 0)
    def ford(self, f):
        if f == 'turn': return 200
        if f[0] == 'p': s = int(f[1:]); return (s % 9) * 9 + 8 - s // 9
        if f[0] == 'h': return 300 + int(f[1]) * 7 + SFH.index(HP.index(f[2:]))
        return 10000
    def order(self, s):
        return {'sq': lambda: s[1], 'turn': lambda: 200, 'hands': lambda: 300, 'item': lambda: 300 + s[1], 'ply': lambda: 900, 'done': lambda: 999}[s[0]]()
    def adv(self, s, doms, cd):
        k = s[0]
        if k == 'sq':
            i, sp = s[1], s[2]; r, x = divmod(i, 9); f = 'p%d' % ((8 - x) * 9 + r); d = doms.get(f, PIECES)
            if len(d) > 1: return ('wait', f, d)
            sp, o = (sp + 1, '') if d[0] == 0 else (0, (str(sp) if sp else '') + usi(d[0]))
            if x == 8: o += (str(sp) if sp else '') + ('/' if r < 8 else ''); sp = 0
            return ('out', o, None, ('sq', i + 1, sp) if i < 80 else ('turn',))
        if k == 'turn':
            d = doms.get('turn', (0, 1))
            return ('out', ' b ' if d[0] == 0 else ' w ', None, ('hands',)) if len(d) == 1 else ('wait', 'turn', d)
        if k == 'hands':
            ds = [('h%d%s' % (c, HP[h]), HMAX[h]) for c in (0, 1) for h in SFH]
            dd = [(f, doms.get(f, range(n + 1))) for f, n in ds]
            if any(min(d) > 0 for f, d in dd): return ('out', '', None, ('item', 0))
            f = next((f for f, d in dd if max(d) > 0), None)
            if f is None: return ('out', '- ', None, ('ply',))
            return ('wait', f, dict(dd)[f])
        if k == 'item':
            i = s[1]
            if i == 14: return ('out', ' ', None, ('ply',))
            c, h = i // 7, SFH[i % 7]; f = 'h%d%s' % (c, HP[h]); d = doms.get(f, range(HMAX[h] + 1))
            if len(d) > 1: return ('wait', f, d)
            n = d[0]
            return ('out', '' if n == 0 else (str(n) if n > 1 else '') + usi(HPTYPE[h] + 16 * c), None, ('item', i + 1))
        if k == 'ply': return ('out', '\x01', None, ('done',))
        return ('done',)

CSA = ['', 'FU', 'KY', 'KE', 'GI', 'KA', 'HI', 'KI', 'OU', 'TO', 'NY', 'NK', 'NG', 'UM', 'RY']
class CsaW(BitsW):
    def __init__(self): pass
    start = ('sq', 0)
    def ford(self, f):
        if f == 'turn': return 500
        if f[0] == 'p': s = int(f[1:]); return (s % 9) * 9 + 8 - s // 9
        if f[0] == 'h': return 300 + int(f[1]) * 7 + HP.index(f[2:])
        return 10000
    def order(self, s):
        return {'sq': lambda: s[1], 'item': lambda: 300 + s[1] * 7 + s[2], 'turn': lambda: 500, 'done': lambda: 501}[s[0]]()
    def adv(self, s, doms, cd):
        k = s[0]
        if k == 'sq':
            i = s[1]; r, x = divmod(i, 9); f = 'p%d' % ((8 - x) * 9 + r); d = doms.get(f, PIECES)
            if len(d) > 1: return ('wait', f, d)
            o = ('P%d' % (r + 1) if x == 0 else '') + (' * ' if d[0] == 0 else '+-'[d[0] >> 4] + CSA[d[0] & 15]) + ('\n' if x == 8 else '')
            return ('out', o, None, ('sq', i + 1) if i < 80 else ('item', 0, 0, 0))
        if k == 'item':
            _, c, h, i = s; f = 'h%d%s' % (c, HP[h]); d = doms.get(f, range(HMAX[h] + 1))
            if min(d) > i: return ('out', ('P' + '+-'[c] if i == 0 else '') + '00' + CSA[HPTYPE[h]], None, ('item', c, h, i + 1))
            if max(d) == i: return ('out', '\n' if i else '', None, ('item', c, h + 1, 0) if h < 6 else ('item', 1, 0, 0) if c == 0 else ('turn',))
            return ('wait', f, d)
        if k == 'turn':
            d = doms.get('turn', (0, 1))
            return ('out', '+\n' if d[0] == 0 else '-\n', None, ('done',)) if len(d) == 1 else ('wait', 'turn', d)
        return ('done',)

def writer(chk, X, name, fn, args, spec, what):
    try: g = X.extract(fn, args)
    except (Undecided, KeyError, TypeError, AttributeError) as e: chk.undecide('%s: %s' % (name, e)); return
    chk.obligation('writer-transitions', sum(len(v) for v in g.values()))
    full = lambda f: range(X.full[f]) if f[0] != 'p' else PIECES
    cfields = {}
    def alias(f):
        if f[0] != '@': return f
        b, o = f[1:].rsplit('+', 1)
        if cfields.setdefault('a', b) != b: raise Undecided('several counters')
        return '@%d' % (int(o) // 4)
    found = []; und = []
    zeroed = set()
    def push(st):
        """run the specification as far as the domains decide; None when output differs"""
        s, res, doms, cd, lossy = st
        while True:
            try: r = spec.adv(s, doms, cd)
            except Bad: return 'infeasible'
            if r[0] != 'out': break
            _, o, cnt, s2 = r
            if s[0] == 'item' and not o and not (res[0] == 1 and res[1]): break   # an empty hand shows only in what follows
            if cnt: cd = cd[:cnt[0]] + (cd[cnt[0]] + cnt[1],) + cd[cnt[0] + 1:]
            res2 = match(res, o, -1)
            if res2 is None: return ('differ', s, res, o, doms, lossy)
            s, res = s2, res2
            if abs(len(res)) > 60: raise Undecided('output too far apart')
        return (s, res, doms, cd, lossy)
    def match(res, o, who):
        """res > '': pending output; sign tells whose"""
        side, txt = res
        if side == who or not txt: return (who, txt + o)
        n = min(len(txt), len(o))
        if txt[:n] != o[:n]: return None
        return (side, txt[n:]) if len(txt) > n else (who, o[n:])
    def run():
        cd0 = (1000,) * 7
        init = ('start', spec.start, (1, ''), (), cd0, False); seen = {init: None}; work = [init]
        while work:
            node = work.pop(); n, s, res, dm, cd, lossy = node
            for dst, doms, evs, ret in g.get(n, ()):
                d = dict(dm); ok = True; lz = lossy
                for f0, v in doms.items():
                    f = alias(f0)
                    if f[0] == 'c': lz = True; continue
                    if f not in d and spec.ford(f) < spec.order(s): lz = True; continue
                    x = tuple(i for i in d.get(f, full(f0)) if i in v)
                    if f[0] == '@' and cd[int(f[1:])] < 500: x = tuple(i for i in x if 0 <= i + cd[int(f[1:])] <= BOX[int(f[1:])])
                    if not x: ok = False; break
                    d[f] = x
                if not ok: continue
                cur = [(s, res, d, cd, lz)]
                r = push(cur[0]); cur = [] if r == 'infeasible' else [r]
                for e in evs:
                    nx = []
                    for c in cur:
                        if c[0] == 'differ': nx.append(c); continue
                        nx += event(c, e)
                    cur = []
                    keys = set()
                    for c in nx:
                        if c[0] != 'differ':
                            k = (c[0], c[1], tuple(sorted(c[2].items())), c[3], c[4])
                            if k in keys: continue
                            keys.add(k); c = push(c)
                            if c == 'infeasible': continue
                        cur.append(c)
                for c in cur:
                    if c[0] == 'differ':
                        if c[5]: und.append('output differs on a path that is not exact')
                        else: found.append((node, seen, c)); 
                        if found: return
                        continue
                    s2, res2, d2, cd2, lz2 = c
                    if dst == 'end':
                        w = finish(c)
                        if w:
                            if w[5]: und.append('output differs on a path that is not exact')
                            else: found.append((node, seen, w)); return
                        continue
                    if dst in ('throw', 'far'): und.append(dst); continue
                    last = spec.order(s2) - 1
                    d2 = {f: v for f, v in d2.items() if (spec.ford(f) >= spec.order(s2) or spec.ford(f) == last and f[0] in 'h@') and len(v) < (19 if f[0] == '@' else len(full(f)))}
                    nd = (dst, s2, res2, tuple(sorted(d2.items())), cd2, lz2)
                    if nd not in seen:
                        seen[nd] = (node, d)
                        if len(seen) > 400000: raise Undecided('too many states')
                        work.append(nd)
        chk.obligation('writer-states', len(seen))
    def event(c, e):
        s, res, d, cd, lz = c; k = e[0]
        f0 = lambda f: full(f) if f[0] != '@' else range(19)
        if k == 'txt':
            o = '\x01' if isinstance(e[1], Term) and e[1].t == ('ply',) else e[1]
            if not isinstance(o, str): return [(s, res, d, cd, True)]
            r = match(res, o, 1)
            return [('differ', s, res, o, d, lz)] if r is None else [(s, r, d, cd, lz)]
        if k == 'bits':
            out = []
            for v, d2 in assigns(e[1], d, f0):
                r = match(res, lsb(v, e[2]), 1)
                out.append(('differ', s, res, lsb(v, e[2]), d2, lz) if r is None else (s, r, d2, cd, lz))
            return out
        if k in ('count', 'countset'):
            i = e[1]; f = alias(e[3])
            if i >= 7: return [c]
            if not isinstance(e[2], V): raise Undecided('counter')
            out = []
            v = V(e[2].c, tuple((alias(a), t) for a, t in e[2].p))
            for x, d2 in assigns(v, d, lambda a: range(19) if a[0] == '@' else full(a)):
                old = d2.get(f); d2 = {a: b for a, b in d2.items() if a != f}
                if k == 'count':
                    y = cd[i] - x
                    if old: d2[f] = tuple(o + x for o in old)
                elif cd[i] >= 500: y = BOX[i] + cd[i] - 1000 - x
                elif old and len(old) == 1: y = old[0] + cd[i] - x; d2[f] = (x,)
                else: raise Undecided('counter set anew')
                if abs(y) > 20 and y < 500: continue
                out.append((s, res, d2, cd[:i] + (y,) + cd[i + 1:], lz))
            return out
        if k == 'out':
            off, v = e[1], e[2]
            if isinstance(off, V) and not off.p and v == K(0): zeroed.update(range(off.c, off.c + e[3])); return [c]
            raise Undecided('bytes written directly')
        if k == 'zero':
            if e[1] == 'out' and not e[2].p and not e[3].p: zeroed.update(range(e[2].c, e[2].c + e[3].c)); return [c]
            raise Undecided('effect')
        if k == 'approx': return [(s, res, d, cd, True)]
        raise Undecided('effect %s' % k)
    def finish(c):
        s, res, d, cd, lz = c
        for _ in range(3000):
            try: r = spec.adv(s, d, cd)
            except Bad: return None
            if r[0] == 'wait':
                for v in r[2]:
                    w = finish((s, res, dict(d, **{r[1]: (v,)}), cd, lz))
                    if w: return w
                return None
            if r[0] == 'done': return ('differ', s, res, '', d, lz) if res[1] else None
            _, o, cnt, s2 = r
            if cnt: cd = cd[:cnt[0]] + (cd[cnt[0]] + cnt[1],) + cd[cnt[0] + 1:]
            m = match(res, o, -1)
            if m is None: return ('differ', s, res, o, d, lz)
            s, res = s2, m
    try: run()
    except (Undecided, KeyError, TypeError, AttributeError) as e: chk.undecide('%s: %s' % (name, e)); return
    for u in set(und): chk.undecide('%s: %s' % (name, u))
    if found:
        node, seen, c = found[0]
        wit = {}
        n = node
        while n is not None and seen.get(n) is not None:
            p, d = seen[n]
            for f, v in d.items():
                if len(v) <= 3 and f not in wit: wit[f] = v[0]
            n = p
        for f, v in c[4].items():
            if f[0] != 'c': wit[f] = v[0]
        keep = [f for f in wit if not (f[0] == 'p' and wit[f] == 0)]
        side, txt = c[2]
        a, b = (txt, c[3]) if side == 1 else (c[3], txt)
        if not c[3]: a, b = (txt, '') if side == 1 else ('', txt)
        chk.violation('%s %s' % (name, c[1][0]), '%s: with %s (%s): %s where the format has %s' % (what, '; '.join(spec.show(f, wit[f]) for f in sorted(keep)[:6]) or 'any position', {'sq': 'square', 'item': 'hand', 'hands': 'hand', 'k': 'king square'}.get(c[1][0], c[1][0]), 'writes %r' % a if a else 'writes nothing more', repr(b) if b else 'nothing more'))
        return
    if type(spec) is BitsW and not und:
        miss = [i for i in range(32) if i not in zeroed]
        if miss: chk.violation('%s zero' % name, '%s: byte %d of the result is not cleared before bits are set in it' % (what, miss[0]))

# ---- readers ------------------------------------------------------------------------------------------
class Trie:
    """codes of one table, first bit first"""
    def __init__(self, codes):                     # {bits: meaning}
        self.codes = codes; self.pre = {c[:i] for c in codes for i in range(len(c))}
class BitsR:
    """the packed formats: turn, two king squares, 81 squares, hands up to the end of the 32 bytes"""
    def __init__(self, T):
        self.bd = Trie({c: p for p, c in T['board'].items()})
        h = {c: k for k, c in T['hand'].items()}; h.update({c: None for c in T['box'].values()})
        self.hd = Trie(h)
    start = ('turn',)
    def doms(self, s, doms):
        """[(state, exact?)] what the code found out before it reads on"""
        ex = True; outs = [s]
        for f, d in doms.items():
            if f[0] == 'q':
                n = int(f[1:]); nx = []
                for t in outs:
                    if t[0] == 'sq' and t[1] == n and t[2] is None:
                        k = [x for x in d if x & 15 == 8]
                        if k: nx.append(self.next(n))
                        if len(k) < len(d): nx.append(('sq', n, ''))
                        if k and len(k) < len(d): ex = False
                    else: nx.append(t); ex = False
                outs = nx
            elif f[0] == 'c' and not f.startswith('ch') and not f.startswith("c:T('any'"): ex = False
        return [(t, ex) for t in outs]
    def next(self, n): return ('sq', n + 1, None) if n < 80 else ('h', '')
    def bit(self, s, b):
        """[(state, facts)] after one more bit; [] when no position has it there"""
        k = s[0]
        if k == 'turn': return [(('k', 0, ''), [('turn', b)])]
        if k == 'k':
            x = s[2] + str(b)
            if len(x) < 7: return [(('k', s[1], x), [])]
            v = int(x[::-1], 2)
            return [] if v > 80 else [(('k', 1, '') if s[1] == 0 else ('sq', 0, None), [('piece', 8 + 16 * s[1], v)])]
        if k == 'sq':
            if s[2] is None: return self.bit(('sq', s[1], ''), b) + self.bit(self.next(s[1]), b)
            x = s[2] + str(b)
            if x in self.bd.codes: p = self.bd.codes[x]; return [(self.next(s[1]), [('piece', p, s[1])] if p else [])]
            return [(('sq', s[1], x), [])] if x in self.bd.pre else []
        if k == 'h':
            x = s[1] + str(b)
            if x in self.hd.codes: c = self.hd.codes[x]; return [(('h', ''), [('hand', c[0], c[1], 1)] if c else [])]
            return [(('h', x), [])] if x in self.hd.pre else []
        return []
    def done(self, s, at): return s == ('done',)
    ply = 1

PRED = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b}
for _p in ('gt', 'ge', 'lt', 'le'): PRED['u' + _p] = PRED['s' + _p]
def plycond(f):
    """a comparison of the number read with a constant: (predicate, constant)"""
    x = re.match(r"c:(\w+):T\('(?:ply|int)',?\):(-?\d+)$", f)
    return (x.group(1), int(x.group(2))) if x and x.group(1) in PRED else None

class SfenR:
    start = ('b', 0, 0, False, False)
    def doms(self, s, doms):
        ex = not any(f[0] in 'qb' or f[0] == 'c' and not f.startswith('ch') and not f.startswith("c:T('any'") and not plycond(f) for f in doms)
        return [(s, ex)]
    def chars(self, s):
        """{char: (state, facts)}"""
        k = s[0]; o = {}
        if k == 'b':
            _, r, x, dg, plus = s
            if x == 9: return {'/': (('b', r + 1, 0, False, False), [])} if r < 8 else {' ': (('t',), [])}
            for pc in PIECES[1:]:
                t = pc & 15
                if plus != (t > 8): continue
                n = usi(pc)[-1]; o[n] = (('b', r, x + 1, False, False), [('piece', pc, (8 - x) * 9 + r)])
            if not plus:
                o['+'] = (('b', r, x, False, True), [])
                if not dg:
                    for n in range(1, 10 - x): o[str(n)] = (('b', r, x + n, True, False), [])
            return o
        if k == 't': return {'b': (('t2',), [('turn', 0)]), 'w': (('t2',), [('turn', 1)])}
        if k == 't2': return {' ': (('i', 0, ''), [])}
        if k == 'i':
            _, i, dg = s
            if dg == '-': return {' ': (('ply',), [])}
            if i > 0 and not dg: o[' '] = (('ply',), [])
            if i == 0 and not dg: o['-'] = (('i', 0, '-'), [])
            for j in range(i, 14):
                c, h = j // 7, SFH[j % 7]; n = int(dg or 1)
                if n <= HMAX[h] and dg != '1': o[usi(HPTYPE[h] + 16 * c)] = (('i', j + 1, ''), [('hand', c, h, n)])
            for d in '123456789' if not dg else '012345678' if dg == '1' else '':
                hi = 18 if any(SFH[j % 7] == 0 for j in range(i, 14)) else 4
                if int(dg + d) <= hi and i < 14: o[d] = (('i', i, dg + d), [])
            return o
        return {}
    def done(self, s, at): return s == ('done',)
    ply = Term('int')

def show(fact, spec=None):
    if fact[0] == 'piece': return '%s on %s' % (pname(fact[1]), sqname(fact[2]))
    if fact[0] == 'hand': return '%s %s in hand' % (('Black', 'White')[fact[1]], HP[fact[2]] if fact[2] < 7 else '?')
    return str(fact)

def reader(chk, X, g, name, spec, what):
    P = X.P; und = set()
    chk.obligation('reader-transitions', sum(len(v) for v in g.values()))
    OK = ()
    # residual: facts of the format not yet set by the code (+) and facts set by the code that the format has not given (-)
    def put(res, fact, n):
        d = dict(res); d[fact] = d.get(fact, 0) + n
        if not d[fact]: del d[fact]
        return tuple(sorted(d.items()))
    def facts(st, fs, sign):
        s, res, tv, ply, lz = st
        for f in fs:
            if f[0] == 'turn': tv = (f[1], tv[1]) if sign > 0 else (tv[0], f[1])
            elif f[0] == 'hand': res = put(res, f[:3], sign * f[3])
            else: res = put(res, f, sign)
        return (s, res, tv, ply, lz)
    def ev(v, env):
        if isinstance(v, int): return v
        if not isinstance(v, V): return v
        c = v.c; rest = []
        for f, t in v.p:
            if isinstance(env.get(f), int): c += t[env[f]]
            else: rest.append((f, t))
        return c if not rest else ('V', c, tuple((f, tuple(t)) for f, t in rest))
    def step(st, env, doms, e):
        s, res, tv, ply, lz = st; k = e[0]
        if k == 'rd':
            f = e[1]; out = []
            if f[0] == 'b':
                n = e[2]; d = doms.get(f)
                if n == 7 and s[0] == 'k' and s[2] == '' and d is None:
                    s2 = ('k', 1, '') if s[1] == 0 else ('sq', 0, None)
                    return [(facts((s2, res, tv, ply, lz), [('piece', 8 + 16 * s[1], ('V', 0, ((f, tuple(range(128))),)))], 1), env)]
                for v in d if d is not None else range(1 << n):
                    cur = [(s, [])]
                    for i in range(n): cur = [(s3, fs + f3) for s2, fs in cur for s3, f3 in spec.bit(s2, v >> i & 1)]
                    out += [(facts((s2, res, tv, ply, lz), fs, 1), dict(env, **{f: v})) for s2, fs in cur]
                return out
            d = doms.get(f)
            for c, (s2, fs) in spec.chars(s).items():
                if d is None or ord(c) in d: out.append((facts((s2, res, tv, ply, lz), fs, 1), dict(env, **{f: ord(c)})))
            return out
        if k == 'rdint':
            if s[0] != 'ply': return []
            return [((('done',), res, tv, ply, lz), env)]
        if k == 'piece':
            p, q = ev(e[1], env), ev(e[2], env)
            if isinstance(p, int) and p >= 32: p = p
            r = facts(st, [('piece', p, q)], -1)
            if isinstance(p, tuple): lz = True
            return [((r[0], r[1], r[2], r[3], lz), env)]
        if k == 'hand':
            n = ev(e[3], env)
            if not isinstance(n, int): return [((s, res, tv, ply, True), env)]
            return [(facts(st, [('hand', e[1], e[2], n)], -1), env)]
        if k == 'pos':
            off = ev(e[1], env)
            if off == P['turn_'] and e[3] in (1, 4):
                v = ev(e[2], env)
                return [((s, res, (tv[0], v if isinstance(v, int) else str(v)), ply, lz), env)]
            if off == P['gamePly_'] and e[3] == 4:
                v = ev(e[2], env); return [((s, res, tv, v if isinstance(v, int) else 'int' if v == Term('int') else '?', lz), env)]
            if isinstance(off, int) and (off < P['kingSquare_'] and off >= P['byTypeBB_'] or P['hand_'] <= off < P['hand_'] + 8):
                if off < P['goldsBB_'] or P['piece_'] <= off < P['piece_'] + 324 or P['hand_'] <= off < P['hand_'] + 8: lz = True
            elif not isinstance(off, int): lz = True
            return [((s, res, tv, ply, lz), env)]
        if k == 'zero':
            o, n = ev(e[2], env), ev(e[3], env)
            if e[1] != 'pos': return [(st, env)]
            if not isinstance(o, int) or not isinstance(n, int): return [((s, res, tv, ply, True), env)]
            if o <= P['turn_'] < o + n: tv = (tv[0], 0)
            if o <= P['gamePly_'] < o + n: ply = 0
            if any(f[0] == 'piece' and c < 0 for f, c in res) and o <= P['piece_'] < o + n: lz = True
            return [((s, res, tv, ply, lz), env)]
        if k == 'approx' or k in ('fill', 'out'): return [((s, res, tv, ply, True), env)]
        return [(st, env)]
    def conflict(res):
        pl = {}
        for f, c in res:
            if f[0] == 'piece' and isinstance(f[2], int): pl.setdefault(f[2], {})[c > 0] = f[1]
        for q, d in pl.items():
            if len(d) == 2: return q, d[True], d[False]
        return None
    found = None; ends = 0
    init = ('start', spec.start, OK, (None, None), None, False); seen = {init: None}; work = [init]; pruned = False
    def path(nd):
        out = []
        while nd is not None and seen.get(nd) is not None: p, e = seen[nd]; out.append(e); nd = p
        txt = []
        for env in reversed(out):
            for f in sorted(env, key=lambda f: (f.rstrip('0123456789'), int(re.sub(r'\D', '', f) or 0))):
                if f[0] == 'c' and f.startswith('ch') and env[f] < 128: txt.append(chr(env[f]))
        return ''.join(txt)
    def bad(kind, nd, env, msg, lz):
        nonlocal found
        if lz: und.add('a difference on a path that is not exact'); return
        t = path(nd) + ''.join(chr(v) for f, v in env.items() if f.startswith('ch') and isinstance(v, int) and v < 128)
        found = (kind, '%s: %s%s' % (what, msg, ' (after reading %r)' % t[-40:] if t else ''))
    while work and not found:
        nd = work.pop(); n, s, res, tv, ply, lz = nd
        for dst, doms, evs, ret in g.get(n, ()):
            starts = spec.doms(s, doms)
            atd = {f: d for f, d in doms.items() if f[:2] == 'at'}
            cur = [((s2, res, tv, ply, lz or not ex), {}) for s2, ex in starts]
            last = None
            for e in evs:
                nx = []
                for st, env in cur: nx += step(st, env, doms, e)
                cur = nx
                if not cur: break
            for st, env in cur:
                s2, res2, tv2, ply2, lz2 = st
                at = None
                if atd:
                    # position in bytes after the last read of this edge
                    nr = sum(1 for e in evs if e[0] == 'rd'); f = 'at%d' % nr
                    d = atd.get(f)
                    if len(atd) > 1 or d is None: lz2 = True
                    elif d == (32,): at = True
                    elif 32 in d: lz2 = True
                    else: at = False
                    if at is True and s2 != ('h', ''): continue
                    if at is True: s2 = ('done',)
                if any(isinstance(f[1], tuple) or f[0] == 'piece' and isinstance(f[2], tuple) for f, c in res2):
                    if dst in ('throw',): continue
                    miss = [f for f, c in res2 if c > 0 and f[0] == 'piece' and isinstance(f[2], tuple)]; xtra = [f for f, c in res2 if c < 0 and f[0] == 'piece' and isinstance(f[2], tuple)]
                    if miss and xtra: bad('king', nd, env, 'the king squares are set wrongly: %s' % '; '.join('%s at %s' % (pname(f[1]) if isinstance(f[1], int) else f[1], f[2]) for f in xtra), lz2)
                    else: und.add('king squares')
                    continue
                w = conflict(res2)
                if w: bad('square', nd, env, 'a %s on %s is read as %s' % (pname(w[1]), sqname(w[0]), pname(w[2]) if w[2] < 31 else 'piece %d' % w[2]), lz2); continue
                if any(f[0] == 'piece' and c < 0 and f[2] > 80 for f, c in res2): bad('square', nd, env, 'a piece is put on square %d' % [f[2] for f, c in res2 if c < 0][0], lz2); continue
                over = [f for f, c in res2 if f[0] == 'hand' and c < 0]
                if over and isinstance(spec, BitsR): bad('hand', nd, env, 'a %s is read that is not there' % show(over[0]), lz2); continue
                if dst == 'throw': bad('rejected', nd, env, 'a position in this format is rejected at %s' % (s2,), lz2); continue
                if dst == 'far': und.add('far'); continue
                if dst != 'end' and any(plycond(f) for f in doms): lz2 = True
                if dst == 'end':
                    ends += 1
                    pc = [(plycond(f), d) for f, d in doms.items() if plycond(f)]; nums = [k for k in range(1, 3000) if all(int(PRED[q](k, c)) in d for (q, c), d in pc)]
                    if pc and not nums: continue
                    if not spec.done(s2, at is True or s2 == ('done',)):
                        bad('short', nd, env, 'reading ends before the format does (%s)' % (s2,), lz2); continue
                    for f, c in res2: bad('missing', nd, env, '%s%s' % (show(f), ' is not set' if c > 0 else ' is set though not there') if f[0] == 'piece' else '%s: %s' % (show(f), 'too few' if c > 0 else 'too many'), lz2)
                    if tv2[0] != tv2[1]: bad('turn', nd, env, '%s to move is read as %s' % (('Black', 'White')[tv2[0]], tv2[1]), lz2 or not isinstance(tv2[1], int))
                    want = spec.ply if isinstance(spec.ply, int) else 'int'
                    if ply2 != want and nums != [ply2]: bad('ply', nd, env, 'the ply is set to %s%s' % (ply2, ' when it is %d' % next(k for k in nums if k != ply2) if pc else ''), lz2 or ply2 == '?')
                    continue
                if sum(1 for f, c in res2 if c > 0) > 2 or sum(1 for f, c in res2 if c < 0) > 2: pruned = True; continue
                k = (dst, s2, res2, tv2, ply2, lz2)
                if k not in seen:
                    if len(seen) > 300000: raise Undecided('%s: too many states' % name)
                    seen[k] = (nd, env); work.append(k)
            if found: break
    chk.obligation('reader-states', len(seen))
    if found: chk.violation('%s reader %s' % (name, found[0]), found[1])
    elif not ends: und.add('no end is reached')
    elif pruned: und.add('the code sets pieces far from where they are read')
    for u in und: chk.undecide('%s reader: %s' % (name, u))

def pieces(chk, X, g):
    """set_pieces: every square and every count is carried over, turn and ply stay"""
    P = X.P; what = 'set_pieces()'
    if any(e[0] == 'approx' for v in g.values() for _, _, evs, _ in v for e in evs): chk.undecide('set_pieces: not exact'); return
    def flow(init, step, final, doms_ok):
        seen = {('start', init)}; work = [('start', init)]
        while work:
            n, s = work.pop()
            for dst, doms, evs, ret in g.get(n, ()):
                if not doms_ok(doms): continue
                t = s
                for e in evs: t = step(t, e)
                if dst in ('throw', 'far'): raise Undecided(dst)
                if dst == 'end':
                    if not final(t): return t
                    continue
                if (dst, t) not in seen: seen.add((dst, t)); work.append((dst, t))
        chk.obligation('set_pieces-states', len(seen))
        return None
    touched = {}
    for v in g.values():
        for _, doms, evs, _ in v:
            for e in evs:
                if e[0] == 'piece':
                    if not isinstance(e[2], V) or e[2].p or not isinstance(e[1], V): raise Undecided('set_pieces')
                    touched.setdefault(e[2].c, []).append(e)
                if e[0] == 'pos' and not (isinstance(e[1], V) and not e[1].p and e[1].c in (P['turn_'], P['gamePly_'], P['goldsBB_'], P['st_'], P['kingSquare_'], P['kingSquare_'] + 4)): raise Undecided('set_pieces: store')
    if any(f.startswith('c:') and not f.startswith("c:T('any'") for v in g.values() for _, doms, _, _ in v for f in doms): raise Undecided('set_pieces: condition')
    for s in range(81):
        f = 'i%d' % s
        for v in PIECES:
            def step(t, e):
                if e[0] == 'piece' and e[2].c == s:
                    x = e[1].c
                    for ff, tb in e[1].p:
                        if ff != f: return t + ('?',)
                        x += tb[v]
                    return t + (x,)
                return t
            w = flow((), step, lambda t: t == ((v,) if v else ()) or '?' in t, lambda d: v in d.get(f, (v,)))
            if w is not None: chk.violation('set_pieces square', '%s: %s on %s becomes %s' % (what, pname(v), sqname(s), ' and '.join(pname(x) if x < 31 else str(x) for x in w) or 'nothing')); return
    for c in (0, 1):
        for h in range(7):
            T = Term('n', c * 7 + h)
            w = flow((), lambda t, e: t + (repr(e[3]),) if e[0] == 'hand' and (e[1], e[2]) == (c, h) else t, lambda t: t == (repr(T),), lambda d: True)
            if w is not None: chk.violation('set_pieces hand', '%s: the number of %s %s in hand is set to %s' % (what, ('Black', 'White')[c], HP[h], w or 'nothing')); return
    def tp(t, e):
        if e[0] == 'zero' and e[1] == 'pos' and not e[2].p and not e[3].p:
            return tuple('0' if e[2].c <= o < e[2].c + e[3].c else x for x, o in zip(t, (P['turn_'], P['gamePly_'])))
        if e[0] == 'pos' and not e[1].p:
            return tuple(repr(e[2]) if e[1].c == o else x for x, o in zip(t, (P['turn_'], P['gamePly_'])))
        return t
    w = flow(('keep', 'keep'), tp, lambda t: t[0] in ('keep', "T('old',)") and t[1] in ('keep', "T('oldply',)"), lambda d: True)
    if w is not None:
        if 'TOP' in w: raise Undecided('set_pieces: turn')
        chk.violation('set_pieces turn', '%s: turn and ply become %s, %s' % (what, w[0], w[1]))

# ---- what the transducers take for granted --------------------------------------------------------------
def lemmas(chk, X):
    m = X.m; it = lin.Interp(m, None, [(r'^Bitboard::setBit\(', lambda it, st, d, a: (it.setbits.append((a[0].o, st.norm(a[0].off).c, st.norm(a[1]).c)), K(0))[1])], 4000000)
    it.setbits = []
    def run1(fn, args, mem):
        it.fuel = it.fuel0
        st = State({}); st.mem = {o: dict(c) for o, c in mem.items()}
        outs = it.run(fn, args, st)
        if len(outs) != 1: raise Undecided('%s has several outcomes' % fn)
        return outs[0]
    def num(st, v):
        v = st.norm(v) if isinstance(v, V) else v
        if not isinstance(v, V) or v.p: raise Undecided('value not followed')
        return v.c
    def cell(st, o, off, sz): return num(st, it.load(st, Ptr(o, K(off)), sz) )
    bs, d = ('bs',), ('d',)
    def stream(cur, b0, b1): return {bs: {0: (Ptr(d, K(0)), 8), 8: (K(cur), 4)}, d: {0: (K(b0), 1), 1: (K(b1), 1)}}
    def where(st): p = st.mem[bs][0][0]; return num(st, p.off) * 8 + cell(st, bs, 8, 4)
    try:
        for cur in range(8):
            for b in (0, 255, 1 << cur, 255 ^ 1 << cur, 0x5a, 0xa5):
                v, st = run1('f_getBit', [Ptr(bs, K(0))], stream(cur, b, 0)); chk.obligation('lemmas')
                if (num(st, v), where(st)) != (b >> cur & 1, cur + 1): chk.violation('getBit', 'BitStream::getBit at bit %d of byte 0x%02x gives %d and moves to bit %d' % (cur, b, num(st, v), where(st)))
                for bit in (0, 1):
                    if b >> cur: continue
                    v, st = run1('f_putBit', [Ptr(bs, K(0)), K(bit)], stream(cur, b, 0)); chk.obligation('lemmas')
                    w = cell(st, d, 0, 1) & 255
                    if (w, where(st)) != (b | bit << cur, cur + 1): chk.violation('putBit', 'BitStream::putBit of %d at bit %d of byte 0x%02x gives 0x%02x and moves to bit %d' % (bit, cur, b, w, where(st)))
        for n in range(1, 9):
            for val in (0, (1 << n) - 1, 1, 1 << (n - 1), 0x35 & (1 << n) - 1, 0x6a & (1 << n) - 1):
                for cur in range(8):
                    w = val << cur
                    v, st = run1('f_getBits', [Ptr(bs, K(0)), K(n)], stream(cur, w & 255 | ((1 << cur) - 1), w >> 8 | (0xff << max(0, cur + n - 8) & 255))); chk.obligation('lemmas')
                    exp = val if cur + n > 8 else val
                    if (num(st, v) & 255, where(st)) != (exp, cur + n): chk.violation('getBits', 'BitStream::getBits(%d) at bit %d of the bits of %d gives %d and moves to bit %d' % (n, cur, val, num(st, v) & 255, where(st)))
                    v, st = run1('f_putBits', [Ptr(bs, K(0)), K(val), K(n)], stream(cur, (1 << cur) - 1, 0)); chk.obligation('lemmas')
                    got = cell(st, d, 0, 1) & 255 | (cell(st, d, 1, 1) & 255) << 8
                    if (got, where(st)) != (w | (1 << cur) - 1, cur + n): chk.violation('putBits', 'BitStream::putBits(%d, %d) at bit %d gives 0x%x and moves to bit %d' % (val, n, cur, got, where(st)))
    except Undecided as e: chk.undecide('BitStream: %s' % e)
    P = X.P; po = ('pos',)
    try:
        for pc in PIECES[1:]:
            for sq in range(81):
                it.setbits = []; v, st = run1('f_setPiece', [Ptr(po, K(0)), K(pc), K(sq)], {po: {}}); chk.obligation('lemmas')
                cells = {o: num(st, v) for o, (v, s) in st.mem[po].items()}
                if cells != {P['piece_'] + 4 * sq: pc}: chk.violation('setPiece', 'setPiece(%s, %s) writes %s' % (pname(pc), sqname(sq), cells))
                want = sorted([(po, P['byTypeBB_'] + 16 * (pc & 15), sq), (po, P['byTypeBB_'], sq), (po, P['byColorBB_'] + 16 * (pc >> 4), sq)])
                if sorted(it.setbits) != want: chk.violation('setPiece', 'setPiece(%s, %s) marks the square in sets %s, not in %s' % (pname(pc), sqname(sq), sorted(x[1] for x in it.setbits), [x[1] for x in want]))
    except Undecided as e: chk.undecide('setPiece: %s' % e)
    try:
        U = [X.unit(k) for k in range(7)]; full = sum(u * n for u, n in zip(U, HMAX))
        for k in range(7):
            for n in range(HMAX[k] + 1):
                for base in (0, full - U[k] * HMAX[k]):
                    for c in (0, 1):
                        mem = {po: {P['hand_']: (K(base), 4), P['hand_'] + 4: (K(base), 4)}}
                        for fn, a in (('f_setHandH', [K(k), K(c), K(n)]), ('f_setHandP', [K(HPTYPE[k] + 16 * c), K(n)])):
                            v, st = run1(fn, [Ptr(po, K(0))] + a, mem); chk.obligation('lemmas')
                            got = [cell(st, po, P['hand_'] + 4 * x, 4) for x in (0, 1)]
                            want = [base + (U[k] * n if x == c else 0) for x in (0, 1)]
                            if got != want: chk.violation('setHand', 'setHand: %d %s for %s turn the hands %s into %s' % (n, HP[k], ('Black', 'White')[c], [hex(base)] * 2, [hex(x) for x in got]))
    except Undecided as e: chk.undecide('setHand: %s' % e)

def run(chk):
    m = build.fmtmod(); pos = Ptr(('pos',), K(0))
    try: X = Fmt(m)
    except Undecided as e: chk.undecide('tables: %s' % e); chk.finish('tables not followed'); return
    writer(chk, X, 'sfen', 'f_toSfen', [pos, Ptr(('str',), K(0))], SfenW(), 'sfen()')
    writer(chk, X, 'hcp', 'f_toHcp', [pos, Ptr(('out',), K(0))], BitsW(HCP), 'to_hcp()')
    writer(chk, X, 'psfen', 'f_toPsfen', [pos, Ptr(('out',), K(0))], BitsW(PSF), 'to_psfen()')
    writer(chk, X, 'csa', 'f_toCsa', [pos, Ptr(('str',), K(0))], CsaW(), 'csa_pos()')
    R = Fmt(m, True)
    for name, fn, spec, what in (('sfen', 'f_set', SfenR(), 'set_sfen()'), ('hcp', 'f_setHcp', BitsR(HCP), 'set_hcp()'), ('psfen', 'f_setPsfen', BitsR(PSF), 'set_psfen()')):
        try: reader(chk, R, R.extract(fn, [pos, Ptr(('str' if fn == 'f_set' else 'in',), K(0))]), name, spec, what)
        except (Undecided, KeyError, TypeError, AttributeError) as e: chk.undecide('%s: %s' % (name, e))
    try: pieces(chk, R, R.extract('f_setPieces', [pos, Ptr(('in',), K(0)), Ptr(('in2',), K(0))]))
    except (Undecided, KeyError, TypeError, AttributeError) as e: chk.undecide('set_pieces: %s' % e)
    lemmas(chk, X)
    if not chk.undecided:
        chk.need('writer-states', 3000); chk.need('reader-states', 5000); chk.need('lemmas', 3000)
    chk.assumptions += ['positions hold at most the pieces of one set and both kings (packed formats)', 'std::istream and std::ostream behave as the standard says', 'king squares, set of gold-movers and keys of the position read are what P21 checks']
    chk.finish('Each reader and writer is cut at its loop headers and turned into a finite transducer that covers all its executions (domains of piece, hand, character and bit inputs on the edges, text, bits, pieces and hands set as output); the product with the documented grammar of the format is explored completely, so every position and every text of the format is covered.')

if __name__ == '__main__': main(run, Check('P10', technique='finite transducers extracted from the IR, product with the documented formats'))
