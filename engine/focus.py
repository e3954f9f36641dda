"""Positions seen through a few tracked squares.

Every bitboard is represented by what it says about the tracked squares (exact: 0, 1, or a function of one symbolic
field) plus a tag for the rest.  Tracked squares have symbolic coordinates; squares with the same base differ by a known
displacement, squares with different bases are unrelated (the scenario states that they differ).  Loops over the members
of a bitboard are followed for the tracked members.  Piece movements are given by the rules, everything else is the code's.
"""
import re
from lin import *

KINDS = ['Pawn', 'Lance', 'Knight', 'Silver', 'Bishop', 'Rook', 'Gold', 'King', 'ProPawn', 'ProLance', 'ProKnight', 'ProSilver', 'Horse', 'Dragon']
HAND = ['Pawn', 'Lance', 'Knight', 'Silver', 'Gold', 'Bishop', 'Rook']
PRO = {'Pawn': 'ProPawn', 'Lance': 'ProLance', 'Knight': 'ProKnight', 'Silver': 'ProSilver', 'Bishop': 'Horse', 'Rook': 'Dragon'}
RAW = {v: k for k, v in PRO.items()}
GOLDS = {'Gold', 'ProPawn', 'ProLance', 'ProKnight', 'ProSilver'}
# displacements for Black: x grows to the left (file 1 -> 9), y grows downwards
STEP = {'Pawn': [(0, -1)], 'Knight': [(-1, -2), (1, -2)], 'Silver': [(-1, -1), (0, -1), (1, -1), (-1, 1), (1, 1)],
        'Gold': [(-1, -1), (0, -1), (1, -1), (-1, 0), (1, 0), (0, 1)], 'King': [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b], 'Lance': [], 'Bishop': [], 'Rook': []}
RAYS = {'Lance': [(0, -1)], 'Bishop': [(-1, -1), (-1, 1), (1, -1), (1, 1)], 'Rook': [(-1, 0), (1, 0), (0, -1), (0, 1)]}
for k in GOLDS: STEP[k] = STEP['Gold']
STEP['Horse'] = STEP['King']; STEP['Dragon'] = STEP['King']; RAYS['Horse'] = RAYS['Bishop']; RAYS['Dragon'] = RAYS['Rook']

def reach(kind, c, dx, dy):
    """None, 'step' or the unit vector of the ray that leads there"""
    if c: dx, dy = -dx, -dy
    if (dx, dy) in STEP[kind]: return 'step'
    for ux, uy in RAYS.get(kind, ()):
        n = max(abs(dx), abs(dy))
        if n and (dx, dy) == (ux * n, uy * n): return (-ux, -uy) if c else (ux, uy)
    return None

class BB:
    __slots__ = ('m', 'rest')
    def __init__(self, m, rest=None): self.m = m; self.rest = rest
    def __repr__(self): return 'BB(%s|%s)' % (','.join('%s:%r' % x for x in sorted(self.m.items())), self.rest)
class CB:
    """constant bitboard"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return 'CB(%x)' % self.v
class Half:
    __slots__ = ('b', 'part', 'inv')
    def __init__(self, b, part, inv=False): self.b = b; self.part = part; self.inv = inv
ALL = (1 << 81) - 1
def halves(p0, p1): return (p0 & ((1 << 63) - 1)) | ((p1 & ((1 << 18) - 1)) << 63)

class Focus(Interp):
    def __init__(self, m, hooks=(), fuel=400000):
        self.E = {k: dict(v) for k, v in m['enums'].items()}
        super().__init__(m, self.posget, list(hooks) + self.leaf(), fuel)
        self.P = {x['name']: x['off'] // 8 for x in m['records']['Position']['members']}
        self.S = {x['name']: x['off'] // 8 for x in m['records']['StateInfo']['members']}
        self.gbb = {}
        self.rel = None                     # scenario's answer for unrelated squares
        self.init_globals()
    # ---- scenario ---------------------------------------------------------------------------------
    def scenario(self, squares, contents, us, hand=None, king=None, check=None, extra=None):
        """squares: name -> (base, dx, dy); contents: name -> list of (kind, colour) | None for an empty square"""
        self.sq = squares; self.con = contents; self.us = us
        sizes = {}; bases = {}
        for n, (b, dx, dy) in squares.items(): bases.setdefault(b, []).append((dx, dy))
        dom = {}
        for b, ds in bases.items():
            sizes[b + 'x'] = sizes[b + 'y'] = 9
            dom[b + 'x'] = tuple(x for x in range(9) if all(0 <= x + dx < 9 for dx, _ in ds))
            dom[b + 'y'] = tuple(y for y in range(9) if all(0 <= y + dy < 9 for _, dy in ds))
            if not dom[b + 'x'] or not dom[b + 'y']: return None
        for n, c in contents.items():
            if len(c) > 1: sizes['c' + n] = len(c); dom['c' + n] = tuple(range(len(c)))
        for f, k in (extra or {}).items(): sizes[f] = k; dom[f] = tuple(range(k))
        for k in range(8): sizes['u%d' % k] = 2; dom['u%d' % k] = (0, 1)
        sizes['zx'] = sizes['zy'] = 9; dom['zx'] = dom['zy'] = tuple(range(9))
        st = State(sizes, dom); st.strs = dict(self.initstrs); st.maps = self.initmaps
        self.loc = {n: add(add(fld(b + 'x', 9, 9), fld(b + 'y', 9)), K(9 * dx + dy)) for n, (b, dx, dy) in squares.items()}
        pos = {}; P = self.P; PT, CO = self.E['PieceType'], self.E['Color']
        def view(pred): return BB({n: self.tabc(n, lambda c: int(pred(c))) for n in squares})
        for k in KINDS: pos[P['byTypeBB_'] + 16 * PT[k]] = (view(lambda c: c is not None and c[0] == k), 16)
        occ = view(lambda c: c is not None); occ.rest = 'occ'; pos[P['byTypeBB_'] + 16 * PT['Occupied']] = (occ, 16)
        for c in (0, 1): pos[P['byColorBB_'] + 16 * c] = (view(lambda x: x is not None and x[1] == c), 16); pos[P['byColorBB_'] + 16 * c][0].rest = 'colour%d' % c
        pos[P['goldsBB_']] = (view(lambda c: c is not None and c[0] in GOLDS), 16)
        for c in (0, 1):
            k = (king or {}).get(c)
            if k: pos[P['kingSquare_'] + 4 * c] = (self.loc[k], 4)
            if hand and hand.get(c) is not None: pos[P['hand_'] + 4 * c] = (hand[c], 4)
        pos[P['turn_']] = (K(us), 4)
        pos[P['st_']] = (Ptr(('st',), K(0)), 8)
        st.mem[('posm',)] = pos
        st.mem[('st',)] = {self.S['checkersBB']: (BB({n: check.get(n, K(0)) if check else K(0) for n in squares}, '0'), 16)}
        st.mem[('unk',)] = {}
        return st
    def tabc(self, n, f):
        c = self.con[n]
        return K(f(c[0])) if len(c) == 1 else tab('c' + n, [f(x) for x in c])
    def piecev(self, c):
        return self.E['Piece']['Empty'] if c is None else self.E['Piece'][('BW'[c[1]]) + c[0]]
    def handone(self, kind):
        """one piece of this kind in a hand word"""
        v = self.run('x_hand', [K(self.E['HandPiece']['H' + kind])], State({}))[0][0]
        return v.c
    def unknown(self, st, key):
        """a fresh yes/no, the same for the same question"""
        u = st.mem[('unk',)]
        if key not in u:
            if len(u) >= 8: raise Undecided('too many open questions')
            u[key] = (fld('u%d' % len(u), 2), 0)
        return u[key][0]
    def posget(self, it, st, off, sz):
        cells = st.mem[('posm',)]
        if not off.p:
            r = self.cell(st, cells, off.c, sz)
            if r is not None: return r
        b = self.P['piece_']
        lo, hi = st.range(off)
        if sz == 4 and b <= hi and lo < b + 324:
            q, r = self.split(st, add(off, K(-b)), 4)
            if q == TOP: return TOP
            n = self.resolve(st, q)
            w = st.mem.get(('pcs',), {}).get(n)
            if w is not None: return w[0]
            if n is None: return self.binop(st, 'mul', self.unknown(st, ('piece', repr(q))), K(self.E['Piece']['BPawn']), 32)     # nothing, or something
            return self.tabc(n, self.piecev)
        if off.p and sz in (4, 16):               # an array of the position indexed by something that varies: one case at a time
            f, t = off.p[0]
            if len(st.dom[f]) <= 30: raise ForkField(f, {i: t[i] for i in st.dom[f]})
        return TOP
    def resolve(self, st, v):
        if not isinstance(v, V): raise Undecided('square unknown')
        v = st.norm(v)
        for n, l in self.loc.items():
            if n in self.gone: continue
            if st.norm(add(v, l, -1)) == K(0): return n
        for n, l in self.loc.items():
            d = st.norm(add(v, l, -1))
            if not d.p: continue
            lo, hi = st.range(d)
            if lo > 0 or hi < 0: continue
            fv = {f for f, _ in v.p}; b = self.sq[n][0]
            if fv & {b + 'x', b + 'y'}: raise Undecided('square relation unknown')
            if not fv and not any(all(len(st.dom[self.sq[o][0] + c]) == 1 for c in 'xy') for o in self.sq): raise Undecided('constant square')
            # different bases: unrelated by the scenario
        return None
    gone = frozenset()
    assume_clear = False                    # lines without a flag of their own hold no untracked piece
    # ---- bitboards ---------------------------------------------------------------------------------
    def init_globals(self):
        self.loc = {}; self.sq = {}; self.con = {}
        st = State({})
        order = []
        for n in sorted(self.F, key=lambda n: ('bitboard' not in n, n)):
            if n.startswith('_GLOBAL__sub_I'):
                for b in self.F[n].get('blocks', ()):
                    for i in b:
                        if i['op'] == 'call' and i['callee'].get('n', '').startswith('__cxx_global_var_init'): order.append(i['callee']['n'])
        for n in order:
            s = st.copy()
            try: outs = self.run(n, [], s)
            except (Undecided, ForkField, AttributeError, TypeError, KeyError, RecursionError): continue
            if len(outs) == 1: st = outs[0][1]
        for o, cells in st.mem.items():
            if o[0] == 'g':
                d = {k: v[0] for k, v in cells.items() if isinstance(v[0], CB)}
                if d: self.gbb[o[1]] = d
        self.initmem = {o: c for o, c in st.mem.items() if o[0] == 'g'}; self.initstrs = st.strs; self.initmaps = st.maps
    def getbb(self, st, p):
        if not isinstance(p, Ptr) or p.off == TOP: raise Undecided('bitboard at unknown address')
        off = st.norm(p.off)
        if p.o[0] == 'pos': v = self.posget(self, st, off, 16)
        elif p.o[0] == 'g' and p.o[1] in self.gbb and p.o not in st.mem:
            t = self.gbb[p.o[1]]
            if self.loc and len(t) == 81 and all(bin(x.v).count('1') == 1 for x in t.values()): return self.rowbb(st, off, t)
            if not off.p:
                v = t.get(off.c)
                if v is None: raise Undecided('constant bitboard')
            else: return self.rowbb(st, off, t)
        else:
            if off.p:
                if len(off.p) == 1 and len(st.dom[off.p[0][0]]) <= 30: self.forkon(st, off)
                raise Undecided('bitboard at varying address')
            cells = st.mem.get(p.o, {})
            c = cells.get(off.c)
            if c is None or c[1] != 16:
                a, b = cells.get(off.c), cells.get(off.c + 8)
                if a and b and isinstance(a[0], V) and isinstance(b[0], V):
                    a, b = st.norm(a[0]), st.norm(b[0])
                    if not a.p and not b.p: return CB(halves(a.c, b.c))
                if a and b and isinstance(a[0], Half) and isinstance(b[0], Half): return self.join(st, a[0], b[0])
                if p.o[0] == 'g' and self.G.get(p.o[1], {}).get('zero') and p.o not in st.mem and not self.loc: return CB(0)
                raise Undecided('bitboard not set')
            v = c[0]
        if not isinstance(v, (BB, CB)): raise Undecided('not a bitboard')
        return v
    def rowbb(self, st, off, t):
        """row of a constant table at a varying index"""
        one = all(bin(x.v).count('1') == 1 for x in t.values())
        if one and len(t) == 81:
            q, r = self.split(st, off, 16)
            n = self.resolve(st, q)
            return BB({k: K(int(k == n)) for k in self.sq}, '0' if n else 'other')
        m = {}
        # evaluated when asked for: off and the squares need not be related
        for n in self.sq: m[n] = lambda s0, n=n: self.over(s0, [off, self.loc[n]], lambda o, s: t[o].v >> s & 1)
        return BB(m)
    def over(self, st, vs, fn):
        """fn of several values as a value of one field; forks when it depends on more"""
        vs = [st.norm(v) for v in vs]
        fs = sorted({f for v in vs for f, _ in v.p})
        if not fs: return K(int(fn(*[v.c for v in vs])))
        n = 1
        for f in fs: n *= len(st.dom[f])
        if n > 7000: raise Undecided('table depends on too much')
        T = [dict(v.p) for v in vs]; res = {}
        try:
            for combo in itertools.product(*[st.dom[f] for f in fs]):
                a = dict(zip(fs, combo))
                res[combo] = int(fn(*[v.c + sum(t[f][a[f]] for f in t) for v, t in zip(vs, T)]))
        except (KeyError, IndexError): raise Undecided('table index')
        vals = set(res.values())
        if len(vals) == 1: return K(vals.pop())
        for k, f in enumerate(fs):
            by = {}
            for c, r in res.items(): by.setdefault(c[k], set()).add(r)
            if all(len(x) == 1 for x in by.values()):
                d = st.dom[f][0]
                return tab(f, [min(by.get(i, by[d])) for i in range(st.sizes[f])])
        # group the values of the field that needs fewest groups
        best = None
        for k, f in enumerate(fs):
            col = {}
            for c, r in sorted(res.items()): col.setdefault(c[k], []).append(r)
            gid = {}; g = {i: gid.setdefault(tuple(v), len(gid)) for i, v in col.items()}
            if len(gid) > 1 and (best is None or len(gid) < best[0]): best = (len(gid), f, g)
        raise ForkField(best[1], best[2])
    def mem(self, st, b, n):
        if isinstance(b, BB):
            v = b.m[n]
            return v(st) if callable(v) else st.norm(v)
        if b.v == 0: return K(0)
        if b.v == ALL: return K(1)
        return self.over(st, [self.loc[n]], lambda s: b.v >> s & 1)
    def rest(self, b):
        if isinstance(b, BB): return b.rest
        return '0' if b.v == 0 else '1' if b.v == ALL else None
    def pw(self, st, op, *bs):
        f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'andn': lambda x, y: x & ~y, 'not': lambda x: ~x}[op]
        if all(isinstance(b, CB) for b in bs): return CB(f(*[b.v for b in bs]) & ALL)
        m = {}
        for n in self.sq:
            if op in ('and', 'andn') and any(isinstance(b, BB) and callable(b.m[n]) for b in bs):
                k = [(None if isinstance(b, BB) and callable(b.m[n]) else self.mem(st, b, n)) for b in bs]
                if k[0] == K(0) or k[1] == K(0 if op == 'and' else 1): m[n] = K(0); continue
                if op == 'and' and K(1) in k: m[n] = bs[1 - k.index(K(1))].m[n]; continue
            m[n] = self.bool2(st, op, f, *[self.mem(st, b, n) for b in bs])
        r = [self.rest(b) for b in bs]
        if op == 'not': r = {'0': '1', '1': '0', 'occ': 'empty', 'empty': 'occ'}.get(r[0])
        else:
            if op == 'andn': r[1] = {'0': '1', '1': '0', 'occ': 'empty', 'empty': 'occ'}.get(r[1])
            x, y = r
            if op in ('and', 'andn'): r = '0' if '0' in r else y if x == '1' else x if y == '1' else x if x == y else None
            elif op == 'or': r = '1' if '1' in r else 'occ' if set(r) == {'colour0', 'colour1'} else y if x == '0' else x if y == '0' else x if x == y else None
            else: r = y if x == '0' else x if y == '0' else {'0': '1', '1': '0', 'occ': 'empty', 'empty': 'occ'}.get(y) if x == '1' else {'0': '1', '1': '0', 'occ': 'empty', 'empty': 'occ'}.get(x) if y == '1' else None
        return BB(m, r)
    def bool2(self, st, op, f, *vs):
        r = self.point(st, lambda *a: f(*a) & 1, *vs)
        if r != TOP: return r
        a, b = vs
        if op in ('and', 'andn'):
            for x, y, z in ((a, b, 0), (b, a, 0 if op == 'and' else 1)):
                if not x.p and x.c == z: return K(0)
        if op == 'or':
            for x in vs:
                if not x.p and x.c == 1: return K(1)
        self.forkon(st, min(vs, key=lambda v: min(len(st.dom[f]) for f, _ in v.p)))
    def forkon(self, st, v):
        v = st.norm(v); f, t = v.p[0]
        raise ForkField(f, {i: t[i] for i in st.dom[f]})
    def inpart(self, st, b, part):
        """[(name, value)] of members, restricted to a half when part is given"""
        out = []
        for n in self.sq:
            v = self.mem(st, b, n)
            if not v.p and v.c == 0: continue
            if part is not None:
                w = self.over(st, [self.loc[n]], lambda s: int((s > 62) == bool(part)))
                if not w.p and w.c == 0: continue
                v = self.bool2(st, 'and', lambda x, y: x & y, v, w)
            out.append((n, v))
        return out
    def any(self, st, b, part=None):
        if isinstance(b, CB) and not self.loc: return K(int(bool((b.v if part is None else (b.v >> 63 if part else b.v & (1 << 63) - 1)))))
        r = K(0)
        for n, v in self.inpart(st, b, part):
            r = self.bool2(st, 'or', lambda x, y: x | y, r, v)
        return r
    def first(self, st, b, part):
        if isinstance(b, CB) and not self.loc:
            v = b.v if part is None else (b.v >> 63 << 63 if part else b.v & (1 << 63) - 1)
            k = (v & -v).bit_length() - 1
            return K(k), CB(b.v & ~(1 << k))
        for n, v in self.inpart(st, b, part):
            if v.p: self.forkon(st, v)
            m = {x: self.mem(st, b, x) for x in self.sq}; m[n] = K(0)
            return self.loc[n], BB(m, self.rest(b))
        if self.rest(b) == '0': raise Undecided('first member of an empty set')
        return add(fld('zx', 9, 9), fld('zy', 9)), b            # some untracked square
    def shift(self, st, b, k):
        """members X with X - k in b, within the same half word"""
        if isinstance(b, CB):
            h = [(b.v & (1 << 63) - 1), b.v >> 63]
            h = [(x << k if k > 0 else x >> -k) for x in h]
            return CB(halves(*h))
        m = {}
        for n in self.sq:
            src = st.norm(add(self.loc[n], K(-k)))
            y = self.resolve(st, src)
            if y is None: m[n] = K(0); continue
            # crossing the boundary between the words loses the bit
            ok = self.over(st, [self.loc[n]], lambda s: int((s > 62) == (s - k > 62)))
            m[n] = self.bool2(st, 'and', lambda a, c: a & c, self.mem(st, b, y), ok)
        return BB(m)
    def attack(self, st, kind, c, s, occ=None):
        """squares a piece of this kind reaches from s"""
        n = self.resolve(st, s)
        if n is None: return BB({x: (self.rel(st, kind, c, None, x) if self.rel else K(0)) for x in self.sq})
        return BB({x: self.att1(st, kind, c, n, x, occ) for x in self.sq}, None)
    def att1(self, st, kind, c, n, x, occ):
        if n == x: return K(0)
        (b, ax, ay), (b2, bx, by) = self.sq[n], self.sq[x]
        if b != b2:
            if self.rel is None: return K(0)
            return self.rel(st, kind, c, n, x)
        r = reach(kind, c, bx - ax, by - ay)
        if r is None: return K(0)
        if r == 'step' or occ == '0': return K(1)
        d = max(abs(bx - ax), abs(by - ay))
        v = K(1); known = 0
        for y, (b3, cx, cy) in self.sq.items():
            if b3 != b: continue
            for k in range(1, d):
                if (cx, cy) == (ax + r[0] * k, ay + r[1] * k):
                    known += 1
                    v = self.bool2(st, 'andn', lambda p, q: p & ~q, v, self.mem(st, occ, y))
        if known < d - 1:
            rr = self.rest(occ)
            if rr == '1': return K(0)
            if rr == 'occ':
                key = 'clr' + ''.join(sorted((n, x)))
                if key not in st.sizes:
                    if self.assume_clear: return v
                    raise Undecided('line not in the scenario')
                v = self.bool2(st, 'and', lambda p, q: p & q, v, fld(key, 2))
            elif rr != '0': raise Undecided('slider over an unknown occupancy')
        return v
    def between(self, st, s, t):
        a, b = self.resolve(st, s), self.resolve(st, t)
        if a is None or b is None or self.sq[a][0] != self.sq[b][0]:
            if self.rel: return BB({x: self.rel(st, 'between', None, (a, b), x) for x in self.sq})
            raise Undecided('between unrelated squares')
        (g, ax, ay), (_, bx, by) = self.sq[a], self.sq[b]
        r = reach('Horse', 0, bx - ax, by - ay) if abs(bx - ax) == abs(by - ay) else reach('Dragon', 0, bx - ax, by - ay)
        m = {}
        for x, (g2, cx, cy) in self.sq.items():
            on = 0
            d = max(abs(bx - ax), abs(by - ay))
            if d > 1 and (ax == bx or ay == by or abs(ax - bx) == abs(ay - by)) and g2 == g:
                ux, uy = (bx - ax) // d, (by - ay) // d
                on = int(any((cx, cy) == (ax + ux * k, ay + uy * k) for k in range(1, d)))
            if g2 != g and self.rel: m[x] = self.rel(st, 'between', None, (a, b), x)
            else: m[x] = K(on)
        return BB(m)
    # ---- hooks -------------------------------------------------------------------------------------
    def put(self, st, p, b): self.store(st, p, b, 16)
    def leaf(self):
        H = []
        def hook(rx): return lambda f: H.append((rx, f))
        def cst(st, v, what):
            v = st.norm(v)
            if v.p: self.forkon(st, v)
            return v.c
        @hook(r'^(Bitboard )?(pawn|knight|silver|gold)Attack\(Color, Square\)')
        def _(it, st, dem, a):
            k = re.search(r'(pawn|knight|silver|gold)Attack', dem).group(1).capitalize()
            it.put(st, a[0], it.attack(st, k, cst(st, a[1], 'colour'), a[2])); return K(0)
        @hook(r'^(Bitboard )?kingAttack\(Square\)')
        def _(it, st, dem, a): it.put(st, a[0], it.attack(st, 'King', 0, a[1])); return K(0)
        @hook(r'^(Bitboard )?lanceAttack\(Color, Square')
        def _(it, st, dem, a): it.put(st, a[0], it.attack(st, 'Lance', cst(st, a[1], 'colour'), a[2], it.getbb(st, a[3]))); return K(0)
        @hook(r'^(Bitboard )?(rook|bishop|horse|dragon)Attack\(Square, Bitboard')
        def _(it, st, dem, a):
            k = re.search(r'(rook|bishop|horse|dragon)Attack', dem).group(1).capitalize()
            it.put(st, a[0], it.attack(st, k, 0, a[1], it.getbb(st, a[2]))); return K(0)
        @hook(r'^(Bitboard )?(rook|bishop|horse|dragon)AttackToEdge\(')
        def _(it, st, dem, a):
            k = re.search(r'(rook|bishop|horse|dragon)Attack', dem).group(1).capitalize()
            it.put(st, a[0], it.attack(st, k, 0, a[1], '0')); return K(0)
        @hook(r'^(Bitboard )?rookAttack(File|Rank)\(Square, Bitboard')
        def _(it, st, dem, a):
            w = re.search(r'rookAttack(File|Rank)', dem).group(1)
            b = it.attack(st, 'Rook', 0, a[1], it.getbb(st, a[2])); n = it.resolve(st, a[1])
            for x in it.sq:
                if n is not None and it.sq[x][0] == it.sq[n][0] and (it.sq[x][1 if w == 'File' else 2] != it.sq[n][1 if w == 'File' else 2]): b.m[x] = K(0)
            it.put(st, a[0], b); return K(0)
        @hook(r'^(Bitboard )?lanceAttackToEdge\(')
        def _(it, st, dem, a): it.put(st, a[0], it.attack(st, 'Lance', cst(st, a[1], 'colour'), a[2], '0')); return K(0)
        @hook(r'^(Bitboard )?betweenBB\(')
        def _(it, st, dem, a): it.put(st, a[0], it.between(st, a[1], a[2])); return K(0)
        @hook(r'^(Direction )?squareRelation\(')
        def _(it, st, dem, a):
            x, y = it.resolve(st, a[0]), it.resolve(st, a[1]); D = it.E['Direction']
            if x is None or y is None or it.sq[x][0] != it.sq[y][0]:
                if it.rel: return it.rel(st, 'relation', None, (x, y), None)
                raise Undecided('relation of unrelated squares')
            dx, dy = it.sq[x][1] - it.sq[y][1], it.sq[x][2] - it.sq[y][2]
            return K(D['DirecMisc'] if not (dx or dy) else D['DirecFile'] if dx == 0 else D['DirecRank'] if dy == 0 else D['DirecDiagNESW'] if dx == dy else D['DirecDiagNWSE'] if dx == -dy else D['DirecMisc'])
        @hook(r'^Bitboard::Bitboard\(Bitboard const&\)|^Bitboard::operator=\(')
        def _(it, st, dem, a): it.put(st, a[0], it.getbb(st, a[1])); return a[0]
        @hook(r'^Bitboard::Bitboard\(\)')
        def _(it, st, dem, a): return K(0)
        @hook(r'^Bitboard::Bitboard\(unsigned long, unsigned long\)')
        def _(it, st, dem, a):
            if isinstance(a[1], Half) and isinstance(a[2], Half): it.put(st, a[0], it.join(st, a[1], a[2])); return K(0)
            if not isinstance(a[1], V) or not isinstance(a[2], V): raise Undecided('bitboard of unknown words')
            x, y = st.norm(a[1]), st.norm(a[2])
            if x.p or y.p: raise Undecided('bitboard of varying words')
            it.put(st, a[0], CB(halves(x.c, y.c))); return K(0)
        OPS = {'&': 'and', '|': 'or', '^': 'xor'}
        @hook(r'^Bitboard::operator[&|^]=?\(')
        def _(it, st, dem, a):
            o = re.match(r'Bitboard::operator([&|^])(=?)', dem)
            r = it.pw(st, OPS[o.group(1)], it.getbb(st, a[1]), it.getbb(st, a[2]))
            if o.group(2): it.put(st, a[1], r)
            it.put(st, a[0], r); return K(0)
        @hook(r'^Bitboard::operator~')
        def _(it, st, dem, a): it.put(st, a[0], it.pw(st, 'not', it.getbb(st, a[1]))); return K(0)
        @hook(r'^Bitboard::andEqualNot')
        def _(it, st, dem, a):
            r = it.pw(st, 'andn', it.getbb(st, a[1]), it.getbb(st, a[2])); it.put(st, a[1], r); it.put(st, a[0], r); return K(0)
        @hook(r'^Bitboard::notThisAnd')
        def _(it, st, dem, a): it.put(st, a[0], it.pw(st, 'andn', it.getbb(st, a[2]), it.getbb(st, a[1]))); return K(0)
        @hook(r'^Bitboard::operator(<<|>>)=?\(')
        def _(it, st, dem, a):
            o = re.match(r'Bitboard::operator(<<|>>)(=?)', dem); k = cst(st, a[2], 'shift')
            r = it.shift(st, it.getbb(st, a[1]), k if o.group(1) == '<<' else -k)
            if o.group(2): it.put(st, a[1], r)
            it.put(st, a[0], r); return K(0)
        @hook(r'^Bitboard::(operator bool|isAny)\(')
        def _(it, st, dem, a): return it.any(st, it.getbb(st, a[0]))
        @hook(r'^Bitboard::andIsAny\(')
        def _(it, st, dem, a): return it.any(st, it.pw(st, 'and', it.getbb(st, a[0]), it.getbb(st, a[1])))
        @hook(r'^Bitboard::isSet\(')
        def _(it, st, dem, a):
            b = it.getbb(st, a[0])
            n = it.resolve(st, a[1])
            if n: return it.mem(st, b, n)
            if isinstance(b, CB): return it.over(st, [a[1]], lambda s: b.v >> s & 1)
            if b.rest in ('0', '1'): return K(int(b.rest))
            return it.unknown(st, ('set', repr(b), repr(st.norm(a[1]))))
        @hook(r'^Bitboard::(setBit|clearBit|xorBit)\(Square\)')
        def _(it, st, dem, a):
            b = it.getbb(st, a[0]); n = it.resolve(st, a[1]); o = re.search(r'(setBit|clearBit|xorBit)', dem).group(1)
            v = BB({x: K(int(x == n)) for x in it.sq}, '0') if it.loc else CB(1 << cst(st, a[1], 'square'))
            it.put(st, a[0], it.pw(st, {'setBit': 'or', 'clearBit': 'andn', 'xorBit': 'xor'}[o], b, v)); return K(0)
        @hook(r'^Bitboard::xorBit\(Square, Square\)')
        def _(it, st, dem, a):
            b = it.getbb(st, a[0]); ns = [it.resolve(st, x) for x in a[1:3]]
            it.put(st, a[0], it.pw(st, 'xor', b, BB({x: K(int(x in ns)) for x in it.sq}, '0'))); return K(0)
        @hook(r'^Bitboard::(const[Ff]|f)irstOne\w*\(')
        def _(it, st, dem, a):
            b = it.getbb(st, a[0])
            v, r = it.first(st, b, 0 if 'Right' in dem else 1 if 'Left' in dem else None)
            if 'const' not in dem.split('(')[0]: it.put(st, a[0], r)
            return v
        @hook(r'^Bitboard::p\(int\)')
        def _(it, st, dem, a):
            k = cst(st, a[1], 'half'); b = it.getbb(st, a[0])
            if isinstance(b, CB): return K(b.v >> 63 if k else b.v & (1 << 63) - 1)
            return Half(b, k)
        @hook(r'^Bitboard::set\(int, unsigned long\)')
        def _(it, st, dem, a):
            k = cst(st, a[1], 'half'); b = it.getbb(st, a[0]); h = a[2]
            other = Half(b, 1 - k)
            if isinstance(h, V) and not st.norm(h).p: h = Half(CB(halves(st.norm(h).c, 0) if not k else halves(0, st.norm(h).c)), k)
            if not isinstance(h, Half): raise Undecided('half of a bitboard')
            it.put(st, a[0], it.join(st, h, other) if k == 0 else it.join(st, other, h)); return K(0)
        @hook(r'^Bitboard::merge\(')
        def _(it, st, dem, a): return Half(it.getbb(st, a[0]), None)
        @hook(r'^(int )?Bitboard::popCount')
        def _(it, st, dem, a):
            r = K(0)
            for n, v in it.inpart(st, it.getbb(st, a[0]), None): r = add(r, v)
            return r
        @hook(r'^(bool )?Bitboard::isOneBit')
        def _(it, st, dem, a):
            r = K(0)
            for n, v in it.inpart(st, it.getbb(st, a[0]), None):
                if v.p: it.forkon(st, v)
                r = add(r, v)
            return K(int(r.c == 1))
        return H
    def join(self, st, h0, h1):
        """bitboard of two words"""
        m = {}
        for n in self.sq:
            w = self.over(st, [self.loc[n]], lambda s: int(s > 62))
            if w.p: self.forkon(st, w)
            h = h1 if w.c else h0
            v = self.mem(st, h.b, n)
            m[n] = self.bool2(st, 'not', lambda x: 1 - x, v) if h.inv else v
        return BB(m, self.rest(h0.b) if not h0.inv and self.rest(h0.b) == self.rest(h1.b) else None)
    def binop(self, st, op, a, b, w):
        if isinstance(a, Half) or isinstance(b, Half):
            if op == 'xor':
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Half) and isinstance(y, V) and not st.norm(y).p and st.norm(y).c % (1 << 64) == (1 << 64) - 1: return Half(x.b, x.part, not x.inv)
            if op in ('and', 'or', 'xor'):
                hs = []
                part = a.part if isinstance(a, Half) else b.part
                for x in (a, b):
                    if isinstance(x, V) and not st.norm(x).p and part is not None:
                        c = st.norm(x).c
                        x = Half(CB(halves(c, 0) if not part else halves(0, c)), part)
                    if not isinstance(x, Half): return TOP
                    hs.append(x)
                if hs[0].part == hs[1].part:
                    bs = [self.pw(st, 'not', h.b) if h.inv else h.b for h in hs]
                    return Half(self.pw(st, op, *bs), hs[0].part)
            return TOP
        return super().binop(st, op, a, b, w)
    def compare(self, st, pred, a, b, w):
        if isinstance(a, Half) and isinstance(b, V) and st.norm(b) == K(0) and pred in ('eq', 'ne', 'ugt') and not a.inv:
            r = self.any(st, a.b, a.part)
            return r if pred != 'eq' else self.binop(st, 'xor', r, K(1), 1)
        if isinstance(a, (Half, BB, CB)) or isinstance(b, (Half, BB, CB)): return TOP
        if pred in ('eq', 'ne') and isinstance(a, V) and isinstance(b, V) and self.loc:
            fs = {f for v in (st.norm(a), st.norm(b)) for f, _ in v.p}
            bs = {q[0] for q in self.sq.values()} | {'z'}
            if fs and all(f[:-1] in bs and f[-1] in 'xy' for f in fs) and len({f[:-1] for f in fs}) > 1:
                d = dict(add(st.norm(a), st.norm(b), -1).p)         # squares of different bases are unrelated by the scenario
                if all(abs(t[j] - t[i]) == (j - i) * (9 if f[-1] == 'x' else 1) for f, t in d.items() for i, j in zip(st.dom[f], st.dom[f][1:])): return K(int(pred == 'ne'))
            elif fs and all(f[:-1] in bs and f[-1] in 'xy' for f in fs):                             # one of them at a known place
                na, nb = ({n for n, l in self.loc.items() if st.norm(l) == st.norm(v)} for v in (a, b))
                if na and nb and not {self.sq[n][0] for n in na} & {self.sq[n][0] for n in nb}: return K(int(pred == 'ne'))
        r = super().compare(st, pred, a, b, w)
        if r == TOP and isinstance(a, V) and isinstance(b, V):
            fs = sorted({f for v in (st.norm(a), st.norm(b)) for f, _ in v.p}, key=lambda f: (len(st.dom[f]), f))
            n = 1
            for f in fs: n *= len(st.dom[f])
            if fs and n <= 300: raise ForkField(fs[0], {i: i for i in st.dom[fs[0]]})
        return r
    def store(self, st, p, v, sz):
        if isinstance(p, Ptr) and p.o == ('pos',) and p.off != TOP:
            off = st.norm(p.off); b = self.P['piece_']; lo, hi = st.range(off)
            if sz == 4 and b <= lo and hi < b + 324:
                q, r = self.split(st, add(off, K(-b)), 4)
                n = None if q == TOP else self.resolve(st, q)
                if n is None: raise Undecided('piece stored on an untracked square')
                st.mem.setdefault(('pcs',), {})[n] = (v, 4); return K(0)
            if off.p: self.forkon(st, off)
            return super().store(st, Ptr(('posm',), off), v, sz)
        return super().store(st, p, v, sz)
    def load(self, st, p, sz, isptr=False):
        if isinstance(p, Ptr) and p.off != TOP and sz == 16:
            try: return self.getbb(st, p)
            except Undecided: return TOP
        return super().load(st, p, sz, isptr)
