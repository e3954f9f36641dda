"""Positions seen through numbers: how many pieces of each kind and colour stand on each part of the board.

A bitboard of the position is the set of (part of the board, content) classes it contains, exactly; constant bitboards cut the
board into parts (refined on demand).  popCount is the sum of the classes' counts, conditions on sums are kept as linear
path conditions and never enumerated on the way.
"""
from focus import *

class Refine(Exception):
    def __init__(self, mask): self.mask = mask
class SB:
    __slots__ = ('s', 'chk')
    def __init__(self, s, chk=False): self.s = frozenset(s); self.chk = chk
LIMIT = {'Pawn': 18, 'Lance': 4, 'Knight': 4, 'Silver': 4, 'Gold': 4, 'Bishop': 2, 'Rook': 2, 'King': 2}
class Count(Focus):
    def __init__(self, m, fuel=200000):
        super().__init__(m, self.mine(), fuel)
        self.atoms = [sum(1 << (9 * x + y) for x in range(9)) for y in range(9)]
        self.atoms = [a for y in range(9) for a in [sum(1 << (9 * x + y) for x in range(9))]]
    def mine(self):
        H = []
        def hook(rx): return lambda f: H.append((rx, f))
        @hook(r'^Bitboard::(operator bool|isAny)\(')
        def _(it, st, dem, a): return it.some(st, it.getbb(st, a[0]))
        @hook(r'^Bitboard::andIsAny\(')
        def _(it, st, dem, a): return it.some(st, it.pw(st, 'and', it.getbb(st, a[0]), it.getbb(st, a[1])))
        @hook(r'^(int )?Bitboard::popCount')
        def _(it, st, dem, a): return it.number(st, it.getbb(st, a[0]))
        @hook(r'^Bitboard::isSet\(')
        def _(it, st, dem, a):
            b = it.getbb(st, a[0])
            if isinstance(b, CB): return it.over(st, [a[1]], lambda s: b.v >> s & 1)
            raise Undecided('single square')
        @hook(r'^Bitboard::(merge|p|set|firstOne\w*|constFirstOne\w*|isOneBit\w*|setBit|clearBit|xorBit)\b')
        def _(it, st, dem, a): raise Undecided(dem)
        return H
    def classes(self, us):
        """position with the side to move us; own king somewhere"""
        sizes = {'kx': 9, 'ky': 9, 'chk': 2}; self.us = us
        self.field = {}
        for i, a in enumerate(self.atoms):
            for c in (0, 1):
                for k in KINDS:
                    if k == 'King' and c == us: continue
                    f = 'n%d.%s.%d' % (i, k, c); self.field[(i, k, c)] = f
                    sizes[f] = min(bin(a).count('1'), 1 if k == 'King' else LIMIT[RAW.get(k, k)]) + 1
        for c in (0, 1):
            for k in HAND: sizes['h%s.%d' % (k, c)] = LIMIT[k] + 1
        sizes['ex'] = sizes['ey'] = 9
        st = State(sizes); P = self.P; PT = self.E['PieceType']; pos = {}
        def view(pred): return SB((i, k, c) for i in range(len(self.atoms)) for c in (0, 1) for k in KINDS if pred(k, c))
        for k in KINDS: pos[P['byTypeBB_'] + 16 * PT[k]] = (view(lambda x, c: x == k), 16)
        pos[P['byTypeBB_'] + 16 * PT['Occupied']] = (view(lambda x, c: True), 16)
        for c in (0, 1): pos[P['byColorBB_'] + 16 * c] = (view(lambda x, d: d == c), 16)
        pos[P['goldsBB_']] = (view(lambda x, c: x in GOLDS), 16)
        pos[P['kingSquare_'] + 4 * us] = (add(fld('kx', 9, 9), fld('ky', 9)), 4)
        pos[P['kingSquare_'] + 4 * (1 - us)] = (add(fld('ex', 9, 9), fld('ey', 9)), 4)
        pos[P['turn_']] = (K(us), 4); pos[P['st_']] = (Ptr(('st',), K(0)), 8)
        for c in (0, 1):
            v = K(0)
            for k in HAND: v = add(v, fld('h%s.%d' % (k, c), LIMIT[k] + 1, self.handone(k)))
            pos[P['hand_'] + 4 * c] = (v, 4)
        st.mem[('posm',)] = pos
        st.mem[('st',)] = {self.S['checkersBB']: (SB((), True), 16)}
        st.mem[('cond',)] = {}; st.mem[('unk',)] = {}
        return st
    def sb(self, b):
        if isinstance(b, SB): return b
        s = set()
        for i, a in enumerate(self.atoms):
            if b.v & a == a: s |= {(i, k, c) for k in KINDS + [None] for c in (0, 1)}
            elif b.v & a: raise Refine(b.v)
        return SB(s)
    def pw(self, st, op, *bs):
        if all(isinstance(b, CB) for b in bs): return super().pw(st, op, *bs)
        bs = [self.sb(b) for b in bs]
        if any(b.chk for b in bs): raise Undecided('set of checkers')
        x = bs[0].s
        if op == 'not': return SB({(i, k, c) for i in range(len(self.atoms)) for k in KINDS + [None] for c in (0, 1)} - x)
        y = bs[1].s
        return SB({'and': x & y, 'or': x | y, 'xor': x ^ y, 'andn': x - y}[op])
    def number(self, st, b):
        if isinstance(b, CB): return K(bin(b.v).count('1'))
        if b.chk: raise Undecided('number of checkers')
        r = K(0); empty = {(i) for i, k, c in b.s if k is None}
        if empty: raise Undecided('empty squares counted')
        kings = [i for i, k, c in b.s if k == 'King' and c == self.us]
        for q in sorted(b.s, key=str):
            if q in self.field: f = self.field[q]; r = add(r, fld(f, st.sizes[f]))
        if kings:
            m = 0
            for i in kings: m |= self.atoms[i]
            r = add(r, self.over(st, [add(fld('kx', 9, 9), fld('ky', 9))], lambda s: m >> s & 1))
        return r
    def some(self, st, b):
        if isinstance(b, SB) and b.chk: return fld('chk', 2)
        return self.compare(st, 'sgt', self.number(st, b), K(0), 32)
    def getbb(self, st, p):
        if isinstance(p, Ptr) and p.off != TOP and p.o[0] != 'pos':
            off = st.norm(p.off); c = st.mem.get(p.o, {}).get(off.c) if not off.p else None
            if c and c[1] == 16 and isinstance(c[0], SB): return c[0]
        if isinstance(p, Ptr) and p.o[0] == 'pos' and p.off != TOP:
            off = st.norm(p.off)
            if not off.p:
                c = st.mem[('posm',)].get(off.c)
                if c and c[1] == 16: return c[0]
        return super().getbb(st, p)
    def fork(self, st, cond):
        if isinstance(cond, Cmp):
            d = st.norm(cond.d)
            if len(d.p) > 1:
                out = []
                for tv in (True, False):
                    s = st.copy(); s.mem[('cond',)][len(s.mem[('cond',)])] = (cond.pred if tv else self.NEG[cond.pred], d); out.append((tv, s))
                return out
        return super().fork(st, cond)
    def binop(self, st, op, a, b, w):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Cmp) and isinstance(y, V) and not st.norm(y).p:
                c = st.norm(y).c & 1
                if op == 'xor': return Cmp(self.NEG[x.pred], x.d) if c else x
                if op == 'and': return x if c else K(0)
                if op == 'or': return K(1) if c else x
        return super().binop(st, op, a, b, w)
    def explore(self, fn, us, args):
        for _ in range(20):
            st = self.classes(us)
            try: return self.run(fn, args, st)
            except Refine as r:
                self.atoms = [z for a in self.atoms for z in (a & r.mask, a & ~r.mask) if z]
        raise Undecided('partition')
