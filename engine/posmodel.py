"""Abstract Position: three named squares F (from), T (to), Z (any other square, all its 29 contents at once)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from absint import *
import fold

class Model:
    def __init__(self, mod):
        self.m = mod
        r = mod['records']
        self.P = self.fields(r, 'Position')
        self.S = self.fields(r, 'StateInfo')
        self.CI = self.fields(r, 'CheckInfo')
        en = mod['enums']
        self.E = {}
        for e in ('Piece', 'PieceType', 'Color', 'HandPiece', 'Square', 'File', 'Rank'):
            if e not in en: raise Unsupported('enum %s not found' % e)
            for n, v in en[e]: self.E.setdefault(n, v)
        self.pt = ['Occupied', 'Pawn', 'Lance', 'Knight', 'Silver', 'Bishop', 'Rook', 'Gold', 'King', 'ProPawn', 'ProLance', 'ProKnight', 'ProSilver', 'Horse', 'Dragon']
        self.PT = {n: self.E[n] for n in self.pt}
        self.contents = [('Empty', None)] + [(n, c) for c in (0, 1) for n in self.pt[1:]]
        self.GOLDS = {'Gold', 'ProPawn', 'ProLance', 'ProKnight', 'ProSilver'}
        self.PROMO = {'Pawn': 'ProPawn', 'Lance': 'ProLance', 'Knight': 'ProKnight', 'Silver': 'ProSilver', 'Bishop': 'Horse', 'Rook': 'Dragon'}
        self.RAW = dict({v: k for k, v in self.PROMO.items()}, **{k: k for k in self.pt[1:9]})
        self.HANDS = ['Pawn', 'Lance', 'Knight', 'Silver', 'Gold', 'Bishop', 'Rook']
        self.HP = {n: self.E['H' + n] for n in self.HANDS}
        self.gconst = fold.fold(mod)
        self.gname = {}
        for n, g in mod['globals'].items():
            self.gname.setdefault(g.get('dem', n).split(' (')[0], n)
        bo, bs = self.P['byTypeBB_']
        self.bbsize = 16

    def fields(self, recs, name):
        v = recs.get(name)
        if not v: raise Unsupported('record %s not found' % name)
        return {f['name']: (f['off'] // 8, f['bits'] // 8) for f in v['members'] if f.get('name')}

    def piece_val(self, name, c):
        if name == 'Empty': return self.E['Empty']
        return self.E[('B' if c == 0 else 'W') + name]

    # what the views of the position say at a square with the given contents (sets of cases)
    def view_bits(self, field, idx, cases):
        """cases: list of (ptname, color) -> (ones, zeros) masks"""
        ones = 0
        for i, (n, c) in enumerate(cases):
            if field == 'byTypeBB_': on = (n != 'Empty') if idx == self.PT['Occupied'] else (n != 'Empty' and self.PT[n] == idx)
            elif field == 'byColorBB_': on = c == idx
            else: on = n in self.GOLDS
            if on: ones |= 1 << i
        return ones

    def interp(self, squares, ncases):
        it = Interp(self.m, squares, ncases)
        it.gconst = dict(self.gconst)
        for s in squares:
            it.ranges[s] = (0, 80); it.regions[s] = frozenset(range(81))
        for i, a in enumerate(squares):
            for b in squares[i + 1:]: it.distinct.add(frozenset((a, b)))
        self.opaque_attacks(it)
        return it

    def opaque_attacks(self, it):
        import re
        rx = re.compile(r'^(lance|rook|bishop|horse|dragon|queen|silver|gold|knight|pawn|king)Attack')
        def h(it, args, st, ins, dem):
            def desc(a):
                if isinstance(a, Ptr): return it.mem_load(st, a, 16, '<2 x i64>').key()
                return a.key()
            if not isinstance(args[0], Ptr): return None
            it.mem_store(st, args[0], 16, it.bbtop(('att', dem.split('(')[0]) + tuple(desc(a) for a in args[1:])))
            return [(None, st)]
        it.hook_dem.append((lambda d: bool(rx.match(d)), h))

    def state_init(self, tag, prev=None):
        S = self.S
        def f(key, size, ty):
            off, idx = key
            if idx: return None
            for n, (o, sz) in S.items():
                if o <= off < o + sz:
                    if n == 'previous': return Ptr(prev) if prev else Top(('prev', tag))
                    if n == 'checkersBB': return None if size != 16 else BB({}, ('ck', tag))
                    if n == 'continuousCheck': return Lin(32, 0, [('cc%d.%s' % ((off - o) // 4, tag), 1)]) if size == 4 else None
                    if n == 'boardKey': return Lin(64, 0, [('BK.' + tag, 1)]) if size == 8 else None
                    if n == 'handKey': return Lin(64, 0, [('HK.' + tag, 1)]) if size == 8 else None
                    if n == 'pliesFromNull': return Lin(32, 0, [('pfn.' + tag, 1)]) if size == 4 else None
                    if n == 'hand': return Lin(32, 0, [('sthand.' + tag, 1)]) if size == 4 else None
            return None
        return f

    def pos_init(self, it, cases, us, st='st0', ksq=None):
        """cases: square -> list of contents (one per case); returns the init callback for object 'pos'"""
        P = self.P
        def bb(field, idx):
            bits = {}
            for s in it.squares:
                ones = self.view_bits(field, idx, cases[s])
                bits[s] = (ones, it.ALL & ~ones)
            return BB(bits, ('view', field, idx))
        def f(key, size, ty):
            off, idx = key
            for n, (o, sz) in P.items():
                if not (o <= off < o + sz): continue
                r = off - o
                if n in ('byTypeBB_', 'byColorBB_', 'goldsBB_'):
                    if idx: return None
                    b = bb(n, r // 16)
                    if size == 16 and r % 16 == 0: return b
                    if size == 8: return Part(b, (r % 16) // 8)
                    return None
                if n == 'piece_':
                    if r == 0 and len(idx) == 1 and idx[0][1] == 4 and idx[0][0] in it.squares and size == 4:
                        c = cases[idx[0][0]]
                        vals = {self.piece_val(*x) for x in c}
                        if len(vals) == 1: return C(vals.pop(), 32)
                        return Lin(32, 0, [('piece@' + idx[0][0], 1)])
                    return None
                if n == 'turn_' and size == 4 and not idx: return C(us, 32)
                if n == 'hand_' and size == 4 and not idx: return self.hand(it, r // 4)
                if n == 'kingSquare_' and size == 4 and not idx:
                    k = (ksq or {}).get(r // 4)
                    return Lin(32, 0, [(k or 'ksq%d' % (r // 4), 1)])
                if n == 'st_' and size == 8 and not idx: return Ptr(st)
                if n == 'gamePly_' and size == 4 and not idx: return Lin(32, 0, [('ply', 1)])
            return None
        return f

    def hand(self, it, c, k=0):
        u = getattr(self, 'unit', None)
        if not u: return Lin(32, k, [('hand%d' % c, 1)])
        top = {'Pawn': 18, 'Lance': 4, 'Knight': 4, 'Silver': 4, 'Gold': 4, 'Bishop': 2, 'Rook': 2}
        ts = []
        for n in self.HANDS:
            a = 'n%d%s' % (c, n); it.ranges[a] = (0, top[n]); ts.append((a, u[self.HP[n]]))
        return Lin(32, k, ts)

    def layout_state(self):
        S = self.S
        out = []
        for n, (o, sz) in S.items():
            if n == 'continuousCheck': out += [(o, 4, 'i32'), (o + 4, 4, 'i32')]
            elif n == 'checkersBB': out.append((o, 16, '<2 x i64>'))
            elif n == 'previous': out.append((o, 8, 'ptr'))
            else: out.append((o, sz, 'i%d' % (sz * 8)))
        return out

    # reading back
    def rd(self, it, st, obj, rec, field, i=0, size=None, ty=None):
        o, sz = rec[field]
        size = size or sz
        return it.mem_load(st, Ptr(obj, o + i * size, ()), size, ty or 'i%d' % (8 * size))

    def zob(self, name, pt_or_hp, sq, c):
        """expected atom for a key-table entry"""
        g = self.gname.get(name)
        if g is None: raise Unsupported('table %s not found' % name)
        if sq is None: return ('ld', '@' + g, pt_or_hp * 16 + c * 8, ())
        return ('ld', '@' + g, pt_or_hp * 81 * 16 + c * 8, ((sq, 16),))
