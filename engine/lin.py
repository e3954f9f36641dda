"""Abstract interpreter over the JSON IR with a relational value domain:

  value  =  constant + sum over fields of a finite map of that field

where a field is a symbolic finite quantity (a file, a rank, a kind of piece, ...).  Path conditions over one field
restrict that field's domain, conditions on a difference of two fields become difference bounds; nothing else is
enumerated, so no tuple of inputs is ever evaluated.  Arithmetic is exact or gives Top (undecided).
Strings are lists of such values; std::map and std::unordered_map are finite tables filled by the static initialisers.
"""
import re, itertools, sys
sys.setrecursionlimit(20000)

class Undecided(Exception): pass

class V:
    __slots__ = ('c', 'p')
    def __init__(self, c, p=()):
        self.c = c; self.p = p              # p: sorted tuple of (field, tuple of values), value at index 0 is 0
    def __repr__(self): return '%d%s' % (self.c, ''.join(' + %s%s' % (f, list(t) if not affine(t) else '*%d' % affine(t)) for f, t in self.p))
    def __eq__(self, o): return isinstance(o, V) and self.c == o.c and self.p == o.p
    def __hash__(self): return hash((self.c, self.p))
TOP = 'TOP'
class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.o, self.off)
class Cmp:
    """an undecided comparison of two fields' sum, kept for refinement"""
    __slots__ = ('pred', 'd')
    def __init__(self, pred, d): self.pred = pred; self.d = d

def affine(t):
    if len(t) < 2: return 0
    k = t[1] - t[0]
    return k if k and all(t[i] == k * i for i in range(len(t))) else 0
def K(c): return V(c)
def fld(f, n, scale=1, off=0): return V(off, ((f, tuple(scale * i for i in range(n))),)) if n > 1 else V(off)
def tab(f, values):
    c = values[0]; t = tuple(v - c for v in values)
    return V(c, ((f, t),)) if any(t) else V(c)
def add(a, b, s=1):
    d = dict(a.p)
    for f, t in b.p:
        if f in d: d[f] = tuple(x + s * y for x, y in zip(d[f], t))
        else: d[f] = tuple(s * y for y in t)
    return V(a.c + s * b.c, tuple(sorted((f, t) for f, t in d.items() if any(t))))
def scale(a, k): return V(a.c * k, tuple((f, tuple(x * k for x in t)) for f, t in a.p) if k else ())

class State:
    def __init__(self, sizes, dom=None, zones=None):
        self.sizes = sizes; self.dom = dom or {f: tuple(range(n)) for f, n in sizes.items()}
        self.zones = dict(zones or {}); self.mem = {}; self.strs = {}; self.maps = {}; self.approx = False; self.n = 0
    def copy(self):
        s = State.__new__(State); s.sizes = self.sizes; s.dom = dict(self.dom); s.zones = dict(self.zones)
        s.mem = {k: dict(v) for k, v in self.mem.items()}; s.strs = dict(self.strs); s.maps = self.maps; s.approx = self.approx; s.n = self.n
        return s
    def norm(self, v):
        """parts restricted to the live domain; fields that no longer vary folded in"""
        c = v.c; out = []
        for f, t in v.p:
            d = self.dom[f]
            if all(t[i] == t[d[0]] for i in d): c += t[d[0]]
            else: out.append((f, t))
        return V(c, tuple(out))
    def parts(self, v):
        """(constant, [(field, {index: value}) with minimum 0])"""
        v = self.norm(v); c = v.c; out = []
        for f, t in v.p:
            d = {i: t[i] for i in self.dom[f]}; m = min(d.values()); c += m
            out.append((f, {i: x - m for i, x in d.items()}))
        return c, out
    def range(self, v):
        v = self.norm(v); lo = hi = v.c; p = dict(v.p)
        for (f, g), (a, b) in self.zones.items():
            if f in p and g in p:
                k = affine(p[f])
                if k and affine(p[g]) == -k:
                    lo += min(k * a, k * b); hi += max(k * a, k * b); del p[f], p[g]
        for f, t in p.items():
            x = [t[i] for i in self.dom[f]]; lo += min(x); hi += max(x)
        return lo, hi
    def bounds(self, v):
        """ranges with and without the difference bounds"""
        return self.range(v)

class Interp:
    def __init__(self, m, posload=None, hooks=(), fuel=400000):
        self.m = m; self.F = m['fns']; self.G = m['globals']; self.posload = posload; self.hooks = [(re.compile(a), b) for a, b in hooks]; self.fuel0 = fuel
        self.base = None
        self.called = set()
    # ---- domain operations -------------------------------------------------
    def point(self, st, fn, *ops):
        """exact pointwise operation when the operands vary in one field only"""
        ops = [st.norm(o) for o in ops]
        fs = {f for o in ops for f, _ in o.p}
        if len(fs) > 1: return TOP
        if not fs: return K(int(fn(*[o.c for o in ops])))
        f = fs.pop(); d = st.dom[f]; vals = {}
        for i in d: vals[i] = int(fn(*[o.c + (o.p[0][1][i] if o.p else 0) for o in ops]))
        fill = vals[d[0]]
        return tab(f, [vals.get(i, fill) for i in range(st.sizes[f])])
    def uns(self, st, v, w):
        """the value as an unsigned number"""
        lo, hi = st.range(v); M = 1 << w
        if 0 <= lo and hi < M: return v
        k = lo // M
        if hi // M == k: return V(v.c - k * M, v.p)
        r = self.point(st, lambda x: x % M, v)
        return r if r != TOP else self.split(st, v, M)[1]
    def sgn(self, st, v, w):
        lo, hi = st.range(v); M = 1 << w; H = M >> 1
        if -H <= lo and hi < H: return v
        k = (lo + H) // M
        if (hi + H) // M == k: return V(v.c - k * M, v.p)
        r = self.point(st, lambda x: (x + H) % M - H, v)
        if r != TOP: return r
        r = self.split(st, V(v.c + H, v.p), M)[1]
        return TOP if r == TOP else V(r.c - H, r.p)
    def split(self, st, v, m):
        """(quotient, remainder) by the positive constant m, floor division"""
        lo, hi = st.range(v)
        if lo // m == hi // m: return K(lo // m), V(v.c - lo // m * m, v.p)
        c, ps = st.parts(v)
        for variant in (0, 1):
            # variant 0: every part is shifted to minimum 0; variant 1: parts keep their own values
            r = V(c % m); q = V(c // m)
            for f, d in ps:
                n = st.sizes[f]; d0 = min(d)
                vals = [d.get(i, d[d0]) for i in range(n)]
                if variant == 1:
                    t = dict(st.norm(v).p)[f]; vals = [t[i] if i in d else t[d0] for i in range(n)]
                r = add(r, tab(f, [x % m for x in vals])); q = add(q, tab(f, [x // m for x in vals]))
            if variant == 1:
                nv = st.norm(v); r = add(r, K(nv.c % m - c % m)); q = add(q, K(nv.c // m - c // m))
            a, b = st.range(r)
            if a // m == b // m:
                k = a // m
                return add(q, K(k)), add(r, K(-k * m))
        q = self.point(st, lambda x: x // m, v)
        if q != TOP: return q, self.point(st, lambda x: x % m, v)
        return TOP, TOP
    def masks(self, st, v):
        """over-approximation of the bits a non-negative value can have, or None"""
        c, ps = st.parts(v)
        if c < 0: return None
        items = [(c, c, c)] if c else []
        for f, d in ps:
            m = 0
            for x in d.values(): m |= x
            items.append((m, max(d.values()), 0))
        items.sort(key=lambda x: x[0] & -x[0])
        done = []
        for m, hi, lo in items:
            while True:
                k = next((j for j, x in enumerate(done) if x[0] & m), None)
                if k is None: break
                m2, h2 = done.pop(k); hi += h2
                low = min(m & -m, m2 & -m2); m = ((1 << hi.bit_length()) - 1) & ~(low - 1)
            done.append((m, hi))
        r = 0
        for m, _ in done: r |= m
        return r
    def bitand(self, st, v, mask, w):
        v = self.uns(st, v, w)
        if v == TOP: return TOP
        r = self.point(st, lambda x: x & mask, v)
        if r != TOP: return r
        out = K(0); b = 0
        while mask >> b:
            if not (mask >> b) & 1: b += 1; continue
            e = b
            while (mask >> e) & 1: e += 1
            q, _ = self.split(st, v, 1 << b)
            if q == TOP: return TOP
            _, x = self.split(st, q, 1 << (e - b))
            if x == TOP: return TOP
            out = add(out, scale(x, 1 << b)); b = e
        return out
    def binop(self, st, op, a, b, w):
        M = 1 << w
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.off != TOP and b.off != TOP: return st.norm(add(a.off, b.off, -1))
            return TOP
        if a == TOP or b == TOP:
            for x, y in ((a, b), (b, a)):
                if isinstance(y, V) and not st.norm(y).p:
                    c = st.norm(y).c
                    if c == 0 and op in ('and', 'mul'): return K(0)
            return TOP
        if isinstance(a, Cmp) or isinstance(b, Cmp): return TOP
        a, b = st.norm(a), st.norm(b)
        if op == 'add': return self.wrap(st, add(a, b), w)
        if op == 'sub': return self.wrap(st, add(a, b, -1), w)
        if op == 'mul':
            if not b.p: return self.wrap(st, scale(a, b.c), w)
            if not a.p: return self.wrap(st, scale(b, a.c), w)
            return self.point(st, lambda x, y: x * y, a, b)
        if op == 'shl':
            if not b.p: return self.wrap(st, scale(a, 1 << b.c), w)
            return self.point(st, lambda x, y: (x << y) % M, a, b)
        if op in ('lshr', 'ashr'):
            a = self.uns(st, a, w) if op == 'lshr' else self.sgn(st, a, w)
            if a == TOP: return TOP
            if not b.p: return self.split(st, a, 1 << b.c)[0]
            return self.point(st, lambda x, y: x >> y, a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 's':
                a = self.sgn(st, a, w); b = self.sgn(st, b, w)
                if a == TOP or b == TOP: return TOP
                if st.range(a)[0] < 0:
                    return self.point(st, (lambda x, y: int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)) if op == 'sdiv' else (lambda x, y: (abs(x) % abs(y)) * (1 if x >= 0 else -1)), a, b)
            else: a = self.uns(st, a, w)
            if a == TOP: return TOP
            if b.p or b.c <= 0: return TOP
            return self.split(st, a, b.c)[0 if op[1:] == 'div' else 1]
        if op in ('and', 'or', 'xor'):
            if w == 1:
                f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
                for x, y in ((a, b), (b, a)):
                    if not x.p:
                        if op == 'and': return K(0) if x.c == 0 else y
                        if op == 'or': return K(1) if x.c else y
                return self.point(st, f, a, b)
            if op == 'xor':
                for x, y in ((a, b), (b, a)):
                    if not x.p and x.c % M == M - 1: return self.wrap(st, add(K(-1), y, -1), w)
            a, b = self.uns(st, a, w), self.uns(st, b, w)
            if a == TOP or b == TOP: return TOP
            if op == 'and':
                if not b.p: return self.bitand(st, a, b.c, w)
                if not a.p: return self.bitand(st, b, a.c, w)
                return self.point(st, lambda x, y: x & y, a, b)
            r = self.point(st, (lambda x, y: x | y) if op == 'or' else (lambda x, y: x ^ y), a, b)
            if r != TOP: return r
            ma, mb = self.masks(st, a), self.masks(st, b)
            if ma is not None and mb is not None and not ma & mb: return add(a, b)
            # constant operand overlapping: clear then add
            for x, y in ((a, b), (b, a)):
                if not y.p and op == 'or':
                    z = self.bitand(st, x, ~y.c % M, w)
                    if z != TOP: return add(z, y)
            return TOP
        return TOP
    def wrap(self, st, v, w):
        if v == TOP: return v
        lo, hi = st.range(v); M = 1 << w
        if -(M >> 1) <= lo and hi < M: return v
        k = lo // M
        if hi // M == k: return V(v.c - k * M, v.p)
        u = self.uns(st, v, w)
        return u
    def compare(self, st, pred, a, b, w):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                return self.compare(st, pred, a.off, b.off, 64) if a.off != TOP and b.off != TOP else TOP
            if pred in ('eq', 'ne'): return K(int(pred == 'ne'))
            return TOP
        if a == TOP or b == TOP or isinstance(a, Cmp) or isinstance(b, Cmp): return TOP
        n = self.sgn if pred[0] == 's' else self.uns
        a, b = n(st, a, w), n(st, b, w)
        if a == TOP or b == TOP: return TOP
        p = pred if pred in ('eq', 'ne') else pred[1:]
        fn = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y, 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y}[p]
        r = self.point(st, fn, a, b)
        if r != TOP: return r
        d = st.norm(add(a, b, -1)); lo, hi = st.range(d)
        if p in ('eq', 'ne'):
            if lo > 0 or hi < 0: return K(int(p == 'ne'))
            if lo == hi == 0: return K(int(p == 'eq'))
            if (lo == 0 or hi == 0) and self.corner(st, d, lo == 0): return K(int(p == 'ne'))
        else:
            x, y = fn(lo, 0), fn(hi, 0)
            if x == y: return K(int(x))
        if not d.p: return K(int(fn(d.c, 0)))
        return Cmp(p, d)
    def corner(self, st, d, low):
        """the only assignment that makes d extreme contradicts the difference bounds"""
        a = {}; tot = st.norm(d).c
        for f, t in st.norm(d).p:
            x = {i: t[i] for i in st.dom[f]}; m = (min if low else max)(x.values()); best = [i for i in x if x[i] == m]; tot += m
            if len(best) == 1: a[f] = best[0]
        return tot == 0 and any(f in a and g in a and not lo <= a[f] - a[g] <= hi for (f, g), (lo, hi) in st.zones.items())
    NEG = {'eq': 'ne', 'ne': 'eq', 'gt': 'le', 'le': 'gt', 'lt': 'ge', 'ge': 'lt'}
    def fork(self, st, cond):
        """[(truth, state)] for a branch condition"""
        if isinstance(cond, V):
            cond = st.norm(cond)
            if not cond.p: return [(bool(cond.c & 1), st)]
            if len(cond.p) == 1:
                f, t = cond.p[0]; out = []
                for tv in (True, False):
                    d = tuple(i for i in st.dom[f] if bool((cond.c + t[i]) & 1) == tv)
                    if d:
                        s = st.copy(); s.dom[f] = d; out.append((tv, s))
                return out
        if isinstance(cond, Cmp):
            d = st.norm(cond.d)
            if not d.p or len(d.p) == 1 or len(d.p) > 2 and not st.zones:
                fn = {'eq': lambda x: x == 0, 'ne': lambda x: x != 0, 'gt': lambda x: x > 0, 'ge': lambda x: x >= 0, 'lt': lambda x: x < 0, 'le': lambda x: x <= 0}[cond.pred]
                if not d.p: return [(bool(fn(d.c)), st)]
                lo, hi = st.range(d)
                if cond.pred in ('gt', 'ge', 'lt', 'le') and bool(fn(lo)) == bool(fn(hi)): return [(bool(fn(lo)), st)]
                if cond.pred in ('eq', 'ne') and not lo <= 0 <= hi: return [(cond.pred == 'ne', st)]
                n = 1
                for f, _ in d.p: n *= len(st.dom[f])
                if n <= 4096:
                    f = min(d.p, key=lambda x: len(st.dom[x[0]]))[0]; out = []
                    for i in st.dom[f]:
                        s = st.copy(); s.dom[f] = (i,); out += self.fork(s, cond)
                    return out
            if len(d.p) == 2:
                (f, tf), (g, tg) = d.p; k = affine(tf)
                if k and affine(tg) == -k:
                    out = []
                    lo, hi = st.zones.get((f, g), (None, None))
                    if lo is None:
                        F, Gd = st.dom[f], st.dom[g]; lo, hi = min(F) - max(Gd), max(F) - min(Gd)
                    fn = {'eq': lambda x: x == 0, 'ne': lambda x: x != 0, 'gt': lambda x: x > 0, 'ge': lambda x: x >= 0, 'lt': lambda x: x < 0, 'le': lambda x: x <= 0}
                    for tv in (True, False):
                        h = fn[cond.pred if tv else self.NEG[cond.pred]]
                        ok = [z for z in range(lo, hi + 1) if h(d.c + k * z)]
                        runs = []
                        for z in ok:
                            if runs and z == runs[-1][1] + 1: runs[-1][1] = z
                            else: runs.append([z, z])
                        for a, b in runs:
                            s = st.copy(); s.zones[(f, g)] = (a, b); s.zones[(g, f)] = (-b, -a); out.append((tv, s))
                    return out
                if not any(z in st.zones for z in ((f, g), (g, f))):
                    # exact: group the values of one field by what they require of the other
                    fn = {'eq': lambda x: x == 0, 'ne': lambda x: x != 0, 'gt': lambda x: x > 0, 'ge': lambda x: x >= 0, 'lt': lambda x: x < 0, 'le': lambda x: x <= 0}[cond.pred]
                    best = None
                    for (a, ta), (b, tb) in (((f, tf), (g, tg)), ((g, tg), (f, tf))):
                        gr = {}
                        for i in st.dom[a]: gr.setdefault(tuple(j for j in st.dom[b] if fn(d.c + ta[i] + tb[j])), []).append(i)
                        if best is None or len(gr) < len(best[2]): best = (a, b, gr)
                    a, b, gr = best
                    if len(gr) <= 12:
                        out = []
                        for js, ix in gr.items():
                            for tv, jj in ((True, js), (False, tuple(j for j in st.dom[b] if j not in js))):
                                if jj:
                                    s = st.copy(); s.dom[a] = tuple(ix); s.dom[b] = jj; out.append((tv, s))
                        return out
        a, b = st.copy(), st.copy(); a.approx = b.approx = True
        return [(True, a), (False, b)]
    # ---- memory ------------------------------------------------------------
    def gbytes(self, name):
        g = self.G.get(name)
        if not g: return None
        if g.get('const') or name in self.rodata:
            if g.get('zero'): return bytes(g['size'])
            if 'init' in g: return bytes.fromhex(g['init'])
        if name in self.folded: return self.folded[name]
        return None
    rodata = frozenset()
    folded = {}
    def load(self, st, p, sz, isptr=False):
        if not isinstance(p, Ptr) or p.off == TOP: return TOP
        off = st.norm(p.off)
        k = p.o[0]
        if k == 'pos' and self.posload:
            return self.posload(self, st, off, sz)
        if k == 'strdata':
            L = st.strs.get(p.o[1])
            if L is None or off.p: return TOP
            if off.c == len(L): return K(0)
            if 0 <= off.c < len(L) and sz == 1: return L[off.c]
            return TOP
        if k == 'mapval':
            return p.o[2] if sz in (4,) else TOP
        if not off.p:
            cells = st.mem.get(p.o)
            if cells is not None:
                r = self.cell(st, cells, off.c, sz)
                if r is not None: return r
                if p.o[0] != 'g': return TOP
        if k == 'g':
            b = self.gbytes(p.o[1])
            if b is None: return TOP
            if isptr: return TOP
            get = lambda o: int.from_bytes(b[o:o + sz], 'little') if 0 <= o and o + sz <= len(b) else None
            if not off.p:
                v = get(off.c)
                return TOP if v is None else K(v)
            return self.additive(st, off, get)
        return TOP
    def additive(self, st, off, get):
        """a constant table read at a sum of fields, when it decomposes into a sum of per-field maps"""
        fs = [f for f, _ in off.p]; T = dict(off.p)
        n = 1
        for f in fs: n *= len(st.dom[f])
        if n > 20000: return TOP
        base = {f: st.dom[f][0] for f in fs}
        at = lambda a: get(off.c + sum(T[f][a[f]] for f in fs))
        v0 = at(base)
        if v0 is None: return TOP
        out = K(v0); tabs = {}
        for f in fs:
            vals = {}
            for i in st.dom[f]:
                x = at(dict(base, **{f: i}))
                if x is None: return TOP
                vals[i] = x - v0
            tabs[f] = vals
            out = add(out, tab(f, [vals.get(i, vals[st.dom[f][0]]) for i in range(st.sizes[f])]))
        if len(fs) > 1:
            for combo in itertools.product(*[st.dom[f] for f in fs]):
                a = dict(zip(fs, combo))
                if at(a) != v0 + sum(tabs[f][a[f]] for f in fs): return TOP
        return out
    def cell(self, st, cells, off, sz):
        if off in cells and cells[off][1] == sz: return cells[off][0]
        for o, (v, s) in cells.items():
            if o <= off and off + sz <= o + s and isinstance(v, V):
                q = self.binop(st, 'lshr', v, K(8 * (off - o)), s * 8)
                return TOP if q == TOP else self.bitand(st, q, (1 << (8 * sz)) - 1, s * 8)
        out = K(0); o = off
        while o < off + sz:
            if o not in cells or o + cells[o][1] > off + sz or not isinstance(cells[o][0], V): return None
            v = self.uns(st, cells[o][0], cells[o][1] * 8)
            if v == TOP: return TOP
            out = add(out, scale(v, 1 << (8 * (o - off)))); o += cells[o][1]
        return out
    def store(self, st, p, v, sz):
        if not isinstance(p, Ptr) or p.off == TOP or st.norm(p.off).p:
            st.mem.clear(); st.approx = True; return
        if p.o[0] == 'mapslot':
            st.maps.setdefault(p.o[1], {})[p.o[2]] = v; return
        off = st.norm(p.off).c; cells = st.mem.setdefault(p.o, {})
        for o in [o for o, (_, s) in cells.items() if o < off + sz and off < o + s]:
            x, s = cells.pop(o)
            if isinstance(x, V):                       # keep the bytes that are not overwritten
                for lo, hi in ((o, min(off, o + s)), (max(off + sz, o), o + s)):
                    if lo < hi:
                        y = self.cell(st, {o: (x, s)}, lo, hi - lo)
                        cells[lo] = (y if y is not None else TOP, hi - lo)
        cells[off] = (v, sz)
    def memcpy(self, st, d, s, n):
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)) or st.norm(d.off).p: raise Undecided('memcpy')
        so = st.norm(s.off); do = st.norm(d.off).c
        src = st.mem.get(s.o)
        if src is not None and not so.p:
            for o, (v, z) in list(src.items()):
                if so.c <= o and o + z <= so.c + n: self.store(st, Ptr(d.o, K(do + o - so.c)), v, z)
            return
        for k in range(n):
            self.store(st, Ptr(d.o, K(do + k)), self.load(st, Ptr(s.o, add(so, K(k))), 1), 1)
    # ---- strings -----------------------------------------------------------
    def skey(self, st, p):
        """[(key, state)]: the string object a pointer refers to; forks on a varying index"""
        off = st.norm(p.off)
        if not off.p: return [((p.o, off.c), st)]
        if len(off.p) > 1: raise Undecided('string table indexed by several fields')
        f, t = off.p[0]
        return None
    def getstr(self, st, p):
        """list of characters of the string object at p; a varying table index is folded into the characters"""
        if p.o[0] == 'strdata': raise Undecided('string')
        off = st.norm(p.off)
        if not off.p:
            L = st.strs.get((p.o, off.c))
            if L is None: raise Undecided('unknown string %r' % (p,))
            return L
        if len(off.p) > 1: raise Undecided('string table indexed by several fields')
        f, t = off.p[0]; rows = {}
        for i in st.dom[f]:
            L = st.strs.get((p.o, off.c + t[i]))
            if L is None: raise Undecided('unknown string %r' % (p,))
            rows[i] = L
        n = {len(r) for r in rows.values()}
        if len(n) > 1: raise ForkField(f, {i: len(r) for i, r in rows.items()})
        out = []
        for k in range(n.pop()):
            vals = {}
            for i, r in rows.items():
                x = st.norm(r[k])
                if x.p: raise Undecided('string')
                vals[i] = x.c
            d = st.dom[f]
            out.append(tab(f, [vals.get(i, vals[d[0]]) for i in range(st.sizes[f])]))
        return out
    def cstr(self, st, p, n=None):
        if not isinstance(p, Ptr): raise Undecided('string from unknown pointer')
        out = []
        for k in range(200):
            if n is not None and k >= n: return out
            v = self.load(st, Ptr(p.o, add(p.off, K(k))), 1)
            if v == TOP: raise Undecided('unknown character')
            if n is None:
                lo, hi = st.range(v)
                if lo == hi == 0: return out
                if lo <= 0 <= hi: raise Undecided('terminator depends on input')
            out.append(v)
        raise Undecided('unterminated')
    # ---- execution ---------------------------------------------------------
    def run(self, name, args, st):
        """[(value, state)] over all paths"""
        self.fuel = self.fuel0
        return list(self.call(name, args, st, 0))
    def operand(self, st, env, o):
        k = o['k']
        if k == 'c': return K(int(o['v']))
        if k == 'v': return env.get(o['id'], TOP)
        if k == 'null': return K(0)
        if k == 'zero': return K(0)
        if k == 'g': return Ptr(('g', o['n']), K(0))
        if k == 'cgep':
            b = self.operand(st, env, o['g']['base'])
            if isinstance(b, Ptr) and not o['g']['idx']: return Ptr(b.o, add(b.off, K(o['g']['off'])))
            return TOP
        if k == 'undef': return K(0)
        return TOP
    def width(self, i):
        m = re.match(r'i(\d+)$', i['t']); return int(m.group(1)) if m else 64
    def call(self, name, args, st, depth):
        f = self.F.get(name)
        if not f or not f.get('blocks'): raise Undecided('call of %s' % (f or {}).get('dem', name))
        if depth > 40: raise Undecided('recursion')
        self.called.add(name)
        env = {a['id']: v for a, v in zip(f['args'], args)}
        work = [(0, None, env, st, 0)]
        while work:
            bi, prev, env, st, pos = work.pop()
            blk = f['blocks'][bi]
            if pos == 0:
                new = {}
                for i in blk:
                    if i['op'] != 'phi': break
                    for b, o in i['in']:
                        if b == prev: new[i['id']] = self.operand(st, env, o); break
                if new: env = dict(env); env.update(new)
            k = pos
            while k < len(blk):
                i = blk[k]; op = i['op']; k += 1
                if op == 'phi' : continue
                self.fuel -= 1
                if self.fuel < 0: raise Undecided('too many steps')
                if op == 'ret':
                    yield (self.operand(st, env, i['ops'][0]) if i['ops'] else None), st
                    break
                if op == 'br':
                    if 'cond' not in i: work.append((i['succ'][0], bi, env, st, 0)); break
                    fk = self.fork(st, self.operand(st, env, i['cond']))
                    for tv, s in fk: work.append((i['succ'][0 if tv else 1], bi, dict(env) if len(fk) > 1 else env, s, 0))
                    break
                if op == 'switch':
                    v = self.operand(st, env, i['cond'])
                    rest = [st]
                    for cv, dst in i['cases']:
                        nr = []
                        for s in rest:
                            c = self.compare(s, 'eq', v, K(int(cv)), 64) if v != TOP else TOP
                            for tv, s2 in self.fork(s, c):
                                if tv: work.append((dst, bi, dict(env), s2, 0))
                                else: nr.append(s2)
                        rest = nr
                    for s in rest: work.append((i['def'], bi, dict(env), s, 0))
                    break
                if op in ('unreachable', 'resume'): self.dead(st, op, blk); break
                if op == 'select':
                    c = self.operand(st, env, i['ops'][0])
                    fk = self.fork(st, c)
                    if len(fk) == 1:
                        env[i['id']] = self.operand(st, env, i['ops'][1 if fk[0][0] else 2]); st = fk[0][1]; continue
                    a, b = self.operand(st, env, i['ops'][1]), self.operand(st, env, i['ops'][2])
                    if isinstance(c, V) and isinstance(a, V) and isinstance(b, V):
                        r = self.point(st, lambda z, x, y: x if z & 1 else y, c, a, b)
                        if r != TOP: env[i['id']] = r; continue
                    for tv, s in fk:
                        e = dict(env); e[i['id']] = a if tv else b; work.append((bi, prev, e, s, k))
                    break
                if op in ('call', 'invoke'):
                    done = False
                    try:
                        res = self.docall(st, env, i, depth)
                    except ForkField as ff:
                        for g in sorted(set(ff.groups.values())):
                            s = st.copy(); s.dom[ff.field] = tuple(x for x in st.dom[ff.field] if ff.groups.get(x) == g)
                            work.append((bi, prev, dict(env), s, k - 1))
                        break
                    if isinstance(res, list):
                        for v, s in res:
                            e = dict(env); e[i['id']] = v
                            if op == 'invoke': work.append((i['succ'][0], bi, e, s, 0))
                            else: work.append((bi, prev, e, s, k))
                        break
                    env[i['id']] = res
                    if op == 'invoke': work.append((i['succ'][0], bi, env, st, 0)); break
                    continue
                try:
                    env[i['id']] = self.ins(st, env, i, depth) if op != 'store' else self.store(st, self.operand(st, env, i['ops'][1]), self.operand(st, env, i['ops'][0]), i['sz'])
                except ForkField as ff:
                    for g in sorted(set(ff.groups.values())):
                        s = st.copy(); s.dom[ff.field] = tuple(x for x in st.dom[ff.field] if ff.groups.get(x) == g)
                        work.append((bi, prev, dict(env), s, k - 1))
                    break
    def dead(self, st, op, blk): pass
    def ins(self, st, env, i, depth):
        op = i['op']
        if op == 'alloca':
            st.n += 1; return Ptr(('alloca', st.n), K(0))
        if op in ('gep', 'getelementptr'):
            b = self.operand(st, env, i['base'])
            if not isinstance(b, Ptr) or b.off == TOP: return TOP
            off = add(b.off, K(i.get('off', 0)))
            for o, s in [(x[0], x[1]) if isinstance(x, (list, tuple)) else (x['v'], x['s']) for x in i.get('idx', ())]:
                v = self.operand(st, env, o)
                if not isinstance(v, V): return Ptr(b.o, TOP)
                v = self.sgn(st, v, 64)
                if v == TOP: return Ptr(b.o, TOP)
                off = add(off, scale(v, int(s)))
            return Ptr(b.o, off)
        if op == 'load':
            return self.load(st, self.operand(st, env, i['ops'][0]), i['sz'], i['t'] == 'ptr')
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.operand(st, env, i['ops'][0])
            if op in ('freeze', 'bitcast', 'ptrtoint', 'inttoptr') or not isinstance(v, V): return v
            w = self.opwidth(env, i['ops'][0], i)
            if op == 'zext': return self.uns(st, v, w)
            if op == 'sext': return self.sgn(st, v, w)
            return self.uns(st, v, self.width(i))
        if op == 'icmp':
            a, b = self.operand(st, env, i['ops'][0]), self.operand(st, env, i['ops'][1])
            w = next((o['w'] for o in i['ops'] if o['k'] == 'c'), None) or self.opwidth(env, i['ops'][0], i)
            return self.compare(st, i['pred'], a, b, w)
        if op == 'extractvalue':
            v = self.operand(st, env, i['ops'][0])
            return v.get(tuple(i['idxs']), TOP) if isinstance(v, dict) else TOP
        if op == 'insertvalue':
            v = self.operand(st, env, i['ops'][0]); v = dict(v) if isinstance(v, dict) else {}
            v[tuple(i['idxs'])] = self.operand(st, env, i['ops'][1]); return v
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
            return self.binop(st, op, self.operand(st, env, i['ops'][0]), self.operand(st, env, i['ops'][1]), self.width(i))
        return TOP
    wid = None
    def opwidth(self, env, o, i):
        if o['k'] == 'c': return o['w']
        if self.wid is None:
            self.wid = {}
            for n, f in self.F.items():
                d = {a['id']: a['t'] for a in f.get('args', ())}
                for b in f.get('blocks', ()):
                    for x in b: d[x['id']] = x['t']; self.wid[id(x)] = d
        t = self.wid.get(id(i), {}).get(o.get('id'), 'i64')
        m = re.match(r'i(\d+)$', t); return int(m.group(1)) if m else 64
    def docall(self, st, env, i, depth):
        cn = i['callee'].get('n', ''); dem = self.F.get(cn, {}).get('dem', cn)
        args = [self.operand(st, env, o) for o in i['ops']]
        if cn.startswith('llvm.'):
            if 'memcpy' in cn or 'memmove' in cn:
                n = st.norm(args[2])
                if n.p: raise Undecided('memcpy length')
                self.memcpy(st, args[0], args[1], n.c); return K(0)
            if 'memset' in cn:
                n = st.norm(args[2])
                for k in range(n.c): self.store(st, Ptr(args[0].o, add(args[0].off, K(k))), args[1], 1)
                return K(0)
            m = re.match(r'llvm\.(umin|umax|smin|smax|abs)\.i(\d+)', cn)
            if m:
                w = int(m.group(2)); nf = self.sgn if m.group(1)[0] in 'sa' else self.uns
                xs = [nf(st, a, w) for a in args[:2 if m.group(1) != 'abs' else 1]]
                if TOP in xs: return TOP
                r = self.point(st, {'min': min, 'max': max}.get(m.group(1)[1:], lambda x: abs(x)), *xs)
                if r != TOP or len(xs) < 2: return r
                c = self.compare(st, ('s' if m.group(1)[0] == 's' else 'u') + ('lt' if m.group(1)[1:] == 'min' else 'gt'), xs[0], xs[1], w)
                if c == TOP: return TOP
                return [(xs[0] if tv else xs[1], s) for tv, s in self.fork(st, c)]
            return TOP
        if cn in ('div', 'ldiv'):
            if isinstance(args[0], V) and isinstance(args[1], V):
                q = self.binop(st, 'sdiv', args[0], args[1], 32); r = self.binop(st, 'srem', args[0], args[1], 32)
                if q != TOP and r != TOP: return add(q, scale(r, 1 << 32))
            return TOP
        for rx, h in self.hooks:
            if rx.search(dem):
                self.cn = cn
                return h(self, st, dem, args)
        if 'basic_string' in dem and not dem.startswith(('usi', 'csa')) or re.search(r'std::(map|unordered_map|_Rb_tree|_Hashtable|allocator|__new_allocator)<', dem):
            r = self.libcall(st, dem, args, i)
            if r is not NotImplemented: return r
        if cn in ('_ZdlPv', '_ZdlPvm', '__cxa_atexit', '__cxa_guard_release'): return K(0)
        if cn == '__cxa_guard_acquire': return K(1)
        if cn in ('_Znwm',):
            st.n += 1; return Ptr(('heap', st.n), K(0))
        if not self.F.get(cn, {}).get('blocks'):
            alt = re.sub(r'([CD])1E', r'\g<1>2E', cn)                # complete-object constructors are aliases
            if alt == cn or not self.F.get(alt, {}).get('blocks'): raise Undecided('call of ' + dem)
            cn = alt
        return list(self.call(cn, args, st, depth + 1))
    def libcall(self, st, dem, args, i):
        short = re.sub(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>', 'string', dem)
        short = re.sub(r'\[abi:\w+\]', '', short)
        def put(p, L):
            o = st.norm(p.off)
            if o.p: raise Undecided('string at varying address')
            st.strs[(p.o, o.c)] = L
        def arg(k, kind):
            a = args[k]
            if kind == 'char': return [a] if isinstance(a, V) else self.bad('char')
            if kind == 'char const*': return self.cstr(st, a)
            return self.getstr(st, a)
        m = re.match(r'string::(?:basic_string|string)(?:<[^(]*>)?\((.*)\)$', short)
        if m:
            a = m.group(1)
            if a.startswith('char const*, std::allocator') : put(args[0], self.cstr(st, args[1])); return K(0)
            if a.startswith('char const*, unsigned long'): put(args[0], self.cstr(st, args[1], st.norm(args[2]).c)); return K(0)
            if a in ('string const&', 'string&&'): put(args[0], list(self.getstr(st, args[1]))); return K(0)
            if a == '' or a.startswith('std::allocator'): put(args[0], []); return K(0)
            if a.startswith('unsigned long, char'): put(args[0], [args[2]] * st.norm(args[1]).c); return K(0)
            if a.startswith('string const&, unsigned long'):
                L = self.getstr(st, args[1]); s = st.norm(args[2]).c; n = st.norm(args[3]).c if len(args) > 3 and 'unsigned long, unsigned long' in a else len(L)
                put(args[0], L[s:s + n]); return K(0)
            if '__normal_iterator' in a or a.startswith('char const*, char const*') or a.startswith('char*, char*'):
                p, q = args[1], args[2]
                if isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o:
                    n = st.norm(add(q.off, p.off, -1))
                    if not n.p: put(args[0], self.cstr(st, p, n.c)); return K(0)
                raise Undecided('iterator range')
            raise Undecided(short)
        if re.match(r'string::~', short): return K(0)
        if re.match(r'std::(allocator|__new_allocator)<', dem): return K(0)
        m = re.match(r'(?:string )?std::operator\+<char.*?>\((.*)\)$', short)
        if m:
            ks = [x.strip() for x in m.group(1).split(', ')]
            L = []
            for k, kd in enumerate(ks):
                kd = 'char' if kd == 'char' else 'char const*' if kd == 'char const*' else 'string'
                L = L + arg(k + 1, kd)
            put(args[0], L); return K(0)
        m = re.match(r'string::(operator\+=|append|push_back|operator=)(?:<[^(]*>)?\((.*)\)$', short)
        if m:
            a = m.group(2)
            base = [] if m.group(1) == 'operator=' else self.getstr(st, args[0])
            if a == 'unsigned long, char': x = [args[2]] * st.norm(args[1]).c
            elif a == 'char const*, unsigned long': x = self.cstr(st, args[1], st.norm(args[2]).c)
            else: x = arg(1, 'char' if a == 'char' else 'char const*' if a == 'char const*' else 'string')
            put(args[0], list(base) + list(x)); return args[0]
        m = re.match(r'string::(\w+|operator\[\])\((.*)\)( const)?$', short)
        if m:
            f = m.group(1)
            L = self.getstr(st, args[0]); o = st.norm(args[0].off)
            if o.p: raise Undecided('string')
            key = (args[0].o, o.c)
            if f in ('size', 'length'): return K(len(L))
            if f == 'empty': return K(int(not L))
            if f in ('c_str', 'data', 'begin', 'cbegin', '_M_data'): return Ptr(('strdata', key), K(0))
            if f in ('end', 'cend'): return Ptr(('strdata', key), K(len(L)))
            if f in ('operator[]', 'at'): return Ptr(('strdata', key), args[1])
            if f == 'front': return Ptr(('strdata', key), K(0))
            if f == 'back': return Ptr(('strdata', key), K(len(L) - 1))
            if f == 'clear': st.strs[key] = []; return K(0)
            if f == 'reserve': return K(0)
        m = re.match(r'string::substr\(', short)
        if m:
            L = self.getstr(st, args[1]); a, n = st.norm(args[2]), st.norm(args[3])
            if a.p or n.p: raise Undecided('substr')
            put(args[0], L[a.c:a.c + n.c] if n.c >= 0 else L[a.c:]); return K(0)
        m = re.match(r'bool std::operator(==|!=)<.*>\((.*)\)$', short)
        if m and 'map<' not in short and '_Iterator' not in short and '_iterator' not in short:
            ks = m.group(2).split(', ')
            A = arg(0, 'char const*' if ks[0] == 'char const*' else 'string'); B = arg(1, 'char const*' if ks[1] == 'char const*' else 'string')
            if len(A) != len(B): return K(int(m.group(1) == '!='))
            r = K(1)
            for x, y in zip(A, B):
                c = self.compare(st, 'eq', x, y, 8)
                if not isinstance(c, V): raise Undecided('string comparison')
                r = self.binop(st, 'and', r, c, 1)
                if r == TOP: raise Undecided('string comparison')
            return r if m.group(1) == '==' else self.binop(st, 'xor', r, K(1), 1)
        if re.search(r'(map|_Rb_tree|_Hashtable)<', short):
            f = re.search(r'::(~?\w+|operator\[\])\([^()]*(\([^()]*\)[^()]*)*\)( const)?$', short)
            f = f.group(1) if f else ''
            if not isinstance(args[0], Ptr): raise Undecided('map')
            mp = (args[0].o, st.norm(args[0].off).c)
            if f in ('map', 'unordered_map', '_Rb_tree', '_Hashtable'):
                st.maps = dict(st.maps); st.maps[mp] = {}; return K(0)
            if f.startswith('~'): return K(0)
            iskey = 'string' in short
            def key(a):
                if iskey: return self.getstr(st, a)
                v = self.load(st, a, 1)
                if v == TOP: raise Undecided('map key')
                return [v]
            if f == 'operator[]':
                kk = [st.norm(x) for x in key(args[1])]
                if any(x.p for x in kk): raise Undecided('map key')
                st.maps = {a: dict(b) for a, b in st.maps.items()}
                return Ptr(('mapslot', mp, tuple(x.c & 255 for x in kk)), K(0))
            if f in ('find', 'count', 'at'):
                if mp not in st.maps: raise Undecided('map contents unknown')
                tbl = st.maps[mp]; kk = [st.norm(x) for x in key(args[1])]
                fs = {g for x in kk for g, _ in x.p}
                if len(fs) > 1: raise Undecided('map key depends on several fields')
                if not fs:
                    v = tbl.get(tuple(x.c & 255 for x in kk))
                    if f == 'count': return K(int(v is not None))
                    return Ptr(('mapend', mp), K(0)) if v is None else Ptr(('mapval', mp, v), K(0))
                g = fs.pop(); vals = {}
                for j in st.dom[g]:
                    v = tbl.get(tuple((x.c + (x.p[0][1][j] if x.p else 0)) & 255 for x in kk))
                    vals[j] = None if v is None else st.norm(v).c
                hit = {j: v is not None for j, v in vals.items()}
                if len(set(hit.values())) > 1: raise ForkField(g, hit)
                if not any(hit.values()): return K(0) if f == 'count' else Ptr(('mapend', mp), K(0))
                if f == 'count': return K(1)
                d = st.dom[g]
                return Ptr(('mapval', mp, tab(g, [vals.get(j, vals[d[0]]) for j in range(st.sizes[g])])), K(0))
            if f in ('end', 'cend'): return Ptr(('mapend', mp), K(0))
            raise Undecided(short[:120])
        return NotImplemented
    def bad(self, why): raise Undecided(why)

class ForkField(Exception):
    def __init__(self, field, groups): self.field = field; self.groups = groups

def values(st, v, limit=64):
    """[(number, state)]: the values v can take, each with the part of the states where it does; None when there are too many"""
    if not isinstance(v, V): return None
    v = st.norm(v); out = [(v.c, st)]
    for f, t in v.p:
        nxt = []
        for c, s in out:
            gr = {}
            for i in s.dom[f]: gr.setdefault(t[i], []).append(i)
            if len(out) * len(gr) > limit: return None
            for k, ix in gr.items():
                s2 = s.copy(); s2.dom[f] = tuple(ix); nxt.append((c + k, s2))
        out = nxt
    return out

def differ(st, got, want):
    """None when equal for every input on this path; otherwise a witness assignment"""
    d = st.norm(add(got, want, -1))
    if not d.p: return None if d.c == 0 else {}
    fs = [f for f, _ in d.p]; T = dict(d.p)
    zf = {f for z in st.zones for f in z}
    full = sorted(set(fs) | {g for (f, g) in st.zones if f in fs})
    n = 1
    for f in full: n *= len(st.dom[f])
    doms = [st.dom[f] if n <= 200000 else (st.dom[f][0], st.dom[f][-1]) for f in full]
    for combo in itertools.product(*doms):
        a = dict(zip(full, combo))
        if any(f in a and g in a and not lo <= a[f] - a[g] <= hi for (f, g), (lo, hi) in st.zones.items()): continue
        if d.c + sum(T[f][a[f]] for f in fs): return a
    return None
