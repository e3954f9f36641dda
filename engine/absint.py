"""Abstract interpreter over the JSON form of LLVM IR written by irtool.

Disjunctive forward dataflow: the worklist holds (program point, abstract state)
pairs; a branch whose condition is not decided by the abstract state keeps both
successors, an abstract state already seen at a loop header is not expanded again.
Nothing of the analysed program is executed and no solver is involved.

Abstract values
  C(v, w)          one integer
  Lin(w, k, ts)    k + sum(coef * atom) over named unknowns (atoms have ranges)
  BB(bits)         a 128-bit board set, abstracted to the *named* squares only:
                   bits[sq] = (cases where the bit is certainly 1, certainly 0)
  Part(bb, i)      one 64-bit half of a BB
  Ptr(obj, off, idx)
  Top(tag)         anything
"""
import json, sys

class Unsupported(Exception):
    pass

class C:
    __slots__ = ('v', 'w')
    def __init__(s, v, w):
        s.v = v & ((1 << w) - 1); s.w = w
    def key(s): return ('C', s.v, s.w)
    def __repr__(s): return '%d:i%d' % (s.v, s.w)

class Lin:
    __slots__ = ('w', 'k', 'ts', '_key')
    def __init__(s, w, k, ts):
        s.w = w; m = 1 << w; s.k = k % m
        d = {}
        for a, c in ts:
            c = (d.get(a, 0) + c) % m
            d[a] = c
        s.ts = tuple(sorted(((a, c) for a, c in d.items() if c), key=repr))
        s._key = ('L', s.w, s.k, s.ts)
    def key(s): return s._key
    def __repr__(s):
        return 'lin(%s)' % ' + '.join([('%s*' % c if c != 1 else '') + fmt_atom(a) for a, c in [(a, sgn(c, s.w)) for a, c in s.ts]] + ([str(sgn(s.k, s.w))] if s.k else []))

def fmt_atom(a):
    return a if isinstance(a, str) else '(%s)' % ','.join(str(x) for x in a) if isinstance(a, tuple) else str(a)

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def mklin(w, k, ts):
    l = Lin(w, k, ts)
    return C(l.k, w) if not l.ts else l

class BB:
    __slots__ = ('bits', 'tag')
    def __init__(s, bits, tag=None):
        s.bits = bits; s.tag = tag
    def key(s): return ('BB', tuple(sorted(s.bits.items())), s.tag)
    def __repr__(s): return 'BB%r' % (s.bits,)

class Part:
    __slots__ = ('bb', 'i')
    def __init__(s, bb, i): s.bb = bb; s.i = i
    def key(s): return ('P', s.bb.key(), s.i)

class Ptr:
    __slots__ = ('obj', 'off', 'idx')
    def __init__(s, obj, off=0, idx=()): s.obj = obj; s.off = off; s.idx = idx
    def key(s): return ('Ptr', s.obj, s.off, s.idx)
    def __repr__(s): return '&%s+%d%s' % (s.obj, s.off, ''.join('+%d*%s' % (c, fmt_atom(a)) for a, c in s.idx))

class Fn:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def key(s): return ('Fn', s.n)

class Agg:
    __slots__ = ('e',)
    def __init__(s, e): s.e = tuple(e)
    def key(s): return ('A', tuple(x.key() for x in s.e))

class Shr:
    """l >> n (logical), kept until a mask selects whole fields"""
    __slots__ = ('l', 'n', 'w')
    def __init__(s, l, n, w): s.l = l; s.n = n; s.w = w
    def key(s): return ('Shr', s.l.key(), s.n)

class Xor:
    """k ^ (xor of opaque values)"""
    __slots__ = ('w', 'k', 'ts')
    def __init__(s, w, k, ts): s.w = w; s.k = k; s.ts = frozenset(ts)
    def key(s): return ('X', s.w, s.k, tuple(sorted(s.ts, key=repr)))
    def __repr__(s): return 'xor(%s)' % ' ^ '.join([fmt_atom(t) for t in sorted(s.ts, key=repr)] + ([str(s.k)] if s.k else []))

class Top:
    __slots__ = ('tag',)
    def __init__(s, tag=''): s.tag = tag
    def key(s): return ('T', s.tag)
    def __repr__(s): return 'T(%s)' % (s.tag,)

class State:
    __slots__ = ('mem', 'extra')
    def __init__(s, mem=None, extra=None):
        s.mem = mem if mem is not None else {}
        s.extra = extra if extra is not None else {}
    def copy(s):
        return State({o: dict(m) for o, m in s.mem.items()}, dict(s.extra))
    def key(s):
        return (tuple(sorted(((o, tuple(sorted(((k, v[0], v[1].key()) for k, v in m.items()), key=repr))) for o, m in s.mem.items()), key=repr)),
                tuple(sorted(s.extra.items(), key=repr)))

def typ_bits(t):
    if t.startswith('i') and t[1:].isdigit():
        return int(t[1:])
    if t == 'ptr':
        return 64
    return None

VEC128 = {'<2 x i64>', '<16 x i8>', '<4 x i32>', '<8 x i16>', 'i128'}

class Interp:
    def __init__(self, module, squares=(), ncases=1):
        self.m = module
        self.fns = module['fns']
        self.globals = module['globals']
        self.squares = tuple(squares)          # tracked square atoms
        self.ALL = (1 << ncases) - 1
        self.ranges = {}                        # atom -> (lo, hi)
        self.regions = {}                       # square atom -> set of concrete square numbers
        self.distinct = set()                   # frozenset({a,b}) atoms known unequal
        self.parity = {}                        # atom -> 0/1 (for key ^ 1)
        self.even_global = set()
        self.hooks = {}                         # mangled fn name -> callable(interp, args, state, ins) -> list[(val,state)] or None
        self.hook_dem = []                      # (predicate(dem), callable)
        self.init = {}                          # obj -> callable(key(off,idx), size, type) -> Val
        self.gconst = {}                        # folded constant globals: name -> bytes
        self.layout = {}                        # obj -> [(off,size,type)] for memcpy
        self.steps = 0
        self.max_steps = 4000000
        self.fn_seen = set()
        self._bbones = {s: (self.ALL, 0) for s in self.squares}
        self.sat = None
        self.trace_branch = False

    # ---------- helpers
    def bbconst(self, lo, hi):
        bits = {}
        for s in self.squares:
            reg = self.regions.get(s)
            if reg is None:
                if lo == 0 and hi == 0: bits[s] = (0, self.ALL)
                elif lo == 0x7fffffffffffffff and hi & 0x3ffff == 0x3ffff or (lo == (1 << 64) - 1 and hi == (1 << 64) - 1): bits[s] = (self.ALL, 0)
                else: bits[s] = (0, 0)
                continue
            vals = set(((lo >> q) & 1) if q < 63 else ((hi >> (q - 63)) & 1) for q in reg)
            bits[s] = (self.ALL, 0) if vals == {1} else (0, self.ALL) if vals == {0} else (0, 0)
        return BB(bits, ('k', lo, hi))

    def bbtop(self, tag=None):
        return BB({s: (0, 0) for s in self.squares}, tag)

    def rng(self, v):
        if isinstance(v, C): return (v.v, v.v)
        if isinstance(v, Lin):
            lo = hi = sgn(v.k, v.w)
            for a, c in v.ts:
                r = self.ranges.get(a)
                if r is None: return None
                c = sgn(c, v.w)
                if c >= 0: lo += c * r[0]; hi += c * r[1]
                else: lo += c * r[1]; hi += c * r[0]
            return (lo, hi)
        if isinstance(v, Top) and isinstance(v.tag, tuple) and v.tag and v.tag[0] == 'rng': return (v.tag[1], v.tag[2])
        return None

    def lin(self, v):
        if isinstance(v, C): return Lin(v.w, v.v, ())
        if isinstance(v, Lin): return v
        return None

    def differ(self, a, b):
        """True if surely unequal, False if surely equal, None unknown."""
        la, lb = self.lin(a), self.lin(b)
        if la is None or lb is None:
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.key() == b.key(): return False
                if a.obj != b.obj: return True
                if not a.idx and not b.idx: return a.off != b.off
                return None
            return None
        d = mklin(la.w, la.k - lb.k, list(la.ts) + [(x, -c) for x, c in lb.ts])
        if isinstance(d, C): return d.v != 0
        r = self.rng(d)
        if r and (r[0] > 0 or r[1] < 0): return True
        if len(d.ts) == 2 and d.k == 0:
            (x, cx), (y, cy) = d.ts
            if (cx + cy) % (1 << d.w) == 0 and frozenset((x, y)) in self.distinct: return True
        # value sets of square regions
        if len(d.ts) == 1 and d.ts[0][0] in self.regions:
            a0, c0 = d.ts[0]
            if all((c0 * q + d.k) % (1 << d.w) for q in self.regions[a0]): return True
        return None

    # ---------- memory
    def mem_load(self, st, p, size, ty):
        key = (p.off, p.idx)
        m = st.mem.setdefault(p.obj, {})
        e = m.get(key)
        if e is not None:
            if e[0] == size: return e[1]
            if e[0] == 16 and size == 8 and isinstance(e[1], BB): return Part(e[1], 0)
            if size < e[0] and isinstance(e[1], C):
                return C(e[1].v, size * 8)
        if size == 8 and not p.idx:
            e = m.get((p.off - 8, p.idx))
            if e is not None and e[0] == 16 and isinstance(e[1], BB): return Part(e[1], 1)
        elif size == 8:
            e = m.get((p.off - 8, p.idx))
            if e is not None and e[0] == 16 and isinstance(e[1], BB): return Part(e[1], 1)
        if size == 16:
            a = m.get((p.off, p.idx)); b = m.get((p.off + 8, p.idx))
            if a and b and a[0] == 8 and b[0] == 8:
                return self.mkvec2(a[1], b[1])
        # overlap with something else written?
        if size == 8 and not p.idx:
            a = m.get((p.off, p.idx)); b = m.get((p.off + 4, p.idx))
            if a and b and a[0] == 4 and b[0] == 4 and isinstance(a[1], C) and isinstance(b[1], C):
                return C(a[1].v | b[1].v << 32, 64)
        for k2, (s2, v2) in m.items():
            if self.overlap(key, size, k2, s2): return Top(('ovl', p.obj, key, size))
        f = self.init.get(p.obj)
        v = None
        if f: v = f(key, size, ty)
        elif p.obj.startswith('@'): v = self.global_load(p, size, ty)
        if v is None: v = Top(('ld', p.obj, key, size))
        return v

    def overlap(self, k1, s1, k2, s2):
        if k1 == k2: return True
        if k1[1] == k2[1]:
            return k1[0] < k2[0] + s2 and k2[0] < k1[0] + s1
        def iv(k, s):
            lo = hi = k[0]
            for a, c in k[1]:
                r = self.ranges.get(a)
                if r is None: return None
                if c >= 0: lo += c * r[0]; hi += c * r[1]
                else: lo += c * r[1]; hi += c * r[0]
            return lo, hi + s
        a, b = iv(k1, s1), iv(k2, s2)
        if a and b and (a[1] <= b[0] or b[1] <= a[0]): return False
        # same array, distinct index atoms
        d = {}
        for x, c in k1[1]: d[x] = d.get(x, 0) + c
        for x, c in k2[1]: d[x] = d.get(x, 0) - c
        d = {x: c for x, c in d.items() if c}
        off = k1[0] - k2[0]
        if len(d) == 2 and off == 0:
            (x, cx), (y, cy) = sorted(d.items(), key=repr)
            if cx == -cy and abs(cx) >= max(s1, s2) and frozenset((x, y)) in self.distinct: return False
        if len(d) == 1:
            (x, cx), = d.items()
            reg = self.regions.get(x)
            if reg is not None and all(not (-s1 < cx * q + off < s2) for q in reg): return False
        return True

    def mem_store(self, st, p, size, v):
        m = st.mem.setdefault(p.obj, {})
        key = (p.off, p.idx)
        e = m.get(key)
        if e is not None and e[0] == size:
            dead = None
        else:
            dead = None
        # half-word store into a BB
        if size == 8 and isinstance(v, Part):
            base = (p.off, p.idx) if v.i == 0 else (p.off - 8, p.idx)
            e = m.get(base)
            if e is not None and e[0] == 16:
                if isinstance(e[1], BB):
                    m[base] = (16, self.setpart(e[1], v)); return
            m.setdefault('__', None); m.pop('__', None)
        for k2 in list(m.keys()):
            if k2 == key:
                continue
            s2, v2 = m[k2]
            if self.overlap(key, size, k2, s2):
                if k2[1] == key[1]:
                    if size <= s2 and isinstance(v2, BB) and s2 == 16 and size == 8:
                        i = 0 if k2[0] == key[0] else 1
                        other = Part(v2, 1 - i)
                        del m[k2]
                        m[(k2[0] + (8 if i == 0 else 0), k2[1])] = (8, other)
                        continue
                    if not (key[0] <= k2[0] and k2[0] + s2 <= key[0] + size):
                        m[k2] = (s2, Top(('clob', k2)))
                    else:
                        del m[k2]
                else:
                    m[k2] = (s2, Top(('weak', k2)))
        if e is not None and e[0] != size and e[0] == 16 and size == 8 and isinstance(e[1], BB):
            m[(key[0] + 8, key[1])] = (8, Part(e[1], 1))
        m[key] = (size, v)

    def setpart(self, bb, part):
        # replace half i of bb by half i of part.bb; a tracked square lives in exactly one half,
        # which half is only known when its region is; otherwise both must agree
        bits = {}
        for s in self.squares:
            h = self.half(s)
            if h is None:
                a, b = bb.bits.get(s, (0, 0)), part.bb.bits.get(s, (0, 0))
                bits[s] = (a[0] & b[0], a[1] & b[1])
            else:
                bits[s] = (part.bb if h == part.i else bb).bits.get(s, (0, 0))
        return BB(bits)

    def half(self, s):
        reg = self.regions.get(s)
        if not reg: return None
        hs = set(0 if q < 63 else 1 for q in reg)
        return hs.pop() if len(hs) == 1 else None

    def mkvec2(self, a, b):
        if isinstance(a, C) and isinstance(b, C): return self.bbconst(a.v, b.v)
        if isinstance(a, Part) and isinstance(b, Part) and a.i == 0 and b.i == 1:
            if a.bb.key() == b.bb.key(): return a.bb
            return self.setpart(a.bb, b)
        if isinstance(a, Part) and isinstance(b, C) and a.i == 0:
            return self.setpart(a.bb, Part(self.bbconst(b.v, b.v), 1))
        if isinstance(b, Part) and isinstance(a, C) and b.i == 1:
            return self.setpart(self.bbconst(a.v, a.v), b)
        return self.bbtop()

    def global_load(self, p, size, ty):
        name = p.obj[1:]
        data = self.gconst.get(name)
        if data is None:
            g = self.globals.get(name)
            if g and g.get('const') and ('init' in g or g.get('zero')):
                data = bytes.fromhex(g['init']) if 'init' in g else bytes(g['size'])
                self.gconst[name] = data
        if data is None: return self.opaque_load(p, size, ty)
        if not p.idx:
            if p.off < 0 or p.off + size > len(data): return Top(('oob', name))
            b = data[p.off:p.off + size]
            return self.from_bytes(b, ty)
        if len(p.idx) == 1:
            a, c = p.idx[0]
            dom = self.regions.get(a)
            if dom is None and a in self.ranges:
                lo, hi = self.ranges[a]
                if hi - lo <= 512: dom = range(lo, hi + 1)
            if dom is not None:
                vals = {}
                for q in dom:
                    o = p.off + c * q
                    if o < 0 or o + size > len(data): return Top(('oob', name))
                    vals[data[o:o + size]] = 1
                if len(vals) == 1: return self.from_bytes(next(iter(vals)), ty)
                if ty in VEC128: return self.table_bb(name, data, p, size)
                ints = [int.from_bytes(x, 'little') for x in vals]
                # affine tables keep their relation to the index
                return Top(('rng', min(ints), max(ints), name, p.off, p.idx))
        return self.opaque_load(p, size, ty)

    def table_bb(self, name, data, p, size):
        a, c = p.idx[0]
        bits = {}
        for s in self.squares:
            if s == a:
                vals = set()
                for q in self.regions[a]:
                    o = p.off + c * q
                    lo = int.from_bytes(data[o:o + 8], 'little'); hi = int.from_bytes(data[o + 8:o + 16], 'little')
                    vals.add(((lo >> q) & 1) if q < 63 else ((hi >> (q - 63)) & 1))
            else:
                vals = set()
                for q in self.regions[a]:
                    o = p.off + c * q
                    lo = int.from_bytes(data[o:o + 8], 'little'); hi = int.from_bytes(data[o + 8:o + 16], 'little')
                    for r in self.regions.get(s, range(81)):
                        if r == q and frozenset((s, a)) in self.distinct: continue
                        vals.add(((lo >> r) & 1) if r < 63 else ((hi >> (r - 63)) & 1))
            bits[s] = (self.ALL, 0) if vals == {1} else (0, self.ALL) if vals == {0} else (0, 0)
        return BB(bits)

    def opaque_load(self, p, size, ty):
        """value of a table whose contents are set up at start-up: an uninterpreted atom"""
        if ty in VEC128: return self.bbtop(('tbl', p.obj, p.off, p.idx))
        w = typ_bits(ty)
        if w and ty != 'ptr':
            atom = ('ld', p.obj, p.off, p.idx)
            return Lin(w, 0, [(atom, 1)])
        return None

    def from_bytes(self, b, ty):
        v = int.from_bytes(b, 'little')
        if ty in VEC128: return self.bbconst(v & ((1 << 64) - 1), v >> 64)
        w = typ_bits(ty)
        if w is None: return Top('bytes')
        return C(v, w)

    # ---------- operands
    def opv(self, o, env):
        k = o['k']
        if k == 'v': return env[o['id']]
        if k == 'c': return C(int(o['v']), o['w'])
        if k == 'g': return Ptr('@' + o['n'])
        if k == 'f': return Fn(o['n'])
        if k == 'null': return C(0, 64)
        if k == 'zero':
            if o['t'] in VEC128: return self.bbconst(0, 0)
            return Top('zero' + o['t'])
        if k == 'undef':
            if o['t'] in VEC128: return self.bbtop()
            return Top('undef')
        if k == 'vec':
            e = [self.opv(x, env) for x in o['e']]
            if all(isinstance(x, C) for x in e):
                w = e[0].w; tot = 0
                for i, x in enumerate(e): tot |= x.v << (i * w)
                if w * len(e) == 128: return self.bbconst(tot & ((1 << 64) - 1), tot >> 64)
            return Agg(e)
        if k == 'cgep':
            g = o['g']; b = self.opv(g['base'], env)
            return self.gep(b, g['off'], [(self.opv(x, env), c) for x, c in g['idx']])
        if k == 'fp': return Top(('fp', o['v']))
        return Top(k)

    def gep(self, base, off, idx):
        if not isinstance(base, Ptr):
            return Top(('gep', base.key() if hasattr(base, 'key') else 0))
        d = dict(base.idx); o = base.off + off
        for v, c in idx:
            if isinstance(v, C): o += sgn(v.v, v.w) * c
            elif isinstance(v, Lin):
                o += sgn(v.k, v.w) * c
                for a, ca in v.ts:
                    d[a] = d.get(a, 0) + sgn(ca, v.w) * c
            elif isinstance(v, Top):
                at = ('top', v.tag)
                r = self.rng(v)
                if r: self.ranges[at] = r
                d[at] = d.get(at, 0) + c
            else:
                return Top('gepidx')
        return Ptr(base.obj, o, tuple(sorted(((a, c) for a, c in d.items() if c), key=repr)))

    # ---------- arithmetic
    def binop(self, op, a, b, t, ins):
        if t in VEC128: return self.vecop(op, a, b)
        w = typ_bits(t)
        if w is None: return Top((op, ins['id']))
        if isinstance(a, C) and isinstance(b, C):
            x, y = a.v, b.v
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                     'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: sgn(x, w) >> y, 'udiv': lambda: x // y, 'urem': lambda: x % y,
                     'sdiv': lambda: int(sgn(x, w) / sgn(y, w)), 'srem': lambda: sgn(x, w) - int(sgn(x, w) / sgn(y, w)) * sgn(y, w)}[op]()
            except (KeyError, ZeroDivisionError):
                return Top((op,))
            return C(r, w)
        la, lb = self.lin(a), self.lin(b)
        if op in ('and', 'or', 'xor') and w == 1:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, C):
                    if op == 'and': return y if x.v else C(0, 1)
                    if op == 'or': return C(1, 1) if x.v else y
                    if op == 'xor': return y if not x.v else Top(('not', y.key()))
        if la is not None and lb is not None:
            if op == 'add': return mklin(w, la.k + lb.k, list(la.ts) + list(lb.ts))
            if op == 'sub': return mklin(w, la.k - lb.k, list(la.ts) + [(x, -c) for x, c in lb.ts])
            if op == 'mul' and isinstance(b, C): return mklin(w, la.k * b.v, [(x, c * b.v) for x, c in la.ts])
            if op == 'mul' and isinstance(a, C): return mklin(w, lb.k * a.v, [(x, c * a.v) for x, c in lb.ts])
            if op == 'shl' and isinstance(b, C): return mklin(w, la.k << b.v, [(x, c << b.v) for x, c in la.ts])
            if op in ('lshr', 'ashr') and isinstance(b, C):
                r = self.field(la, b.v, w)
                if r is not None: return r
                if op == 'lshr': return Shr(la, b.v, w)
            if op in ('udiv', 'urem', 'sdiv', 'srem') and isinstance(b, C) and b.v:
                r = self.rng(la)
                if r and r[0] >= 0:
                    if r[1] < b.v: return C(0, w) if op.endswith('div') else a
                    if op.endswith('rem'): return self.region_map(la, lambda q: q % b.v, w, ins)
                    return self.region_map(la, lambda q: q // b.v, w, ins)
            if op == 'and':
                for x, y in ((la, b), (lb, a)):
                    if isinstance(y, C):
                        r = self.maskfield(x, y.v, w)
                        if r is not None: return r
            if op == 'or':
                if self.disjoint(la, lb): return mklin(w, la.k + lb.k, list(la.ts) + list(lb.ts))
            if op == 'xor':
                for x, y in ((la, b), (lb, a)):
                    if isinstance(y, C):
                        if y.v == 0: return x if x.ts else C(x.k, w)
                        if y.v == 1:
                            par = self.par(x)
                            if par is not None: return mklin(w, x.k + (1 if par == 0 else -1), x.ts)
        if op == 'xor':
            xa, xb = self.asxor(a), self.asxor(b)
            if xa is not None and xb is not None:
                r = Xor(w, xa.k ^ xb.k, xa.ts ^ xb.ts)
                if not r.ts: return C(r.k, w)
                if len(r.ts) == 1 and not r.k:
                    t0 = next(iter(r.ts))
                    if not (isinstance(t0, tuple) and t0 and t0[0] in ('L', 'T', 'X')): return Lin(w, 0, [(t0, 1)])
                return r
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Shr) and isinstance(y, C):
                if op == 'and':
                    r = self.maskfield(x.l, (y.v << x.n) & ((1 << w) - 1), w)
                    if r is not None:
                        r2 = self.field(self.lin(r), x.n, w)
                        if r2 is not None: return r2
                if op == 'lshr' and x is a: return self.binop('lshr', x.l if x.l.ts else C(x.l.k, w), C(x.n + y.v, w), t, ins)
                if op == 'shl' and x is a and y.v <= x.n:
                    # (l >> n) << m  ==  (l >> (n-m)) & ~((1<<m)-1)
                    r = self.binop('lshr', x.l, C(x.n - y.v, w), t, ins)
                    return self.binop('and', r, C(((1 << w) - 1) & ~((1 << y.v) - 1), w), t, ins)
        if isinstance(a, Part) or isinstance(b, Part):
            r = self.partop(op, a, b)
            if r is not None: return r
        if op == 'and':
            for x in (a, b):
                if isinstance(x, C) and x.v == 0: return C(0, w)
        return Top((op, a.key(), b.key()) if len(str(a.key())) + len(str(b.key())) < 400 else (op, ins['id']))

    def asxor(self, v):
        if isinstance(v, C): return Xor(v.w, v.v, ())
        if isinstance(v, Xor): return v
        if isinstance(v, Lin):
            if len(v.ts) == 1 and v.k == 0 and v.ts[0][1] == 1: return Xor(v.w, 0, (v.ts[0][0],))
            return Xor(v.w, 0, (v.key(),))
        if isinstance(v, Top) and v.tag: return Xor(64, 0, (v.key(),))
        return None

    def region_map(self, l, f, w, ins):
        if len(l.ts) == 1:
            a, c = l.ts[0]
            reg = self.regions.get(a)
            if reg is not None:
                vals = set(f((c * q + l.k) % (1 << l.w)) for q in reg)
                if len(vals) == 1: return C(vals.pop(), w)
                return Top(('rng', min(vals), max(vals), 'rm', l.key(), f(1000003)))
        return Top(('rm', l.key(), f(1000003)))

    def par(self, l):
        p = l.k & 1
        for a, c in l.ts:
            if c & 1 == 0: continue
            if a in self.parity: p ^= self.parity[a]
            elif isinstance(a, tuple) and a[0] == 'ld' and a[1] in self.even_global: pass
            else: return None
        return p

    def field(self, l, sh, w):
        """l >> sh, when the low part is bounded inside [0, 2^sh)"""
        lowts = [(a, c) for a, c in l.ts if c % (1 << sh)]
        hits = [(a, c) for a, c in l.ts if c % (1 << sh) == 0]
        if any(sgn(c, w) < 0 for a, c in l.ts): return None
        lowk, hik = l.k & ((1 << sh) - 1), l.k >> sh
        low = mklin(w, lowk, lowts)
        r = self.rng(low)
        if r is None or r[0] < 0 or r[1] >= (1 << sh): return None
        tot = self.rng(l)
        if tot is None or tot[1] >= (1 << w): return None
        return mklin(w, hik, [(a, c >> sh) for a, c in hits])

    def maskfield(self, l, mask, w):
        if mask == 0: return C(0, w)
        # contiguous runs of the mask are handled one by one
        out_k, out_ts = 0, []
        b = 0
        while b < w:
            if not (mask >> b) & 1: b += 1; continue
            e = b
            while e < w and (mask >> e) & 1: e += 1
            f = self.field(l, b, w) if b else l
            if f is None: return None
            f = self.lin(f)
            # keep low (e-b) bits of f
            n = e - b
            if e < w:
                ts = [(a, c) for a, c in f.ts if c % (1 << n)]
                k = f.k & ((1 << n) - 1)
                low = mklin(w, k, ts)
                r = self.rng(low)
                if r is None or r[0] < 0 or r[1] >= (1 << n): return None
                if any(sgn(c, w) < 0 for a, c in f.ts): return None
                lk = self.lin(low)
            else:
                lk = f
            out_k += lk.k << b; out_ts += [(a, c << b) for a, c in lk.ts]
            b = e
        return mklin(w, out_k, out_ts)

    def bitspan(self, l):
        m = l.k
        for a, c in l.ts:
            r = self.ranges.get(a)
            if r is None or r[0] < 0 or sgn(c, l.w) < 0: return None
            low = (c & -c).bit_length() - 1
            top = (c * r[1]).bit_length()
            sp = ((1 << top) - 1) & ~((1 << low) - 1)
            if m & sp: return None
            m |= sp
        return m

    def disjoint(self, a, b):
        x, y = self.bitspan(a), self.bitspan(b)
        return x is not None and y is not None and not (x & y)

    def partop(self, op, a, b):
        if isinstance(a, Part) and isinstance(b, Part) and a.i == b.i and op in ('and', 'or', 'xor'):
            return Part(self.vecop(op, a.bb, b.bb), a.i)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Part) and isinstance(y, C) and op in ('and', 'or', 'xor'):
                k = self.bbconst(y.v, 0) if x.i == 0 else self.bbconst(0, y.v)
                return Part(self.vecop(op, x.bb, k), x.i)
        return None

    def vecop(self, op, a, b):
        if not isinstance(a, BB): a = self.bbtop()
        if not isinstance(b, BB): b = self.bbtop()
        if op not in ('and', 'or', 'xor'): return self.bbtop((op, a.tag, b.tag) if a.tag and b.tag else None)
        bits = {}
        for s in self.squares:
            (a1, a0), (b1, b0) = a.bits.get(s, (0, 0)), b.bits.get(s, (0, 0))
            if op == 'and': bits[s] = (a1 & b1, a0 | b0)
            elif op == 'or': bits[s] = (a1 | b1, a0 & b0)
            else: bits[s] = ((a1 & b0) | (a0 & b1), (a1 & b1) | (a0 & b0))
        if a.tag and b.tag and a.tag[0] == 'k' and b.tag[0] == 'k' and len(a.tag) == 3 and len(b.tag) == 3:
            f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
            return self.bbconst(f(a.tag[1], b.tag[1]), f(a.tag[2], b.tag[2]))
        tag = None
        if a.tag is not None and b.tag is not None:
            ta, tb = sorted((a.tag, b.tag), key=repr)
            if ta == tb and op in ('and', 'or'): tag = ta
            elif len(repr((ta, tb))) < 1500: tag = (op, ta, tb)
        return BB(bits, tag)

    # ---------- comparisons
    def icmp(self, pred, a, b):
        if isinstance(a, C) and isinstance(b, C):
            x, y, w = a.v, b.v, a.w
            sx, sy = sgn(x, w), sgn(y, w)
            return C(int({'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y, 'sgt': sx > sy, 'sge': sx >= sy, 'slt': sx < sy, 'sle': sx <= sy}[pred]), 1)
        if pred in ('eq', 'ne'):
            if isinstance(a, (C, Lin)) and isinstance(b, (C, Lin)) or isinstance(a, Ptr) and isinstance(b, Ptr):
                d = self.differ(a, b)
                if d is not None: return C(int(d == (pred == 'ne')), 1)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ptr) and isinstance(y, C) and y.v == 0: return C(int(pred == 'ne'), 1)
                if isinstance(x, Top) and isinstance(y, C):
                    r = self.rng(x)
                    if r and not (r[0] <= y.v <= r[1]): return C(int(pred == 'ne'), 1)
                if isinstance(x, Part) and isinstance(y, C) and y.v == 0:
                    r = self.part_any(x)
                    if r is not None: return C(int(r == (pred == 'ne')), 1)
                    return Top(('partany', pred, x.key()))
        else:
            ra, rb = self.rng(a), self.rng(b)
            if ra and rb and ra[0] >= 0 and rb[0] >= 0 or (ra and rb and pred[0] == 's'):
                lt = ra[1] < rb[0]; le = ra[1] <= rb[0]; gt = ra[0] > rb[1]; ge = ra[0] >= rb[1]
                p = pred[1:]
                if p == 'lt': r = True if lt else False if ge else None
                elif p == 'le': r = True if le else False if gt else None
                elif p == 'gt': r = True if gt else False if le else None
                else: r = True if ge else False if lt else None
                if r is not None: return C(int(r), 1)
        return Top(('icmp', pred, a.key(), b.key()))

    def part_any(self, p):
        """is half p.i of the set non-empty?  True/False/None"""
        for s in self.squares:
            if self.half(s) == p.i and p.bb.bits[s][0] == self.ALL: return True
        if p.bb.tag and p.bb.tag[0] == 'k' and len(p.bb.tag) == 3: return bool(p.bb.tag[1 + p.i])
        return None

    def any_bit(self, bb):
        for s in self.squares:
            if bb.bits[s][0] == self.ALL and self.ALL: return True
        if bb.tag and bb.tag[0] == 'k' and len(bb.tag) == 3: return bool(bb.tag[1] or bb.tag[2])
        return None

    # ---------- execution
    def call(self, name, args, st, depth=0, ins=None):
        """returns list of (value, state)"""
        f = self.fns.get(name)
        dem = f['dem'] if f else name
        h = self.hooks.get(name)
        if h is None:
            for pred, hh in self.hook_dem:
                if pred(dem): h = hh; break
        if h is not None:
            r = h(self, args, st, ins, dem)
            if r is not None: return r
        if name.startswith('llvm.'): return self.intrinsic(name, args, st, ins)
        if f is None or 'blocks' not in f: raise Unsupported('call to ' + dem)
        if depth > 40: raise Unsupported('recursion in ' + dem)
        return self.run(f, args, st, depth)

    def intrinsic(self, name, args, st, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2]); return [(None, st)]
        if name.startswith('llvm.memset'):
            d, v, n = args[0], args[1], args[2]
            if isinstance(d, Ptr) and isinstance(n, C):
                m = st.mem.setdefault(d.obj, {})
                for k in list(m):
                    if self.overlap((d.off, d.idx), n.v, k, m[k][0]): del m[k]
                lay = self.layout.get(d.obj)
                st.extra[('memset', d.obj)] = st.extra.get(('memset', d.obj), ()) + ((d.off, n.v, v.v if isinstance(v, C) else None),)
                if lay:
                    for (o, s, t) in lay:
                        if d.off <= o and o + s <= d.off + n.v:
                            m[(o, d.idx)] = (s, self.from_bytes(bytes([v.v & 255]) * s, t) if isinstance(v, C) else Top('ms'))
            return [(None, st)]
        if name.startswith(('llvm.assume', 'llvm.lifetime', 'llvm.dbg', 'llvm.prefetch', 'llvm.donothing', 'llvm.invariant')): return [(None, st)]
        if name.startswith('llvm.expect'): return [(args[0], st)]
        if 'ptestz' in name or 'ptestc' in name or 'ptestnzc' in name:
            if 'ptestz' in name:
                bb = self.vecop('and', args[0], args[1]); r = self.any_bit(bb)
                if r is not None: return [(C(int(not r), 32), st)]
                return [(Top(('ptestz', bb.key())), st)]
            return [(Top(('ptestc', ins['id'])), st)]
        if name.startswith('llvm.ctpop'):
            if isinstance(args[0], C): return [(C(bin(args[0].v).count('1'), args[0].w), st)]
            return [(Top(('ctpop', args[0].key())), st)]
        if name.startswith('llvm.cttz') and isinstance(args[0], C) and args[0].v:
            return [(C((args[0].v & -args[0].v).bit_length() - 1, args[0].w), st)]
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            a, b = args; ra, rb = self.rng(a), self.rng(b)
            mx = 'max' in name
            if ra and rb:
                if ra[0] >= rb[1]: return [((a if mx else b), st)]
                if rb[0] >= ra[1]: return [((b if mx else a), st)]
            return [(Top((name, a.key(), b.key())), st)]
        if name.startswith('llvm.abs') and isinstance(args[0], C):
            return [(C(abs(sgn(args[0].v, args[0].w)), args[0].w), st)]
        raise Unsupported(name)

    def memcpy(self, st, d, s, n):
        if not (isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(n, C)): raise Unsupported('memcpy')
        lay = self.layout.get(s.obj) or self.layout.get(d.obj)
        dm = st.mem.setdefault(d.obj, {})
        done = set()
        sm = st.mem.setdefault(s.obj, {})
        items = []
        for k, (sz, v) in list(sm.items()):
            if k[1] == s.idx and s.off <= k[0] and k[0] + sz <= s.off + n.v:
                items.append((k[0] - s.off, sz, v)); done.update(range(k[0] - s.off, k[0] - s.off + sz))
        L = self.layout.get(s.obj)
        if L:
            for (o, sz, t) in L:
                if s.off <= o and o + sz <= s.off + n.v and not any(x in done for x in range(o - s.off, o - s.off + sz)):
                    items.append((o - s.off, sz, self.mem_load(st, Ptr(s.obj, o, s.idx), sz, t)))
        elif n.v == 16 and not items:
            items.append((0, 16, self.mem_load(st, s, 16, '<2 x i64>')))
        for o, sz, v in items: self.mem_store(st, Ptr(d.obj, d.off + o, d.idx), sz, v)

    def run(self, f, args, st, depth):
        self.fn_seen.add(f['dem'])
        env = {}
        for a, v in zip(f['args'], args): env[a['id']] = v
        results = []
        seen = set()
        back = f.get('_back')
        if back is None: back = f['_back'] = self.loop_headers(f)
        fid = (f['dem'], depth)
        work = [(0, None, 0, env, st)]
        while work:
            bi, prev, pc, env, st = work.pop()
            blk = f['blocks'][bi]
            if pc == 0:
                # phis, evaluated simultaneously
                phis = []
                n = 0
                for ins in blk:
                    if ins['op'] != 'phi': break
                    n += 1
                    for pb, o in ins['in']:
                        if pb == prev:
                            phis.append((ins['id'], self.opv(o, env))); break
                if phis or prev is not None:
                    env = dict(env)
                for i, v in phis: env[i] = v
                pc = n
                if bi in back:
                    live = f['_live'].get(bi)
                    key = (bi, tuple((i, env[i].key()) for i in sorted(env) if (live is None or i in live) and env[i] is not None), st.key())
                    if key in seen: continue
                    seen.add(key)
                    if len(seen) > 3000: raise Unsupported('no convergence in ' + f['dem'])
            done = False
            while pc < len(blk):
                ins = blk[pc]
                self.steps += 1
                if self.steps > self.max_steps: raise Unsupported('step budget')
                op = ins['op']
                if op == 'br':
                    if 'cond' not in ins:
                        work.append((ins['succ'][0], bi, 0, env, st))
                    else:
                        c = self.opv(ins['cond'], env)
                        if isinstance(c, C): work.append((ins['succ'][0 if c.v else 1], bi, 0, env, st))
                        else:
                            for tv, s in ((True, ins['succ'][0]), (False, ins['succ'][1])):
                                st2 = st.copy()
                                e2 = self.assume(dict(env), st2, c, tv, f, ins)
                                if e2 is not None: work.append((s, bi, 0, e2, st2))
                    done = True; break
                if op == 'switch':
                    c = self.opv(ins['cond'], env)
                    if isinstance(c, C):
                        for v, s in ins['cases']:
                            if int(v) == c.v: work.append((s, bi, 0, env, st)); break
                        else: work.append((ins['def'], bi, 0, env, st))
                    else:
                        for s in sorted(set([s for v, s in ins['cases']] + [ins['def']])):
                            work.append((s, bi, 0, dict(env), st.copy()))
                    done = True; break
                if op == 'ret':
                    results.append((self.opv(ins['ops'][0], env) if ins['ops'] else None, st)); done = True; break
                if op == 'unreachable':
                    done = True; break
                if op in ('call', 'invoke'):
                    cal = self.opv(ins['callee'], env)
                    av = [self.opv(o, env) for o in ins['ops']]
                    if not isinstance(cal, Fn): raise Unsupported('indirect call')
                    rs = self.call(cal.n, av, st, depth + 1, ins)
                    if op == 'invoke':
                        for v, s2 in rs:
                            e2 = dict(env); e2[ins['id']] = v
                            work.append((ins['succ'][0], bi, 0, e2, s2))
                        done = True; break
                    if len(rs) == 1:
                        env[ins['id']] = rs[0][0]; st = rs[0][1]
                    else:
                        for v, s2 in rs:
                            e2 = dict(env); e2[ins['id']] = v
                            work.append((bi, prev, pc + 1, e2, s2) if pc + 1 > 0 else None)
                        done = True; break
                    pc += 1
                    continue
                if op == 'select':
                    c, a, b = (self.opv(o, env) for o in ins['ops'])
                    if isinstance(c, C): env[ins['id']] = a if c.v else b
                    elif a is not None and b is not None and a.key() == b.key(): env[ins['id']] = a
                    elif ins['t'] == 'i1' and isinstance(b, C) and b.v == 0 and isinstance(a, Top): env[ins['id']] = Top(('and', c.key() if hasattr(c, 'key') else 0, a.key()))
                    else:
                        for tv, v in ((True, a), (False, b)):
                            st2 = st.copy(); e2 = self.assume(dict(env), st2, c, tv, f, ins)
                            if e2 is None: continue
                            e2[ins['id']] = v
                            work.append((bi, prev, pc + 1, e2, st2))
                        done = True; break
                    pc += 1
                    continue
                self.simple(ins, op, env, st, depth)
                pc += 1
            if not done and pc >= len(blk): raise Unsupported('fell off block')
        return results

    def assume(self, env, st, c, tv, f, ins):
        if self.sat is not None:
            r = self.sat(self, env, st, c, tv, f, ins)
            if r is False: return None
        # remember the decision so the same condition is not split both ways again
        if isinstance(c, Top):
            k = c.key()
            for i, v in env.items():
                if isinstance(v, Top) and v.key() == k: env[i] = C(int(tv), 1)
            pc = st.extra.get('pc', ())
            for kk, vv in pc:
                if kk == k and vv != tv: return None
            if not any(kk == k for kk, vv in pc):
                st.extra['pc'] = pc + ((k, tv),)
        return env

    def simple(self, ins, op, env, st, depth):
        t = ins['t']
        if op == 'alloca':
            env[ins['id']] = Ptr('a%d.%d' % (depth, ins['id'])); st.mem[env[ins['id']].obj] = {}; return
        if op == 'load':
            p = self.opv(ins['ops'][0], env)
            if not isinstance(p, Ptr):
                env[ins['id']] = self.bbtop() if t in VEC128 else Top(('ldtop', ins['id'])); return
            env[ins['id']] = self.mem_load(st, p, ins['sz'], t); return
        if op == 'store':
            v, p = self.opv(ins['ops'][0], env), self.opv(ins['ops'][1], env)
            if not isinstance(p, Ptr):
                st.extra['wildstore'] = (ins.get('loc') or ['?'])[0]; return
            self.mem_store(st, p, ins['sz'], v); return
        if op == 'gep':
            pass
        if op == 'getelementptr' or 'base' in ins:
            if ins.get('bad'): env[ins['id']] = Top('gep'); return
            env[ins['id']] = self.gep(self.opv(ins['base'], env), ins['off'], [(self.opv(o, env), c) for o, c in ins['idx']]); return
        if op == 'icmp':
            a, b = (self.opv(o, env) for o in ins['ops'])
            env[ins['id']] = self.icmp(ins['pred'], a, b); return
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            v = self.opv(ins['ops'][0], env)
            w = typ_bits(t)
            if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr') or w is None: env[ins['id']] = v; return
            if isinstance(v, C):
                env[ins['id']] = C(sgn(v.v, v.w) if op == 'sext' else v.v, w); return
            if isinstance(v, Lin):
                if op == 'trunc': env[ins['id']] = mklin(w, v.k, v.ts); return
                r = self.rng(v)
                if r and (r[0] >= 0 and r[1] < (1 << v.w) or op == 'sext'):
                    env[ins['id']] = mklin(w, sgn(v.k, v.w), [(a, sgn(c, v.w)) for a, c in v.ts]); return
                if len(v.ts) == 1 and v.k == 0 and v.ts[0][1] == 1:
                    env[ins['id']] = Lin(w, 0, [((op, v.w) + (v.ts[0][0],), 1)]); return
                env[ins['id']] = Top((op, w, v.key())); return
            if isinstance(v, Top):
                env[ins['id']] = v if isinstance(v.tag, tuple) and v.tag and v.tag[0] == 'rng' else Top((op, w, v.tag)); return
            if isinstance(v, Shr) and op == 'trunc':
                r = self.binop('and', v, C((1 << w) - 1, v.w), 'i%d' % v.w, ins)
                l = self.lin(r)
                env[ins['id']] = mklin(w, l.k, l.ts) if l is not None else Top((op, w, v.key())); return
            if isinstance(v, (Part, Shr)): env[ins['id']] = Top((op, v.key())); return
            env[ins['id']] = Top(op); return
        if op == 'extractelement':
            v, i = self.opv(ins['ops'][0], env), self.opv(ins['ops'][1], env)
            if isinstance(v, BB) and isinstance(i, C) and t == 'i64':
                if v.tag and v.tag[0] == 'k' and len(v.tag) == 3: env[ins['id']] = C(v.tag[1 + i.v], 64)
                else: env[ins['id']] = Part(v, i.v)
            else: env[ins['id']] = Top(('ee', ins['id']))
            return
        if op == 'insertelement':
            v, e, i = (self.opv(o, env) for o in ins['ops'])
            if isinstance(v, BB) and isinstance(i, C) and t == '<2 x i64>':
                if isinstance(e, C): e = Part(self.bbconst(e.v, e.v), i.v) if False else e
                if isinstance(e, C):
                    k = self.bbconst(e.v if i.v == 0 else 0, e.v if i.v == 1 else 0)
                    e = Part(k, i.v)
                if isinstance(e, Part) and e.i == i.v:
                    if v.tag is None and all(b == (0, 0) for b in v.bits.values()) and e.bb.tag is None:
                        env[ins['id']] = BB(dict(self.setpart(v, e).bits), None); env[ins['id']] = self.setpart(v, e)
                    else: env[ins['id']] = self.setpart(v, e)
                    return
            env[ins['id']] = self.bbtop() if t in VEC128 else Top(('ie', ins['id'])); return
        if op == 'shufflevector':
            env[ins['id']] = self.bbtop() if t in VEC128 else Top(('sv', ins['id'])); return
        if op == 'extractvalue':
            v = self.opv(ins['ops'][0], env)
            env[ins['id']] = v.e[ins['idxs'][0]] if isinstance(v, Agg) else Top(('ev', ins['id'])); return
        if op == 'insertvalue':
            env[ins['id']] = Top(('iv', ins['id'])); return
        if len(ins.get('ops', ())) == 2:
            a, b = (self.opv(o, env) for o in ins['ops'])
            env[ins['id']] = self.binop(op, a, b, t, ins); return
        env[ins['id']] = self.bbtop() if t in VEC128 else Top((op, ins['id']))

    def loop_headers(self, f):
        n = len(f['blocks'])
        succ = []
        for b in f['blocks']:
            l = b[-1]
            s = []
            if l['op'] == 'switch': s = [x for _, x in l['cases']] + [l['def']]
            else: s = list(l.get('succ', ()))
            succ.append(s)
        color = [0] * n; back = set()
        stack = [(0, iter(succ[0]))]; color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 1: back.add(s)
                elif color[s] == 0:
                    color[s] = 1; stack.append((s, iter(succ[s]))); break
            else:
                color[b] = 2; stack.pop()
        # liveness (ids used in blocks reachable from b)
        use = []; 
        def ids(o, acc):
            if isinstance(o, dict):
                if o.get('k') == 'v': acc.add(o['id'])
                else:
                    for v in o.values(): ids(v, acc)
            elif isinstance(o, list):
                for v in o: ids(v, acc)
        gen = []; kill = []
        for b in f['blocks']:
            g = set(); k = set()
            for ins in b:
                acc = set()
                for kk in ('ops', 'cond', 'base', 'idx', 'callee'):
                    if kk in ins: ids(ins[kk], acc)
                if ins['op'] == 'phi': ids(ins['in'], acc)
                g |= (acc - k)
                k.add(ins['id'])
            gen.append(g); kill.append(k)
        live = [set(x) for x in gen]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in succ[b]: o |= live[s]
                nl = gen[b] | (o - kill[b])
                if nl != live[b]: live[b] = nl; ch = True
        f['_live'] = {b: live[b] | {i['id'] for i in f['blocks'][b] if i['op'] == 'phi'} for b in back}
        return back

def load_module(path):
    with open(path) as fh: return json.load(fh)
