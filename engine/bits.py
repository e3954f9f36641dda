"""Constant folding of input-free initialisers and a bit-level abstract domain.

The IR of a function is turned into transfer functions over values that are either constants
or vectors of bits, each bit being 0, 1, a named unknown, the negation of one, or any value.
A named unknown stands for both of its values at once, so one evaluation covers every
arrangement of the unnamed rest (the squares behind the first blocker of a line, say).
"""
import re

class Undecided(Exception): pass
TOP = None                                  # bit: 0, 1, v >= 2 (unknown number v), -v (its negation), None
def bnot(a): return None if a is None else 1 - a if a in (0, 1) else -a
def band(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a is None or b is None: return None
    return a if a == b else 0 if a == -b else None
def bor(a, b): return bnot(band(bnot(a), bnot(b)))
def bxor(a, b):
    if a is None or b is None: return None
    if a in (0, 1): return b if a == 0 else bnot(b)
    if b in (0, 1): return a if b == 0 else bnot(a)
    return 0 if a == b else 1 if a == -b else None
def bmaj(a, b, c):
    for x, y, z in ((a, b, c), (b, c, a), (a, c, b)):
        if x is not None and x == y: return x
        if x is not None and y is not None and x == bnot(y): return z
    return bor(bor(band(a, b), band(b, c)), band(a, c))
def bsel(c, a, b):
    if c == 1: return a
    if c == 0: return b
    return a if a is not None and a == b else bor(band(c, a), band(bnot(c), b)) if c is not None else None
def bjoin(a, b): return a if a is not None and a == b else None

class Bits:
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def __hash__(self): raise Undecided('unknown value as key')
    def __and__(self, o): o = bl(o); n = min(len(self.b), len(o)); return mk([band(x, y) for x, y in zip(self.b, o)])
    __rand__ = __and__
    def __or__(self, o): a, o = pad(self.b, bl(o)); return mk([bor(x, y) for x, y in zip(a, o)])
    __ror__ = __or__
    def __xor__(self, o): a, o = pad(self.b, bl(o)); return mk([bxor(x, y) for x, y in zip(a, o)])
    __rxor__ = __xor__
    def __lshift__(self, k): return mk([0] * con(k) + list(self.b))
    def __rshift__(self, k): return mk(list(self.b[con(k):]))
    def __rlshift__(self, o): raise Undecided('shift by unknown')
    def __rrshift__(self, o): raise Undecided('shift by unknown')
    def __add__(self, o):
        a, o = pad(self.b, bl(o)); r = []; c = 0
        for x, y in zip(a, o): r.append(bxor(bxor(x, y), c)); c = bmaj(x, y, c)
        return mk(r + [c])
    __radd__ = __add__
    def __mul__(self, o):
        o = con(o)
        if o & (o - 1): 
            r = 0; k = 0
            while o:
                if o & 1: r = r + (self << k) if not isinstance(r, int) or r else self << k
                o >>= 1; k += 1
            return r
        return self << (o.bit_length() - 1) if o else 0
    __rmul__ = __mul__
    def __sub__(self, o): raise Undecided('difference of unknowns')
    __rsub__ = __sub__
    def __bool__(self): raise Undecided('unknown condition')
    def __eq__(self, o): raise Undecided('raw comparison')
    def __lt__(self, o): raise Undecided('raw comparison')
    __gt__ = __le__ = __ge__ = __lt__
    def __index__(self): raise Undecided('unknown index')
    def __repr__(self): return 'Bits(%s)' % ''.join('?' if x is None else str(x) if x in (0, 1) else 'v' for x in self.b)
def mk(l):
    if all(x == 0 or x == 1 for x in l if x is not None) and not any(x is None for x in l): return sum(1 << i for i, x in enumerate(l) if x)
    return Bits(l)
def bl(o): return o.b if isinstance(o, Bits) else [(o >> i) & 1 for i in range(o.bit_length())] if o >= 0 else (_ for _ in ()).throw(Undecided('negative'))
def pad(a, b):
    n = max(len(a), len(b)); return list(a) + [0] * (n - len(a)), list(b) + [0] * (n - len(b))
def con(o):
    if isinstance(o, int): return o
    raise Undecided('unknown value')
def bit(o, i): return (o >> i) & 1 if isinstance(o, int) else o.b[i] if i < len(o.b) else 0
def one(x): return x if x in (0, 1) else Bits([x])

def EQ(a, b):
    if type(a) is int and type(b) is int: return 1 if a == b else 0
    if isinstance(a, PSet) or isinstance(b, PSet): raise Undecided('pointer comparison')
    if isinstance(b, Cnt): a, b = b, a
    if isinstance(a, Cnt):
        b = con(b)
        if a.c > b or a.c + len(a.l) < b: return 0
        if not a.l: return int(a.c == b)
        return one(bnot(a.l[0]) if b == a.c else a.l[0]) if len(a.l) == 1 else Bits([None])
    d = bl(a ^ b)
    if any(x == 1 for x in d): return 0
    u = [x for x in d if x != 0]
    if not u: return 1
    return one(bnot(u[0])) if len(u) == 1 else Bits([None])
def NE(a, b): r = EQ(a, b); return 1 - r if type(r) is int else Bits([bnot(r.b[0])])
def LT(a, b):
    if type(a) is int and type(b) is int: return 1 if a < b else 0
    if isinstance(a, Cnt) or isinstance(b, Cnt):
        r = lambda c: (c.c, c.c + len(c.l)) if isinstance(c, Cnt) else (con(c), con(c))
        (a0, a1), (b0, b1) = r(a), r(b)
        return 1 if a1 < b0 else 0 if a0 >= b1 else Bits([None])
    x, y = pad(bl(a), bl(b)); r = 0
    for p, q in zip(x, y):          # from the lowest bit: the highest difference decides
        d = bxor(p, q); r = bsel(d, q, r) if d is not None else bjoin(q, r)
    return one(r)
def SEL(c, a, b):
    if type(c) is int: return a if c else b
    if isinstance(a, (PSet,)) or isinstance(b, PSet): return PSet(pts(a) + pts(b))
    x, y = pad(bl(a), bl(b)); return mk([bsel(c.b[0], p, q) for p, q in zip(x, y)])
def SX(a, f, t):
    if type(a) is int: return a | (((1 << t) - (1 << f)) if a >> (f - 1) & 1 else 0)
    l = list(a.b[:f]) + [0] * (f - len(a.b)); return mk(l + [l[-1]] * (t - f))
def ASHR(a, k, w):
    k = con(k)
    if type(a) is int: return ((a - (1 << w) if a >> (w - 1) & 1 else a) >> k) & ((1 << w) - 1)
    l = list(a.b) + [0] * (w - len(a.b)); return mk(l[k:w] + [l[w - 1]] * min(k, w))
def lanes(v, w, n):
    m = (1 << w) - 1
    return [(v >> (i * w)) & m for i in range(n)]
def join(l, w):
    if all(type(x) is int for x in l): return sum(x << (i * w) for i, x in enumerate(l))
    r = []
    for x in l: b = list(bl(x))[:w]; r += b + [0] * (w - len(b))
    return mk(r)
def VMAP(f, a, b, w, n, wo): return join([f(x, y) for x, y in zip(lanes(a, w, n), lanes(b, w, n))], wo)
def SHUF(a, b, mask, w, n):
    l = lanes(a, w, n) + lanes(b, w, n); return join([l[i] if i >= 0 else 0 for i in mask], w)
def PSHUFB(a, m, n):
    m = con(m); l = lanes(a, 8, n); r = []
    for i in range(n):
        k = m >> (8 * i) & 255; r.append(0 if k & 128 else l[(i & ~15) + (k & 15)])
    return join(r, 8)
class Cnt:
    """number of set bits among a list of bits"""
    def __init__(self, l, c=0): self.l = [x for x in l if x != 0 and x != 1]; self.c = c + sum(x == 1 for x in l)
    def __add__(self, o): return Cnt(self.l + o.l, self.c + o.c) if isinstance(o, Cnt) else Cnt(self.l, self.c + con(o))
    __radd__ = __add__
    def __and__(self, o):
        if con(o) & 511 == 511: return self
        raise Undecided('part of a count')
    __rand__ = __and__
    def __hash__(self): raise Undecided('count')
    def __bool__(self): raise Undecided('count')
def CTPOP(a):
    if type(a) is int: return bin(a).count('1')
    return Cnt(list(a.b))
def CTTZ(a, w):
    if type(a) is int: return (a & -a).bit_length() - 1 if a else w
    for i, x in enumerate(a.b):
        if x == 1: return i
        if x != 0: raise Undecided('lowest bit unknown')
    return w
def CTLZ(a, w):
    if type(a) is int: return w - a.bit_length()
    for i in range(len(a.b) - 1, -1, -1):
        if a.b[i] == 1: return w - 1 - i
        if a.b[i] != 0: raise Undecided('highest bit unknown')
    return w
def BSWAP(a, w): return join(lanes(a, 8, w // 8)[::-1], 8)
def SDIV(a, b, w, rem):
    a, b = con(a), con(b); s = lambda v: v - (1 << w) if v >> (w - 1) else v
    a, b = s(a), s(b)
    if not b: raise Undecided('division by zero')
    q = abs(a) // abs(b); q = -q if (a < 0) != (b < 0) else q
    return (a - q * b if rem else q) & ((1 << w) - 1)
def UDIV(a, b, rem):
    a, b = con(a), con(b)
    if not b: raise Undecided('division by zero')
    return a % b if rem else a // b

class PSet:
    def __init__(self, l): self.l = sorted(set(l))
    def __add__(self, o): return PSet([x + y for x in self.l for y in vals(o)])
    __radd__ = __add__
    def __and__(self, o): return self
    def __hash__(self): raise Undecided('unknown address')
    def __bool__(self): raise Undecided('unknown address')
def vals(o, limit=4096):
    if type(o) is int: return [o]
    if isinstance(o, PSet): return o.l
    u = sorted({abs(x) for x in o.b if x not in (0, 1, None)}); t = [i for i, x in enumerate(o.b) if x is None]
    n = len(u) + len(t)
    if 1 << n > limit: raise Undecided('too many values')
    r = []
    for k in range(1 << n):
        a = {v: k >> i & 1 for i, v in enumerate(u)}; tt = {p: k >> (len(u) + i) & 1 for i, p in enumerate(t)}
        r.append(sum((tt[i] if x is None else x if x in (0, 1) else a[x] if x > 0 else 1 - a[-x]) << i for i, x in enumerate(o.b)))
    return r
def pts(o): return o.l if isinstance(o, PSet) else vals(o)

class Machine:
    IGNORE = re.compile(r'^(std::ios_base::Init|__cxa_atexit|__assert_fail|__dso)|^llvm\.(assume|lifetime|dbg|experimental)')
    def __init__(self, m, budget=60_000_000):
        self.m = m; self.fns = m['fns']; self.base = {}; top = 4096
        for n, g in m['globals'].items():
            top = (top + 63) & ~63; self.base[n] = top; top += max(g['size'], 1)
        self.stack0 = (top + 63) & ~63
        self.mem = bytearray(self.stack0 + (1 << 20)); self.sym = {}; self.sp = self.stack0
        for n, g in m['globals'].items():
            if 'init' in g: b = bytes.fromhex(g['init']); self.mem[self.base[n]:self.base[n] + len(b)] = b
        self.noinit = {n for n, g in m['globals'].items() if 'init' not in g and 'zero' not in g}
        self.code = {}; self.ns = {}
        mem, sym = self.mem, self.sym
        def LD(a, n):
            if type(a) is not int:
                r = None
                for p in pts(a):
                    v = LD(p, n)
                    if r is None: r = v
                    else:
                        x, y = pad(bl(r), bl(v)); r = mk([bjoin(p_, q_) for p_, q_ in zip(x, y)])
                return r
            if a < 4096 or a + n > len(mem): raise Undecided('load outside memory')
            if sym and any(a + i in sym for i in range(n)):
                l = []
                for i in range(n): l += sym.get(a + i) or [(mem[a + i] >> k) & 1 for k in range(8)]
                return mk(l)
            return int.from_bytes(mem[a:a + n], 'little')
        def ST(a, v, n):
            if type(a) is not int: raise Undecided('store to unknown address')
            if a < 4096 or a + n > len(mem): raise Undecided('store outside memory')
            if type(v) is int:
                mem[a:a + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
                if sym:
                    for i in range(n): sym.pop(a + i, None)
            else:
                l = list(bl(v)) + [0] * (8 * n)
                for i in range(n): sym[a + i] = l[8 * i:8 * i + 8]
        def CPY(d, s, n):
            n = con(n)
            if n: ST(con(d), LD(con(s), n), n)
        def SET(d, v, n):
            n = con(n); v = con(v) & 255
            if n: ST(con(d), int.from_bytes(bytes([v]) * n, 'little'), n)
        def ALLOCA(n):
            a = self.sp; self.sp += (n + 63) & ~63
            if self.sp > len(mem): raise Undecided('stack')
            return a
        self.LD, self.ST = LD, ST
        self.fuel = budget
        def TICK():
            self.fuel -= 1
            if self.fuel < 0: raise Undecided('too many steps')
        self.ns.update(globals()); self.ns.update(LD=LD, ST=ST, CPY=CPY, SET=SET, ALLOCA=ALLOCA, M=self, TICK=TICK)
    def call(self, name, *args):
        sp = self.sp
        try: return self.fn(name)(*args)
        except RecursionError: raise Undecided('recursion')
        finally: self.sp = sp
    def constants(self):
        """fold the static initialisers, unit by unit, each in the order of the unit"""
        n = bad = 0
        for name in sorted(self.fns):
            if not name.startswith('_GLOBAL__sub_I') or 'blocks' not in self.fns[name]: continue
            for b in self.fns[name]['blocks']:
                for i in b:
                    if i['op'] == 'call' and i['callee']['k'] == 'f' and not i['callee']['n'].startswith('llvm.'):
                        try: self.call(i['callee']['n']); n += 1
                        except Undecided: bad += 1
        return n, bad
    def fn(self, name):
        if name not in self.code:
            self.code[name] = None
            try:
                src = self.gen(name)
                exec(compile(src, name, 'exec'), self.ns)
            except Undecided as e:
                def bad(*a, e=str(e)): raise Undecided(e)
                self.ns['f_' + san(name)] = bad
            self.code[name] = self.ns['f_' + san(name)]
        return self.code[name] or (lambda *a: self.ns['f_' + san(name)](*a))
    # ---- code
    def op(self, o):
        k = o['k']
        if k == 'v': return 'v%d' % o['id']
        if k == 'c': return str(int(o['v']))
        if k == 'g':
            if o['n'] in self.noinit: raise Undecided('global %s not defined here' % o['n'])
            return str(self.base[o['n']])
        if k in ('null', 'undef', 'zero'): return '0'
        if k == 'vec':
            w = o['e'][0].get('w')
            es = [0 if e['k'] in ('undef', 'zero', 'null') else int(e['v']) if e['k'] == 'c' else None for e in o['e']]
            ws = [e['w'] for e in o['e'] if e['k'] == 'c']
            if None in es or not ws: raise Undecided('constant')
            return str(sum(v << (i * ws[0]) for i, v in enumerate(es)))
        if k == 'cgep': return self.gep(o['g'])
        if k == 'cexpr' and o['o'] in ('ptrtoint', 'inttoptr', 'bitcast'): return self.op(o['e'][0])
        if k == 'f': return '0'
        raise Undecided('operand ' + k)
    def gep(self, g):
        if g.get('bad'): raise Undecided('gep')
        s = self.op(g['base'])
        for v, k in g['idx']: s += ' + IX(%s, %d)' % (self.op(v), k)
        if g['off']: s += ' + (%d)' % g['off']
        return '(%s)' % s
    def gen(self, name):
        f = self.fns[name]
        if f['decl'] or 'blocks' not in f: raise Undecided('no body: ' + f['dem'])
        types = {a['id']: a['t'] for a in f['args']}
        for b in f['blocks']:
            for i in b: types[i['id']] = i['t']
        blocks = f['blocks']
        def goto(frm, to, ind):
            ph = [i for i in blocks[to] if i['op'] == 'phi']; r = []
            if ph:
                srcs = [self.op(next(v for b, v in i['in'] if b == frm)) for i in ph]
                r.append(ind + ', '.join('v%d' % i['id'] for i in ph) + ' = ' + ', '.join(srcs))
            if to <= frm: r.append(ind + 'TICK()')
            r.append(ind + 'b = %d; continue' % to); return r
        out = ['def f_%s(%s):' % (san(name), ', '.join('v%d' % a['id'] for a in f['args'])), ' sp = M.sp', ' b = 0', ' while True:']
        def blk(n, ind):
            for i in blocks[n]:
                op = i['op']
                if op == 'phi': continue
                try: out.extend(ind + l for l in self.ins(i, types, goto, n, sp='sp'))
                except Undecided as e: out.append(ind + 'raise Undecided(%r)' % str(e)); return
        def tree(lo, hi, ind):
            if hi - lo == 1: blk(lo, ind); return
            mid = (lo + hi) // 2
            out.append(ind + 'if b < %d:' % mid); tree(lo, mid, ind + ' ')
            out.append(ind + 'else:'); tree(mid, hi, ind + ' ')
        tree(0, len(blocks), '  ')
        return '\n'.join(out) + '\n'
    def ins(self, i, types, goto, n, sp):
        op = i['op']; t = i['t']; d = 'v%d = ' % i['id']; O = self.op
        def ty(o):
            if o['k'] == 'v': return types[o['id']]
            if o['k'] == 'c': return 'i%d' % o['w']
            if o['k'] == 'vec': return '<%d x %s>' % (len(o['e']), ty(next(e for e in o['e'] if e['k'] == 'c')))
            return o.get('t')
        def vt(s):
            m = re.match(r'<(\d+) x i(\d+)>', s or '')
            return (int(m.group(1)), int(m.group(2))) if m else None
        def iw(s):
            m = re.match(r'i(\d+)$', s or ''); return int(m.group(1)) if m else 64 if s == 'ptr' else None
        if op == 'ret': return ['M.sp = sp', 'return ' + (O(i['ops'][0]) if i['ops'] else '0')]
        if op == 'br':
            if 'cond' not in i: return goto(n, i['succ'][0], '')
            return ['if %s:' % O(i['cond'])] + goto(n, i['succ'][0], ' ') + ['else:'] + goto(n, i['succ'][1], ' ')
        if op == 'switch':
            r = ['c = con(%s)' % O(i['cond'])]
            for v, tgt in i['cases']: r += ['if c == %d:' % int(v)] + goto(n, tgt, ' ')
            return r + goto(n, i['def'], '')
        if op == 'unreachable': return ["raise Undecided('unreachable')"]
        if op == 'gep': return [d + self.gep(i)]
        if op == 'alloca': return [d + 'ALLOCA(%d)' % i['asz']]
        if op == 'load':
            if t.startswith('{') or t in ('float', 'double'): raise Undecided('load of ' + t)
            return [d + 'LD(%s, %d)' % (O(i['ops'][0]), i['sz'])]
        if op == 'store':
            if i['vt'] in ('float', 'double'): raise Undecided('float')
            return ['ST(%s, %s, %d)' % (O(i['ops'][1]), O(i['ops'][0]), i['sz'])]
        if op in ('call', 'invoke'): 
            r = self.callins(i, d, t, types, ty, vt, iw)
            return r + (goto(n, i['succ'][0], '') if op == 'invoke' else [])
        a = [O(x) for x in i['ops']] if 'ops' in i else []
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'): return [d + a[0]]
        if op == 'select':
            return [d + 'SEL(%s, %s, %s)' % tuple(a)] if not vt(ty(i['ops'][0])) else ["raise Undecided('vector select')"]
        v = vt(t); w = iw(t)
        if op in ('and', 'or', 'xor'): return [d + '%s %s %s' % (a[0], {'and': '&', 'or': '|', 'xor': '^'}[op], a[1])]
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr'):
            def sc(x, y, w):
                mk_ = (1 << w) - 1
                if op == 'sub' and y.isdigit(): return '(%s + %d) & %d' % (x, -int(y) & mk_, mk_)
                return {'add': '(%s + %s) & %d' % (x, y, mk_), 'sub': '(%s + (%s ^ %d) + 1) & %d' % (x, y, mk_, mk_), 'mul': '(%s * %s) & %d' % (x, y, mk_), 'shl': '(%s << %s) & %d' % (x, y, mk_), 'lshr': '%s >> %s' % (x, y), 'ashr': 'ASHR(%s, %s, %d)' % (x, y, w)}[op]
            if v: return [d + 'VMAP(lambda x, y: %s, %s, %s, %d, %d, %d)' % (sc('x', 'y', v[1]), a[0], a[1], v[1], v[0], v[1])]
            if not w: raise Undecided(t)
            return [d + sc(a[0], a[1], w)]
        if op in ('udiv', 'urem'): return [d + 'UDIV(%s, %s, %r)' % (a[0], a[1], op == 'urem')]
        if op in ('sdiv', 'srem'): return [d + 'SDIV(%s, %s, %d, %r)' % (a[0], a[1], w, op == 'srem')]
        if op == 'icmp':
            s = next((x for x in map(ty, i['ops']) if x and x != '?'), None) or 'ptr'; sv = vt(s); sw = sv[1] if sv else iw(s); p = i['pred']
            h = (1 << (sw - 1)) if p[0] == 's' else 0
            q = lambda x: '(%s ^ %d)' % (x, h) if h else x
            def c(x, y):
                if p == 'eq': return 'EQ(%s, %s)' % (x, y)
                if p == 'ne': return 'NE(%s, %s)' % (x, y)
                k = p[1:]
                return {'lt': 'LT(%s, %s)' % (q(x), q(y)), 'gt': 'LT(%s, %s)' % (q(y), q(x)), 'ge': '1 ^ LT(%s, %s)' % (q(x), q(y)), 'le': '1 ^ LT(%s, %s)' % (q(y), q(x))}[k]
            if sv: return [d + 'VMAP(lambda x, y: %s, %s, %s, %d, %d, 1)' % (c('x', 'y'), a[0], a[1], sv[1], sv[0])]
            return [d + c(a[0], a[1])]
        if op in ('zext', 'trunc', 'sext'):
            f = ty(i['ops'][0]); fv = vt(f)
            if fv:
                g = {'zext': 'x', 'trunc': 'x & %d' % ((1 << v[1]) - 1), 'sext': 'SX(x, %d, %d)' % (fv[1], v[1])}[op]
                return [d + 'join([%s for x in lanes(%s, %d, %d)], %d)' % (g, a[0], fv[1], fv[0], v[1])]
            if op == 'zext': return [d + a[0]]
            if op == 'trunc': return [d + '%s & %d' % (a[0], (1 << w) - 1)]
            return [d + 'SX(%s, %d, %d)' % (a[0], iw(f), w)]
        if op == 'extractelement':
            fv = vt(ty(i['ops'][0])); return [d + '(%s >> (%s * %d)) & %d' % (a[0], a[1], fv[1], (1 << fv[1]) - 1)]
        if op == 'insertelement':
            return [d + 'join([%s if k == %s else x for k, x in enumerate(lanes(%s, %d, %d))], %d)' % (a[1], a[2], a[0], v[1], v[0], v[1])]
        if op == 'shufflevector':
            fv = vt(ty(i['ops'][0])) or vt(ty(i['ops'][1])); return [d + 'SHUF(%s, %s, %r, %d, %d)' % (a[0], a[1], i['mask'], fv[1], fv[0])]
        raise Undecided('instruction ' + op)
    def callins(self, i, d, t, types, ty, vt, iw):
        c = i['callee']
        if c['k'] != 'f': raise Undecided('indirect call')
        n = c['n']; a = None
        if n.startswith('llvm.'):
            if re.match(r'llvm\.(assume|lifetime|dbg|experimental|stack|prefetch|invariant)', n): return [d + '0'] if t != 'void' else ['pass']
            a = [self.op(x) for x in i['ops'] if x['k'] != 'md']; w = iw(t); b = n.split('.')[1]; v = vt(t)
            if b in ('memcpy', 'memmove'): return ['CPY(%s, %s, %s)' % (a[0], a[1], a[2])]
            if b == 'memset': return ['SET(%s, %s, %s)' % (a[0], a[1], a[2])]
            if b == 'ctpop' and w: return [d + 'CTPOP(%s)' % a[0]]
            if b == 'cttz' and w: return [d + 'CTTZ(%s, %d)' % (a[0], w)]
            if b == 'ctlz' and w: return [d + 'CTLZ(%s, %d)' % (a[0], w)]
            if b == 'bswap' and w: return [d + 'BSWAP(%s, %d)' % (a[0], w)]
            if b in ('umin', 'umax', 'smin', 'smax') and w:
                h = (1 << (w - 1)) if b[0] == 's' else 0
                x, y = ('(%s ^ %d)' % (a[0], h), '(%s ^ %d)' % (a[1], h)) if h else (a[0], a[1])
                return [d + 'SEL(LT(%s, %s), %s, %s)' % ((x, y, a[0], a[1]) if b.endswith('min') else (x, y, a[1], a[0]))]
            if b == 'abs' and w: return [d + 'con(%s) if con(%s) < %d else %d - con(%s)' % (a[0], a[0], 1 << (w - 1), 1 << w, a[0])]
            if b == 'fshl' and w: return [d + '((%s << (%s %% %d)) | (%s >> (%d - %s %% %d))) & %d' % (a[0], a[2], w, a[1], w, a[2], w, (1 << w) - 1)]
            if n == 'llvm.x86.ssse3.pshuf.b.128': return [d + 'PSHUFB(%s, %s, 16)' % (a[0], a[1])]
            if n == 'llvm.x86.avx2.pshuf.b': return [d + 'PSHUFB(%s, %s, 32)' % (a[0], a[1])]
            if n in ('llvm.x86.sse2.psrli.q', 'llvm.x86.sse2.pslli.q'): return [d + 'join([(x %s con(%s)) & %d for x in lanes(%s, 64, 2)], 64)' % ('>>' if 'srli' in n else '<<', a[1], (1 << 64) - 1, a[0])]
            if n in ('llvm.x86.sse41.ptestz', 'llvm.x86.avx.ptestz.256'): return [d + 'EQ(%s & %s, 0)' % (a[0], a[1])]
            if n in ('llvm.x86.sse41.ptestc', 'llvm.x86.avx.ptestc.256'):
                return [d + 'EQ((%s ^ %d) & %s, 0)' % (a[0], (1 << (128 if 'sse' in n else 256)) - 1, a[1])]
            raise Undecided(n)
        f = self.fns.get(n)
        if f is None: raise Undecided('call')
        if self.IGNORE.search(f['dem']) or self.IGNORE.search(n): return [d + '0'] if t != 'void' else ['pass']
        a = [self.op(x) for x in i['ops']]
        call = 'M.fn(%r)(%s)' % (n, ', '.join(a)) if self.code.get(n) is None else 'f_%s(%s)' % (san(n), ', '.join(a))
        return [(d if t != 'void' else '') + call]
def IX(v, k):
    """index times stride; unknown indices become sets of values"""
    if type(v) is int: return (v - (1 << 64) if v >> 63 else v) * k
    return PSet([x * k for x in vals(v)])
def san(n): return re.sub(r'\W', '_', n)
