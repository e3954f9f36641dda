"""Finite transducers extracted from readers and writers of whole positions.

A function is cut at its loop headers (in every function it calls, too).  The state at a cut is the live part of the
environment, exactly, plus memory joined over all arrivals (cells that differ become counters or unknown); the paths
between two cuts become edges labelled with the inputs they depend on (restricted domains of named fields) and the
effects they have, in order.  The result is a finite graph that covers every execution; nothing is executed.
"""
import re
from lin import *
import lin

class Term:
    __slots__ = ('t',)
    def __init__(self, *t): self.t = t
    def __repr__(self): return 'T%r' % (self.t,)
    def __eq__(self, o): return isinstance(o, Term) and self.t == o.t
    def __hash__(self): return hash(self.t)

class XState(State):
    def __init__(self, full):
        super().__init__({f: n for f, n in full.items()})
        self.ev = []; self.node = None; self.k = {}; self.good = K(1)
    def copy(self):
        s = super().copy(); s.__class__ = XState
        s.ev = list(self.ev); s.node = self.node; s.k = dict(self.k); s.good = self.good
        return s

def uses(x):
    if isinstance(x, dict):
        if x.get('k') == 'v' and 'id' in x: yield x['id']
        for k, v in x.items():
            if isinstance(v, (dict, list)): yield from uses(v)
    elif isinstance(x, list):
        for v in x: yield from uses(v)

class Again(Exception): pass

class CFG:
    def __init__(self, f):
        B = f['blocks']; n = len(B)
        self.succ = []
        for b in B:
            t = b[-1]
            s = list(t.get('succ', ()))
            if t['op'] == 'invoke': s = s[:1]
            if t['op'] == 'switch': s = [d for _, d in t['cases']] + [t['def']]
            self.succ.append(s)
        self.wid = {a['id']: 32 for a in f['args'] if a['t'] == 'i32'}
        for b in B:
            for i in b:
                if i['t'] == 'i32': self.wid[i['id']] = 32
        self.headers = set(); col = [0] * n
        stack = [(0, iter(self.succ[0]))]; col[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if col[s] == 1: self.headers.add(s)
                elif col[s] == 0: col[s] = 1; stack.append((s, iter(self.succ[s]))); break
            else: col[b] = 2; stack.pop()
        # values live after the phis of each block
        self.live = [set() for _ in B]; ch = True
        self.f = f
        gen, kill = [], []
        for b in B:
            g = set(); d = set()
            for i in b:
                if i['op'] != 'phi': g |= set(uses({k: v for k, v in i.items() if k != 'in'})) - d
                if i['op'] != 'phi': d.add(i['id'])
            gen.append(g); kill.append(d)
        self.phi = [{i['id'] for i in b if i['op'] == 'phi'} for b in B]
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = self.out(b)
                l = gen[b] | (out - kill[b])
                if l != self.live[b]: self.live[b] = l; ch = True
        self.after = {}
    def out(self, b):
        o = set()
        for s in self.succ[b]:
            o |= self.live[s] - self.phi[s]
            for i in self.f['blocks'][s]:
                if i['op'] != 'phi': break
                for p, v in i['in']:
                    if p == b: o |= set(uses(v))
        return o
    def liveafter(self, bi, k):
        """live after instruction k-1 of block bi"""
        if (bi, k) not in self.after:
            l = self.out(bi); B = self.f['blocks'][bi]
            for i in reversed(B[k:]):
                if i['op'] == 'phi': continue
                l = (l - {i['id']}) | set(uses({a: b for a, b in i.items() if a != 'in'}))
            self.after[(bi, k)] = l
        return self.after[(bi, k)]

class Extract(Interp):
    def __init__(self, m, hooks, posload=None, posstore=None, fuel=4000000):
        super().__init__(m, posload, hooks, fuel)
        self.E = {k: dict(v) for k, v in m['enums'].items()}
        self.P = {x['name']: x['off'] // 8 for x in m['records']['Position']['members']}
        self.S = {x['name']: x['off'] // 8 for x in m['records']['StateInfo']['members']}
        self.cfgs = {}; self.posstore = posstore; self.counters = set(); self.full = {}; self.inits = {}
        self.initmem = {}; self.initstrs = {}; self.initmaps = {}
    def field(self, st, f, n):
        if f not in self.full: self.full[f] = n
        if f not in st.dom: st.sizes[f] = n; st.dom[f] = tuple(range(n))
    def cfg(self, name):
        if name not in self.cfgs: self.cfgs[name] = CFG(self.F[name])
        return self.cfgs[name]
    # ---- extraction -----------------------------------------------------------------------------------
    def extract(self, name, args):
        """the graph: {node: [(dst, domains, events, return value)]}"""
        for _ in range(12):
            self.nodes = {}; self.edges = []; self.frames = []; self.percut = {}; self.ids = {}
            st = XState({}); st.sizes = {}; st.mem = {o: dict(c) for o, c in self.initmem.items()}; st.strs = dict(self.initstrs); st.maps = self.initmaps
            st.node = ('start', 0); self.fuel = self.fuel0
            try:
                for v, s in self.call(name, args, st, 0): self.edge(s, 'end', v)
            except Again: continue
            break
        else: raise Undecided('no fixed point')
        g = {}; ver = {n: x['ver'] for n, x in self.nodes.items()}; ver['start'] = 0
        for (src, v), dst, doms, ev, ret in self.edges:
            if ver.get(src) == v: g.setdefault(src, []).append((dst, doms, ev, ret))
        # counters nothing looks at (cells that are dead where they differ)
        used = repr([(d, [e if e[0] not in ('count', 'countset') else e[2] if e[0] == 'countset' else [f for f, _ in e[2].p if f != e[3]] for e in ev], r) for es in g.values() for _, d, ev, r in es])
        dead = {e[3] for es in g.values() for _, _, ev, _ in es for e in ev if e[0] in ('count', 'countset') if e[3] not in used}
        if dead: g = {n: [(dst, d, tuple(e for e in ev if e[0] not in ('count', 'countset') or e[3] not in dead), r) for dst, d, ev, r in es] for n, es in g.items()}
        return g
    def edge(self, st, dst, ret=None):
        doms = {f: d for f, d in st.dom.items() if len(d) < self.full[f]}
        ev = tuple(tuple(st.norm(x) if isinstance(x, V) else tuple(st.norm(y) if isinstance(y, V) else y for y in x) if isinstance(x, tuple) else x for x in e) for e in st.ev)
        if st.approx: ev += (('approx',),)
        self.edges.append((st.node, dst, doms, ev, ret))
    def canon(self, st, v):
        if isinstance(v, V):
            v = st.norm(v)
            return v.c if not v.p else ('V', v.c, v.p)
        if isinstance(v, Ptr): return ('P', v.o, 'TOP' if v.off == TOP else self.canon(st, v.off))
        if isinstance(v, Term): return v
        return TOP
    def fieldsof(self, st, v):
        if isinstance(v, Ptr): v = v.off
        return [f for f, _ in st.norm(v).p] if isinstance(v, V) else []
    def token(self): return tuple(x[0] for x in self.frames)
    def memory(self, st):
        """memory at a cut; reports changes of counters as events"""
        tok = self.token(); out = {}
        for o, cells in st.mem.items():
            if o[0] == 'alloca' and o[1] != tok[:len(o[1])]: continue
            d = {}
            for off, (v, sz) in cells.items():
                ck = (o, off)
                if ck in self.counters:
                    f = '@%s+%d' % (o[-1], off); self.field(st, f, 19); base = fld(f, 19)
                    if isinstance(v, V):
                        v = st.norm(v)
                        if f in [g for g, _ in v.p]:
                            dl = st.norm(add(v, base, -1))
                            if dl.p or dl.c: st.ev.append(('count', off // sz, dl, f))
                        else: st.ev.append(('countset', off // sz, v, f))
                    else: st.ev.append(('countset', off // sz, TOP, f))
                    d[off] = (base, sz); continue
                if isinstance(v, Ptr) and v.off != TOP and any(not self.stable(f) for f in self.fieldsof(st, v)): v = Ptr(v.o, TOP)
                elif any(not self.stable(f) for f in self.fieldsof(st, v)): v = TOP
                d[off] = (v, sz)
            out[o] = d
        return out
    def join(self, a, b):
        out = {}; eq = True
        for o in a:
            if o not in b: eq = False; continue
            d = {}
            for off, (v, sz) in a[o].items():
                w = b[o].get(off)
                if w is None or w[1] != sz: eq = False; continue
                w = w[0]
                same = v == w if not isinstance(v, Ptr) else isinstance(w, Ptr) and (v.o, v.off) == (w.o, w.off)
                if same: d[off] = (v, sz); continue
                if isinstance(v, V) and isinstance(w, V) and sz == 4 and o[0] == 'alloca' and abs(v.c) <= 100 and abs(w.c) <= 100 and (o, off) not in self.counters:
                    self.counters.add((o, off)); raise Again
                if isinstance(v, Ptr) and isinstance(w, Ptr) and v.o == w.o:
                    d[off] = (Ptr(v.o, TOP), sz)
                    if v.off != TOP: eq = False
                    continue
                d[off] = (TOP, sz)
                if not (isinstance(v, str) and v == TOP): eq = False
            out[o] = d
        return out, eq
    def cut(self, st, name, bi, env):
        """None: seen before; ForkField when the live values depend on an input"""
        live = self.cfg(name).live[bi]; key = []; sticky = set()
        for x in sorted(live):
            v = env.get(x, TOP)
            fs = self.fieldsof(st, v)
            fs = [f for f in fs if not self.stable(f)]
            if fs: raise ForkField(fs[0], {i: i for i in st.dom[fs[0]]})
            c = self.canon(st, v)
            if isinstance(c, int) and self.cfg(name).wid.get(x) == 32: c = (c + (1 << 31)) % (1 << 32) - (1 << 31)
            key.append((x, c))
            if isinstance(c, int) and 300 < abs(c) < 1 << 31: self.edge(st, 'far'); return None
        fr = []
        for tag, e, lv in self.frames:
            fr.append((tag, tuple((x, self.canon(st, e.get(x, TOP))) for x in sorted(lv))))
            for x in lv: sticky |= {f for f in self.fieldsof(st, e.get(x, TOP)) if not self.stable(f)}
        mem = self.memory(st)
        for f in sorted(sticky): key.append((f, st.dom[f]))
        key = (name, bi, tuple(key), tuple(fr), repr(st.norm(st.good)))
        n = self.ids.setdefault(key, len(self.ids)); nd = self.nodes.get(n)
        fs = self.fieldsof(st, st.good)
        if fs: raise ForkField(fs[0], {i: i == 256 for i in st.dom[fs[0]]})
        self.edge(st, n)
        if nd is None:
            self.percut[(name, bi)] = self.percut.get((name, bi), 0) + 1
            if self.percut[(name, bi)] > 6000: raise Undecided('loop without bound in ' + name)
        if nd is None: nd = self.nodes[n] = {'mem': mem, 'ver': 0, 'where': (self.F[name].get('dem', name), self.F[name]['blocks'][bi][-1].get('line'))}
        else:
            j, eq = self.join(nd['mem'], mem)
            if eq: return None
            nd['mem'] = mem = j; nd['ver'] += 1
        s = st.copy(); s.mem = {o: dict(c) for o, c in mem.items()}; s.ev = []; s.node = (n, nd['ver']); s.k = {}; s.zones = {}; s.approx = False; s.good = st.norm(st.good)
        keep = {f: st.dom[f] for f in sticky}
        s.dom = {}; s.sizes = {}
        for f, d in keep.items(): s.sizes[f] = self.full[f]; s.dom[f] = d
        for o, c in s.mem.items():
            for off, (v, sz) in c.items():
                for f in (x for x, _ in (v.p if isinstance(v, V) else v.off.p if isinstance(v, Ptr) and v.off != TOP else ())): self.field(s, f, self.full[f])
        for x in live:
            v = env.get(x)
            for f in self.fieldsof(st, v): self.field(s, f, self.full[f])
        for tag, e, lv in self.frames:
            for x in lv:
                for f in self.fieldsof(st, e.get(x, TOP)): self.field(s, f, self.full[f])
        self.resume(s)
        return s
    def resume(self, st): pass
    def stable(self, f):
        """a quantity of the input that means the same throughout"""
        return f[0] == '@'
    def call(self, name, args, st, depth):
        f = self.F.get(name)
        if not f or not f.get('blocks'): raise Undecided('call of %s' % (f or {}).get('dem', name))
        if depth > 30: raise Undecided('recursion')
        self.called.add(name)
        cfg = self.cfg(name)
        env = {a['id']: v for a, v in zip(f['args'], args)}
        work = [(0, None, env, st, 0)]
        while work:
            bi, prev, env, st, pos = work.pop()
            blk = f['blocks'][bi]
            if pos == 0:
                new = {}; old = env
                for i in blk:
                    if i['op'] != 'phi': break
                    for b, o in i['in']:
                        if b == prev: new[i['id']] = self.operand(st, env, o); break
                if new: env = dict(env); env.update(new)
                if bi in cfg.headers:
                    try: st2 = self.cut(st, name, bi, env)
                    except ForkField as ff: self.split_(work, ff, st, bi, prev, old, 0); continue
                    if st2 is None: continue
                    lv = cfg.live[bi]
                    env = {x: (st.norm(v) if isinstance(v, V) else Ptr(v.o, st.norm(v.off)) if isinstance(v, Ptr) and v.off != TOP else v) for x, v in env.items() if x in lv}; st = st2
            k = pos
            while k < len(blk):
                i = blk[k]; op = i['op']; k += 1
                if op == 'phi': continue
                self.fuel -= 1
                if self.fuel < 0: raise Undecided('too many steps')
                if op == 'ret': yield (self.operand(st, env, i['ops'][0]) if i['ops'] else None), st; break
                try:
                    if op == 'br':
                        if 'cond' not in i: work.append((i['succ'][0], bi, env, st, 0)); break
                        fk = self.fork(st, self.operand(st, env, i['cond']))
                        for tv, s in fk: work.append((i['succ'][0 if tv else 1], bi, dict(env) if len(fk) > 1 else env, s, 0))
                        break
                    if op == 'switch':
                        v = self.operand(st, env, i['cond']); rest = [st]
                        for cv, dst in i['cases']:
                            nr = []
                            for s in rest:
                                c = self.compare(s, 'eq', v, K(int(cv)), 64) if v != TOP else TOP
                                for tv, s2 in self.fork(s, c):
                                    if tv: work.append((dst, bi, dict(env), s2, 0))
                                    else: nr.append(s2)
                            rest = nr
                        for s in rest: work.append((i['def'], bi, dict(env), s, 0))
                        break
                    if op in ('unreachable', 'resume'): break
                    if op == 'select':
                        c = self.operand(st, env, i['ops'][0]); fk = self.fork(st, c)
                        if len(fk) == 1: env[i['id']] = self.operand(st, env, i['ops'][1 if fk[0][0] else 2]); st = fk[0][1]; continue
                        a, b = self.operand(st, env, i['ops'][1]), self.operand(st, env, i['ops'][2])
                        for tv, s in fk: e = dict(env); e[i['id']] = a if tv else b; work.append((bi, prev, e, s, k))
                        break
                    if op in ('call', 'invoke'):
                        self.frames.append(((name, bi, k), env, cfg.liveafter(bi, k) - {i['id']}))
                        try: res = self.docall(st, env, i, depth)
                        finally: self.frames.pop()
                        if isinstance(res, list):
                            for v, s in res:
                                e = dict(env); e[i['id']] = v
                                if op == 'invoke': work.append((i['succ'][0], bi, e, s, 0))
                                else: work.append((bi, prev, e, s, k))
                            break
                        env[i['id']] = res
                        if op == 'invoke': work.append((i['succ'][0], bi, env, st, 0)); break
                        continue
                    env[i['id']] = self.ins(st, env, i, depth) if op != 'store' else self.store(st, self.operand(st, env, i['ops'][1]), self.operand(st, env, i['ops'][0]), i['sz'])
                except ForkField as ff:
                    self.split_(work, ff, st, bi, prev, env, k - 1); break
    def split_(self, work, ff, st, bi, prev, env, k):
        for g in sorted(set(ff.groups.values()), key=repr):
            s = st.copy(); s.dom[ff.field] = tuple(x for x in st.dom[ff.field] if ff.groups.get(x) == g)
            work.append((bi, prev, dict(env), s, k))
    def ins(self, st, env, i, depth):
        if i['op'] == 'alloca': return Ptr(('alloca', self.token(), '%s.%s' % (len(self.frames), i['id'])), K(0))
        if i['op'] in ('gep', 'getelementptr'):
            b = self.operand(st, env, i['base'])
            if isinstance(b, Ptr) and b.off != TOP and len(i.get('idx', ())) == 1:
                x = i['idx'][0]; v = self.operand(st, env, x[0] if isinstance(x, (list, tuple)) else x['v'])
                if isinstance(v, Term): return Ptr(('at', b.o, self.canon(st, b.off), v, int(x[1] if isinstance(x, (list, tuple)) else x['s'])), K(i.get('off', 0)))
        if i['op'] in ('zext', 'sext', 'trunc'):
            v = self.operand(st, env, i['ops'][0])
            if isinstance(v, Term): return v
        return super().ins(st, env, i, depth)
    def memcpy(self, st, d, s, n):
        if isinstance(s, Ptr) and s.o[0] == 'g' and s.o not in st.mem and self.gbytes(s.o[1]) and n % 4 == 0 and not st.norm(s.off).p and st.norm(d.off).c % 4 == 0:
            for k in range(0, n, 4): self.store(st, Ptr(d.o, add(d.off, K(k))), self.load(st, Ptr(s.o, add(s.off, K(k))), 4), 4)
            return
        super().memcpy(st, d, s, n)
    # ---- values ---------------------------------------------------------------------------------------
    def binop(self, st, op, a, b, w):
        if isinstance(a, Term) or isinstance(b, Term): return Term(op, self.canon(st, a), self.canon(st, b))
        r = super().binop(st, op, a, b, w)
        if isinstance(r, str) and r == TOP and isinstance(a, V) and isinstance(b, V):
            fs = sorted({f for v in (st.norm(a), st.norm(b)) for f, _ in v.p}, key=lambda f: (len(st.dom[f]), f))
            if fs and len(st.dom[fs[0]]) <= 40: raise ForkField(fs[0], {i: i for i in st.dom[fs[0]]})
        return r
    def compare(self, st, pred, a, b, w):
        if isinstance(a, Term) or isinstance(b, Term):
            if a == b and pred in ('eq', 'ne'): return K(int(pred == 'eq'))
            f = 'c:%s:%r:%r' % (pred, a, b); self.field(st, f, 2); return fld(f, 2)
        return super().compare(st, pred, a, b, w)
    def fork(self, st, cond):
        if isinstance(cond, Term):
            f = 'c:%r' % (cond,); self.field(st, f, 2); cond = fld(f, 2)
        if isinstance(cond, Cmp) and cond.pred in ('eq', 'ne'):
            # a sum of non-negative parts is zero exactly when every part is
            d = st.norm(cond.d); c, ps = st.parts(d)
            if c == 0 and len(ps) > 1:
                out = []; cur = st
                for f, t in ps:
                    z = tuple(i for i in cur.dom[f] if t[i] == 0); nz = tuple(i for i in cur.dom[f] if t[i])
                    s = cur.copy(); s.dom[f] = nz; out.append((cond.pred == 'ne', s))
                    cur = cur.copy(); cur.dom[f] = z
                return out + [(cond.pred == 'eq', cur)]
        return super().fork(st, cond)
    def vary(self, st, off):
        f, t = st.norm(off).p[0]; raise ForkField(f, {i: t[i] for i in st.dom[f]})
    def load(self, st, p, sz, isptr=False):
        if isinstance(p, Ptr) and p.off != TOP:
            off = st.norm(p.off)
            if p.o[0] == 'g' and 'ptrs' in self.G.get(p.o[1], {}) and sz == 8:
                if off.p: self.vary(st, off)
                n = self.G[p.o[1]]['ptrs']; k = off.c // 8
                return Ptr(('g', n[k]), K(0)) if 0 <= k < len(n) and n[k] else TOP
            if off.p and p.o in st.mem and p.o[0] != 'pos': self.vary(st, off)
            if p.o[0] in ('st', 'in', 'in2', 'out', 'ios', 'at'): return self.special(st, p, off, sz)
        return super().load(st, p, sz, isptr)
    def special(self, st, p, off, sz): return TOP
    def store(self, st, p, v, sz):
        if isinstance(p, Ptr) and p.off != TOP:
            off = st.norm(p.off)
            if p.o[0] in ('pos', 'st', 'out'):
                st.ev.append((p.o[0], off, v if not isinstance(v, V) else st.norm(v), sz)); return K(0)
            if off.p: self.vary(st, off)
        elif not isinstance(p, Ptr): return K(0)            # inside library objects (streams)
        elif p.o[0] == 'alloca': st.mem[p.o] = {}; return K(0)   # somewhere in this object
        super().store(st, p, v, sz); return K(0)
    def docall(self, st, env, i, depth):
        cn = i['callee'].get('n', '')
        if cn.startswith('llvm.memset'):
            a = [self.operand(st, env, o) for o in i['ops'][:3]]
            if isinstance(a[0], Ptr) and a[0].o[0] in ('pos', 'st', 'out'):
                st.ev.append(('zero' if a[1] == K(0) else 'fill', a[0].o[0], st.norm(a[0].off), st.norm(a[2]))); return K(0)
        if cn.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental')): return K(0)
        if cn == '__cxa_throw': self.edge(st, 'throw'); return []
        if cn in ('__cxa_allocate_exception', '__cxa_free_exception'): return K(0) if 'free' in cn else Ptr(('exc',), K(0))
        return super().docall(st, env, i, depth)
