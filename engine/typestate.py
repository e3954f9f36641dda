"""Small interprocedural typestate engine over the JSON IR.

A property is a transfer function on (function, instruction, state) for one tracked object: the object the first
argument of each analysed function points into.  Summaries map an entry state to the set of exits
('ret', state) / ('ex', type, state); exceptions are those of throws.Throws.
"""
class Roots:
    """where a pointer comes from: ('arg', k, off) | ('alloca', id) | ('other',)"""
    def __init__(self, f):
        self.f = f; self.defs = {}
        for a in range(len(f['args'])): self.defs[f['args'][a]['id']] = ('A', a)
        for b in f['blocks']:
            for i in b: self.defs[i['id']] = i
        self.memo = {}
    def root(self, o, depth=0):
        if o.get('k') == 'g': return ('global', o.get('n'))
        if o.get('k') == 'gep' or 'base' in o and o.get('k') != 'v': return self._gep(o, depth)
        if o.get('k') != 'v': return ('other',)
        i = o['id']
        if i in self.memo: return self.memo[i]
        self.memo[i] = ('other',)
        r = self._def(self.defs.get(i), i, depth)
        self.memo[i] = r
        return r
    def _gep(self, g, depth):
        b = self.root(g['base'], depth + 1)
        off = g.get('off', 0); var = g.get('idx') or g.get('vars')
        if b[0] == 'arg': return ('arg', b[1], None if (var or b[2] is None) else b[2] + off)
        return b
    def _def(self, d, i, depth):
        if d is None or depth > 60: return ('other',)
        if d.__class__ is tuple: return ('arg', d[1], 0)
        op = d['op']
        if op == 'alloca': return ('alloca', i)
        if op in ('gep', 'getelementptr'): return self._gep(d, depth)
        if op in ('bitcast', 'addrspacecast', 'freeze'): return self.root(d['ops'][0], depth + 1)
        if op in ('phi', 'select'):
            rs = {self.root(x[1] if op == 'phi' else x, depth + 1) for x in (d['in'] if op == 'phi' else d['ops'][1:])}
            rs.discard(('other',)) if len(rs) > 1 else None
            return rs.pop() if len(rs) == 1 else ('other',)
        return ('other',)

class Typestate:
    def __init__(self, m, T, transfer, descend, refine=None):
        """transfer(fn, ins, root, state) -> None (not a primitive) | iterable of states
           descend(callee name) -> analyse the callee on the same object
           refine(fn, condition, truth, state) -> state on that side of a branch, None when it cannot be taken"""
        self.refine = refine; self.lost = set()
        self.m = m; self.T = T; self.F = T.F; self.transfer = transfer; self.descend = descend
        self.roots = {}; self.sum = {}; self.busy = set(); self.changed = False
        self.trace = {}
    def root(self, n, o):
        if n not in self.roots: self.roots[n] = Roots(self.F[n])
        return self.roots[n].root(o)
    def captured(self, n, ins):
        """the object is handed on inside something else (a closure)"""
        R = self.roots.setdefault(n, Roots(self.F[n]))
        if not hasattr(R, 'caps'):
            R.caps = set()
            for b in R.f['blocks']:
                for i in b:
                    if i['op'] == 'store' and R.root(i['ops'][0])[:2] == ('arg', 0):
                        t = R.root(i['ops'][1])
                        if t[0] == 'alloca': R.caps.add(t)
        return any(R.root(o) in R.caps for o in ins['ops'])
    def cond(self, n, o):
        """(callee, root of its first argument, comparison or None) behind a branch condition"""
        d = self.roots.setdefault(n, Roots(self.F[n])).defs; neg = False
        i = d.get(o.get('id')) if o.get('k') == 'v' else None; cmp = None
        for _ in range(8):
            if not isinstance(i, dict): return None
            op = i['op']
            if op == 'xor' and i['ops'][1].get('k') == 'c': neg = not neg; i = d.get(i['ops'][0].get('id'))
            elif op in ('freeze', 'zext', 'trunc'): i = d.get(i['ops'][0].get('id'))
            elif op == 'icmp' and i['ops'][1].get('k') == 'c' and cmp is None: cmp = (i.get('pred'), i['ops'][1].get('v')); i = d.get(i['ops'][0].get('id'))
            elif op in ('call', 'invoke'):
                c = i['callee'].get('n')
                return (c, self.root(n, i['ops'][0]) if i['ops'] else ('other',), cmp, neg)
            else: return None
        return None
    def run(self, n, s):
        for _ in range(8):
            self.changed = False; self.busy = set(); old = {k: set(v) for k, v in self.sum.items()}
            r = self.summary(n, s, top=True)
            if old == {k: set(v) for k, v in self.sum.items()}: break
        return r
    def summary(self, n, s, top=False):
        k = (n, s)
        if k in self.busy: return self.sum.get(k, set())
        self.busy.add(k)
        out = self.analyse(n, s)
        self.sum[k] = self.sum.get(k, set()) | out
        return self.sum[k]
    def analyse(self, n, s0):
        f = self.F[n]; pads = {}
        seen = {(0, s0, None)}; work = [(0, s0, None)]; out = set()
        def push(x):
            if x not in seen: seen.add(x); work.append(x)
        while work:
            bi, s, ex = work.pop()
            states = {(s, ex)}
            b = f['blocks'][bi]
            for ins in b:
                op = ins['op']; nxt = set()
                for s, ex in states:
                    if op in ('call', 'invoke'):
                        c = ins['callee'].get('n')
                        root = self.root(n, ins['ops'][0]) if ins['ops'] else ('other',)
                        res = None
                        if c == '__cxa_throw' or c == '__cxa_rethrow':
                            t = ins['ops'][1].get('n', '?') if c == '__cxa_throw' else (ex or '?')
                            exits = {('ex', t, s)} if t not in ('_ZTISt9bad_alloc', '_ZTISt12length_error') else set()
                        else:
                            tr = self.transfer(n, ins, root, s)
                            if tr is not None: exits = {('ret', x) for x in tr}
                            elif c in self.F and root[0] == 'arg' and root[1] == 0 and self.descend(c): exits = set(self.summary(c, s))
                            else:
                                exits = {('ret', s)}
                                if c in self.F and self.captured(n, ins): self.lost.add((n, c))
                            if not (c in self.F and root[0] == 'arg' and root[1] == 0 and self.descend(c) and tr is None):
                                exits |= {('ex', t, s) for t in self.T.raised(n, ins)}
                        for e in exits:
                            if e[0] == 'ret':
                                if op == 'invoke': push((ins['succ'][0], e[1], None))
                                else: nxt.add((e[1], ex))
                            elif op == 'invoke': push((ins['succ'][1], e[2], e[1]))
                            else: out.add(e)
                        continue
                    if op == 'landingpad':
                        nxt.add((s, ex)); continue
                    if op == 'store':
                        tr = self.transfer(n, ins, self.root(n, ins['ops'][1]), s)
                        for x in ([s] if tr is None else tr): nxt.add((x, ex))
                        continue
                    if op == 'resume':
                        out.add(('ex', ex or '?', s)); continue
                    if op == 'ret':
                        out.add(('ret', s)); continue
                    if op in ('br', 'switch'):
                        ss = list(ins.get('succ') or []) + ([ins['def']] + [x[1] for x in ins['cases']] if op == 'switch' else [])
                        if op == 'br' and len(ss) == 2 and self.refine and ins.get('cond'):
                            for tv, x in ((True, ss[0]), (False, ss[1])):
                                s2 = self.refine(n, self.cond(n, ins['cond']), tv, s)
                                if s2 is not None: push((x, s2, ex))
                            continue
                        for x in ss: push((x, s, ex))
                        continue
                    nxt.add((s, ex))
                if op in ('ret', 'br', 'switch', 'resume', 'unreachable', 'invoke'): break
                states = nxt
                if not states: break
        return out
