"""Interprocedural typestate: how many moves deep is a position, relative to function entry, on every way out?

For each function and each Position pointer it is given, the analysis computes the set of net depths
(moves made minus moves taken back) at every normal exit and at every exit by exception, by a forward
data-flow over (block, depth vector, exception in flight) with function summaries to a fixpoint.
"""
import re
OMEGA = 'w'
CAP = 6
MAKE = re.compile(r'^(void )?Position::doMove\(')
UNMAKE = re.compile(r'^(void )?Position::undoMove\(')
PASS = re.compile(r'^(void )?Position::doNullMove<(true|false)>\(')

class Explosion(Exception): pass

class Depth:
    def __init__(self, mod):
        self.m = mod; self.F = mod['fns']
        self.sum = {}         # name -> {'ok': set of vec, 'ex': set of (type, vec)}  vec: tuple of (argidx, depth)
        self.calls = 0
        self.unknown = []
        self.analysed = 0
        self.paths = {}
        self.exploded = set()
        self.pairs_by = {}; self.cur = {}
        self.touch = {}       # name -> set of arg idx whose Position may be moved
        self.prep()

    def dem(self, n):
        f = self.F.get(n); return f['dem'] if f else n

    def prep(self):
        F = self.F
        self.defs = {}
        callers = {}
        for n, f in F.items():
            if 'blocks' not in f: continue
            d = {}
            for i, a in enumerate(f['args']): d[a['id']] = ('arg', i)
            for b in f['blocks']:
                for ins in b: d.setdefault(ins['id'], ins)
            self.defs[n] = d
        # which args may be moved, transitively
        prim = {}
        for n, f in F.items():
            dm = f['dem']
            if MAKE.match(dm): prim[n] = 1
            elif UNMAKE.match(dm): prim[n] = -1
            elif PASS.match(dm): prim[n] = 1 if '<true>' in dm else -1
        self.prim = prim
        self.local = {}
        ch = True
        self.touch = {n: {0} for n in prim}
        # may throw: set of type names
        self.throws = {}
        while ch:
            ch = False
            for n, f in F.items():
                if 'blocks' not in f or n in prim: continue
                t = self.touch.setdefault(n, set()); before = len(t)
                for b in f['blocks']:
                    for ins in b:
                        if ins['op'] in ('call', 'invoke') and ins['callee'].get('k') == 'f':
                            c = ins['callee']['n']
                            for ai in self.touch.get(c, ()):
                                if ai < len(ins['ops']):
                                    k = self.root(n, ins['ops'][ai])
                                    if k is not None and k not in t and k[0] != 'local': t.add(k if k[0] != 'arg' else k[1])
                if len(t) != before: ch = True

    def root(self, n, o, seen=None):
        """which object a pointer operand denotes: ('arg', i) / ('local', id) / ('mem', ...)"""
        seen = seen or set()
        if o.get('k') == 'g': return ('glob', o['n'])
        if o.get('k') != 'v': return ('other', str(o.get('k')))
        d = self.defs[n].get(o['id'])
        if isinstance(d, tuple): return d
        if d is None or o['id'] in seen: return None
        seen.add(o['id'])
        if d['op'] == 'alloca': return ('local', o['id'])
        if d['op'] in ('bitcast', 'freeze'): return self.root(n, d['ops'][0], seen)
        if 'base' in d:
            r = self.root(n, d['base'], seen)
            if r and r[0] == 'local': return r
            if d['off'] == 0 and not d['idx']: return r
            return ('mem', repr(r), d['off'])
        if d['op'] == 'phi':
            rs = {self.root(n, x, set(seen)) for _, x in d['in']} - {None}
            return rs.pop() if len(rs) == 1 else ('mem', repr(sorted(map(repr, rs))))
        if d['op'] == 'select':
            rs = {self.root(n, x, set(seen)) for x in d['ops'][1:]} - {None}
            return rs.pop() if len(rs) == 1 else ('mem', repr(sorted(map(repr, rs))))
        if d['op'] == 'load':
            r = self.root(n, d['ops'][0], seen)
            return ('mem', 'load', repr(r))
        if d['op'] in ('call', 'invoke'): return ('local', o['id'])    # a freshly built object
        return ('other', d['op'])

    def relevant(self):
        return [n for n, t in self.touch.items() if t and n not in self.prim and 'blocks' in self.F[n]]

    # ---- exceptions
    def solve(self):
        """Assume-guarantee induction on call depth: each function is analysed with its callees' single
        net depth assumed; the assumption about a callee is its own result (helpers that only make a move
        get +1), and what cannot be brought to one depth is kept in self.bad."""
        allf = [n for n, f in self.F.items() if 'blocks' in f and n not in self.prim]
        # exception types, plain may-analysis
        ex = {n: set() for n in allf}
        ch = True
        while ch:
            ch = False
            for n in allf:
                s = ex[n]; b0 = len(s)
                for b in self.F[n]['blocks']:
                    for ins in b:
                        if ins['op'] not in ('call', 'invoke') or ins['callee'].get('k') != 'f': continue
                        c = ins['callee']['n']
                        ts = {ins['ops'][1].get('n', '?')} if c == '__cxa_throw' else ex.get(c, set())
                        if not ts: continue
                        if ins['op'] == 'call': s |= ts
                        else:
                            lp = next((i for i in self.F[n]['blocks'][ins['succ'][1]] if i['op'] == 'landingpad'), None)
                            cl = [c2['v'] for c2 in lp['clauses'] if c2['catch']] if lp else []
                            caught = {v.get('n') for v in cl if v.get('k') == 'g'}
                            anyc = any(v.get('k') != 'g' for v in cl)
                            s |= set() if anyc else ts - caught
                            if self.rethrows(n): s |= ts
                if len(s) != b0: ch = True
        self.exc = ex
        for n in allf: self.sum[n] = {'ok': {((), None)}, 'ex': {(t, ()) for t in ex[n]}}
        for n in self.F:
            if n not in self.sum: self.sum[n] = {'ok': {((), None)}, 'ex': set()}
        rel = self.relevant()
        res = {}
        single = lambda ok: len({v for v, _ in ok}) == 1 and not any(OMEGA == d for v, _ in ok for _, d in v)
        for rnd in range(8):
            ch = False
            for n in rel:
                ok, exs = self.flow(n)
                res[n] = (ok, exs)
                if single(ok) and ok != self.sum[n]['ok']:
                    self.sum[n]['ok'] = set(ok); ch = True
            if not ch: break
        # what does not come down to one depth is summarised per returned constant, and its callers redone
        self.own = {n: r for n, r in res.items() if not single(r[0]) or any(v != () for _, v in r[1])}
        if self.own:
            for n, (ok, exs) in self.own.items(): self.sum[n] = {'ok': set(ok), 'ex': set(exs)}
            for rnd in range(12):
                ch = False
                for n in rel:
                    ok, exs = self.flow(n); res[n] = (ok, exs)
                    if ok != self.sum[n]['ok'] or exs != self.sum[n]['ex']: self.sum[n] = {'ok': set(ok), 'ex': set(exs)}; ch = True
                if not ch: break
        self.res = res
        self.analysed = len(rel)

    def rethrows(self, n):
        f = self.F[n]
        if '_re' not in f:
            f['_re'] = any(ins['op'] == 'resume' or ins['op'] in ('call', 'invoke') and ins['callee'].get('n') == '__cxa_rethrow' for b in f['blocks'] for ins in b if ins['op'] != 'resume' or False)
        return f['_re']

    def add(self, vec, key, dv, site=None, n=None):
        """x: tuple of the sites whose moves are still on the board, OMEGA, or a negative count"""
        if key is None or key[0] == 'local': return vec
        d = dict(vec); x = d.get(key, ())
        if x == OMEGA or dv == OMEGA: x = OMEGA
        elif dv > 0:
            for _ in range(dv):
                if isinstance(x, int): x = x + 1 if x < -1 else ()
                elif x != OMEGA: x = x + (site,) if len(x) < CAP else OMEGA
        else:
            for _ in range(-dv):
                if isinstance(x, int): x = max(x - 1, -CAP)
                elif x == (): x = -1
                else:
                    if site is not None and x[-1] is not None: self.cur.setdefault((n, x[-1], site), 1)
                    x = x[:-1]
        if x == (): d.pop(key, None)
        else: d[key] = x
        return tuple(sorted(d.items(), key=repr))

    @staticmethod
    def flat(vec):
        return tuple((k, x if x == OMEGA or isinstance(x, int) else len(x)) for k, x in vec)

    def callee_effect(self, n, ins, vec, exc):
        """[(kind, vec, exc)] kind ok/ex"""
        cal = ins['callee']
        if cal.get('k') != 'f': return [('ok', vec, exc, None)]
        c = cal['n']
        if c in self.prim: return [('ok', self.add(vec, self.root(n, ins['ops'][0]), self.prim[c], ins['id'], n), exc, None)]
        if c == '__cxa_throw':
            t = ins['ops'][1].get('n', '?'); return [('ex', vec, t, None)]
        if c == '__cxa_rethrow': return [('ex', vec, exc or '?', None)]
        f = self.F.get(c)
        if f is None or 'blocks' not in f: return [('ok', vec, exc, None)]
        s = self.sum[c]; out = []
        def app(cv):
            v = vec
            for k, dv in cv:
                if k[0] == 'arg':
                    if k[1] < len(ins['ops']): v = self.add(v, self.root(n, ins['ops'][k[1]]), dv, ins['id'], n)
                else: self.unknown.append((self.dem(n), repr(k)))
            return v
        for cv, rv in s['ok']: out.append(('ok', app(cv), exc, rv))
        for t, cv in s['ex']: out.append(('ex', app(cv), t, None))
        return out

    def drains(self, n):
        """natural loops that only take moves back: entry with any depth, exit at depth 0"""
        f = self.F[n]
        if '_drain' in f: return f['_drain']
        B = f['blocks']; N = len(B)
        succ = []
        for b in B:
            l = b[-1]
            succ.append([x for _, x in l['cases']] + [l['def']] if l['op'] == 'switch' else list(l.get('succ', ())))
        # dominators (iterative)
        preds = [[] for _ in range(N)]
        for i, s in enumerate(succ):
            for x in s: preds[x].append(i)
        order = []; seen = set(); st = [(0, iter(succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen: seen.add(x); st.append((x, iter(succ[x]))); break
            else: order.append(b); st.pop()
        order.reverse()
        dom = {b: None for b in order}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in preds[b] if dom.get(p) is not None]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        res = []
        loops = {}
        for b in order:
            for x in succ[b]:
                if x in dom[b]:
                    body = {x, b}; w = [b] if b != x else []
                    while w:
                        y = w.pop()
                        for p in preds[y]:
                            if p not in body and p in dom: body.add(p); w.append(p)
                    loops.setdefault(x, set()).update(body)
        for h, body in loops.items():
            un = do = 0; keys = set()
            for y in body:
                for ins in B[y]:
                    if ins['op'] in ('call', 'invoke') and ins['callee'].get('k') == 'f':
                        c = ins['callee']['n']
                        if c in self.prim:
                            k = self.root(n, ins['ops'][0])
                            if k and k[0] != 'local':
                                if self.prim[c] < 0: un += 1; keys.add(k)
                                else: do += 1
                        elif self.touch.get(c): do += 1
            if un and not do and len(keys) == 1: res.append((h, body, keys.pop()))
        f['_drain'] = res
        return res

    def control(self, n):
        """ids whose constant value is worth carrying: phis with constant inputs that feed branches, i1 values branched on twice"""
        f = self.F[n]
        if '_ctl' in f: return f['_ctl'], f['_live2']
        B = f['blocks']; defs = self.defs[n]
        feed = {}
        def use(o):
            w = [o]; seen = set()
            while w:
                x = w.pop()
                if x.get('k') != 'v' or x['id'] in seen: continue
                seen.add(x['id']); feed[x['id']] = feed.get(x['id'], 0) + 1
                d = defs.get(x['id'])
                if isinstance(d, dict):
                    if d['op'] in ('icmp', 'trunc', 'zext', 'sext', 'xor', 'and', 'or', 'select', 'freeze'): w += d['ops']
                    elif d['op'] == 'phi': w += [y for _, y in d['in']]
        for b in B:
            l = b[-1]
            if 'cond' in l: use(l['cond'])
        ctl = {'phi': set(), 'cond': set()}
        for i in feed:
            d = defs.get(i)
            if isinstance(d, dict) and d['op'] == 'phi' and d['t'].startswith('i') and any(y.get('k') == 'c' for _, y in d['in']): ctl['phi'].add(i)
        ch = True
        while ch:
            ch = False
            for i in feed:
                d = defs.get(i)
                if i not in ctl['phi'] and isinstance(d, dict) and d['op'] == 'phi' and any(y.get('k') == 'v' and y['id'] in ctl['phi'] for _, y in d['in']): ctl['phi'].add(i); ch = True
        cnt = {}
        for i in feed:
            d = defs.get(i); ty = d['t'] if isinstance(d, dict) else None
            if (ty == 'i1' or isinstance(d, tuple) and self.F[n]['args'][d[1]].get('t') == 'i1') and feed[i] > 1: ctl['cond'].add(i)
        # liveness of the tracked ids (conditions are evaluated lazily from their operands)
        N = len(B); succ = []
        for b in B:
            l = b[-1]
            succ.append([x for _, x in l['cases']] + [l['def']] if l['op'] == 'switch' else list(l.get('succ', ())))
        def opsof(ins):
            r = []
            for k in ('ops',): r += [o for o in ins.get(k, ()) if isinstance(o, dict)]
            if 'cond' in ins: r.append(ins['cond'])
            return r
        tracked = ctl['phi'] | ctl['cond']
        def deps(o, acc, seen):
            if o.get('k') != 'v' or o['id'] in seen: return
            seen.add(o['id'])
            if o['id'] in tracked: acc.add(o['id'])
            d = defs.get(o['id'])
            if isinstance(d, dict) and d['op'] != 'phi':
                for y in d.get('ops', ()): deps(y, acc, seen)
        gen = []; kill = []
        for b in B:
            g = set(); k = set()
            for ins in b:
                if ins['op'] == 'phi': k.add(ins['id']); continue
                acc = set()
                if 'cond' in ins: deps(ins['cond'], acc, set())
                g |= acc
                if ins['id'] in tracked: k.add(ins['id'])
            gen.append(g); kill.append(k)
        keepb = []
        live = [set() for _ in B]
        ch = True
        while ch:
            ch = False
            for b in range(N - 1, -1, -1):
                o = set()
                for x in succ[b]:
                    o |= live[x]
                    for ins in B[x]:
                        if ins['op'] != 'phi': break
                        if ins['id'] in tracked:
                            for pb, y in ins['in']:
                                if pb == b: deps(y, o, set())
                post = gen[b] | o            # needed after the block's own phis are set
                nl = post - kill[b]
                if nl != live[b]: live[b] = nl; ch = True
        # phis whose leaves are all constants (flags, "how did we leave the scope" codes) distinguish states
        pure = set(); 
        for i in ctl['phi']:
            w = [i]; seen = set(); okp = True
            while w and okp:
                x = w.pop()
                if x in seen: continue
                seen.add(x); d = defs.get(x)
                if not isinstance(d, dict) or d['op'] != 'phi': okp = False; break
                for _, y in d['in']:
                    if y.get('k') in ('c', 'undef'): continue
                    if y.get('k') == 'v': w.append(y['id'])
                    else: okp = False
            if okp: pure.add(i)
        ctl['pure'] = pure
        # what must be kept on entry to a block, its own phis included
        for b in range(N):
            o = set()
            for x in succ[b]:
                o |= live[x]
                for ins in B[x]:
                    if ins['op'] != 'phi': break
                    if ins['id'] in tracked:
                        for pb, y in ins['in']:
                            if pb == b: deps(y, o, set())
            own = {ins['id'] for ins in B[b] if ins['op'] == 'phi' and ins['id'] in tracked}
            keepb.append(live[b] | (own & (gen[b] | o)))
        f['_ctl'] = ctl; f['_live2'] = keepb
        return ctl, live

    def ev(self, n, o, env, depth=0):
        """constant value of an operand under the carried facts, or None"""
        if o.get('k') == 'c': return int(o['v']) & ((1 << o['w']) - 1)
        if o.get('k') != 'v' or depth > 12: return None
        if o['id'] in env: return env[o['id']]
        d = self.defs[n].get(o['id'])
        if not isinstance(d, dict): return None
        op = d['op']
        if op in ('icmp', 'xor', 'and', 'or'):
            a, b = (self.ev(n, x, env, depth + 1) for x in d['ops'])
            if op == 'and' and (a == 0 or b == 0): return 0
            if op == 'or' and d['t'] == 'i1' and (a == 1 or b == 1): return 1
            if a is None or b is None: return None
            if op == 'icmp':
                if d['pred'] == 'eq': return int(a == b)
                if d['pred'] == 'ne': return int(a != b)
                if d['pred'] in ('ult', 'ule', 'ugt', 'uge'): return int({'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[d['pred']])
                return None
            w = int(d['t'][1:]) if d['t'][1:].isdigit() else None
            if w is None: return None
            return {'xor': a ^ b, 'and': a & b, 'or': a | b}[op] & ((1 << w) - 1)
        if op in ('zext', 'freeze'): return self.ev(n, d['ops'][0], env, depth + 1)
        if op == 'trunc':
            a = self.ev(n, d['ops'][0], env, depth + 1); return None if a is None else a & ((1 << int(d['t'][1:])) - 1)
        if op == 'select':
            c = self.ev(n, d['ops'][0], env, depth + 1)
            if c is None: return None
            return self.ev(n, d['ops'][1 if c else 2], env, depth + 1)
        return None

    def flow(self, n):
        """least precise level first; a finer one only where the coarse result is not a single depth"""
        if not self.touch.get(n) and not self.may_throw_shallow(n): return {((), None)}, set()
        best = None
        for level in (0, 1, 2, 3, 4):
            self.pairs_by[n] = self.cur = {}
            try: ok, ex = self.flow1(n, level)
            except Explosion:
                self.exploded.add((n, level)); continue
            if best is None: best = (ok, ex)
            else:
                vs = {v for v, _ in best[0]} & {v for v, _ in ok}
                best = ({(v, r) for v, r in ok if v in vs}, ex & best[1])
            if len({v for v, _ in best[0]}) <= 1 and all(v == () for _, v in best[1]):
                if len(best[0]) > 1: best = ({(v, None) for v, _ in best[0]}, best[1])
                break
        if best is None: raise RuntimeError('state explosion in ' + self.dem(n))
        return best

    def flow1(self, n, level):
        f = self.F[n]; B = f['blocks']
        ok, ex = set(), set()
        drains = self.drains(n) if self.touch.get(n) else []
        ctl, live = self.control(n)
        pure = {0: set(), 1: set(), 2: {i for i in ctl['pure'] if self.defs[n][i]['t'] != 'i1'}}.get(level, ctl['pure'])
        # level 1: facts merged per depth; 2: split on scope-exit codes; 3: split on all constant flags; 4: plus repeated conditions
        ctl = {'phi': ctl['phi'] if level else set(), 'cond': ctl['cond'] if level > 3 else set(), 'pure': pure}
        # results of callees whose depth depends on what they return
        split = set()
        if level:
            for b in B:
                for ins in b:
                    if ins['op'] in ('call', 'invoke') and ins['callee'].get('k') == 'f' and len(self.sum.get(ins['callee']['n'], {'ok': ()})['ok']) > 1: split.add(ins['id'])
        ctl['pure'] = ctl['pure'] | split
        if split: live = [l | split for l in live]
        tracked = ctl['phi'] | ctl['cond']
        seen = {}
        par = {}
        work = []
        def go(k, bi, x, v, e, env, ins, fact=None):
            for h, body, dk in drains:
                if bi in body and x not in body:
                    d = dict(v)
                    if not isinstance(d.get(dk), int): d.pop(dk, None)
                    v = tuple(sorted(d.items(), key=repr))
            en = dict(env)
            if fact: en.update(fact)
            new = {}
            for i2 in B[x]:
                if i2['op'] != 'phi': break
                if i2['id'] in tracked:
                    val = None
                    for pb, y in i2['in']:
                        if pb == bi: val = self.ev(n, y, en); break
                    new[i2['id']] = val
            for i, val in new.items():
                if val is None: en.pop(i, None)
                else: en[i] = val
            keep = live[x]
            en = {i: c for i, c in en.items() if i in keep}
            st = (x, v, e, tuple(sorted((i, c) for i, c in en.items() if i in ctl['pure'])))
            # property simulation: one set of facts per (block, depth, exception, flags), met over all ways in
            if st in facts:
                old = facts[st]; nw = {i: c for i, c in old.items() if en.get(i) == c}
                if len(nw) == len(old): return
                facts[st] = nw
            else: facts[st] = en
            work.append(st); par.setdefault(st, (k, ins))
        facts = {(0, (), None, ()): {}}
        work.append((0, (), None, ()))
        steps = 0
        while work:
            k = work.pop()
            bi, vec, exc, _ = k
            steps += 1
            if steps > 60000: raise Explosion()
            env = dict(facts[k])
            for ins in B[bi]:
                if ins['op'] != 'phi' and ins['id'] in env: del env[ins['id']]
            states = [(vec, exc, ())]
            for ins in B[bi]:
                op = ins['op']
                if op in ('call', 'invoke'):
                    nxt = []
                    indrain = any(bi in body for h, body, dk in drains)
                    if indrain and ins['callee'].get('k') == 'f' and ins['callee']['n'] in self.prim: nxt = states
                    else:
                        for v, e, xe in states:
                            for kind, v2, e2, rv in self.callee_effect(n, ins, v, e):
                                if kind == 'ok': nxt.append((v2, e2, xe + ((ins['id'], rv),) if rv is not None and ins['id'] in split else xe))
                                elif op == 'invoke': go(k, bi, ins['succ'][1], v2, e2, dict(env, **{}), ins)
                                else: ex.add((e2, self.flat(v2))); self.note(n, ('ex', e2, self.flat(v2)), k, ins, par)
                    states = list(dict.fromkeys(nxt))
                    if op == 'invoke':
                        for v, e, xe in states: go(k, bi, ins['succ'][0], v, e, dict(env, **{}) if not xe else {**env, **dict(xe)}, ins)
                        states = []
                    if not states: break
                elif op == 'ret':
                    for v, e, xe in states:
                        rv = self.ev(n, ins['ops'][0], {**env, **dict(xe)}) if ins.get('ops') and level else None
                        ok.add((self.flat(v), rv)); self.note(n, ('ok', None, self.flat(v)), k, ins, par)
                elif op == 'resume':
                    for v, e, xe in states:
                        ex.add((e or '?', self.flat(v))); self.note(n, ('ex', e, self.flat(v)), k, ins, par)
                elif op == 'br':
                    for v, e, xe in states:
                        env1 = {**env, **dict(xe)}
                        ss = list(enumerate(ins['succ']))
                        if 'cond' in ins:
                            r = self.selcond(n, ins['cond'], e)
                            if r is None: r = self.ev(n, ins['cond'], env1)
                            if r is not None: ss = [ss[0 if r else 1]]
                        cid = ins['cond'].get('id') if 'cond' in ins else None
                        for j, x in ss: go(k, bi, x, v, e, env1, ins, {cid: int(j == 0)} if cid in ctl['cond'] else None)
                elif op == 'switch':
                    for v, e, xe in states:
                        r = self.ev(n, ins['cond'], {**env, **dict(xe)})
                        if r is not None:
                            t = [x for c, x in ins['cases'] if int(c) == r]
                            xs = t[:1] or [ins['def']]
                        else: xs = sorted({x for _, x in ins['cases']} | {ins['def']})
                        for x in xs: go(k, bi, x, v, e, {**env, **dict(xe)}, ins)
        return ok, ex

    def only(self, v): return v

    def note(self, n, kind, k, ins, par):
        self.paths.setdefault((n,) + kind, (k, ins, par))

    def trace(self, n, kind):
        """source lines of one path to the given exit"""
        t = self.paths.get((n,) + kind)
        if not t: return []
        k, ins, par = t; out = [(ins.get('loc') or ['?'])[0]]
        g = 0
        while k in par and g < 4000:
            k2, i2 = par[k]; l = (i2.get('loc') or ['?'])[0]
            if l != out[-1]: out.append(l)
            k = k2; g += 1
        return list(reversed(out))

    def may_throw_shallow(self, n):
        for b in self.F[n]['blocks']:
            for ins in b:
                if ins['op'] in ('call', 'invoke') and ins['callee'].get('k') == 'f':
                    c = ins['callee']['n']
                    if c in ('__cxa_throw', '__cxa_rethrow'): return True
                    if self.sum.get(c, {}).get('ex'): return True
        return False

    def selcond(self, n, o, exc):
        """landing-pad selector tests, decided by the type of the exception in flight"""
        if exc is None or o.get('k') != 'v': return None
        d = self.defs[n].get(o['id'])
        if not isinstance(d, dict) or d['op'] != 'icmp': return None
        tid = None; sel = False
        for x in d['ops']:
            y = self.defs[n].get(x.get('id')) if x.get('k') == 'v' else None
            if isinstance(y, dict):
                if y['op'] == 'call' and 'eh.typeid' in y['callee'].get('n', ''): tid = y['ops'][0].get('n')
                elif y['op'] in ('extractvalue', 'phi'): sel = True
        if tid is None or not sel: return None
        r = tid == exc
        return r if d['pred'] == 'eq' else not r

    # ---- which move is taken back
    def shape(self, n, o, depth=0):
        """structural description of a value; None = not comparable"""
        if o.get('k') == 'c': return ('c', o['v'])
        if o.get('k') == 'g': return ('g', o['n'])
        if o.get('k') != 'v' or depth > 14: return None
        d = self.defs[n].get(o['id'])
        if isinstance(d, tuple): return ('arg', d[1])
        if d is None: return None
        op = d['op']
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'): return self.shape(n, d['ops'][0], depth + 1)
        if op == 'load':
            p = self.shape(n, d['ops'][0], depth + 1); return None if p is None else ('load', p)
        if 'base' in d and d.get('op') in ('getelementptr', 'gep'):
            b = self.shape(n, d['base'], depth + 1)
            ix = tuple((self.shape(n, x, depth + 1), c) for x, c in d['idx'])
            if b is None or any(i is None for i, _ in ix): return None
            return ('gep', b, d['off'], ix)
        if op == 'alloca':
            return ('slot', o['id'])
        return ('v', o['id'])

    def stores(self, n):
        f = self.F[n]
        if '_st' not in f:
            st = {}
            for b in f['blocks']:
                for ins in b:
                    if ins['op'] == 'store' and ins['ops'][1].get('k') == 'v': st.setdefault(ins['ops'][1]['id'], []).append(('s', ins['ops'][0]))
                    elif ins['op'] == 'call' and ins['callee'].get('n', '').startswith('llvm.memcpy') and ins['ops'][0].get('k') == 'v': st.setdefault(ins['ops'][0]['id'], []).append(('m', ins['ops'][1]))
            f['_st'] = st
        return f['_st']

    def moveshape(self, n, o, depth=0):
        """the value of a move argument passed through a temporary"""
        sh = self.shape(n, o)
        while sh and (sh[0] == 'slot' or sh[0] == 'load' and sh[1] and sh[1][0] == 'slot') and depth < 6:
            i = sh[1] if sh[0] == 'slot' else sh[1][1]
            st = self.stores(n).get(i, [])
            if len(st) != 1: return sh if sh[0] == 'load' else ('load', sh)
            k, v = st[0]
            sh = self.shape(n, v)
            if k == 'm' and sh: sh = sh if sh[0] == 'slot' else ('load', sh)
            depth += 1
        return sh

    def elem(self, sh):
        """('elem', array, index) for a load of an array element with a variable index"""
        if sh and sh[0] == 'load' and sh[1] and sh[1][0] == 'gep' and len(sh[1][3]) == 1:
            return sh[1][1], sh[1][2], sh[1][3][0]
        return None

    def move_pairs(self):
        """(function, make site, unmake site, verdict) verdict: same / different / unknown"""
        out = []
        for (n, s1, s2) in [p for q in self.pairs_by.values() for p in q]:
            d1, d2 = self.defs[n].get(s1), self.defs[n].get(s2)
            c1, c2 = d1['callee']['n'], d2['callee']['n']
            if not (c1 in self.prim and c2 in self.prim) or len(d1['ops']) < 2 or len(d2['ops']) < 2 or PASS.match(self.dem(c1)):
                out.append((n, d1, d2, 'unknown')); continue
            a, b = self.moveshape(n, d1['ops'][1]), self.moveshape(n, d2['ops'][1])
            if a is None or b is None: v = 'unknown'
            elif a == b: v = 'same'
            else:
                ea, eb = self.elem(a), self.elem(b)
                if ea and eb and ea[0] == eb[0]:
                    v = 'different' if (ea[1:] != eb[1:]) else 'same'
                elif a[0] == 'arg' and b[0] == 'arg': v = 'different'
                else: v = 'unknown'
            out.append((n, d1, d2, v))
        return out
