"""May-throw analysis: for each function of a module, the exception types that can leave it.

Sources are explicit throws (``__cxa_throw``) and failed text-to-number conversions; running out of memory
(bad_alloc, length_error) is not a source.  Handlers are applied clause by clause using the type hierarchy
read from the type information objects in the module plus the standard hierarchy.
"""
import re
STD = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
       '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
       '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTINSt7__cxx1118basic_ios_base7failureE': '_ZTISt12system_error',
       '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error', '_ZTINSt6filesystem7__cxx1116filesystem_errorE': '_ZTISt12system_error', '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt8bad_cast': '_ZTISt9exception'}
IGN = {'_ZTISt9bad_alloc', '_ZTISt20bad_array_new_length', '_ZTISt12length_error'}

class Throws:
    def __init__(self, m):
        self.m = m; self.F = {n: f for n, f in m['fns'].items() if 'blocks' in f}
        self.parent = dict(STD)
        for g, v in (m.get('globals') or {}).items():
            if g.startswith('_ZTI') and isinstance(v, dict):
                refs = re.findall(r"_ZTI\w+", str(v.get('init', '')))
                refs = [r for r in refs if r != g]
                if refs: self.parent.setdefault(g, refs[0])
        self.esc = {n: {} for n in self.F}           # fn -> {type: (loc, callee or None)}
        self.term = {}                                # (fn, type) -> loc: reaches a terminate handler
        self.solve()

    def isa(self, t, c):
        seen = set()
        while t and t not in seen:
            if t == c: return True
            seen.add(t); t = self.parent.get(t)
        return False

    def reach(self, f, bi):
        seen = {bi}; st = [bi]
        while st:
            b = st.pop()
            for i in f['blocks'][b]:
                for s in i.get('succ', []) or []:
                    if s not in seen: seen.add(s); st.append(s)
        return seen

    def raised(self, n, ins):
        c = ins['callee'].get('n')
        if c == '__cxa_throw':
            t = ins['ops'][1].get('n', '?')
            return {} if t in IGN else {t: (self.loc(ins), None)}
        if c is None: return {}
        if re.search(r'__throw_(invalid_argument|out_of_range)PKc$', c):
            return {('_ZTISt16invalid_argument' if 'invalid' in c else '_ZTISt12out_of_range'): (self.loc(ins), None)} if '__stoa' in self.F[n].get('dem', '') else {}
        if c in self.esc and len(ins['ops']) > 1 and all(o.get('k') in ('g', 'c', 'str') for o in ins['ops'][1:]): return {}     # only constants of the program itself
        if c in self.esc: return {t: (self.loc(ins), c) for t in self.esc[c]}
        return {}

    def loc(self, ins):
        l = ins.get('loc')
        return l[0] if l else '?'

    def solve(self):
        pads = {}
        for n, f in self.F.items():
            for bi, b in enumerate(f['blocks']):
                lp = next((i for i in b if i['op'] == 'landingpad'), None)
                if not lp: continue
                r = self.reach(f, bi)
                calls = {i['callee'].get('n') for k in r for i in f['blocks'][k] if i['op'] in ('call', 'invoke')}
                pads[n, bi] = (lp, '__cxa_rethrow' in calls, any(i['op'] == 'resume' for k in r for i in f['blocks'][k]),
                               any(c and (c.startswith('__clang_call_terminate') or c == '_ZSt9terminatev') for c in calls) and not any(c and c.startswith('__cxa_begin_catch') for c in calls))
        work = set(self.F); callers = {}
        for n, f in self.F.items():
            for b in f['blocks']:
                for i in b:
                    if i['op'] in ('call', 'invoke') and i['callee'].get('n') in self.F: callers.setdefault(i['callee']['n'], set()).add(n)
        while work:
            n = work.pop(); f = self.F[n]; out = dict(self.esc[n])
            for b in f['blocks']:
                for i in b:
                    if i['op'] not in ('call', 'invoke'): continue
                    ts = self.raised(n, i)
                    if not ts: continue
                    if i['op'] == 'invoke':
                        pad = pads.get((n, i['succ'][1]))
                        if pad:
                            lp, re_, res, term = pad
                            cl = [c['v'] for c in lp['clauses'] if c['catch']]
                            keep = {}
                            for t, w in ts.items():
                                caught = any(c.get('k') == 'null' or c.get('n') is None or self.isa(t, c.get('n')) for c in cl)
                                if caught:
                                    if re_: keep[t] = w
                                    if term: self.term[n, t] = w
                                else: keep[t] = w
                            ts = keep
                    for t, w in ts.items(): out.setdefault(t, w)
            if set(out) != set(self.esc[n]):
                self.esc[n] = out; work |= callers.get(n, set())

    def path(self, n, t, lim=12):
        out = []; seen = set()
        while n and (n, t) not in seen and len(out) < lim:
            seen.add((n, t))
            if t not in self.esc.get(n, {}): break
            loc, c = self.esc[n][t]
            out.append('%s (%s)' % (self.F[n].get('dem', n).split('(')[0][:80], loc)); n = c
        return out

def tname(t):
    import subprocess
    try: return subprocess.check_output(['c++filt', t], text=True).strip().replace('typeinfo for ', '')
    except Exception: return t
