"""The primitives the rule analyses take for granted: attack sets, lines between squares, bit sets.

Tables are folded from their initialisers; the functions are evaluated in the bit domain with
everything that is not the subject of the question left unknown, so each verdict holds for every
arrangement of the rest of the board.
"""
import re
from bits import Machine, Bits, Undecided, mk, bl, Cnt, band, bor, bxor, bnot
STEP = {'pawn': [(0, -1)], 'knight': [(-1, -2), (1, -2)], 'silver': [(-1, -1), (0, -1), (1, -1), (-1, 1), (1, 1)],
        'gold': [(-1, -1), (0, -1), (1, -1), (-1, 0), (1, 0), (0, 1)], 'king': [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b]}
RAYS = {'lance': [(0, -1)], 'bishop': [(-1, -1), (-1, 1), (1, -1), (1, 1)], 'rook': [(-1, 0), (1, 0), (0, -1), (0, 1)],
        'rookFile': [(0, -1), (0, 1)], 'rookRank': [(-1, 0), (1, 0)]}
RAYS['horse'] = RAYS['bishop']; RAYS['dragon'] = RAYS['rook']; RAYS['queen'] = RAYS['rook'] + RAYS['bishop']
SQ = [(f, r) for f in range(9) for r in range(9)]          # square number = 9 * file + rank
def num(f, r): return 9 * f + r
def ok(f, r): return 0 <= f < 9 and 0 <= r < 9
def nm(f, r): return '%d%s' % (f + 1, 'abcdefghi'[r])
def flip(l, c): return [(-a, -b) for a, b in l] if c else l

class Prims:
    def __init__(self, m):
        self.m = m; self.M = Machine(m); self.viol = []; self.und = []; self.count = {}
    def prepare(self):
        m = self.m
        self.M.constants()
        t = [n for n, f in m['fns'].items() if re.match(r'(void )?initTable\(\)$', f['dem'])]
        if not t: raise Undecided('no initTable')
        self.M.fuel = 60_000_000
        try: self.M.call(t[0])
        except Undecided as e:
            raise Undecided('initTable: %s' % e)
        g = self.M.base['SetMaskBB']; self.bit = []
        for i in range(81):
            v = self.M.LD(g + 16 * i, 16)
            if type(v) is not int or v & (v - 1) or not v: self.report('mask:%d' % i, 'the mask of square %s is not one bit' % nm(*SQ[i])); raise Undecided('masks')
            self.bit.append(v.bit_length() - 1)
        if len(set(self.bit)) < 81: self.report('mask', 'two squares share a bit'); raise Undecided('masks')
        self.buf = [self.M.sp + 64 * k for k in range(4)]; self.M.sp += 256
        self.var = {b: 1000 + i for i, b in enumerate(self.bit)}      # unknown content of each square
    def report(self, key, text):
        if not any(k == key for k, _ in self.viol): self.viol.append((key, text))
    def obl(self, k, n=1): self.count[k] = self.count.get(k, 0) + n
    def fns(self, rx): return [(n, f) for n, f in sorted(self.m['fns'].items()) if re.search(rx, f['dem']) and 'blocks' in f]
    def bb(self, known=None, default='var', off=0):
        """128-bit value: {square number: bit}, the rest named unknowns / 0 / 1"""
        l = [0] * 128
        for i, b in enumerate(self.bit): l[b] = (known or {}).get(i, (self.var[b] + off if default == 'var' else default))
        return mk(l)
    def run(self, n, f, args, bbs=()):
        """args: ints or ('bb', value); returns (value, values of the bitboard arguments afterwards)"""
        M = self.M; sret = bool(f['args'] and f['args'][0].get('sret')); a = []
        M.sym.clear()
        if sret: a.append(self.buf[0]); M.ST(self.buf[0], 0, 16)
        k = 1; at = []
        for x in args:
            if isinstance(x, tuple): M.ST(self.buf[k], x[1], 16); a.append(self.buf[k]); at.append(self.buf[k]); k += 1
            else: a.append(x)
        if len(a) != len(f['args']): raise Undecided('signature of ' + f['dem'])
        r = M.call(n, *a)
        return (M.LD(self.buf[0], 16) if sret else r), [M.LD(p, 16) for p in at]
    def sqbit(self, v, i): return (v >> self.bit[i]) & 1 if type(v) is int else v.b[self.bit[i]] if self.bit[i] < len(v.b) else 0
    def guard(self, what, fn):
        try: fn()
        except Undecided as e:
            t = '%s: %s' % (what, e)
            if t not in self.und: self.und.append(t)
    # ---- questions
    def expect_set(self, v, want, key, text, undname, only=None):
        """want: set of square numbers; only: squares the answer is about"""
        for i in (only if only is not None else range(81)):
            b = self.sqbit(v, i)
            if b is None or b not in (0, 1):
                t = undname + ': content of the result unknown'
                if t not in self.und: self.und.append(t)
                return
            if b != (i in want):
                self.report(key, '%s: %s is %s' % (text, nm(*SQ[i]), 'missing' if i in want else 'wrongly included')); return
    def slidejobs(self, dispatch=False):
        J = []
        for n, f in self.fns(r'^(Bitboard )?(lance)Attack\(Color, Square, Bitboard|^(Bitboard )?(rook|bishop|horse|dragon|queen)Attack\(Square, Bitboard|^(Bitboard )?rookAttack(File|Rank)\(Square, Bitboard'):
            mm = re.search(r'(lance|rook|bishop|horse|dragon|queen)Attack(File|Rank)?\(', f['dem']); kind = mm.group(1) + (mm.group(2) or '')
            for c in ((0, 1) if kind == 'lance' else (0,)):
                for part in range(3): J.append((n, [c] if kind == 'lance' else [], kind, c, part))
        if dispatch:
            PT = dict(self.m['enums'].get('PieceType') or []); K = {}
            for k in list(STEP) + ['lance', 'bishop', 'rook', 'horse', 'dragon']: K[PT.get(k.capitalize())] = k
            for k in ('ProPawn', 'ProLance', 'ProKnight', 'ProSilver'): K[PT.get(k)] = 'gold'
            for n, f in self.fns(r'^(Bitboard )?Position::attacksFrom\(PieceType, Color, Square, Bitboard'):
                J += [(n, [pt, c], k, c, None) for pt, k in K.items() if pt is not None for c in (0, 1)]
            for n, f in self.fns(r'^(Bitboard )?Position::attacksFrom<\(PieceType\)(\d+)>\(Color, Square, Bitboard'):
                k = K.get(int(re.search(r'PieceType\)(\d+)', f['dem']).group(1)))
                if k: J += [(n, [c], k, c, None) for c in ((0, 1) if k == 'lance' else (0,))]
        return J
    def slides(self, procs=8, dispatch=False):
        import multiprocessing as mp
        global _P
        _P = self; J = self.slidejobs(dispatch)
        with mp.get_context('fork').Pool(procs) as pool:
            for viol, und, count in pool.imap_unordered(_job, J):
                for k, t in viol: self.report(k, t)
                for t in und:
                    if t not in self.und: self.und.append(t)
                for k, v in count.items(): self.obl(k, v)
    def slide(self, n, f, pre, kind, c, part=None):
        rays = flip(RAYS.get(kind, []), c); steps = STEP['king'] if kind in ('horse', 'dragon') else flip(STEP.get(kind, []), c)
        who = f['dem'].split('(')[0] + (' (%s, %s)' % (('Black', 'White')[c], kind) if pre else '')
        for x, y in (SQ if part is None else SQ[part * 27:part * 27 + 27]):
            st = {num(x + a, y + b) for a, b in steps if ok(x + a, y + b)}
            lines = {}
            for u in rays:
                l = []; p = (x + u[0], y + u[1])
                while ok(*p): l.append(num(*p)); p = (p[0] + u[0], p[1] + u[1])
                lines[u] = l
            online = {s for l in lines.values() for s in l}
            for u, l in lines.items():
                for d in range(1, len(l) + 1):            # first blocker at distance d (d = len: the edge, its content does not matter)
                    known = {s: 0 for s in l[:d - 1]}
                    if d < len(l): known[l[d - 1]] = 1
                    for edge in ((0, 1) if d == len(l) else (None,)):
                        if edge is not None: known[l[d - 1]] = edge
                        v, after = self.run(n, f, pre + [num(x, y), ('bb', self.bb(known))])
                        self.obl('attack sets: square, line and first blocker')
                        want = set(l[:d]) | st
                        self.expect_set(v, want, 'slide:%s:%d' % (kind, c), '%s from %s, first piece on the line at %s' % (who, nm(x, y), nm(*SQ[l[d - 1]]) if d < len(l) or edge else 'none'), f['dem'], only=l)
            v, _ = self.run(n, f, pre + [num(x, y), ('bb', self.bb())])
            self.obl('attack sets: off the lines')
            self.expect_set(v, st, 'off:%s:%d' % (kind, c), '%s from %s' % (who, nm(x, y)), f['dem'], only=[i for i in range(81) if i not in online])
            self.expect_set(v, st | {l[0] for l in lines.values() if l}, 'near:%s:%d' % (kind, c), '%s from %s (neighbouring squares)' % (who, nm(x, y)), f['dem'], only=[l[0] for l in lines.values() if l])
    def steps(self):
        for n, f in self.fns(r'^(Bitboard )?(pawn|knight|silver|gold)Attack\(Color, Square\)|^(Bitboard )?kingAttack\(Square\)'):
            kind = re.search(r'(pawn|knight|silver|gold|king)Attack', f['dem']).group(1)
            def go():
                for c in ((0,) if kind == 'king' else (0, 1)):
                    for x, y in SQ:
                        v, _ = self.run(n, f, ([] if kind == 'king' else [c]) + [num(x, y)]); self.obl('attack sets: steps')
                        self.expect_set(v, {num(x + a, y + b) for a, b in flip(STEP[kind], c) if ok(x + a, y + b)}, 'step:%s:%d' % (kind, c), '%s of %s from %s' % (f['dem'].split('(')[0], ('Black', 'White')[c], nm(x, y)), f['dem'])
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^(Bitboard )?(rook|bishop|horse|dragon|lance)AttackToEdge\('):
            kind = re.search(r'(rook|bishop|horse|dragon|lance)Attack', f['dem']).group(1)
            def go():
                for c in ((0, 1) if kind == 'lance' else (0,)):
                    for x, y in SQ:
                        v, _ = self.run(n, f, ([c] if kind == 'lance' else []) + [num(x, y)]); self.obl('attack sets: to the edge')
                        w = {num(x + a, y + b) for a, b in STEP['king'] if ok(x + a, y + b)} if kind in ('horse', 'dragon') else set()
                        for a, b in flip(RAYS[kind], c): w |= {num(x + a * k, y + b * k) for k in range(1, 9) if ok(x + a * k, y + b * k)}
                        self.expect_set(v, w, 'edge:%s:%d' % (kind, c), '%s from %s' % (f['dem'].split('(')[0], nm(x, y)), f['dem'])
            self.guard(f['dem'], go)
    def lines(self):
        D = dict(self.m['enums'].get('Direction') or [])
        for n, f in self.fns(r'^(Bitboard )?betweenBB\(Square, Square\)'):
            def go():
                for x, y in SQ:
                    for a, b in SQ:
                        dx, dy = a - x, b - y; k = max(abs(dx), abs(dy)); w = set()
                        if k and (dx == 0 or dy == 0 or abs(dx) == abs(dy)): w = {num(x + dx // k * i, y + dy // k * i) for i in range(1, k)}
                        v, _ = self.run(n, f, [num(x, y), num(a, b)]); self.obl('squares between two squares')
                        self.expect_set(v, w, 'between', 'between %s and %s' % (nm(x, y), nm(a, b)), f['dem'])
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^(Direction )?squareRelation\(Square, Square\)'):
            def go():
                swap = self.run(n, f, [num(0, 0), num(1, 1)])[0] == D['DirecDiagNWSE']      # which diagonal has which name does not matter
                if swap: D['DirecDiagNESW'], D['DirecDiagNWSE'] = D['DirecDiagNWSE'], D['DirecDiagNESW']
                for x, y in SQ:
                    for a, b in SQ:
                        dx, dy = x - a, y - b
                        w = D['DirecMisc'] if not (dx or dy) else D['DirecFile'] if dx == 0 else D['DirecRank'] if dy == 0 else D['DirecDiagNESW'] if dx == dy else D['DirecDiagNWSE'] if dx == -dy else D['DirecMisc']
                        v, _ = self.run(n, f, [num(x, y), num(a, b)]); self.obl('relation of two squares')
                        if v != w & 0xffffffff: self.report('relation', 'relation of %s and %s is %s, not %s' % (nm(x, y), nm(a, b), v, w)); return
            self.guard(f['dem'], go)
    def bits_of(self, v): return {i: self.sqbit(v, i) for i in range(81)}
    def prims(self):
        V = lambda i: self.var[self.bit[i]]
        A = self.bb(); ALL = self.bb(default=1); Z = 0; full = (1 << 128) - 1
        def expect(v, want, key, text):
            """want: {square: bit}; unknown result bits are undecided"""
            for i in range(81):
                g = self.sqbit(v, i)
                if g == want[i]: continue
                if g is None:
                    if text + ' not followed' not in self.und: self.und.append(text + ' not followed')
                    return
                self.report(key, '%s: wrong on %s' % (text, nm(*SQ[i]))); return
        T = {'&': band, '|': bor, '^': bxor}
        for n, f in self.fns(r'^Bitboard::operator[&|^]=?\(Bitboard const&\)'):
            mm = re.match(r'Bitboard::operator([&|^])(=?)', f['dem'])
            def go():
                for i in range(81):
                    for k in (0, 1):
                        B = self.bb({i: k}, off=5000)
                        v, after = self.run(n, f, [('bb', A), ('bb', B)]); self.obl('set operations')
                        for r in [v] + ([after[0]] if mm.group(2) else []):
                            g = self.sqbit(r, i)
                            if g is None: raise Undecided('result')
                            if g != T[mm.group(1)](V(i), k): self.report('op' + mm.group(1), '%s is not the set operation on %s' % (f['dem'].split('(')[0], nm(*SQ[i])))
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^Bitboard::(andEqualNot|notThisAnd)\(Bitboard const&\)'):
            inv = 'notThisAnd' in f['dem']
            def go():
                for i in range(81):
                    for k in (0, 1):
                        B = self.bb({i: k}, off=5000)
                        v, after = self.run(n, f, [('bb', A), ('bb', B)] if not inv else [('bb', B), ('bb', A)]); self.obl('set operations')
                        for r in [v] + ([] if inv else [after[0]]):
                            g = self.sqbit(r, i)
                            if g is None: raise Undecided('result')
                            if g != band(V(i), 1 - k): self.report('andnot', '%s is not the difference on %s' % (f['dem'].split('(')[0], nm(*SQ[i])))
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^Bitboard::operator~\(\)'):
            self.guard(f['dem'], lambda: expect(self.run(n, f, [('bb', A)])[0], {i: -V(i) for i in range(81)}, 'op~', 'complement'))
        for n, f in self.fns(r'^Bitboard::(operator bool|isAny)\('):
            def go():
                if self.run(n, f, [('bb', Z)])[0] != 0: self.report('any', 'the empty set is not empty')
                for i in range(81):
                    r = self.run(n, f, [('bb', self.bb({i: 1}))])[0]; self.obl('set queries')
                    if type(r) is not int: raise Undecided('result')
                    if r == 0: self.report('any', 'a set containing %s counts as empty' % nm(*SQ[i]))
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^Bitboard::andIsAny\('):
            def go():
                odd = self.bb({i: 0 for i in range(0, 81, 2)}); even = self.bb({i: 0 for i in range(1, 81, 2)}, off=5000)
                r = self.run(n, f, [('bb', odd), ('bb', even)])[0]
                if type(r) is not int: raise Undecided('result')
                if r: self.report('andany', 'disjoint sets meet')
                for i in range(81):
                    r = self.run(n, f, [('bb', self.bb({i: 1})), ('bb', self.bb({i: 1}, off=5000))])[0]; self.obl('set queries')
                    if type(r) is not int: raise Undecided('result')
                    if not r: self.report('andany', 'sets sharing %s do not meet' % nm(*SQ[i]))
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^Bitboard::isSet\('):
            def go():
                for i in range(81):
                    r = self.run(n, f, [('bb', A), i])[0]; self.obl('set queries')
                    g = r if type(r) is int else r.b[0]
                    if g is None: raise Undecided('result')
                    if g != V(i): self.report('isset', 'membership of %s is not read from its bit' % nm(*SQ[i]))
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^Bitboard::(setBit|clearBit|xorBit)\(Square\)'):
            o = re.search(r'(setBit|clearBit|xorBit)', f['dem']).group(1)
            def go():
                for i in range(81):
                    _, (r,) = self.run(n, f, [('bb', A), i]); self.obl('set updates')
                    w = {j: V(j) for j in range(81)}; w[i] = {'setBit': 1, 'clearBit': 0, 'xorBit': -V(i)}[o]
                    expect(r, w, o, '%s(%s)' % (o, nm(*SQ[i])))
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^Bitboard::xorBit\(Square, Square\)'):
            def go():
                for i in range(81):
                    for j in range(81):
                        if i == j: continue
                        _, (r,) = self.run(n, f, [('bb', A), i, j]); self.obl('set updates')
                        w = {k: V(k) for k in range(81)}; w[i] = -V(i); w[j] = -V(j)
                        expect(r, w, 'xorbit2', 'xorBit(%s, %s)' % (nm(*SQ[i]), nm(*SQ[j])))
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^Bitboard::(const[Ff]|f)irstOne\w*\('):
            d = f['dem'].split('(')[0]; part = 0 if 'Right' in d else 1 if 'Left' in d else None
            def go():
                for i in range(81):
                    if part is not None and self.bit[i] // 64 != part: continue
                    known = {j: 0 for j in range(i) if part is None or self.bit[j] // 64 == part}; known[i] = 1
                    v0 = self.bb(known); r, (a,) = self.run(n, f, [('bb', v0)]); self.obl('first square of a set')
                    if type(r) is not int: raise Undecided('result')
                    if r != i: self.report('first', '%s of a set beginning with %s gives square number %d' % (d, nm(*SQ[i]), r)); continue
                    w = {j: self.sqbit(v0, j) for j in range(81)}
                    if 'const' not in d: w[i] = 0
                    expect(a, w, 'firstrest', '%s (%s): what remains' % (d, nm(*SQ[i])))
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^(int )?Bitboard::popCount<(true|false)>'):
            cross = 'popCount<true>' in f['dem']
            def go():
                for sel in ([range(81)] if cross else [[i for i in range(81) if self.bit[i] < 64], [i for i in range(81) if self.bit[i] >= 64]]):
                    r = self.run(n, f, [('bb', self.bb({i: 0 for i in range(81) if i not in set(sel)}))])[0]; self.obl('size of a set')
                    if not isinstance(r, Cnt): raise Undecided('result')
                    if None in r.l: raise Undecided('result')
                    if r.c or sorted(r.l) != sorted(V(i) for i in sel): self.report('count', 'the number of squares is not the number of bits')
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^(bool )?Bitboard::isOneBit<(true|false)>'):
            def go():
                for i in range(81):
                    r = self.run(n, f, [('bb', self.bb({i: 1}, default=0))])[0]; self.obl('set queries')
                    if type(r) is not int: raise Undecided('result')
                    if not r: self.report('onebit', 'a set of %s alone does not count as one square' % nm(*SQ[i]))
                r = self.run(n, f, [('bb', 0)])[0]
                if r != 0: self.report('onebit', 'the empty set counts as one square')
                if 'isOneBit<true>' in f['dem']:
                    for i in range(81):
                        for j in range(i):
                            r = self.run(n, f, [('bb', self.bb({i: 1, j: 1}))])[0]; self.obl('set queries')
                            if type(r) is not int: raise Undecided('result')
                            if r: self.report('onebit', 'a set with %s and %s counts as one square' % (nm(*SQ[i]), nm(*SQ[j])))
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^Bitboard::operator(<<|>>)=?\(int\)'):
            mm = re.match(r'Bitboard::operator(<<|>>)(=?)', f['dem'])
            def go():
                src = bl(A); src = list(src) + [0] * (128 - len(src))
                for k in range(0, 10):
                    v, after = self.run(n, f, [('bb', A), k]); self.obl('set shifts')
                    for r in [v] + ([after[0]] if mm.group(2) else []):
                        for b in range(128):
                            q = b % 64 - k if mm.group(1) == '<<' else b % 64 + k
                            w = src[b // 64 * 64 + q] if 0 <= q < 64 else 0
                            g = (r >> b) & 1 if type(r) is int else r.b[b] if b < len(r.b) else 0
                            if g is None: raise Undecided('result')
                            if g != w: self.report('shift', '%s by %d does not move every square by %d' % (f['dem'].split('(')[0], k, k)); return
            self.guard(f['dem'], go)
        for n, f in self.fns(r'^Bitboard::operator[=!]=\(Bitboard const&\)'):
            eq = '==' in f['dem']
            def go():
                r = self.run(n, f, [('bb', A), ('bb', A)])[0]
                if type(r) is not int: raise Undecided('result')
                if r != int(eq): self.report('equal', 'a set is not equal to itself')
                for i in range(81):
                    r = self.run(n, f, [('bb', self.bb({i: 1})), ('bb', self.bb({i: 0}))])[0]; self.obl('set queries')
                    if type(r) is not int: raise Undecided('result')
                    if r == int(eq): self.report('equal', 'sets differing on %s count as equal' % nm(*SQ[i]))
            self.guard(f['dem'], go)
    def all(self):
        self.steps(); self.slides(); self.lines(); self.prims(); return self

def _job(j):
    n, pre, kind, c, part = j; P = _P; P.viol, P.und, P.count = [], [], {}; f = P.m['fns'][n]
    P.guard(f['dem'], lambda: P.slide(n, f, pre, kind, c, part))
    return P.viol, P.und, P.count
def lemma(chk, what=('steps', 'slides', 'lines', 'prims')):
    """the primitives another analysis relies on; whatever is wrong with them is wrong with the property"""
    import build
    P = Prims(build.rulesmod('attack', 'dfpn'))
    try:
        P.prepare()
        for g in what: P.slides(dispatch=True) if g == 'dispatch' else getattr(P, g)()
    except Undecided as e: chk.undecide('tables: %s' % e)
    for k, v in P.count.items(): chk.obligation(k, v)
    for t in P.und: chk.undecide(t)
    for k, t in P.viol: chk.violation('prim:' + k, t)
    return P
