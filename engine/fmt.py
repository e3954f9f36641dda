"""Readers and writers of whole positions as finite transducers (xduce) with the environment of this code base: the
position's members, the text and bit streams and the piece maps."""
import re
from lin import *
from xduce import *
import build

HP = ['Pawn', 'Lance', 'Knight', 'Silver', 'Gold', 'Bishop', 'Rook']
HMAX = [18, 4, 4, 4, 4, 2, 2]
BOX = HMAX
PIECES = list(range(0, 15)) + list(range(17, 31))
NP = 31

class Fmt(Extract):
    def __init__(self, m, reader=False):
        self.reader = reader
        super().__init__(m, self.leaf(), self.posget)
        self.maps16 = {}
        self.setup()
    # ---- constants ------------------------------------------------------------------------------------
    def setup(self):
        plain = lin.Interp(self.m, None, [(r'^(Bitboard|std::ios_base|__cxa)', lambda it, st, d, a: K(0)), (r'unordered_map<unsigned short', self.map16)], 400000)
        self.E = {k: dict(v) for k, v in self.m['enums'].items()}
        st = State({})
        for n in sorted(self.F):
            if not n.startswith('_GLOBAL__sub_I'): continue
            for b in self.F[n].get('blocks', ()):
                for i in b:
                    c = i['callee'].get('n', '') if i['op'] == 'call' else ''
                    if not c.startswith('__cxx_global_var_init'): continue
                    s = st.copy()
                    try: outs = plain.run(c, [], s)
                    except (Undecided, ForkField, AttributeError, TypeError, KeyError, RecursionError): continue
                    if len(outs) == 1: st = outs[0][1]
        for n in ('f_initHcp', 'f_initPsfen'):
            outs = plain.run(n, [], st)
            if len(outs) != 1: raise Undecided('piece tables')
            st = outs[0][1]
        self.initmem = {o: {k: c for k, c in d.items() if isinstance(c[0], V)} for o, d in st.mem.items() if o[0] == 'g'}
        for a, d in st.mem.items():
            if a[0] == 'slot': self.maps16.setdefault(a[1], {})[a[2]] = d[0][0].c
        self.initstrs = st.strs; self.initmaps = st.maps
        for n in ('PieceToCharUSITable',):
            pass
    @staticmethod
    def map16(it, st, dem, a):
        if 'operator[]' in dem:
            k = st.norm(it.load(st, a[1], 2))
            if k.p: raise Undecided('map key')
            return Ptr(('slot', (a[0].o, st.norm(a[0].off).c), k.c), K(0))
        if re.search(r'::~?unordered_map\(', dem): return K(0)
        raise Undecided(dem[:80])
    # ---- the position ---------------------------------------------------------------------------------
    def posget(self, it, st, off, sz):
        P = self.P
        lo, hi = st.range(off)
        if sz == 4 and P['piece_'] <= lo and hi < P['piece_'] + 324:
            if off.p: self.vary(st, off)
            f = ('q%d' if self.reader else 'p%d') % ((off.c - P['piece_']) // 4)
            self.field(st, f, NP)
            if f in st.dom and len(st.dom[f]) == NP: st.dom[f] = tuple(PIECES)
            return fld(f, NP)
        if off.p and sz in (4, 8) and hi - lo < 64: self.vary(st, off)
        if not off.p:
            if off.c == P['turn_'] and sz in (1, 4):
                if self.reader: return Term('turn' if st.ev or st.node != ('start', 0) else 'old')
                self.field(st, 'turn', 2); return fld('turn', 2)
            if off.c in (P['hand_'], P['hand_'] + 4) and sz == 4:
                c = (off.c - P['hand_']) // 4
                if self.reader: return Term('hand', c)
                v = K(0)
                for k, n in enumerate(HMAX):
                    f = 'h%d%s' % (c, HP[k]); self.field(st, f, n + 1)
                    v = add(v, fld(f, n + 1, self.unit(k)))
                return v
            if off.c in (P['kingSquare_'], P['kingSquare_'] + 4) and sz == 4:
                c = (off.c - P['kingSquare_']) // 4
                if self.reader: return Term('ksq', c)
                self.field(st, 'k%d' % c, 81); return fld('k%d' % c, 81)
            if off.c == P['st_']: return Ptr(('st',), K(0))
            if off.c == P['gamePly_'] and sz == 4: return Term('ply' if not self.reader or st.ev or st.node != ('start', 0) else 'oldply')
        return TOP
    def special(self, st, p, off, sz):
        if p.o[0] == 'at':
            if p.o[1] == ('pos',) and sz == 4 and isinstance(p.o[2], int) and p.o[2] + st.norm(off).c == self.P['hand_'] and p.o[4] == 4: return Term('handof', p.o[3])
            return TOP
        if p.o[0] == 'in' and sz == 4:
            if off.p: self.vary(st, off)
            f = 'i%d' % (off.c // 4); self.field(st, f, NP)
            if len(st.dom[f]) == NP: st.dom[f] = tuple(PIECES)
            return fld(f, NP)
        if p.o[0] == 'in2' and sz == 4:
            if off.p: self.vary(st, off)
            return Term('n', off.c // 4)
        return TOP
    units = None
    def unit(self, k):
        if self.units is None:
            self.units = []
            it = lin.Interp(self.m)
            for j, n in enumerate(HP):
                s = State({}); s.mem[('h',)] = {0: (K(0), 4)}
                outs = it.run(next(x for x, f in self.F.items() if f['dem'].startswith('Hand::plusOne(')), [Ptr(('h',), K(0)), K(self.E['HandPiece']['H' + n])], s)
                v = outs[0][1].mem[('h',)][0][0]
                self.units.append(outs[0][1].norm(v).c)
        return self.units[k]
    def const(self, st, v):
        if not isinstance(v, V): raise Undecided('argument')
        v = st.norm(v)
        if v.p: f, t = v.p[0]; raise ForkField(f, {i: t[i] for i in st.dom[f]})
        return v.c
    # ---- what the code calls --------------------------------------------------------------------------
    def leaf(self):
        def ev(*e):
            def h(it, st, dem, a): st.ev.append(e); return K(0)
            return h
        def cstr(it, st, p): return ''.join(chr(it.const(st, x)) for x in it.cstr(st, p))
        def ostr(it, st, dem, a):
            if dem.endswith('char const*)'): st.ev.append(('txt', cstr(it, st, a[1])))
            elif dem.endswith('char)'): st.ev.append(('txt', chr(it.const(st, a[1]))))
            elif 'basic_string' in dem.split('(', 1)[1]: st.ev.append(('txt', ''.join(chr(it.const(st, x)) for x in it.getstr(st, a[1]))))
            else: raise Undecided(dem[:100])
            return a[0]
        def oint(it, st, dem, a):
            if isinstance(a[1], Term): st.ev.append(('txt', a[1]))
            else: st.ev.append(('txt', str(it.const(st, a[1]))))
            return a[0]
        def zero(it, st, dem, a): return K(0)
        def piece(it, st, dem, a):
            st.ev.append(('piece', st.norm(a[1]), st.norm(a[2]))); return K(0)
        def bbof(it, st, dem, a):
            it.store(st, a[0], Term(*(['bb'] + [it.canon(st, x) for x in a[2:]])), 16); return K(0)
        def bbcopy(it, st, dem, a):
            v = it.load(st, a[1], 16); it.store(st, a[0], v, 16); return a[0]
        def bbool(it, st, dem, a): return Term('any', it.load(st, a[0], 16))
        def first(it, st, dem, a): return Term('first', it.load(st, a[0], 16))
        def nfresh(st): k = st.k.get('n', 0); st.k['n'] = k + 1; return k
        def get(it, st, dem, a):
            f = 'ch%d' % nfresh(st); it.field(st, f, 257)
            st.ev.append(('rd', f)); 
            it.store(st, a[1], fld(f, 257), 1)
            st.good = tab(f, [1] * 256 + [0]); return a[0]
        def rdint(it, st, dem, a):
            it.store(st, a[1], Term('int'), 4); st.ev.append(('rdint',)); return a[0]
        def good(it, st, dem, a): return st.good
        def bits(n):
            def h(it, st, dem, a):
                k = n or it.const(st, a[1])
                if not 0 < k <= 8: raise Undecided('bits')
                f = 'b%d' % nfresh(st); it.field(st, f, 1 << k); st.ev.append(('rd', f, k))
                it.moved(st, a[0])
                return fld(f, 1 << k)
            return h
        def put(n):
            def h(it, st, dem, a):
                k = n or it.const(st, a[2])
                st.ev.append(('bits', it.binop(st, 'and', a[1], K((1 << k) - 1), 8), k)); return K(0)
            return h
        def hand(it, st, dem, a):
            if not isinstance(a[0], Ptr): raise Undecided('hand')
            if a[0].o[0] == 'pos':
                o = it.const(st, a[0].off) - it.P['hand_']
                if o not in (0, 4): raise Undecided('hand')
                if 'plusOne' in dem: st.ev.append(('hand', o // 4, it.const(st, a[1]), K(1)))
                elif 'orEqual' in dem: st.ev.append(('hand', o // 4, it.const(st, a[2]), a[1] if isinstance(a[1], Term) else st.norm(a[1]) if isinstance(a[1], V) else a[1]))
                elif 'numOf' in dem or 'value' in dem: return it.thru(st, a)
                else: raise Undecided(dem)
                return K(0)
            return it.thru(st, a)
        def huff(it, st, dem, a):
            o = (a[0].o, it.const(st, a[0].off))
            if o not in it.maps16: raise Undecided('piece map')
            t = it.maps16[o]; none = it.E['Piece']['PieceNone']
            return K(t.get(it.const(st, a[1]), none))
        def digit(it, st, dem, a): return it.point(st, lambda x: int(48 <= x <= 57), a[0]) if isinstance(a[0], V) else TOP
        return [(r'^Position::setPiece\(', piece), (r'^Position::findCheckers', ev('find')),
                (r'^Position::computeBoardKey', lambda it, st, d, a: Term('bkey')), (r'^Position::computeHandKey', lambda it, st, d, a: Term('hkey')),
                (r'^Position::bbOf\(', bbof), (r'^Bitboard::(operator=|Bitboard)\(Bitboard const&\)', bbcopy), (r'^Bitboard::operator bool', bbool), (r'^Bitboard::constFirstOneFromSQ11', first),
                (r'^Hand::(plusOne|orEqual)', hand), (r'operator<<<.*\(std::basic_ostream', ostr), (r'^std::(basic_)?ostream(<.*>)?::operator<<\((unsigned )?(int|long|short)\)', oint),
                (r'^std::(basic_)?istream(<.*>)?::get\(char&\)', get), (r'^std::(basic_)?istream(<.*>)?::operator>>\(int&\)', rdint), (r'basic_ios<.*operator bool', good),
                (r'basic_(i|o)?stringstream<|basic_stringbuf<|^std::(ios_base|locale|basic_iostream|basic_istream|basic_ostream)|runtime_error', zero),
                (r'^std::__cxx11::basic_string<.*(~basic_string|operator=)\(', zero),
                (r'^BitStream::getBit\(', bits(1)), (r'^BitStream::getBits\(', bits(0)), (r'^BitStream::putBit\(', put(1)), (r'^BitStream::putBits\(', put(0)),
                (r'^HuffmanCodeToPieceHash::value', huff), (r'^isdigit$', digit), (r'^void std::fill<', zero)]
    def stable(self, f): return f[0] == '@' or not self.reader and (f[0] in 'pk' or f[0] == 'h' or f == 'turn') or f[0] == 'i'
    def thru(self, st, a): return list(self.call(self.cn, a, st, 1))
    def moved(self, st, p):
        """the stream's read position after more bits"""
        k = st.k.get('at', 0) + 1; st.k['at'] = k
        if isinstance(p, Ptr):
            v = self.load(st, p, 8)
            if isinstance(v, Ptr):
                self.field(st, 'at%d' % k, 33); super(Extract, self).store(st, p, Ptr(v.o, fld('at%d' % k, 33)), 8)
    def resume(self, st):
        for o, c in st.mem.items():
            for off, (v, sz) in list(c.items()):
                if isinstance(v, Ptr) and v.off == TOP and sz == 8 and o[0] == 'alloca': self.field(st, 'at0', 33); c[off] = (Ptr(v.o, fld('at0', 33)), sz)
