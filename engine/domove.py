"""Abstract make/unmake: enumerate every class of move, compare each view of the abstract position."""
import build
from posmodel import *

class Enum:
    def __init__(self, chk, mod=None):
        self.mod = mod or build.posmod()
        self.M = Model(self.mod)
        self.chk = chk
        for n in ('w_doMove', 'w_undoMove', 'w_move', 'w_drop'):
            if n not in self.mod['fns']: chk.broken('wrapper %s missing from the bitcode' % n)
        self.src = {}
        for n, f in self.mod['fns'].items():
            self.src[f['dem'].split('(')[0]] = (f.get('file'), f.get('line'))

    def where(self, fn):
        f, l = self.src.get(fn, (None, None))
        return '%s:%s (%s)' % (f, l, fn)

    def classes(self):
        M = self.M
        for us in (0, 1):
            for pt in M.HANDS: yield dict(us=us, drop=pt, pf=None, cap=None, prom=False)
            for pf in M.pt[1:]:
                for prom in ((False, True) if pf in M.PROMO else (False,)):
                    for cap in [None] + [p for p in M.pt[1:] if p != 'King']:
                        yield dict(us=us, drop=None, pf=pf, cap=cap, prom=prom)

    def name(self, c):
        col = 'Black' if c['us'] == 0 else 'White'
        if c['drop']: return '%s drops %s' % (col, c['drop'])
        return '%s moves %s%s%s' % (col, c['pf'], ' promoting' if c['prom'] else '', ', capturing ' + c['cap'] if c['cap'] else '')

    def setup(self, c, checkT=None, dcF=None):
        """interpreter + initial abstract state for class c; checkT/dcF: what the check info says"""
        M = self.M; us = c['us']
        nc = len(M.contents)
        drop = c['drop']
        sq = ('T', 'Z') if drop else ('F', 'T', 'Z')
        it = M.interp(sq, nc)
        cases = {'T': [(c['cap'], 1 - us) if c['cap'] else ('Empty', None)] * nc, 'Z': M.contents}
        if not drop: cases['F'] = [(c['pf'], us)] * nc
        ksq = {}
        if c['pf'] == 'King': ksq[us] = 'F'
        for k in (0, 1):
            a = 'ksq%d' % k
            it.ranges[a] = (0, 80); it.regions[a] = frozenset(range(81))
            for s in ('F', 'T'): it.distinct.add(frozenset((a, s)))
        it.init['pos'] = M.pos_init(it, cases, us, ksq=ksq)
        for s, p in (('st0', 'stm1'), ('st1', None), ('stm1', None)):
            it.init[s] = M.state_init(s, p)
            it.layout[s] = M.layout_state()
        so = M.S['hand'][0]
        base = it.init['st0']
        it.init['st0'] = lambda key, size, ty: M.hand(it, us) if key == (so, ()) and size == 4 else base(key, size, ty)
        it.parity = {'BK.st0': us, 'HK.st0': 0}
        it.even_global = {'@' + M.gname['Position::zobrist_'], '@' + M.gname['Position::zobHand_']}
        CI = M.CI
        ptTo = drop or (M.PROMO[c['pf']] if c['prom'] else c['pf'])
        def ci(key, size, ty):
            off, idx = key
            if idx or size != 16: return None
            bits = {s: (0, 0) for s in it.squares}
            o, sz = CI['checkBB']
            if o <= off < o + sz and checkT is not None:
                on = ((off - o) // 16 == M.PT[ptTo]) == checkT
                bits['T'] = (it.ALL, 0) if on else (0, it.ALL)
            if off == CI['dcBB'][0] and dcF is not None and 'F' in bits:
                bits['F'] = (it.ALL, 0) if dcF else (0, it.ALL)
            return BB(bits, ('ci', off))
        it.init['ci'] = ci
        st = State()
        if drop: rs = it.call('w_drop', [Ptr('pos'), Lin(32, 0, [('T', 1)]), C(M.PT[drop], 32)], st)
        else: rs = it.call('w_move', [Ptr('pos'), Lin(32, 0, [('F', 1)]), Lin(32, 0, [('T', 1)]), C(int(c['prom']), 1)], st)
        vals = {r[0].key(): r[0] for r in rs}
        if len(vals) != 1: raise Unsupported('several encodings of one move')
        mv = next(iter(vals.values()))
        if not isinstance(mv, (C, Lin)): raise Unsupported('move value not tracked')
        return it, cases, ptTo, mv

    def snapshot(self, it, st, ptr_obj=None):
        """all observable cells of the position reachable from object pos"""
        M = self.M; out = {}
        P, S = M.P, M.S
        for i in range(len(M.pt)): out[('byTypeBB_', i)] = it.mem_load(st, Ptr('pos', P['byTypeBB_'][0] + 16 * i), 16, '<2 x i64>')
        for i in (0, 1): out[('byColorBB_', i)] = it.mem_load(st, Ptr('pos', P['byColorBB_'][0] + 16 * i), 16, '<2 x i64>')
        out[('goldsBB_', 0)] = it.mem_load(st, Ptr('pos', P['goldsBB_'][0]), 16, '<2 x i64>')
        for s in it.squares: out[('piece_', s)] = it.mem_load(st, Ptr('pos', P['piece_'][0], ((s, 4),)), 4, 'i32')
        for i in (0, 1): out[('kingSquare_', i)] = it.mem_load(st, Ptr('pos', P['kingSquare_'][0] + 4 * i), 4, 'i32')
        for i in (0, 1): out[('hand_', i)] = it.mem_load(st, Ptr('pos', P['hand_'][0] + 4 * i), 4, 'i32')
        out[('turn_', 0)] = it.mem_load(st, Ptr('pos', P['turn_'][0]), 4, 'i32')
        out[('gamePly_', 0)] = it.mem_load(st, Ptr('pos', P['gamePly_'][0]), 4, 'i32')
        out[('st_', 0)] = sp = it.mem_load(st, Ptr('pos', P['st_'][0]), 8, 'ptr')
        if isinstance(sp, Ptr) and not sp.idx:
            for n, (o, sz) in S.items():
                if n == 'continuousCheck':
                    for i in (0, 1): out[('st.' + n, i)] = it.mem_load(st, Ptr(sp.obj, sp.off + o + 4 * i), 4, 'i32')
                elif n == 'checkersBB': out[('st.' + n, 0)] = it.mem_load(st, Ptr(sp.obj, sp.off + o), 16, '<2 x i64>')
                else: out[('st.' + n, 0)] = it.mem_load(st, Ptr(sp.obj, sp.off + o), sz, 'ptr' if n == 'previous' else 'i%d' % (sz * 8))
        return out

    def bits_of(self, it, v):
        if isinstance(v, BB): return {s: v.bits.get(s, (0, 0)) for s in it.squares}
        return {s: (0, 0) for s in it.squares}

    def cmp(self, it, got, exp):
        """None = equal, 'unknown', or a description of the certain difference"""
        if isinstance(exp, BB):
            g, e = self.bits_of(it, got), self.bits_of(it, exp)
            if isinstance(got, BB) and got.tag is not None and got.key() == exp.key(): return None
            unk = False
            for s in it.squares:
                bad = (g[s][0] & e[s][1]) | (g[s][1] & e[s][0])
                if bad:
                    k = (bad & -bad).bit_length() - 1
                    con = self.M.contents[k]
                    return 'bit of square %s is %d, must be %d%s' % (SQN.get(s, s), int(bool(g[s][0] & bad)), int(not (g[s][0] & bad)), (' (when that square holds %s)' % ('nothing' if con[0] == 'Empty' else '%s %s' % ('BW'[con[1]], con[0]))) if s == 'Z' else '')
                if (g[s][0] | g[s][1]) & (e[s][0] | e[s][1]) != (e[s][0] | e[s][1]): unk = True
            return 'unknown' if unk else None
        if got is None: return 'unknown'
        if got.key() == exp.key(): return None
        if isinstance(got, (C, Lin)) and isinstance(exp, (C, Lin)) or isinstance(got, Ptr) and isinstance(exp, Ptr): return 'is %r, must be %r' % (got, exp)
        if isinstance(got, (Xor, C, Lin)) and isinstance(exp, (Xor, C, Lin)): return 'is %r, must be %r' % (got, exp)
        return 'unknown'

SQN = {'F': 'from', 'T': 'to', 'Z': 'other'}

def expected_after(self, it, cases, c, ptTo, before, check, checkT):
    """the specification: what every view must say after the move"""
    M = self.M; us = c['us']; them = 1 - us
    e = {}
    nc = len(M.contents)
    after = dict(cases)
    after['T'] = [(ptTo, us)] * nc
    if not c['drop']: after['F'] = [('Empty', None)] * nc
    def bb(f, i):
        bits = {}
        for s in it.squares:
            o = M.view_bits(f, i, after[s]); bits[s] = (o, it.ALL & ~o)
        return BB(bits)
    for i in range(len(M.pt)): e[('byTypeBB_', i)] = bb('byTypeBB_', i)
    for i in (0, 1): e[('byColorBB_', i)] = bb('byColorBB_', i)
    e[('goldsBB_', 0)] = bb('goldsBB_', 0)
    for s in it.squares:
        vals = {M.piece_val(*x) for x in after[s]}
        e[('piece_', s)] = C(vals.pop(), 32) if len(vals) == 1 else before[('piece_', s)]
    e[('kingSquare_', 0)], e[('kingSquare_', 1)] = before[('kingSquare_', 0)], before[('kingSquare_', 1)]
    if c['pf'] == 'King': e[('kingSquare_', us)] = Lin(32, 0, [('T', 1)])
    hand = {0: M.hand(it, 0), 1: M.hand(it, 1)}
    hk = [('HK.st0', 1)]; bk = [('BK.st0', 1)]
    Z, H = 'Position::zobrist_', 'Position::zobHand_'
    hp = None
    if c['drop']:
        hp = M.HP[c['drop']]
        hand[us] = M.hand(it, us, -self.unit[hp])
        hk.append((M.zob(H, hp, None, us), -1))
    else:
        bk.append((M.zob(Z, M.PT[c['pf']], 'F', us), -1))
        if c['cap']:
            hp = M.HP[M.RAW[c['cap']]]
            hand[us] = M.hand(it, us, self.unit[hp])
            hk.append((M.zob(H, hp, None, us), 1))
            bk.append((M.zob(Z, M.PT[c['cap']], 'T', them), -1))
    bk.append((M.zob(Z, M.PT[ptTo], 'T', us), 1))
    e[('hand_', 0)], e[('hand_', 1)] = hand[0], hand[1]
    e[('turn_', 0)] = C(them, 32)
    e[('gamePly_', 0)] = Lin(32, 1, [('ply', 1)])
    e[('st_', 0)] = Ptr('st1')
    e[('st.boardKey', 0)] = Lin(64, 1 if us == 0 else -1, bk)
    e[('st.handKey', 0)] = Lin(64, 0, hk)
    e[('st.pliesFromNull', 0)] = Lin(32, 1, [('pfn.st0', 1)])
    e[('st.continuousCheck', us)] = Lin(32, 2, [('cc%d.st0' % us, 1)]) if check else C(0, 32)
    e[('st.continuousCheck', them)] = Lin(32, 0, [('cc%d.st0' % them, 1)])
    e[('st.previous', 0)] = Ptr('st0')
    e[('st.hand', 0)] = hand[them]
    if not check: e[('st.checkersBB', 0)] = BB({s: (0, it.ALL) for s in it.squares})
    else:
        bits = {}
        if c['drop']:
            bits = {'T': (it.ALL, 0), 'Z': (0, it.ALL)}
        else:
            bits['F'] = (0, it.ALL)
            bits['T'] = (it.ALL, 0) if checkT else (0, 0) if checkT is None else (0, it.ALL)
            notus = sum(1 << i for i, x in enumerate(M.contents) if x[1] != us)
            bits['Z'] = (0, notus)
        e[('st.checkersBB', 0)] = BB(bits)
    return e
Enum.expected_after = expected_after

def units(self):
    """what one piece of each kind adds to the packed hand, and whether the counters read it back"""
    M = self.M; it = M.interp((), 1); self.unit = {}
    top = {'Pawn': 18, 'Lance': 4, 'Knight': 4, 'Silver': 4, 'Gold': 4, 'Bishop': 2, 'Rook': 2}
    for n in M.HANDS:
        (v, _), = it.call('e_plusOne', [C(0, 32), C(M.HP[n], 32)], State())
        if not isinstance(v, C): raise Unsupported('hand unit')
        self.unit[M.HP[n]] = v.v
    ts = []
    for n in M.HANDS:
        it.ranges['n' + n] = (0, top[n]); ts.append(('n' + n, self.unit[M.HP[n]]))
    whole = Lin(32, 0, ts)
    M.unit = self.unit
    out = []
    for n in M.HANDS:
        hp = M.HP[n]; one = Lin(32, 0, [('n' + n, 1)])
        for fn, args, exp in (('e_numOf', [whole, C(hp, 32)], one), ('e_numOfT_H' + n, [whole], one),
                              ('e_exists', [whole, C(hp, 32)], Lin(32, 0, [('n' + n, self.unit[hp])])), ('e_existsT_H' + n, [whole], Lin(32, 0, [('n' + n, self.unit[hp])])),
                              ('e_minusOne', [whole, C(hp, 32)], Lin(32, -self.unit[hp], ts)), ('e_plusOne', [whole, C(hp, 32)], Lin(32, self.unit[hp], ts)),
                              ('e_orEqual', [Lin(32, 0, [t for t in ts if t[0] != 'n' + n]), Lin(32, 0, [('n' + n, 1)]), C(hp, 32)], whole)):
            rs = it.call(fn, args, State())
            for v, _ in rs:
                ok = v.key() == exp.key()
                out.append((n, fn, v, exp, ok if isinstance(v, (C, Lin)) else None))
    return out
Enum.units = units
