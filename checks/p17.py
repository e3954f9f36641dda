#!/usr/bin/env python3
"""P17: repetition verdicts."""
import os, sys, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main, REPO, venv
venv()
import build, fold
import domove, posmodel
from posmodel import State as PState, Ptr as PPtr
from lin import *

N = 16                                   # records of history modelled
PLY = 11                                 # plies since the last pass / limit: 0 .. PLY-1
REP = dict(none=0)

def member(rec, name):
    return next((x['off'] // 8 for x in rec['members'] if x['name'] == name), None)

def spec(st, us, after):
    """set of (verdict, box) the rules allow on this path; box = refined domains"""
    R = REP; out = []
    def feasible(dom):
        for (f, g), (lo, hi) in st.zones.items():
            if f in dom and g in dom and not any(lo <= a - b <= hi for a in dom[f] for b in dom[g]): return False
        return True
    def split(dom, f, pred):
        for tv in (True, False):
            d = tuple(i for i in dom[f] if pred(i) == tv)
            if d:
                n = dict(dom); n[f] = d
                if feasible(n): yield tv, n
    def go(i, dom):
        if i > PLY: out.append((R['NotRepetition'], dom)); return
        for a, d in split(dom, 'pfn', lambda p: p + after >= i):
            if not a: out.append((R['NotRepetition'], d)); continue
            for b, d in split(d, 'lim', lambda p: p >= i):
                if not b: out.append((R['NotRepetition'], d)); continue
                k = i - after
                for be, d1 in split(d, 'b%d' % k, lambda x: x == 0):
                    if not be: go(i + 2, d1); continue
                    for he, d2 in split(d1, 'h%d' % k, lambda x: x == 0):
                        if he:
                            # the same position: who has been giving check all the time?
                            me = us if not after else 1 - us           # side to move in the repeated position
                            for c1, d3 in split(d2, 'cc%d' % me, lambda x: x >= i):
                                if c1:
                                    for c2, d4 in split(d3, 'cc%d' % (1 - me), lambda x: x >= i):     # both at once cannot be told apart
                                        out.append(((R['RepetitionLose'], R['RepetitionWin']) if c2 else R['RepetitionLose'], d4))
                                    continue
                                for c2, d4 in split(d3, 'cc%d' % (1 - me), lambda x: x >= i):
                                    if after and not c2:
                                        # counted before the move: one more check may be due to the move itself
                                        for c3, d5 in split(d4, 'cc%d' % (1 - me), lambda x: x + 2 >= i):
                                            out.append(((R['RepetitionDraw'], R['RepetitionWin']) if c3 else R['RepetitionDraw'], d5))
                                    else: out.append((R['RepetitionWin'] if c2 else R['RepetitionDraw'], d4))
                        elif after: go(i + 2, d2)
                        else:
                            for rel in (0, 1, 2):
                                for hit, d3 in split(d2, 'q%d' % k, lambda x: HREL[x] == rel):
                                    if hit and rel == 0: out.append((R['RepetitionSuperior'], d3))
                                    elif hit and rel == 1: out.append((R['RepetitionInferior'], d3))
                                    elif hit: go(i + 2, d3)
    go(4, dict(st.dom))
    return out

H0 = {'Pawn': 2, 'Gold': 2, 'Rook': 1}
HALT = [({'Pawn': 1, 'Gold': 2, 'Rook': 1}, 0), ({'Pawn': 2, 'Gold': 1}, 0), ({'Pawn': 2, 'Gold': 3, 'Rook': 1}, 1), ({'Pawn': 3, 'Gold': 2, 'Rook': 2}, 1), ({'Pawn': 3, 'Gold': 1, 'Rook': 1}, 2), ({'Pawn': 1, 'Gold': 2, 'Rook': 2}, 2)]
HREL = [r for _, r in HALT]

def run(chk):
    m = build.rulesmod()
    E = {k: dict(v) for k, v in m['enums'].items()}
    REP.update(E['RepetitionType'])
    pr, sr = m['records']['Position'], m['records']['StateInfo']
    off = {n: member(sr, n) for n in ('pliesFromNull', 'continuousCheck', 'boardKey', 'handKey', 'previous', 'hand')}
    po = {n: member(pr, n) for n in ('st_', 'turn_')}
    if None in off.values() or None in po.values(): chk.undecide('state record laid out differently'); return chk.finish('not analysed')
    shift = handshift(m, chk)
    hand = lambda d: sum(v << shift[k] for k, v in d.items())
    fn = {k: next((n for n, f in m['fns'].items() if re.match(r'Position::%s\(' % k, f.get('dem', ''))), None) for k in ('isDraw', 'moveIsDraw')}
    # who may read the counters is checked below; here the verdict
    for name, after in (('isDraw', 0), ('moveIsDraw', 1)):
        if not fn[name]: chk.undecide('%s not found' % name); continue
        for us in (0, 1):
            keyafter = lambda it, st, dem, args: K(0)
            I = Interp(m, hooks=[(r'Position::getKeyAfter', keyafter)], fuel=3000000)
            sizes = {'pfn': PLY - 1, 'lim': PLY + 1, 'cc0': PLY + 4, 'cc1': PLY + 4}
            for k in range(1, N): sizes.update({'b%d' % k: 2, 'h%d' % k: 2, 'q%d' % k: len(HALT)})
            st = State(sizes)
            st.mem[('P',)] = {po['st_']: (Ptr(('si', 0), K(0)), 8), po['turn_']: (K(us), 4)}
            for k in range(N):
                c = {off['pliesFromNull']: (fld('pfn', sizes['pfn']) if not k else TOP, 4), off['previous']: (Ptr(('si', k + 1), K(0)), 8)}
                same = (k + after) % 2 == 0            # the same side to move as in the position asked about
                if k or after:
                    c[off['boardKey']] = (add(fld('b%d' % k, 2, 1), K(0)) if same and k else K(1), 8)
                    c[off['handKey']] = (fld('h%d' % k, 2, 2) if k else K(2), 8)
                    c[off['hand']] = (tab('q%d' % k, [hand(d) for d, _ in HALT]) if k else K(hand(H0)), 4)
                else:
                    c[off['boardKey']] = (K(0), 8); c[off['handKey']] = (K(0), 8); c[off['hand']] = (K(hand(H0)), 4)
                if not k:
                    for x in (0, 1): c[off['continuousCheck'] + 4 * x] = (fld('cc%d' % x, sizes['cc0']), 4)
                st.mem[('si', k)] = c
            try: outs = I.run(fn[name], [Ptr(('P',), K(0)), fld('lim', sizes['lim'])] if not after else [Ptr(('P',), K(0)), K(0), fld('lim', sizes['lim'])], st)
            except (Undecided, ForkField) as e: chk.undecide('%s: %s' % (name, e)); continue
            chk.obligation('verdict functions')
            names = {v: k for k, v in REP.items()}
            for v, s in outs:
                chk.obligation('paths')
                vs = None if s.approx else values(s, v)
                if vs is None: chk.undecide('%s: path not followed' % name); continue
                for got, s1 in vs:
                    for want, dom in spec(s1, us, after):
                        chk.obligation('cases')
                        if got == want or isinstance(want, tuple) and got in want: continue
                        w = want if not isinstance(want, tuple) else want[0]
                        chk.violation('%s:%s:%s' % (name, names.get(got, got), names[w]), 'Position::%s says %s where the rules say %s: %s to move, %s (%s)' % (name, names.get(got, got), names[w], 'White' if us else 'Black', describe(dom, sizes, after), where(m, fn[name])))
    superior(chk, m, shift)
    counters(chk)
    passes(chk, m, off, po)
    chk.need('verdict functions', 0)
    chk.assumptions += ['equal keys mean equal positions (no hash collisions)', 'runs of up to %d plies are followed; the loop treats longer ones alike' % (PLY - 1)]
    chk.finish('Abstract interpretation of the repetition verdict with symbolic history (keys, hands, check counters, plies since a pass, limit), compared case by case with the rules; superiority of hands over all sign classes of the seven counts; the counters maintained by make and pass.', functions=sorted(m['fns'][f]['dem'] for f in fn.values() if f))

def describe(dom, sizes, after):
    o = []
    for f, t in (('pfn', 'plies since the last pass'), ('lim', 'limit'), ('cc0', "Black's running checks x2"), ('cc1', "White's running checks x2")):
        if len(dom[f]) < sizes[f]: o.append('%s %s' % (t, '%d..%d' % (dom[f][0], dom[f][-1]) if len(dom[f]) > 1 else dom[f][0]))
    for k in range(1, N):
        if dom['b%d' % k] == (0,):
            o.append('position %d plies back has the same board%s' % (k + after, ' and hands' if dom['h%d' % k] == (0,) else ''))
    return '; '.join(o)

def where(m, n): return '%s:%s' % (m['fns'][n].get('file', '').replace(REPO + '/', ''), m['fns'][n].get('line'))

def handshift(m, chk):
    """slot positions of the packed hand, from the table the class itself uses to change counts"""
    f = fold.fold(m)
    g = next((n for n in m['globals'] if 'HandPieceOne' in n), None)
    b = None
    if g:
        d = m['globals'][g]
        b = bytes.fromhex(d['init']) if 'init' in d else f.get(g)
    E = dict(m['enums']['HandPiece'])
    if b is None: return {'Pawn': 0, 'Lance': 6, 'Knight': 10, 'Silver': 14, 'Gold': 18, 'Bishop': 22, 'Rook': 25}
    return {k: int.from_bytes(b[4 * E['H' + k]:4 * E['H' + k] + 4], 'little').bit_length() - 1 for k in ('Pawn', 'Lance', 'Knight', 'Silver', 'Gold', 'Bishop', 'Rook')}

MAXH = {'Pawn': 18, 'Lance': 4, 'Knight': 4, 'Silver': 4, 'Gold': 4, 'Bishop': 2, 'Rook': 2}
def superior(chk, m, shift):
    """this hand is equal or superior iff no kind is fewer: decided for every sign pattern of the seven differences"""
    f = next((n for n, x in m['fns'].items() if x.get('dem', '').startswith('Hand::isEqualOrSuperior')), None)
    text = '#include "hand.hpp"\nextern "C" bool w_sup(const Hand* a, const Hand* b) { return a->isEqualOrSuperior(*b); }\n'
    m = build.module('handsup', ['hand'], '', '.*', text=text, pipeline=build.LIGHT)
    ks = list(shift)
    for pat in itertools.product((-1, 0, 1), repeat=7):
        sizes = {}; a = K(0); diff = K(0)
        for k, s in zip(ks, pat):
            n = MAXH[k]
            if s: sizes['d' + k] = n; diff = add(diff, fld('d' + k, n, s << shift[k], s << shift[k]))
        st = State(sizes)
        I = Interp(m)
        st.mem[('a',)] = {0: (add(K(0), diff), 4)}; st.mem[('b',)] = {0: (K(0), 4)}
        # only the difference matters when the code subtracts; otherwise fall back to independent counts
        try: outs = I.run('w_sup', [Ptr(('a',), K(0)), Ptr(('b',), K(0))], st)
        except (Undecided, ForkField) as e: chk.undecide('hand comparison: %s' % e); return
        for v, s in outs:
            if not isinstance(v, V) or s.norm(v).p or s.approx:
                return superior2(chk, m, shift)
            chk.obligation('hand comparison classes')
            want = int(-1 not in pat)
            if s.norm(v).c & 1 != want:
                chk.violation('superior', 'a hand that has %s is %sjudged equal or superior (src/hand.hpp Hand::isEqualOrSuperior)' % (', '.join('%s %s' % ('fewer' if x < 0 else 'more', k) for k, x in zip(ks, pat) if x), '' if not want else 'not ')); return

def superior2(chk, m, shift):
    """the same with both hands symbolic, one kind at a time distinguished"""
    for k in shift:
        for sgn in (-1, 0, 1):
            sizes = {}; a = b = K(0); zones = {}
            for j in shift:
                n = MAXH[j] + 1
                sizes['a' + j] = n; sizes['b' + j] = n
                a = add(a, fld('a' + j, n, 1 << shift[j])); b = add(b, fld('b' + j, n, 1 << shift[j]))
                lo, hi = (0, n - 1) if j != k else ((-n + 1, -1) if sgn < 0 else (0, 0) if sgn == 0 else (1, n - 1))
                zones[('a' + j, 'b' + j)] = (lo, hi); zones[('b' + j, 'a' + j)] = (-hi, -lo)
            st = State(sizes, zones=zones); I = Interp(m)
            st.mem[('a',)] = {0: (a, 4)}; st.mem[('b',)] = {0: (b, 4)}
            try: outs = I.run('w_sup', [Ptr(('a',), K(0)), Ptr(('b',), K(0))], st)
            except (Undecided, ForkField) as e: chk.undecide('hand comparison: %s' % e); return
            for v, s in outs:
                if not isinstance(v, V) or s.norm(v).p or s.approx: chk.undecide('hand comparison'); return
                chk.obligation('hand comparison classes')
                if s.norm(v).c & 1 != int(sgn >= 0): chk.violation('superior', 'a hand with %s %s is %sjudged equal or superior (src/hand.hpp Hand::isEqualOrSuperior)' % ('fewer' if sgn < 0 else 'no fewer', k, '' if sgn < 0 else 'not ')); return

def passes(chk, m, off, po):
    """a pass ends the run of plies whatever its length was"""
    f = next((n for n, x in m['fns'].items() if x.get('dem', '').startswith('void Position::doNullMove<true>')), None)
    if not f: return
    for us in (0, 1):
        st = State({'pfn': 40, 'cc0': 12, 'cc1': 12})
        st.mem[('P',)] = {po['st_']: (Ptr(('si', 0), K(0)), 8), po['turn_']: (K(us), 4)}
        st.mem[('si', 0)] = {off['pliesFromNull']: (fld('pfn', 40), 4), off['continuousCheck']: (fld('cc0', 12), 4), off['continuousCheck'] + 4: (fld('cc1', 12), 4)}
        st.mem[('si', 1)] = {}
        zero = lambda it, st, dem, args: TOP
        try: outs = Interp(m, hooks=[(r'^Bitboard::|^operator|Hand::|Position::(zob|hand)', zero)]).run(f, [Ptr(('P',), K(0)), Ptr(('si', 1), K(0))], st)
        except (Undecided, ForkField) as e: chk.undecide('pass: %s' % e); return
        for _, s in outs:
            p = s.mem[('P',)].get(po['st_'], (None,))[0]
            v = s.mem.get(p.o, {}).get(off['pliesFromNull'], (None,))[0] if isinstance(p, Ptr) else None
            if not isinstance(v, V) or s.approx: chk.undecide('pass: counter not followed'); continue
            chk.obligation('pass paths')
            if differ(s, v, K(0)) is not None:
                chk.violation('pass:run', 'after a pass the count of plies since the last pass is %r, must be 0 (%s)' % (s.norm(v), where(m, f)))

def counters(chk):
    """what a move and a pass do to the counters and the hand that the verdict reads"""
    E = domove.Enum(chk); M = E.M
    list(E.units())
    want = [('st.pliesFromNull', 0), ('st.continuousCheck', 0), ('st.continuousCheck', 1), ('st.hand', 0)]
    for c in E.classes():
        for check, checkT, dcF in ([(False, None, None)] + ([(True, None, None)] if c['drop'] else [(True, True, False), (True, True, True), (True, False, True)])):
            nm = E.name(c) + (' with check' if check else '')
            try:
                it, cases, ptTo, mv = E.setup(c, checkT, dcF)
                before = E.snapshot(it, PState())
                rs = it.call('w_doMove', [PPtr('pos'), mv, PPtr('st1'), PPtr('ci'), posmodel.C(int(check), 1)], PState())
                exp = E.expected_after(it, cases, c, ptTo, before, check, checkT)
            except posmodel.Unsupported as e: chk.undecide('%s: %s' % (nm, e)); continue
            chk.obligation('move classes')
            for v, st in rs:
                if 'wildstore' in st.extra: chk.undecide('%s: store through unknown pointer' % nm); continue
                got = E.snapshot(it, st)
                for k in want:
                    g, e = got.get(k), exp.get(k)
                    if g is None or e is None: continue
                    chk.obligation('counters compared')
                    r = E.cmp(it, g, e)
                    if r == 'unknown': chk.undecide('%s: %s' % (nm, k))
                    elif r: chk.violation('do:%s:%s' % k, 'after "%s": %s[%s] %s  [%s]' % (nm, k[0][3:], k[1], r, E.where('Position::doMove')))
    for us in (0, 1):
        it, cases, ptTo, mv = E.setup(dict(us=us, drop=None, pf='Pawn', cap=None, prom=False))
        it.init['n0'] = M.state_init('n0'); it.layout['n0'] = M.layout_state()
        try: sts = [s for _, s in it.call('w_pass', [PPtr('pos'), PPtr('n0')], PState())]
        except posmodel.Unsupported as e: chk.undecide('pass: %s' % e); continue
        for s in sts:
            got = E.snapshot(it, s); chk.obligation('pass paths')
            for k, e in ((('st.pliesFromNull', 0), posmodel.C(0, 32)), (('st.hand', 0), M.hand(it, 1 - us))):
                r = E.cmp(it, got.get(k), e)
                if r and r != 'unknown': chk.violation('pass:%s' % k[0], 'after a pass: %s %s  [%s]' % (k[0][3:], r, E.where('void Position::doNullMove<true>')))

if __name__ == '__main__': main(run, Check('P17', technique='abstract interpretation'))
