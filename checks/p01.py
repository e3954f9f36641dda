#!/usr/bin/env python3
"""P01: undoing a move (or a pass) restores every component of the position."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main
import domove
from posmodel import *

def compare(chk, E, it, nm, before, after, where, what):
    for k, e in before.items():
        chk.obligation('cells compared')
        g = after.get(k)
        r = E.cmp(it, g, e) if g is not None else ('unknown' if k[0] != 'st_' else 'unknown')
        if r == 'unknown': chk.undecide('%s: %s[%s]' % (nm, k[0], k[1]))
        elif r: chk.violation('%s:%s:%s' % (what, k[0], k[1]), 'after "%s" and taking it back: %s[%s] %s (value before the move)  [%s]' % (nm, k[0], k[1], r, where))

def run(chk):
    E = domove.Enum(chk)
    M = E.M
    E.units()
    for c in E.classes():
        for check, checkT, dcF in [(False, None, None), (True, True, False)]:
            nm = E.name(c) + (' with check' if check else '')
            try:
                it, cases, ptTo, mv = E.setup(c, checkT, dcF)
                before = E.snapshot(it, State())
                rs = it.call('w_doMove', [Ptr('pos'), mv, Ptr('st1'), Ptr('ci'), C(int(check), 1)], State())
                fin = []
                for v, st in rs:
                    if 'wildstore' in st.extra: raise Unsupported('store through unknown pointer')
                    fin += it.call('w_undoMove', [Ptr('pos'), mv], st)
            except Unsupported as e:
                chk.undecide('%s: %s' % (nm, e)); continue
            if not fin: chk.undecide(nm + ': no path'); continue
            chk.obligation('move classes')
            for v, st in fin:
                chk.obligation('paths')
                if 'wildstore' in st.extra: chk.undecide('%s: store through unknown pointer' % nm); continue
                compare(chk, E, it, nm, before, E.snapshot(it, st), E.where('Position::undoMove') + ' / ' + E.where('Position::doMove'), 'undo')
    # pass / take back the pass; also two passes in a row, and a pass after which a move is made and taken back
    for us in (0, 1):
        c = dict(us=us, drop=None, pf='Pawn', cap=None, prom=False)
        for depth in (1, 2, 3):
            nm = '%s passes%s' % ('BW'[us], ' (%d passes in a row)' % depth if depth > 1 else '')
            it, cases, ptTo, mv = E.setup(c)
            for d in range(depth):
                it.init['n%d' % d] = M.state_init('n%d' % d); it.layout['n%d' % d] = M.layout_state()
            before = E.snapshot(it, State())
            try:
                sts = [State()]
                for d in range(depth): sts = [s2 for s in sts for _, s2 in it.call('w_pass', [Ptr('pos'), Ptr('n%d' % d)], s)]
                if depth == 1:
                    for s in sts:
                        mid = E.snapshot(it, s)
                        exp = dict(before)
                        exp[('turn_', 0)] = C(1 - us, 32)
                        exp[('st.boardKey', 0)] = Lin(64, 1 if us == 0 else -1, [('BK.st0', 1)])
                        exp[('st.pliesFromNull', 0)] = C(0, 32)
                        exp[('st.hand', 0)] = M.hand(it, 1 - us)
                        for k in (('st.continuousCheck', 0), ('st.continuousCheck', 1), ('gamePly_', 0), ('st.checkersBB', 0)): exp.pop(k, None)
                        for k, e in exp.items():
                            chk.obligation('cells compared')
                            r = E.cmp(it, mid.get(k), e)
                            if r == 'unknown': chk.undecide('%s: %s' % (nm, k))
                            elif r: chk.violation('pass:%s:%s' % k, 'during "%s": %s[%s] %s  [%s]' % (nm, k[0], k[1], r, E.where('void Position::doNullMove<true>')))
                for d in reversed(range(depth)): sts = [s2 for s in sts for _, s2 in it.call('w_unpass', [Ptr('pos'), Ptr('n%d' % d)], s)]
            except Unsupported as e:
                chk.undecide('%s: %s' % (nm, e)); continue
            for s in sts:
                chk.obligation('pass paths')
                compare(chk, E, it, nm, before, E.snapshot(it, s), E.where('void Position::doNullMove<false>'), 'unpass')
    if chk.count.get('move classes', 0) + len(chk.undecided) < 1000 or chk.count.get('pass paths', 0) + len(chk.undecided) < 6: chk.broken('too few classes analysed')
    chk.cov['functions'] = sorted(it.fn_seen)
    chk.assumptions += ['the move is one the side to move can make: it owns the piece, the destination is empty or holds an enemy piece other than the king', 'StateInfo storage handed to the move outlives it (history container; see P08)']
    chk.finish('Disjunctive abstract interpretation of the LLVM IR of Position::doMove followed by Position::undoMove, and of doNullMove<true>/<false>, with symbolic squares, hands, keys and counters; every cell of the position and of its current StateInfo is compared with its value before.')
main(run, Check('P01', technique='abstract interpretation'))
