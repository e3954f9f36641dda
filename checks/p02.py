#!/usr/bin/env python3
"""P02: after any move every redundant view of the position agrees with the rules' successor."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main
import domove
from posmodel import *

def run(chk):
    E = domove.Enum(chk)
    M = E.M
    for n, fn, v, exp, ok in E.units():
        chk.obligation('hand counter identities')
        if ok is False: chk.violation('hand:%s:%s' % (fn, n), 'packed hand: %s of %s is %r, must be %r (src/hand.hpp)' % (fn, n, v, exp))
        elif ok is None: chk.undecide('hand %s %s' % (fn, n))
    for c in E.classes():
        variants = [(False, None, None)] + ([(True, None, None)] if c['drop'] else [(True, True, False), (True, True, True), (True, False, True)])
        for check, checkT, dcF in variants:
            nm = E.name(c) + (' with check' if check else '')
            try:
                it, cases, ptTo, mv = E.setup(c, checkT, dcF)
                before = E.snapshot(it, State())
                rs = it.call('w_doMove', [Ptr('pos'), mv, Ptr('st1'), Ptr('ci'), C(int(check), 1)], State())
                exp = E.expected_after(it, cases, c, ptTo, before, check, checkT)
            except Unsupported as e:
                chk.undecide('%s: %s' % (nm, e)); continue
            if not rs: chk.undecide(nm + ': no path'); continue
            chk.obligation('move classes x check variants')
            for v, st in rs:
                chk.obligation('paths')
                if 'wildstore' in st.extra: chk.undecide('%s: store through unknown pointer' % nm); continue
                got = E.snapshot(it, st)
                for k, e in exp.items():
                    chk.obligation('cells compared')
                    g = got.get(k)
                    if g is None and k[0].startswith('st.'): continue
                    r = E.cmp(it, g, e)
                    if r == 'unknown':
                        if k[0] != 'st.checkersBB': chk.undecide('%s: %s[%s]' % (nm, k[0], k[1]))
                    elif r: chk.violation('do:%s:%s' % (k[0], k[1]), 'after "%s": %s[%s] %s  [%s]' % (nm, k[0], k[1], r, E.where('Position::doMove')))
            if not check:
                # look-ahead keys must equal the key the move produces
                for fn, real, what, e in (('w_keyAfter', 'Position::getKeyAfter', 'key after move', [exp[('st.boardKey', 0)], exp[('st.handKey', 0)]]),
                                          ('w_boardKeyAfter', 'Position::getBoardKeyAfter', 'board key after move', [exp[('st.boardKey', 0)]])):
                    try: rs = it.call(fn, [Ptr('pos'), mv], State())
                    except Unsupported as ex: chk.undecide('%s %s: %s' % (nm, fn, ex)); continue
                    want = Lin(64, sum(x.k for x in e), [t for x in e for t in x.ts])
                    for v, st in rs:
                        chk.obligation('look-ahead keys')
                        r = E.cmp(it, v, want)
                        if r == 'unknown': chk.undecide('%s: %s' % (nm, fn))
                        elif r: chk.violation('after:%s' % fn, '"%s": %s %s  [%s]' % (nm, what, r, E.where(real)))
                # book key
                try: rs = it.call('w_bookKeyAfter', [Ptr('pos'), Lin(64, 0, [('K', 1)]), mv], State())
                except Unsupported as ex: chk.undecide('%s bookKeyAfter: %s' % (nm, ex)); continue
                us = c['us']; g = '@' + M.gname['Book::ZobPiece']
                zp = lambda n, col, s: ('ld', g, M.piece_val(n, col) * 81 * 8, ((s, 8),))
                ts = {'K', zp(ptTo, us, 'T'), ('ld', '@' + M.gname['Book::ZobTurn'], 0, ())}
                if not c['drop']: ts.add(zp(c['pf'], us, 'F'))
                if c['cap']: ts.add(zp(c['cap'], 1 - us, 'T'))
                for v, st in rs:
                    chk.obligation('book look-ahead keys')
                    if not isinstance(v, Xor): chk.undecide(nm + ': bookKeyAfter'); continue
                    gh = '@' + M.gname['Book::ZobHand']
                    rest = set(); handterms = set(); other = False
                    for t in v.ts:
                        if isinstance(t, tuple) and t[0] == 'ld' and t[1] == gh: handterms.add(t)
                        elif isinstance(t, tuple) and t and t[0] in ('T', 'L', 'X'): other = True
                        else: rest.add(t)
                    if other: chk.undecide(nm + ': bookKeyAfter'); continue
                    if rest != ts or v.k: chk.violation('bookafter', '"%s": book key after move changes by %s, must change by %s  [%s]' % (nm, sorted(map(str, rest)), sorted(map(str, ts)), E.where('Book::bookKeyAfter')))
                    want = set()
                    if len(handterms) != 14: chk.violation('bookafter-hand', '"%s": book key after move exchanges %d hand entries, must exchange all 7 kinds of both sides  [%s]' % (nm, len(handterms), E.where('Book::bookKeyAfter')))


    chk.need('move classes x check variants', 1500)
    chk.cov['functions'] = sorted(it.fn_seen)
    chk.assumptions += ['the mover has the piece it moves or drops and the destination holds nothing or an enemy piece (not a king)', 'start-up fills the key tables with even numbers (checked separately on initZobrist by parity)']
    chk.finish('Disjunctive abstract interpretation of the LLVM IR of Position::doMove (built with the real flags) for every class of move: colour x dropped kind, colour x moved kind x promotion x captured kind; squares are symbolic (from, to, any other square with all 29 contents), so each class covers every board, hand and square.')
main(run, Check('P02', technique='abstract interpretation'))
