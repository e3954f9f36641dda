#!/usr/bin/env python3
"""P07: every mate search leaves the position as it was given, on every way out."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main
import build, depth
ROOTS = [r'^DfPn::dfpn\(', r'^DfPn::dfpn_andnode\(', r'^DfPn::dfpn_move\(', r'^DfPn::get_pv\(', r'^OslDfPn::dfpn\(', r'^OslDfPn::dfpn_andnode\(', r'^OslDfPn::dfpn_move\(', r'^OslDfPn::get_pv\(', r'^OslDfPn::pv_depth\(',
         r'mateMoveInOddPlyReturnMove<', r'mateMoveInOddPly<', r'^mateMoveInEvenPly\(', r'Position::mateMoveIn1Ply']
NEEDED = [r'^DfPn::dfpn\(', r'^DfPn::get_pv\(', r'^OslDfPn::dfpn\(', r'^OslDfPn::dfpn_andnode\(', r'^OslDfPn::get_pv\(', r'mateMoveInOddPlyReturnMove<', r'^mateMoveInEvenPly\(']

def short(d): return re.sub(r'\(anonymous namespace\)::', '', d).split('(')[0]
def rel(l): return l.replace(build.REPO + '/', '')

def run(chk):
    m = build.searchmod()
    D = depth.Depth(m)
    D.solve()
    names = {n: f['dem'] for n, f in m['fns'].items() if 'blocks' in f}
    for r in NEEDED:
        if not any(re.search(r, d) for d in names.values()): chk.broken('entry point %s not found' % r)
    roots = [n for n, d in names.items() if any(re.search(r, d) for r in ROOTS)]
    touched = set(D.relevant())
    exits = 0
    bad = []
    for n in roots:
        chk.obligation('entry points')
        if n not in touched: continue          # never moves the position it is given
        ok, ex = D.res[n]
        for v, r in ok:
            chk.obligation('exit states')
            if v: bad.append((n, 'ok', None, v))
        for t, v in ex:
            chk.obligation('exit states')
            if v: bad.append((n, 'ex', t, v))
    for n in touched:
        if not names[n].startswith('w_'): chk.obligation('functions that move a position')
    chk.obligation('move sites', sum(1 for n in touched for b in m['fns'][n]['blocks'] for i in b if i['op'] in ('call', 'invoke') and i['callee'].get('n') in D.prim))
    if bad:
        # name the functions that leak by themselves
        local = [n for n in D.own if not names[n].startswith('w_') and 'replay' not in names[n]] or [b[0] for b in bad]
        for n in local:
            ok, ex = D.own.get(n, D.res[n])
            zero = [x for x in ok if not x[0]]
            for kind, t, v in [('ok', None, v) for v, _ in ok if v] + [('ex', t, v) for t, v in ex if v]:
                d = [x for _, x in v]
                what = 'by exception %s' % t if kind == 'ex' else 'by return'
                tr = [rel(x) for x in D.trace(n, (kind, t, v)) if x != '?']
                chk.violation('leak:%s:%s' % (short(names[n]), kind), '%s leaves %s with the position %s moves deep; path: %s' % (short(names[n]), what, '/'.join('an unbounded number of' if x == depth.OMEGA else '%+d' % x for x in d), ' -> '.join(tr[-12:])))
                break
        if not chk.violations and not chk.known_hit:
            n, kind, t, v = bad[0]; chk.violation('leak:' + short(names[n]), '%s does not restore the position (%s)' % (short(names[n]), v))
    for n, d1, d2, v in D.move_pairs():
        chk.obligation('make/unmake pairs')
        if v == 'same': chk.obligation('pairs shown to take back the same move')
        elif v == 'different':
            l1, l2 = [(d.get('loc') or ['?'])[0] for d in (d1, d2)]
            chk.violation('wrongmove:%s' % short(names[n]), '%s takes back (%s) another element of the move list than the one it made (%s)' % (short(names[n]), rel(l2), rel(l1)))
    # no other way of writing to the position it is given
    for n in touched:
        if names[n].startswith('w_') or n in D.prim or re.search(r'(^|\s)Position::', names[n]): continue
        for b in m['fns'][n]['blocks']:
            for i in b:
                if i['op'] != 'store': continue
                r = D.root(n, i['ops'][1])
                if r and (r[0] == 'arg' and r[1] in D.touch[n] or r[0] == 'mem' and len(r) == 3 and r[1].startswith("('arg'") and eval(r[1])[1] in D.touch[n]):
                    chk.obligation('direct writes to the position')
                    if 'replay' in names[n]: continue
                    chk.violation('write:' + short(names[n]), '%s writes into the position it was given (%s)' % (short(names[n]), rel((i.get('loc') or ['?'])[0])))
    chk.need('entry points', 9); chk.need('functions that move a position', 15); chk.need('move sites', 40)
    if D.exploded: chk.cov['coarser analysis kept for'] = sorted({short(names[n]) for n, l in D.exploded})[:20]
    chk.cov['functions'] = sorted(short(names[n]) for n in touched)
    chk.assumptions += ['allocation failure (bad_alloc, length_error) is outside the property', 'a loop that only takes moves back empties the record of the moves made', 'make and unmake themselves are exact inverses (P01)']
    chk.finish('Interprocedural typestate analysis (depth of the position relative to entry) over the LLVM IR of the whole engine: net depth on every path to every normal and exceptional exit, with function summaries, scope-exit codes and exception types tracked; assume-guarantee over recursion.')
main(run, Check('P07', technique='typestate'))
