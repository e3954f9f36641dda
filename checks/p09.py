#!/usr/bin/env python3
"""P09: every error of the C++ core reaches Python as an exception (never ends the process)."""
import os, sys, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main, REPO, venv
venv()
import build, pyx, throws

def run(chk):
    src = os.path.join(REPO, 'cshogi/_cshogi.pyx')
    if not os.path.exists(src): chk.broken('anchor vanished: cshogi/_cshogi.pyx')
    tree, ex, us = pyx.load(REPO)
    m = build.apimod(pyx.wrapper(ex))
    T = throws.Throws(m)
    for k, e in enumerate(ex):
        chk.obligation('declared C++ functions')
        sites = us.get(e.name, [])
        es = T.esc.get('a_%d' % k)
        if es is None: chk.broken('wrapper for %r not in the module' % e)
        if e.handled: chk.obligation('declarations that translate exceptions')
        if es: chk.obligation('functions that can raise')
        if not e.handled and sites:
            for t in sorted(es):
                chk.violation('unhandled:%r' % e, '%s can leave %r (cshogi/_cshogi.pyx:%d, declared without "except +", used by %s) and would end the process: %s' % (throws.tname(t), e, e.line, ', '.join(sorted({s[0] for s in sites}))[:200], ' -> '.join(T.path('a_%d' % k, t)[1:]).replace(REPO + '/', '')))
                break
    chk.obligation('functions analysed', len(T.F))
    chk.obligation('throw sites', sum(1 for f in T.F.values() for b in f['blocks'] for i in b if i['op'] in ('call', 'invoke') and i['callee'].get('n') == '__cxa_throw'))
    for (n, t), loc in T.term.items():
        chk.violation('terminate:' + T.F[n].get('dem', n).split('(')[0], '%s reaches a function that may not throw (%s, %s): the process ends' % (throws.tname(t), T.F[n].get('dem', n)[:80], loc))
    chk.need('declared C++ functions', 60); chk.need('functions that can raise', 4); chk.need('throw sites', 5)
    chk.assumptions += ['running out of memory is outside the property', 'standard-library calls given valid arguments do not throw']
    chk.finish('Interprocedural may-throw analysis (exception types, handlers applied by type) of everything reachable from the functions the Cython layer declares, joined with the exception specification of each declaration.')
main(run, Check('P09', technique='effect analysis'))
