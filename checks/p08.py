#!/usr/bin/env python3
"""P08: a board's move history and the position's state chain stay in step, on every way out of every operation."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main, REPO, venv
venv()
import build, pyx, throws, typestate
INVALID = {'clear', 'erase', 'pop_front', 'resize', 'assign', 'swap', 'operator=', 'shrink_to_fit', 'insert', 'emplace', 'emplace_front', 'push_front'}
def method(dem):
    """(class, method) of a demangled member function name"""
    d = re.sub(r'<[^<>]*>', '', dem)
    while re.search(r'<[^<>]*>', d): d = re.sub(r'<[^<>]*>', '', d)
    d = d.split('(')[0].strip().split(' ')[-1] if 'operator' not in d else d.split('(')[0].strip().replace(' ', '')
    p = d.split('::')
    return '::'.join(p[:-1]), p[-1]

def run(chk):
    tree, ex, us = pyx.load(REPO)
    m = build.apimod(pyx.wrapper(ex))
    T = throws.Throws(m)
    rec = m['records'].get('__Board'); pr = m['records'].get('Position')
    if not rec or not pr: chk.broken('class __Board or Position not found')
    cont = [x for x in rec['members'] if 'StateInfo' in x['type'] and x['type'] != 'StateInfo']
    posf = [x for x in rec['members'] if x['type'] == 'Position']
    stf = [x for x in pr['members'] if x['type'] == 'StateInfo*']
    if not posf or not stf: chk.broken('position or state pointer not found in __Board')
    chk.obligation('history containers', len(cont))
    for c in cont:
        if re.match(r'(std::)?(vector|__vector)', c['type']):
            chk.violation('container', '__Board::%s is a %s: adding a move relocates the states the position points into' % (c['name'], c['type'][:60]))
    poff = posf[0]['off'] // 8; soff = stf[0]['off'] // 8
    dem = {n: f['dem'] for n, f in m['fns'].items()}
    def cls(n):
        d = dem.get(n, '')
        if re.match(r'a_\d+$', n): return '__Board'
        return method(d)[0]
    # state: (where the state pointer is, what the history holds)
    #   pointer: hist = last history entry (or start when it is empty), start = the position's own first state, off = before the last entry, gone = an entry that no longer exists
    #   history: same, empty, new (an entry not linked yet), other (copied from elsewhere)
    def transfer(n, ins, root, s):
        st, h = s
        if not (root[0] == 'arg' and root[1] == 0): return None
        if ins['op'] == 'store':
            off = root[2]; c = cls(n)
            if off is not None and (c == '__Board' and off == poff + soff or c == 'Position' and off == soff and method(dem[n])[1] not in ('doMove', 'undoMove', 'clear', 'operator=')) and ins.get('sz') == 8:
                return [('hist', 'same' if h == 'other' else h)]
            return None
        d = dem.get(ins['callee'].get('n') or '', '')
        k, f = method(d)
        if re.search(r'(deque|list|vector)$', k) and re.match(r'std::', k):
            if f in ('emplace_back', 'push_back'): return [(st, 'new')]
            if f == 'pop_back':
                if h == 'new': return [(st, 'same')]
                if st == 'off': return [('hist', 'same')]
                if st == 'start': return [s]
                return [('gone', 'same')]
            if f in INVALID:
                nh = 'empty' if f == 'clear' else 'other'
                return [(st if st == 'start' else 'gone', nh)]
            return [s]
        if k == 'Position' or k.endswith('::Position'):
            if f in ('clear', 'operator='): return [('start', h)]
            if f == 'doMove':
                r = TS.root(n, ins['ops'][2])[0] if len(ins['ops']) > 2 else 'other'
                if r in ('alloca', 'global'): return [('away', h)]          # the new state is not part of the history
                return [('hist', 'same')] if h == 'new' else [s]
            if f == 'undoMove': return [('off', h)]
            if f == 'doNullMove': return [(st, 'same')] if h == 'new' else [('off', h)]
        return None
    def descend(c): return method(dem.get(c, ''))[0] in ('__Board', 'Position') and bool(T.F.get(c))
    def refine(n, c, tv, s):
        if not c or not c[0] or c[1][0] != 'arg' or c[1][1] != 0: return s
        k, f = method(dem.get(c[0], ''))
        if not re.search(r'(deque|list|vector)$', k) or f not in ('empty', 'size'): return s
        if c[3]: tv = not tv
        if f == 'size' or c[2]:
            p, v = c[2] or ('ne', '0')
            z = {('eq', '0'): True, ('ne', '0'): False, ('ugt', '0'): False, ('ult', '1'): True}.get((p, v))
            if z is None: return s
            empty = z == tv if f == 'size' else z != tv
        else: empty = tv
        st, h = s
        if not empty: return None if h == 'empty' else s
        if h == 'new': return None
        return ('start', 'empty') if st in ('hist', 'start') and h in ('same', 'empty') else s
    TS = typestate.Typestate(m, T, transfer, descend, refine)
    # functions that reach something that changes a position or a history
    def prim(c):
        k, f = method(dem.get(c, ''))
        return k == 'Position' and f in ('clear', 'operator=', 'doMove', 'undoMove', 'doNullMove') or re.search(r'(deque|list)$', k) and 'StateInfo' in dem[c] and (f in INVALID or f in ('emplace_back', 'push_back', 'pop_back'))
    calls = {n: {i['callee'].get('n') for b in f['blocks'] for i in b if i['op'] in ('call', 'invoke')} for n, f in T.F.items()}
    moving = {n for n in dem if prim(n)}
    while True:
        more = {n for n, cs in calls.items() if n not in moving and cs & moving}
        if not more: break
        moving |= more
    OK = {('hist', 'same'), ('start', 'empty'), ('hist', 'empty')}
    WHAT = {'away': 'the position refers to a state that is not part of the history', 'gone': 'the position still refers to a state of the history that no longer exists', 'start': 'the position was set up afresh but the old moves are still in the history', 'off': 'the last move was taken back but is still in the history'}
    for k, e in enumerate(ex):
        if e.cls != '__Board': continue
        n = 'a_%d' % k
        if n not in T.F: chk.broken('wrapper for %r missing' % e)
        chk.obligation('operations')
        init = ('start', 'empty') if e.ctor else ('hist', 'same')
        if e.ctor and '__Board' in e.args: init = ('start', 'other')
        TS.lost = set(); outs = TS.run(n, init)
        lost = sorted(method(dem[c])[1] for _, c in TS.lost if c in moving and method(dem[c])[0] != '__Board')
        if lost: chk.undecide('%r: the board is handed on inside another object to %s' % (e, ', '.join(lost))); continue
        if outs and (len(outs) > 1 or init not in {o[-1] for o in outs}): chk.obligation('operations that move the history')
        for o in outs:
            chk.obligation('exits')
            if o[0] == 'ex' and e.ctor: continue           # no board results
            s = o[-1]
            if s in OK: continue
            w = 'the new history entry was never linked to the position' if s[1] == 'new' else 'the copied history is not linked to the copied position' if s[1] == 'other' else WHAT.get(s[0], str(s))
            chk.violation('%s:%s' % (e.name, 'ex' if o[0] == 'ex' else 'ret'), '%r leaves by %s with history and position out of step: %s (src/cshogi.h)' % (e, 'return' if o[0] == 'ret' else 'exception %s' % throws.tname(o[1]), w))
    chk.need('operations', 40); chk.need('operations that move the history', 8); chk.need('exits', 45); chk.need('history containers', 1)
    chk.assumptions += ['running out of memory is outside the property', 'a pass is taken back with pop_pass and a move with pop']
    chk.finish('Interprocedural typestate analysis of every operation of the board: where the state pointer points relative to the history container, on every path to every normal and exceptional exit; container kind from the debug information.')
main(run, Check('P08', technique='typestate'))
