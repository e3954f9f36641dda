#!/usr/bin/env python3
"""P15: what the interface hands out about a position is the position."""
import os, sys, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from report import Check, main, venv
venv()
import build
from focus import *
from p05 import cname, assignments

class View(Focus):
    """keeps what is written to the arrays handed out, at whatever index"""
    def operand(self, st, env, o):
        if o['k'] == 'fp':
            try: f = float(o['v'])
            except ValueError: return TOP
            return K(int(f)) if f == int(f) else TOP
        return super().operand(st, env, o)
    def store(self, st, p, v, sz):
        if isinstance(p, Ptr) and p.o[0] in ('vec', 'mem') and p.off != TOP:
            l = st.mem.setdefault(('log',) + p.o, {}); l[len(l)] = ((st.norm(p.off), v, sz), 0); return
        return super().store(st, p, v, sz)
    def unknown(self, st, key):
        if key[0] == 'piece': return K(0)               # nothing but the tracked squares in these scenarios
        return super().unknown(st, key)
    def load(self, st, p, sz, isptr=False):
        if isinstance(p, Ptr) and p.o[0] in ('vec', 'mem'): raise Undecided('reads back what it hands out')
        return super().load(st, p, sz, isptr)
def vectors():
    H = []
    def hook(rx): return lambda f: H.append((rx, f))
    VEC = r'^std::vector<int, std::allocator<int> *>::'
    def key(st, p): return (p.o, st.norm(p.off).c)
    def new(st, p, n):
        st.n += 1; st.mem.setdefault(('vecs',), {})[key(st, p)] = ((st.n, n), 0); return st.n
    def get(st, p):
        v = st.mem.get(('vecs',), {}).get(key(st, p))
        if v is None: raise Undecided('vector not followed')
        return v[0]
    @hook(VEC + r'vector\(unsigned long, std::allocator')
    def _(it, st, dem, a): new(st, a[0], st.norm(a[1]).c); return K(0)
    @hook(VEC + r'vector\(unsigned long, int const&, std::allocator')
    def _(it, st, dem, a):
        n = new(st, a[0], st.norm(a[1]).c); v = it.load(st, a[2], 4)
        if v != K(0): raise Undecided('vector filled')
        return K(0)
    @hook(VEC + r'vector\(std::initializer_list<int>')
    def _(it, st, dem, a):
        k = st.norm(a[2]).c; n = new(st, a[0], k)
        for i in range(k): it.store(st, Ptr(('vec', n), K(4 * i)), it.load(st, Ptr(a[1].o, add(a[1].off, K(4 * i))), 4), 4)
        return K(0)
    @hook(VEC + r'vector\(std::vector<int, std::allocator<int> *>(&&| const&)\)')
    def _(it, st, dem, a): st.mem[('vecs',)][key(st, a[0])] = (get(st, a[1]), 0); return K(0)
    @hook(VEC + r'(operator\[\]|at)\(')
    def _(it, st, dem, a):
        return Ptr(('vec', get(st, a[0])[0]), scale(st.norm(a[1]), 4))
    @hook(VEC + r'(begin|data)\(')
    def _(it, st, dem, a): return Ptr(('vec', get(st, a[0])[0]), K(0))
    @hook(VEC + r'size\(')
    def _(it, st, dem, a): return K(get(st, a[0])[1])
    @hook(VEC + r'vector\(\)')
    def _(it, st, dem, a): new(st, a[0], 0); return K(0)
    @hook(VEC + r'reserve\(')
    def _(it, st, dem, a): return K(0)
    @hook(VEC + r'resize\(unsigned long\)')
    def _(it, st, dem, a):
        n, k = get(st, a[0])
        if k: raise Undecided('vector resized')
        st.mem[('vecs',)][key(st, a[0])] = ((n, st.norm(a[1]).c), 0); return K(0)
    @hook(r'^(int& |auto& |decltype\(auto\) )?std::vector<int, std::allocator<int> *>::(push_back|emplace_back(<[^>]*>)?)\(')
    def _(it, st, dem, a):
        n, k = get(st, a[0]); p = Ptr(('vec', n), K(4 * k))
        it.store(st, p, it.load(st, a[1], 4), 4); st.mem[('vecs',)][key(st, a[0])] = ((n, k + 1), 0)
        return p
    @hook(VEC + r'~vector\(')
    def _(it, st, dem, a): return K(0)
    @hook(VEC)
    def _(it, st, dem, a): raise Undecided('vector function ' + dem)
    return H

B_ = 'self.__board.'
WANT = {'piece': ('call', B_ + 'piece', 'sq'), 'piece_type': ('call', '__piece_to_piece_type', ('call', B_ + 'piece', 'sq')), 'king_square': ('call', B_ + 'kingSquare', 'c'), 'pieces': ('call', B_ + 'pieces'),
        'pieces_in_hand': ('tuple', ('call', B_ + 'pieces_in_hand', 0), ('call', B_ + 'pieces_in_hand', 1)), 'piece_planes': ('call', B_ + 'piece_planes', 'features.data'),
        'piece_planes_rotate': ('call', B_ + 'piece_planes_rotate', 'features.data')}
PARAM = {'piece': 'sq', 'piece_type': 'sq', 'king_square': 'c', 'piece_planes': 'features', 'piece_planes_rotate': 'features'}
def bindings(chk):
    """each Python method hands on the answer of its own C++ function"""
    import pyx
    from report import REPO
    tree, ex, us = pyx.load(REPO); F = pyx.functions(tree); C = pyx.constants(tree)
    known = {B_ + e.name for e in ex} | {e.name for e in ex}
    def differs(g, w):
        """a definite difference: other known function, other constant"""
        if type(g) is not type(w): return False
        if isinstance(g, int): return g != w
        if isinstance(g, str): return False
        if g[0] != w[0] or len(g) != len(w): return False
        if g[0] == 'call':
            if g[1] != w[1]: return g[1] in known and w[1] in known
            return any(differs(a, b) for a, b in zip(g[2:], w[2:]))
        return any(differs(a, b) for a, b in zip(g[1:], w[1:]))
    for n, w in WANT.items():
        f = F.get('Board.' + n)
        if f is None: chk.undecide('Board.%s not found' % n); continue
        ren = dict(zip([p for p in pyx.params(f) if p not in ('self',)], [PARAM[n]] if n in PARAM else []))
        g = pyx.body(f, C)
        def sub(x): return tuple(map(sub, x)) if isinstance(x, tuple) else ren.get(x, ren.get(x.split('.')[0], x.split('.')[0]) + x[len(x.split('.')[0]):]) if isinstance(x, str) else x
        g = sub(g) if g is not None else None
        chk.obligation('Python methods')
        if g == w: continue
        if g is not None and differs(g, w): chk.violation('binding:' + n, 'Board.%s evaluates %s, not %s' % (n, g, w))
        else: chk.undecide('Board.%s is not a plain delegation' % n)

def run(chk):
    bindings(chk)
    import attacks
    attacks.lemma(chk, ('prims',))
    I = View(build.viewmod(), hooks=vectors(), fuel=3000000)
    B = next(x['off'] // 8 for x in I.m['records']['__Board']['members'] if x['name'] == 'pos')
    brd = Ptr(('pos',), K(-B)); OUT = Ptr(('out',), K(0)); PT = I.E['PieceType']
    def go(what, entry, args, st, judge, fields):
        chk.obligation('scenarios')
        try:
            try: outs = I.run(entry, args, st.copy())
            except Undecided as e:
                if str(e) != 'constant square': raise
                # the code asks for squares one by one: one place after the other
                outs = []; bs = sorted({q[0] for q in I.sq.values()})
                few = list(range(81)) if len(bs) == 1 else [0, 10, 44, 62, 63, 80]
                for pl in itertools.product(few, repeat=len(bs)):
                    if len(set(pl)) < len(pl): continue
                    s = st.copy()
                    for b, p in zip(bs, pl): s.dom[b + 'x'] = (p // 9,); s.dom[b + 'y'] = (p % 9,)
                    outs += I.run(entry, args, s)
        except (Undecided, ForkField, AttributeError, TypeError, KeyError, IndexError, RecursionError) as e: chk.undecide('%s: %s' % (what, e)); return
        for r, s in outs:
            chk.obligation('paths')
            if s.approx or s.mem[('unk',)]: chk.undecide('%s: path not followed' % what); continue
            for a in assignments(s, fields):
                chk.obligation('cases compared')
                t = judge(r, s, a)
                if t is None: continue
                if t.startswith('?'): chk.undecide('%s: %s' % (what, t[1:])); break
                chk.violation(what, '%s: %s' % (what, t)); return
    def val(s, v, a):
        """value in one case; None when it depends on something else"""
        if not isinstance(v, V): return None
        v = s.norm(v)
        if any(f not in a for f, _ in v.p): return None
        return v.c + sum(t[a[f]] for f, t in v.p)
    def written(s, obj, a):
        """{cell: value} of an array in one case, or None"""
        out = {}
        for k, ((off, v, sz), _) in sorted(s.mem.get(('log',) + obj, {}).items()):
            if sz != 4: return None
            o, x = val(s, off, a), val(s, v, a)
            if o is None or x is None or o % 4: return None
            out[o // 4] = x - (1 << 32) if x >= 1 << 31 else x
        return {k: v for k, v in out.items() if v}
    def vec(s):
        v = s.mem.get(('vecs',), {}).get((('out',), 0))
        return v and v[0]
    all_ = [None] + [(k, c) for c in (0, 1) for k in KINDS]
    # two squares with any content anywhere: every other square is treated the same way
    for us in (0, 1):
        side = ('Black', 'White')[us]
        for which in range(2):
            sq = {'X': ('x', 0, 0)}; con = {'X': all_}
            if which: sq['Y'] = ('y', 0, 0); con['Y'] = [('Gold', 0), ('Gold', 1)]; con['X'] = [('Gold', 0), ('Gold', 1), ('Pawn', 1), None]
            fields = ['xx', 'xy', 'cX'] + (['yx', 'yy', 'cY'] if which else [])
            def board(): return I.scenario(sq, con, us, hand={0: K(0), 1: K(0)})
            def place(n, a): b = n.lower(); return 9 * a[b + 'x'] + a[b + 'y']
            def content(n, a): return con[n][a.get('c' + n, 0)]
            def name(a): return ', '.join('%d%s %s' % (place(n, a) // 9 + 1, 'abcdefghi'[place(n, a) % 9], cname(content(n, a))) for n in sq)
            def same(a): return which and place('X', a) == place('Y', a)
            def j_pieces(r, s, a):
                if same(a): return None
                v = vec(s)
                if v is None: return '?result not followed'
                w = written(s, ('vec', v[0]), a)
                if w is None: return '?result not followed'
                if v[1] != 81: return 'the list has %d entries' % v[1]
                want = {place(n, a): I.piecev(content(n, a)) for n in sq if content(n, a)}
                if w != want: return '%s: list holds %s, should hold %s' % (name(a), w, want)
            go('pieces', 'v_pieces', [brd, OUT], board(), j_pieces, fields)
            for e, rot in (('v_planes', False), ('v_planesr', True)):
                def j_planes(r, s, a):
                    if same(a): return None
                    w = written(s, ('mem', 0), a)
                    if w is None: return '?planes not followed'
                    want = {}
                    for n in sq:
                        c = content(n, a)
                        if c is None: continue
                        flip = rot and us == 1
                        want[81 * (14 * (c[1] ^ flip) + PT[c[0]] - 1) + (80 - place(n, a) if flip else place(n, a))] = 1
                    if w != want: return '%s to move, %s: cells set %s, should be %s' % (side, name(a), {divmod(k, 81): v for k, v in w.items()}, {divmod(k, 81): v for k, v in want.items()})
                go('piece_planes_rotate' if rot else 'piece_planes', e, [brd, Ptr(('mem', 0), K(0))], board(), j_planes, fields)
            def j_piece(r, s, a):
                x = val(s, r, a)
                if x is None: return '?result not followed'
                want = I.piecev(content('X', a))
                if x != want: return '%s: answers %s, should be %s' % (name(a), x, want)
            st = board()
            go('piece', 'v_piece', [brd, I.loc['X']], st, j_piece, fields)
        sq = {'K': ('k', 0, 0), 'E': ('e', 0, 0)}; con = {'K': [('King', us)], 'E': [('King', 1 - us)]}
        for c in (0, 1):
            st = I.scenario(sq, con, us, hand={0: K(0), 1: K(0)}, king={us: 'K', 1 - us: 'E'})
            b = 'k' if c == us else 'e'
            def j_king(r, s, a):
                x = val(s, r, a)
                if x is None: return '?result not followed'
                want = 9 * a[b + 'x'] + a[b + 'y']
                if x != want: return 'king of %s on %d: answers %d' % (('Black', 'White')[c], want, x)
            go('king_square', 'v_king', [brd, K(c)], st, j_king, [b + 'x', b + 'y'])
        st = I.scenario(sq, con, us, hand={0: K(0), 1: K(0)}, king={us: 'K', 1 - us: 'E'})
        go('turn', 'v_turn', [brd], st, lambda r, s, a: '?result not followed' if val(s, r, a) is None else None if val(s, r, a) == us else '%s to move: answers %s' % (side, val(s, r, a)), [])
    # hands: every number of every kind
    LIM = {'Pawn': 18, 'Lance': 4, 'Knight': 4, 'Silver': 4, 'Gold': 4, 'Bishop': 2, 'Rook': 2}
    for c in (0, 1):
        one = {k: I.handone(k) for k in HAND}
        for k in HAND:
            for rest in (0, 1):
                h = add(tab('h', [n * one[k] for n in range(LIM[k] + 1)]), K(rest * sum(LIM[o] * one[o] for o in HAND if o != k)))
                other = K(0 if rest else sum(one[o] for o in HAND))
                sq = {'K': ('k', 0, 0), 'E': ('e', 0, 0)}; con = {'K': [('King', 0)], 'E': [('King', 1)]}
                st = I.scenario(sq, con, 0, hand={c: h, 1 - c: other}, king={0: 'K', 1: 'E'}, extra={'h': LIM[k] + 1})
                def j_hand(r, s, a):
                    v = vec(s)
                    if v is None: return '?result not followed'
                    w = written(s, ('vec', v[0]), a)
                    if w is None: return '?result not followed'
                    want = [a['h'] if o == k else rest * LIM[o] for o in HAND]
                    got = [w.get(i, 0) for i in range(v[1])]
                    if got != want: return 'hand of %s with %s: list is %s' % (('Black', 'White')[c], dict(zip(HAND, want)), got)
                go('pieces_in_hand', 'v_hand', [brd, K(c), OUT], st, j_hand, ['h'])
    chk.assumptions += ['The views of the position agree with each other (P02, P21).', 'The planes are zero when handed in, as documented by the callers.']
    if not chk.violations: chk.need('cases compared', 10000)
    chk.finish('The functions behind pieces, pieces_in_hand, piece, king_square, turn, piece_planes and piece_planes_rotate are interpreted (LLVM IR of the current tree) on positions seen through one or two squares anywhere with any content, '
        'either side to move, and on every number of pieces of each kind in either hand. Every cell they write is compared with the position, for all 81 places.', rule='cells written = contents of the position')
if __name__ == '__main__': main(run, Check('P15'))
