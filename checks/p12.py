#!/usr/bin/env python3
"""P12: the constants and record layouts Python exposes are the ones the C++ core uses."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main, REPO, venv
venv()
import build, pyx
PT = dict(PAWN='Pawn', LANCE='Lance', KNIGHT='Knight', SILVER='Silver', BISHOP='Bishop', ROOK='Rook', GOLD='Gold', KING='King', PROM_PAWN='ProPawn', PROM_LANCE='ProLance', PROM_KNIGHT='ProKnight', PROM_SILVER='ProSilver', PROM_BISHOP='Horse', PROM_ROOK='Dragon')
NAMES = [('PieceType', dict(PT, NONE='Occupied')), ('Piece', {c + k: c + v for k, v in PT.items() for c in 'BW'}), ('Piece', dict(NONE='Empty')),
         ('HandPiece', {'H' + k: 'H' + PT[k] for k in ('PAWN', 'LANCE', 'KNIGHT', 'SILVER', 'GOLD', 'BISHOP', 'ROOK')}),
         ('Color', dict(BLACK='Black', WHITE='White')), ('GameResult', dict(DRAW='Draw', BLACK_WIN='BlackWin', WHITE_WIN='WhiteWin')),
         ('RepetitionType', dict(NOT_REPETITION='NotRepetition', REPETITION_DRAW='RepetitionDraw', REPETITION_WIN='RepetitionWin', REPETITION_LOSE='RepetitionLose', REPETITION_SUPERIOR='RepetitionSuperior', REPETITION_INFERIOR='RepetitionInferior'))]
SIZES = {'np.uint8': (1, 0), 'np.int8': (1, 1), 'np.uint16': (2, 0), 'np.int16': (2, 1), 'np.uint32': (4, 0), 'np.int32': (4, 1), 'np.uint64': (8, 0), 'np.int64': (8, 1), 'np.float32': (4, 1), 'np.float64': (8, 1), 'np.byte': (1, 1), 'np.ubyte': (1, 0), 'np.short': (2, 1), 'np.ushort': (2, 0), 'np.intc': (4, 1), 'np.uintc': (4, 0)}
RECORDS = {'HuffmanCodedPos': {'hcp': 'data'}, 'HuffmanCodedPosAndEval': {}, 'PackedSfen': {'sfen': 'data'}, 'PackedSfenValue': {}, 'BookEntry': {}}
ALIAS = {'hcp': 'data', 'sfen': 'data'}

def scalar(t):
    """(bytes, signed, count) of a dtype expression"""
    if isinstance(t, str): t = pyx.Sym({'u1': 'np.uint8', 'i1': 'np.int8', 'u2': 'np.uint16', 'i2': 'np.int16', 'u4': 'np.uint32', 'i4': 'np.int32', 'u8': 'np.uint64', 'i8': 'np.int64'}.get(t.lstrip('<|='), 'np.' + t))
    if isinstance(t, pyx.Sym):
        if t.name in ('np.dtype', 'numpy.dtype') and t.args: return scalar(t.args[0])
        n = t.name.replace('numpy.', 'np.')
        if n in SIZES: return (*SIZES[n], 1)
    if isinstance(t, tuple) and len(t) == 2:
        a = scalar(t[0])
        if a and isinstance(t[1], int): return (a[0], a[1], a[2] * t[1])
        if a and isinstance(t[1], tuple):
            k = 1
            for x in t[1]: k *= x
            return (a[0], a[1], a[2] * k)
    return None

def fields(v):
    """[(name, offset, bytes per element, signed, count)], total size"""
    if not (isinstance(v, pyx.Sym) and v.name in ('np.dtype', 'numpy.dtype') and v.args and isinstance(v.args[0], list)): return None
    off = 0; out = []
    if len(v.args) > 1: return None
    for f in v.args[0]:
        s = scalar(f[1] if len(f) == 2 else (f[1], f[2]))
        if not s: return None
        out.append((f[0], off, *s)); off += s[0] * s[2]
    return out, off
CT = {'unsigned char': (1, 0), 'signed char': (1, 1), 'char': (1, 1), 'short': (2, 1), 'unsigned short': (2, 0), 'int': (4, 1), 'unsigned int': (4, 0), 'long': (8, 1), 'unsigned long': (8, 0), 'long long': (8, 1), 'unsigned long long': (8, 0)}

def run(chk):
    tree, ex, us = pyx.load(REPO)
    m = build.apimod(pyx.wrapper(ex)); C = pyx.constants(tree)
    en = {k: dict(v) for k, v in m['enums'].items()}
    flat = {}
    for v in en.values():
        for a, b in v.items(): flat.setdefault(a, b)
    for e, mp in NAMES:
        for py, cc in mp.items():
            if py not in C: chk.undecide('constant %s not found' % py); continue
            cv = en.get(e, {}).get(cc, flat.get(cc))
            if cv is None: chk.undecide('enumerator %s not found' % cc); continue
            if not isinstance(C[py], int): chk.undecide('%s is not a foldable constant' % py); continue
            chk.obligation('constants')
            if C[py] != cv: chk.violation('const:' + py, 'cshogi.%s is %d but the core\'s %s::%s is %d' % (py, C[py], e, cc, cv))
    # squares: A1 is file 1 rank a
    for f in range(9):
        for r in range(9):
            py = '%s%d' % ('ABCDEFGHI'[r], f + 1); cc = 'SQ%d%d' % (f + 1, r + 1)
            if not isinstance(C.get(py), int) or cc not in flat: chk.undecide('square %s' % py); continue
            chk.obligation('squares')
            if C[py] != flat[cc]: chk.violation('square:' + py, 'cshogi.%s is %d but the core\'s %s is %d' % (py, C[py], cc, flat[cc]))
            sn = C.get('SQUARE_NAMES'); nm = '%d%s' % (f + 1, 'abcdefghi'[r])
            if isinstance(sn, list):
                chk.obligation('square names')
                if flat[cc] >= len(sn) or sn[flat[cc]] != nm: chk.violation('squarename:' + nm, 'SQUARE_NAMES[%d] is %r, the square is %s' % (flat[cc], sn[flat[cc]] if flat[cc] < len(sn) else None, nm))
    # listings
    for name, want in [('PIECE_TYPES', [C.get(k) for k in PT]), ('COLORS', [0, 1]), ('HAND_PIECES', list(range(7))), ('SQUARES', list(range(81))), ('MAX_PIECES_IN_HAND', [18, 4, 4, 4, 4, 2, 2])]:
        v = C.get(name)
        if isinstance(v, (list, tuple)) and all(isinstance(x, int) for x in v):
            chk.obligation('listings')
            if sorted(v) != sorted(want) or name in ('MAX_PIECES_IN_HAND',) and list(v) != want: chk.violation('list:' + name, '%s = %s, expected %s' % (name, v, want))
    # record layouts
    for name, al in RECORDS.items():
        if name not in C: chk.broken('record type %s not found in cshogi/_cshogi.pyx' % name)
        fs = fields(C[name]); rec = m['records'].get(name)
        if rec is None: chk.broken('struct %s not found' % name)
        if fs is None: chk.undecide('dtype %s not foldable' % name); continue
        py, size = fs
        chk.obligation('record types')
        if size * 8 != rec['size']: chk.violation('size:' + name, 'numpy type %s is %d bytes, the core\'s struct is %d' % (name, size, rec['size'] // 8)); continue
        mem = {x['name']: x for x in rec['members']}
        for n, off, b, sg, cnt in py:
            x = mem.get(n) or mem.get(al.get(n, ''))
            if x is None and n not in ('dummy', 'padding'): x = next((y for y in rec['members'] if y['off'] == off * 8 and y['bits'] == b * cnt * 8), None)
            if x is None:
                if n not in ('dummy', 'padding'): chk.violation('field:%s.%s' % (name, n), 'numpy field %s.%s (offset %d, %d bytes) has no counterpart in the core\'s struct' % (name, n, off, b * cnt))
                continue
            chk.obligation('record fields')
            if x['off'] != off * 8 or x['bits'] != b * cnt * 8: chk.violation('field:%s.%s' % (name, n), 'numpy field %s.%s is at offset %d, %d bytes; the core\'s is at offset %d, %d bytes' % (name, n, off, b * cnt, x['off'] // 8, x['bits'] // 8)); continue
            c = CT.get(x['type'])
            if c and cnt == 1 and c[1] != sg and not (n in ('bestMove16', 'fromToPro')): chk.violation('sign:%s.%s' % (name, n), 'numpy field %s.%s is %s, the core\'s is %s' % (name, n, 'signed' if sg else 'unsigned', x['type']))
    chk.need('constants', 40); chk.need('squares', 70); chk.need('record types', 4); chk.need('record fields', 10)
    chk.assumptions += ['a 16-bit move in the core\'s own encoding never uses its top bit (P03), so its signedness does not matter']
    chk.finish('Constant folding of the module-level definitions of the Cython module compared with the enumerators and struct layouts in the debug information of the compiled core.')
main(run, Check('P12', technique='cross-language constant and layout comparison'))
