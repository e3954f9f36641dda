"""Front end: /repo/src -> LLVM bitcode (real build's flags) -> JSON facts (irtool).

Everything is rebuilt from the current working tree; a cache keyed by the contents of every
input file lives in /verif/.cache (git-ignored) and is only a time saver.
"""
import glob, re, hashlib, json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')
FLAGS = ['-std=c++17', '-O2', '-g', '-fstandalone-debug', '-DNDEBUG', '-DHAVE_SSE4', '-DHAVE_SSE42', '-DHAVE_AVX2', '-msse4.2', '-mavx2',
         '-Wno-everything', '-fno-access-control', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c']

class Broken(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise Broken('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def irtool():
    src = os.path.join(HERE, 'irtool.cpp')
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'irtool-' + digest([src]))
    if not os.path.exists(out):
        cfg = lambda *a: subprocess.check_output(['llvm-config-18', *a], text=True).split()
        tmp = out + '.%d' % os.getpid()
        sh(['clang++-18', '-O1', *cfg('--cxxflags'), '-fexceptions', src, '-o', tmp, *cfg('--ldflags'), '-lLLVM-18'])
        os.rename(tmp, out)
    return out

def sources():
    s = glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/src/*.h') + glob.glob(REPO + '/src/*.hpp')
    if not s: raise Broken('no sources under %s/src' % REPO)
    return s

def module(name, units, noinline, fnre, pipeline='default<O1>', wrap='wrap.cpp', text=None):
    """units: base names of /repo/src/*.cpp to link with the wrapper ('*' = all)."""
    w = os.path.join(HERE, wrap) if wrap else None
    if text is not None:
        w = os.path.join(CACHE, name + '-wrap.cpp')
        os.makedirs(CACHE, exist_ok=True)
        if not os.path.exists(w) or open(w).read() != text: open(w, 'w').write(text)
    key = digest(sources() + ([w] if w else []) + [os.path.join(HERE, 'irtool.cpp')], repr((units, noinline, fnre, pipeline, FLAGS)))
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, '%s-%s.json' % (name, key))
    if not os.path.exists(out):
        for old in sorted(glob.glob(os.path.join(CACHE, name + '-*.json')), key=os.path.getmtime)[:-3]: os.unlink(old)
        tool = irtool()
        tmp = tempfile.mkdtemp(prefix='verif-ir-')
        try:
            cpps = [os.path.basename(p)[:-4] for p in glob.glob(REPO + '/src/*.cpp')] if units == '*' else units
            procs, bcs = [], []
            for b in sorted(cpps) + (['@wrap'] if w else []):
                src = w if b == '@wrap' else '%s/src/%s.cpp' % (REPO, b)
                if not os.path.exists(src): raise Broken('anchor vanished: ' + src)
                bc = os.path.join(tmp, b.strip('@') + '.bc')
                procs.append((src, subprocess.Popen(['clang++-18', *FLAGS, '-I' + REPO + '/src', '-o', bc, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
                bcs.append(bc)
            for src, p in procs:
                o, _ = p.communicate()
                if p.returncode: raise Broken('does not compile: %s\n%s' % (src, o[-3000:]))
            sh([tool, out + '.tmp', pipeline, noinline, fnre, *bcs])
            os.rename(out + '.tmp', out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    with open(out) as fh: return json.load(fh)

BBNOINLINE = r'Bitboard::(firstOne|constFirstOne|operator bool|isAny|andIsAny|isSet|popCount|isOneBit|merge)|^(lance|rook|bishop|horse|dragon|queen)Attack'
def core():
    return module('core', '*', BBNOINLINE, '.*')

def posmod():
    """position, keys, hands, tables, generators; without the mate searches"""
    skip = {'osl_dfpn', 'dfpn', 'mate', 'usi', 'generateMoves'}
    units = sorted(os.path.basename(p)[:-4] for p in glob.glob(REPO + '/src/*.cpp') if os.path.basename(p)[:-4] not in skip)
    return module('pos', units, BBNOINLINE, '.*')

def searchmod():
    return module('search', '*', r'^(void )?Position::(doMove|undoMove|doNullMove)', '.*', pipeline='function(sroa,early-cse),cgscc(inline),function(sroa,early-cse,adce)')

def apimod(text):
    """everything reachable from the functions the Cython layer declares (wrapper generated from the declarations)"""
    return module('api', '*', r'__gnu_cxx::__stoa|^std::(__cxx11::)?(deque|list)<|vector<[^ ]*StateInfo|^(void )?Position::(clear|set|set_hcp|set_psfen|operator|doMove|undoMove|doNullMove|setPiece|setHand|compute\w+|findCheckers|setTurn)', '.*', text=text)

STRNOINLINE = r'^__cxx_global_var_init|^std::(__cxx11::)?basic_string<|std::operator[+=!<>]+.*<char|^std::(map|_Rb_tree|unordered_map|_Hashtable)<|^bool std::operator|^(bool )?Position::(moveIsPseudoLegal|pseudoLegalMoveIsLegal|pinnedBB|inCheck)|Position::(pinnedBB|hiddenCheckers)|(bool )?Position::(moveIsPseudoLegal|pseudoLegalMoveIsLegal)<'
LIGHT = 'function(sroa,early-cse),cgscc(inline),function(sroa,early-cse,adce)'
def codecmod():
    """move encodings and move notations"""
    units = sorted(os.path.basename(p)[:-4] for p in glob.glob(REPO + '/src/*.cpp') if not re.search(r'dfpn|mate|generateMoves|book|mt64|search', os.path.basename(p)))
    return module('codec', units, STRNOINLINE, '.*', wrap='codecwrap.cpp', pipeline=LIGHT)

RULENOINLINE = BBNOINLINE + r'|Position::(getKeyAfter|getBoardKeyAfter|attackersTo|attacksFrom|isPawnDropCheckMate|pinnedBB|hiddenCheckers|attackersToIsAny|moveGivesCheck)|^(Bitboard )?(pawn|knight|silver|gold|king|lance|rook|bishop|horse|dragon)Attack|betweenBB|squareRelation|(Bitboard|u64|void|Square) Bitboard::|^Bitboard::|^(Bitboard )?(squareFileMask|squareRankMask)|^__cxx_global_var_init'
STRLIB = r'|^std::(__cxx11::)?basic_string<|std::operator[+=!<>]+.*<char|^std::(map|_Rb_tree|unordered_map|_Hashtable)<|^bool std::operator'
def textmod():
    """the rules together with the readers of move texts"""
    return rulesmod('text', 'dfpn|mate|book|mt64', STRLIB)
def rulesmod(name='rules', skip='dfpn|mate|book|mt64|usi', more=''):
    """position queries, declaration win and repetition"""
    units = sorted(os.path.basename(p)[:-4] for p in glob.glob(REPO + '/src/*.cpp') if not re.search(skip, os.path.basename(p)))
    text = open(os.path.join(HERE, 'rulewrap.cpp')).read()
    # the kinds of move list the interface hands out
    api = open(REPO + '/src/cshogi.h', encoding='utf-8-sig').read()
    for cls, mt in (('__LegalMoveList', 'LegalAll'), ('__PseudoLegalMoveList', 'PseudoLegal')):
        m = re.search(r'class %s\b.*?new\s+MoveList<\s*(\w+)\s*>\s*\(' % cls, api, re.S)
        if m: text = text.replace('/*%s*/%s' % (cls, mt), m.group(1))
    if more: text += '\nW u32 t_fromUsi(const __Board* b, const std::string* s) { return b->move_from_usi(*s); }\nW u32 t_fromCsa(const __Board* b, const std::string* s) { return b->move_from_csa(*s); }\n'
    return module(name, units, RULENOINLINE + more, '.*', text=text, pipeline=LIGHT)

def listmod():
    """the lists of moves the interface walks through"""
    api = open(REPO + '/src/cshogi.h', encoding='utf-8-sig').read()
    text = '#include "position.hpp"\n#include "generateMoves.hpp"\n#include "cshogi.h"\n#include <new>\n#define W extern "C" __attribute__((used, noinline))\n'
    for i, (cls, mt) in enumerate((('__LegalMoveList', 'LegalAll'), ('__PseudoLegalMoveList', 'PseudoLegal'))):
        m = re.search(r'class %s\b.*?new\s+MoveList<\s*(\w+)\s*>\s*\(' % cls, api, re.S)
        mt = m.group(1) if m else mt
        text += 'W void l_make%d(char* b, const Position& p) { new (b) MoveList<%s>(p); }\nW u64 l_room%d() { return sizeof(MoveList<%s>) / sizeof(ExtMove); }\n' % (i, mt, i, mt)
        for f, t in (('end', 'bool'), ('move', 'int'), ('next', 'void'), ('size', 'int')): text += 'W %s l_%s%d(%s& l) { return l.%s(); }\n' % (t, f, i, cls, f)
    return module('list', [], r'generateMoves<', '.*', text=text, pipeline=LIGHT)

def viewmod():
    """what the interface hands out about a position"""
    units = sorted(os.path.basename(p)[:-4] for p in glob.glob(REPO + '/src/*.cpp') if not re.search('dfpn|mate|book|mt64|usi|generateMoves', os.path.basename(p)))
    text = open(os.path.join(HERE, 'rulewrap.cpp')).read()
    text = '\n'.join(l for l in text.split('\n') if 'generateMoves' not in l or l.startswith('#'))
    text += '''
#include <new>
W void v_pieces(const __Board& b, std::vector<int>* o) { new (o) std::vector<int>(b.pieces()); }
W void v_hand(const __Board& b, int c, std::vector<int>* o) { new (o) std::vector<int>(b.pieces_in_hand(c)); }
W int v_piece(const __Board& b, int s) { return b.piece(s); }
W int v_king(__Board& b, int c) { return b.kingSquare(c); }
W int v_turn(const __Board& b) { return b.turn(); }
W void v_planes(const __Board& b, char* o) { b.piece_planes(o); }
W void v_planesr(const __Board& b, char* o) { b.piece_planes_rotate(o); }
'''
    return module('view', units, RULENOINLINE + r'|^std::vector<int, std::allocator<int> *>::', '.*', text=text, pipeline=LIGHT)

def checkmod():
    """the generator of checking moves used by the mate searches, with its tables"""
    units = sorted(os.path.basename(p)[:-4] for p in glob.glob(REPO + '/src/*.cpp') if not re.search('dfpn|mate|book|mt64|usi', os.path.basename(p)))
    text = open(os.path.join(HERE, 'rulewrap.cpp')).read() + '\nW bool w_evades(const Position& p, u32 m) { return p.checkMoveIsEvasion(Move(m)); }\n'
    kinds = set()
    for f in ('mate', 'dfpn'):
        if os.path.exists(REPO + '/src/%s.cpp' % f): kinds |= set(re.findall(r'generateMoves<\s*(\w+)\s*>', open(REPO + '/src/%s.cpp' % f, encoding='utf-8-sig').read())) - {'Evasion'}
    for k in sorted(kinds): text += 'W ExtMove* c_%s(ExtMove* l, const Position& p) { return generateMoves<%s>(l, p); }\n' % (k, k)
    pick = text + '#include <new>\n#include "dfpn.cpp"\nW ExtMove* k_dfpn(ExtMove* l, const Position& p) { return (new (l) ns_dfpn::MovePicker<true>(p))->end(); }\nW ExtMove* k_begin(ExtMove* l) { return reinterpret_cast<ns_dfpn::MovePicker<true>*>(l)->begin(); }\n'
    for t, names in ((pick, ['k_dfpn']), (text, [])):
        try: m = module('chk' if names else 'chk0', units, RULENOINLINE + r'|^(Bitboard )?[A-Za-z]+CheckTable\(', '.*', text=t, pipeline=LIGHT); break
        except Broken:
            if not names: raise
    m['kinds'] = sorted(kinds); m['pickers'] = names
    return m

FMTNOINLINE = STRLIB[1:] + r'|^(void )?Position::(setPiece|findCheckers)|compute(Board|Hand)Key|Position::bbOf|^Bitboard|^(u8|void)? ?BitStream::(get|put)|^Hand::|(void|u32) Hand::|HuffmanCodeToPieceHash::|CharToPieceUSI::|^__cxx_global_var_init|basic_(i|o|io)?s?t?r?(ing|eam|os)?\w*<char|^std::(fill|get)'
def fmtmod():
    """readers and writers of whole positions"""
    units = sorted(os.path.basename(p)[:-4] for p in glob.glob(REPO + '/src/*.cpp') if not re.search(r'dfpn|mate|generateMoves|mt64|search|usi', os.path.basename(p)))
    return module('fmt', units, FMTNOINLINE, '.*', wrap='fmtwrap.cpp', pipeline=LIGHT)

def matemod():
    """the fixed-depth mate searches"""
    return module('mate', ['mate'], r'generateMoves<|Position::(doMove|undoMove|isDraw|mateMoveIn1Ply|moveGivesCheck|checkMoveIsEvasion|pseudoLegalMoveIsLegal|pinnedBB|inCheck|moveIsLegal)|CheckInfo::CheckInfo', '.*', wrap='matewrap.cpp', pipeline=LIGHT)

if __name__ == '__main__':
    irtool()
    print('front end built')
