"""The Cython layer: extern declarations (with exception specification) and where they are used."""
import os, re, sys
from Cython.Compiler import Nodes, ExprNodes, Errors
from Cython.Compiler.Main import Context, CompilationOptions, default_options
from Cython.Compiler.Scanning import FileSourceDescriptor
from Cython.Compiler.Visitor import TreeVisitor

def parse(path):
    Errors.init_thread()
    ctx = Context.from_options(CompilationOptions(default_options, language_level=3, cplus=True))
    src = FileSourceDescriptor(path, path)
    scope = ctx.find_module('_x', pos=(src, 1, 0), need_pxd=0)
    return ctx.parse(src, scope, pxd=0, full_module_name='_x')

class Walk(TreeVisitor):
    def __init__(self, fn): super().__init__(); self.fn = fn
    def visit_Node(self, n):
        if self.fn(n) is not False: self.visitchildren(n)
def walk(n, fn): Walk(fn).visit(n)

def children(body):
    return getattr(body, 'stats', None) or ([body] if body is not None else [])

def dname(d):
    while hasattr(d, 'base'): d = d.base
    return getattr(d, 'name', None)

def fdecl(d):
    """the function declarator inside a declarator, if any"""
    while d is not None:
        if isinstance(d, Nodes.CFuncDeclaratorNode): return d
        d = getattr(d, 'base', None)

class Extern:
    __slots__ = ('cls', 'name', 'header', 'line', 'handled', 'args', 'ctor', 'static', 'namespace', 'ret')
    def __repr__(self): return '%s%s' % (self.cls + '::' if self.cls else '', self.name)

def externs(tree, text):
    lines = text.split('\n')
    out = []
    def params(line):
        s = '\n'.join(lines[line - 1:line + 8]); i = s.index('('); dep = 0
        for j in range(i, len(s)):
            if s[j] == '(': dep += 1
            elif s[j] == ')':
                dep -= 1
                if not dep: return s[i + 1:j]
    def add(v, cls, hdr, ns):
        for d in v.declarators:
            f = fdecl(d)
            if f is None: continue
            e = Extern(); e.cls = cls; e.name = dname(f.base) or getattr(v.base_type, 'name', None) or cls; e.header = hdr; e.line = f.pos[1]; e.namespace = ns
            e.static = any(getattr(x, 'name', None) == 'staticmethod' or getattr(getattr(x, 'decorator', None), 'name', None) == 'staticmethod' for x in (getattr(v, 'decorators', None) or []))
            e.ctor = bool(cls) and e.name in (cls, '<init>', '', None)
            if e.ctor: e.name = cls
            # handled: '+' means C++ exceptions are translated
            e.handled = f.exception_check == '+'
            e.args = params(e.line)
            out.append(e)
    for s in children(tree.body):
        if not isinstance(s, Nodes.CDefExternNode): continue
        for d in children(s.body):
            if isinstance(d, Nodes.CppClassNode):
                for a in children(None) + list(d.attributes or []):
                    for x in (children(a) if isinstance(a, Nodes.StatListNode) else [a]):
                        if isinstance(x, Nodes.CVarDefNode): add(x, d.name, s.include_file, getattr(s, 'namespace', None) or getattr(d, 'namespace', None))
            elif isinstance(d, Nodes.CVarDefNode): add(d, None, s.include_file, getattr(s, 'namespace', None))
    return out

def uses(tree):
    """name -> [(enclosing Python-visible function, line)]; every call by attribute or plain name"""
    out = {}
    def scan(node, owner):
        def fn(n):
            if isinstance(n, Nodes.CDefExternNode): return False
            if isinstance(n, (Nodes.DefNode, Nodes.CFuncDefNode)) and n is not node:
                nm = getattr(n, 'name', None) or dname(n.declarator)
                scan(n, owner + '.' + nm if owner else nm); return False
            if isinstance(n, Nodes.CClassDefNode) and n is not node:
                scan(n, n.class_name); return False
            if isinstance(n, ExprNodes.CallNode) or hasattr(n, 'function') and isinstance(n, ExprNodes.ExprNode):
                f = n.function
                nm = getattr(f, 'attribute', None) or getattr(f, 'name', None)
                if nm: out.setdefault(str(nm), []).append((owner or '<module>', n.pos[1]))
            return True
        walk(node, fn)
    scan(tree, '')
    return out

def argname(a):
    a = a.split('=')[0]
    return re.findall(r'(\w+)\s*(?:\[[^\]]*\]\s*)*$', a)[0]

def split(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '[<(': d += 1
        if c in ']>)': d -= 1
        if c == ',' and not d: out.append(cur); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]

def wrapper(ex):
    hs = []
    for e in ex:
        if e.header and e.header not in hs: hs.append(e.header)
    t = ''.join('#include "%s"\n' % h for h in hs) + '#include <string>\n#include <vector>\nusing std::string; using std::vector;\n#define W extern "C" __attribute__((used, noinline))\n'
    t += 'struct Layouts_ { HuffmanCodedPos a; HuffmanCodedPosAndEval b; PackedSfen c; PackedSfenValue d; BookEntry e; };\nW unsigned layouts_(const Layouts_* l) { return l->b.eval + l->d.score + l->e.score; }\nGameResult result_ __attribute__((used));\n'
    for k, e in enumerate(ex):
        args = [re.sub(r'(\w+)\[(\w+)\]', r'\1<\2>', a) if re.match(r'.*\b(vector|list|deque)\[', a) else a for a in split(e.args)]
        args = ['%s v%d' % (a, i) if re.fullmatch(r'(const )?[\w:]+\s*[&*]?', a) and not re.search(r'\w\s+\w+$|[&*]\s*\w+$', a) else a for i, a in enumerate(args)]
        call = ', '.join(argname(a) for a in args)
        cls = ('%s::' % e.namespace if e.namespace else '') + (e.cls or '')
        if e.ctor: t += 'W void a_%d(void* o_%s) { new (o_) %s(%s); }\n' % (k, ''.join(', ' + a for a in args), cls, call)
        elif e.cls and not e.static: t += 'W void a_%d(%s& o_%s) { auto r = [&]() -> decltype(auto) { return o_.%s(%s); }; (void)r(); }\n' % (k, cls, ''.join(', ' + a for a in args), e.name, call)
        else: t += 'W void a_%d(%s) { %s(%s); }\n' % (k, ', '.join(args), (cls + '::' if e.cls else ('%s::' % e.namespace if e.namespace else '')) + e.name, call)
    return t


class Sym:
    """an uninterpreted Python value: a dotted name or a call"""
    def __init__(self, name, args=(), kw=None): self.name = name; self.args = list(args); self.kw = kw or {}
    def __repr__(self): return self.name + ('(%s)' % ', '.join(map(repr, self.args)) if self.args else '')

def constants(tree):
    """module-level constants by folding literals, names, list/tuple/dict displays, range and subscripts"""
    env = {}
    def ev(n):
        E = ExprNodes
        if isinstance(n, E.IntNode): return int(str(n.value).rstrip('uUlL'), 0)
        if isinstance(n, E.FloatNode): return float(n.value)
        if isinstance(n, E.NoneNode): return None
        if isinstance(n, E.BoolNode): return bool(n.value)
        if isinstance(n, (E.UnicodeNode, E.BytesNode)) or type(n).__name__ == 'StringNode':
            return str(getattr(n, 'unicode_value', None) or n.value)
        if isinstance(n, E.NameNode): return env.get(str(n.name), Sym(str(n.name)))
        if isinstance(n, E.AttributeNode):
            b = ev(n.obj)
            return Sym('%s.%s' % (b.name if isinstance(b, Sym) else '?', n.attribute))
        if isinstance(n, (E.TupleNode, E.ListNode)):
            r = [ev(a) for a in n.args]
            return tuple(r) if isinstance(n, E.TupleNode) else r
        if isinstance(n, E.DictNode): return {(ev(i.key) if not isinstance(ev(i.key), list) else None): ev(i.value) for i in n.key_value_pairs}
        if isinstance(n, E.UnaryMinusNode): return -ev(n.operand)
        if isinstance(n, E.SimpleCallNode):
            f = ev(n.function); a = [ev(x) for x in n.args]
            if isinstance(f, Sym) and f.name == 'range' and all(isinstance(x, int) for x in a): return list(range(*a))
            if isinstance(f, Sym) and f.name in ('len', 'list', 'tuple') and isinstance(a[0], (list, tuple, str)): return {'len': len, 'list': list, 'tuple': tuple}[f.name](a[0])
            return Sym(f.name if isinstance(f, Sym) else '?', a)
        if isinstance(n, E.IndexNode):
            b, i = ev(n.base), ev(n.index)
            try: return b[i]
            except Exception: return Sym('?')
        if isinstance(n, E.NumBinopNode) or hasattr(n, 'operand1'):
            a, b = ev(n.operand1), ev(n.operand2)
            if isinstance(a, Sym) or isinstance(b, Sym): return Sym('?')
            try: return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '|': lambda: a | b, '<<': lambda: a << b, '//': lambda: a // b}[n.operator]()
            except Exception: return Sym('?')
        return Sym('?')
    def assign(lhs, v):
        if isinstance(lhs, ExprNodes.NameNode): env[str(lhs.name)] = v
        elif isinstance(lhs, (ExprNodes.TupleNode, ExprNodes.ListNode)) and isinstance(v, (list, tuple)) and len(v) == len(lhs.args):
            for l, x in zip(lhs.args, v): assign(l, x)
    for s in children(tree.body):
        if isinstance(s, Nodes.SingleAssignmentNode): assign(s.lhs, ev(s.rhs))
        elif isinstance(s, Nodes.CascadedAssignmentNode):
            v = ev(s.rhs)
            for l in s.lhs_list: assign(l, v)
    return env

def functions(tree):
    """module-level Python functions and methods: name or Class.name -> node"""
    out = {}
    def scan(body, pre):
        for s in children(body):
            if isinstance(s, Nodes.DefNode): out[pre + str(s.name)] = s
            elif isinstance(s, Nodes.CFuncDefNode): out[pre + str(dname(s.declarator))] = s
            elif isinstance(s, Nodes.CClassDefNode): scan(s.body, str(s.class_name) + '.')
            elif hasattr(s, 'stats'): scan(s, pre)
    scan(tree.body, '')
    return out

def params(f):
    out = []
    for a in f.args: out.append(str(dname(a.declarator) or getattr(a.base_type, 'name', '') or getattr(a, 'name', '')))
    return out

def delegation(f):
    """(callee, [argument names]) when the whole body is "return callee(names...)" (a .decode(...) around it allowed)"""
    st = [x for x in children(f.body) if not isinstance(x, Nodes.PassStatNode)]
    st = [x for x in st if not (isinstance(x, Nodes.ExprStatNode) and isinstance(x.expr, (ExprNodes.UnicodeNode, ExprNodes.BytesNode)))]
    if len(st) != 1 or not isinstance(st[0], Nodes.ReturnStatNode): return None
    e = st[0].value
    while isinstance(e, ExprNodes.SimpleCallNode) and isinstance(e.function, ExprNodes.AttributeNode) and e.function.attribute == 'decode': e = e.function.obj
    if not isinstance(e, ExprNodes.SimpleCallNode): return None
    fn = e.function
    nm = getattr(fn, 'name', None) or getattr(fn, 'attribute', None)
    if not all(isinstance(a, ExprNodes.NameNode) for a in e.args): return None
    return str(nm), [str(a.name) for a in e.args]

def shape(e, consts=None, env=None):
    """nested form of an expression made of calls, names, attributes, tuples and constants; None for anything else"""
    c, env = consts or {}, env or {}
    def sh(x): return shape(x, consts, env)
    if isinstance(e, ExprNodes.NameNode):
        n = str(e.name)
        return env[n] if n in env else c[n] if isinstance(c.get(n), int) else n
    if isinstance(e, ExprNodes.IntNode): return int(e.value)
    if isinstance(e, ExprNodes.AttributeNode):
        o = sh(e.obj); return None if o is None else '%s.%s' % (o, e.attribute) if isinstance(o, str) else None
    if isinstance(e, (ExprNodes.TupleNode, ExprNodes.ListNode)):
        l = [sh(a) for a in e.args]; return None if None in l else ('tuple', *l)
    if isinstance(e, ExprNodes.TypecastNode): return sh(e.operand)
    if isinstance(e, ExprNodes.SimpleCallNode):
        f = sh(e.function); l = [sh(a) for a in e.args]
        if f in ('list', 'tuple', 'int') and len(l) == 1: return l[0]
        return None if f is None or None in l else ('call', f, *l)
    return None
def body(f, consts=None):
    """shape of the one expression a function evaluates (names given a value on the way are replaced by it)"""
    st = [x for x in children(f.body) if not isinstance(x, Nodes.PassStatNode)]
    st = [x for x in st if not (isinstance(x, Nodes.ExprStatNode) and isinstance(x.expr, (ExprNodes.UnicodeNode, ExprNodes.BytesNode)))]
    env = {}
    for x in st[:-1]:
        if isinstance(x, Nodes.SingleAssignmentNode) and isinstance(x.lhs, ExprNodes.NameNode): todo = [(str(x.lhs.name), x.rhs)]
        elif isinstance(x, Nodes.CVarDefNode):
            todo = []
            for d in x.declarators:
                v = getattr(d, 'default', None)
                while not hasattr(d, 'name') and hasattr(d, 'base'): d = d.base; v = v or getattr(d, 'default', None)
                if v is not None: todo.append((str(d.name), v))
        else: return None
        for n, v in todo:
            v = shape(v, consts, env)
            if v is None or n in env: return None
            env[n] = v
    if not st: return None
    e = st[-1].value if isinstance(st[-1], Nodes.ReturnStatNode) else st[-1].expr if isinstance(st[-1], Nodes.ExprStatNode) else None
    return None if e is None else shape(e, consts, env)

def load(repo):
    src = os.path.join(repo, 'cshogi/_cshogi.pyx')
    tree = parse(src)
    return tree, externs(tree, open(src, encoding='utf-8-sig').read()), uses(tree)

if __name__ == '__main__':
    p = sys.argv[1] if len(sys.argv) > 1 else '/repo/cshogi/_cshogi.pyx'
    t = parse(p); u = uses(t)
    for e in externs(t, open(p, encoding='utf-8-sig').read()): print(e.line, e, e.handled, e.ctor, e.static, repr(e.args), e.namespace, len(u.get(e.name, [])))
