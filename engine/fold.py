"""Constant propagation through the static initialisers: which constant bytes end up in which global.
Only straight-line constant stores are taken; a global that is stored anything else, or that is
written outside its initialiser, is left unknown."""
def fold(mod):
    written = {}
    def tgt(o):
        if o['k'] == 'g': return o['n'], 0
        if o['k'] == 'cgep' and not o['g']['idx']:
            b = tgt(o['g']['base'])
            if b: return b[0], b[1] + o['g']['off']
        return None
    # a global is a constant only if every store to it is a direct store of a constant in an initialiser
    mutable = set()
    for n, f in mod['fns'].items():
        init = n.startswith('_GLOBAL__sub_I_') or n.startswith('__cxx_global_var_init')
        der = {}
        def base(o):
            if o['k'] == 'v': return der.get(o['id'])
            if o['k'] == 'g': return o['n']
            if o['k'] == 'cgep': return base(o['g']['base'])
            return None
        for b in f.get('blocks', ()):
            for i in b:
                op = i['op']
                if 'base' in i:
                    g = base(i['base'])
                    if g: der[i['id']] = g
                elif op == 'store':
                    t = i['ops'][1]; g = base(t)
                    if g and not (init and tgt(t)): mutable.add(g)
                elif op in ('call', 'invoke') and init:
                    cn = i['callee'].get('n', '')
                    if cn.startswith('llvm.') and 'memcpy' not in cn and 'memset' not in cn: continue
                    for k, o in enumerate(i['ops']):
                        g = base(o)
                        if g and not (cn.startswith('llvm.mem') and tgt(o)): mutable.add(g)
                elif op in ('phi', 'select'):
                    for o in ([x[1] for x in i['in']] if op == 'phi' else i['ops'][1:]):
                        g = base(o)
                        if g: mutable.add(g) if False else der.setdefault(i['id'], g)
    data = {}; bad = set()
    def const(o, env):
        k = o['k']
        if k == 'c': return (int(o['v']) & ((1 << o['w']) - 1), o['w'] // 8)
        if k == 'v': return env.get(o['id'])
        if k == 'zero' and o['t'] in ('<2 x i64>',): return (0, 16)
        if k == 'vec':
            tot = 0; sh = 0
            for x in o['e']:
                c = const(x, env)
                if c is None: return None
                tot |= c[0] << sh; sh += c[1] * 8
            return (tot, sh // 8)
        return None
    def rd(name, off, sz):
        g = mod['globals'].get(name)
        if g and g.get('const') and g.get('zero'): return 0
        if g and g.get('const') and 'init' in g:
            return int.from_bytes(bytes.fromhex(g['init'])[off:off + sz], 'little')
        d = data.get(name)
        if d is None:
            if g is None or not g.get('zero') or name in mutable: return None
            d = data[name] = {x: 0 for x in range(g['size'])}
        if any(x not in d for x in range(off, off + sz)): return None
        return int.from_bytes(bytes(d[x] for x in range(off, off + sz)), 'little')
    for n, f in mod['fns'].items():
        if not n.startswith('_GLOBAL__sub_I_'): continue
        env = {}
        for i in f['blocks'][0]:
            op = i['op']
            if op == 'load':
                g = tgt(i['ops'][0])
                if g:
                    v = rd(g[0], g[1], i['sz'])
                    if v is not None: env[i['id']] = (v, i['sz'])
            elif op in ('and', 'or', 'xor') and len(i.get('ops', ())) == 2:
                a, b = const(i['ops'][0], env), const(i['ops'][1], env)
                if a and b: env[i['id']] = ({'and': a[0] & b[0], 'or': a[0] | b[0], 'xor': a[0] ^ b[0]}[op], a[1])
            elif op == 'store':
                g = tgt(i['ops'][1]); v = const(i['ops'][0], env)
                if g:
                    gg = mod['globals'].get(g[0], {})
                    if g[0] not in data: data[g[0]] = {x: 0 for x in range(gg.get('size', 0))} if gg.get('zero') else {}
                    d = data[g[0]]
                    for x in range(i['sz']):
                        if v is None: d.pop(g[1] + x, None)
                        else: d[g[1] + x] = (v[0] >> (8 * x)) & 255
            elif op == 'call' and i['callee'].get('k') == 'f' and 'memset' in i['callee']['n']:
                dd, vv, nn = tgt(i['ops'][0]), const(i['ops'][1], env), const(i['ops'][2], env)
                if dd and nn and vv:
                    gg = mod['globals'].get(dd[0], {})
                    if dd[0] not in data: data[dd[0]] = {x: 0 for x in range(gg.get('size', 0))} if gg.get('zero') else {}
                    for x in range(nn[0]): data[dd[0]][dd[1] + x] = vv[0]
                elif dd: mutable.add(dd[0])
            elif op == 'call' and i['callee'].get('k') == 'f' and 'memcpy' in i['callee']['n']:
                dd, ss, nn = tgt(i['ops'][0]), tgt(i['ops'][1]), const(i['ops'][2], env)
                if dd and ss and nn:
                    for x in range(nn[0]):
                        b = rd(ss[0], ss[1] + x, 1)
                        if b is not None: data.setdefault(dd[0], {})[dd[1] + x] = b
    out = {}
    for n, d in data.items():
        g = mod['globals'].get(n)
        if n in mutable or not g: continue
        if all(x in d for x in range(g['size'])): out[n] = bytes(d[x] for x in range(g['size']))
    return out
