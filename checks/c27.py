"""The C header is parsed with clang and compared, declaration by declaration, with the exported functions, structures and
constants of the type-checked FFI crate: names, order and types of parameters (a name standing at another position is a
different order), results, calling convention, field layout, and values. The header that the Swift wrappers include must
declare the same."""
from lib import *
from cheader import header, canonical

PRIM = {'*const u8': '*u8', '*mut u8': '*u8', 'u64': 'u64', 'usize': 'u64', 'u32': 'u32', '()': 'void'}


def rust(w, t):
    s = w.tys(t)
    return PRIM.get(s, s.split('::')[-1])


def header_(c):
    h = header()
    w = world('credential')
    exp = {it['name']: it for it in w.items if it['no_mangle']}
    c.ob(len(exp) >= 13, 'exports', '%d exported functions were found' % len(exp))
    c.functions |= {it["path"] for it in exp.values()}
    for n in sorted(set(exp) | set(h['functions'])):
        it, d = exp.get(n), h['functions'].get(n)
        if it is None:
            c.ob(False, n + ':exists', 'the library has the function %s declared in the header' % n)
            continue
        where = rel(it.get('span') or '')
        if d is None:
            c.ob(False, n + ':declared', 'the exported function %s is declared in the header' % n, where)
            continue
        ret, ps, _ = d
        c.ob(it['abi'] == 'C', n + ':abi', '%s has the C calling convention' % n, where)
        c.ob(canonical(ret) == rust(w, it['output']), n + ':result', '%s returns the same type' % n, where,
             '%s and %s' % (ret, w.tys(it['output'])))
        a = [canonical(t) for _, t in ps]
        b = [rust(w, t) for t in it['inputs']]
        c.ob(a == b, n + ':types', '%s takes the same types in the same order' % n, where, '%s\n%s' % (a, b))
        if it['inst'] is not None and len(a) == len(b):
            body = w.body(it['inst'])
            names = [(body.locals[i + 1]['name'] or '').lstrip('_') for i in range(body.argc)]
            hn = [x for x, _ in ps]
            moved = [x for i, x in enumerate(hn) if x in names and names.index(x) != i]
            c.ob(not moved, n + ':order', 'the parameters of %s stand in the same order' % n, where, '%s\n%s' % (hn, names))
    structs(c, h, w)
    n = 0
    for x in w.consts:
        nm = x['path'].split('::')[-1]
        if nm.startswith('LENGTH_') and x['vis'] == 'pub':
            n += 1
            c.ob(h['constants'].get(nm, (None,))[0] == x['val']['bits'], nm, '%s is the same in the header and the library' % nm,
                 '', '%s and %s' % (h['constants'].get(nm), x['val']['bits']))
    c.ob(n >= 9, 'constants', '%d constants were compared' % n)
    c.floor = 65


def structs(c, h, w):
    ffi = {a['path'].split('::')[-1]: a for a in w.adts if a['vis'] == 'pub'}
    used = {rust(w, t) for it in w.items if it['no_mangle'] for t in it['inputs'] + [it['output']]}
    n = 0
    for name in sorted(used & set(ffi)):
        a = ffi[name]
        t = h['typedefs'].get(name)
        fs = h['structs'].get((t or '').replace('struct ', '')) or h['structs'].get(name)
        c.ob(fs is not None, name + ':declared', 'the structure %s is declared in the header' % name)
        if fs is None:
            continue
        n += 1
        c.ob(a['repr_c'], name + ':repr', '%s has the layout of C' % name, rel(a['span'] or ''))
        x = [(f, canonical(ty)) for f, ty in fs]
        y = [(f['name'], rust(w, f['ty'])) for f in a['variants'][0]['fields']]
        c.ob(x == y, name + ':fields', '%s has the same fields in the same order' % name, rel(a['span'] or ''), '%s\n%s' % (x, y))
    for name in h['typedefs']:
        c.ob(name in ffi, name + ':exists', 'the library has the structure %s' % name)
    c.ob(n >= 1, 'structures', '%d structures were compared' % n)


def swift(c):
    a, b = header(), header('swift/Credential/credential.h')
    c.ob(a == b, 'swift', 'the header the Swift wrappers include declares the same')


PARTS = [header_, swift]
