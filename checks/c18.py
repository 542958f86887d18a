"""Every decoder of the two crates (from_bytes, the constructors taking bytes or strings, and the visitors their
deserialisers hand to serde) is analysed on an unknown input of unknown length: no path may end in a panic. Conditions
for panics are collected from the MIR: bounds, overflow and other assertions, calls of panicking functions, and the
preconditions of library functions such as slicing and copying."""
from codec import *

TEXT = ('[u8]', 'String', 'str')


def decoders(c):
    n = 0
    names = {modname(d) for _, _, d, _ in codecs(c) if d}
    for crate in CRATES:
        w = world(crate)
        for it in w.items:
            if it['inst'] is None or not it['reachable'] or it.get('trait'):
                continue
            ins = [tyname(w, i) for i in it['inputs']]
            if len(ins) != 1 or ins[0] not in TEXT or it.get('self_ty') is None:
                continue
            f = Fn(w, it)
            r = c.run(f)
            c.no_panic(r)
            n += 1
            c.ob(r.outs, short(f) + ':returns', 'all its outcomes were determined', f.where)
    c.ob(n >= len(names) + 2, 'decoders', '%d decoders were examined' % n)


def deserialisers(c):
    n = 0
    for crate in CRATES:
        for f in functions(crate, None, None, trait='Visitor'):
            if not f.name.startswith('visit_') or 'AeonfluxVisitor' not in f.path and 'proofs' in f.path:
                continue
            r = c.run(f)
            c.no_panic(r)
            n += 1
        for f in functions(crate, None, 'deserialize', trait='Deserialize'):
            if '::proofs::' in f.path:
                continue
            r = c.run(f)
            c.no_panic(r)
            n += 1
    c.ob(n >= 40, 'deserialisers', '%d deserialisers and visitors were examined' % n)




PARTS = [decoders, deserialisers]
