"""Every implementation of Clone, PartialEq and Eq for a type of the two crates is followed on unknown values. A clone must
equal the value in every part, as a term; eq must give true exactly when every part of the two values is equal and ne
exactly when not, in every variant; neither may panic. What serde generates for itself is not part of the interface."""
from lib import *


def subjects(trait, names):
    for crate in ('aeonflux', 'signal_credential'):
        w = world(crate)
        for it in w.items:
            if it['inst'] is None or (it.get('trait') or '').split('::')[-1] != trait or it['name'] not in names:
                continue
            if '_IMPL_' in it['path']:
                continue
            yield Fn(w, it)


def clones(c):
    n = 0
    for f in subjects('Clone', ('clone', 'clone_from')):
        r = c.run(f)
        own = tyname(f.w, f.item['self_ty'])
        key = 'clone:%s' % re.sub(r'^<|>.*| as .*', '', f.path.split('for ')[-1])
        c.no_panic(r, key)
        n += 1
        x = r.arg(0)
        c.each(r, lambda o: o[0] == 'ret', key, 'a clone of a %s equals it' % own,
               lambda s, o: same(s, o[1], x if f.name == 'clone' else r.arg(1)) or show(o[1])[:300])
    c.ob(n >= 25, 'clones', '%d clones were examined' % n)


def every_part(a, b, s):
    """The equality of two values of one type, part by part."""
    return equal(s.norm(a), s.norm(b))


def comparisons(c):
    n = 0
    for f in subjects('PartialEq', ('eq', 'ne')):
        ins = [tyname(f.w, x) for x in f.item['inputs']]
        if ins[0] != ins[1]:
            continue
        r = c.run(f)
        key = '%s:%s' % (f.name, re.sub(r'^<|>.*| as .*', '', f.path.split('for ')[-1]))
        c.no_panic(r, key)
        n += 1
        a, b = r.arg(0), r.arg(1)
        want = f.name == 'eq'
        bad = None
        seen = set()
        for s, o in r.outs:
            if o[0] != 'ret':
                continue
            for t in (True, False):
                s2 = possible(s, [(s.norm(o[1]), t)]) if is_cond(s.norm(o[1])) else \
                    (s if truth(o[1]) is t else None)
                if s2 is None:
                    continue
                seen.add(t)
                try:
                    if not holds(s2, every_part(r.ip.deref(s2, r.args[0]), r.ip.deref(s2, r.args[1]), s2), t is want):
                        bad = (s2, t)
                except Exception as e:
                    bad = (s2, repr(e))
        c.ob(bad is None and seen == {True, False}, key, '%s of %s is %s exactly when every part is equal' % (
            f.name, ins[0], 'true' if want else 'false'), f.where, 'gives %s %s' % (bad[1], conditions(bad[0])) if bad else '%s' % seen)
    c.ob(n >= 25, 'comparisons', '%d comparisons were examined' % n)


def truth(v):
    return iconst(v) == 1 if v.t == 'int' and iconst(v) in (0, 1) else None


PARTS = [clones, comparisons]
