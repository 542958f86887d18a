"""Every place in the MIR of the three crates where a part of a VerifiedCredential or VerifiedSignalCredential is written
or mutably borrowed, or where its constructor is used as a function, is enumerated, and the functions containing them are
traced back through the call graph to functions reachable from outside: only verify, from_bytes and clone may be among
them. The fields' visibility is examined, as are operations that make values of any type out of raw memory."""
from lib import *

TYPES = ('VerifiedCredential', 'VerifiedSignalCredential')


def mentions(x, out):
    """The function paths mentioned anywhere in a body."""
    if isinstance(x, dict):
        for k in ('path', 'rpath'):
            if isinstance(x.get(k), str):
                out.add(x[k])
        for v in x.values():
            mentions(v, out)
    elif isinstance(x, list):
        for v in x:
            mentions(v, out)
    return out


def bodies(x):
    yield x
    for p in x.get('promoted', []):
        for b in bodies(p):
            yield b


def places(blk):
    """(place, how it is used) for writes and mutable borrows."""
    for s in blk['st']:
        if s['s'] == '=':
            yield s['p'], s.get('sp')
            r = s['r']
            if r['k'] == 'ref' and r.get('mut'):
                yield r['p'], s.get('sp')
    t = blk['t']
    if t.get('dst'):
        yield t['dst'], t.get('sp')


RAW = ('transmute', 'transmute_copy', 'uninitialized', 'zeroed', 'read', 'read_unaligned', 'read_volatile', 'assume_init',
       'uninit', 'from_raw', 'write', 'copy', 'copy_nonoverlapping', 'swap', 'get_mut', 'as_mut', 'as_mut_ptr')


def fnpaths(w, x):
    """Functions referred to in a body, also as values of their own types."""
    out = mentions([b['blocks'] for b in bodies(x)], set())
    for b in bodies(x):
        for l in b['locals']:
            d = w.types[l['ty']]
            if d['k'] == 'fndef':
                out.add(d.get('path'))
    return out


def constructors(c):
    total = 0
    for own in TYPES:
        sites = {}              # function path -> where
        calls = {}              # function path -> the functions mentioned in it
        local = {}
        reach = {}
        trait = {}
        n = 0
        adt_path = None
        for cr in extract.CRATES:
            w = world(cr)
            T = {i for i, d in enumerate(w.types) if d['k'] == 'adt' and d['path'].split('::')[-1] == own}
            for i in T:
                adt_path = w.types[i]['path']
            for it in w.items:
                if it['inst'] is not None:
                    reach[it['path']] = it['reachable'] or it.get('no_mangle')
                    trait[it['path']] = (it.get('trait') or '').split('::')[-1]
                    local[it['path']] = (self_name(w, it), it['name'], rel(it.get('span') or ''))
            for x in w.d['insts']:
                if not x.get('blocks'):
                    continue
                n += 1
                p = x.get('path', '?')
                calls.setdefault(p, set()).update(fnpaths(w, x))
                for b in bodies(x):
                    for blk in b['blocks']:
                        for pl, sp in places(blk):
                            if any(e[0] == 'f' and e[3] in T for e in pl['p']):
                                sites.setdefault(p, rel(sp or ''))
                        t = blk['t']
                        if t['t'] == 'call' and isinstance(t['f'], dict) and 'fn' in t['f']:
                            g = t['f']['fn']
                            a = set(g.get('args', [])) | set(g.get('rargs') or [])
                            if g['name'] in RAW and g.get('krate') in ('core', 'alloc', 'std') and a & T:
                                sites.setdefault(p, rel(t.get('sp') or ''))
        if adt_path is None:
            raise Missing('the type ' + own)
        for p, ms in calls.items():
            if adt_path in ms and p not in sites and p != adt_path:
                sites[p] = ''           # the constructor used as a function
        callers = {}
        for p, ms in calls.items():
            for m in ms:
                callers.setdefault(m, set()).add(p)

        def allowed(p):
            s = local.get(p)
            if s is None:
                return False
            o, name, _ = s
            return (name == 'verify' and o in ('Issuer', 'SignalIssuer') and not trait[p]) or \
                (name == 'from_bytes' and o == own and not trait[p]) or \
                (name == 'clone' and o == own and trait[p] == 'Clone')
        seen = set()
        c.ob(sites, own + ':sites', 'the places where a %s is made were found (%d bodies examined)' % (own, n))
        work = [(p, [p]) for p in sorted(sites)]
        good = True
        while work:
            p, via = work.pop()
            if p in seen:
                continue
            seen.add(p)
            c.functions.add(p)
            if allowed(p):
                c.ob(True, '%s:%s' % (own, p), '%s may make one' % p.split('::', 1)[-1], local[p][2])
                continue
            root = p.split('::{{closure}}')[0]
            cs = callers.get(p, set()) - {p}
            if root != p and '{{closure}}' in p:
                cs = {root}
            if reach.get(p) or (not cs and p in reach):
                good = False
                c.ob(False, '%s:%s' % (own, p), '%s makes or mutably borrows a part of a %s without verifying it' % (p, own),
                     sites.get(via[0]) or local.get(p, ('', '', ''))[2], ' called from '.join(via))
                continue
            for q in cs:
                work.append((q, via + [q]))
        c.ob(good, own + ':only', 'only verify, from_bytes and clone make a %s' % own)
        total += len(sites)
        # Visibility of the fields.
        for cr in extract.CRATES:
            for a in world(cr).adts:
                if a['path'].split('::')[-1] == own:
                    for v in a['variants']:
                        for f in v['fields']:
                            c.ob(f['vis'] != 'pub', '%s:field:%s' % (own, f['name']),
                                 'the field %s of %s is not accessible to other crates' % (f['name'], own), rel(a.get('span') or ''))
    c.extra['construction_sites'] = total


def copies(c):
    for crate, own in (('aeonflux', TYPES[0]), ('signal_credential', TYPES[1])):
        f = fn(crate, own, 'clone', trait='Clone')
        r = c.run(f)
        c.no_panic(r)
        c.each(r, lambda o: o[0] == 'ret', own + ':clone', 'a copy is the same', lambda s, o: same(s, o[1], r.arg(0)))
        g = fn(crate, own, 'from_bytes')
        r = c.run(g)
        c.no_panic(r)
    c.floor = 10


PARTS = [constructors, copies]
