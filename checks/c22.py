"""The destructors of the types holding secrets are analysed on an unknown value with rows of unknown length: on every
path each secret scalar must have been overwritten by the wiping operation (a plain assignment, which a compiler may drop
as dead, does not count), by the type's own destructor or by those of its fields, which are followed like the compiler's
drop glue. The two crates are searched for calls that would skip destructors."""
from codec import *

SECRETS = {'amacs::SecretKey': ['x0', 'xn'], 'elgamal::SecretKey': [0], 'nonces::Ephemeral': [0], 'nonces::Nonces': [0],
           'amacs::Rerandomization': [0]}
HOLDERS = ['amacs::Keypair', 'elgamal::Keypair', 'issuer::Issuer']
WIPED = patom(E('wiped'))
CLEAR = 'clear_on_drop::clear::Clear::clear'


def wipe(ip, st, f, args, site, dty):
    """In place of the wiping operation, so that what it wrote can be told from an assignment."""
    from models import ref_to_self, write
    r, v = ref_to_self(ip, st, args[0])
    write(ip, st, r, wiped(v))
    return UNIT


def volatile(ip, st, f, args, site, dty):
    """A write which is never dropped."""
    from models import ref_to_self, write
    r, _ = ref_to_self(ip, st, args[0])
    v = args[1]
    write(ip, st, r, wiped(v) if v.t == 'poly' and v is ZERO else v)
    return UNIT


def wiped(v):
    if v.t == 'poly':
        return WIPED
    if v.t == 'lin':
        return IDENT
    if v.t == 'int':
        return I(0)
    if v.t == 'seq':
        # Of a row that is a vector only its pointer and length would be overwritten.
        return v
    if v.t == 'adt':
        return adt(v.a[0], v.a[1], [wiped(x) for x in v.a[2]])
    return v


def whole(v):
    return v is WIPED or v.t == 'adt' and all(whole(x) for x in v.a[2])


class Glue(object):
    def __init__(self, c):
        self.c = c
        self.memo = {}
        self.lost = False           # elements were removed, which leaves them in memory as they are
        self.removed = set()

    def remove(self, ip, st, f, args, site, dty):
        from models import ref_to_self
        r, v = ref_to_self(ip, st, args[0])
        if all(g[0] == 'rep' and whole(g[1]) or g[0] == 'lit' and all(whole(x) for x in g[1]) for g in v.a[0]):
            self.removed.add(f['args'][0] if f.get('args') else None)
        else:
            self.lost = True
        return NotImplemented

    def drop_impl(self, w, t):
        fs = [f for f in functions('aeonflux', None, 'drop', trait='Drop') if f.item['self_ty'] == t and f.w is w]
        return fs[0] if fs else None

    def wipes(self, w, t):
        """Whether dropping a value of a type wipes every scalar in it; why not otherwise."""
        if t not in self.memo:
            self.memo[t] = 'recursive'
            self.memo[t] = self._wipes(w, t)
        return self.memo[t]

    def _wipes(self, w, t):
        d = w.types[t]
        f = self.drop_impl(w, t)
        if f is None:
            return self.leaves(w, t, None)
        st = State()
        ip = Interp(w)
        me = mutable(st, 'self', ip.symbolic(E('in', 'self'), t))
        hooks = {CLEAR: wipe, 'core::ptr::write_volatile': volatile}
        for n in ('clear', 'truncate'):
            hooks['<alloc::vec::Vec<T>>::' + n] = self.remove
        self.lost = False
        r = self.c.run(f, [me], st, hooks=hooks)
        if self.lost:
            return 'elements are removed as they are'
        self.c.no_panic(r)
        for s, o in r.outs:
            if o[0] != 'ret':
                continue
            x = self.leaves(w, t, read(s, 'self'))
            if x:
                return x + '\n' + conditions(s)
        return '' if r.outs else 'the destructor never returns'

    def leaves(self, w, t, v):
        """Why some scalar in a value of a type (whose own destructor left it as v) is not wiped; or ''."""
        d = w.types[t]
        if d['k'] == 'adt' and d['path'] == 'curve25519_dalek::scalar::Scalar':
            return '' if v is WIPED else 'a scalar is left as %s' % (show(v)[:200] if v is not None else 'it is')
        if d['k'] != 'adt' or d['path'].startswith('curve25519_dalek::'):
            return ''
        if d['path'].endswith('vec::Vec'):
            e = d['args'][0]
            if v is not None and v.t == 'seq':
                bad = '' if v.a[0] or e in self.removed else 'elements are removed as they are'
                for g in v.a[0]:
                    if g[0] == 'rep':
                        bad = bad or self.leaves(w, e, g[1])
                    elif g[0] == 'lit':
                        for x in g[1]:
                            bad = bad or self.leaves(w, e, x)
                    else:
                        bad = 'elements are left as they are'
                if not bad:
                    return ''
            return self.wipes(w, e)
        if d['path'] == OPTION:
            return self.wipes(w, d['args'][0])
        if d['adt'] == 'struct':
            for i, f in enumerate(d['variants'][0]['fields']):
                x = self.leaves(w, f['ty'], v.a[2][i] if v is not None and v.t == 'adt' else None)
                if x and v is not None:
                    # Its own destructor runs afterwards.
                    y = self.wipes(w, f['ty'])
                    x = y and x
                elif x:
                    x = self.wipes(w, f['ty']) if w.types[f['ty']]['k'] == 'adt' and \
                        not w.types[f['ty']]['path'].startswith('curve') else x
                if x:
                    return '%s: %s' % (f['name'], x)
        return ''


def destructors(c):
    w = world('aeonflux')
    g = Glue(c)
    for name, fields in SECRETS.items():
        t = find(w, name)
        for f in fields:
            if isinstance(f, str):
                field_index(w.types[t]['path'], f)
        x = g.wipes(w, t)
        c.ob(not x, name, 'dropping a %s wipes every scalar in it' % name, w.types[t]['path'], x)
    for name in HOLDERS:
        x = g.wipes(w, find(w, name))
        c.ob(not x, name, 'dropping a %s wipes every scalar in it' % name, '', x)


def find(w, name):
    for i, d in enumerate(w.types):
        if d['k'] == 'adt' and d['path'] == 'aeonflux::' + name:
            return i
    raise Missing('the type ' + name)


SKIP = ('forget', 'leak', 'into_raw', 'into_raw_parts')


def skipped(c):
    """Nothing holding secrets escapes its destructor."""
    n = 0
    for crate in CRATES:
        w = world(crate)
        secret = set()
        for i, d in enumerate(w.types):
            if any(('aeonflux::' + s) in deep(w, i) for s in SECRETS):
                secret.add(i)
        for x in w.d['insts']:
            for blk in x.get('blocks', []):
                t = blk['t']
                if t['t'] != 'call' or not isinstance(t['f'], dict) or 'fn' not in t['f']:
                    continue
                n += 1
                g = t['f']['fn']
                if g.get('krate') in ('core', 'alloc', 'std') and \
                        (g['name'] in SKIP or 'ManuallyDrop' in g['path'] and g['name'] == 'new'):
                    a = set(g.get('args', [])) | set(g.get('rargs') or [])
                    if x['local'] and a & secret:
                        c.ob(False, 'skips:%s:%s' % (x['path'], g['name']), '%s keeps a secret from being dropped, with %s' %
                             (x['path'], g['path']), rel(t.get('sp') or ''))
    c.ob(n > 1000, 'calls', 'no call in the two crates skips a destructor (%d examined)' % n)


def deep(w, t, seen=None):
    """The paths of the types a type holds."""
    seen = seen if seen is not None else set()
    out = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        d = w.types[t]
        if d['k'] == 'adt':
            out.add(d['path'])
            for a in d['args']:
                if isinstance(a, int):
                    go(a)
            for v in d.get('variants') or []:
                for f in v['fields']:
                    go(f['ty'])
        elif d['k'] == 'tuple':
            for x in d['elems']:
                go(x)
        elif d['k'] in ('array', 'slice'):
            go(d['elem'])
    go(t)
    return out


PARTS = [destructors, skipped]
