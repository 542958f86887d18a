"""Each function exported to JavaScript (compiled here with the versions of its dependencies at hand) is analysed on unknown
arguments. A JavaScript value handed in stands for a row of bytes or for none, which the type's own decoder takes (that
deserialising does that is C29); one handed out for the value it was made from. In the state reached by each path the
operation the function names is then carried out by the library itself on the same arguments in their roles, with a
generator seeded with exactly the given seed, as for the C interface (C26): every way that can go must agree with what the
function returned, the value where the library succeeds and the number zero (or false) where it refuses. No path panics."""
from codec import *
from protocol import *
import c26
from c26 import FAIL, seq_, search, own_var

CRATE = 'wasm'
JS = 'wasm_bindgen::JsValue'
NAMES = ('system_parameters_create', 'issuer_create', 'issuer_get_issuer_parameters', 'issuer_new', 'issuer_issue',
         'issuer_verify', 'issuer_verify_roster_membership', 'user_obtain_finish', 'user_show')


def decoder(w, t):
    """from_bytes of a type."""
    d = w.types[t]
    p = d['path'].split('::')
    return fn(p[0], p[-1], 'from_bytes', module=p[-2])


class Lib(c26.Lib):
    """Carrying out operations of the library on what JavaScript values stand for."""

    def __init__(self, c, f):
        self.c, self.f = c, f
        self.ip = Interp(f.w)
        self.ip.hooks.update(hooks(self))
        c.ips.append(self.ip)
        self.others = {}
        self.r = None

    @property
    def call(self):
        return self

    def from_json(self, s, js, f):
        """What deserialising a JavaScript value gives."""
        row = sub_of(base(E('json', js), 'u8'), 0, I(ia(E('len', E('json', js)), 0, 2 ** 31)))
        c = mk('cond', E('isjson', js))
        out = []
        a = s.copy()
        if a.assume(c, False):
            out.append((a, FAIL))
        b = s.copy()
        if b.assume(c, True):
            ip, i = self.inst(f)
            for s2, o in ip.analyse(i, [vref(row)], b):
                if o[0] == 'panic':
                    raise Missing('%s does not panic' % f.path)
                out.append((s2, payload(o) if is_ok(o) else FAIL))
        return out

    def decode(self, s, i, own):
        mod, _, own = own.rpartition('.')
        crate = 'aeonflux' if own in ('SystemParameters', 'CredentialIssuance') or mod else 'signal_credential'
        f = fn(crate, own, 'from_bytes', **({'module': mod} if mod else {}))
        return self.from_json(s, s.norm(self.r.args[i]), f)

    def bytes(self, s, i):
        return [(s, s.norm(self.ip.deref(s, self.r.args[i])))]

    def rng(self, s, i, key='rng'):
        out = []
        row = s.norm(self.ip.deref(s, self.r.args[i]))
        c = ieq(slen(row), I(32))
        a = s.copy()
        if a.assume(c, False):
            out.append((a, FAIL))
        b = s.copy()
        if b.assume(c, True):
            row = b.norm(row)
            out.append((b, mutable(b, key, mk('rng', E('seeded', self.seeder(), row), I(0)))))
        return out

    def encode(self, s, v, own):
        return [(s, v)]


def hooks(l):
    h = Nizk().hooks
    h[fn('aeonflux', 'SystemParameters', 'hunt_and_peck').path] = search

    def into(ip, st, f, args, site, dty):
        d = ip.ty(dty)
        out = []
        for s, v in l.from_json(st, st.norm(ip.deref(st, args[0])), decoder(ip.w, d['args'][0])):
            out.append((s, ('ret', err(ip.symbolic(E('json error', site), d['args'][1])) if v is FAIL else ok(v))))
        return out

    def out_of(ip, st, f, args, site, dty):
        v = st.norm(ip.deref(st, args[0]))
        return [(st, ('ret', ok(adt(JS, 0, (v,)))))]

    def number(ip, st, f, args, site, dty):
        return [(st, ('ret', adt(JS, 0, (st.norm(ip.deref(st, args[0])),))))]
    h[JS + '::into_serde'] = into
    h[JS + '::from_serde'] = out_of
    for t in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'f32', 'f64', 'bool'):
        h['<%s as core::convert::From<%s>>::from' % (JS, t)] = number
    h[JS + '::from_bool'] = h[JS + '::from_f64'] = number
    return h


def refused(v):
    """Whether a value returned to JavaScript is zero or false."""
    while v.t == 'adt' and v.a[0] == JS:
        v = v.a[2][0]
    return v is FALSE or v.t == 'int' and iconst(v) == 0 or v.t == 'float' and v.a[0] == 0


def steps(l, name):
    if name == 'issuer_get_issuer_parameters':
        return [lambda s, v: l.decode(s, 0, 'SignalIssuer'),
                lambda s, v: l.step(s, 'SignalIssuer', 'get_issuer_parameters', [vref(v[0])])]
    return c26.steps(l, name)


def one(c, f):
    l = Lib(c, f)
    args = [adt(JS, 0, (I(ia(E('in', 'js', i), 0, 2 ** 32 - 1)),)) if tyname(f.w, t) == 'JsValue' else None
            for i, t in enumerate(f.argtypes())]
    r = l.r = c.run(f, args, hooks=hooks(l))
    c.no_panic(r)
    st = steps(l, f.name)
    bad = []
    n = ns = 0
    for s, o in r.outs:
        if o[0] != 'ret':
            continue
        got = s.norm(o[1])
        for s2, v in seq_(l, s, st):
            n += 1
            if v is FAIL:
                if not refused(got):
                    bad.append(('the library refuses, but %s is returned' % show(got)[:300], s2))
                continue
            ns += 1
            if got.t != 'adt' or got.a[0] != JS or got.a[2][0].t != v.t:
                bad.append(('the library does not refuse, but %s is returned' % show(got)[:300], s2))
            elif not same(s2, s2.norm(got.a[2][0]), s2.norm(v)):
                bad.append(('%s is returned instead of %s' % (show(s2.norm(got))[:1500], show(s2.norm(v))[:1500]), s2))
    c.ob(not bad, f.name + ':operation', '%s does what it names, with its arguments in their roles' % f.name, f.where,
         '%s\n%s' % (bad[0][0], conditions(bad[0][1])) if bad else '')
    c.ob(ns, f.name + ':succeeds', '%s can succeed' % f.name, f.where)
    c.extra['comparisons'] = c.extra.get('comparisons', 0) + n


def exported():
    fs = {f.name: f for f in functions(CRATE, None, None) if f.item['reachable']}
    for n in NAMES:
        if n not in fs:
            raise Missing('the exported function ' + n)
    return [fs[n] for n in sorted(fs)]


def calls(c):
    n = 0
    for f in exported():
        if f.name not in NAMES:
            c.ob(False, f.name + ':known', 'the operation that %s names is known' % f.name, f.where)
            continue
        one(c, f)
        n += 1
    c.ob(n >= len(NAMES), 'functions', '%d functions were examined' % n)
    c.floor = 27


CONFIGS = False          # there is one, with the interface to JavaScript
PARTS = [calls]
