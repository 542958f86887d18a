"""The protocols built on the proofs. Here creating and verifying a proof are taken as one step each (what they do is the
subject of C10 to C13): creating is recorded with its statement and secrets, verifying becomes an unknown condition of
the proof, the transcript and the statement."""
from lib import *
from nipk import SYSTEMS, chain, text

UNIT = tup()


def fields(ip, st, v):
    """{name: value} of the fields of a struct, references followed."""
    v = ip.deref(st, v)
    w = ip.w
    for i, d in enumerate(w.types):
        if d['k'] == 'adt' and d['path'] == v.a[0]:
            return {f['name']: ip.deref(st, x) for f, x in zip(d['variants'][0]['fields'], v.a[2])}
    raise Missing('the type ' + v.a[0])


def nizk_ok(module, proof, t, pub):
    return mk('cond', E('nizkok', module, proof, t, tup(*[pub[k] for k in sorted(pub)])))


class Nizk(object):
    """Hooks standing for the proof systems."""

    def __init__(self):
        self.created, self.verified = [], []
        self.hooks = {}
        for m in SYSTEMS:
            for n, h in (('create', self.create), ('verify', self.verify)):
                for f in functions('aeonflux', 'Proof', n, module=m):
                    self.hooks[f.path] = (lambda h, m: lambda *a: h(m, *a))(h, m)

    def roles(self, ip, st, f, args):
        r = {}
        for a in args:
            v = ip.deref(st, a)
            n = 'transcript' if v.t in ('tr', 'tr0') else v.a[0].split('::')[-1].lower() if v.t == 'adt' else 'proof'
            r[n] = (a, v)
        return r

    def create(self, m, ip, st, f, args, site, dty):
        r = self.roles(ip, st, f, args)
        pub = fields(ip, st, r['publics'][1])
        sec = fields(ip, st, r['secrets'][1])
        ref_, t = r['transcript']
        order = lambda d: tup(*[d[k] for k in sorted(d)])
        e = E('nizk', m, t, order(pub), order(sec))
        st.event('create', m, t, order(pub), order(sec), site)
        ip.models.write(ip, st, ip.models.ref_to_self(ip, st, ref_)[0],
                        mk('tr', t, 'nizk', bytes_(m.encode()), order(pub)))
        return ip.symbolic(e, dty)

    def verify(self, m, ip, st, f, args, site, dty):
        r = self.roles(ip, st, f, args)
        pub = fields(ip, st, r['publics'][1])
        ref_, t = r['transcript']
        order = tup(*[pub[k] for k in sorted(pub)])
        proof = r['proof'][1]
        st.event('verify', m, proof, t, order, site)
        ip.models.write(ip, st, ip.models.ref_to_self(ip, st, ref_)[0],
                        mk('tr', t, 'nizk', bytes_(m.encode()), order))
        c = mk('cond', E('nizkok', m, proof, t, order))
        out = []
        for b, v in ((True, ok(UNIT)), (False, err(UNIT))):
            s = st.copy()
            if s.assume(c, b, site):
                out.append((s, ('ret', v)))
        return out


def events(s, kind):
    """[(module, ...)] recorded in a state, with what the state has learnt since."""
    return [tuple(s.norm(x) if isinstance(x, N) else x for x in e[1:]) for e in s.ev if e[0] == kind]


def named(m, order):
    """{public: value} of what was recorded."""
    return dict(zip(sorted(SYSTEMS[m][1].split()), order.a[0]))


def named_secrets(m, order):
    return dict(zip(sorted(SYSTEMS[m][0].split()), order.a[0]))


def start_label(t):
    """The label a transcript was started with, if it was."""
    root, ops = chain(t)
    if root.a[0] is not E('new') or not ops:
        return None
    return text(ops[0][2])


OPERATIONS = [('aeonflux', 'Issuer', 'issue'), ('aeonflux', 'User', 'obtain_finish'), ('aeonflux', 'User', 'show'),
              ('aeonflux', 'Issuer', 'verify'), ('signal_credential', 'SignalUser', 'show'),
              ('signal_credential', 'SignalIssuer', 'verify_roster_membership')]


def starts(c):
    r = []
    for crate, own, name in OPERATIONS:
        f = fn(crate, own, name)
        x = c.run(f, hooks=Nizk().hooks)
        for s, o in x.outs:
            for kind in ('create', 'verify'):
                for e in events(s, kind):
                    t = e[1] if kind == 'create' else e[2]
                    r.append((f.path, e[0], start_label(t)))
    return sorted(set(r), key=str)
