"""Each exported function of the C interface is analysed on unknown arguments. In the state reached by each of its paths the
operation it names is then carried out by the library itself: the decoders on the bytes of the arguments (as many as their
length says), the operation with these values in their roles and a generator seeded with the 32 bytes of the seed, the
encoder on its result. Every way that can go from there must agree with what the function returned: the same bytes, or the
failure value where the library refuses."""
from ffi import *

FAIL = ('fail',)
AEONFLUX = ('SystemParameters', 'CredentialIssuance')


def hooks():
    """The proofs, and the search for system parameters, are taken as one step each."""
    h = Nizk().hooks
    h[fn('aeonflux', 'SystemParameters', 'hunt_and_peck').path] = search
    return h


def search(ip, st, f, args, site, dty):
    g = ip.deref(st, args[0])
    if g.t != 'rng':
        return NotImplemented
    st.event('draw', 'parameters', g.a[0], g.a[1], site)
    r = ip.models.ref_to_self(ip, st, args[0])[0]
    ip.models.write(ip, st, r, mk('rng', g.a[0], iadd(g.a[1], 1)))
    return ip.symbolic(E('parameters', g.a[0], g.a[1]), dty)


class Lib(object):
    """Carrying out operations of the library in a state. Each step gives [(state, value)], or FAIL for the value."""

    def __init__(self, c, call):
        self.c, self.call = c, call
        self.ip = Interp(call.f.w)
        self.ip.hooks.update(hooks())
        c.ips.append(self.ip)
        self.others = {}

    def inst(self, f):
        """The function of the library as the FFI crate sees it, or else as its own crate does."""
        w = self.call.f.w
        for i, x in enumerate(w.d['insts']):
            if x.get('path') == f.path and not x.get('closure') and w.body(i) is not None:
                return self.ip, i
        if f.w.crate not in self.others:
            ip = self.others[f.w.crate] = Interp(f.w)
            ip.hooks.update(hooks())
            self.c.ips.append(ip)
        return self.others[f.w.crate], f.inst

    def step(self, s, own, name, args):
        mod, _, own = own.rpartition('.')
        crate = 'aeonflux' if own in AEONFLUX or mod else 'signal_credential'
        f = fn(crate, own, name, **({'module': mod} if mod else {}))
        ip, i = self.inst(f)
        out = []
        if f.path in self.ip.hooks:
            s = s.copy()
            body = ip.w.body(i)
            outs = [(s, ('ret', search(ip, s, f, args, None, body.locals[0]['ty'])))]
        else:
            outs = ip.analyse(i, list(args), s.copy())
        for s2, o in outs:
            if o[0] == 'panic':
                raise Missing('%s::%s does not panic' % (own, name))
            v = o[1]
            if v.t == 'adt' and v.a[0] == RESULT:
                out.append((s2, FAIL if v.a[1] else v.a[2][0]))
            else:
                out.append((s2, v))
        return out

    def decode(self, s, i, own):
        p, n = self.call.buffers[i]
        out = []
        for s2, b in self.bytes(s, i):
            out += [(s2, FAIL)] if b is FAIL else self.step(s2, own, 'from_bytes', [vref(b)])
        return out

    def bytes(self, s, i):
        """The bytes of an argument: a failure if it is null or empty."""
        p, n = self.call.buffers[i]
        m = n if n is not None else I(32)
        out = []
        cur = s
        for cond in [isnull(p)] + ([ieq(m, I(0))] if n is not None else []):
            a = cur.copy()
            if a.assume(cond, True):
                out.append((a, FAIL))
            cur = cur.copy()
            if not cur.assume(cond, False):
                return out
        # What is readable is not longer than this.
        if not cur.assume(ige(I(2 ** 63 - 1), m), True):
            return out
        return out + [(cur, cur.norm(mem(p, m)))]

    def rng(self, s, i, key='rng'):
        """A generator seeded with an argument."""
        out = []
        for s2, b in self.bytes(s, i):
            if b is FAIL:
                out.append((s2, FAIL))
                continue
            s2 = s2.copy()
            out.append((s2, mutable(s2, key, mk('rng', E('seeded', self.seeder(), b), I(0)))))
        return out

    def seeder(self):
        """How the generator of the interface is seeded."""
        names = {e[2].a[1] for s, o in self.call.r.outs for e in s.ev if e[0] == 'draw' and e[2].t == 'e' and e[2].a[0] == 'seeded'}
        if len(names) != 1:
            raise Missing('one generator seeded with the seed')
        return names.pop()

    def encode(self, s, v, own):
        return self.step(s, own, 'to_bytes', [vref(v)])


def seq_(l, s, steps):
    """Carries out steps, each a function of the state and the values so far: [(state, values)] or FAIL."""
    cur = [(s, [])]
    for f in steps:
        nxt = []
        for s, vs in cur:
            if vs is FAIL:
                nxt.append((s, FAIL))
                continue
            for s2, v in f(s, vs):
                nxt.append((s2, FAIL if v is FAIL else vs + [v]))
        cur = nxt
    return [(s, FAIL if vs is FAIL else vs[-1]) for s, vs in cur]


def own_var(s, name, v):
    return mutable(s, name, v)


def steps(l, name):
    D = l.decode
    if name == 'system_parameters_create':
        return [lambda s, v: l.rng(s, 0),
                lambda s, v: l.step(s, 'SystemParameters', 'hunt_and_peck', [v[0]]),
                lambda s, v: l.encode(s, v[-1], 'SystemParameters')]
    if name == 'issuer_create':
        return [lambda s, v: l.rng(s, 1),
                lambda s, v: D(s, 0, 'SystemParameters'),
                lambda s, v: l.step(s, 'SignalIssuer', 'create', [v[1], v[0]]),
                lambda s, v: l.encode(s, F(v[-1], 'issuer', 'keypair'), 'amacs.Keypair')]
    if name == 'issuer_new':
        return [lambda s, v: D(s, 0, 'SystemParameters'),
                lambda s, v: D(s, 1, 'amacs.Keypair'),
                lambda s, v: l.step(s, 'SignalIssuer', 'new', [v[0], v[1]]),
                lambda s, v: l.encode(s, v[-1], 'SignalIssuer')]
    if name == 'issuer_get_issuer_parameters':
        return [lambda s, v: D(s, 0, 'SignalIssuer'),
                lambda s, v: l.step(s, 'SignalIssuer', 'get_issuer_parameters', [vref(v[0])]),
                lambda s, v: l.encode(s, v[-1], 'amacs.PublicKey')]
    if name == 'issuer_issue':
        return [lambda s, v: D(s, 0, 'SignalIssuer'),
                lambda s, v: l.rng(s, 2),
                lambda s, v: l.bytes(s, 1),
                lambda s, v: l.step(s, 'SignalIssuer', 'issue', [vref(v[0]), vref(v[2]), v[1]]),
                lambda s, v: l.encode(s, v[-1], 'CredentialIssuance')]
    if name == 'issuer_verify':
        return [lambda s, v: D(s, 0, 'SignalIssuer'),
                lambda s, v: D(s, 1, 'SignalCredentialPresentation'),
                lambda s, v: l.step(s, 'SignalIssuer', 'verify', [vref(v[0]), v[1]]),
                lambda s, v: l.encode(s, v[-1], 'VerifiedSignalCredential')]
    if name == 'issuer_verify_roster_membership':
        return [lambda s, v: D(s, 0, 'SignalIssuer'),
                lambda s, v: D(s, 1, 'VerifiedSignalCredential'),
                lambda s, v: l.step(s, 'SignalIssuer', 'verify_roster_membership', [vref(v[0]), vref(v[1])]),
                lambda s, v: l.encode(s, v[-1], 'CommittedPhoneNumber')]
    if name == 'user_obtain_finish':
        def finish(s, v):
            s = s.copy()
            r = own_var(s, 'user', v[4])
            out = []
            for s2, x in l.step(s, 'SignalUser', 'obtain_finish', [r, some(vref(v[2]))]):
                out.append((s2, FAIL if x is FAIL else s2.norm(read(s2, 'user'))))
            return out
        return [lambda s, v: D(s, 1, 'SystemParameters'),
                lambda s, v: D(s, 2, 'amacs.PublicKey'),
                lambda s, v: D(s, 3, 'CredentialIssuance'),
                lambda s, v: l.bytes(s, 0),
                lambda s, v: l.step(s, 'SignalUser', 'new', [v[0], v[1], NONE, vref(v[3])]),
                finish,
                lambda s, v: l.encode(s, v[-1], 'SignalUser')]
    if name == 'user_show':
        return [lambda s, v: l.rng(s, 2),
                lambda s, v: D(s, 0, 'SignalUser'),
                lambda s, v: D(s, 1, 'RosterEntryCommitment'),
                lambda s, v: l.step(s, 'SignalUser', 'show', [vref(v[1]), v[0], vref(v[2])]),
                lambda s, v: l.encode(s, v[-1], 'SignalCredentialPresentation')]
    if name == 'roster_entry_commitment_create':
        return [lambda s, v: l.rng(s, 2),
                lambda s, v: l.bytes(s, 0),
                lambda s, v: D(s, 1, 'SystemParameters'),
                lambda s, v: l.step(s, 'RosterEntryCommitment', 'create', [vref(v[1]), vref(v[2]), v[0]]),
                lambda s, v: l.encode(s, v[-1], 'RosterEntryCommitment')]
    if name == 'roster_entry_commitment_remove_opening':
        return [lambda s, v: D(s, 0, 'RosterEntryCommitment'),
                lambda s, v: l.encode(s, F(v[-1], 'commitment'), 'CommittedPhoneNumber')]
    if name == 'roster_entry_commitment_open':
        return [lambda s, v: l.bytes(s, 1),
                lambda s, v: D(s, 2, 'SystemParameters'),
                lambda s, v: D(s, 0, 'RosterEntryCommitment'),
                lambda s, v: l.step(s, 'RosterEntryCommitment', 'open', [vref(v[2]), vref(v[0]), vref(v[1])])]
    return None


def one(c, f):
    x = Call(c, f, hooks())
    l = Lib(c, x)
    st = steps(l, f.name)
    if st is None:
        return c.ob(False, f.name + ':known', 'the operation that %s names is known' % f.name, f.where)
    bad = []
    n = ns = 0
    for s, o in x.r.outs:
        if o[0] != 'ret':
            continue
        m, p = buffer(o[1])
        for s2, v in seq_(l, s, st):
            n += 1
            if f.name == 'roster_entry_commitment_open':
                if p.t != 'null' or iconst(m) != (0 if v is FAIL else 1):
                    bad.append(('the entry %s, but %s is returned' % ('does not open' if v is FAIL else 'opens', show(m)), s2))
                ns += v is not FAIL
                continue
            row = given_up(f.w, s, p)
            if v is FAIL:
                if not failure(o[1]):
                    bad.append(('the library refuses, but a success is returned', s2))
                continue
            ns += 1
            if isinstance(row, str):
                bad.append(('the library does not refuse, but no bytes are returned', s2))
            elif not same(s2, s2.norm(row), s2.norm(v)):
                bad.append(('%s is returned instead of %s' % (show(s2.norm(row))[:1500], show(s2.norm(v))[:1500]), s2))
    c.ob(not bad, f.name + ':operation', '%s does what it names, with its arguments in their roles' % f.name, f.where,
         '%s\n%s' % (bad[0][0], conditions(bad[0][1])) if bad else '')
    c.ob(ns, f.name + ':succeeds', '%s can succeed' % f.name, f.where)
    c.extra['comparisons'] = c.extra.get('comparisons', 0) + n


def calls(c):
    n = 0
    for f in exported():
        if f.name == 'buf_free':
            continue
        one(c, f)
        n += 1
    c.ob(n >= 12, 'functions', '%d functions were examined' % n)
    c.floor = 25


PARTS = [calls]
