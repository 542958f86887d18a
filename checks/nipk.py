"""The five proof systems: what they declare, and what is derived about creating and verifying in each."""
from lib import *

# name: (secrets, publics, {public: ((base, witness), ...)})
SYSTEMS = {
    'issuance_revealed': (
        'x0 x1 x0_tilde m1x1', 'P Q Cx0 B A X1',
        {'Q': 'P*x0 P*m1x1', 'Cx0': 'B*x0 A*x0_tilde', 'X1': 'A*x1'}),
    'attributes_blinded': (
        'd e0 m0 nonce', 'B A D encrypted_attribute_0_0 encrypted_attribute_0_1',
        {'D': 'B*d', 'encrypted_attribute_0_0': 'B*e0', 'encrypted_attribute_0_1': 'B*m0 D*e0'}),
    'issuance_blinded': (
        'x0_tilde x0 x1 s b t0',
        'B A X0 X1 D P T0_0 T0_1 EQ_commitment EQ_encryption encrypted_attribute_0_0 encrypted_attribute_0_1',
        {'X0': 'B*x0 A*x0_tilde', 'X1': 'A*x1', 'P': 'B*b', 'T0_0': 'X0*b', 'T0_1': 'A*t0',
         'EQ_commitment': 'B*s encrypted_attribute_0_0*t0', 'EQ_encryption': 'D*s encrypted_attribute_0_1*t0'}),
    'valid_credential': (
        'm0 z0 minus_zQ', 'B A X0 P V Cm0',
        {'Cm0': 'P*m0 A*z0', 'V': 'X0*z0 A*minus_zQ'}),
    'committed_values_equal': (
        'm0 z0 z1', 'B A P Cm0 Cm1',
        {'Cm0': 'P*m0 A*z0', 'Cm1': 'A*m0 B*z1'}),
}


class System(object):
    def __init__(self, name):
        s, p, e = SYSTEMS[name]
        self.name, self.secrets, self.publics = name, s.split(), p.split()
        self.eqs = {k: [tuple(t.split('*')) for t in v.split()] for k, v in e.items()}
        self.create = fn('aeonflux', 'Proof', 'create', module=name)
        self.verify = fn('aeonflux', 'Proof', 'verify', module=name)


def systems():
    return [System(n) for n in SYSTEMS]


def role(w, t):
    """Which argument a parameter is, by its type."""
    n = tyname(w, t)
    return {'Transcript': 'transcript', 'Publics': 'publics', 'Secrets': 'secrets', 'Proof': 'self'}.get(n, n)


def args(f, st, **vals):
    r = []
    for t in f.argtypes():
        k = role(f.w, t)
        if k not in vals:
            raise Missing('parameter of type %s of %s' % (f.w.types[t]['s'], f.path))
        v = vals[k]
        r.append(v if k == 'transcript' else make(f.w, t, v))
    return r


def combination(terms, bases, scalars):
    r = IDENT
    for b, s in terms:
        r = ladd(r, lmul(scalars[s], bases[b]))
    return r


def honest(y):
    """Public values which satisfy the equations, in terms of unknown secrets and bases."""
    sec = {s: scalar('secret.' + s) for s in y.secrets}
    pub = {}
    left = list(y.publics)
    while left:
        n = len(left)
        for p in list(left):
            if p not in y.eqs:
                pub[p] = point('public.' + p)
            elif all(b in pub for b, _ in y.eqs[p]):
                pub[p] = combination(y.eqs[p], pub, sec)
            else:
                continue
            left.remove(p)
        if len(left) == n:
            raise Missing('circular equations of ' + y.name)
    return sec, pub


def unknown(y):
    sec = {s: scalar('secret.' + s) for s in y.secrets}
    pub = {p: point('public.' + p) for p in y.publics}
    return sec, pub


T0 = mk('tr0', E('in', 'caller'))


def run_create(c, y, sec, pub):
    st = State()
    t = mutable(st, 'transcript', T0)
    return c.run(y.create, args(y.create, st, transcript=t, publics=pub, secrets=sec), st)


def chain(t):
    """(root, [(operation, label, data)]) of a transcript."""
    ops = []
    while t.t == 'tr':
        ops.append((t.a[1], t.a[2], t.a[3]) if len(t.a) > 3 else (t.a[1], t.a[2], None))
        t = t.a[0]
    return t, ops[::-1]


def challenges(v):
    """The challenges a term is made of: (transcript, label, length)."""
    return [x.a[0].a[1:] for x in atoms(v) if x.t == 'base' and x.a[0].t == 'e' and x.a[0].a[0] == 'chal']


def wide_challenge(v):
    """(transcript, label, length) if a scalar is exactly all bytes of one challenge, reduced."""
    if v.t != 'poly' or len(v.a[0]) != 1 or v.a[0][0][1] != 1 or len(v.a[0][0][0]) != 1:
        return None
    e = v.a[0][0][0][0][0].a[0]
    if e.t != 'e' or e.a[0] != 'wide':
        return None
    s = e.a[1]
    if len(s.a[0]) != 1 or s.a[0][0][0] != 'sub':
        return None
    g = s.a[0][0]
    b = g[1].a[0]
    if b.t != 'e' or b.a[0] != 'chal':
        return None
    t, label, n = b.a[1:]
    if iconst(g[2]) != 0 or iconst(g[3]) != 64 or iconst(I(n)) != 64:
        return None
    return t, label, n


def text(s):
    b = const_bytes(s) if s is not None and s.t == 'seq' else None
    return bytes(b).decode('latin1') if b is not None else None
