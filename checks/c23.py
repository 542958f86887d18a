"""Which decisions depend on secrets. Every function users can reach is analysed on unknown arguments. Secret are the scalars
in the arguments, by their types (keys, attributes, nonces, openings, what a proof is about), and every number drawn.
Every condition under which a path was taken, every index, every division, every comparison of rows of bytes and every
operation said to take variable time is a term over what the function was given; it must not contain a secret, except inside
a group element or the challenge of a proof. Two decisions are exempt: whether two group elements are the same, and whether
a comparison of whole scalars led to a refusal, where one outcome leads to nothing but that."""
from codec import *
from protocol import *
from nipk import systems, unknown as unknown_statement
from c31 import excepted as no_operation

# The scalars of these are no secrets: responses and challenges, and what is shown to the issuer.
PUBLIC = ('Proof', 'CredentialPresentation', 'SignalCredentialPresentation', 'VerifiedCredential', 'VerifiedSignalCredential',
          'CredentialBlindRequest', 'CredentialBlindIssuance')
DRAWN = ('rand', 'rbytes', 'seed', 'sc')


class Marking(Interp):
    """Notes which unknowns are scalars, and which are parts of public values."""

    def __init__(self, w):
        Interp.__init__(self, w)
        self.scalars, self.public = set(), set()

    def symbolic(self, e, t):
        d = self.ty(t)
        if self.within_public(e):
            pass
        elif d['k'] == 'adt':
            if d['path'] == SCALAR:
                self.scalars.add(e)
            elif d['path'].split('::')[-1] in PUBLIC:
                self.public.add(e)
            elif d['path'] == VEC and self.scalar(d['args'][0]):
                self.scalars.add(e)
        elif d['k'] in ('array', 'slice') and self.scalar(d['elem']):
            self.scalars.add(e)
        return Interp.symbolic(self, e, t)

    def within_public(self, e):
        return e in self.public or any(isinstance(y, N) and y.t in ('e', 'base', 'any') and self.within_public(y) for y in e.a)

    def scalar(self, t):
        d = self.ty(t)
        if d['k'] == 'ref':
            return self.scalar(d['to'])
        if d['k'] != 'adt' or d['adt'] != 'struct':
            return False
        fs = d['variants'][0]['fields']
        return d['path'] == SCALAR or len(fs) == 1 and self.scalar(fs[0]['ty'])


class Secrets(object):
    """Whether terms depend on secrets."""

    def __init__(self, ip, drawn=DRAWN):
        self.ip = ip
        self.memo = {}
        self.drawn = drawn

    def within(self, x, elements=False):
        """A secret a term depends on, or None. Group elements count if asked for."""
        key = (x, elements) if isinstance(x, N) else None
        if key is None:
            if isinstance(x, (tuple, list, set, frozenset)):
                for y in x:
                    r = self.within(y, elements)
                    if r is not None:
                        return r
            return None
        if key not in self.memo:
            self.memo[key] = None
            self.memo[key] = self.find(x, elements)
        return self.memo[key]

    def find(self, x, elements):
        if x.t == 'variant' and x.a[0].t in ('adt', 'sym'):
            return None
        if x.t == 'lin' and not elements:
            return None
        if x.t == 'e':
            if x in self.ip.public:
                return None
            if x in self.ip.scalars or x.a[0] in self.drawn:
                return x
            if x.a[0] in ('chal', 'len', 'nizkok'):
                return None
            if x in self.ip.origins:
                return self.within(self.ip.origins[x], elements)
        return self.within(x.a, elements)


def parts(c):
    """The comparisons a condition is made of."""
    todo, r = [c], []
    while todo:
        x = todo.pop()
        if x.t in ('not', 'and', 'or'):
            todo += [y for y in x.a if isinstance(y, N)]
        else:
            r.append(x)
    return r


def refusal(o):
    """Whether a way to end is a refusal."""
    return is_err(o) or o[0] == 'ret' and (o[1] is FALSE or o[1].t == 'adt' and o[1].a[0] == 'subtle::Choice' and
                                           o[1].a[2][0] is FALSE)


def whole(c):
    """Whether a condition compares whole scalars, or rows of them."""
    return all(x.t == 'peq' or x.t == 'seqeq' and elem_key(x.a[0]) == 'poly' or x.t == 'eqz' for x in parts(c))


def decides_refusal(outs, cond, site):
    """Whether one outcome of a decision only leads to a refusal."""
    # A line may hold several decisions: one is known by its place, or by its condition unless that has become another.
    for same in (lambda k: k[2] == site, lambda k: k[2] == site and plain(k[0], True)[0] is cond):
        for truth in (True, False):
            ways = [o for s, o in outs if any(same(k) and plain(k[0], k[1])[1] is truth for k in s.conds)]
            if ways and all(refusal(o) for o in ways):
                return True
    return False


def plain(c, truth):
    while c.t == 'not':
        c, truth = c.a[0], not truth
    return c, truth


def one(c, f, args=None, hooks=None, secret=()):
    ip = Marking(f.w)
    ip.scalars.update(secret)
    r = c.run(f, args, hooks=hooks, ip=ip)
    # What public parameters are drawn from is none.
    own = self_name(f.w, f.item) if f.item.get('self_ty') is not None else None
    sec = Secrets(ip, () if own == 'SystemParameters' else DRAWN)
    bad = []
    n = 0
    conds = {}
    for site, k in ip.branches:
        conds.setdefault(plain(k, True)[0], site)
    for s, o in r.outs:
        for k in s.conds:
            conds.setdefault(plain(k[0], True)[0], k[2])
    for k, at_ in conds.items():
        for x in parts(k):
            n += 1
            # The bytes of an encoding compared are those of a group element compared.
            e = sec.within(x, x.t not in ('leq', 'seqeq'))
            if e is not None and not (whole(k) and decides_refusal(r.outs, k, at_)):
                bad.append(('branches on', e, x, at_ or (f.path,)))
    for kind, rows in (('indexes by', [(p, sp, i) for p, sp, _, i in ip.indices]),
                       ('computes in variable time on', [(p, sp, v) for p, sp, a, b in ip.vartime for v in (a, b)])):
        for p, sp, v in rows:
            n += 1
            e = sec.within(v)
            if e is not None:
                bad.append((kind, e, v, (p, sp)))
    where = f.where
    key = short(f)
    c.ob(not bad, key, 'nothing in %s is decided by a secret' % key, where,
         '\n'.join('%s %s %s: %s' % (p[0], kind, show(e)[:80], show(x)[:300]) for kind, e, x, p in bad[:5]))
    return n


def examined(f):
    t = (f.item.get('trait') or '').split('::')[-1]
    own = self_name(f.w, f.item) if f.item.get('self_ty') is not None else None
    if t == 'From' and own == 'SystemParameters' or t in ('Index', 'IndexMut'):
        return True
    return not no_operation(f) or f.name in ('verify_roster_membership',)


def operations(c):
    n = k = 0
    for crate in CRATES:
        w = world(crate)
        for it in w.items:
            if it['inst'] is None or not it['reachable']:
                continue
            f = Fn(w, it)
            if examined(f):
                n += one(c, f, hooks=Nizk().hooks)
                k += 1
    c.ob(k >= 140, 'operations', '%d functions, with %d conditions, indices and operands, were examined' % (k, n))


def proofs(c):
    n = 0
    for m in SYSTEMS:
        for name in ('create', 'verify'):
            for f in functions('aeonflux', 'Proof', name, module=m):
                one(c, f)
                n += 1
    c.ob(n >= 8, 'proofs', '%d functions creating and verifying proofs were examined' % n)
    c.floor = 100


PARTS = [operations, proofs]
