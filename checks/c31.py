"""Every function of the two crates which users can reach (constructors, protocol operations, encoders, conversions,
operators, destructors) is analysed on unknown arguments of its types, with any number of attributes, nonces and key
components, proofs being taken as one step; creating and verifying each proof is analysed in full. No path may end in a
panic, and everything called must be known. Checking roster membership is analysed from every value that verifying or
decoding can give, the only ways to such a value (C08)."""
from codec import *
from protocol import *
from parties import ty

# Derived, or the subject of another property: C16 (readable form), C18, C29 (serde), C28 (constructing parameters).
DERIVED = ('Debug', 'Display', 'Hash', 'Clone', 'PartialEq', 'Eq', 'PartialOrd', 'Ord', 'Serialize', 'Deserialize', 'Visitor',
           'Fail', 'Error', 'StructuralEq', 'Copy', 'Default')


def excepted(f):
    t = (f.item.get('trait') or '').split('::')[-1]
    own = self_name(f.w, f.item) if f.item.get('self_ty') is not None else None
    if t in DERIVED or t in ('Index', 'IndexMut'):
        return True
    if t == 'From' and own == 'SystemParameters':
        return True
    if t == 'From' and own == 'String':
        return True
    return f.name == 'blind_request' or f.name == 'verify_roster_membership' or '_IMPL_' in f.path


MUST = [('aeonflux', 'Issuer', 'issue'), ('aeonflux', 'Issuer', 'verify'), ('aeonflux', 'Issuer', 'new'),
        ('aeonflux', 'Issuer', 'create'), ('aeonflux', 'User', 'new'), ('aeonflux', 'User', 'obtain'),
        ('aeonflux', 'User', 'obtain_finish'), ('aeonflux', 'User', 'show'), ('aeonflux', 'Issuer', 'blind_issue'),
        ('signal_credential', 'SignalIssuer', 'issue'), ('signal_credential', 'SignalIssuer', 'verify'),
        ('signal_credential', 'SignalUser', 'new'), ('signal_credential', 'SignalUser', 'obtain_finish'),
        ('signal_credential', 'SignalUser', 'show'), ('signal_credential', 'RosterEntryCommitment', 'create'),
        ('signal_credential', 'RosterEntryCommitment', 'open'), ('signal_credential', 'CommittedPhoneNumber', 'open')]


def one(c, f, hooks):
    r = c.run(f, hooks=hooks)
    c.no_panic(r)
    u = sorted({str(e[1]) for s, o in r.outs for e in s.ev if e[0] == 'unknown'} - {'dyn'})
    c.ob(not u, short(f) + ':known', 'everything %s calls is known not to panic' % short(f), f.where, ', '.join(u))


def operations(c):
    seen = set()
    for crate in CRATES:
        w = world(crate)
        for it in w.items:
            if it['inst'] is None or not it['reachable']:
                continue
            f = Fn(w, it)
            if excepted(f):
                continue
            one(c, f, Nizk().hooks)
            seen.add((crate, self_name(w, it), f.name))
    for m in MUST:
        if m not in seen:
            c.ob(m[2] in OPTIONAL, '%s::%s:examined' % m[1:], '%s::%s was examined' % m[1:])


OPTIONAL = ('blind_issue', 'obtain')


def proofs(c):
    n = 0
    for m in SYSTEMS:
        for name in ('create', 'verify'):
            for f in functions('aeonflux', 'Proof', name, module=m):
                one(c, f, {})
                n += 1
    c.ob(n >= 8, 'proofs', '%d functions creating and verifying proofs were examined' % n)


def roster(c):
    crate = 'signal_credential'
    f = fn(crate, 'SignalIssuer', 'verify_roster_membership')
    n = 0
    sources = [(fn(crate, 'SignalIssuer', 'verify'), is_ok), (fn(crate, 'VerifiedSignalCredential', 'from_bytes'), is_ok)]
    for src, pick in sources:
        r = c.run(src, hooks=Nizk().hooks)
        for s, o in r.outs:
            if not pick(o):
                continue
            issuer = r.args[0] if len(r.args) == 2 else None
            for other in ((None,) if issuer is None else (None, issuer)):
                r2 = c.run(f, [other, vref(s.norm(payload(o)))], s, hooks=Nizk().hooks)
                c.no_panic(r2, 'verify_roster_membership after ' + src.name)
                n += 1
    c.ob(n >= 2, 'verify_roster_membership', 'it was examined on what verifying and decoding give', f.where)
    c.floor = 130


PARTS = [operations, proofs, roster]
