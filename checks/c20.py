"""For every type with an encoder and a decoder, the encoder is followed by the decoder as one program on an unknown
well-formed value: rows have the system's number of attributes, system parameters are non-degenerate, options are tried
both present and absent. Encoding must not panic, decoding must succeed, and what it gives must equal the original in
every part (the group and field elements being compared as algebraic values). Where a value is absent or present by its
encoding being zero, a present one is assumed not to be encoded as all zeros."""
from codec import *
from interp import scalar_bytes, point_bytes

LENGTHS = {'attributes_revealed': {'CredentialPresentation': 0, 'CredentialRequest': 1}}


ANY = {'amacs::PublicKey': 0, 'amacs::SecretKey': 0, 'amacs::Keypair': 0, 'credential::CredentialRequest': 0}
ROWS = ('Xn', 'xn', 'attributes_revealed')     # the rows of those which may have any length


def well_formed(w, t, name, owner='', field='', size=None):
    """The symbolic values of a type: [(value, [(condition, truth)], [values not encoded as zero])]"""
    d = w.types[t]
    k = d['k']
    if k == 'ref':
        return [(vref(v), cs, z) for v, cs, z in well_formed(w, d['to'], name, owner, field, size)]
    if k == 'adt' and d['path'] == OPTION:
        return [(NONE, [], [])] + [(some(v), cs, z + [v]) for v, cs, z in well_formed(w, d['args'][0], name, size=size)]
    if k == 'adt' and d['path'].endswith('vec::Vec'):
        n = LENGTHS.get(field, {}).get(owner, 1) if size is None or field not in ROWS else size
        r = [([], [], [])]
        for i in range(n):
            r = [(vs + [v], cs + c2, z + z2) for vs, cs, z in r
                 for v, c2, z2 in well_formed(w, d['args'][0], '%s[%d]' % (name, i))]
        return [(lit(*vs), cs, z) for vs, cs, z in r]
    if k == 'adt' and d['path'].startswith(('aeonflux::', 'signal_credential::')) and d['adt'] == 'struct':
        own = d['path'].split('::')[-1]
        r = [([], [], [])]
        for f in d['variants'][0]['fields']:
            sub = well_formed(w, f['ty'], name + '.' + f['name'], own, f['name'], size)
            r = [(vs + [v], cs + c2, z + z2) for vs, cs, z in r for v, c2, z2 in sub]
        out = []
        for vs, cs, z in r:
            v = adt(d['path'], 0, vs)
            if own == 'SystemParameters':
                g, h = F(v, 'g'), F(v, 'h')
                cs = cs + [(leq(g, h), False), (leq(g, IDENT), False), (leq(h, IDENT), False)]
            out.append((v, cs, z))
        return out
    return [(Interp(w).symbolic(E('in', name), t), [], [])]



def round_trip(c):
    n = 0
    for crate, name, d, e in codecs(c):
        if d is None or e is None:
            continue
        t = d.item['self_ty']
        values = well_formed(d.w, t, 'value')
        if name in ANY:
            for i in range(ANY[name], 4 if c.tier == 'quick' else 8):
                values += well_formed(d.w, t, 'value%d' % i, size=i)
        for v, cs, z in values:
            st = State()
            if not all(st.assume(x, b) for x, b in cs):
                continue
            r = c.run(e, [vref(v)], st)
            c.no_panic(r, name)
            for s, o in r.outs:
                if o[0] != 'ret':
                    continue
                s = s.copy()
                x = c.run(d, [vref(o[1])], s)
                c.no_panic(x, name + ':decode')
                for s2, o2 in x.outs:
                    if o2[0] != 'ret':
                        continue
                    # A present part which is encoded as zeros is excluded.
                    if any(all_zero(d, q, s2) for q in z):
                        continue
                    n += 1
                    if c.ob(is_ok(o2), name + ':accepts', 'decoding the encoding of a %s succeeds' % name, d.where,
                            conditions(s2)):
                        c.ob(same(s2, payload(o2), v), name, 'decoding the encoding of a %s gives it back' % name, d.where,
                             'gives: %s\nfor: %s' % (show(s2.norm(payload(o2)))[:1500], show(s2.norm(v))[:1500]))
    c.floor = 60
    c.ob(n >= 26, 'round-trips', '%d round trips were followed' % n)


def all_zero(d, v, s):
    """Whether a state implies that every scalar and group element of a value is zero."""
    q = [p for p in parts(s.norm(v))]
    zero = bytes_([0] * 32)
    return bool(q) and all(holds(s, peq(p, ZERO) if p.t == 'poly' else leq(p, IDENT)) or
                           same(s, scalar_bytes(p) if p.t == 'poly' else point_bytes(p), zero) for p in q)


def parts(v):
    if v.t in ('poly', 'lin'):
        return [v]
    if v.t == 'adt':
        return [p for x in v.a[2] for p in parts(x)]
    if v.t == 'seq':
        return [p for g in v.a[0] for x in (g[1] if isinstance(g[1], tuple) else ()) for p in parts(x)]
    return []


PARTS = [round_trip]
