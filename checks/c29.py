"""The serde implementations of every type with an encoding. Serialising is analysed with the serialiser unknown: the only
call on it hands over exactly the row which to_bytes gives in that state, and its result is returned. Deserialising asks for
bytes and returns what comes back, with the visitor of that type; the visitor's methods for byte strings and for sequences
are analysed on unknown inputs, and from_bytes is then carried out on the same bytes in every state reached: both succeed
with the same value or both fail, and a sequence whose reading fails ends in an error."""
from codec import *

SER, DE = 'serde::ser::Serializer::', 'serde::de::Deserializer::'


def value_name(f, t):
    d = f.w.types[t]
    while d['k'] == 'ref':
        d = f.w.types[d['to']]
    return '::'.join(d['path'].split('::')[1:]) if d['k'] == 'adt' else None


def ok_type(f):
    """The name of the type a deserialiser or visitor gives."""
    d = f.w.types[f.item['output']]
    return value_name(f, d['args'][0]) if d['k'] == 'adt' and d['args'] else None


def came_from(o, e, ip):
    """Whether an outcome is the unknown result of a call, taken apart or not."""
    v = o[1]
    if v.t == 'sym':
        return v.a[0] is e
    if v.t == 'opaque':
        return v.a[0] is e
    return v.t == 'adt' and v.a[0] == RESULT and len(v.a[2]) == 1 and v.a[2][0].t in ('opaque', 'sym') and \
        v.a[2][0].a[0] is E('var', e, v.a[1], 0)


def serialising(c, name, enc, f):
    def hook(ip, st, g, args, site, dty):
        row = ip.deref(st, args[1])
        e = E('serialized', row)
        st.event('serialize', 'bytes', row, e, site)
        return ip.symbolic(e, dty)
    r = c.run(f, hooks={SER + 'serialize_bytes': hook})
    bad = []
    n = 0
    for s, o in r.outs:
        if o[0] != 'ret':
            bad.append((o[1], s))
            continue
        ev = [e for e in s.ev if e[0] == 'serialize' or e[0] == 'unknown' and 'serde::' in str(e[1])]
        if len(ev) != 1 or ev[0][0] != 'serialize':
            bad.append(('what the serialiser is handed: ' + ', '.join(str(e[1]) for e in ev), s))
            continue
        row = s.norm(ev[0][2])
        if not came_from(o, ev[0][3], r.ip) and not came_from(o, E('serialized', row), r.ip):
            bad.append(('its result is not what is returned: ' + show(o[1])[:200], s))
        for s2, o2 in r.ip.analyse(enc.inst, [s.norm(r.args[0])], s.copy()):
            n += 1
            if o2[0] != 'ret' or not same(s2, s2.norm(row), s2.norm(o2[1])):
                bad.append(('%s is handed over instead of %s' % (show(s2.norm(row))[:800], show(o2[1])[:800]), s2))
    c.ob(not bad and n, name + ':serialize', 'serialising a %s hands over exactly its encoding' % name, f.where,
         '%s\n%s' % (bad[0][0], conditions(bad[0][1])) if bad else '')


def deserialising(c, name, f, visitors):
    def hook(ip, st, g, args, site, dty):
        e = E('deserialized')
        st.event('deserialize', args[1], site)
        return ip.symbolic(e, dty)
    r = c.run(f, hooks={DE + 'deserialize_bytes': hook, DE + 'deserialize_byte_buf': hook})
    bad = []
    for s, o in r.outs:
        ev = [e for e in s.ev if e[0] == 'deserialize' or e[0] == 'unknown' and 'serde::' in str(e[1])]
        if o[0] != 'ret' or len(ev) != 1 or ev[0][0] != 'deserialize':
            bad.append(('what is asked for: ' + ', '.join(str(e[1]) for e in ev), s))
            continue
        v = ev[0][1]
        who = {g.path.split(' as ')[0] if ' as ' in g.path else g.path for g in visitors}
        got = v.a[0] if v.t == 'adt' else '?'
        if v.t != 'adt' or not any(visits(f.w, g, got) for g in visitors):
            bad.append(('its visitor is ' + got, s))
        if not came_from(o, E('deserialized'), r.ip):
            bad.append(('what comes back is not what is returned', s))
    c.ob(not bad and r.outs, name + ':deserialize', 'deserialising a %s asks for bytes and returns what comes back' % name, f.where,
         '%s\n%s' % (bad[0][0], conditions(bad[0][1])) if bad else '')


def visits(w, g, path):
    d = w.types[g.item['self_ty']]
    return d['k'] == 'adt' and d['path'] == path


def visiting(c, name, dec, f):
    r = c.run(f)
    bad = []
    n = 0
    seq_ = f.name == 'visit_seq'
    for s, o in r.outs:
        if o[0] != 'ret':
            bad.append((o[1], s))
            continue
        if seq_:
            e = E('in', r.names[1])
            if any(t and x.t == 'b' and x.a[0].t == 'e' and x.a[0].a[0] == 'elementfails' for x, t in s.facts.lits.items()):
                n += 1
                if not is_err(o):
                    bad.append(('an error of the sequence is ignored', s))
                continue
            row = sub_of(base(E('elements', e), 'u8'), 0, I(ia(E('len', e), 0, 2 ** 63 - 1)))
        else:
            row = r.ip.deref(s, r.args[1])
        for s2, o2 in r.ip.analyse(dec.inst, [vref(s.norm(row))], s.copy()):
            n += 1
            if o2[0] != 'ret' or is_ok(o) is not is_ok(o2):
                bad.append(('the decoder %s these bytes' % ('accepts' if is_ok(o2) else 'refuses'), s2))
            elif is_ok(o) and not same(s2, s2.norm(payload(o)), payload(o2)):
                bad.append(('%s is returned instead of %s' % (show(payload(o))[:800], show(payload(o2))[:800]), s2))
    c.ob(not bad and n, '%s:%s' % (name, f.name), '%s of %s gives what its decoder gives' % (f.name, name), f.where,
         '%s\n%s' % (bad[0][0], conditions(bad[0][1])) if bad else '')


METHODS = ('visit_bytes', 'visit_byte_buf', 'visit_borrowed_bytes', 'visit_seq')


def serde(c):
    n = 0
    for crate in CRATES:
        se = {value_name(f, f.item['self_ty']): f for f in functions(crate, None, 'serialize', trait='Serialize')}
        de = {ok_type(f): f for f in functions(crate, None, 'deserialize', trait='Deserialize')}
        vi = {}
        for f in functions(crate, None, None, trait='Visitor'):
            if f.name.startswith('visit_'):
                vi.setdefault(ok_type(f), []).append(f)
        for cr, name, dec, enc in codecs(c):
            if cr != crate or dec is None or enc is None:
                continue
            if name not in se and name not in de:
                # Proofs derive theirs, and some types have none.
                c.ob(name not in EXPECTED[crate] or name in WITHOUT, name + ':implemented', '%s can be serialised' % name)
                continue
            n += 1
            c.ob(name in se and name in de, name + ':both', '%s can be serialised and deserialised' % name)
            if name in se:
                serialising(c, name, enc, se[name])
            if name in de:
                deserialising(c, name, de[name], vi.get(name, []))
                for f in vi.get(name, []):
                    if f.name in METHODS:
                        visiting(c, name, dec, f)
                    else:
                        c.ob(False, '%s:%s' % (name, f.name), 'the visitor of %s takes only bytes' % name, f.where)
                got = {f.name for f in vi.get(name, [])}
                c.ob('visit_bytes' in got, name + ':strings', 'the visitor of %s takes byte strings' % name, de[name].where)
                c.ob('visit_seq' in got, name + ':sequences', 'the visitor of %s takes sequences' % name, de[name].where)
    c.ob(n >= 22, 'types', '%d types were examined' % n)
    c.floor = 90


WITHOUT = ()
PARTS = [serde]
