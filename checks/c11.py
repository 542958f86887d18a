"""For each proof system the challenge is traced back, in Proof::create and in Proof::verify on unknown inputs, to the
sequence of transcript operations it is squeezed from; this sequence must start from the caller's transcript and contain,
under distinct labels, the name, every public value and every commitment, and nothing may come between the last of them
and the 64-byte challenge. Names and protocol labels are compared across the crates."""
from nipk import *


def derive(c, y, side):
    """The challenge's transcript, and the expected commitments."""
    sec, pub = unknown(y)
    if side == 'create':
        r = run_create(c, y, sec, pub)
        res = []
        for s, o in r.outs:
            if o[0] == 'ret':
                ch, resp = F(o[1], 'challenge'), F(o[1], 'responses')
                rho = {w: psub(F(resp, w), pmul(ch, sec[w])) for w in y.secrets}
                res.append((s, ch, {e: combination(t, pub, rho) for e, t in y.eqs.items()}))
        return pub, res
    st = State()
    proof = proof_of(y)
    t = mutable(st, 'transcript', T0)
    r = c.run(y.verify, args(y.verify, st, self=proof, transcript=t, publics=pub), st)
    ch = F(proof, 'challenge')
    resp = {w: F(proof, 'responses', w) for w in y.secrets}
    res = []
    for s, o in r.outs:
        # The challenge the one in the proof is compared with.
        found = {x for k, _, _, _ in s.conds for x in subterms(k) if x.t == 'pa' and x.a[0].t == 'e' and
                 x.a[0].a[0] == 'wide'}
        if not found:
            res.append((s, None, {}))
        for x in found:
            com = {e: lsub(combination(t, pub, resp), lmul(ch, pub[e])) for e, t in y.eqs.items()}
            res.append((s, mk('poly', ((((x, 1),), 1),)), com))
    return pub, res


def proof_of(y):
    w = y.verify.w
    t = [t for t in y.verify.argtypes() if role(w, t) == 'self'][0]
    d = w.types[t]
    while d['k'] == 'ref':
        t = d['to']
        d = w.types[t]
    return make(w, t, {'challenge': scalar('challenge'), 'responses': responses(w, t, y)})


def responses(w, t, y):
    fs = {f['name']: f['ty'] for f in w.types[t]['variants'][0]['fields']}
    if set(fs) != {'challenge', 'responses'}:
        raise Missing('the fields of %s' % w.types[t]['path'])
    return make(w, fs['responses'], {s: scalar('response.' + s) for s in y.secrets})


def one(c, y, side, names):
    f = y.create if side == 'create' else y.verify
    key = '%s:%s' % (y.name, side)
    pub, res = derive(c, y, side)
    c.ob(res, key + ':runs', '%s::Proof::%s derives a challenge' % (y.name, side), f.where)
    for s, ch, com in res:
        x = wide_challenge(ch) if ch is not None else None
        if not c.ob(x, key + ':challenge', 'the challenge is all 64 bytes squeezed from the transcript, reduced', f.where,
                    show(ch) if ch is not None else conditions(s)):
            continue
        root, ops = chain(x[0])
        c.ob(root is T0, key + ':caller', 'the challenge depends on the whole of the caller\'s transcript', f.where,
             show(root))
        labels = [text(l) for _, l, _ in ops]
        c.ob(None not in labels and len(set(labels)) == len(labels), key + ':labels',
             'everything absorbed has a constant label of its own', f.where, repr(labels))
        consts = [text(d) for _, l, d in ops if text(d) is not None]
        c.ob(consts, key + ':name', 'a name of the proof system is absorbed', f.where, repr(labels))
        names.setdefault(y.name, {})[side] = (tuple(sorted(consts)), tuple(labels))
        datas = [d for _, _, d in ops]
        for p in y.publics:
            c.ob(point_bytes(pub[p]) in datas, '%s:public:%s' % (key, p), 'the public value %s is absorbed' % p, f.where)
        for e in com:
            c.ob(point_bytes(com[e]) in datas, '%s:commitment:%s' % (key, e), 'the commitment for %s is absorbed' % e,
                 f.where, 'expected the encoding of %s' % show(com[e])[:1500])
        bad = [l for l, (op, _, _) in zip(labels, ops) if op not in ('commit', 'commit64')]
        c.ob(not bad, key + ':only-absorbs', 'nothing is squeezed before the challenge', f.where, repr(bad))
        # What is absorbed besides: constants only.
        known = {point_bytes(pub[p]) for p in y.publics} | {point_bytes(com[e]) for e in com}
        extra = [l for l, d in zip(labels, datas) if d not in known and text(d) is None]
        c.ob(not extra, key + ':nothing-else', 'nothing but the statement and constants is absorbed', f.where, repr(extra))


def systems_(c):
    names = {}
    for y in systems():
        for side in ('create', 'verify'):
            one(c, y, side, names)
    for n, d in sorted(names.items()):
        c.ob(d.get('create') == d.get('verify'), n + ':sides', 'creating and verifying %s absorb the same labels' % n, '',
             repr(d))
    ids = [d['create'][0] for d in names.values() if 'create' in d]
    c.ob(len(set(ids)) == len(ids) == len(SYSTEMS), 'names', 'the proof systems have names distinct from one another', '',
         repr(ids))
    c.floor = 50


def protocols(c):
    """The labels with which the protocols start their transcripts."""
    from protocol import starts
    labels = starts(c)
    used = {}
    for (f, system, l) in labels:
        used.setdefault(l, set()).add(system)
    c.ob(labels and None not in used, 'protocols:constant', 'every protocol starts its transcript with a constant label', '',
         repr(labels))
    bad = [(l, v) for l, v in used.items() if len(v) > 1]
    c.ob(not bad, 'protocols:distinct', 'protocols with different proofs start with different labels (%s)' %
         ', '.join(sorted(str(x) for x in used)), '', repr(bad))
    c.ob(len(used) >= 3, 'protocols:all', 'the three protocols have labels', '', repr(labels))


PARTS = [systems_, protocols]
