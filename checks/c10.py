"""For each of the five proof systems, Proof::create on unknown secrets and public values built from its equations and
then Proof::verify on the proof, the same public values and a transcript in the same state are followed as one program;
every way this may end must be acceptance, by equality of normal forms of the recomputed commitments, for all secrets,
bases and blindings at once."""
from nipk import *


def one(c, y):
    sec, pub = honest(y)
    r = run_create(c, y, sec, pub)
    c.no_panic(r)
    n = 0
    for s, o in r.outs:
        if o[0] != 'ret':
            continue
        n += 1
        proof = o[1]
        s = s.copy()
        t2 = mutable(s, 'transcript2', T0)
        v = c.run(y.verify, args(y.verify, s, self=proof, transcript=t2, publics=pub), s)
        c.no_panic(v)
        bad = [(s2, o2) for s2, o2 in v.outs if not is_ok(o2)]
        c.ob(not bad and v.outs, y.name + ':complete', 'every honestly created %s proof verifies' % y.name,
             y.verify.where, conditions(bad[0][0]) if bad else '')
        d = [s2 for s2, o2 in v.outs if read(s2, 'transcript') is not read(s2, 'transcript2')]
        c.ob(not d, y.name + ':transcripts', 'creating and verifying %s leave the transcript in the same state' % y.name,
             y.verify.where, '%s\n%s' % (show(read(d[0], 'transcript')), show(read(d[0], 'transcript2'))) if d else '')
    c.ob(n, y.name + ':creates', '%s::Proof::create returns' % y.name, y.create.where)


def systems_(c):
    for y in systems():
        one(c, y)
    c.floor = 5 * 5


PARTS = [systems_]
