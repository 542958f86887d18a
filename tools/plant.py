#!/usr/bin/env python3
"""Writes planted bugs from a specification, and confirms them.

    plant.py write SPEC.py            writes /verif/seeded/<id>/ for every entry of SPEC.BUGS
    plant.py confirm [-c C01,C02] ID… builds /repo with each, runs the stable tests, the demonstration (with and without
                                      the change) and the check of its property (and others)

An entry: dict(id, property, needs, breaks, edits=[(file, old, new[, count])], and rust= (source of a program using the
crates), c= (C source linked with the library), or py= (a Python program with the path of libcredential.so in argv[1]).
Other programs: sh=."""
import difflib
import importlib.util
import json
import os
import subprocess
import sys

REPO, OUT = '/repo', '/verif/seeded'

RUST = r'''#!/bin/bash
# Builds the program beside this file against the crates built by build.sh, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
D=/repo/target/signal-credential/debug/deps
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
lib() { # CRATE [VERSION]: the newest library of a crate
    for f in $(ls -t $D/lib$1-*.rlib); do
        if [ -z "$2" ] || grep -q "vendor/$3-$2" "$D/$(basename "$f" .rlib | sed s/^lib//).d"; then echo "$f"; return; fi
    done
}
cd "$tmp" || exit 2
if ! rustc --edition 2015 -A warnings -L dependency=$D \
    --extern signal_credential=$(lib signal_credential) --extern aeonflux=$(lib aeonflux) \
    --extern curve25519_dalek=$(lib curve25519_dalek) --extern merlin=$(lib merlin) --extern bincode=$(lib bincode) \
    --extern rand=$(lib rand 0.5 rand) --extern rand_core=$(lib rand_core 0.2 rand_core) --extern serde=$(lib serde) \
    --extern serde_json=$(lib serde_json) --extern sha2=$(lib sha2) \
    -o "$tmp/demo" "$here/demo.rs" 2> "$tmp/log"; then
    cat "$tmp/log" >&2
    exit %(nobuild)d
fi
timeout 250 %(run)s "$tmp/demo"
'''
PRELUDE = r'''#![allow(non_snake_case, unused)]
extern crate aeonflux; extern crate bincode; extern crate curve25519_dalek; extern crate merlin; extern crate rand;
extern crate rand_core; extern crate serde; extern crate serde_json; extern crate sha2; extern crate signal_credential;
use aeonflux::amacs; use aeonflux::elgamal; use aeonflux::pedersen; use aeonflux::proofs;
use aeonflux::credential::*; use aeonflux::issuer::*; use aeonflux::nonces::*; use aeonflux::user::User;
use aeonflux::parameters::SystemParameters;
use signal_credential::issuer::SignalIssuer; use signal_credential::user::SignalUser;
use signal_credential::phone_number::*;
use signal_credential::credential::{SignalCredentialIssuance, SignalCredentialPresentation, VerifiedSignalCredential};
use curve25519_dalek::constants::*; use curve25519_dalek::ristretto::*; use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript; use rand::{thread_rng, ChaChaRng, SeedableRng};
fn seeded(n: u8) -> ChaChaRng { ChaChaRng::from_seed([n; 32]) }
fn params() -> SystemParameters { SystemParameters::hunt_and_peck(&mut thread_rng()) }
'''
C = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
gcc -w -I /repo/ffi/src/include -o "$tmp/demo" "$here/demo.c" %(link)s || exit %(nobuild)d
timeout 250 "$tmp/demo"
'''
PY = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
timeout 250 python3 "$here/demo.py" /repo/target/ffi/debug/libcredential.so
'''


def load(path):
    s = importlib.util.spec_from_file_location('spec', path)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m.BUGS


def write(b):
    d = os.path.join(OUT, b['id'])
    os.makedirs(d, exist_ok=True)
    new = {}
    for e in b['edits']:
        f, old, nw = e[:3]
        cnt = e[3] if len(e) > 3 else 1
        t = new.get(f) or open(os.path.join(REPO, f)).read()
        if t.count(old) != cnt:
            raise SystemExit('%s: %d matches of %r in %s' % (b['id'], t.count(old), old[:60], f))
        new[f] = t.replace(old, nw)
    p = ''
    for f, t in new.items():
        o = open(os.path.join(REPO, f)).read()
        p += 'diff --git a/%s b/%s\n' % (f, f)
        p += ''.join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(p)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if 'rust' in b:
        src = b['rust'] if b.get('bare') else PRELUDE + b['rust']
        open(os.path.join(d, 'demo.rs'), 'w').write(src.rstrip() + '\n')
        sh = b.get('sh2') or RUST % {'nobuild': b.get('nobuild', 1), 'run': b.get('run', '')}
    elif 'c' in b:
        open(os.path.join(d, 'demo.c'), 'w').write(b['c'].strip() + '\n')
        sh = C % {'nobuild': b.get('nobuild', 1),
                  'link': '' if b.get('nolink') else '-L /repo/target/ffi/debug -l:libcredential.a -lpthread -ldl -lm'}
    elif 'py' in b:
        open(os.path.join(d, 'demo.py'), 'w').write(b['py'].strip() + '\n')
        sh = PY
    else:
        sh = b['sh']
    open(os.path.join(d, 'demo.sh'), 'w').write(sh)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True,
                          **kw)


def confirm(ids, checks):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    if run('git -C /repo status --porcelain').stdout.strip():
        raise SystemExit('/repo is not clean')
    good = True
    for i in ids:
        d = os.path.join(OUT, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        r = []
        a = run('git -C /repo apply %s/patch.diff' % d)
        if a.returncode:
            print(i, 'does not apply', a.stdout[-300:])
            continue
        try:
            b = run('bash /opt/vp/build.sh')
            r.append('builds' if b.returncode == 0 and 'as a whole' not in b.stdout and
                     'does not compile' not in b.stdout else 'BUILD FAILS: ' + b.stdout[-1500:])
            run('bash /opt/vp/test.sh /tmp/plant.json')
            res = json.load(open('/tmp/plant.json'))
            ok = set(res.get('passed', []))
            r.append('tests pass' if stable <= ok else 'TESTS FAIL: %s' % sorted(stable - ok))
            m = run('bash %s/demo.sh' % d, cwd='/repo')
            r.append('demo fails (%d: %s)' % (m.returncode, m.stdout.strip()[-200:].replace('\n', ' | ')) if m.returncode
                     else 'DEMO PASSES')
            for c in [meta['property']] + checks:
                if os.path.exists('/verif/checks/%s.py' % c.lower()):
                    k = run('python3 /verif/check.py %s quick' % c)
                    v = [x.strip() for x in k.stdout.splitlines() if not x.startswith(('VIOLATION', 'KNOWN'))]
                    r.append('%s: %s' % (c, ('caught {%s}' % v[0][:200]) if k.returncode == 1 else
                                         'MISSED (%d)' % k.returncode))
        finally:
            run('git -C /repo checkout -- .')
        print(i, '; '.join(r), flush=True)
        good = good and not any(x.isupper() for y in r for x in [y.split()[0]])
    b = run('bash /opt/vp/build.sh')
    for i in ids:
        m = run('bash %s/%s/demo.sh' % (OUT, i), cwd='/repo')
        if m.returncode:
            print(i, 'DEMO FAILS ON THE UNCHANGED TREE', m.returncode, m.stdout[-1500:])
    print('done')


if __name__ == '__main__':
    if sys.argv[1] == 'write':
        for b in load(sys.argv[2]):
            if len(sys.argv) < 4 or b['id'] in sys.argv[3:]:
                write(b)
                print('wrote', b['id'])
    else:
        a = sys.argv[2:]
        cs = []
        if a and a[0] == '-c':
            cs = a[1].split(',')
            a = a[2:]
        confirm(a or sorted(os.listdir(OUT)), cs)
