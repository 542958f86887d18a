"""Two analyses of all code of the four crates, with and without the standard library. Effects: every function mentioned in
any body (called, or used as a value) and every static referred to is judged by the crate and module that defines it; what
reaches a clock, the environment, files, the network, threads, cells, atomics, foreign functions, or any static which may
change, is a violation, as is randomness of the operating system outside the creation of proofs. Printing: every function
users can reach from which a place that formats a message is reachable is analysed on unknown arguments, with the scalars
in secret values, and bytes handed to decoders of secret values, marked; no value formatted may contain one. Only the
implementations of Debug and Display, which print what they are asked to, are exempt."""
from codec import *
from protocol import *
import lib
import c23
import c32
from c23 import Marking, Secrets
from c08 import bodies, fnpaths

OURS = ('aeonflux', 'signal_credential', 'credential', 'wasm')
PURE = ('core', 'alloc', 'curve25519_dalek', 'merlin', 'bincode', 'serde', 'clear_on_drop', 'subtle', 'sha2', 'digest',
        'failure', 'generic_array', 'rand_core', 'rand', 'wasm_bindgen', 'byteorder', 'libc')
# The parts of the standard library that have no effect but a message, memory, or a panic.
STD = r'^<*(std::io::stdio::_e?print|std::panicking::|std::error::|std::collections::|std::f64::|std::f32::|std::ascii::)'
IMPURE = r'core::sync::|core::cell::|alloc::sync::|core::time::|core::intrinsics::(::)?(volatile|atomic)|core::ptr::(read|write)_volatile|' \
    r'rand::rngs::(os|entropy|jitter)|rand::(rngs::)?(thread_rng|random)|rand::FromEntropy|core::arch::|wasm_bindgen::(memory|throw)|' \
    r'core::sync::atomic'
OS = 'rand::rngs::thread::thread_rng'
WORLDS = (('default', 'aeonflux'), ('default', 'signal_credential'), ('default', 'credential'), ('std', 'aeonflux'),
          ('std', 'signal_credential'), ('std', 'credential'), ('wasm', 'wasm'))


class Using(object):
    """The program as compiled in a configuration."""

    def __init__(self, config):
        self.config = config

    def __enter__(self):
        self.old = dict(lib._worlds)
        lib._worlds.clear()
        lib._worlds.update(_kept.setdefault(self.config, {}))
        self.was = lib.CONFIG
        lib.CONFIG = self.was if self.config == 'wasm' else self.config

    def __exit__(self, *a):
        _kept[self.config] = dict(lib._worlds)
        lib._worlds.clear()
        lib._worlds.update(self.old)
        lib.CONFIG = self.was


_kept = {}


def functions_in(x, out):
    """The functions a body refers to: (what is written, what it resolves to, its crate, whether its source is known)."""
    if isinstance(x, dict):
        f = x.get('fn')
        if isinstance(f, dict):
            out.append(f)
        for v in x.values():
            functions_in(v, out)
    elif isinstance(x, list):
        for v in x:
            functions_in(v, out)
    return out


def statics_in(x, out):
    if isinstance(x, dict):
        b = x.get('b')
        if isinstance(b, list) and b and b[0] == 's':
            out.append(b)
        for v in x.values():
            statics_in(v, out)
    elif isinstance(x, list):
        for v in x:
            statics_in(v, out)
    return out


def judged(f):
    """What is wrong with using a function, or None."""
    path = f.get('rpath') or f['path']
    krate = f.get('rkrate') or f['krate']
    for p in (path, f['path']):
        if re.search(IMPURE, p) and p != OS:
            return 'depends on or changes something outside its arguments'
    if krate in OURS:
        if f.get('inst') is None and f.get('kind') == 'item':
            return 'is not written in these crates'
        return None
    if krate == 'std':
        return None if re.match(STD, path) else 'is not known to be without effects'
    return None if krate in PURE else 'belongs to a crate not known to be without effects'


def effects(c):
    n = k = 0
    entropy = set()
    for config, crate in WORLDS:
        if config not in lib.BUILD:
            continue
        with Using(config):
            w = world(crate)
        bad = {}
        for x in w.d['insts']:
            if x['krate'] not in OURS:
                continue
            n += 1
            for b in bodies(x):
                for f in functions_in(b['blocks'], []):
                    k += 1
                    r = judged(f)
                    if r:
                        bad[x['path'], f.get('rpath') or f['path']] = (r, x['span'])
                    if (f.get('rpath') or f['path']) == OS:
                        entropy.add(x['path'])
                for s in statics_in(b['blocks'], []):
                    k += 1
                    value = s[3] if len(s) > 3 else None
                    if value is None and not s[1].startswith('curve25519_dalek::constants::'):
                        bad[x['path'], s[1]] = ('is not known never to change', x['span'])
                for l in b['locals']:
                    d = w.types[l['ty']]
                    if d['k'] == 'fndef' and re.search(IMPURE, d.get('path') or '') and d.get('path') != OS:
                        bad[x['path'], d['path']] = ('depends on or changes something outside its arguments', x['span'])
        for (p, q), (r, sp) in sorted(bad.items())[:10]:
            c.ob(False, '%s uses %s' % (short_path(p), short_path(q)), '%s, which %s uses, %s' % (q, p, r), str(sp))
        c.ob(not bad, 'effects:%s:%s' % (config, crate), 'nothing in %s (%s) depends on or changes anything but its arguments'
             % (crate, config))
    # Proofs reseed their generator from the operating system; nothing else may use it.
    own = {p for p in entropy if not re.match(r'aeonflux::proofs::\w+::Proof::create', re.sub(r'[<>]', '', p))}
    c.ob(not own, 'entropy', 'only creating proofs draws on the operating system', '', ', '.join(sorted(own)))
    c.ob(n >= 600 * sum(x in lib.BUILD for x in lib.CONFIGS), 'bodies', '%d bodies, with %d references to functions and statics, were examined' % (n, k))


def short_path(p):
    return re.sub(r'<impl [^>]*>::', '', p)[-80:]


# ---------------------------------------------------------------- messages

PRINTS = ('core::fmt::ArgumentV1::new', 'core::fmt::ArgumentV1::from_usize')


def formatter(x):
    t = x.get('impl_trait')
    return t is not None and 'core::fmt::' in str(t) or '::fmt::' in x['path'].split(' as ')[-1] and 'core::fmt' in x['path']


def reaching(w):
    """The bodies from which a place that formats a message is reachable, and the number of these places."""
    insts = w.d['insts']
    sites = 0
    out = {}
    todo = []
    for i, x in enumerate(insts):
        fs = [f for b in bodies(x) for f in functions_in(b['blocks'], [])]
        # Closures belong to what they are written in.
        for f in fs:
            if f.get('inst') is not None:
                out.setdefault(f['inst'], set()).add(i)
        if x['krate'] in OURS and not exempt(w, x):
            m = [f for f in fs if f['path'] in PRINTS]
            if m:
                sites += len(m)
                todo.append(i)
    parents = {}
    for i, x in enumerate(insts):
        parents.setdefault(x['path'], []).append(i)
    seen = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo += out.get(i, ())
        x = insts[i]
        if x.get('closure') or '{{closure}}' in x['path']:
            todo += parents.get(x['path'].split('::{{closure}}')[0], ())
    return seen, sites


def exempt(w, x):
    t = x.get('impl_trait')
    return t is not None and str(t).startswith('core::fmt::')


def secretive(w, t, deep=0):
    """Whether values of a type hold secret scalars."""
    d = w.types[t]
    if d['k'] == 'ref':
        return secretive(w, d['to'], deep + 1)
    if d['k'] in ('array', 'slice'):
        return secretive(w, d['elem'], deep + 1)
    if d['k'] == 'tuple':
        return any(secretive(w, x, deep + 1) for x in d['elems'])
    if d['k'] != 'adt' or deep > 8:
        return False
    if d['path'] == SCALAR:
        return True
    if d['path'].split('::')[-1] in c23.PUBLIC or d['path'].split('::')[-1] == 'CredentialRequest':
        return False
    if any(isinstance(a, int) and secretive(w, a, deep + 1) for a in d['args']):
        return True
    if d['path'].split('::')[0] not in OURS:
        return False
    return any(secretive(w, f['ty'], deep + 1) for v in d['variants'] for f in v['fields'])


def messages(c):
    total = entries = seen = 0
    for config, crate in WORLDS:
        if config not in lib.BUILD or config == 'default' and 'std' in lib.BUILD:
            continue
        with Using(config):
            w = world(crate)
            reach, sites = reaching(w)
            total += sites
            for it in w.items:
                if it['inst'] is None or it['inst'] not in reach or not it['reachable'] and not it.get('no_mangle'):
                    continue
                f = Fn(w, it)
                if (it.get('trait') or '').startswith('core::fmt::'):
                    continue
                entries += 1
                seen += one(c, f, config)
    c.ob(entries >= 1, 'messages', '%d functions reaching %d places that format messages were examined; %d values formatted'
         % (entries, total, seen))


def one(c, f, config):
    ip = Marking(f.w)
    printed = []

    def argument(ip2, st, g, args, site, dty):
        v = st.norm(ip.deref(st, args[0]))
        for _ in range(4):
            if v.t not in ('ref', 'symref', 'vref'):
                break
            v = st.norm(ip.deref(st, v))
        printed.append((v, site))
        return NotImplemented
    h = Nizk().hooks
    args = None
    if config == 'wasm':
        l = c32.Lib(c, f)
        h = c32.hooks(l)
        args = [adt(c32.JS, 0, (I(ia(E('in', 'js', i), 0, 2 ** 32 - 1)),)) if tyname(f.w, t) == 'JsValue' else None
                for i, t in enumerate(f.argtypes())]
    for p in PRINTS:
        h[p] = argument
    own = self_name(f.w, f.item) if f.item.get('self_ty') is not None else None
    r = Run(f, args, hooks=h, ip=ip) if config != 'wasm' else None
    if r is None:
        r = l.r = Run(f, args, hooks=h, ip=ip)
    c.functions.add(f.path)
    c.ips.append(ip)
    # Bytes given to what makes a secret value are its encoding (or what it is made from), and so are buffers from outside.
    outside = f.item['path'].split('::')[0] in ('credential', 'wasm')
    d = f.w.types[f.item['output']]
    if d['k'] == 'adt' and d['path'] in (RESULT, OPTION):
        d = f.w.types[d['args'][0]]
    secret_bytes = set(rows(r.args)) if secretive(f.w, f.w.types.index(d)) else set()
    public = decoders_of_public(f.w)
    sec = Secrets(ip)
    bad = []
    for v, site in printed:
        e = sec.within(v)
        if e is None and (site[0] if site else None) not in public:
            e = next((x for x in rows([v]) if outside or x in secret_bytes), None)
        if e is not None:
            bad.append((e, v, site))
    key = short(f)
    c.ob(not bad, '%s:prints' % key, 'nothing %s prints contains a secret' % key, f.where,
         '\n'.join('%s is printed in %s at %s' % (show(v)[:200], s[0], s[1]) for e, v, s in bad[:3]))
    return len(printed)


def decoders_of_public(w):
    """The decoders of types which hold no secrets."""
    r = set()
    for it in w.items:
        d = w.types[it['output']] if it['inst'] is not None else {'k': None}
        if it['name'] == 'from_bytes' and d['k'] == 'adt' and d['path'] == RESULT and not secretive(w, d['args'][0]):
            r.add(it['path'])
    for x in w.d['insts']:
        if x['name'] == 'from_bytes' and x['path'].split('::')[-2] in ('SystemParameters', 'PublicKey', 'Commitment', 'Tag'):
            r.add(x['path'])
    return r


def rows(x, out=None):
    """The unknown rows of bytes in terms."""
    out = [] if out is None else out
    if isinstance(x, N):
        if x.t in ('base', 'any') or x.t == 'e' and x.a[0] == 'in':
            out.append(x)
        if x.t in ('len', 'int'):
            return out
        rows(x.a, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            rows(y, out)
    return out


CONFIGS = False          # it looks at every configuration itself
PARTS = [effects, messages]
