"""What the checks share: finding the functions a property is about, analysing them, stating what must hold of every
way they may end, and reporting."""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import extract                                             # noqa: E402
from mir import World                                      # noqa: E402
from interp import *                                       # noqa: E402,F401,F403
from interp import Interp, State                           # noqa: E402
from terms import *                                        # noqa: E402,F401,F403

RESULT = 'core::result::Result'
OPTION = 'core::option::Option'
_worlds = {}
CONFIG = 'default'
CONFIGS = ('default', 'std')         # what the crates are for: without the standard library, and as tested
BUILD = []                           # those of them (and 'wasm') that compile
CACHES = []                          # of what is known of the program as compiled in a configuration


class Missing(Exception):
    """Something a property is anchored in does not exist."""


def switch(config):
    """From here on, the program as compiled in that configuration."""
    global CONFIG
    CONFIG = config
    for x in [_worlds] + CACHES:
        x.clear()


def world(crate):
    if crate not in _worlds:
        _worlds[crate] = World(os.path.join(extract.dump('wasm' if crate == 'wasm' else CONFIG), crate + '.json'))
    return _worlds[crate]


def last(path):
    """A::B<C>::D -> D"""
    path = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', path))
    return path.rstrip('>').split('::')[-1]


def tyname(w, i):
    """A short name of a type, without lifetimes, modules and references."""
    d = w.types[i]
    k = d['k']
    if k == 'adt':
        a = [tyname(w, x) for x in d['args'] if isinstance(x, int)]
        n = d['path'].split('::')[-1]
        return n + ('<%s>' % ', '.join(a) if a else '')
    if k in ('ref', 'ptr'):
        return tyname(w, d['to'])
    if k == 'slice':
        return '[%s]' % tyname(w, d['elem'])
    if k == 'array':
        return '[%s; %s]' % (tyname(w, d['elem']), d.get('len'))
    if k == 'tuple':
        return '(%s)' % ', '.join(tyname(w, x) for x in d['elems'])
    return d.get('s', k)


class Fn(object):
    def __init__(self, w, item):
        self.w, self.item = w, item
        self.path = item['path']
        self.inst = item['inst']
        self.name = item['name']
        self.where = rel(item.get('span') or '')

    @property
    def body(self):
        return self.w.body(self.inst)

    def argtypes(self):
        return [self.body.locals[i + 1]['ty'] for i in range(self.body.argc)]


def rel(span):
    return span.replace(extract.REPO + '/', '')


def self_name(w, it):
    if it.get('self_ty') is None:
        return None
    return tyname(w, it['self_ty'])


def functions(crate, own=None, name=None, trait=None, inputs=None, module=None):
    """The functions of a type (by the last part of its name), of a trait or of none, taking given types."""
    w = world(crate)
    r = []
    for it in w.items:
        if it['inst'] is None:
            continue
        if name is not None and it['name'] != name:
            continue
        if own is not None and self_name(w, it) != own:
            continue
        t = it.get('trait')
        if trait is None and t is not None:
            continue
        if trait not in (None, '*') and (t is None or t.split('::')[-1] != trait):
            continue
        if inputs is not None and [tyname(w, x) for x in it['inputs']] != list(inputs):
            continue
        if module is not None and ('::%s::' % module) not in it['path']:
            continue
        r.append(Fn(w, it))
    return r


def fn(crate, own, name, **kw):
    fs = functions(crate, own, name, **kw)
    if len(fs) != 1:
        raise Missing('%s function %s::%s%s in %s' % ('no' if not fs else 'more than one', own, name,
                                                      ' (%s)' % kw if kw else '', crate))
    return fs[0]


# ---------------------------------------------------------------- values

_fields = {}
CACHES.append(_fields)


def field_index(adt_path, name):
    """The position of a named field; names are looked for in every crate's types."""
    key = (adt_path, name)
    if key not in _fields:
        for c in extract.CRATES:
            w = world(c)
            for d in w.types:
                if d['k'] == 'adt' and d['path'] == adt_path and d['adt'] == 'struct':
                    for i, f in enumerate(d['variants'][0]['fields']):
                        _fields[(adt_path, f['name'])] = i
                    break
            if key in _fields:
                break
        else:
            raise Missing('no field %s of %s' % (name, adt_path))
    return _fields[key]


def F(v, *names):
    """A part of a value, by names of fields (or indices)."""
    for n in names:
        if v.t == 'tup':
            v = v.a[0][n]
            continue
        if v.t != 'adt':
            raise Missing('field %s of %s' % (n, show(v)[:80]))
        i = n if isinstance(n, int) else field_index(v.a[0], n)
        v = v.a[2][i]
    return v


def with_fields(v, **kw):
    fs = list(v.a[2])
    for n, x in kw.items():
        n = n[1:] if n.startswith('_') else n
        fs[int(n) if n.isdigit() else field_index(v.a[0], n)] = x
    return adt(v.a[0], v.a[1], fs)


def is_ok(o):
    return o[0] == 'ret' and o[1].t == 'adt' and o[1].a[0] in (RESULT, OPTION) and \
        o[1].a[1] == (0 if o[1].a[0] == RESULT else 1)


def is_err(o):
    return o[0] == 'ret' and o[1].t == 'adt' and o[1].a[0] in (RESULT, OPTION) and not is_ok(o)


def payload(o):
    return o[1].a[2][0]


def elem(s, i=0, facts=None):
    from facts import Facts
    return seq_index(facts or Facts(), s, I(i))


def scalar(name):
    return patom(E('in', name))


def point(name):
    return latom(E('in', name))





def draw_of(p):
    """(generator, number) if a scalar is exactly one value drawn from a generator."""
    if p.t == 'poly' and len(p.a[0]) == 1 and p.a[0][0][1] == 1:
        m = p.a[0][0][0]
        if len(m) == 1 and m[0][1] == 1:
            e = m[0][0].a[0]
            if e.t == 'e' and e.a[0] == 'rand':
                return e.a[1], e.a[2]
    return None


def multiple_of(l, b):
    """The scalar a group element is a multiple of another (a single atom) by, or None."""
    if l.t != 'lin' or b.t != 'lin' or len(b.a[0]) != 1 or b.a[0][0][1] is not ONE:
        return None
    if len(l.a[0]) != 1 or l.a[0][0][0] is not b.a[0][0][0]:
        return None
    return l.a[0][0][1]


def from_arg(gen, name):
    """Whether a generator is the one passed as the argument of that name."""
    return gen is E('deref', E('in', name))


def msum(n, f):
    """The sum of scalars f(i) over i < n."""
    k = ia(E('idx'), 0, BIG)
    return psum(k, n, f(I(k)))


def row(n, f):
    k = ia(E('idx'), 0, BIG)
    return gen(k, n, f(I(k)))


def at(s, i):
    """Element i of a row which is one segment of a base, or of any row for constant i."""
    from facts import Facts
    if len(s.a[0]) == 1 and s.a[0][0][0] == 'sub':
        g = s.a[0][0]
        return element(g[1], iadd(g[2], i))
    if len(s.a[0]) == 1 and s.a[0][0][0] == 'gen' and iconst(s.a[0][0][4]) == 1:
        pass
    return seq_index(Facts(), s, I(i))


# ---------------------------------------------------------------- running

class Run(object):
    """All the ways a function may end on some arguments."""

    def __init__(self, f, args=None, st=None, hooks=None, ip=None):
        self.f = f
        self.ip = ip or Interp(f.w)
        self.ip.hooks.update(hooks or {})
        self.st = st.copy() if st is not None else State()
        body = f.body
        un = self.ip.unknown_args(self.st, body)
        self.names = [body.locals[i + 1]['name'] for i in range(body.argc)]
        self.args = [un[i] if args is None or i >= len(args) or args[i] is None else args[i]
                     for i in range(body.argc)]
        self.outs = self.ip.analyse(f.inst, list(self.args), self.st)

    def arg(self, i, st=None):
        """What an argument (a reference to it) is."""
        return self.ip.deref(st or self.st, self.args[i])


def has_panics(outs):
    return [(s, o) for s, o in outs if o[0] == 'panic']


def possible(st, conds):
    """Whether conditions, each (condition, truth), may hold together in a state: the state then, or None."""
    s = st.copy()
    for c, t in conds:
        if not s.assume(c, t):
            return None
    return s


def holds(st, c, truth=True):
    """Whether a state implies a condition."""
    c = st.norm(c)
    d = st.decide(c)
    if d is not None:
        return d is truth
    s = st.copy()
    if not s.assume(c, not truth):
        return True
    # Conjunctions which were found not to hold, and now would.
    return any(x.t == 'and' and not t and s.facts.decide(s.norm(x.a[0])) and s.facts.decide(s.norm(x.a[1]))
               for x, t in s.facts.lits.items())


def same(st, a, b):
    """Whether two values are the same in a state."""
    a, b = st.norm(a), st.norm(b)
    if a is b:
        return True
    if a.t == 'seq' and b.t == 'seq' and same_rows(st, a, b):
        return True
    try:
        c = equal(a, b)
    except Exception:
        return False
    if not is_cond(c):
        return False
    return holds(st, c)


def known_rows(st):
    """Parts of unknown rows which were found to be equal to literal ones: {base: [(from, to, row)]}."""
    r = {}
    for c, t in st.facts.lits.items():
        if c.t == 'seqeq' and t:
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                at_ = 0
                for g in x.a[0]:
                    n = iconst(seglen(g))
                    if n is None:
                        break
                    if g[0] == 'sub' and iconst(g[2]) is not None:
                        i = iconst(g[2])
                        r.setdefault(g[1], []).append((i, i + n, seq_sub(st.facts, y, I(at_), I(n))))
                    at_ += n
    return r


def same_rows(st, a, b):
    """Whether two rows of the same constant length have the same elements, taking into account what parts of them are
    known to be."""
    n = iconst(slen(a))
    if n is None or n > 4096 or iconst(slen(b)) != n:
        return False
    rows = known_rows(st)

    def parts(s):
        """[(from, to, segment or None, base, offset)]"""
        r, at_ = [], 0
        for g in s.a[0]:
            k = iconst(seglen(g))
            if k is None:
                return None
            if g[0] == 'sub' and iconst(g[2]) is not None:
                r.append((at_, at_ + k, g[1], iconst(g[2])))
            else:
                r.append((at_, at_ + k, None, None))
            at_ += k
        return r
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return False
    cuts = {0, n}
    for p in (pa, pb):
        for f, t, bs, off in p:
            cuts |= {f, t}
            for i, j, y in rows.get(bs, []):
                cuts |= {f + x - off for x in (i, j) if 0 < x - off < t - f}
    cuts = sorted(cuts)

    def piece(s, ps, f, t):
        for f0, t0, bs, off in ps:
            if f0 <= f and t <= t0 and bs is not None:
                lo, hi = off + f - f0, off + t - f0
                for i, j, y in rows.get(bs, []):
                    if i <= lo and hi <= j:
                        return seq_sub(st.facts, y, I(lo - i), I(hi - lo))
        return seq_sub(st.facts, s, I(f), I(t - f))
    for f, t in zip(cuts, cuts[1:]):
        x, y = piece(a, pa, f, t), piece(b, pb, f, t)
        if x is y:
            continue
        for i in range(t - f):
            u, v = seq_index(st.facts, x, I(i)), seq_index(st.facts, y, I(i))
            if u is not v and not holds(st, equal(u, v)):
                return False
    return True


# ---------------------------------------------------------------- reporting

class Check(object):
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obligations = []     # (key, ok, what, where)
        self.functions = set()
        self.floor = 1
        self.config = 'default'
        self.configs = []
        self.rule = ''
        self.extra = {}
        self.ips = []

    def run(self, f, *a, **kw):
        r = Run(f, *a, **kw)
        self.functions.add(f.path)
        self.ips.append(r.ip)
        return r

    def ob(self, ok, key, what, where='', detail=''):
        if self.config == 'std':
            what = 'with the feature std, ' + what
        self.obligations.append((key, bool(ok), what, where, detail))
        return ok

    def no_panic(self, r, key=None, allow=()):
        f = r.f
        bad = [(s, o) for s, o in has_panics(r.outs) if not any(a in '%s %s' % (o[1], o[2][0]) for a in allow)]
        key = key or short(f)
        if not bad:
            self.ob(True, key + ':no-panic', '%s never panics' % short(f), f.where)
        for s, o in bad[:3]:
            self.ob(False, key + ':no-panic:' + site_key(o), '%s may panic: %s in %s' % (short(f), o[1], o[2][0]),
                    rel(o[2][1]), conditions(s))
        return not bad

    def exactly_when(self, r, conds, key, what, accept=is_ok):
        """Accepts if and only if the conditions hold: (condition, truth, name)."""
        f = r.f
        good = True
        for s, o in r.outs:
            if o[0] == 'panic':
                if possible(s, [(c, t) for c, t, _ in conds]) is not None:
                    good = self.ob(False, '%s:panic:%s' % (key, site_key(o)), '%s panics instead of %s' %
                                   (short(f), what), rel(o[2][1]), conditions(s))
                continue
            if accept(o):
                for c, t, n in conds:
                    if not holds(s, c, t):
                        good = self.ob(False, '%s:accepts-without:%s' % (key, n), '%s may succeed although not: %s'
                                       % (short(f), n), f.where, conditions(s) + '\nneeded: ' + show(s.norm(c)))
            else:
                p = possible(s, [(c, t) for c, t, _ in conds])
                if p is not None:
                    good = self.ob(False, key + ':refuses', '%s may fail although everything it needs holds (%s)'
                                   % (short(f), what), f.where, conditions(s))
        if not any(accept(o) for s, o in r.outs):
            good = self.ob(False, key + ':never', '%s never succeeds' % short(f), f.where)
        if good:
            self.ob(True, key + ':iff', '%s succeeds if and only if %s' % (short(f), '; '.join(n for _, _, n in conds)
                                                                          or what), f.where)
        return good

    def each(self, r, pred, key, what, test):
        """test(state, outcome) of every outcome satisfying pred."""
        n = 0
        bad = None
        for s, o in r.outs:
            if pred(o):
                n += 1
                x = test(s, o)
                if x is not True and x is not None:
                    bad = (s, o, x)
        if bad:
            s, o, x = bad
            self.ob(False, key, '%s: not so: %s' % (short(r.f), what), r.f.where,
                    '%s\nresult: %s\n%s' % (x if isinstance(x, str) else '', show(o[1])[:1500], conditions(s)))
        else:
            self.ob(n > 0, key, '%s: %s' % (short(r.f), what), r.f.where, '' if n else 'no such outcome')
        return not bad and n > 0


def short(f):
    return f.path.replace('signal_credential::', '').replace('aeonflux::', '').replace('core::', '')


def site_key(o):
    return '%s@%s' % (o[1], o[2][0].split('::')[-1])


def conditions(s, n=30):
    return 'when:\n' + '\n'.join('  %s%s' % ('' if t else 'not ', show(c)[:400]) for c, t, _, _ in s.conds[-n:])


def load_known():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)


def report(c, tier, seed):
    """Prints what was found, writes the evidence; the exit status."""
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    pid = c.pid
    known = [k for k in load_known()['findings'] if k['property'] == pid]
    bad = [o for o in c.obligations if not o[1]]
    kn, new = [], []
    for o in bad:
        m = [k for k in known if k['key'] == o[0]]
        (kn if m else new).append((o, m[0] if m else None))
    seen = set()
    for o, k in kn:
        if k['key'] not in seen:
            seen.add(k['key'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    replay = os.path.join(ev_dir, pid + '.violation.txt')
    if os.path.exists(replay):
        os.remove(replay)
    if new:
        with open(replay, 'w') as f:
            for o, _ in new:
                f.write('[%s] %s\n  at %s\n%s\n\n' % (o[0], o[2], o[3], o[4]))
        for o, _ in new[:10]:
            print('  %s: %s  (%s)' % (o[0], o[2], o[3]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    done = sum(1 for o in c.obligations if o[1])
    visited = set(c.functions)
    blocks = 0
    for ip in c.ips:
        visited |= {str(x) for x in ip.visited.values()}
        blocks += 400000 - ip.budget
    cov = {'explanation': c.rule, 'obligations': len(c.obligations), 'discharged': done,
           'known_findings': len(kn), 'entry_functions': sorted(short_path(p) for p in c.functions),
           'functions_analysed': len(visited), 'basic_blocks_interpreted': blocks,
           'samples': [{'obligation': o[0], 'statement': o[2], 'at': o[3], 'holds': o[1]} for o in c.obligations[:12]]}
    cov['configurations'] = c.configs
    cov.update(c.extra)
    with open(os.path.join(ev_dir, pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
                   'violations': len(new), 'wall_s': round(time.time() - c.t0, 2)}, f, indent=1)
        f.write('\n')
    print('%s: %d of %d obligations hold%s; %d functions, %.1f s' % (
        pid, done, len(c.obligations), ', %d known findings' % len(kn) if kn else '', len(visited),
        time.time() - c.t0))
    return 1 if new else 0


def short_path(p):
    return p[:160]


# ---------------------------------------------------------------- making arguments

def make(w, t, v):
    """A value of a type: a term, or a dict of its fields; references to it are made where the type has them."""
    d = w.types[t]
    if d['k'] == 'ref':
        return vref(make(w, d['to'], v))
    if isinstance(v, N):
        return v
    if isinstance(v, dict):
        if d['k'] != 'adt' or d['adt'] != 'struct':
            raise Missing('a struct was expected where %s is' % d['s'])
        fs = d['variants'][0]['fields']
        names = [f['name'] for f in fs]
        if set(names) != set(v):
            raise Missing('%s has the fields %s, not %s' % (d['path'], names, sorted(v)))
        return adt(d['path'], 0, [make(w, f['ty'], v[f['name']]) for f in fs])
    raise Missing('cannot make %r' % (v,))


def mutable(st, name, v):
    """A mutable reference to a new variable."""
    cell = ('x', name)
    st.mem[cell] = v
    return ref(cell)


def read(st, name):
    return st.mem[('x', name)]


def args_by_type(f, st, vals):
    """Arguments by the short names of their types; the others are unknowns. A list gives those of the same type in
    order."""
    left = {k: list(v) if isinstance(v, list) else v for k, v in vals.items()}
    used = set()
    r = []
    for t in f.argtypes():
        k = tyname(f.w, t)
        v = left.get(k)
        if isinstance(v, list):
            v = v.pop(0) if v else None
        if v is not None:
            used.add(k)
            if isinstance(v, N) and v.t in ('ref', 'symref') and f.w.types[t]['k'] != 'ref':
                raise Missing('%s does not take %s by reference' % (f.path, k))
            if not (isinstance(v, N) and v.t in ('ref', 'symref')):
                v = make(f.w, t, v)
        r.append(v)
    miss = set(vals) - used
    if miss:
        raise Missing('%s does not take %s' % (f.path, ', '.join(sorted(miss))))
    return r


def then(c, outs, pick, go):
    """Continues every outcome which satisfies pick: [(state, outcome)] of go(state, value)."""
    r = []
    for s, o in outs:
        if pick(o):
            r += go(s.copy(), o)
    return r


NONE = adt(OPTION, 0, ())
