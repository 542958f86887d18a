"""The script wasm/src/credential.js is parsed, and each function it gives is followed along all its paths on unknown
arguments, from a state as at its start and one after any history: the table of values handed over holds unknown values
and free slots, and the views of the memory are missing or may be of a buffer which has been replaced since. The memory
may be replaced by every call into the module. On each path the export of the same name is called once, with the
arguments in order, byte arrays as the address and length of a copy, other values as what the script's own imports
take for that value; what is returned is the value whose reference the export gave; every copy is released once,
afterwards, with its length, also if the export traps; and the table has no slot more in use than before. Each function
given to the module is followed likewise, and does what its name says with the memory of the moment. Starting fetches the path
given and hands the module exactly the imports it asks for. The names and types are those of the Rust source, of the
declaration file and of the compiled module."""
from lib import *
import js
from js import *

CONFIGS = False
SCRIPT, TYPES, MODULE, SOURCE = ('wasm/src/credential.js', 'wasm/src/credential.d.ts', 'wasm/src/credential_bg.wasm',
                                 'wasm/src/js.rs')
IMPORTS = {'__wbindgen_object_drop_ref': 1, '__wbindgen_number_new': 1, '__wbindgen_json_parse': 2,
           '__wbindgen_json_serialize': 2, '__wbindgen_throw': 2}
STREAMING = ('known', Sym('function?', 'instantiateStreaming'))
RESERVED = [UNDEFINED, NULL, True, False]


class View(object):
    def __init__(self, kind, buffer, start=None, end=None):
        self.kind, self.buffer, self.start, self.end = kind, buffer, start, end


class Table(object):
    """An array of unknown length, of which the first elements, and what has been stored, are known."""
    def __init__(self, m, first):
        self.m, self.first = m, first
        self.size0 = I(ia(E('slots'), 4, 2 ** 26))
        self.size = self.size0
        self.stores, self.slots, self.free = [], {}, []

    def next_free(self):
        m, i = self.m, len(self.free)
        f = I(ia(E('free', i), 4, 2 ** 26))
        m.know(ige(self.size0, f), True)
        for g in self.free + m.used:
            m.know(ieq(f, g), False)
        self.free.append(f)
        return f

    def base(self, i):
        """What was there before."""
        m = self.m
        n = iconst(i)
        if n is not None and n < 4:
            return self.first[n]
        for k, f in enumerate(list(self.free)):
            if m.cond(ieq(i, f)):
                return self.free[k + 1] if k + 1 < len(self.free) else self.next_free()
        if i not in m.used:
            raise Unsupported('an unknown slot of the table in line %d' % m.line)
        if i not in self.slots:
            self.slots[i] = Obj({'obj': Sym('object', i), 'cnt': m.count})
        return self.slots[i]

    def get(self, i):
        m = self.m
        for j, v in reversed(self.stores):
            if m.cond(ieq(i, j)):
                return v
        if not m.cond(ilt(i, self.size0)):
            return UNDEFINED
        return self.base(i)

    def put(self, i, v):
        m = self.m
        if m.cond(ieq(i, self.size)):
            self.size = iadd(self.size, 1)
        elif not m.cond(ilt(i, self.size)):
            raise Unsupported('the table gets a hole in line %d' % m.line)
        self.stores.append((i, v))


class Host(Machine):
    """A machine with what a browser has, and the module."""

    def __init__(self, decisions):
        Machine.__init__(self, decisions)
        self.epoch, self.calm = 0, True
        self.used = []                    # slots which are in use, by assumption
        self.count = I(ia(E('count'), 1, 2 ** 20))
        self.allocs, self.calls, self.writes, self.words, self.bad = [], [], [], [], []
        self.multiples = set()
        self.given = self.fetched = None
        self.module = None
        self.inside = False
        g = self.globals.vars

        def native(n, f):
            g[n] = Native(n, f)
        for n, k in (('Uint8Array', 1), ('Uint32Array', 4), ('Int32Array', 4), ('Uint16Array', 2)):
            native(n, lambda b, *r, k=k: self.view(k, b, r))
        native('TextDecoder', lambda *a: self.coder('decoder', a))
        native('TextEncoder', lambda *a: self.coder('encoder', a))
        native('Error', lambda *a: Obj({'message': a[0] if a else UNDEFINED}, 'Error'))
        native('fetch', lambda p: Promise(Sym('response', p)))
        g['JSON'] = Obj({'parse': Native('parse', lambda t: Sym('parsed', t)),
                         'stringify': Native('stringify', lambda v: Sym('json', v if isinstance(v, (Sym, str)) else repr(v)))})
        g['Object'] = Obj({'assign': Native('assign', self.assign_all), 'freeze': Native('freeze', lambda o: o)})
        g['WebAssembly'] = Obj({'instantiateStreaming': Sym('function?', 'instantiateStreaming'),
                                'instantiate': Native('instantiate', lambda b, i: self.instantiate(b, i, False))})
        for n in ('self', 'window', 'globalThis'):
            g[n] = Obj()

    def know(self, c, truth):
        f = self.facts.assume(c, truth)
        if f is None:
            raise Infeasible()
        self.facts = f

    def assign_all(self, target, *sources):
        for s in sources:
            if not isinstance(s, Obj):
                raise Unsupported('Object.assign')
            for k, v in s.props.items():
                self.put(target, k, v)
        return target

    # ---------------- the memory

    def buffer(self):
        return Sym('buffer', self.epoch)

    def grown(self):
        if not self.calm:
            self.epoch += 1

    def view(self, k, b, rest):
        if not isinstance(b, Sym) or b.key[0] != 'buffer':
            raise Unsupported('a view of %r' % (b,))
        return View(k, b, *(list(rest) and [rest[0], iadd(rest[0], rest[1]) if len(rest) > 1 else None]))

    def current(self, v):
        now = self.buffer()
        return v.buffer == now or self.known.get(('==', frozenset((v.buffer, now)))) is True

    def coder(self, kind, a):
        return Obj({}, kind if not a or str(a[0]).lower() in ('utf-8', 'utf8') else kind + ' of another encoding')

    def aligned(self, a, k):
        return a in self.multiples and k in (1, 2, 4)

    def method(self, o, k):
        if isinstance(o, View):
            if k == 'set':
                return lambda a: self.written(o, *a)
            if k in ('subarray', 'slice'):
                return lambda a: View(o.kind, o.buffer, a[0], a[1])
        if isinstance(o, Obj) and o.cls == 'decoder' and k == 'decode':
            return lambda a: self.decoded(*a)
        if isinstance(o, Obj) and o.cls == 'encoder' and k == 'encode':
            return lambda a: Sym('utf8', a[0])
        if isinstance(o, Promise):
            if k == 'then':
                return lambda a: self.then(o, a[0])
            if k == 'catch':
                return lambda a: o
        if isinstance(o, Sym) and o.key[0] == 'response' and k == 'arrayBuffer':
            return lambda a: Promise(Sym('content', o))
        if isinstance(o, (Table, Arr)) and k == 'push':
            def push(a):
                for v in a:
                    if isinstance(o, Arr):
                        o.items.append(v)
                    else:
                        o.put(o.size, v)
                return self.get(o, 'length')
            return push
        if isinstance(o, Obj) and isinstance(o.props.get(k), Sym) and k == 'instantiateStreaming':
            return lambda a: self.instantiate(a[0], a[1], True)
        return Machine.method(self, o, k)

    def get(self, o, k):
        if isinstance(o, View):
            if k == 'buffer':
                return o.buffer
            if k == 'length' or k == 'byteLength':
                return I(ia(E('length', repr(o.buffer)), 0, 2 ** 32))
        if isinstance(o, Table):
            return o.size if k == 'length' else o.get(k)
        if o is self.module:
            return self.export(k)
        if isinstance(o, Sym):
            if k == 'length' and o.key[0] in ('arg', 'utf8'):
                return I(ia(E('bytes', repr(o)), 0, 2 ** 30))
            if o.key[0] == 'memory' and k == 'buffer':
                return self.buffer()
        return Machine.get(self, o, k)

    def put(self, o, k, v):
        if isinstance(o, Table):
            o.put(k, v)
        elif isinstance(o, Arr) and is_int(k) and iconst(k) is not None and iconst(k) <= len(o.items):
            o.items[iconst(k):iconst(k) + 1] = [v]
        elif isinstance(o, View):
            self.words.append((o, k, v, self.current(o)))
        else:
            Machine.put(self, o, k, v)

    def written(self, view, data, at=None):
        at = I(0) if at is None else at
        self.writes.append((at, data, view.kind, self.current(view) and view.start is None))
        return UNDEFINED

    def decoded(self, v):
        if not isinstance(v, View) or v.kind != 1 or not self.current(v):
            self.bad.append('text is decoded from a buffer which may have been replaced')
            return Sym('stale text')
        return Sym('text', v.start, v.end)

    def then(self, p, f):
        r = self.call(f, [p.value])
        return r if isinstance(r, Promise) else Promise(r)

    def instantiate(self, src, imports, streaming):
        if streaming:
            self.fetched = src.value if isinstance(src, Promise) else src
        else:
            self.fetched = src.key[1] if isinstance(src, Sym) and src.key[0] == 'content' else src
        self.given = imports
        self.module = Obj({}, 'module')
        inst = Obj({'exports': self.module})
        return Promise(Obj({'instance': inst, 'module': Obj()}))

    # ---------------- the module

    def export(self, k):
        if k == 'memory':
            return Sym('memory')
        if k == '__wbindgen_malloc':
            return Native(k, self.malloc)
        if k == '__wbindgen_free':
            return Native(k, self.free)
        if k in self.interface[1]:
            return Native(k, lambda *a: self.exported(k, a))
        return UNDEFINED

    def malloc(self, n):
        p = I(ia(E('address', len(self.allocs)), 8, 2 ** 30))
        self.multiples.add(p)
        self.grown()
        self.allocs.append({'at': p, 'size': n, 'freed': [], 'inside': self.inside})
        return p

    def free(self, p, n):
        for a in self.allocs:
            if a['at'] is p:
                a['freed'].append((n, len(self.calls)))
                break
        else:
            self.bad.append('what is released was not allocated')
        self.grown()
        return UNDEFINED

    def content(self, p, n):
        """What has been written where n bytes were allocated."""
        a = [a for a in self.allocs if a['at'] is p]
        if len(a) != 1 or a[0]['freed']:
            return None
        ws = [w for w in self.writes if w[0] is p]
        if not ws or a[0]['size'] is not n or not ws[-1][3] or ws[-1][2] != 1:
            return None
        d = ws[-1][1]
        return d if self.get(d, 'length') is n else None

    def imported(self, n, *args):
        f = self.given.props[js_module(self)].props.get(n) if self.given else None
        if not isinstance(f, (Fn, Native)):
            raise Throw('the module has no import ' + n)
        calm, inside = self.calm, self.inside
        self.calm = self.inside = True
        try:
            return self.call(f, list(args))
        finally:
            self.calm, self.inside = calm, inside

    def value_at(self, h):
        """What the module gets for a reference: whose text it is given."""
        pp = I(iatom(self, 'where', len(self.words)))
        self.multiples.add(pp)
        n = self.imported('__wbindgen_json_serialize', h, pp)
        return self.returned_text(n, pp)

    def returned_text(self, n, pp):
        ws = [w for w in self.words if w[0].kind == 4 and w[1] is div(pp, 4)]
        if not ws or not ws[-1][3] or not is_int(ws[-1][2]):
            return None
        t = self.content(ws[-1][2], n)
        if isinstance(t, Sym) and t.key[0] == 'utf8' and isinstance(t.key[1], Sym) and t.key[1].key[0] == 'json':
            return t.key[1].key[1]
        return None

    def exported(self, name, args):
        if self.inside:
            raise Unsupported('the module is entered from itself')
        call = {'name': name, 'args': args, 'roles': [], 'result': None, 'trapped': False}
        self.calls.append(call)
        if name != self.testing:
            return I(0)
        i = 0
        for kind in self.kinds:
            if kind == 'bytes':
                a = args[i:i + 2]
                call['roles'].append(('bytes', self.content(*a) if len(a) == 2 and all(map(is_int, a)) else None))
                i += 2
            else:
                h = args[i] if i < len(args) else None
                call['roles'].append(('value', self.value_at(h) if is_int(h) else None))
                if is_int(h):
                    self.imported('__wbindgen_object_drop_ref', h)
                i += 1
        call['count'] = i
        if self.decide(('traps',), 'the export traps'):
            call['trapped'] = True
            self.grown()
            raise Throw('trapped')
        for k, v in enumerate(RESERVED):
            if self.decide(('gives', k), 'the export gives %r' % v):
                call['result'] = v
                self.grown()
                return I(2 * k)
        if self.decide(('gives', 'number'), 'the export gives a number'):
            v = I(ia(E('number'), 0, 2 ** 50))
            h = self.imported('__wbindgen_number_new', v)
        else:
            p, n = I(ia(E('text'), 0, 2 ** 30)), I(ia(E('textlength'), 0, 2 ** 30))
            v = Sym('parsed', Sym('text', p, iadd(p, n)))
            h = self.imported('__wbindgen_json_parse', p, n)
        call['result'] = v
        self.grown()
        return h


def iatom(m, *key):
    return ia(E(*key), 0, 2 ** 30)


def js_module(m):
    return sorted({a for a, _ in m.interface[0]})[0]


js.Machine_ = Host


class Loaded(object):
    def __init__(self):
        R = extract.REPO
        for p in (SCRIPT, TYPES, MODULE):
            if not os.path.isfile(os.path.join(R, p)):
                raise Missing(p)
        t = parse(os.path.join(R, SCRIPT), os.path.join(R, TYPES))
        self.tree, self.declared = t['tree'], t['declared']
        self.interface = wasm_interface(os.path.join(R, MODULE))
        self.rust = {}
        for f in functions('wasm', None, None):
            if f.item['reachable']:
                ks = [tyname(f.w, x) for x in f.item['inputs']]
                self.rust[f.name] = ['bytes' if k == '[u8]' else 'value' if k == 'JsValue' else k for k in ks]


def load(m, L):
    """Run the script. The functions it gives."""
    m.interface = L.interface
    m.testing, m.kinds = None, []
    m.block(L.tree['body'], m.globals)
    f = None
    for n in ('self', 'window', 'globalThis'):
        f = f or m.globals.vars[n].props.get('wasm_bindgen')
    f = f or m.globals.vars.get('wasm_bindgen')
    if not isinstance(f, Fn):
        raise Missing('the function wasm_bindgen of the script')
    return f


def start(m, L, fresh):
    """A state in which the functions may be called. The functions."""
    f = load(m, L)
    m.known[STREAMING] = True
    m.call(f, [Sym('arg', 'path')])
    if m.module is None or not isinstance(m.given, Obj) or not isinstance(m.given.props.get(js_module(m)), Obj):
        raise Missing('a module started with imports')
    if not fresh:
        # Whatever is kept of the memory is there after these.
        pp = I(iatom(m, 'where', 'before'))
        m.multiples.add(pp)
        m.imported('__wbindgen_json_serialize', I(0), pp)
        m.call(m.getter(f, 'system_parameters_create'), [Sym('arg', 'before')])
    del m.allocs[:], m.calls[:], m.writes[:], m.words[:], m.bad[:]
    m.epoch += 1
    m.calm = False
    general(m, f)
    return f


def getter(self, f, n):
    v = getattr(f, 'props', {}).get(n)
    if not isinstance(v, Fn):
        raise Missing('the function %s of the script' % n)
    return v


Host.getter = getter


def general(m, f):
    """The table of values as it may be at any time."""
    envs, todo = [], [f] + [v for v in f.props.values()] + list(m.given.props[js_module(m)].props.values())
    for x in todo:
        e = getattr(x, 'env', None)
        while e is not None and e is not m.globals:
            if e not in envs:
                envs.append(e)
            e = e.parent
    tables = [(e, n) for e in envs for n, v in e.vars.items() if isinstance(v, Arr) and len(v.items) >= 4 and
              all(isinstance(x, Obj) and 'obj' in x.props for x in v.items[:4])]
    if len(tables) != 1:
        raise Missing('one table of values (not %d)' % len(tables))
    e, n = tables[0]
    t = Table(m, e.vars[n].items[:4])
    counters = [(a, k) for a in envs for k, v in a.vars.items() if is_int(v) and k not in a.consts]
    if len(counters) != 1:
        raise Missing('one variable with the next free slot (not %d)' % len(counters))
    m.table, m.head = t, counters[0]
    e.vars[n] = t
    a, k = counters[0]
    a.vars[k] = t.next_free()


def occupancy(m):
    """The slots in use now which were free, and the other way round; what else is wrong."""
    t = m.table
    wrong = []
    now = m.head[0].vars[m.head[1]]
    walked = []
    stores = []
    for j, v in t.stores:
        stores = [s for s in stores if not m.cond(ieq(s[0], j))] + [(j, v)]
    tail = None
    while True:
        if not is_int(now):
            return [], [], ['a free slot holds no number']
        if m.cond(ieq(now, t.size)):
            tail = len(t.free)
            for i, f in enumerate(t.free):
                if m.cond(ieq(f, t.size0)):
                    tail = i
            break
        if any(m.cond(ieq(now, w)) for w in walked):
            return [], [], ['the free slots form a ring']
        hit = [v for j, v in stores if m.cond(ieq(j, now))]
        if not hit:
            at = [i for i, f in enumerate(t.free) if f is now or m.cond(ieq(f, now))]
            if not at:
                return [], [], ['a slot in use counts as free']
            tail = at[0]
            break
        walked.append(now)
        now = hit[0]
        if len(walked) > 12:
            return [], [], ['the free slots do not end']
    free0 = t.free[:tail]
    n = 0
    new = []
    while not m.cond(ieq(iadd(t.size0, n), t.size)):
        new.append(iadd(t.size0, n))
        n += 1
        if n > 12:
            raise Unsupported('size of the table')
    was = [f for f in free0 if not m.cond(ieq(f, t.size0))] + new
    taken = [x for x in was if not any(m.cond(ieq(x, w)) for w in walked)]
    freed = [w for w in walked if not any(m.cond(ieq(x, w)) for x in was)]
    for j, v in stores:
        if not any(m.cond(ieq(j, x)) for x in was + walked):
            wrong.append('a slot in use is overwritten')
    # The end of the list must be where it was.
    if tail == len(t.free) and t.free and not any(m.cond(ieq(f, t.size0)) for f in t.free):
        wrong.append('free slots are forgotten')
    for i, o in enumerate(t.first):
        want = RESERVED[i]
        if not isinstance(o, Obj) or o.props.get('obj') is not want:
            wrong.append('the value of a reserved slot is changed')
    return taken, freed, wrong


def text(m):
    return 'on the path where ' + ('; '.join(m.log) or '(no conditions)')


def calls(c):
    """The functions which users call."""
    L = Loaded()
    for name in sorted(L.rust):
        kinds = L.rust[name]
        for fresh in (True, False):
            def run(m):
                f = start(m, L, fresh)
                m.testing, m.kinds = name, kinds
                args = [Sym('arg', 'arg%d' % i) for i in range(len(kinds))]
                m.args = args
                m.here = m.getter(f, name)
                try:
                    r = ('returns', m.call(m.here, args))
                except Throw as e:
                    r = ('throws', e.value)
                m.calm = True
                return r, occupancy(m)
            for m, r in paths(run):
                one_call(c, m, name, kinds, r)
        c.functions.add('%s: %s' % (SCRIPT, name))
    c.floor = 200


def one_call(c, m, name, kinds, r):
    (how, v), (taken, freed, wrong) = r
    where = '%s:%d' % (SCRIPT, m.here.node['loc']['start']['line'])

    def ob(ok, k, what):
        c.ob(ok, '%s:%s' % (name, k), '%s: %s' % (name, what), where, text(m))
    mine = [x for x in m.calls if x['name'] == name]
    ob(len(mine) == 1 and len(m.calls) == 1, 'once', 'calls the export of its name once and no other')
    for w in m.bad:
        ob(False, 'memory', 'not: ' + w)
    if not mine:
        return
    k = mine[0]
    ob(k.get('count') == len(k['args']), 'arity', 'passes the %s arguments the export takes (not %d)' % (k.get('count'), len(k['args'])))
    for i, (kind, got) in enumerate(k['roles']):
        ob(got == m.args[i], 'argument:%d' % i, 'argument %d reaches the export as %s (not %r)' %
           (i, 'a copy of its bytes' if kind == 'bytes' else 'the value it is', got))
    if k['trapped']:
        ob(how == 'throws', 'trap', 'does not hide a trap')
    else:
        want = k['result']
        ob(how == 'returns' and (v is want or isinstance(v, Sym) and v == want), 'result',
           'gives the value which the export returns (%r, not %s %r)' % (want, how, v))
        ob(not taken and not freed, 'references', 'leaves as many references as there were (%d more, %d fewer)' % (len(taken), len(freed)))
        for w in wrong:
            ob(False, 'table', 'not: ' + w)
    for a in m.allocs:
        if not a['inside']:
            ob(len(a['freed']) == 1 and a['freed'][0][0] is a['size'] and a['freed'][0][1] == len(m.calls), 'released',
               'releases each copy once, after the call, with its length')
    ob(sum(not a['inside'] for a in m.allocs) == kinds.count('bytes'), 'copies', 'makes a copy of each array of bytes')


def imports(c):
    """What the module calls."""
    L = Loaded()
    need, _ = L.interface
    for mod, n in sorted(need):
        c.ob(n in IMPORTS, 'import:' + n, 'it is known what the module\'s import %s does' % n, MODULE)
    p, n, number_ = I(ia(E('p'), 0, 2 ** 30)), I(ia(E('n'), 0, 2 ** 30)), I(ia(E('number'), 0, 2 ** 50))
    j = I(ia(E('slot'), 4, 2 ** 25))

    def each(name, k, fresh, body):
        def run(m):
            start(m, L, fresh)
            if k == 'used':
                # A slot in use.
                m.used.append(j)
                m.know(ilt(j, m.table.size0), True)
                m.know(ieq(j, m.table.free[0]), False)
            f = m.given.props[js_module(m)].props.get(name)
            if not isinstance(f, Fn):
                m.here = None
                return None
            m.here = f

            def imp(g, *a):
                f = m.given.props[js_module(m)].props.get(g)
                return m.call(f, list(a))
            return body(m, imp)
        for m, r in paths(run):
            key = '%s:%s:' % (name, k)
            if m.here is None:
                c.ob(False, key + 'given', 'the script gives the module %s' % name, SCRIPT)
                continue
            where = '%s:%d' % (SCRIPT, m.here.node['loc']['start']['line'])
            for ok, kk, what in r + [(not m.bad, 'memory', 'uses the memory of the moment')]:
                c.ob(ok, key + kk, '%s: %s' % (name, what), where, text(m))
        c.functions.add('%s: %s' % (SCRIPT, name))

    def quiet(m, taken=0, freed=0):
        m.calm = True
        t, f, w = occupancy(m)
        return [(not w, 'table', 'keeps the table in order (%s)' % '; '.join(w)),
                (len(t) == taken and len(f) == freed, 'references', 'takes %d slots and frees %d (not %d and %d)' % (taken, freed, len(t), len(f)))]

    def serialize(h, value):
        def body(m, imp):
            pp = I(iatom(m, 'pp'))
            m.multiples.add(pp)
            r = imp('__wbindgen_json_serialize', h, pp)
            m.calm = True
            got = m.returned_text(r, pp)
            return [(got == value if isinstance(value, Sym) else got == repr(value), 'text',
                     'gives the text of the value in memory it allocates, the address at the place named, the number of bytes'),
                    (len(m.allocs) == 1 and not m.allocs[0]['freed'], 'allocates', 'allocates once and leaves it to the module')] + quiet(m)
        return body

    def number(m, imp):
        h = imp('__wbindgen_number_new', number_)
        return made(m, imp, h, repr(number_))

    def parsed(m, imp):
        h = imp('__wbindgen_json_parse', p, n)
        return made(m, imp, h, Sym('parsed', Sym('text', p, iadd(p, n))))

    def made(m, imp, h, want):
        m.calm = True
        if not is_int(h):
            return [(False, 'reference', 'gives a reference')]
        first = quiet(m, 1)
        got = m.value_at(h)
        r = [(got == want, 'value', 'the reference it gives is to the value made')] + first
        m.imported('__wbindgen_object_drop_ref', h)
        return r + [(a, k + ':dropped', b + ', once the reference is dropped') for a, k, b in quiet(m)]

    def drop(m, imp):
        last = m.cond(ieq(m.count, I(1)))
        imp('__wbindgen_object_drop_ref', iscale(j, 2))
        m.calm = True
        r = quiet(m, 0, 1 if last else 0)
        if not last:
            o = m.table.get(j)
            r.append((isinstance(o, Obj) and o.props.get('cnt') is isub(m.count, 1) and o.props.get('obj') == Sym('object', j),
                      'count', 'counts one reference fewer'))
        return r

    def drop_reserved(h):
        def body(m, imp):
            imp('__wbindgen_object_drop_ref', h)
            return quiet(m)
        return body

    def throw(m, imp):
        try:
            imp('__wbindgen_throw', p, n)
        except Throw as e:
            v = e.value
            return [(isinstance(v, Obj) and v.cls == 'Error' and v.props['message'] == Sym('text', p, iadd(p, n)), 'message',
                     'throws an error with the message given')]
        return [(False, 'throws', 'throws')]
    for fresh in (True, False):
        each('__wbindgen_json_serialize', 'used', fresh, serialize(iscale(j, 2), Sym('object', j)))
        for k, v in enumerate(RESERVED):
            each('__wbindgen_json_serialize', 'reserved', fresh, serialize(I(2 * k), v))
            each('__wbindgen_object_drop_ref', 'reserved', fresh, drop_reserved(I(2 * k)))
        each('__wbindgen_number_new', '', fresh, number)
        each('__wbindgen_json_parse', '', fresh, parsed)
        each('__wbindgen_throw', '', fresh, throw)
        each('__wbindgen_object_drop_ref', 'used', fresh, drop)


def starting(c):
    """Fetching and starting the module."""
    L = Loaded()
    need, _ = L.interface

    def run(m):
        f = load(m, L)
        m.here = f
        path = Sym('arg', 'path')
        r = m.call(f, [path])
        return r, path
    for m, (r, path) in paths(run):
        where = '%s:%d' % (SCRIPT, m.here.node['loc']['start']['line'])

        def ob(ok, k, what):
            c.ob(ok, 'init:' + k, 'wasm_bindgen: ' + what, where, text(m))
        ob(isinstance(r, Promise), 'promise', 'gives a promise')
        ob(m.fetched == Sym('response', path), 'path', 'starts what it fetched from the path given')
        for mod, n in sorted(need):
            g = m.given.props.get(mod) if isinstance(m.given, Obj) else None
            ob(isinstance(g, Obj) and isinstance(g.props.get(n), Fn), 'import:' + n, 'gives the module %s.%s' % (mod, n))
    c.functions.add(SCRIPT + ': wasm_bindgen')


def agreement(c):
    """The names and types in the Rust source, the declarations and the module."""
    L = Loaded()
    decl = {d['name']: d for d in L.declared}
    c.ob(len(decl) == len(L.declared), 'declared:once', 'no function is declared twice', TYPES)
    for n in sorted(set(L.rust) | set(decl)):
        where = '%s:%d' % (TYPES, decl[n]['line']) if n in decl else TYPES
        c.ob(n in decl, n + ':declared', '%s of the Rust source is declared' % n, where)
        c.ob(n in L.rust, n + ':exported', 'the Rust source exports the declared %s' % n, where)
        if n in decl and n in L.rust:
            want = [['Uint8Array' if k == 'bytes' else 'any', False] for k in L.rust[n]]
            c.ob(decl[n]['params'] == want and decl[n]['result'] == 'any', n + ':types', '%s is declared with the types it has' % n, where)
    for n in sorted(L.rust):
        k = L.interface[1].get(n)
        want = sum(2 if x == 'bytes' else 1 for x in L.rust[n])
        c.ob(k == (want, 1), n + ':module', 'the compiled module exports %s, of %d arguments' % (n, want), MODULE)


PARTS = [calls, imports, starting, agreement]
