"""Follows JavaScript on unknown values, one path at a time: whatever is undecided is answered by a list of decisions, and
the other answer is put down for later."""
import json
import os
import subprocess
from terms import *
from facts import Facts, div, rem
import extract

HERE = os.path.dirname(os.path.abspath(__file__))


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Throw(Exception):
    def __init__(self, value):
        self.value = value


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Jump(Exception):
    def __init__(self, kind):
        self.kind = kind


class Const(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNDEFINED, NULL = Const('undefined'), Const('null')


class Sym(object):
    """Something of which only this is known; two with the same key are the same."""
    def __init__(self, *key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Sym) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key[0] if len(self.key) == 1 else '%s(%s)' % (self.key[0], ', '.join(map(repr, self.key[1:])))


class Fn(object):
    def __init__(self, node, env, this=None):
        self.node, self.env = node, env


class Native(object):
    def __init__(self, name, f):
        self.name, self.f = name, f


class Obj(object):
    def __init__(self, props=None, cls=None):
        self.props, self.cls = dict(props or {}), cls


class Promise(object):
    def __init__(self, value):
        self.value = value


class Arr(object):
    def __init__(self, items):
        self.items = list(items)


class Env(object):
    def __init__(self, parent):
        self.vars, self.consts, self.parent = {}, set(), parent

    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None


def is_int(v):
    return isinstance(v, N) and v.t == 'int'


def parse(script, types):
    r = subprocess.run(['node', HERE + '/parse.js', script, types], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise Unsupported('cannot parse %s: %s' % (script, r.stderr.decode()[-300:]))
    return json.loads(r.stdout)


class Machine(object):
    """One path."""
    def __init__(self, decisions):
        self.decisions, self.at, self.more = decisions, 0, []
        self.facts = Facts()
        self.known = {}                   # other conditions
        self.log = []
        self.steps = self.depth = 0
        self.line = 0
        self.globals = Env(None)

    # ---------------- conditions

    def decide(self, key, text):
        """An undecided condition."""
        if key in self.known:
            return self.known[key]
        if self.at == len(self.decisions):
            self.more.append(self.decisions[:self.at] + [False])
            self.decisions = self.decisions + [True]
        r = self.decisions[self.at]
        self.at += 1
        self.known[key] = r
        self.log.append(('' if r else 'not ') + text)
        return r

    def cond(self, c):
        """The truth of a condition about integers."""
        d = self.facts.decide(c)
        if d is not None:
            return d
        if self.at == len(self.decisions):
            a, b = self.facts.assume(c, True), self.facts.assume(c, False)
            if a is None and b is None:
                raise Infeasible()
            if a is None or b is None:
                self.facts = a or b
                return a is not None
        r = self.decide(('cond', c), show(c))
        f = self.facts.assume(c, r)
        if f is None:
            raise Infeasible()
        self.facts = f
        return r

    def equal(self, a, b):
        if a is b:
            return True
        if is_int(a) and is_int(b):
            return self.cond(ieq(a, b))
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a == b:
                return True
            return self.decide(('==', frozenset((a, b))), '%r === %r' % (a, b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and (isinstance(y, (Const, bool, str)) or is_int(y)):
                if x.key[0] in ('arg', 'parsed', 'object'):
                    return self.decide(('==', x, repr(y) if not is_int(y) else y), '%r === %r' % (x, y))
                return False
        if isinstance(a, (str, bool)) and type(a) is type(b):
            return a == b
        return False

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is UNDEFINED or v is NULL or v == '':
            return False
        if is_int(v):
            return not self.cond(ieq(v, I(0)))
        if isinstance(v, Sym) and v.key[0] in ('arg', 'parsed', 'object'):
            return self.decide(('truthy', v), '%r is truthy' % v)
        return True

    # ---------------- statements

    def tick(self, n):
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported('a script which does not end')
        if n.get('loc'):
            self.line = n['loc']['start']['line']

    def hoist(self, body, env):
        for s in body:
            if s['type'] == 'FunctionDeclaration':
                env.vars[s['id']['name']] = Fn(s, env)
            elif s['type'] == 'VariableDeclaration':
                for d in s['declarations']:
                    for n in names(d['id']):
                        env.vars.setdefault(n, UNDEFINED)

    def block(self, body, env):
        self.hoist(body, env)
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.tick(s)
        t = s['type']
        if t == 'ExpressionStatement':
            self.ev(s['expression'], env)
        elif t == 'VariableDeclaration':
            for d in s['declarations']:
                if d['init'] is None and s['kind'] == 'var':
                    continue
                v = self.ev(d['init'], env) if d['init'] is not None else UNDEFINED
                self.bind(d['id'], v, env)
                if s['kind'] == 'const':
                    env.consts.update(names(d['id']))
        elif t == 'FunctionDeclaration' or t == 'EmptyStatement':
            pass
        elif t == 'ReturnStatement':
            raise _Return(self.ev(s['argument'], env) if s['argument'] else UNDEFINED)
        elif t == 'IfStatement':
            if self.truth(self.ev(s['test'], env)):
                self.stmt(s['consequent'], env)
            elif s['alternate']:
                self.stmt(s['alternate'], env)
        elif t == 'BlockStatement':
            self.block(s['body'], Env(env))
        elif t == 'ThrowStatement':
            raise Throw(self.ev(s['argument'], env))
        elif t == 'TryStatement':
            self.try_(s, env)
        elif t in ('ForStatement', 'WhileStatement', 'ForOfStatement'):
            self.loop(s, env)
        elif t == 'SwitchStatement':
            self.switch(s, env)
        elif t == 'BreakStatement' or t == 'ContinueStatement':
            if s['label']:
                raise Unsupported('label')
            raise _Jump(t[:5])
        else:
            raise Unsupported('%s in line %d' % (t, self.line))

    def switch(self, s, env):
        v = self.ev(s['discriminant'], env)
        env = Env(env)
        at = None
        for i, c in enumerate(s['cases']):
            if c['test'] is not None and self.equal(v, self.ev(c['test'], env)):
                at = i
                break
        if at is None:
            at = next((i for i, c in enumerate(s['cases']) if c['test'] is None), len(s['cases']))
        try:
            for c in s['cases'][at:]:
                self.block(c['consequent'], env)
        except _Jump as j:
            if j.kind != 'Break':
                raise

    def try_(self, s, env):
        pending = None
        try:
            try:
                self.stmt(s['block'], env)
            except Throw as e:
                if not s['handler']:
                    raise
                inner = Env(env)
                if s['handler']['param']:
                    self.bind(s['handler']['param'], e.value, inner)
                self.block(s['handler']['body']['body'], inner)
        except (Throw, _Return, _Jump) as e:
            pending = e
        if s['finalizer']:
            self.stmt(s['finalizer'], env)
        if pending is not None:
            raise pending

    def loop(self, s, env):
        env = Env(env)
        if s['type'] == 'ForOfStatement':
            xs = self.ev(s['right'], env)
            if not isinstance(xs, Arr):
                raise Unsupported('loop over an unknown number of things')
            rounds = list(xs.items)
        else:
            rounds = None
            if s.get('init'):
                self.stmt(s['init'], env) if s['init']['type'] == 'VariableDeclaration' else self.ev(s['init'], env)
        n = 0
        while True:
            n += 1
            if n > 64:
                raise Unsupported('a loop of many rounds in line %d' % self.line)
            inner = Env(env)
            if rounds is not None:
                if not rounds:
                    return
                left = s['left']
                self.bind(left['declarations'][0]['id'] if left['type'] == 'VariableDeclaration' else left, rounds.pop(0), inner)
            elif s['test'] and not self.truth(self.ev(s['test'], env)):
                return
            try:
                self.stmt(s['body'], inner)
            except _Jump as j:
                if j.kind == 'Break':
                    return
            if s.get('update'):
                self.ev(s['update'], env)

    def bind(self, p, v, env):
        t = p['type']
        if t == 'Identifier':
            env.vars[p['name']] = v
        elif t == 'ArrayPattern':
            if not isinstance(v, Arr):
                raise Unsupported('destructuring')
            for i, q in enumerate(p['elements']):
                if q:
                    self.bind(q, v.items[i] if i < len(v.items) else UNDEFINED, env)
        elif t == 'ObjectPattern':
            for q in p['properties']:
                if q['type'] != 'Property' or q['computed']:
                    raise Unsupported('destructuring')
                self.bind(q['value'], self.get(v, q['key'].get('name', q['key'].get('value'))), env)
        elif t == 'AssignmentPattern':
            self.bind(p['left'], self.ev(p['right'], env) if v is UNDEFINED else v, env)
        else:
            raise Unsupported(t)

    # ---------------- expressions

    def ev(self, e, env):
        self.tick(e)
        return getattr(self, 'x_' + e['type'], self.unknown)(e, env)

    def unknown(self, e, env):
        raise Unsupported('%s in line %d' % (e['type'], self.line))

    def x_Literal(self, e, env):
        v = e['value']
        if v is None and e.get('raw') == 'null':
            return NULL
        if isinstance(v, bool) or isinstance(v, str):
            return v
        if isinstance(v, (int, float)) and v == int(v):
            return I(int(v))
        raise Unsupported('literal %s' % e.get('raw'))

    def x_Identifier(self, e, env):
        n = e['name']
        if n == 'undefined':
            return UNDEFINED
        s = env.find(n)
        if s is None:
            raise Unsupported('unknown name %s in line %d' % (n, self.line))
        return s.vars[n]

    def x_ArrayExpression(self, e, env):
        return Arr(self.list(e['elements'], env))

    def list(self, es, env):
        out = []
        for x in es:
            if x['type'] == 'SpreadElement':
                v = self.ev(x['argument'], env)
                if not isinstance(v, Arr):
                    raise Unsupported('spread')
                out += v.items
            else:
                out.append(self.ev(x, env))
        return out

    def x_ObjectExpression(self, e, env):
        o = Obj()
        for p in e['properties']:
            if p['type'] != 'Property' or p['kind'] != 'init':
                raise Unsupported('object in line %d' % self.line)
            k = self.ev(p['key'], env) if p['computed'] else p['key'].get('name', p['key'].get('value'))
            o.props[k] = self.ev(p['value'], env)
        return o

    def x_FunctionExpression(self, e, env):
        return Fn(e, env)

    x_ArrowFunctionExpression = x_FunctionExpression

    def x_SequenceExpression(self, e, env):
        for x in e['expressions']:
            v = self.ev(x, env)
        return v

    def x_AwaitExpression(self, e, env):
        v = self.ev(e['argument'], env)
        return v.value if isinstance(v, Promise) else v

    def x_ParenthesizedExpression(self, e, env):
        return self.ev(e['expression'], env)

    def x_ConditionalExpression(self, e, env):
        return self.ev(e['consequent'] if self.truth(self.ev(e['test'], env)) else e['alternate'], env)

    def x_LogicalExpression(self, e, env):
        a = self.ev(e['left'], env)
        if e['operator'] == '??':
            return self.ev(e['right'], env) if a is UNDEFINED or a is NULL else a
        if self.truth(a) == (e['operator'] == '||'):
            return a
        return self.ev(e['right'], env)

    def x_TemplateLiteral(self, e, env):
        if e['expressions']:
            raise Unsupported('template')
        return e['quasis'][0]['value']['cooked']

    def x_UnaryExpression(self, e, env):
        o = e['operator']
        if o == 'typeof':
            a = e['argument']
            if a['type'] == 'Identifier' and env.find(a['name']) is None:
                return 'undefined'
            v = self.ev(a, env)
            return 'function' if isinstance(v, (Fn, Native)) else 'number' if is_int(v) else 'string' if isinstance(v, str) else \
                'boolean' if isinstance(v, bool) else 'undefined' if v is UNDEFINED else \
                ('function' if v.key[0] == 'function?' and self.decide(('known', v), 'there is %r' % (v.key[1],)) else
                 'undefined' if v.key[0] == 'function?' else Sym('typeof', v)) if isinstance(v, Sym) else 'object'
        v = self.ev(e['argument'], env)
        if o == '!':
            return not self.truth(v)
        if o == '-' and is_int(v):
            return iscale(v, -1)
        if o == '+' and is_int(v):
            return v
        if o == 'void':
            return UNDEFINED
        raise Unsupported('operator %s' % o)

    def x_BinaryExpression(self, e, env):
        return self.binary(e['operator'], self.ev(e['left'], env), self.ev(e['right'], env))

    def binary(self, o, a, b):
        if o in ('===', '!==', '==', '!='):
            if len(o) == 2 and (a in (UNDEFINED, NULL)) and (b in (UNDEFINED, NULL)):
                return o == '=='
            return self.equal(a, b) == (o[0] == '=')
        if not is_int(a) or not is_int(b):
            raise Unsupported('%s of %r and %r in line %d' % (o, a, b, self.line))
        k = iconst(b)
        if o == '+':
            return iadd(a, b)
        if o == '-':
            return isub(a, b)
        if o == '<':
            return self.cond(ilt(a, b))
        if o == '>':
            return self.cond(ilt(b, a))
        if o == '<=':
            return self.cond(ige(b, a))
        if o == '>=':
            return self.cond(ige(a, b))
        if k is not None and ibounds(a)[0] >= 0:
            if o == '*':
                return iscale(a, k)
            if o == '%' and k > 0:
                return rem(a, k)
            if ibounds(a)[1] < 2 ** 31:
                # as a number of 32 bits
                if o == '<<' and 0 <= k < 8 and ibounds(a)[1] * 2 ** k < 2 ** 31:
                    return iscale(a, 2 ** k)
                if o in ('>>', '>>>') and 0 <= k < 31:
                    return div(a, 2 ** k)
                if o == '&' and (k + 1) & k == 0:
                    return rem(a, k + 1)
                if o == '|' and k == 0:
                    return a
            if o == '/' and k > 0:
                r = rem(a, k)
                if r is I(0) or k == 1 or self.aligned(a, k):
                    return div(a, k)
        if o == '*' and iconst(a) is not None:
            return iscale(b, iconst(a))
        raise Unsupported('%s %s %s in line %d' % (show(a), o, show(b), self.line))

    def aligned(self, a, k):
        return False

    def x_UpdateExpression(self, e, env):
        old = self.ev(e['argument'], env)
        new = self.binary(e['operator'][0], old, I(1))
        self.assign(e['argument'], new, env)
        return new if e['prefix'] else old

    def x_AssignmentExpression(self, e, env):
        o = e['operator']
        if o == '=':
            if e['left']['type'] in ('ArrayPattern', 'ObjectPattern'):
                raise Unsupported('destructuring assignment')
            ref = self.place(e['left'], env)
            v = self.ev(e['right'], env)
            self.store(ref, v)
            return v
        ref = self.place(e['left'], env)
        v = self.binary(o[:-1], self.load(ref), self.ev(e['right'], env))
        self.store(ref, v)
        return v

    def assign(self, e, v, env):
        self.store(self.place(e, env), v)

    def place(self, e, env):
        if e['type'] == 'Identifier':
            s = env.find(e['name'])
            if s is None:
                raise Unsupported('assignment to unknown %s' % e['name'])
            return (s, e['name'])
        if e['type'] == 'MemberExpression':
            o = self.ev(e['object'], env)
            return (o, self.ev(e['property'], env) if e['computed'] else e['property']['name'])
        raise Unsupported('assignment to %s' % e['type'])

    def load(self, ref):
        return ref[0].vars[ref[1]] if isinstance(ref[0], Env) else self.get(*ref)

    def store(self, ref, v):
        o, k = ref
        if isinstance(o, Env):
            if k in o.consts:
                raise Throw('assignment to a constant')
            o.vars[k] = v
        else:
            self.put(o, k, v)

    def x_MemberExpression(self, e, env):
        o = self.ev(e['object'], env)
        if e.get('optional'):
            raise Unsupported('?.')
        return self.get(o, self.ev(e['property'], env) if e['computed'] else e['property']['name'])

    def x_CallExpression(self, e, env):
        c = e['callee']
        if c['type'] == 'MemberExpression':
            this = self.ev(c['object'], env)
            k = self.ev(c['property'], env) if c['computed'] else c['property']['name']
            m = self.method(this, k)
            if m is not None:
                return m(self.list(e['arguments'], env))
            f = self.get(this, k)
        else:
            f = self.ev(c, env)
        return self.call(f, self.list(e['arguments'], env))

    def x_NewExpression(self, e, env):
        f = self.ev(e['callee'], env)
        if not isinstance(f, Native):
            raise Unsupported('new in line %d' % self.line)
        return f.f(*self.list(e['arguments'], env))

    def call(self, f, args):
        if isinstance(f, Native):
            return f.f(*args)
        if not isinstance(f, Fn):
            raise Throw('not a function')
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('deep recursion')
        env = Env(f.env)
        n = f.node
        if n.get('generator'):
            raise Unsupported('generator')
        if n.get('async'):
            n = dict(n, **{'async': False})
            g = Fn(n, f.env)
            r = self.call(g, args)
            return r if isinstance(r, Promise) else Promise(r)
        ps = n['params']
        env.vars['arguments'] = Arr(args)
        for i, p in enumerate(ps):
            if p['type'] == 'RestElement':
                self.bind(p['argument'], Arr(args[i:]), env)
            else:
                self.bind(p, args[i] if i < len(args) else UNDEFINED, env)
        try:
            if n['body']['type'] != 'BlockStatement':
                return self.ev(n['body'], env)
            self.block(n['body']['body'], env)
            return UNDEFINED
        except _Return as r:
            return r.value
        finally:
            self.depth -= 1

    # ---------------- members

    def method(self, o, k):
        if not isinstance(o, Arr):
            return None
        xs = o.items

        def each(a):
            for i, x in enumerate(list(xs)):
                self.call(a[0], [x, I(i)][:arity(a[0])])
            return UNDEFINED

        def pop(a):
            return xs.pop() if xs else UNDEFINED

        def part(a):
            ks = [iconst(x) if is_int(x) else None for x in a]
            if None in ks:
                raise Unsupported('slice')
            return Arr(xs[slice(*ks)] if len(ks) == 2 else xs[ks[0] if ks else 0:])
        return {'map': lambda a: Arr([self.call(a[0], [x, I(i)][:arity(a[0])]) for i, x in enumerate(list(xs))]),
                'forEach': each, 'pop': pop, 'slice': part,
                'concat': lambda a: Arr(xs + [y for x in a for y in (x.items if isinstance(x, Arr) else [x])]),
                'reverse': lambda a: (xs.reverse(), o)[1]}.get(k)

    def get(self, o, k):
        if isinstance(o, Obj):
            return o.props.get(k, UNDEFINED)
        if isinstance(o, Arr):
            if k == 'length':
                return I(len(o.items))
            i = iconst(k) if is_int(k) else None
            if i is not None:
                return o.items[i] if i < len(o.items) else UNDEFINED
        if o is UNDEFINED or o is NULL:
            raise Throw('member of %r' % o)
        if isinstance(o, Fn) and hasattr(o, 'props'):
            return o.props.get(k, UNDEFINED)
        raise Unsupported('.%s of %r in line %d' % (k, o, self.line))

    def put(self, o, k, v):
        if isinstance(o, Obj):
            o.props[k] = v
            return
        if isinstance(o, Fn):
            if not hasattr(o, 'props'):
                o.props = {}
            o.props[k] = v
            return
        if o is UNDEFINED or o is NULL:
            raise Throw('member of %r' % o)
        raise Unsupported('assignment to .%s of %r in line %d' % (k, o, self.line))


def arity(f):
    return 2 if isinstance(f, Fn) else 1


def names(p):
    t = p['type']
    if t == 'Identifier':
        return [p['name']]
    if t == 'ArrayPattern':
        return [n for q in p['elements'] if q for n in names(q)]
    if t == 'ObjectPattern':
        return [n for q in p['properties'] for n in names(q.get('value') or q['argument'])]
    if t == 'AssignmentPattern':
        return names(p['left'])
    if t == 'RestElement':
        return names(p['argument'])
    raise Unsupported(t)


def paths(f, limit=4000):
    """f(machine) on every path: what it gives, with the machine."""
    todo = [[]]
    n = 0
    while todo:
        m = Machine_(todo.pop())
        n += 1
        if n > limit:
            raise Unsupported('more than %d paths' % limit)
        try:
            r = f(m)
        except Infeasible:
            r = None
        else:
            yield m, r
        todo += m.more


Machine_ = Machine


# ---------------------------------------------------------------- the names and types of a WebAssembly module

def leb(b, i):
    n = s = 0
    while True:
        n |= (b[i] & 127) << s
        i += 1
        s += 7
        if not b[i - 1] & 128:
            return n, i


def wasm_interface(path):
    """({(module, name): number of arguments}, {exported function: number of arguments})"""
    b = open(path, 'rb').read()
    if b[:4] != b'\0asm':
        raise Unsupported('%s is not WebAssembly' % path)
    i, types, imports, funcs, exports = 8, [], [], [], {}

    def name(j):
        n, j = leb(b, j)
        return b[j:j + n].decode('utf8'), j + n
    while i < len(b):
        sid = b[i]
        n, i = leb(b, i + 1)
        end, j = i + n, i
        if sid in (1, 2, 3, 7):
            count, j = leb(b, j)
            for _ in range(count):
                if sid == 1:
                    k, j = leb(b, j + 1)
                    j += k
                    r, j = leb(b, j)
                    j += r
                    types.append((k, r))
                elif sid == 2:
                    mod, j = name(j)
                    nm, j = name(j)
                    if b[j]:
                        raise Unsupported('an import which is not a function')
                    t, j = leb(b, j + 1)
                    imports.append((mod, nm, types[t]))
                elif sid == 3:
                    t, j = leb(b, j)
                    funcs.append(types[t])
                else:
                    nm, j = name(j)
                    kind = b[j]
                    x, j = leb(b, j + 1)
                    if kind == 0:
                        exports[nm] = (imports[x][2] if x < len(imports) else funcs[x - len(imports)])
        i = end
    return {(m, n): t for m, n, t in imports}, exports
