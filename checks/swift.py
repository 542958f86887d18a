"""A front end for the part of Swift the wrappers use: tokens, syntax trees, and all the ways a member can end.

Numbers of bytes are unknowns. A condition on one that is not yet settled splits the path (by running again with the other
answer); nothing of the source is executed, every C function is an unknown buffer. Whatever is not understood is Unsupported."""
import re
from lib import Unsupported, Missing

TOKEN = re.compile(r'''(?P<space>\s+|//[^\n]*|/\*.*?\*/)|(?P<num>0x[0-9a-fA-F_]+|\d[\d_]*)|(?P<id>@?[A-Za-z_][A-Za-z_0-9]*)
    |(?P<str>"(?:\\.|[^"\\])*")|(?P<op>->|===|!==|==|!=|<=|>=|&&|\|\||\?\?|\.\.\.|\.\.<|\+=|-=|[-+*/%<>=!?&|.,:;(){}\[\]])''', re.X | re.S)
MODIFIERS = {'public', 'private', 'internal', 'fileprivate', 'open', 'final', 'static', 'convenience', 'required', 'override',
             'mutating', 'unowned', 'weak', 'lazy', 'dynamic'}


class Tok(object):
    def __init__(self, kind, s, line, glued, nl):
        self.kind, self.s, self.line, self.glued, self.nl = kind, s, line, glued, nl    # glued: nothing before it; nl: a new line


def tokens(src):
    out, i, nl, glued = [], 0, True, False
    while i < len(src):
        m = TOKEN.match(src, i)
        if not m:
            raise Unsupported('Swift: %r' % src[i:i + 20])
        if m.lastgroup == 'space':
            nl, glued = nl or '\n' in m.group(), False
        else:
            out.append(Tok(m.lastgroup, m.group(), src.count('\n', 0, i) + 1, glued, nl))
            nl, glued = False, True
        i = m.end()
    out.append(Tok('end', '', src.count('\n') + 1, False, True))
    return out


class Parser(object):
    def __init__(self, src):
        self.t, self.i = tokens(src), 0

    @property
    def cur(self):
        return self.t[self.i]

    def no(self):
        raise Unsupported('Swift, line %d: %s' % (self.cur.line, ' '.join(x.s for x in self.t[self.i:self.i + 6])))

    def at(self, *s):
        return self.cur.kind in ('op', 'id') and self.cur.s in s

    def eat(self, s):
        if not self.at(s):
            self.no()
        self.i += 1

    def opt(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def name(self):
        if self.cur.kind != 'id':
            self.no()
        self.i += 1
        return self.t[self.i - 1].s

    def modifiers(self):
        while self.cur.kind == 'id' and (self.cur.s in MODIFIERS or self.cur.s.startswith('@')):
            self.i += 1
            if self.at('('):                            # private(set)
                while not self.opt(')'):
                    self.i += 1

    def file(self):
        d = {'functions': {}, 'classes': {}, 'globals': {}}
        while self.cur.kind != 'end':
            self.modifiers()
            if self.opt('import'):
                self.name()
            elif self.at('class', 'struct', 'extension', 'enum'):
                kind = self.name()
                n = self.name()
                if kind in ('struct', 'enum'):          # values, not references: another semantics
                    self.no()
                if self.opt(':'):
                    while not self.at('{'):
                        self.i += 1
                c = d['classes'].setdefault(n, {'fields': [], 'members': []})
                self.eat('{')
                while not self.opt('}'):
                    self.member(n, c)
            elif self.at('func'):
                f = self.func(None)
                d['functions'].setdefault(f['name'], []).append(f)
            elif self.at('let'):
                self.eat('let')
                n = self.name()
                if self.opt(':'):
                    self.type()
                self.eat('=')
                d['globals'][n] = self.expr()
            else:
                self.no()
        return d

    def member(self, cls, c):
        self.modifiers()
        line = self.cur.line
        if self.at('let', 'var'):
            self.i += 1
            n = self.name()
            ty = self.type() if self.opt(':') else None
            init = self.expr() if self.opt('=') else None
            if self.at('{'):                            # computed, or observed
                body = self.block()
                c['members'].append({'kind': 'get', 'name': n, 'params': [], 'body': body, 'line': line, 'result': ty,
                                     'failable': False, 'cls': cls})
            else:
                c['fields'].append((n, ty, init))
        elif self.at('init'):
            self.i += 1
            failable = self.opt('?')
            ps = self.params()
            c['members'].append({'kind': 'init', 'name': 'init', 'params': ps, 'failable': failable, 'body': self.block(),
                                 'line': line, 'result': None, 'cls': cls})
        elif self.at('func'):
            c['members'].append(self.func(cls))
        else:
            self.no()

    def func(self, cls):
        line = self.cur.line
        self.eat('func')
        n = self.name()
        ps = self.params()
        ty = self.type() if self.opt('->') else None
        return {'kind': 'func', 'name': n, 'params': ps, 'result': ty, 'failable': bool(ty and ty.endswith('?')),
                'body': self.block(), 'line': line, 'cls': cls}

    def params(self):
        self.eat('(')
        ps = []
        while not self.opt(')'):
            label = self.name()
            n = self.name() if self.cur.kind == 'id' else label
            self.eat(':')
            ty = self.type()
            if self.opt('='):
                self.no()
            ps.append((None if label == '_' else label, n, ty))
            self.opt(',')
        return ps

    def type(self):
        self.modifiers()
        if self.opt('inout'):
            self.no()
        if self.opt('['):
            s = '[' + self.type() + ']'
            self.eat(']')
        elif self.at('('):
            self.no()
        else:
            s = self.name()
            if self.opt('<'):
                s += '<' + self.type() + '>'
                self.eat('>')
        while self.at('?') and self.cur.glued:
            self.i += 1
            s += '?'
        return s

    def block(self):
        self.eat('{')
        out = []
        while not self.opt('}'):
            out.append(self.stmt())
            self.opt(';')
        return out

    def conds(self):
        out = []
        while True:
            if self.at('let', 'var'):
                self.i += 1
                n = self.name()
                if self.opt(':'):
                    self.type()
                e = self.expr(brace=False) if self.opt('=') else ('id', n)
                out.append(('let', n, e))
            else:
                out.append(('cond', self.expr(brace=False)))
            if not self.opt(','):
                return out

    def stmt(self):
        line = self.cur.line
        if self.at('let', 'var'):
            self.i += 1
            n = self.name()
            if self.opt(':'):
                self.type()
            return ('let', n, self.expr() if self.opt('=') else None, line)
        if self.opt('guard'):
            c = self.conds()
            self.eat('else')
            return ('guard', c, self.block(), line)
        if self.opt('if'):
            c = self.conds()
            a, b = self.block(), []
            if self.opt('else'):
                b = [self.stmt()] if self.at('if') else self.block()
            return ('if', c, a, b, line)
        if self.opt('do'):
            return ('do', self.block(), line)
        if self.opt('defer'):
            return ('defer', self.block(), line)
        if self.opt('return'):
            return ('return', None if self.at('}') or self.at(';') else self.expr(), line)
        if self.at('switch', 'for', 'while', 'repeat', 'throw', 'func', 'break', 'continue'):
            self.no()
        e = self.expr()
        if self.opt('='):
            return ('set', e, self.expr(), line)
        return ('expr', e, line)

    LEVELS = [('||',), ('&&',), ('==', '!=', '<', '>', '<=', '>=', '===', '!=='), ('??',), ('+', '-'), ('*', '/', '%')]

    def expr(self, brace=True, level=-1):
        if level == -1:
            e = self.expr(brace, 0)
            if self.at('?') and not self.cur.glued:
                self.i += 1
                a = self.expr(brace)
                self.eat(':')
                return ('if', e, a, self.expr(brace))
            return e
        if level == len(self.LEVELS):
            return self.prefix(brace)
        e = self.expr(brace, level + 1)
        while self.at(*self.LEVELS[level]) and self.cur.kind == 'op':
            op = self.cur.s
            self.i += 1
            e = ('op', op, e, self.expr(brace, level + 1), self.cur.line)
        return e

    def prefix(self, brace):
        if self.cur.kind == 'op' and self.at('!', '-', '&'):
            op = self.cur.s
            self.i += 1
            return ('pre', op, self.prefix(brace))
        return self.postfix(brace)

    def args(self, close):
        out = []
        while not self.opt(close):
            label = None
            if self.cur.kind == 'id' and self.t[self.i + 1].s == ':' and self.t[self.i + 1].kind == 'op':
                label = self.name()
                self.eat(':')
            out.append((label, self.expr()))
            if not self.at(close):
                self.eat(',')
        return out

    def postfix(self, brace):
        e = self.primary()
        while True:
            line = self.cur.line
            if self.at('.'):
                self.i += 1
                e = ('dot', e, self.name(), line)
            elif self.at('(') and self.cur.glued:
                self.i += 1
                e = ('call', e, self.args(')'), line)
            elif self.at('!') and self.cur.glued:
                self.i += 1
                e = ('force', e, line)
            elif self.at('?') and self.cur.glued and self.t[self.i + 1].s in '.([':
                self.no()
            elif self.at('['):
                if not self.cur.glued:
                    return e
                self.no()
            elif self.at('{') and brace:
                self.no()
            else:
                return e

    def primary(self):
        t = self.cur
        if t.kind == 'num':
            self.i += 1
            return ('num', int(t.s.replace('_', ''), 0))
        if t.kind == 'str':
            self.i += 1
            return ('str', t.s)
        if self.opt('('):
            a = self.args(')')
            if len(a) != 1:
                self.no()
            return a[0][1]
        if self.opt('['):
            if self.cur.s == 'UInt8' and self.t[self.i + 1].s == ']':
                self.i += 2
                return ('id', '[UInt8]')
            a = self.args(']')
            return ('list', [x for _, x in a])
        if t.kind == 'id':
            self.i += 1
            return ('id', t.s)
        self.no()


class Arr(object):
    """An array of bytes: where they come from, and how many there are."""
    def __init__(self, origin, count):
        self.origin, self.count = origin, count


class Obj(object):
    def __init__(self, cls, name):
        self.cls, self.name, self.f = cls, name, {}


class Buf(object):
    def __init__(self, n, fn, args, line):
        self.n, self.fn, self.args, self.line = n, fn, args, line
        self.count = ('len', n)
        self.released = 0


class Ptr(object):
    def __init__(self, arr=None, buf=None):
        self.arr, self.buf = arr, buf


class View(object):
    def __init__(self, buf, count):
        self.buf, self.count = buf, count


class Stop(Exception):
    pass


class Return(Stop):
    def __init__(self, v):
        self.v = v


class Trap(Stop):
    def __init__(self, why, line):
        self.why, self.line = why, line


class Path(object):
    """One way through a member."""
    def __init__(self, m, choices):
        self.m, self.choices, self.k, self.alts = m, choices, 0, []
        self.facts = {}                # unknown -> (low, high, excluded)
        self.bufs, self.reads, self.log = [], [], []

    def decide(self, what):
        if self.k < len(self.choices):
            v = self.choices[self.k]
        else:
            v = True
            self.alts.append(self.choices + [False])
            self.choices = self.choices + [True]
        self.k += 1
        self.log.append('%s%s' % ('' if v else 'not ', what))
        return v

    def range(self, u):
        return self.facts.get(u, (0, 2 ** 63 - 1, frozenset()))

    def allows(self, u, v):
        lo, hi, ex = self.range(u)
        return lo <= v <= hi and v not in ex

    def only(self, u):
        lo, hi, ex = self.range(u)
        while lo in ex and lo < hi:
            lo += 1
        while hi in ex and hi > lo:
            hi -= 1
        return lo if lo == hi else None

    def compare(self, op, a, b):
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
        if isinstance(a, int) and not isinstance(b, int):
            a, b, op = b, a, flip[op]
        if isinstance(a, int):
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if a == b and not isinstance(a, int):
            return op in ('==', '<=', '>=')
        if not isinstance(b, int):
            ka, kb = self.only(a), self.only(b)
            if kb is not None:
                return self.compare(op, a, kb)
            if ka is not None:
                return self.compare(op, ka, b)
            raise Unsupported('Swift: comparing two unknown lengths')
        if op == '!=':
            return not self.compare('==', a, b)
        if op == '>=':
            return not self.compare('<', a, b)
        if op == '<=':
            return not self.compare('>', a, b)
        lo, hi, ex = self.range(a)
        if op == '==':
            yes, no = (b, b, ex), (lo, hi, ex | {b})
            can, must = self.allows(a, b), self.only(a) == b
        elif op == '<':
            yes, no = (lo, min(hi, b - 1), ex), (max(lo, b), hi, ex)
            can, must = lo < b, hi < b
        else:
            yes, no = (max(lo, b + 1), hi, ex), (lo, min(hi, b), ex)
            can, must = hi > b, lo > b
        if must or not can:
            return bool(must)
        v = self.decide('%s %s %d' % (show(a), op, b))
        self.facts[a] = yes if v else no
        return v


def show(u):
    return u if isinstance(u, (str, int)) else '%s of %s' % (u[0], u[1])


class Program(object):
    def __init__(self, src, header):
        self.d = Parser(src).file()
        self.c = header
        self.consts = {n: v[0] for n, v in header['constants'].items()}

    def members(self):
        for n in sorted(self.d['classes']):
            for m in self.d['classes'][n]['members']:
                yield n, m

    def paths(self, cls, m):
        todo, out = [[]], []
        while todo:
            p = Path(m, todo.pop())
            self.start(p, cls, m)
            out.append(p)
            todo += p.alts
            if len(out) > 4096:
                raise Unsupported('Swift: too many paths through ' + m['name'])
        return out

    def given(self, p, cls, name, depth=0):
        """An object of a class that exists already: bytes of unknown number in each of its fields."""
        o = Obj(cls, name)
        for n, ty, _ in self.d['classes'][cls]['fields']:
            ty = ty or '[UInt8]'
            if ty == '[UInt8]':
                o.f[n] = Arr(('field', cls, name, n), ('count', '%s.%s' % (name, n)))
            elif ty in self.d['classes'] and depth < 3:
                o.f[n] = self.given(p, ty, name + '.' + n, depth + 1)
            else:
                raise Unsupported('Swift: a field of type ' + ty)
        return o

    def start(self, p, cls, m):
        env = {}
        for _, n, ty in m['params']:
            if ty == '[UInt8]':
                env[n] = Arr(('param', n), ('count', n))
            elif ty in self.d['classes']:
                env[n] = self.given(p, ty, n)
            else:
                raise Unsupported('Swift: a parameter of type ' + ty)
        p.args = dict(env)
        if m['kind'] == 'init':
            me = self.fresh(p, cls)
        else:
            me = self.given(p, cls, 'self')
        p.me = me
        p.before = [(o, dict(o.f)) for o in self.objects(p)]
        env['self'] = me
        try:
            self.body(p, env, m['body'])
            p.result = ('value', None)
        except Return as r:
            p.result = ('value', r.v)
        except Trap as t:
            p.result = ('trap', t.why, t.line)
        if m['kind'] == 'init' and p.result[0] == 'value':
            p.result = ('value', me) if p.result[1] is None and not isinstance(getattr(p, 'nil', None), str) else p.result

    def objects(self, p):
        out, todo = [], [p.me] + list(p.args.values())
        while todo:
            o = todo.pop()
            if isinstance(o, Obj) and o not in out:
                out.append(o)
                todo += list(o.f.values())
        return out

    def fresh(self, p, cls):
        o = Obj(cls, 'new ' + cls)
        for n, ty, init in self.d['classes'][cls]['fields']:
            if init is not None:
                o.f[n] = self.ev(p, {}, init)
        return o

    def body(self, p, env, stmts):
        later = []
        try:
            for s in stmts:
                self.stmt(p, env, s, later)
        finally:
            for b in reversed(later):
                self.body(p, env, b)

    def stmt(self, p, env, s, later):
        k = s[0]
        if k == 'let':
            env[s[1]] = self.ev(p, env, s[2]) if s[2] is not None else None
        elif k == 'guard':
            if not self.test(p, env, s[1]):
                self.body(p, dict(env), s[2])
                raise Unsupported('Swift: a guard which falls through')
        elif k == 'if':
            inner = dict(env)
            took = self.test(p, inner, s[1])
            self.scoped(p, env, inner if took else dict(env), s[2] if took else s[3])
        elif k == 'do':
            self.scoped(p, env, dict(env), s[1])
        elif k == 'defer':
            later.append(s[1])
        elif k == 'return':
            if s[1] == ('id', 'nil'):
                p.nil = 'nil'
                raise Return(None)
            raise Return(self.ev(p, env, s[1]) if s[1] is not None else None)
        elif k == 'set':
            v = self.ev(p, env, s[2])
            t = s[1]
            if t[0] == 'id' and t[1] in env:
                env[t[1]] = v
            elif t[0] == 'id' and t[1] == '_':
                pass
            elif t[0] == 'id':
                self.setf(p, env['self'], t[1], v)
            elif t[0] == 'dot':
                self.setf(p, self.ev(p, env, t[1]), t[2], v)
            else:
                raise Unsupported('Swift: assigning to %r' % (t,))
        else:
            self.ev(p, env, s[1])

    def scoped(self, p, env, inner, stmts):
        # A variable assigned within belongs to the scope which declared it.
        declared = {s[1] for s in stmts if s[0] == 'let'}
        try:
            self.body(p, inner, stmts)
        finally:
            for n in env:
                if n not in declared and n in inner:
                    env[n] = inner[n]

    def setf(self, p, o, n, v):
        if not isinstance(o, Obj) or n not in {f[0] for f in self.d['classes'][o.cls]['fields']}:
            raise Unsupported('Swift: assigning to ' + n)
        o.f[n] = v

    def test(self, p, env, conds):
        for c in conds:
            if c[0] == 'let':
                v = self.ev(p, env, c[2])
                if v is None or isinstance(v, Ptr) and v.buf is not None and self.null(p, v):
                    return False
                env[c[1]] = v
            elif not self.truth(self.ev(p, env, c[1])):
                return False
        return True

    def truth(self, v):
        if v is True or v is False:
            return v
        raise Unsupported('Swift: a condition which is no truth value')

    def ev(self, p, env, e):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'str':
            return e[1]
        if k == 'id':
            n = e[1]
            if n in env:
                return env[n]
            if n in ('true', 'false'):
                return n == 'true'
            if n == 'nil':
                return None
            if n in self.consts:
                return self.consts[n]
            if n in self.d['globals']:
                return self.ev(p, {}, self.d['globals'][n])
            if isinstance(env.get('self'), Obj):
                return self.field(p, env['self'], n)
            raise Unsupported('Swift: the name ' + n)
        if k == 'pre':
            if e[1] == '&':
                v = self.ev(p, env, e[2])
                if not isinstance(v, Arr):
                    raise Unsupported('Swift: a pointer to something other than bytes')
                return Ptr(arr=v)
            v = self.ev(p, env, e[2])
            if e[1] == '!':
                return not self.truth(v)
            raise Unsupported('Swift: negation')
        if k == 'op':
            return self.op(p, env, e)
        if k == 'if':
            return self.ev(p, env, e[2] if self.truth(self.ev(p, env, e[1])) else e[3])
        if k == 'force':
            v = self.ev(p, env, e[1])
            if v is None:
                raise Trap('unwraps nothing', e[2])
            return v
        if k == 'dot':
            return self.field(p, self.ev(p, env, e[1]), e[2])
        if k == 'list':
            return Arr(('list', tuple(self.ev(p, env, x) for x in e[1])), len(e[1]))
        if k == 'call':
            return self.call(p, env, e)
        raise Unsupported('Swift: %r' % (e,))

    def op(self, p, env, e):
        o = e[1]
        a = self.ev(p, env, e[2])
        if o == '&&':
            return self.truth(a) and self.truth(self.ev(p, env, e[3]))
        if o == '||':
            return self.truth(a) or self.truth(self.ev(p, env, e[3]))
        if o == '??':
            return self.ev(p, env, e[3]) if a is None else a
        b = self.ev(p, env, e[3])
        if o in ('==', '!=') and (a is None or b is None):
            x = b if a is None else a
            if isinstance(x, Ptr) and x.buf is not None:
                null = self.null(p, x)
            else:
                null = x is None
            return null if o == '==' else not null
        num = lambda v: isinstance(v, (int, tuple)) and not isinstance(v, bool)
        if o in ('==', '!=', '<', '>', '<=', '>=') and num(a) and num(b):
            return p.compare(o, a, b)
        if o in ('+', '-', '*') and isinstance(a, int) and isinstance(b, int):
            v = {'+': a + b, '-': a - b, '*': a * b}[o]
            if v < 0:
                raise Trap('goes below zero', e[4])
            return v
        raise Unsupported('Swift: %s of something else than lengths' % o)

    def null(self, p, v):
        if v.buf.fn == 'roster_entry_commitment_open':        # answers by the length alone
            return True
        return p.compare('==', v.buf.count, 0)                # C24: null exactly when there are no bytes

    def field(self, p, v, n):
        if isinstance(v, Obj):
            if n in v.f:
                return v.f[n]
            for m in self.d['classes'][v.cls]['members']:
                if m['kind'] == 'get' and m['name'] == n:
                    return self.enter(p, m, {'self': v})
        elif isinstance(v, Arr):
            if n == 'count':
                return v.count
            if n == 'isEmpty':
                return p.compare('==', v.count, 0)
        elif isinstance(v, View):
            if n == 'count':
                return v.count
        elif isinstance(v, Buf):
            if n == 'len':
                return v.count
            if n == 'ptr':
                return Ptr(buf=v)
        raise Unsupported('Swift: .' + n)

    def enter(self, p, m, env):
        p.depth = getattr(p, 'depth', 0) + 1
        if p.depth > 40:
            raise Unsupported('Swift: recursion')
        saved = getattr(p, 'nil', None)
        p.nil = None
        try:
            self.body(p, env, m['body'])
            v = None
        except Return as r:
            v = r.v
        failed = p.nil == 'nil'
        p.nil = saved
        p.depth -= 1
        if m['kind'] == 'init':
            return None if failed else env['self']
        return v

    def pick(self, ms, args, what):
        labels = [l for l, _ in args]
        ms = [m for m in ms if [l for l, _, _ in m['params']] == labels]
        if len(ms) != 1:
            raise Unsupported('Swift: no single %s with these labels' % what)
        return ms[0]

    def call(self, p, env, e):
        f, line = e[1], e[3]
        if f[0] == 'dot' and not (f[1][0] == 'id' and f[1][1] in self.d['classes'] and f[1][1] not in env):
            o = self.ev(p, env, f[1])
            if isinstance(o, Obj):
                m = self.pick([m for m in self.d['classes'][o.cls]['members'] if m['name'] == f[2]], e[2], f[2])
                vals = [self.ev(p, env, a) for _, a in e[2]]
                inner = dict(zip([n for _, n, _ in m['params']], vals))
                inner['self'] = o
                return self.enter(p, m, inner)
            raise Unsupported('Swift: calling .' + f[2])
        n = f[2] if f[0] == 'dot' else f[1]
        if f[0] == 'dot':
            if n != 'init':
                raise Unsupported('Swift: a static member')
            n = f[1][1]
        args = e[2]
        if f[0] == 'dot' and f[1][1] == 'self' or n == 'self':
            raise Unsupported('Swift: delegating initialiser')
        vals = [self.ev(p, env, a) for _, a in args]
        labels = [l for l, _ in args]
        if n in self.c['functions']:
            return self.foreign(p, n, args, vals, line)
        if n in self.d['classes']:
            m = self.pick([m for m in self.d['classes'][n]['members'] if m['kind'] == 'init'], args, 'initialiser of ' + n)
            inner = dict(zip([x for _, x, _ in m['params']], vals))
            inner['self'] = self.fresh(p, n)
            return self.enter(p, m, inner)
        if n in self.d['functions']:
            m = self.pick(self.d['functions'][n], args, n)
            return self.enter(p, m, dict(zip([x for _, x, _ in m['params']], vals)))
        me = env.get('self')
        if isinstance(me, Obj) and any(m['name'] == n for m in self.d['classes'][me.cls]['members']):
            m = self.pick([m for m in self.d['classes'][me.cls]['members'] if m['name'] == n], args, n)
            inner = dict(zip([x for _, x, _ in m['params']], vals))
            inner['self'] = me
            return self.enter(p, m, inner)
        if n in ('Int', 'UInt64', 'UInt', 'UInt32', 'Int64') and labels == [None]:
            if isinstance(vals[0], tuple) and n == 'UInt32':
                raise Trap('may not fit 32 bits', line)
            return vals[0]
        if n in ('Array', '[UInt8]'):
            if labels == ['repeating', 'count'] and isinstance(vals[0], int):
                return Arr(('repeat', vals[0]), vals[1])
            if labels == [None] and isinstance(vals[0], View):
                p.reads.append((vals[0].buf, vals[0].count, line))
                if vals[0].buf.released:
                    raise Trap('reads a buffer which was released', line)
                return Arr(('copy', vals[0].buf), vals[0].count)
            if labels == [None] and isinstance(vals[0], Arr):
                return vals[0]
            if not labels:
                return Arr(('list', ()), 0)
        if n == 'UnsafeBufferPointer' and labels == ['start', 'count'] and isinstance(vals[0], Ptr) and vals[0].buf:
            return View(vals[0].buf, vals[1])
        if n == 'print':
            p.printed = [v for v in vals if not isinstance(v, (str, int))] + getattr(p, 'printed', [])
            return None
        raise Unsupported('Swift: %s(%s)' % (n, ', '.join('%s:' % l for l in labels)))

    def foreign(self, p, n, args, vals, line):
        if any(l for l, _ in args):
            raise Unsupported('Swift: labels in a call of ' + n)
        if n == 'buf_free':
            if len(vals) != 1 or not isinstance(vals[0], Buf):
                raise Unsupported('Swift: releasing something else than a buffer')
            vals[0].released += 1
            return None
        b = Buf(len(p.bufs), n, vals, line)
        p.bufs.append(b)
        return b
