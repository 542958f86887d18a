"""What is known on a path: linear inequalities between integers, and the truth of other conditions."""
from terms import *

_infeasible = {}
RESTATED = []       # what gives the equation of two points as one of their encodings


def infeasible(cs):
    """Whether linear constraints (each >= 0) have no integer solution; True only if certain (Fourier-Motzkin)."""
    key = frozenset(cs)
    r = _infeasible.get(key)
    if r is None:
        r = _fm(key)
        _infeasible[key] = r
    return r


def _norm(c, terms):
    from math import gcd
    g = 0
    for k in terms.values():
        g = gcd(g, abs(k))
    if g > 1:
        terms = {v: k // g for v, k in terms.items()}
        c = c // g  # floor: a tightening over the integers
    return c, terms


def _fm(cs):
    rows = set()
    seen = set()
    for c in cs:
        seen |= {v for v, _ in c.a[1]}
    work = []
    for c in cs:
        work.append((c.a[0], dict(c.a[1])))
    for v in seen:
        if v.a[1] > -BIG:
            work.append((-v.a[1], {v: 1}))
        if v.a[2] < BIG:
            work.append((v.a[2], {v: -1}))
    for c, t in work:
        c, t = _norm(c, t)
        rows.add((c, tuple(sorted(t.items(), key=lambda x: x[0].id))))
    while True:
        for c, t in rows:
            if not t and c < 0:
                return True
        rows = {r for r in rows if r[1]}
        best = {}
        for c, t in rows:
            if c > best.get(t, (float('inf'),))[0] if False else False:
                pass
            if t not in best or c < best[t]:
                best[t] = c
        rows = {(c, t) for t, c in best.items()}
        if not rows:
            return False
        count = {}
        for c, t in rows:
            for v, k in t:
                p, n = count.get(v, (0, 0))
                count[v] = (p + (k > 0), n + (k < 0))
        v = min(count, key=lambda x: (count[x][0] * count[x][1], x.id))
        pos = [r for r in rows if dict(r[1]).get(v, 0) > 0]
        neg = [r for r in rows if dict(r[1]).get(v, 0) < 0]
        rest = {r for r in rows if dict(r[1]).get(v, 0) == 0}
        if len(pos) * len(neg) > 400:
            return False
        for c1, t1 in pos:
            d1 = dict(t1)
            for c2, t2 in neg:
                d2 = dict(t2)
                a, b = d1[v], -d2[v]
                t = {}
                for x, k in d1.items():
                    t[x] = t.get(x, 0) + b * k
                for x, k in d2.items():
                    t[x] = t.get(x, 0) + a * k
                t = {x: k for x, k in t.items() if k}
                c, t = _norm(b * c1 + a * c2, t)
                rest.add((c, tuple(sorted(t.items(), key=lambda x: x[0].id))))
        rows = rest


_deep = [0]


class Facts(object):
    """Immutable."""

    def __init__(self, ineqs=(), lits=None, foralls=()):
        self.ineqs = ineqs          # int terms which are >= 0
        self.lits = lits or {}      # condition -> bool
        self.foralls = foralls      # (bound variable, count, condition, bool)

    def relevant(self, t):
        """The inequalities connected to a term."""
        vs = {v for v, _ in t.a[1]}
        out, left = [], list(self.ineqs)
        for v in list(vs):
            self._side(v, out, vs)
        changed = True
        while changed:
            changed = False
            rest = []
            for c in left:
                cv = {v for v, _ in c.a[1]}
                if cv & vs:
                    out.append(c)
                    for v in cv - vs:
                        vs.add(v)
                        self._side(v, out, vs)
                    changed = True
                else:
                    rest.append(c)
            left = rest
        return out

    def _side(self, v, out, vs):
        """Facts which come with an atom: the definition of a quotient."""
        e = v.a[0]
        if self.foralls and e.t == 'e' and e.a[0] == 'el':
            for c in self.about(v):
                if c not in out:
                    out.append(c)
        if e.t == 'e' and e.a[0] == 'div':
            x, k = e.a[1], e.a[2]
            q = I(v)
            for c in (isub(x, iscale(q, k)), isub(iadd(iscale(q, k), k - 1), x)):
                if c not in out:
                    out.append(c)
                    for w, _ in c.a[1]:
                        if w not in vs:
                            vs.add(w)
                            self._side(w, out, vs)

    # -- what holds of every element of a range

    def instance(self, bv, n, j):
        """Whether j is among the indices below n for which something holds."""
        return self.decide_ge(j) is True and self.decide_ge(isub(isub(n, j), 1)) is True

    def about(self, v):
        """Inequalities which hold of an element because they hold of all those in a range."""
        out = []
        e = v.a[0]
        if e.t != 'e' or e.a[0] != 'el' or _deep[0] > 2:
            return out
        _deep[0] += 1
        try:
            return self._about(e, out)
        finally:
            _deep[0] -= 1

    def _about(self, e, out):
        for bv, n, c, truth in self.foralls:
            if c.t != 'ge':
                continue
            for w, _ in c.a[0].a[1]:
                x = w.a[0]
                if x.t == 'e' and x.a[0] == 'el' and x.a[1] is e.a[1]:
                    j = solve_index(x.a[2], bv, e.a[2])
                    if j is not None and self.instance(bv, n, j):
                        g = subst(c, {bv: j})
                        if g.t == 'ge':
                            out.append(g.a[0] if truth else isub(iscale(g.a[0], -1), 1))
                    break
        return out

    def instantiated(self, c):
        for bv, n, x, truth in self.foralls:
            if x.t != c.t:
                continue
            j = match_index(x, c, bv)
            if j is not None and subst(x, {bv: j}) is c and (self.instance(bv, n, j) or self.nearly(n, j, c, truth)):
                return truth
        return None

    def nearly(self, n, j, c, truth):
        """Whether an index is in a range but for some places before it, of which the same is known."""
        if self.decide_ge(isub(isub(n, j), 1)) is not True:
            return False
        for v, k in j.a[1]:
            if k != 1:
                continue
            for m in range(1, 4):
                # The case of the index being -m.
                w = isub(isub(I(v), j), m)
                if self.lits.get(subst(c, {v: w})) is not truth and self.decide_ge(isub(iadd(j, m), 0)) is not False:
                    break
                if self.decide_ge(iadd(j, m)) is True:
                    return True
            return False
        return False

    def decide_ge(self, d):
        """Whether d >= 0: True, False or None."""
        lo, hi = ibounds(d)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        cs = self.relevant(d)
        if not cs:
            return None
        if infeasible(cs + [isub(iscale(d, -1), 1)]):
            return True
        if infeasible(cs + [d]):
            return False
        return None

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self.lits.get(c)
        if r is not None:
            return r
        if c.t == 'not':
            r = self.decide(c.a[0])
            return None if r is None else not r
        if c.t == 'and':
            a, b = self.decide(c.a[0]), self.decide(c.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if c.t == 'ge':
            return self.decide_ge(c.a[0])
        if c.t == 'eqz':
            a = self.decide_ge(c.a[0])
            b = self.decide_ge(iscale(c.a[0], -1))
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        r = self.instantiated(c) if self.foralls else None
        if r is None and c.t == 'leq' and RESTATED:
            x = RESTATED[0](c)
            r = None if x is None else self.decide(x)
        return r

    def assume(self, c, truth=True):
        """These facts and one more; None if that is contradictory. Conjunctions are taken apart."""
        r = self.decide(c)
        if r is not None:
            return self if r == truth else None
        if c.t == 'not':
            return self.assume(c.a[0], not truth)
        if c.t == 'and':
            if truth:
                f = self.assume(c.a[0], True)
                return f and f.assume(c.a[1], True)
            # not both
            if self.decide(c.a[0]) is True:
                return self.assume(c.a[1], False)
            if self.decide(c.a[1]) is True:
                return self.assume(c.a[0], False)
        lits = dict(self.lits)
        ineqs = self.ineqs
        if c.t == 'ge':
            ineqs = ineqs + (c.a[0] if truth else isub(iscale(c.a[0], -1), 1),)
        elif c.t == 'eqz':
            if truth:
                ineqs = ineqs + (c.a[0], iscale(c.a[0], -1))
            else:
                lits[c] = False
                if self.decide_ge(c.a[0]):
                    ineqs = ineqs + (isub(c.a[0], 1),)
                elif self.decide_ge(iscale(c.a[0], -1)):
                    ineqs = ineqs + (isub(iscale(c.a[0], -1), 1),)
        else:
            lits[c] = truth
        f = Facts(ineqs, lits, self.foralls)
        if c.t in ('ge',) or (c.t == 'eqz' and truth):
            # Disequalities which have become strict.
            for d, v in list(lits.items()):
                if d.t == 'eqz' and v is False:
                    if f.decide_ge(d.a[0]) and isub(d.a[0], 1) not in f.ineqs:
                        f = Facts(f.ineqs + (isub(d.a[0], 1),), f.lits, f.foralls)
                    elif f.decide_ge(iscale(d.a[0], -1)) and isub(iscale(d.a[0], -1), 1) not in f.ineqs:
                        f = Facts(f.ineqs + (isub(iscale(d.a[0], -1), 1),), f.lits, f.foralls)
                    if f.decide_ge(isub(d.a[0], 1)) is False and f.decide_ge(isub(iscale(d.a[0], -1), 1)) is False:
                        return None
        # Conjunctions known not to hold, of which one side now does.
        for d, v in lits.items():
            if d.t == 'and' and v is False and d is not c:
                a, b = f.decide(d.a[0]), f.decide(d.a[1])
                if a and b:
                    return None
                if a and b is None:
                    f = f.assume(d.a[1], False)
                elif b and a is None:
                    f = f.assume(d.a[0], False)
                if f is None:
                    return None
        return f

    def subst(self, m):
        ine = []
        for c in self.ineqs:
            g = mk_ge(subst(c, m))
            if g is FALSE:
                d = I(-1)
            elif g is TRUE:
                continue
            else:
                d = g.a[0]
            if d not in ine:
                ine.append(d)
        lits = {}
        for c, v in self.lits.items():
            d = subst(c, m)
            if d in (TRUE, FALSE):
                continue
            if d.t == 'not':
                d, v = d.a[0], not v
            lits[d] = v
        fa = tuple((bv, subst(n, m), subst(c, m), v) for bv, n, c, v in self.foralls)
        return Facts(tuple(ine), lits, fa)

    def equations(self):
        """What is both at most and at least zero."""
        s = set(self.ineqs)
        return [c for c in self.ineqs if iscale(c, -1) in s]

    def contradictory(self):
        return bool(self.ineqs) and infeasible(self.ineqs)

    def refuted(self):
        """Whether something known is contrary to what holds of every element of a range."""
        return any(self.instantiated(c) is (not t) for c, t in self.lits.items())

    def with_forall(self, fs):
        return Facts(self.ineqs, self.lits, self.foralls + tuple(f for f in fs if f not in self.foralls))


def solve_index(i, bv, want):
    """The j for which i is want when the bound variable is j."""
    q = dict(i.a[1]).get(bv)
    if not q:
        return None
    d = isub(want, isub(i, iscale(I(bv), q)))
    if d.a[0] % q or any(c % q for _, c in d.a[1]):
        return None
    return mk('int', d.a[0] // q, tuple((v, c // q) for v, c in d.a[1]))


def match_index(x, c, bv):
    """The value of a bound variable with which one term may be another."""
    todo = [(x, c)]
    seen = 0
    while todo and seen < 200:
        a, b = todo.pop()
        seen += 1
        if a is b or bv not in atoms(a) or a.t != b.t:
            continue
        if a.t == 'int' and bv in [v for v, _ in a.a[1]]:
            return solve_index(a, bv, b)
        ca, cb = children(a), children(b)
        if len(ca) == len(cb):
            todo += list(zip(ca, cb))
    return None


def div(x, k):
    """x / k rounded down, for x >= 0 and a constant k > 0."""
    x = I(x)
    c = iconst(x)
    if c is not None:
        return I(c // k)
    if x.a[0] % k == 0 and all(n % k == 0 for _, n in x.a[1]):
        return mk('int', x.a[0] // k, tuple((v, n // k) for v, n in x.a[1]))
    # Take the multiples of k out.
    whole = mk('int', (x.a[0] // k), tuple((v, n // k) for v, n in x.a[1] if n % k == 0))
    rest = isub(x, iscale(whole, k))
    lo, hi = ibounds(rest)
    if lo >= 0 and hi < k:
        return whole
    if lo < 0:
        whole, rest = I(0), x
        lo, hi = ibounds(rest)
    return iadd(whole, I(ia(E('div', rest, k), 0, max(0, hi // k) if hi < BIG * 8 else BIG)))


def rem(x, k):
    return isub(x, iscale(div(x, k), k))


ATOM_RULES.append(lambda kind, e: div(e.a[1], e.a[2]) if e.t == 'e' and e.a[0] == 'div' else None)
