"""The type-checked program, as the driver wrote it."""
import json


class Body(object):
    def __init__(self, world, d, iid):
        self.world, self.d, self.iid = world, d, iid
        self.path = d.get('path', '?')
        self.krate = d.get('krate')
        self.argc = d['argc']
        self.locals = d['locals']
        self.blocks = d['blocks']
        self.promoted = [Body(world, p, None) for p in d.get('promoted', [])]
        self._loops = None
        self._live = None

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t['t']
        if k in ('goto', 'drop', 'dropreplace', 'assert'):
            return [t['to']]
        if k == 'switch':
            return list(t['to'])
        if k == 'call':
            return [t['to']] if t.get('to') is not None else []
        return []

    def loops(self):
        """Loop head -> the blocks of the natural loop."""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {order[0]: order[0]}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in dom:
                        if new is None:
                            new = p
                        else:
                            x, y = new, p
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = dom[x]
                                while idx[y] > idx[x]:
                                    y = dom[y]
                            new = x
                if dom.get(b) != new:
                    dom[b] = new
                    changed = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == dom[b]:
                    return False
                b = dom[b]
        loops = {}
        for b in order:
            for s in self.succs(b):
                if dominates(s, b):
                    body = {s, b}
                    work = [b] if b != s else []
                    while work:
                        x = work.pop()
                        for p in preds[x]:
                            if p not in body:
                                body.add(p)
                                work.append(p)
                    loops.setdefault(s, set()).update(body)
        self._loops = loops
        return loops

    def live_at(self, b):
        """Locals which may be read after reaching a block, before being written; or whose address was taken."""
        if self._live is None:
            self._compute_live()
        return self._live[b]

    def read_at(self, b):
        """Locals which may be read by name after reaching a block, before being written."""
        self.live_at(b)
        return self._read[b]

    def _compute_live(self):
        taken = set()
        use, kill = [], []

        def place(p, uses):
            if p['b'][0] == 'l':
                uses.add(p['b'][1])
            for e in p['p']:
                if e[0] == 'i':
                    uses.add(e[1])

        def operand(o, uses):
            p = o.get('copy') or o.get('move')
            if p:
                place(p, uses)

        def assign(p, u, k):
            us = set()
            place(p, us)
            if p['b'][0] == 'l' and not p['p']:
                us.discard(p['b'][1])
                if p['b'][1] not in u:
                    k.add(p['b'][1])
            u |= us - k

        for blk in self.blocks:
            u, k = set(), set()

            def see(uses):
                u.update(uses - k)
            for s in blk['st']:
                if s['s'] == '=':
                    uses = set()
                    r = s['r']
                    for f in ('o', 'a', 'b'):
                        if isinstance(r.get(f), dict):
                            operand(r[f], uses)
                    for o in r.get('ops', []):
                        operand(o, uses)
                    if 'p' in r:
                        place(r['p'], uses)
                        if r['k'] == 'ref' and r['p']['b'][0] == 'l' and not any(e[0] == '*' for e in r['p']['p']):
                            taken.add(r['p']['b'][1])
                    see(uses)
                    assign(s['p'], u, k)
                elif s['s'] == 'discr':
                    uses = set()
                    place(s['p'], uses)
                    see(uses)
                elif s['s'] in ('dead', 'live'):
                    if s['l'] not in u:
                        k.add(s['l'])
            t = blk['t']
            uses = set()
            for f in ('o', 'f'):
                if isinstance(t.get(f), dict):
                    operand(t[f], uses)
            for o in t.get('a', []) or []:
                operand(o, uses)
            if t['t'] in ('drop', 'dropreplace'):
                place(t['p'], uses)
            see(uses)
            if t.get('dst'):
                assign(t['dst'], u, k)
            if t['t'] == 'return':
                see({0})
            use.append(u)
            kill.append(k)
        n = len(self.blocks)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.succs(b):
                    out |= live[s]
                new = use[b] | (out - kill[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self._live = [l | taken for l in live]
        self._read = live


class World(object):
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.crate = d['crate']
        self.types = d['types']
        self.items = d['items']
        self.adts = d['adts']
        self.consts = d['consts']
        self.impls = d['impls']
        self._bodies = {}
        self.by_path = {}
        for it in self.items:
            self.by_path.setdefault(it['path'], []).append(it)

    def body(self, i):
        b = self._bodies.get(i)
        if b is None:
            b = Body(self, self.d['insts'][i], i)
            self._bodies[i] = b
        return b

    def item(self, path):
        its = self.by_path.get(path, [])
        return its[0] if len(its) == 1 else None

    def find(self, suffix, trait=None, self_ty=None):
        """Items whose path ends so."""
        return [it for it in self.items if it['path'].endswith(suffix)]

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]['s']
