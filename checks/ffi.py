"""The exported functions of the C interface: arguments, results and the operations they name."""
from protocol import *
import cheader

CRATE = 'credential'
ARGS = {
    'buf_free': 'buffer',
    'system_parameters_create': 'seed',
    'issuer_create': 'system_parameters* seed',
    'issuer_new': 'system_parameters* keypair*',
    'issuer_get_issuer_parameters': 'issuer*',
    'issuer_issue': 'issuer* phone_number* seed',
    'issuer_verify': 'issuer* presentation*',
    'issuer_verify_roster_membership': 'issuer* verified_credential*',
    'user_obtain_finish': 'phone_number* system_parameters* issuer_parameters* issuance*',
    'user_show': 'user* roster_entry_commitment* seed',
    'roster_entry_commitment_create': 'phone_number* system_parameters* seed',
    'roster_entry_commitment_remove_opening': 'roster_entry_commitment*',
    'roster_entry_commitment_open': 'roster_entry_commitment* phone_number* system_parameters*'}


def exported():
    fs = [f for f in functions(CRATE, None, None) if f.item['no_mangle']]
    miss = sorted(set(ARGS) - {f.name for f in fs})
    if miss:
        raise Missing('the exported functions ' + ', '.join(miss))
    return sorted(fs, key=lambda f: f.name)


_runs = {}
CACHES.append(_runs)


class Call(object):
    """An exported function on unknown arguments."""

    def __init__(self, c, f, hooks=None):
        self.f = f
        self.r = c.run(f, hooks=hooks or Nizk().hooks)
        self.args = self.r.args
        w = f.w
        kinds = ['ptr' if w.types[t]['k'] == 'ptr' else 'len' if w.types[t]['k'] == 'uint' else '?' for t in f.argtypes()]
        self.buffers = []           # (pointer, length)
        i = 0
        while i < len(kinds):
            if kinds[i] == 'ptr' and i + 1 < len(kinds) and kinds[i + 1] == 'len':
                self.buffers.append((self.args[i], self.args[i + 1]))
                i += 2
            elif kinds[i] == 'ptr':
                self.buffers.append((self.args[i], None))
                i += 1
            else:
                i += 1

    def length(self, p):
        for q, n in self.buffers:
            if q is p:
                return n if n is not None else I(32)
        return None


def buffer(v):
    """(length, pointer) of a buf_t."""
    return F(v, 'len'), F(v, 'ptr')


def failure(v):
    n, p = buffer(v)
    return p.t == 'null' and iconst(n) == 0


def boxed(w, t):
    """Whether a type is a box of a slice of bytes, or a vector of bytes."""
    d = w.types[t] if isinstance(t, int) else None
    if d is None or d['k'] != 'adt':
        return None
    if d.get('box'):
        x = w.types[d['args'][0]]
        return 'box' if x['k'] == 'slice' else None
    return 'vec' if d['path'] == 'alloc::vec::Vec' else None


def given_up(w, s, p):
    """The bytes of the memory behind a pointer which this path gave up to the caller, or why it is not."""
    if p.t != 'ptr' or p.a[1].t != 'seq':
        return 'the pointer is not to memory given up to the caller: ' + show(p)[:300]
    row = p.a[1]
    if p.a[0] == 'owned':
        given = [e for e in s.ev if e[0] == 'into_raw']
        if len(given) != 1 or s.norm(given[0][1]) is not s.norm(row):
            return '%d boxes are given up' % len(given)
        return row
    if p.a[0] == 'heap':
        # as_ptr and mem::forget; the memory of a vector may be larger than its length.
        given = [e for e in s.ev if e[0] == 'forgotten' and s.norm(e[1]) is s.norm(row) and boxed(w, e[2]) == 'box']
        if len(given) != 1 or [e for e in s.ev if e[0] == 'into_raw']:
            return 'the pointer is to memory which is released on return, or larger than its length'
        return row
    return 'the pointer is not to memory given up to the caller: ' + show(p)[:300]


def isnull(p):
    return mk('b', E('null', p.a[0]))


def mem(p, n):
    return sub_of(base(E('mem', p.a[0]), 'u8'), 0, n)
