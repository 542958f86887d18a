"""What the functions of other crates do: the collections and iterators of the standard library, the group and its
scalars, transcripts, generators of random numbers, the wire format.

A model is given the interpreter, the state and the call, and returns the result, or a list of (state, outcome), or
NotImplemented to have the function's own body interpreted.
"""
from terms import *
from interp import *
from facts import div, rem


# ---------------------------------------------------------------- finding a model

def lookup(ip, f):
    path = f.get('rpath') or f['path']
    m = EXACT.get(path)
    if m is not None:
        return m
    for prefix, table in ROWS:
        if path.startswith(prefix) and path[len(prefix):] in table:
            return table[path[len(prefix):]]
    t = f.get('trait') or f.get('impl_trait')
    if t is not None:
        m = TRAITS.get((t, f['name']))
        if m is not None:
            return m
        if t == 'core::iter::iterator::Iterator':
            return iterator_method
    for prefix, m in PREFIXES:
        if path.startswith(prefix):
            return m
    return None


def by_value(ip, st, c):
    """Models for functions without a body, found by what they are called."""
    m = LAST.get((c.trait, c.name))
    return m(ip, st, c) if m is not None else NotImplemented


EXACT, TRAITS, LAST = {}, {}, {}
PREFIXES = []


def exact(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def trait(t, *names):
    def d(f):
        for n in names:
            TRAITS[(t, n)] = f
        return f
    return d


def last(t, *names):
    def d(f):
        for n in names:
            LAST[(t, n)] = f
        return f
    return d


# ---------------------------------------------------------------- helpers

def self_row(ip, st, v):
    """(reference, row) of a row given by reference or by value."""
    r = v
    while True:
        if r.t in ('ref', 'symref'):
            x = ip.deref1(st, r)
            if x.t in ('ref', 'symref'):
                r = x
                continue
            return r, x
        return None, r


def sub_ref(ip, st, r, off, n):
    """A reference to part of a row."""
    cell, path = ip.follow(st, r)
    if path and path[-1][0] == 's':
        return ref(cell, path[:-1] + (('s', iadd(path[-1][1], off), n),))
    return ref(cell, path + (('s', off, n),))


def elem_ref(ip, st, r, i):
    cell, path = ip.follow(st, r)
    if path and path[-1][0] == 's':
        return ref(cell, path[:-1] + (('i', iadd(path[-1][1], i)),))
    return ref(cell, path + (('i', i),))


def write(ip, st, r, v):
    cell, path = ip.follow(st, r)
    ip.store(st, cell, path, v)


def is_range(v):
    return v.t == 'adt' and v.a[0].startswith('core::ops::range::')


# ---------------------------------------------------------------- rows

def row_len(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if s.t != 'seq':
        return NotImplemented
    return slen(s)


def row_is_empty(ip, st, c):
    n = row_len(ip, st, c)
    return n if n is NotImplemented else ieq(n, I(0))


def row_push(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if s.t != 'seq':
        return NotImplemented
    v = c.args[1]
    write(ip, st, r, cat(s, lit(v)))
    return UNIT


def string_push(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if not ip.test(st, ilt(c.args[1], I(128))):
        write(ip, st, r, cat(s, ip.opaque_row(s, E('utf8', c.args[1]))))
        return UNIT
    write(ip, st, r, cat(s, lit(c.args[1])))
    return UNIT


def row_append_slice(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    _, x = self_row(ip, st, c.args[1])
    if s.t != 'seq' or x.t != 'seq':
        return NotImplemented
    write(ip, st, r, cat(s, deref_row(ip, st, x)))
    return UNIT


def row_append(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    q, x = self_row(ip, st, c.args[1])
    write(ip, st, r, cat(s, x))
    write(ip, st, q, EMPTY)
    return UNIT


def row_new(ip, st, c):
    return EMPTY


def row_reserve(ip, st, c):
    return UNIT


def row_clear(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    st.event('truncate', s)
    write(ip, st, r, EMPTY)
    return UNIT


def row_truncate(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if ip.test(st, ige(c.args[1], slen(s))):
        return UNIT
    write(ip, st, r, seq_sub(st.facts, s, I(0), c.args[1]))
    return UNIT


def row_pop(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if not ip.test(st, ige(slen(s), I(1))):
        return NONE
    n = isub(slen(s), 1)
    v = st.norm(seq_index(st.facts, s, n))
    write(ip, st, r, seq_sub(st.facts, s, I(0), n))
    return some(v)


def row_remove(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    i = c.args[1]
    ip.require(st, ilt(i, slen(s)), 'index out of bounds')
    v = st.norm(seq_index(st.facts, s, i))
    i1 = iadd(i, 1)
    write(ip, st, r, cat(seq_sub(st.facts, s, I(0), i), seq_sub(st.facts, s, i1, isub(slen(s), i1))))
    return v


def row_insert(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    i = c.args[1]
    ip.require(st, ige(slen(s), i), 'index out of bounds')
    write(ip, st, r, cat(seq_sub(st.facts, s, I(0), i), lit(c.args[2]), seq_sub(st.facts, s, i, isub(slen(s), i))))
    return UNIT


def row_resize(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    n = slen(s)
    if ip.test(st, ige(n, c.args[1])):
        write(ip, st, r, seq_sub(st.facts, s, I(0), c.args[1]))
    else:
        write(ip, st, r, cat(s, seq((('rep', c.args[2], isub(c.args[1], n)),))))
    return UNIT


def row_same(ip, st, c):
    """The row itself, by value or by reference as it was."""
    return c.args[0]


def row_ref(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if s.t != 'seq':
        return NotImplemented
    return r if r is not None else s


def row_to_vec(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if s.t != 'seq':
        return NotImplemented
    return s


def row_iter(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if s.t != 'seq':
        return NotImplemented
    return mk('it', 'slice', r, I(0), slen(s))


def row_bytes_iter(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    return mk('it', 'vec', s, I(0), slen(s))


def row_chars(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    return mk('it', 'chars', s, I(0), slen(s))


def row_chunks(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    ip.require(st, cnot(ieq(c.args[1], I(0))), 'chunk size of zero')
    return mk('it', 'chunks', r, c.args[1], I(0), slen(s), 'exact' in c.name)


def row_get(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    i = st.norm(c.args[1])
    if s.t != 'seq':
        return NotImplemented
    if i.t == 'int':
        if not ip.test(st, ilt(i, slen(s))):
            return NONE
        return some(elem_ref(ip, st, r, st.norm(i)))
    b = range_bounds(ip, st, i, slen(s))
    if b is None:
        return NotImplemented
    lo, hi = b
    if not ip.test(st, cand(ige(hi, lo), ige(slen(s), hi))):
        return NONE
    return some(sub_ref(ip, st, r, lo, isub(hi, lo)))


def row_first(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if not ip.test(st, ige(slen(s), I(1))):
        return NONE
    return some(elem_ref(ip, st, r, I(0)))


def row_last(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if not ip.test(st, ige(slen(s), I(1))):
        return NONE
    return some(elem_ref(ip, st, r, isub(slen(s), 1)))


def row_split_first(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if not ip.test(st, ige(slen(s), I(1))):
        return NONE
    n = slen(s)
    if c.name == 'split_last':
        return some(tup(elem_ref(ip, st, r, isub(n, 1)), sub_ref(ip, st, r, I(0), isub(n, 1))))
    return some(tup(elem_ref(ip, st, r, I(0)), sub_ref(ip, st, r, I(1), isub(n, 1))))


def row_split_at(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    m = c.args[1]
    ip.require(st, ige(slen(s), m), 'split out of bounds')
    return tup(sub_ref(ip, st, r, I(0), m), sub_ref(ip, st, r, m, isub(slen(s), m)))


def row_copy_from(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    _, x = self_row(ip, st, c.args[1])
    ip.require(st, ieq(slen(s), slen(x)), 'copy_from_slice of another length')
    write(ip, st, r, st.norm(x))
    return UNIT


def row_contains(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    x = ip.deref(st, c.args[1])
    n = iconst(slen(s))
    if n is None or n > 64:
        return mk('cond', E('contains', s, x))
    r = FALSE
    for i in range(n):
        r = cor(r, equal(ip.deref(st, seq_index(st.facts, s, i)), x))
    return r


def row_starts_with(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    _, x = self_row(ip, st, c.args[1])
    if not ip.test(st, ige(slen(s), slen(x))):
        return FALSE
    off = I(0) if c.name == 'starts_with' else isub(slen(s), slen(x))
    return seqeq(seq_sub(st.facts, s, off, slen(x)), x)


def row_as_ptr(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    return mk('ptr', 'into', r, s)


def row_reverse(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    n = iconst(slen(s))
    if n is None or n > 600:
        write(ip, st, r, ip.opaque_row(s, E('reverse', s)))
    else:
        write(ip, st, r, lit(*[seq_index(st.facts, s, i) for i in reversed(range(n))]))
    return UNIT


def row_concat(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    n = iconst(slen(s))
    if n is None:
        return done(append_rows(ip, st, mk('it', 'vec', s, I(0), slen(s)), EMPTY, c.site))
    out = EMPTY
    for i in range(n):
        out = cat(out, ip.deref(st, seq_index(st.facts, s, i)))
    return out


def row_swap(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    i, j = c.args[1], c.args[2]
    ip.require(st, cand(ilt(i, slen(s)), ilt(j, slen(s))), 'index out of bounds')
    a, b = seq_index(st.facts, s, i), seq_index(st.facts, s, j)
    write(ip, st, elem_ref(ip, st, r, i), b)
    write(ip, st, elem_ref(ip, st, r, j), a)
    return UNIT


def row_drain(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    b = range_bounds(ip, st, st.norm(c.args[1]), slen(s))
    if b is None:
        return NotImplemented
    lo, hi = b
    ip.require(st, cand(ige(hi, lo), ige(slen(s), hi)), 'drain out of bounds')
    out = seq_sub(st.facts, s, lo, isub(hi, lo))
    write(ip, st, r, cat(seq_sub(st.facts, s, I(0), lo), seq_sub(st.facts, s, hi, isub(slen(s), hi))))
    return mk('it', 'vec', out, I(0), slen(out))


def row_split_off(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    ip.require(st, ige(slen(s), c.args[1]), 'split_off out of bounds')
    write(ip, st, r, seq_sub(st.facts, s, I(0), c.args[1]))
    return seq_sub(st.facts, s, c.args[1], isub(slen(s), c.args[1]))


def row_swap_remove(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    ip.require(st, ilt(c.args[1], slen(s)), 'swap_remove index out of bounds')
    out = seq_index(st.facts, s, c.args[1])
    last = isub(slen(s), 1)
    write(ip, st, elem_ref(ip, st, r, c.args[1]), seq_index(st.facts, s, last))
    _, s = self_row(ip, st, c.args[0])
    write(ip, st, r, seq_sub(st.facts, s, I(0), last))
    return out


def row_into_boxed(ip, st, c):
    return c.args[0]


_ROW = {
    'len': row_len, 'is_empty': row_is_empty, 'push': row_push, 'pop': row_pop, 'new': row_new,
    'with_capacity': row_new, 'reserve': row_reserve, 'reserve_exact': row_reserve, 'shrink_to_fit': row_reserve,
    'extend_from_slice': row_append_slice, 'append': row_append, 'clear': row_clear, 'truncate': row_truncate,
    'remove': row_remove, 'insert': row_insert, 'resize': row_resize, 'into_boxed_slice': row_into_boxed,
    'as_slice': row_ref, 'as_mut_slice': row_ref, 'as_ref': row_ref, 'into_vec': row_same, 'to_vec': row_to_vec,
    'to_owned': row_to_vec, 'iter': row_iter, 'iter_mut': row_iter, 'chunks': row_chunks, 'chunks_exact': row_chunks,
    'chunks_mut': row_chunks, 'exact_chunks': row_chunks,
    'get': row_get, 'get_mut': row_get, 'first': row_first, 'last': row_last, 'first_mut': row_first,
    'last_mut': row_last, 'split_first': row_split_first, 'split_last': row_split_first, 'split_at': row_split_at,
    'split_at_mut': row_split_at, 'copy_from_slice': row_copy_from, 'clone_from_slice': row_copy_from,
    'split_off': row_split_off, 'swap_remove': row_swap_remove,
    'contains': row_contains, 'starts_with': row_starts_with, 'ends_with': row_starts_with, 'as_ptr': row_as_ptr,
    'as_mut_ptr': row_as_ptr, 'reverse': row_reverse, 'concat': row_concat, 'swap': row_swap, 'drain': row_drain,
}
_STR = dict(_ROW)
_STR.update({'as_bytes': row_ref, 'as_str': row_ref, 'into_bytes': row_same, 'push_str': row_append_slice,
             'push': string_push, 'bytes': row_bytes_iter, 'chars': row_chars, 'into_string': row_same,
             'to_string': row_to_vec, 'as_mut_str': row_ref})
for x in ('remove', 'insert', 'resize', 'get', 'split_at', 'iter', 'contains', 'pop', 'drain'):
    _STR.pop(x, None)
ROWS = [('<alloc::vec::Vec<T>>::', _ROW), ('core::slice::<impl [T]>::', _ROW), ('alloc::slice::<impl [T]>::', _ROW),
        ('alloc::string::String::', _STR), ('core::str::<impl str>::', _STR), ('alloc::str::<impl str>::', _STR),
        ('alloc::slice::<impl alloc::borrow::ToOwned for [T]>::', _ROW),
        ('alloc::str::<impl alloc::borrow::ToOwned for str>::', _STR)]


@exact('alloc::vec::from_elem')
def from_elem(ip, st, c):
    return seq((('rep', c.args[0], c.args[1]),))


@exact('<alloc::vec::Vec<T> as core::convert::From<&\'a [T]>>::from',
       '<alloc::vec::Vec<T> as core::convert::From<&\'a mut [T]>>::from',
       '<alloc::string::String as core::convert::From<&\'a str>>::from',
       '<alloc::vec::Vec<u8> as core::convert::From<alloc::string::String>>::from',
       '<alloc::vec::Vec<T> as core::convert::From<alloc::boxed::Box<[T]>>>::from',
       '<alloc::boxed::Box<[T]> as core::convert::From<alloc::vec::Vec<T>>>::from',
       '<alloc::boxed::Box<T> as core::convert::From<T>>::from')
def row_from(ip, st, c):
    return row_to_vec(ip, st, c)


@exact('<T as alloc::string::ToString>::to_string')
def to_string(ip, st, c):
    a = ip.deref(st, c.args[0])
    if a.t == 'int':
        # The one digit of a small number.
        if st.decide(ige(a, I(0))) is True and st.decide(ige(I(9), a)) is True:
            return lit(iadd(a, 48))
        return NotImplemented
    return row_to_vec(ip, st, c)


def from_utf8(ip, st, c):
    v = ip.deref(st, c.args[0])
    n = iconst(slen(v)) if v.t == 'seq' else None
    if n is None or n > 64:
        return NotImplemented
    for i in range(n):
        x = st.norm(seq_index(st.facts, v, I(i)))
        if x.t != 'int' or st.decide(ige(I(127), x)) is not True or st.decide(ige(x, I(0))) is not True:
            return NotImplemented
    return ok(c.args[0])


for x in ('alloc::string::String::from_utf8', 'core::str::from_utf8'):
    EXACT[x] = from_utf8


# -- ranges and indices

def range_bounds(ip, st, v, n):
    """(from, to) of a range used to take a slice of n elements."""
    if v.t != 'adt':
        return None
    name = v.a[0].split('::')[-1]
    f = v.a[2]
    if name == 'Range':
        return f[0], f[1]
    if name == 'RangeFrom':
        return f[0], n
    if name == 'RangeTo':
        return I(0), f[0]
    if name == 'RangeFull':
        return I(0), n
    if name == 'RangeInclusive':
        return f[0], iadd(f[1], 1)
    if name == 'RangeToInclusive':
        return I(0), iadd(f[0], 1)
    return None


@trait('core::ops::index::Index', 'index')
@trait('core::ops::index::IndexMut', 'index_mut')
def index(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    if s.t == 'poly':
        ip.require(st, ilt(c.args[1], I(32)), 'index out of bounds')
        ip.indices.append((c.site[0], c.site[1], c.args[1], st.norm(c.args[1])))
        return vref(seq_index(st.facts, scalar_bytes(s), st.norm(c.args[1])))
    if s.t != 'seq':
        return NotImplemented
    i = st.norm(c.args[1])
    n = slen(s)
    if i.t == 'int':
        ip.indices.append((c.site[0], c.site[1], c.args[1], i))
        ip.require(st, ilt(i, n), 'index out of bounds')
        return elem_ref(ip, st, r, st.norm(i))
    b = range_bounds(ip, st, i, n)
    if b is None:
        return NotImplemented
    lo, hi = b
    ip.indices.append((c.site[0], c.site[1], c.args[1], lo))
    ip.indices.append((c.site[0], c.site[1], c.args[1], hi))
    ip.require(st, ige(hi, lo), 'slice out of bounds')
    ip.require(st, ige(slen(ip.deref(st, r)), st.norm(hi)), 'slice out of bounds')
    lo, hi = st.norm(lo), st.norm(hi)
    return sub_ref(ip, st, r, lo, isub(hi, lo))


@trait('core::ops::deref::Deref', 'deref')
@trait('core::ops::deref::DerefMut', 'deref_mut')
@trait('core::convert::AsRef', 'as_ref')
@trait('core::convert::AsMut', 'as_mut')
@trait('core::borrow::Borrow', 'borrow')
@trait('core::borrow::BorrowMut', 'borrow_mut')
def deref_(ip, st, c):
    if c.args[0].t not in ('ref', 'symref'):
        return NotImplemented
    r, s = self_row(ip, st, c.args[0])
    if s.t == 'seq':
        return r
    if c.f.get('inst') is None:
        return c.args[0]
    return NotImplemented


# ---------------------------------------------------------------- iterators

def to_it(ip, st, v):
    """An iterator from a value which can be iterated over; None if it is not known how."""
    if v.t == 'it':
        return v
    if v.t == 'seq':
        return mk('it', 'vec', v, I(0), slen(v))
    if v.t == 'adt' and v.a[0] == RANGE:
        return mk('it', 'range', v.a[2][0], v.a[2][1])
    if v.t == 'adt' and v.a[0] == 'core::ops::range::RangeInclusive':
        return mk('it', 'range', v.a[2][0], iadd(v.a[2][1], 1))
    if v.t == 'adt' and v.a[0] == 'core::ops::range::RangeFrom':
        return mk('it', 'range', v.a[2][0], I(BIG))
    if v.t == 'adt' and v.a[0] == OPTION:
        x = lit(*v.a[2])
        return mk('it', 'vec', x, I(0), slen(x))
    if v.t in ('ref', 'symref'):
        r, s = self_row(ip, st, v)
        if s.t == 'seq':
            return mk('it', 'slice', r, I(0), slen(s))
        if s.t == 'it' or (s.t == 'adt' and s.a[0] == RANGE):
            return mk('it', 'by_ref', r)
        if s.t == 'adt' and s.a[0] == OPTION:
            cell, path = ip.follow(st, r)
            x = lit(*[ref(cell, path + (('f', 0),)) for _ in s.a[2]])
            return mk('it', 'vec', x, I(0), slen(x))
    return None


def one(st, it, item):
    return [(st, it, item)]


def it_next(ip, st, it, back=False):
    """[(state, iterator, item or None)]; or a panic's outcome in place of the iterator."""
    k = it.a[0]
    if k in ('slice', 'vec', 'range', 'chars'):
        if k == 'range':
            pos, end = it.a[1], it.a[2]
        else:
            pos, end = it.a[2], it.a[3]
        if not ip.test(st, ilt(pos, end)):
            return one(st, it, None)
        it = st.norm(it)
        if k == 'range':
            pos, end = it.a[1], it.a[2]
            return one(st, mk('it', k, pos, isub(end, 1)), isub(end, 1)) if back else \
                one(st, mk('it', k, iadd(pos, 1), end), pos)
        src, pos, end = it.a[1], it.a[2], it.a[3]
        i = isub(end, 1) if back else pos
        if k == 'chars':
            b = seq_index(st.facts, src, i)
            if not ip.test(st, ilt(st.norm(b), I(128))):
                ip.counter += 1
                step = ia(E('charlen', src, i), 2, 4)
                nxt = iadd(pos, I(step))
                f = st.facts.assume(ige(end, nxt))
                if f is not None:
                    st.facts = f
                return one(st, mk('it', k, src, nxt, end), I(ia(E('char', src, i), 128, 0x10ffff)))
            item = st.norm(b)
        elif k == 'slice':
            item = elem_ref(ip, st, src, i)
        else:
            item = st.norm(seq_index(st.facts, src, i))
        nit = mk('it', k, src, pos, i) if back else mk('it', k, src, iadd(pos, 1), end)
        return one(st, nit, item)
    if k == 'gen':
        if not ip.test(st, ilt(it.a[2], it.a[3])):
            return one(st, it, None)
        out = []
        for s, o in call_stateful(ip, st, st.norm(it.a[1]), []):
            if o[0] != 'ret':
                out.append((s, mk('panicked', o), None))
            else:
                i2 = s.norm(it)
                nxt = (i2.a[2], isub(i2.a[3], 1)) if back else (iadd(i2.a[2], 1), i2.a[3])
                out.append((s, mk('it', k, o[1], *nxt), o[2]))
        return out
    if k == 'chunks':
        r, size, pos, end, exact_ = it.a[1:]
        if back:
            raise Unsupported('chunks from the back')
        if not ip.test(st, ilt(pos, end)):
            return one(st, it, None)
        if not ip.test(st, st.norm(ige(isub(end, pos), size))):
            it = st.norm(it)
            r, size, pos, end, exact_ = it.a[1:]
            if exact_:
                return one(st, mk('it', k, r, size, end, end, exact_), None)
            return one(st, mk('it', k, r, size, end, end, exact_), sub_ref(ip, st, r, pos, isub(end, pos)))
        it = st.norm(it)
        r, size, pos, end, exact_ = it.a[1:]
        return one(st, mk('it', k, r, size, iadd(pos, size), end, exact_), sub_ref(ip, st, r, pos, size))
    if k == 'enum':
        if back:
            n = it_len(ip, st, it.a[1])
            out = []
            for s, i2, item in it_next(ip, st, it.a[1], True):
                x = None if item is None else tup(iadd(it.a[2], isub(n, 1)), item)
                out.append((s, mk('it', k, i2, it.a[2]) if i2.t == 'it' else i2, x))
            return out
        out = []
        for s, i2, item in it_next(ip, st, it.a[1]):
            if i2.t != 'it':
                out.append((s, i2, None))
            elif item is None:
                out.append((s, mk('it', k, i2, it.a[2]), None))
            else:
                n = s.norm(it.a[2])
                out.append((s, mk('it', k, i2, iadd(n, 1)), tup(n, item)))
        return out
    if k == 'zip':
        out = []
        for s, a2, x in it_next(ip, st, it.a[1], back):
            if a2.t != 'it' or x is None:
                out.append((s, mk('it', k, a2, it.a[2]) if a2.t == 'it' else a2, None))
                continue
            for s2, b2, y in it_next(ip, s, s.norm(it.a[2]), back):
                if b2.t != 'it':
                    out.append((s2, b2, None))
                else:
                    out.append((s2, mk('it', k, s2.norm(a2), b2), None if y is None else tup(s2.norm(x), y)))
        return out
    if k == 'rev':
        return [(s, mk('it', k, i2) if i2.t == 'it' else i2, x) for s, i2, x in it_next(ip, st, it.a[1], not back)]
    if k == 'chain':
        a, b = (it.a[2], it.a[1]) if back else (it.a[1], it.a[2])
        out = []
        for s, a2, x in it_next(ip, st, a, back):
            if a2.t != 'it' or x is not None:
                r = mk('it', k, s.norm(b), a2) if back else mk('it', k, a2, s.norm(b))
                out.append((s, r if a2.t == 'it' else a2, x))
                continue
            for s2, b2, y in it_next(ip, s, s.norm(b), back):
                if b2.t != 'it':
                    out.append((s2, b2, None))
                else:
                    out.append((s2, mk('it', k, b2, a2) if back else mk('it', k, a2, b2), y))
        return out
    if k == 'cloned':
        out = []
        for s, i2, x in it_next(ip, st, it.a[1], back):
            if i2.t != 'it':
                out.append((s, i2, None))
            else:
                out.append((s, mk('it', k, i2), None if x is None else s.norm(ip.deref1(s, x)) if x.t in ('ref', 'symref') else x))
        return out
    if k == 'by_ref':
        inner = to_it(ip, st, ip.deref1(st, it.a[1]))
        out = []
        for s, i2, x in it_next(ip, st, inner, back):
            if i2.t == 'it':
                write(ip, s, it.a[1], i2)
            out.append((s, it if i2.t == 'it' else i2, x))
        return out
    if k == 'take':
        n = it.a[2]
        if not ip.test(st, ige(n, I(1))):
            return one(st, it, None)
        out = []
        for s, i2, x in it_next(ip, st, it.a[1], back):
            out.append((s, mk('it', k, i2, isub(s.norm(n), 1)) if i2.t == 'it' else i2, x))
        return out
    if k == 'flat':
        # The current inner iterator, if there is one, and then those which the outer one gives.
        out, todo, n = [], [(st, it)], 0
        while todo:
            s, i = todo.pop()
            n += 1
            if n > 200:
                raise Unsupported('many empty iterators in a flattened one')
            if back:
                raise Unsupported('flattened iterator from the back')
            if i.a[2].a[0]:
                for s2, c2, x in it_next(ip, s, s.norm(i.a[2].a[0][0])):
                    if c2.t != 'it':
                        out.append((s2, c2, None))
                    elif x is not None:
                        out.append((s2, mk('it', k, s2.norm(i.a[1]), tup(c2)), x))
                    else:
                        todo.append((s2, mk('it', k, s2.norm(i.a[1]), tup())))
                continue
            for s2, o2, x in it_next(ip, s, s.norm(i.a[1])):
                if o2.t != 'it':
                    out.append((s2, o2, None))
                elif x is None:
                    out.append((s2, mk('it', k, o2, tup()), None))
                else:
                    inner = inner_it(ip, s2, x)
                    todo.append((s2, mk('it', k, s2.norm(o2), tup(inner))))
        return out
    if k == 'step':
        n, pos, end = it.a[1:]
        if back:
            raise Unsupported('stepped range from the back')
        if not ip.test(st, ilt(pos, end)):
            return one(st, it, None)
        it = st.norm(it)
        return one(st, mk('it', k, n, iadd(it.a[2], n), it.a[3]), it.a[2])
    if k == 'skip_while':
        out, todo, n = [], [(st, it)], 0
        while todo:
            s, i = todo.pop()
            n += 1
            if n > 200:
                raise Unsupported('long run which is skipped')
            for s2, i2, x in it_next(ip, s, i.a[1], back):
                if i2.t != 'it' or x is None or i.a[3] is TRUE:
                    out.append((s2, mk('it', k, i2, i.a[2], i.a[3]) if i2.t == 'it' else i2, x))
                    continue
                ip.counter += 1
                cell = ('c', ip.counter)
                s2.mem[cell] = x
                for s3, o in call_stateful(ip, s2, s2.norm(i.a[2]), [ref(cell)]):
                    if o[0] != 'ret':
                        out.append((s3, mk('panicked', o), None))
                        continue
                    for s4, o4 in ip.split(s3, lambda t: boolean(ip.test(t, o[2]))):
                        j = mk('it', k, s4.norm(i2), o[1], FALSE if o4[1] is TRUE else TRUE)
                        if o4[1] is TRUE:
                            todo.append((s4, j))
                        else:
                            out.append((s4, j, s4.norm(x)))
        return out
    if k == 'peek':
        if it.a[2].a[0]:
            x = it.a[2].a[0][0]
            return one(st, mk('it', k, it.a[1], tup()), x.a[2][0] if x.a[1] == 1 else None)
        return [(s, mk('it', k, i2, tup()) if i2.t == 'it' else i2, x) for s, i2, x in it_next(ip, st, it.a[1], back)]
    if k in ('map', 'filter', 'filter_map', 'inspect', 'take_while'):
        out = []
        for s, i2, x in it_next(ip, st, it.a[1], back):
            if i2.t != 'it' or x is None:
                out.append((s, mk('it', k, i2, it.a[2]) if i2.t == 'it' else i2, None))
                continue
            arg = x
            if k in ('filter', 'inspect', 'take_while'):
                ip.counter += 1
                cell = ('c', ip.counter)
                s.mem[cell] = x
                arg = ref(cell)
            for s2, o in call_stateful(ip, s, s.norm(it.a[2]), [arg]):
                if o[0] != 'ret':
                    out.append((s2, mk('panicked', o), None))
                    continue
                clo, v = o[1], o[2]
                nit = mk('it', k, s2.norm(i2), clo)
                if k == 'map':
                    out.append((s2, nit, v))
                elif k == 'inspect':
                    out.append((s2, nit, s2.norm(x)))
                elif k == 'filter':
                    for s3, o3 in ip.split(s2, lambda t: boolean(ip.test(t, v))):
                        if o3[1] is TRUE:
                            out.append((s3, s3.norm(nit), s3.norm(x)))
                        else:
                            out.extend(it_next(ip, s3, s3.norm(nit), back))
                elif k == 'take_while':
                    for s3, o3 in ip.split(s2, lambda t: boolean(ip.test(t, v))):
                        out.append((s3, s3.norm(nit), s3.norm(x) if o3[1] is TRUE else None))
                else:
                    for s3, o3 in ip.split(s2, lambda t: ip.discr(t, t.norm(v), None) if t.norm(v).t == 'adt' else ip.discr(t, t.norm(v), 0)):
                        y = s3.norm(v)
                        if y.a[1] == 1:
                            out.append((s3, s3.norm(nit), y.a[2][0]))
                        else:
                            out.extend(it_next(ip, s3, s3.norm(nit), back))
        return out
    raise Unsupported('iterator %s' % k)


def inner_it(ip, st, x):
    """The iterator over an item which is itself iterated over."""
    it = to_it(ip, st, x)
    if it is None:
        raise Unsupported('an inner iterator')
    return it


def append_rows(ip, st, it, acc, site, byref=False):
    """Append to a row all the items of each of the rows which an iterator gives, as a consume()."""
    def f(s, acc, item):
        inner = inner_it(ip, s, item)
        x = it_row(ip, s, inner) if byref else it_row_values(ip, s, inner)
        if x is None and not byref and inner.a[0] == 'slice':
            x = it_row(ip, s, inner)
        if x is not None:
            return [(s, ('next', cat(acc, x)))]
        out = []
        for s2, o in collected(ip, s, inner, 'row', site):
            if o[0] != 'ret':
                out.append((s2, o))
            else:
                out.append((s2, ('next', cat(s2.norm(acc), deref_row(ip, s2, o[1]) if byref else o[1]))))
        return out
    return consume(ip, st, it, acc, f, site)


def flattened(it):
    """What a flattened iterator which was not used yet flattens, and whether its items are taken through references."""
    byref = False
    while it.a[0] == 'cloned':
        it, byref = it.a[1], True
    return (it.a[1], byref) if it.a[0] == 'flat' and not it.a[2].a[0] else (None, False)


def taken(ip, st, it, n):
    k = it.a[0]
    if k in ('slice', 'vec', 'range', 'gen'):
        if ip.test(st, ige(n, it_len(ip, st, it))):
            return it
        a = list(it.a)
        a[-1] = iadd(a[-2], n)
        return mk('it', *a)
    if k in ('map', 'inspect', 'cloned', 'enum'):
        return mk('it', k, taken(ip, st, it.a[1], n), *it.a[2:])
    return mk('it', 'take', it, n)


def call_stateful(ip, st, clo, args):
    """Call a closure which is kept by value: [(state, ('ret', closure, value) | panic)]."""
    if clo.t == 'clo':
        ip.counter += 1
        cell = ('c', ip.counter)
        st.mem[cell] = clo
        out = []
        for s, o in ip.call_closure(st, clo, ref(cell), args, None):
            if o[0] == 'ret':
                out.append((s, ('ret', s.mem.pop(cell), o[1])))
            else:
                out.append((s, o))
        return out
    return [(s, ('ret', clo, o[1]) if o[0] == 'ret' else o) for s, o in ip.call_value(st, clo, args, None)]


def it_len(ip, st, it):
    k = it.a[0]
    if k in ('slice', 'vec', 'gen'):
        return isub(it.a[3], it.a[2])
    if k == 'range':
        return isub(it.a[2], it.a[1])
    if k in ('enum', 'rev', 'cloned', 'map', 'inspect'):
        return it_len(ip, st, it.a[1])
    if k == 'chunks':
        n = isub(it.a[4], it.a[3])
        s = iconst(it.a[2])
        if s:
            return div(n if it.a[5] else iadd(n, s - 1), s)
    if k == 'zip':
        a, b = it_len(ip, st, it.a[1]), it_len(ip, st, it.a[2])
        return a if ip.test(st, ige(b, a)) else b
    if k == 'chain':
        return iadd(it_len(ip, st, it.a[1]), it_len(ip, st, it.a[2]))
    raise Unsupported('length of iterator %s' % k)


def deref_row(ip, st, s):
    """A row with references to elements replaced by the elements."""
    if all(g[0] != 'lit' or all(v.t not in ('ref', 'symref') for v in g[1]) for g in s.a[0]):
        return s
    segs = []
    for g in s.a[0]:
        if g[0] == 'lit':
            segs.append(('lit', tuple(ip.deref(st, v) for v in g[1])))
        else:
            segs.append(g)
    return seq(segs)


def it_row(ip, st, it):
    """All the items of an iterator as a row, where that needs no closure; references taken through. Or None."""
    k = it.a[0]
    if k == 'slice':
        s = ip.deref(st, it.a[1])
        return deref_row(ip, st, seq_sub(st.facts, s, it.a[2], isub(it.a[3], it.a[2])))
    if k == 'vec':
        return deref_row(ip, st, seq_sub(st.facts, it.a[1], it.a[2], isub(it.a[3], it.a[2])))
    if k == 'cloned':
        return it_row(ip, st, it.a[1])
    if k == 'chain':
        a, b = it_row(ip, st, it.a[1]), it_row(ip, st, it.a[2])
        return None if a is None or b is None else cat(a, b)
    if k == 'rev':
        a = it_row(ip, st, it.a[1])
        n = None if a is None else iconst(slen(a))
        if n is not None and n < 100:
            return lit(*[seq_index(st.facts, a, i) for i in reversed(range(n))])
    return None


def consume(ip, st, it, acc, f, site):
    """Run through an iterator: f(state, acc, item) gives [(state, ('next', acc) | ('stop', value) | panic)].
    [(state, ('done', acc) | ('stop', value) | panic)]"""
    from loops import summarise
    ip.counter += 1
    uid = ip.counter
    ci, ca = ('x', uid, 'it'), ('x', uid, 'acc')
    st.mem[ci], st.mem[ca] = it, acc

    def step(s):
        out = []

        def nx(t):
            r = it_next(ip, t, t.norm(t.mem[ci]))
            return [(a, ('item', b, c)) for a, b, c in r]
        for a, o in ip.split(s, nx, site):
            if o[0] == 'panic':
                out.append((a, o))
                continue
            _, i2, item = o
            if i2.t == 'panicked':
                out.append((a, i2.a[0]))
                continue
            a.mem[ci] = i2
            if item is None:
                out.append((a, ('done',)))
                continue

            def body(t):
                return f(t, t.norm(t.mem[ca]), t.norm(item))
            for b, o2 in ip.split(a, body, site):
                if o2[0] == 'next':
                    b.mem[ca] = o2[1]
                    out.append((b, ('back',)))
                else:
                    out.append((b, o2))
        return out
    res = []
    for s, o in summarise(ip, st, step, lambda s: s, ('iterator', uid)):
        acc = s.norm(s.mem.get(ca, UNDEF))
        s.mem.pop(ci, None)
        s.mem.pop(ca, None)
        if o[0] == 'done':
            res.append((s, ('done', acc)))
        else:
            res.append((s, o))
    return res


def collected(ip, st, it, kind, site):
    """Collect into a row: [(state, outcome)]."""
    if kind == 'row':
        x = it_row_values(ip, st, it)
        if x is not None:
            return [(st, ('ret', x))]
        o, byref = flattened(it)
        if o is not None:
            return done(append_rows(ip, st, o, EMPTY, site, byref))

        def f(s, acc, item):
            return [(s, ('next', cat(acc, lit(item))))]
        return [(s, ('ret', o[1]) if o[0] == 'done' else o) for s, o in consume(ip, st, it, EMPTY, f, site)]
    good, badv = (1, 0) if kind == OPTION else (0, 1)

    def g(s, acc, item):
        if item.t == 'sym':
            raise ForkVariant(item)
        if item.a[1] == good:
            return [(s, ('next', cat(acc, lit(item.a[2][0]))))]
        return [(s, ('stop', item))]
    out = []
    for s, o in consume(ip, st, it, EMPTY, g, site):
        if o[0] == 'done':
            out.append((s, ('ret', adt(kind, good, (o[1],)))))
        elif o[0] == 'stop':
            out.append((s, ('ret', adt(kind, badv, o[1].a[2]))))
        else:
            out.append((s, o))
    return out


def it_row_values(ip, st, it):
    """The items as they are, when they are the elements of a row."""
    k = it.a[0]
    if k == 'vec':
        return seq_sub(st.facts, it.a[1], it.a[2], isub(it.a[3], it.a[2]))
    if k == 'cloned':
        return it_row(ip, st, it.a[1])
    return None


def target(ip, c):
    """What is collected into, from the type of the result."""
    d = ip.ty(c.dty) if c.dty is not None else {}
    p = d.get('path')
    if p in (OPTION, RESULT):
        inner = ip.ty(d['args'][0]).get('path')
        return p if inner in (VEC, STRING) or ip.ty(d['args'][0])['k'] == 'slice' else None
    if p in (VEC, STRING) or d.get('box'):
        return 'row'
    return None


def advanced(ip, st, it, k):
    """An iterator after k items, or None."""
    a = it.a
    if a[0] in ('slice', 'vec'):
        return mk('it', a[0], a[1], iadd(a[2], k), a[3])
    if a[0] == 'range':
        return mk('it', 'range', iadd(a[1], k), a[2])
    x = advanced(ip, st, a[1], k) if a[0] in ('cloned', 'enum') else None
    if x is None:
        return None
    return mk('it', 'cloned', x) if a[0] == 'cloned' else mk('it', 'enum', x, iadd(a[2], k))


def every_pair(ip, st, it, n, clo, want, site):
    """The same for pairs of the elements of two rows, of any number, which are compared with each other."""
    if it.a[0] != 'zip' or any(x.a[0] not in ('slice', 'vec', 'cloned') for x in it.a[1:3]):
        return None
    rows = [it_row(ip, st, x) for x in it.a[1:3]]
    if any(x is None for x in rows):
        return None
    s = st.copy()
    ip.counter += 1
    k = ia(E('any', ip.counter), 0, BIG)
    if not s.assume(ilt(I(k), n), True):
        return None
    try:
        vs = [s.norm(seq_index(s.facts, x, I(k))) for x in rows]
        items = [vref(v) if x.a[0] == 'slice' else v for x, v in zip(it.a[1:3], vs)]
        before, ev = dict(s.mem), s.ev
        o = ip.call_value(s, clo, [mk('tup', tuple(items))], site)
    except (Fork, ForkVariant):
        return None
    if len(o) != 1 or o[0][1][0] != 'ret' or not is_cond(o[0][1][1]):
        return None
    cur, x = o[0][0], o[0][1][1]
    if cur.ev is not ev or any(cur.mem.get(q) is not v for q, v in before.items()):
        return None
    x = cnot(x) if want else x
    if equal(vs[0], vs[1]) is not x or x is TRUE:
        return None
    ip.branches.append((site, x))
    return st, seqeq(*[seq_sub(st.facts, y, I(0), n) for y in rows])


def every(ip, st, it, clo, want, site):
    """Whether a predicate without effects holds of each of a known number of items (want: fails of each), as one
    condition. (state, condition) or None."""
    n = iconst(it_len(ip, st, it))
    if n is None:
        return every_pair(ip, st, it, it_len(ip, st, it), clo, want, site)
    if n > 128 or n < 2:
        return None
    cur, got = st.copy(), []
    try:
        for _ in range(n):
            r = it_next(ip, cur, it)
            if len(r) != 1 or r[0][2] is None or r[0][1].t == 'panicked':
                return None
            cur, it, item = r[0]
            before = dict(cur.mem)
            ev = cur.ev
            o = ip.call_value(cur, clo, [item], site)
            if len(o) != 1 or o[0][1][0] != 'ret' or not is_cond(o[0][1][1]):
                return None
            cur = o[0][0]
            if cur.ev is not ev or any(cur.mem.get(k) is not v for k, v in before.items()):
                return None
            x = o[0][1][1]
            got.append((cnot(x) if want else x, item))
    except (Fork, ForkVariant):
        return None
    for x, _ in got:
        if x is not TRUE and x is not FALSE:
            ip.branches.append((site, x))
    # Two rows compared element by element.
    sides = []
    for x, item in got:
        items = item.a[0] if item.t == 'tup' else (item,)
        vs = [ip.deref(cur, v) for v in items]
        if len(vs) == 1 and x.t == 'eqz' and vs[0].t == 'int' and len(vs[0].a[1]) == 1:
            v = iconst(iadd(vs[0], x.a[0])), iconst(isub(vs[0], x.a[0]))
            v = [k for k in v if k is not None]
            vs = [vs[0], I(v[0])] if v else []
        if len(vs) != 2 or equal(vs[0], vs[1]) is not x:
            break
        sides.append(vs)
    if len(sides) == len(got):
        return cur, seqeq(cat(*[lit(a) for a, _ in sides]), cat(*[lit(b) for _, b in sides]))
    r = TRUE
    for x, _ in got:
        r = cand(r, x)
    return cur, r


def iterator_method(ip, st, c):
    n = c.name
    v = c.args[0]
    if n in ('next', 'size_hint', 'by_ref', 'nth', 'all', 'any', 'position', 'find', 'find_map', 'peek'):
        r = v
        it = to_it(ip, st, ip.deref1(st, r)) if r.t in ('ref', 'symref') else None
    else:
        r = None
        it = to_it(ip, st, v)
    if it is None:
        return NotImplemented
    if n == 'next' or n == 'next_back':
        out = []
        for s, i2, x in it_next(ip, st, it, n == 'next_back'):
            if i2.t == 'panicked':
                out.append((s, i2.a[0]))
                continue
            write(ip, s, r, i2)
            out.append((s, ('ret', NONE if x is None else some(x))))
        return out
    if n == 'nth':
        k = st.norm(c.args[1])
        i2 = advanced(ip, st, it, k)
        if i2 is None:
            return NotImplemented
        if not ip.test(st, ilt(k, it_len(ip, st, it))):
            write(ip, st, r, advanced(ip, st, it, it_len(ip, st, it)))
            return NONE
        out = []
        for s, i3, x in it_next(ip, st, st.norm(i2)):
            if i3.t == 'panicked':
                out.append((s, i3.a[0]))
                continue
            write(ip, s, r, i3)
            out.append((s, ('ret', NONE if x is None else some(x))))
        return out
    if n == 'by_ref':
        return r
    if n == 'enumerate':
        return mk('it', 'enum', it, I(0))
    if n == 'zip':
        b = to_it(ip, st, c.args[1])
        return NotImplemented if b is None else mk('it', 'zip', it, b)
    if n == 'chain':
        b = to_it(ip, st, c.args[1])
        return NotImplemented if b is None else mk('it', 'chain', it, b)
    if n == 'rev':
        return mk('it', 'rev', it)
    if n in ('cloned', 'copied'):
        return mk('it', 'cloned', it)
    if n == 'fuse':
        return it
    if n == 'take':
        return taken(ip, st, it, c.args[1])
    if n == 'skip':
        k = it.a[0]
        if k in ('slice', 'vec', 'range'):
            ln = it_len(ip, st, it)
            a = list(it.a)
            if ip.test(st, ige(c.args[1], ln)):
                a[-2] = a[-1]
            else:
                a[-2] = iadd(a[-2], c.args[1])
            return mk('it', *a)
        m = iconst(c.args[1])
        if m is None or m > 50:
            return NotImplemented
        return skip(ip, st, it, m, c.site)
    if n in ('map', 'filter', 'filter_map', 'inspect', 'take_while'):
        return mk('it', n, it, c.args[1])
    if n == 'peekable':
        return mk('it', 'peek', it, tup())
    if n == 'flat_map':
        return mk('it', 'flat', mk('it', 'map', it, c.args[1]), tup())
    if n == 'flatten':
        return mk('it', 'flat', it, tup())
    if n == 'skip_while':
        return mk('it', n, it, c.args[1], FALSE)
    if n == 'step_by' and it.a[0] == 'range' and iconst(c.args[1]):
        return mk('it', 'step', c.args[1], it.a[1], it.a[2])
    if n in ('eq', 'ne'):
        b = to_it(ip, st, c.args[1])
        x, y = (None, None) if b is None else (it_row(ip, st, it), it_row(ip, st, b))
        if x is None or y is None:
            return NotImplemented
        same = seqeq(x, y)
        return same if n == 'eq' else cnot(same)
    if n in ('try_for_each', 'try_fold'):
        kind = ip.ty(c.dty).get('path')
        if kind not in (OPTION, RESULT):
            return NotImplemented
        good = 1 if kind == OPTION else 0
        start, clo = (UNIT, c.args[1]) if n == 'try_for_each' else (c.args[1], c.args[2])
        ip.counter += 1
        cell = ('c', ip.counter)
        st.mem[cell] = clo

        def f(s, acc, item):
            out = []
            for a, o in ip.call_value(s, ref(cell) if clo.t == 'clo' else clo,
                                      [item] if n == 'try_for_each' else [acc, item], c.site):
                if o[0] != 'ret':
                    out.append((a, o))
                    continue
                for b, _ in ip.split(a, lambda t: ip.discr(t, t.norm(o[1]), 0)):
                    y = b.norm(o[1])
                    out.append((b, ('next', y.a[2][0]) if y.a[1] == good else ('stop', y)))
            return out
        return [(s, ('ret', adt(kind, good, (o[1],))) if o[0] == 'done' else ('ret', adt(kind, 1 - good, o[1].a[2]))
                 if o[0] == 'stop' else o) for s, o in consume(ip, st, it, start, f, c.site)]
    if n == 'unzip':
        def f(s, acc, item):
            return [(s, ('next', tup(cat(acc.a[0][0], lit(item.a[0][0])), cat(acc.a[0][1], lit(item.a[0][1])))))]
        return done(consume(ip, st, it, tup(EMPTY, EMPTY), f, c.site))
    if n == 'collect':
        k = target(ip, c)
        return NotImplemented if k is None else collected(ip, st, it, k, c.site)
    if n == 'count':
        def f(s, acc, item):
            return [(s, ('next', iadd(acc, 1)))]
        return done(consume(ip, st, it, I(0), f, c.site))
    if n == 'last':
        def f(s, acc, item):
            return [(s, ('next', some(item)))]
        return done(consume(ip, st, it, NONE, f, c.site))
    if n in ('fold',):
        def f(s, acc, item):
            return [(a, ('next', o[1]) if o[0] == 'ret' else o)
                    for a, o in ip.call_value(s, s.norm(c.args[2]), [acc, item], c.site)]
        return done(consume(ip, st, it, c.args[1], f, c.site))
    if n == 'for_each':
        ip.counter += 1
        cell = ('c', ip.counter)
        st.mem[cell] = c.args[1]

        def f(s, acc, item):
            return [(a, ('next', UNIT) if o[0] == 'ret' else o)
                    for a, o in ip.call_value(s, ref(cell) if c.args[1].t == 'clo' else c.args[1], [item], c.site)]
        return done(consume(ip, st, it, UNIT, f, c.site))
    if n in ('sum', 'product'):
        d = ip.ty(c.dty)
        if d.get('path') == SCALAR:
            z, op = (ZERO, padd) if n == 'sum' else (ONE, pmul)
        elif d.get('path') == POINT and n == 'sum':
            z, op = IDENT, ladd
        elif d['k'] == 'uint':
            z, op = (I(0), iadd) if n == 'sum' else (I(1), imul)
        else:
            return NotImplemented

        def f(s, acc, item):
            x = op(acc, ip.deref(s, item))
            if x.t == 'int':
                ip.require(s, ige(I(ip.int_range(c.dty)[1]), x), 'attempt to add with overflow')
            return [(s, ('next', x))]
        return done(consume(ip, st, it, z, f, c.site))
    if n in ('all', 'any', 'position', 'find', 'find_map'):
        want = n != 'all'
        clo = c.args[1]
        ip.counter += 1
        cell = ('c', ip.counter)
        st.mem[cell] = clo
        if n in ('all', 'any'):
            x = every(ip, st, it, ref(cell) if clo.t == 'clo' else clo, want, c.site)
            if x is not None:
                write(ip, x[0], r, mk('opaque', E('rest', ip.counter)))
                return [(x[0], ('ret', cnot(x[1]) if want else x[1]))]

        def f(s, acc, item):
            arg = item
            if n == 'find':
                ip.counter += 1
                a = ('c', ip.counter)
                s.mem[a] = item
                arg = ref(a)
            out = []
            for a, o in ip.call_value(s, ref(cell) if clo.t == 'clo' else clo, [arg], c.site):
                if o[0] != 'ret':
                    out.append((a, o))
                    continue
                if n == 'find_map':
                    for b, o2 in ip.split(a, lambda t: ip.discr(t, t.norm(o[1]), 0)):
                        y = b.norm(o[1])
                        out.append((b, ('stop', y) if y.a[1] == 1 else ('next', acc)))
                    continue
                for b, o2 in ip.split(a, lambda t: boolean(ip.test(t, o[1])), c.site):
                    if (o2[1] is TRUE) == want:
                        out.append((b, ('stop', tup(b.norm(item), acc) if n == 'position' else b.norm(item))))
                    else:
                        out.append((b, ('next', iadd(acc, 1))))
            return out
        res = []
        for s, o in consume(ip, st, it, I(0), f, c.site):
            if o[0] == 'done':
                v = {'all': TRUE, 'any': FALSE}.get(n, NONE)
            elif o[0] == 'stop':
                v = {'all': FALSE, 'any': TRUE}.get(n)
                if n == 'find':
                    v = some(o[1])
                elif n == 'find_map':
                    v = o[1]
                elif n == 'position':
                    i = o[1].a[0][1]
                    if iconst(i) is None:
                        i = I(ia(E('position', c.site[1] or '', ip.counter), 0, U64MAX))
                    v = some(i)
            else:
                res.append((s, o))
                continue
            # The iterator is used up to there: what is left of it is not tracked.
            if r is not None:
                write(ip, s, r, mk('it', 'vec', EMPTY, I(0), I(0)) if o[0] == 'done' else mk('opaque', E('rest', ip.counter)))
            res.append((s, ('ret', v)))
        return res
    if n == 'size_hint':
        ln = it_len(ip, st, it)
        return tup(ln, some(ln))
    if n == 'len':
        return it_len(ip, st, it)
    return NotImplemented


def skip(ip, st, it, m, site):
    todo, out = [(st, it, m)], []
    while todo:
        s, i, k = todo.pop()
        if k == 0:
            out.append((s, ('ret', i)))
            continue
        for a, o in ip.split(s, lambda t: [(x, ('item', y, z)) for x, y, z in it_next(ip, t, t.norm(i))], site):
            if o[0] == 'panic':
                out.append((a, o))
            elif o[2] is None:
                out.append((a, ('ret', o[1])))
            else:
                todo.append((a, o[1], k - 1))
    return out


def done(rs):
    return [(s, ('ret', o[1]) if o[0] == 'done' else o) for s, o in rs]


TRAITS[('core::iter::iterator::Iterator', 'next')] = iterator_method
TRAITS[('core::iter::traits::DoubleEndedIterator', 'next_back')] = lambda ip, st, c: next_back(ip, st, c)
TRAITS[('core::iter::traits::ExactSizeIterator', 'len')] = lambda ip, st, c: exact_len(ip, st, c)


def next_back(ip, st, c):
    it = to_it(ip, st, ip.deref1(st, c.args[0]))
    if it is None:
        return NotImplemented
    out = []
    for s, i2, x in it_next(ip, st, it, True):
        if i2.t == 'panicked':
            out.append((s, i2.a[0]))
            continue
        write(ip, s, c.args[0], i2)
        out.append((s, ('ret', NONE if x is None else some(x))))
    return out


def exact_len(ip, st, c):
    it = to_it(ip, st, ip.deref1(st, c.args[0]))
    return NotImplemented if it is None else it_len(ip, st, it)


@trait('core::iter::traits::IntoIterator', 'into_iter')
def into_iter(ip, st, c):
    it = to_it(ip, st, c.args[0])
    return NotImplemented if it is None else it


@trait('core::iter::traits::FromIterator', 'from_iter')
def from_iter(ip, st, c):
    it = to_it(ip, st, c.args[0])
    k = target(ip, c)
    return NotImplemented if it is None or k is None else collected(ip, st, it, k, c.site)


@trait('core::iter::traits::Extend', 'extend')
def extend(ip, st, c):
    r, s = self_row(ip, st, c.args[0])
    it = to_it(ip, st, c.args[1])
    if s.t != 'seq' or it is None:
        return NotImplemented
    byref = 'Extend<&' in c.path
    x = it_row(ip, st, it) if byref else it_row_values(ip, st, it)
    if x is not None:
        write(ip, st, r, cat(s, x))
        return UNIT
    o, taken = flattened(it)
    if o is not None:
        out = []
        for t, q in append_rows(ip, st, o, s, c.site, byref or taken):
            if q[0] == 'done':
                write(ip, t, r, q[1])
                out.append((t, ('ret', UNIT)))
            else:
                out.append((t, q))
        return out

    def f(t, acc, item):
        v = ip.deref(t, item) if byref else item
        _, cur = self_row(ip, t, r)
        if v.t == 'seq' and 'String' in c.path:
            write(ip, t, r, cat(cur, v))
        else:
            write(ip, t, r, cat(cur, lit(v)))
        return [(t, ('next', UNIT))]
    return done(consume(ip, st, it, UNIT, f, c.site))


@exact('core::iter::sources::once')
def once(ip, st, c):
    x = lit(c.args[0])
    return mk('it', 'vec', x, I(0), slen(x))


@exact('core::iter::sources::empty')
def empty(ip, st, c):
    return mk('it', 'vec', EMPTY, I(0), I(0))


@exact('core::iter::sources::repeat_with')
def repeat_with(ip, st, c):
    """As many results of a function as are asked for."""
    return mk('it', 'gen', c.args[0], I(0), I(BIG))


@exact('core::iter::sources::repeat')
def repeat(ip, st, c):
    return mk('it', 'vec', seq((('rep', c.args[0], I(BIG)),)), I(0), I(BIG))


@trait('core::ops::function::FnOnce', 'call_once')
@trait('core::ops::function::FnMut', 'call_mut')
@trait('core::ops::function::Fn', 'call')
def call_fn(ip, st, c):
    a = c.args[1]
    if a.t != 'tup':
        return NotImplemented
    return ip.call_value(st, c.args[0], list(a.a[0]), c.site, c.dty)


# ---------------------------------------------------------------- panics

def panics(kind):
    def f(ip, st, c):
        raise Panic(kind)
    return f


for p, k in (('core::panicking::panic', 'panic'), ('core::panicking::panic_fmt', 'panic'),
             ('core::panicking::panic_bounds_check', 'index out of bounds'), ('std::rt::begin_panic', 'panic'),
             ('std::panicking::begin_panic', 'panic'), ('std::panicking::begin_panic_fmt', 'panic'),
             ('std::rt::begin_panic_fmt', 'panic'),
             ('core::option::expect_failed', 'expect'), ('core::result::unwrap_failed', 'unwrap'),
             ('core::slice::slice_index_len_fail', 'slice out of bounds'),
             ('core::slice::slice_index_order_fail', 'slice out of bounds'),
             ('std::process::abort', 'abort'), ('core::intrinsics::abort', 'abort'),
             ('std::process::exit', 'exit')):
    EXACT[p] = panics(k)


# ---------------------------------------------------------------- copying, comparing, converting

@last('core::clone::Clone', 'clone')
@last('alloc::borrow::ToOwned', 'to_owned')
def clone(ip, st, c):
    return ip.deref1(st, c.args[0]) if c.args[0].t in ('ref', 'symref') else c.args[0]


@last('core::clone::Clone', 'clone_from')
def clone_from(ip, st, c):
    write(ip, st, c.args[0], ip.deref1(st, c.args[1]))
    return UNIT


def eq_(ip, st, c):
    a, b = ip.deref(st, c.args[0]), ip.deref(st, c.args[1])
    if a.t not in ('poly', 'lin', 'seq', 'int', 'adt', 'tup') and not is_cond(a):
        return NotImplemented
    if a.t == 'seq' and b.t == 'seq':
        a, b = deref_row(ip, st, a), deref_row(ip, st, b)
        if elem_key(a) in ('u8', 'int') or elem_key(b) in ('u8', 'int'):
            ip.vartime.append((c.site[0], c.site[1], a, b))
    x = equal(a, b)
    return cnot(x) if c.name == 'ne' else x


LAST[('core::cmp::PartialEq', 'eq')] = LAST[('core::cmp::PartialEq', 'ne')] = eq_


def eq_rows(ip, st, c):
    a, b = ip.deref(st, c.args[0]), ip.deref(st, c.args[1])
    if a.t in ('seq', 'poly', 'lin') and b.t in ('seq', 'poly', 'lin'):
        return eq_(ip, st, c)
    return NotImplemented


TRAITS[('core::cmp::PartialEq', 'eq')] = TRAITS[('core::cmp::PartialEq', 'ne')] = eq_rows


@last('core::default::Default', 'default')
def default(ip, st, c):
    return zero_of(ip, c.dty)


def zero_of(ip, t):
    d = ip.ty(t)
    if d.get('path') == SCALAR:
        return ZERO
    if d.get('path') == POINT:
        return IDENT
    if d.get('path') in (VEC, STRING):
        return EMPTY
    if d['k'] in ('uint', 'int', 'char'):
        return I(0)
    if d['k'] == 'bool':
        return FALSE
    if d['k'] == 'array':
        return seq((('rep', zero_of(ip, d['elem']), I(d['len'])),))
    if d['k'] == 'tuple':
        return tup(*[zero_of(ip, x) for x in d['elems']])
    if d.get('path') == OPTION:
        return NONE
    if d.get('path') == COMPRESSED:
        return adt(COMPRESSED, 0, (bytes_([0] * 32),))
    raise Unsupported('default of %s' % d['s'])


@last('core::convert::From', 'from')
@last('core::convert::Into', 'into')
def convert(ip, st, c):
    if c.f.get('kind') == 'unresolved':
        return mk('opaque', E('from', c.args[0]))
    a = c.args[0]
    if a.t == 'int' and c.dty is not None and ip.int_range(c.dty):
        return a
    if a.t == 'int' and c.dty is not None and ip.ty(c.dty).get('path') == SCALAR:
        return int_poly(a)
    if is_cond(a):
        return a
    if a.t == 'seq':
        return a
    return NotImplemented


@exact('<curve25519_dalek::scalar::Scalar as core::convert::From<u8>>::from',
       '<curve25519_dalek::scalar::Scalar as core::convert::From<u16>>::from',
       '<curve25519_dalek::scalar::Scalar as core::convert::From<u32>>::from',
       '<curve25519_dalek::scalar::Scalar as core::convert::From<u64>>::from')
def scalar_from_int(ip, st, c):
    return int_poly(c.args[0])


@exact('core::mem::swap')
def swap(ip, st, c):
    a, b = ip.deref1(st, c.args[0]), ip.deref1(st, c.args[1])
    write(ip, st, c.args[0], b)
    write(ip, st, c.args[1], a)
    return UNIT


@exact('core::mem::replace')
def replace(ip, st, c):
    a = ip.deref1(st, c.args[0])
    write(ip, st, c.args[0], c.args[1])
    return a


@exact('core::mem::drop')
def drop_(ip, st, c):
    st.event('dropped', c.args[0], c.f['args'][0] if c.f.get('args') else None, c.site)
    return UNIT


@exact('core::mem::forget', 'core::intrinsics::::forget')
def forget(ip, st, c):
    st.event('forgotten', c.args[0], c.f['args'][0] if c.f.get('args') else None)
    return UNIT


@exact('core::intrinsics::::discriminant_value')
def discriminant_value(ip, st, c):
    v = ip.deref(st, c.args[0])
    if v.t == 'sym':
        raise ForkVariant(v)
    if v.t != 'adt':
        return NotImplemented
    for d in ip.w.types:
        if d.get('path') == v.a[0] and d['k'] == 'adt':
            return I(int(d['variants'][v.a[1]]['discr']))
    return I(v.a[1])


@exact('core::mem::size_of', 'core::intrinsics::::size_of')
def size_of(ip, st, c):
    return I(ip.elem_size(c.f['args'][0]))


@trait('core::cmp::Ord', 'min', 'max')
def min_max(ip, st, c):
    a, b = c.args
    if a.t != 'int' or b.t != 'int':
        return NotImplemented
    le = ip.test(st, ige(b, a))
    a, b = st.norm(a), st.norm(b)
    return (a if le else b) if c.name == 'min' else (b if le else a)


@exact('core::cmp::min', 'core::cmp::max')
def min_max2(ip, st, c):
    return min_max(ip, st, c)


def int_method(ip, st, c):
    """The arithmetic methods of the integer types."""
    n = c.name
    if not c.args or c.args[0].t != 'int':
        return NotImplemented
    a = c.args[0]
    b = c.args[1] if len(c.args) > 1 else None
    t = c.f.get('impl_self')
    rng = ip.int_range(t) if t is not None else None
    if rng is None:
        return NotImplemented
    lo, hi = rng
    parts = n.split('_')
    ops = {'add': iadd, 'sub': isub, 'mul': imul}
    if len(parts) == 2 and parts[0] in ('checked', 'wrapping', 'saturating', 'overflowing') and parts[1] in ops \
            and b is not None and b.t == 'int':
        r = ops[parts[1]](a, b)
        fits = cand(ige(r, I(lo)), ige(I(hi), r))
        good = ip.test(st, fits)
        r = st.norm(r)
        if parts[0] == 'checked':
            return some(r) if good else NONE
        if good:
            return tup(r, FALSE) if parts[0] == 'overflowing' else r
        if parts[0] == 'saturating':
            return I(hi) if ip.test(st, ilt(I(hi), r)) else I(lo)
        w = iadd(r, hi - lo + 1) if parts[1] == 'sub' and lo == 0 else \
            isub(r, hi - lo + 1) if parts[1] == 'add' and lo == 0 else I(ia(E('wrap', r, hi), lo, hi))
        return tup(w, TRUE) if parts[0] == 'overflowing' else w
    if n in ('checked_rem', 'checked_div') and iconst(b):
        return some((rem if n == 'checked_rem' else div)(a, iconst(b)))
    if n in ('is_ascii_digit',):
        return cand(ige(a, I(48)), ige(I(57), a))
    if n in ('min_value', 'max_value'):
        return I(lo if n == 'min_value' else hi)
    if n == 'to_le_bytes' and iconst(a) is not None:
        return bytes_(iconst(a).to_bytes({255: 1, 65535: 2, 2 ** 32 - 1: 4, U64MAX: 8}[hi], 'little'))
    if n in ('is_power_of_two',):
        return mk('cond', E(n, a))
    return I(ia(E(n, *c.args), lo, hi)) if c.dty is not None and ip.int_range(c.dty) else NotImplemented


PREFIXES.append(('core::num::<impl ', int_method))


@exact('core::num::<impl usize>::max_value', 'core::num::<impl u64>::max_value')
def maxvalue(ip, st, c):
    return I(U64MAX)


@exact('core::num::<impl u8>::is_ascii_digit')
def is_ascii_digit(ip, st, c):
    a = ip.deref(st, c.args[0])
    return cand(ige(a, I(48)), ige(I(57), a))


@exact('core::char::methods::<impl char>::is_ascii_digit', 'core::char::<impl char>::is_ascii_digit')
def char_is_ascii_digit(ip, st, c):
    return is_ascii_digit(ip, st, c)


def char_digit(ip, st, c):
    a = ip.deref(st, c.args[0])
    if a.t != 'int' or len(c.args) < 2 or iconst(c.args[1]) != 10:
        return NotImplemented
    good = ip.test(st, cand(ige(a, I(48)), ige(I(57), a)))
    if c.name == 'is_digit':
        return boolean(good)
    return some(isub(st.norm(a), 48)) if good else NONE


for p in ('core::char::methods::<impl char>::', 'core::char::<impl char>::'):
    EXACT[p + 'to_digit'] = EXACT[p + 'is_digit'] = char_digit


# ---------------------------------------------------------------- formatting: of no consequence

def formatting(ip, st, c):
    return ip.symbolic(E('fmt', c.path), c.dty) if c.dty is not None else UNIT


PREFIXES.append(('core::fmt::', formatting))
PREFIXES.append(('<core::fmt::', formatting))
PREFIXES.append(('std::io::stdio::_', formatting))
PREFIXES.append(('alloc::fmt::format', lambda ip, st, c: sub_of(base(E('format'), 'u8'), 0, I(ia(E('formatlen'), 0, 2 ** 32)))))


# ---------------------------------------------------------------- scalars and group elements

def operands(ip, st, c):
    return [ip.deref(st, a) for a in c.args]


@trait('core::ops::arith::Mul', 'mul')
def mul(ip, st, c):
    a, b = operands(ip, st, c)
    if a.t == 'poly' and b.t == 'poly':
        return pmul(a, b)
    if a.t == 'poly' and b.t == 'lin':
        return lmul(a, b)
    if a.t == 'lin' and b.t == 'poly':
        return lmul(b, a)
    return NotImplemented


@trait('core::ops::arith::Add', 'add')
def add(ip, st, c):
    a, b = operands(ip, st, c)
    if a.t == 'poly' and b.t == 'poly':
        return padd(a, b)
    if a.t == 'lin' and b.t == 'lin':
        return ladd(a, b)
    return NotImplemented


@trait('core::ops::arith::Sub', 'sub')
def sub(ip, st, c):
    a, b = operands(ip, st, c)
    if a.t == 'poly' and b.t == 'poly':
        return psub(a, b)
    if a.t == 'lin' and b.t == 'lin':
        return lsub(a, b)
    return NotImplemented


@trait('core::ops::arith::Neg', 'neg')
def neg(ip, st, c):
    a, = operands(ip, st, c)
    if a.t == 'poly':
        return pneg(a)
    if a.t == 'lin':
        return lneg(a)
    return NotImplemented


def assign_op(op):
    def f(ip, st, c):
        a, b = operands(ip, st, c)
        if a.t not in ('poly', 'lin') or b.t not in ('poly', 'lin'):
            return NotImplemented
        if op == '*':
            v = pmul(a, b) if a.t == 'poly' else lmul(b, a)
        elif a.t != b.t:
            return NotImplemented
        else:
            v = {'+': (padd, ladd), '-': (psub, lsub)}[op][a.t == 'lin'](a, b)
        r = c.args[0]
        while ip.deref1(st, r).t in ('ref', 'symref'):
            r = ip.deref1(st, r)
        write(ip, st, r, v)
        return UNIT
    return f


TRAITS[('core::ops::arith::AddAssign', 'add_assign')] = assign_op('+')
TRAITS[('core::ops::arith::SubAssign', 'sub_assign')] = assign_op('-')
TRAITS[('core::ops::arith::MulAssign', 'mul_assign')] = assign_op('*')


def msm(ip, st, c):
    ia_, ib = to_it(ip, st, c.args[0]), to_it(ip, st, c.args[1])
    if ia_ is None or ib is None:
        return NotImplemented
    outs = []
    for s, o in rows_of(ip, st, ia_, c.site):
        if o[0] != 'ret':
            outs.append((s, o))
            continue
        for s2, o2 in rows_of(ip, s, s.norm(ib), c.site):
            if o2[0] != 'ret':
                outs.append((s2, o2))
                continue
            a, b = s2.norm(o[1]), s2.norm(o2[1])
            if 'vartime' in c.name:
                ip.vartime.append((c.site[0], c.site[1], a, b))

            def fin(t):
                x, y = t.norm(a), t.norm(b)
                ip.require(t, ieq(slen(x), slen(y)), 'multiscalar multiplication of different lengths')
                x, y = t.norm(x), t.norm(y)
                n = iconst(slen(x))
                if n is not None:
                    r = IDENT
                    for i in range(n):
                        p = ip.deref(t, seq_index(t.facts, y, i))
                        if p.t == 'adt' and p.a[0] == OPTION:
                            if p.a[1] == 0:
                                return NONE
                            p = p.a[2][0]
                        r = ladd(r, lmul(ip.deref(t, seq_index(t.facts, x, i)), p))
                else:
                    ip.counter += 1
                    k = ia(E('k', 'msm', ip.counter), 0, BIG)
                    r = lsum(k, slen(x), lmul(seq_index(t.facts, x, I(k)), seq_index(t.facts, y, I(k))))
                return some(r) if c.name.startswith('optional') else r
            outs.extend(ip.split(s2, fin, c.site))
    return outs


def rows_of(ip, st, it, site):
    x = it_row(ip, st, it)
    if x is not None:
        return [(st, ('ret', x))]
    return [(s, ('ret', deref_row(ip, s, o[1])) if o[0] == 'ret' else o) for s, o in collected(ip, st, it, 'row', site)]


for t in ('MultiscalarMul', 'VartimeMultiscalarMul'):
    for n in ('multiscalar_mul', 'vartime_multiscalar_mul', 'optional_multiscalar_mul'):
        TRAITS[('curve25519_dalek::traits::' + t, n)] = msm
D = 'curve25519_dalek::'


@exact(D + 'ristretto::RistrettoPoint::vartime_double_scalar_mul_basepoint',
       D + 'ristretto::vartime::double_scalar_mul_basepoint')
def double_mul(ip, st, c):
    a, A, b = operands(ip, st, c)
    ip.vartime.append((c.site[0], c.site[1], lit(a, b), lit(A, G)))
    return ladd(lmul(a, A), lmul(b, G))


@exact(D + 'ristretto::RistrettoPoint::compress')
def compress(ip, st, c):
    return adt(COMPRESSED, 0, (point_bytes(ip.deref(st, c.args[0])),))


@exact(D + 'ristretto::CompressedRistretto::decompress')
def decompress(ip, st, c):
    v = ip.deref(st, c.args[0])
    s = v.a[2][0]
    if not ip.test(st, valid_cond(s)):
        return NONE
    return some(point_of(st.norm(s)))


@exact(D + 'ristretto::CompressedRistretto::as_bytes')
def compressed_as_bytes(ip, st, c):
    cell, path = ip.follow(st, c.args[0])
    return ref(cell, path + (('f', 0),))


@exact(D + 'ristretto::CompressedRistretto::to_bytes')
def compressed_to_bytes(ip, st, c):
    return ip.deref(st, c.args[0]).a[2][0]


@exact(D + 'ristretto::CompressedRistretto::from_slice')
def compressed_from_slice(ip, st, c):
    _, s = self_row(ip, st, c.args[0])
    ip.require(st, ieq(slen(s), I(32)), 'copy_from_slice of another length')
    return adt(COMPRESSED, 0, (st.norm(s),))


@exact(D + 'ristretto::RistrettoPoint::from_uniform_bytes')
def from_uniform(ip, st, c):
    return latom(E('uniform', ip.deref(st, c.args[0])))


@exact(D + 'ristretto::RistrettoPoint::hash_from_bytes')
def point_hash(ip, st, c):
    return latom(E('hashpoint', ip.deref(st, c.args[0])))


@exact(D + 'ristretto::RistrettoPoint::random')
def point_random(ip, st, c):
    return latom(draw(ip, st, c.args[0], 'randpoint', c))


@trait(D + 'traits::Identity', 'identity')
def identity(ip, st, c):
    d = ip.ty(c.dty)
    if d.get('path') == POINT:
        return IDENT
    if d.get('path') == COMPRESSED:
        return adt(COMPRESSED, 0, (bytes_([0] * 32),))
    return NotImplemented


@trait(D + 'traits::IsIdentity', 'is_identity')
def is_identity(ip, st, c):
    v = ip.deref(st, c.args[0])
    return leq(v, IDENT) if v.t == 'lin' else NotImplemented


@exact(D + 'ristretto::RistrettoBasepointTable::basepoint')
def table_basepoint(ip, st, c):
    return ip.deref(st, c.args[0])


@exact(D + 'ristretto::RistrettoBasepointTable::create')
def table_create(ip, st, c):
    return ip.deref(st, c.args[0])


def draw(ip, st, r, kind, c):
    """The next value from a generator: an expression naming it."""
    q, g = r, ip.deref1(st, r) if r.t in ('ref', 'symref') else r
    while g.t in ('ref', 'symref'):
        q, g = g, ip.deref1(st, g)
    if g.t == 'opaque':
        g = mk('rng', g.a[0], I(0))
    if g.t == 'adt' and not g.a[2] or g.t == 'osrng':
        n = st.mem.get(('os',), I(0))
        st.mem[('os',)] = iadd(n, 1)
        st.event('draw', kind, E('os'), n, c.site)
        return E(kind, E('os'), n)
    if g.t != 'rng':
        raise Unsupported('random numbers from %s' % g.t)
    e = E(kind, g.a[0], g.a[1])
    st.event('draw', kind, g.a[0], g.a[1], c.site)
    if q.t in ('ref', 'symref'):
        write(ip, st, q, mk('rng', g.a[0], iadd(g.a[1], 1)))
    return e


@exact(D + 'scalar::Scalar::random')
def scalar_random(ip, st, c):
    return patom(draw(ip, st, c.args[0], 'rand', c))


@exact(D + 'scalar::Scalar::from_bytes_mod_order')
def from_mod_order(ip, st, c):
    s = ip.deref(st, c.args[0])
    if encoded_scalar(s) is not None or small_scalar(s) or st.decide(canon_cond(s)) is True or \
            st.decide(ige(I(15), seq_index(st.facts, s, 31))) is True:
        return scalar_of(s)
    b = const_bytes(s)
    if b is not None:
        return pconst(int.from_bytes(bytes(b), 'little'))
    return patom(E('modl', s))


@exact(D + 'scalar::Scalar::from_bytes_mod_order_wide')
def from_wide(ip, st, c):
    return patom(E('wide', ip.deref(st, c.args[0])))


@exact(D + 'scalar::Scalar::from_canonical_bytes')
def from_canonical(ip, st, c):
    s = ip.deref(st, c.args[0])
    if not ip.test(st, canon_cond(s)):
        return NONE
    return some(scalar_of(st.norm(s)))


@exact(D + 'scalar::Scalar::from_bits')
def from_bits(ip, st, c):
    s = ip.deref(st, c.args[0])
    if encoded_scalar(s) is not None or small_scalar(s):
        return scalar_of(s)
    return patom(E('bits', s))


@exact(D + 'scalar::Scalar::hash_from_bytes')
def scalar_hash(ip, st, c):
    return patom(E('hash', ip.deref(st, c.args[0])))


@exact(D + 'scalar::Scalar::to_bytes')
def scalar_to_bytes(ip, st, c):
    return scalar_bytes(ip.deref(st, c.args[0]))


@exact(D + 'scalar::Scalar::as_bytes')
def scalar_as_bytes(ip, st, c):
    return vref(scalar_bytes(ip.deref(st, c.args[0])))


@exact(D + 'scalar::Scalar::zero')
def scalar_zero(ip, st, c):
    return ZERO


@exact(D + 'scalar::Scalar::one')
def scalar_one(ip, st, c):
    return ONE


@exact(D + 'scalar::Scalar::is_canonical')
def scalar_is_canonical(ip, st, c):
    return TRUE


@exact(D + 'scalar::Scalar::reduce')
def scalar_reduce(ip, st, c):
    return ip.deref(st, c.args[0])


@exact(D + 'scalar::Scalar::invert')
def scalar_invert(ip, st, c):
    return patom(E('inv', ip.deref(st, c.args[0])))


def static(ip, path, ty):
    if 'BASEPOINT_TABLE' in path or 'BASEPOINT_POINT' in path:
        return G
    raise Unsupported('static %s' % path)


# -- comparisons in constant time

@trait('subtle::ConstantTimeEq', 'ct_eq')
def ct_eq(ip, st, c):
    a, b = ip.deref(st, c.args[0]), ip.deref(st, c.args[1])
    st.event('ct_eq', a, b)
    return mk('adt', 'subtle::Choice', 0, (equal(a, b),))


@exact('subtle::Choice::unwrap_u8')
def choice_u8(ip, st, c):
    v = ip.deref(st, c.args[0])
    return I(1 if ip.test(st, v.a[2][0]) else 0)


@exact('<bool as core::convert::From<subtle::Choice>>::from')
def choice_bool(ip, st, c):
    return c.args[0].a[2][0]


def choice_op(op):
    def f(ip, st, c):
        a, b = ip.deref(st, c.args[0]), ip.deref(st, c.args[1])
        if a.t == 'adt' and a.a[0] == 'subtle::Choice' and b.t == 'adt':
            return mk('adt', 'subtle::Choice', 0, (op(a.a[2][0], b.a[2][0]),))
        return NotImplemented
    return f


TRAITS[('core::ops::bit::BitAnd', 'bitand')] = choice_op(cand)
TRAITS[('core::ops::bit::BitOr', 'bitor')] = choice_op(cor)


@trait('core::ops::bit::Not', 'not')
def choice_not(ip, st, c):
    a = ip.deref(st, c.args[0])
    if a.t == 'adt' and a.a[0] == 'subtle::Choice':
        return mk('adt', 'subtle::Choice', 0, (cnot(a.a[2][0]),))
    return NotImplemented


# ---------------------------------------------------------------- transcripts and random numbers

def ref_to_self(ip, st, v):
    r = v
    while True:
        x = ip.deref1(st, r)
        if x.t in ('ref', 'symref'):
            r = x
            continue
        return r, x


@exact('merlin::Transcript::new')
def tr_new(ip, st, c):
    return mk('tr', mk('tr0', E('new')), 'commit', bytes_(b'dom-sep'), ip.deref(st, c.args[0]))


@exact('merlin::Transcript::commit_bytes', 'merlin::Transcript::append_message')
def tr_commit(ip, st, c):
    r, t = ref_to_self(ip, st, c.args[0])
    write(ip, st, r, mk('tr', t, 'commit', ip.deref(st, c.args[1]), ip.deref(st, c.args[2])))
    return UNIT


@exact('merlin::Transcript::commit_u64')
def tr_commit_u64(ip, st, c):
    r, t = ref_to_self(ip, st, c.args[0])
    write(ip, st, r, mk('tr', t, 'commit64', ip.deref(st, c.args[1]), ip.deref(st, c.args[2])))
    return UNIT


@exact('merlin::Transcript::challenge_bytes')
def tr_challenge(ip, st, c):
    r, t = ref_to_self(ip, st, c.args[0])
    dr, d = self_row(ip, st, c.args[2])
    label = ip.deref(st, c.args[1])
    n = slen(d)
    write(ip, st, dr, sub_of(base(E('chal', t, label, n), 'u8'), 0, n))
    write(ip, st, r, mk('tr', t, 'challenge', label, n))
    return UNIT


@exact('merlin::Transcript::fork_transcript', 'merlin::Transcript::build_rng')
def tr_fork(ip, st, c):
    r, t = ref_to_self(ip, st, c.args[0])
    return mk('fork', t, ())


@exact('merlin::TranscriptRngConstructor::commit_witness_bytes', 'merlin::TranscriptRngBuilder::commit_witness_bytes')
def tr_witness(ip, st, c):
    f = c.args[0]
    return mk('fork', f.a[0], f.a[1] + ((ip.deref(st, c.args[1]), ip.deref(st, c.args[2])),))


@exact('merlin::TranscriptRngConstructor::reseed_from_rng', 'merlin::TranscriptRngBuilder::finalize')
def tr_reseed(ip, st, c):
    f = c.args[0]
    e = draw(ip, st, c.args[1], 'seed', c)
    g = mk('rng', E('trng', f, e), I(0))
    st.event('reseed', f, e, c.site)
    return g


@exact('rand::rngs::thread::thread_rng', 'rand::thread_rng', 'rand::rngs::os::OsRng::new')
def thread_rng(ip, st, c):
    return mk('osrng') if c.name == 'thread_rng' else ok(mk('osrng'))


@trait('rand_core::SeedableRng', 'from_seed')
def from_seed(ip, st, c):
    return mk('rng', E('seeded', c.f.get('rpath') or '', ip.deref(st, c.args[0])), I(0))


@trait('rand_core::RngCore', 'fill_bytes')
@trait('rand_core::RngCore', 'try_fill_bytes')
def fill_bytes(ip, st, c):
    dr, d = self_row(ip, st, c.args[1])
    e = draw(ip, st, c.args[0], 'rbytes', c)
    write(ip, st, dr, sub_of(base(E('fill', e, slen(d)), 'u8'), 0, slen(d)))
    return ok(UNIT) if c.name.startswith('try') else UNIT


@trait('rand_core::RngCore', 'next_u32', 'next_u64')
def next_int(ip, st, c):
    e = draw(ip, st, c.args[0], c.name, c)
    return I(ia(e, 0, U64MAX if c.name == 'next_u64' else 2 ** 32 - 1))


@trait('clear_on_drop::clear::Clear', 'clear')
def clear(ip, st, c):
    r, v = ref_to_self(ip, st, c.args[0])
    st.event('clear', r, v)
    write(ip, st, r, cleared(v))
    return UNIT


def cleared(v):
    if v.t == 'poly':
        return ZERO
    if v.t == 'lin':
        return IDENT
    if v.t == 'int':
        return I(0)
    if v.t == 'seq':
        k = elem_key(v)
        z = ZERO if k == 'poly' else IDENT if k == 'lin' else I(0)
        return seq((('rep', z, slen(v)),))
    if v.t == 'adt':
        return adt(v.a[0], v.a[1], [cleared(x) for x in v.a[2]])
    return mk('opaque', E('cleared', v))


# ---------------------------------------------------------------- the wire format of the proofs

def layout(ip, t):
    """The fields which are written, in order: a list of ('scalar' | 'point' | 'u8' ...)."""
    d = ip.ty(t)
    p = d.get('path')
    if p == SCALAR:
        return ['scalar']
    if p in (POINT, COMPRESSED):
        return ['point']
    if d['k'] == 'adt' and d['adt'] == 'struct':
        r = []
        for f in d['variants'][0]['fields']:
            r += layout(ip, f['ty'])
        return r
    raise Unsupported('wire format of %s' % d['s'])


PREFIX = [32] + [0] * 7


def encode(ip, v):
    if v.t == 'poly':
        return cat(bytes_(PREFIX), scalar_bytes(v))
    if v.t == 'lin':
        return cat(bytes_(PREFIX), point_bytes(v))
    if v.t == 'adt':
        r = EMPTY
        for x in v.a[2]:
            r = cat(r, encode(ip, x))
        return r
    raise Unsupported('wire format of %s' % v.t)


@exact('bincode::serialize')
def bincode_serialize(ip, st, c):
    return ok(encode(ip, ip.deref(st, c.args[0])))


@exact('bincode::serialize_into')
def bincode_serialize_into(ip, st, c):
    w = c.args[0]
    for _ in range(3):
        r, s = self_row(ip, st, w)
        if s.t == 'seq':
            write(ip, st, r, cat(s, encode(ip, ip.deref(st, c.args[1]))))
            return ok(UNIT)
        if s.t not in ('ref', 'symref'):
            break
        w = s
    return NotImplemented


@exact('bincode::serialized_size')
def bincode_size(ip, st, c):
    return ok(slen(encode(ip, ip.deref(st, c.args[0]))))


@exact('bincode::deserialize')
def bincode_deserialize(ip, st, c):
    _, s = self_row(ip, st, c.args[0])
    t = ip.ty(c.dty)['args'][0]
    pos = [I(0)]
    fail = err(mk('opaque', E('bincode error')))

    class Bad(Exception):
        pass

    def take():
        cur = st.norm(s)
        if not ip.test(st, ige(slen(cur), iadd(pos[0], 8))):
            raise Bad()
        cur = st.norm(s)
        if not ip.test(st, seqeq(seq_sub(st.facts, cur, pos[0], I(8)), bytes_(PREFIX))):
            raise Bad()
        cur = st.norm(s)
        if not ip.test(st, ige(slen(cur), iadd(pos[0], 40))):
            raise Bad()
        cur = st.norm(s)
        b = seq_sub(st.facts, cur, iadd(pos[0], 8), I(32))
        pos[0] = iadd(pos[0], 40)
        return b

    def build(t):
        d = ip.ty(t)
        p = d.get('path')
        if p == SCALAR:
            b = take()
            if not ip.test(st, canon_cond(b)):
                raise Bad()
            return scalar_of(st.norm(b))
        if p == POINT:
            b = take()
            if not ip.test(st, valid_cond(b)):
                raise Bad()
            return point_of(st.norm(b))
        if p == COMPRESSED:
            return adt(p, 0, (take(),))
        if d['k'] == 'adt' and d['adt'] == 'struct':
            return adt(p, 0, [build(f['ty']) for f in d['variants'][0]['fields']])
        raise Unsupported('wire format of %s' % d['s'])
    try:
        return ok(build(t))
    except Bad:
        return fail


# ---------------------------------------------------------------- sequences which are deserialised

@trait('serde::de::SeqAccess', 'next_element')
def next_element(ip, st, c):
    v = ip.deref1(st, c.args[0])
    t = ip.ty(ip.ty(c.dty)['args'][0])['args'][0]
    if v.t == 'opaque':
        v = mk('it', 'elements', v.a[0], I(ia(E('len', v.a[0]), 0, 2 ** 63 - 1)), I(0))
    if v.t != 'it':
        return NotImplemented
    e, n, pos = v.a[1:]
    if ip.test(st, mk('b', E('elementfails', e, pos))):
        return err(mk('opaque', E('elementerror', e)))
    if not ip.test(st, st.norm(ilt(pos, n))):
        return ok(NONE)
    e, n, pos = st.norm(v).a[1:]
    write(ip, st, c.args[0], mk('it', 'elements', e, n, iadd(pos, 1)))
    return ok(some(element(base(E('elements', e), ip.elemkey(t)), pos)))


@trait('serde::de::SeqAccess', 'size_hint')
def seq_size_hint(ip, st, c):
    ip.counter += 1
    return ip.symbolic(E('sizehint', ip.counter), c.dty)


# ---------------------------------------------------------------- pointers

@exact('core::ptr::<impl *const T>::is_null', 'core::ptr::<impl *mut T>::is_null')
def is_null(ip, st, c):
    return pointer_eq(ip, st, c.args[0], mk('null'))


@exact('core::ptr::null', 'core::ptr::null_mut')
def null(ip, st, c):
    return mk('null')


def pointer_eq(ip, st, a, b):
    if a is b:
        return TRUE
    if b.t == 'null':
        a, b = b, a
    if a.t == 'null':
        if b.t == 'symptr':
            return mk('b', E('null', b.a[0]))
        if b.t in ('ref', 'ptr', 'symref'):
            return FALSE
    x, y = ip.deref(st, a), ip.deref(st, b)
    if (x, y) != (a, b):
        return equal(x, y)
    return mk('cond', E('eqptr', *sorted((a, b), key=byid)))


def writable(ip, st, p, v):
    """A view of memory behind a pointer that was given, through which it may be written."""
    ip.counter += 1
    cell = ('raw', ip.counter)
    st.mem[cell] = v
    st.event('writable', p, cell, v)
    return ref(cell)


@exact('core::ptr::write', 'core::ptr::write_volatile', 'core::ptr::write_unaligned', 'core::intrinsics::write_bytes',
       'core::ptr::write_bytes', 'core::ptr::<impl *mut T>::write', 'core::ptr::<impl *mut T>::write_bytes',
       'core::ptr::<impl *mut T>::write_volatile', 'core::ptr::replace')
def raw_write(ip, st, c):
    p = c.args[0]
    if p.t == 'symptr':
        st.event('writes', p, c.site)
        return UNIT
    if p.t == 'ref' and c.name in ('write', 'write_volatile', 'write_unaligned'):
        write(ip, st, p, c.args[1])
        return UNIT
    return NotImplemented


@exact('core::intrinsics::copy_nonoverlapping', 'core::intrinsics::copy', 'core::ptr::copy', 'core::ptr::copy_nonoverlapping')
def raw_copy(ip, st, c):
    src, dst, n = c.args
    if dst.t == 'symptr':
        st.event('writes', dst, c.site)
        return UNIT
    if dst.t == 'ptr' and dst.a[0] == 'into':
        if src.t == 'symptr':
            st.event('reads', src, n, TRUE if st.decide(mk('b', E('null', src.a[0]))) is False else FALSE, c.site)
            x = sub_of(base(E('mem', src.a[0]), 'u8'), 0, n)
        elif src.t == 'ptr' and src.a[0] == 'into':
            x = ip.deref(st, src.a[1])
            ip.require(st, ige(slen(x), n), 'read beyond the end of a row')
            x = seq_sub(st.facts, x, I(0), n)
        else:
            return NotImplemented
        s = ip.deref(st, dst.a[1])
        if x is None or elem_key(x) != elem_key(s):
            return NotImplemented
        ip.require(st, ige(slen(s), n), 'write beyond the end of a row')
        write(ip, st, sub_ref(ip, st, dst.a[1], I(0), n), st.norm(x))
        return UNIT
    return NotImplemented


@exact('core::slice::from_raw_parts', 'core::slice::from_raw_parts_mut', 'core::slice::raw::from_raw_parts')
def from_raw_parts(ip, st, c):
    p, n = c.args[:2]
    st.event('from_raw_parts', p, n, c.site)
    if p.t == 'symptr':
        isnull = st.decide(mk('b', E('null', p.a[0])))
        st.event('reads', p, n, TRUE if isnull is False else FALSE, c.site)
        # Nothing readable is longer than that (a condition on the caller of the C interface).
        if iconst(n) is None and not st.assume(ige(I(2 ** 63 - 1), n), True, c.site):
            raise Panic('slice longer than the address space')
        row = sub_of(base(E('mem', p.a[0]), 'u8'), 0, n)
        return writable(ip, st, p, row) if c.name == 'from_raw_parts_mut' else ref(('v', row))
    if p.t == 'ptr' and p.a[0] == 'into':
        s = ip.deref(st, p.a[1])
        return sub_ref(ip, st, p.a[1], I(0), n)
    if p.t in ('ref', 'symref'):
        return p
    if p.t == 'null':
        raise Panic('slice of a null pointer')
    return NotImplemented


@exact('<alloc::boxed::Box<T>>::into_raw', '<alloc::boxed::Box<T>>::leak')
def into_raw(ip, st, c):
    st.event('into_raw', c.args[0])
    return mk('ptr', 'owned', c.args[0])


@exact('<alloc::boxed::Box<T>>::from_raw')
def from_raw(ip, st, c):
    p = c.args[0]
    st.event('from_raw', p, 'box', c.site)
    if p.t == 'ptr' and p.a[0] == 'owned':
        return p.a[1]
    if p.t in ('ref', 'symref'):
        return ip.deref1(st, p)
    return mk('opaque', E('from_raw', p))


@exact('<alloc::vec::Vec<T>>::from_raw_parts')
def vec_from_raw(ip, st, c):
    p, n, cap = c.args
    q = from_raw_parts(ip, st, c)
    if q is NotImplemented or q.t != 'ref' or equal(n, cap) is not TRUE:
        return NotImplemented
    st.event('from_raw', q, 'vec', c.site)
    return ip.deref1(st, q)


@exact('<alloc::boxed::Box<T>>::new')
def box_new(ip, st, c):
    return c.args[0]


def deref_pointer(ip, st, v, d):
    if v.t == 'ptr' and v.a[0] == 'into':
        return elem_ref(ip, st, v.a[1], I(0))
    if v.t == 'ptr' and v.a[0] == 'owned':
        x = v.a[1]
        return vref(x if x.t != 'seq' else seq_index(st.facts, x, I(0)))
    if v.t == 'symptr':
        st.event('derefs', v, TRUE if st.decide(mk('b', E('null', v.a[0]))) is False else FALSE)
        x = ip.sym_pointee(E('mem', v.a[0]), d['to'])
        return writable(ip, st, v, x) if d.get('mut') else vref(x)
    if v.t == 'opaque':
        to = d.get('to')
        return vref(ip.sym_pointee(v.a[0], to)) if to is not None else vref(mk('opaque', E('deref', v.a[0])))
    raise Unsupported('dereference of %s' % v.t)
