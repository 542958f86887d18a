"""The Swift wrappers are parsed and every member is followed along all its paths, C functions giving buffers of unknown length.
On each path: the parts passed to a C function are, parameter by parameter of the C header, the bytes of the object or argument
of that role and the number of exactly these bytes (32 for seeds); a member succeeds exactly if the lengths of what it was given
and of every buffer are those declared, and the result then holds the copy of the buffer; every buffer is released exactly
once after the last use; nothing else is changed; nothing traps."""
from lib import *
from cheader import header
from swift import Program, Arr, Obj, Ptr, Buf
from swift import show as length_name

CONFIGS = False
PATH = 'swift/Credential/Credential.swift'
LENGTH = {'SystemParameters': 'LENGTH_SYSTEM_PARAMETERS', 'AlgebraicMACKeypair': 'LENGTH_ISSUER_KEYPAIR',
          'RosterEntryCommitment': 'LENGTH_ROSTER_ENTRY_COMMITMENT', 'IssuerParameters': 'LENGTH_ISSUER_PARAMETERS',
          'CredentialIssuance': 'LENGTH_CREDENTIAL_ISSUANCE', 'CredentialPresentation': 'LENGTH_CREDENTIAL_PRESENTATION',
          'VerifiedCredential': 'LENGTH_VERIFIED_CREDENTIAL', 'SignalIssuer': 'LENGTH_ISSUER', 'User': 'LENGTH_USER'}
# parameters of the C functions -> whose bytes they are
ROLE = {'system_parameters': 'SystemParameters', 'keypair': 'AlgebraicMACKeypair', 'issuer': 'SignalIssuer',
        'issuer_parameters': 'IssuerParameters', 'issuance': 'CredentialIssuance', 'presentation': 'CredentialPresentation',
        'verified': 'VerifiedCredential', 'verified_credential': 'VerifiedCredential',
        'roster_entry_commitment': 'RosterEntryCommitment', 'user': 'User'}
RESULT_OF = {'system_parameters_create': 'SystemParameters', 'issuer_create': 'AlgebraicMACKeypair', 'issuer_new': 'SignalIssuer',
             'issuer_get_issuer_parameters': 'IssuerParameters', 'issuer_issue': 'CredentialIssuance',
             'issuer_verify': 'VerifiedCredential', 'user_obtain_finish': 'User', 'user_show': 'CredentialPresentation',
             'roster_entry_commitment_create': 'RosterEntryCommitment', 'roster_entry_commitment_open': bool}


def wrappers(c):
    p = os.path.join(extract.REPO, PATH)
    if not os.path.isfile(p):
        raise Missing(PATH)
    h = header()
    prog = Program(open(p, encoding='utf8').read(), h)
    used = set()
    for cls in sorted(LENGTH):
        if cls not in prog.d['classes']:
            raise Missing('the Swift class ' + cls)
    for cls, m in prog.members():
        name = '%s.%s(%s)' % (cls, m['name'], ''.join((l or '_') + ':' for l, _, _ in m['params']))
        where = '%s:%d' % (PATH, m['line'])
        c.functions.add(name)
        for path in prog.paths(cls, m):
            used |= {b.fn for b in path.bufs}
            one(c, prog, h, cls, m, name, where, path)
    for fn in sorted(RESULT_OF):
        c.ob(fn in used, fn, 'a Swift member calls %s' % fn, PATH)
    c.floor = 150


def one(c, prog, h, cls, m, name, where, p):
    key = name + ':'
    given = '; '.join(p.log)

    def ob(ok, k, what):
        c.ob(ok, key + k, '%s: %s' % (name, what), where, 'on the path where ' + (given or '(no conditions)'))
    K = prog.consts
    if p.result[0] == 'trap':
        ob(False, 'trap', 'does not trap, but it %s (line %d)' % (p.result[1], p.result[2]))
        return
    ob(not getattr(p, 'printed', None), 'prints', 'prints no data')
    # What is passed.
    good = []                                          # (unknown length, what it is if all is well)
    for b in p.bufs:
        passed(p, prog, h, b, ob, good)
    for _, n, ty in m['params']:
        if n == 'seed':
            good.append((('count', n), K['LENGTH_SEED']))
    v = p.result[1]
    failed = v is None or v is False
    if m['kind'] == 'init' and not p.bufs and len(m['params']) == 1 and m['params'][0][2] == '[UInt8]' and m['params'][0][1] != 'seed':
        # made from bytes
        n = m['params'][0][1]
        good.append((('count', n), K[LENGTH[cls]]))
        if not failed:
            d = v.f.get('data')
            ob(isinstance(d, Arr) and d.origin == ('param', n), 'bytes', 'holds the bytes given')
    # Every buffer.
    for b in p.bufs:
        r = RESULT_OF.get(b.fn)
        if r is None:
            ob(False, b.fn, 'it is known what %s returns' % b.fn)
            continue
        if r is bool:
            good.append((b.count, 1))
            ob(b.released <= 1, b.fn + ':released', 'the result of %s is released at most once' % b.fn)
        else:
            good.append((b.count, K[LENGTH[r]]))
            ob(b.released == 1, b.fn + ':released', 'the buffer from %s is released exactly once (not %d times)' % (b.fn, b.released))
        for rb, n, line in p.reads:
            if rb is b:
                ob(n == b.count or isinstance(n, int) and p.only(b.count) == n, b.fn + ':copy', 'what is read of the buffer from %s is its length' % b.fn)
        if not failed and r is not bool:
            holders = [o for o in reach(v) + reach(p.me) if o.cls == r and isinstance(o.f.get('data'), Arr)
                       and o.f['data'].origin == ('copy', b)]
            ob(bool(holders), b.fn + ':result', 'the bytes from %s become those of the %s' % (b.fn, r))
    bad = [(u, n) for u, n in good if not p.allows(u, n)]
    if failed:
        ob(bool(bad), 'fails', 'fails only if something was refused or has another length than declared')
    else:
        open_ = [(u, n) for u, n in good if p.only(u) != n]
        ob(not open_, 'succeeds', 'succeeds only if all lengths are those declared: ' +
           ', '.join('%s is %d' % (length_name(u), n) for u, n in open_))
        for o in reach(v):
            d = o.f.get('data')
            ob(isinstance(d, Arr) and (d.origin[0] != 'repeat'), 'set:' + o.cls, 'what it gives was set')
            missing = [f for f, _, _ in prog.d['classes'][o.cls]['fields'] if o.f.get(f) is None]
            ob(not missing, 'fields:' + o.cls, 'all fields of what it gives are set')
        if p.bufs:
            r = RESULT_OF.get(p.bufs[-1].fn)
            ob(v is True if r is bool else isinstance(v, Obj) and v.cls == r, 'gives', 'gives the result of %s' % p.bufs[-1].fn)
    # What is changed.
    for o, f in p.before:
        if m['kind'] == 'init' and o is p.me:
            continue
        for n in set(f) | set(o.f):
            own = o is p.me and not failed and isinstance(o.f.get(n), Arr) and o.f[n].origin[0] == 'copy' and \
                RESULT_OF.get(o.f[n].origin[1].fn) == o.cls
            ob(o.f.get(n) is f.get(n) or own, 'unchanged:%s.%s' % (o.name, n), 'does not change %s.%s' % (o.name, n))


def passed(p, prog, h, b, ob, good):
    params = h['functions'][b.fn][1]
    ob(len(params) == len(b.args), b.fn + ':arity', 'passes %d arguments to %s' % (len(params), b.fn))
    if len(params) != len(b.args):
        return
    names = [n for n, _ in params]
    for i, (n, t) in enumerate(params):
        if n.endswith('_length'):
            k = names.index(n[:-len('_length')])
            a = b.args[k]
            a = a.arr if isinstance(a, Ptr) else a
            ob(isinstance(a, Arr) and (b.args[i] == a.count), '%s:%s' % (b.fn, n),
               'the %s passed to %s is the number of bytes passed as %s' % (n, b.fn, names[k]))
            continue
        a = b.args[i]
        a = a.arr if isinstance(a, Ptr) else a
        if not isinstance(a, Arr):
            ob(False, '%s:%s' % (b.fn, n), 'bytes are passed to %s as %s' % (b.fn, n))
            continue
        if n + '_length' not in names:
            c = a.count if isinstance(a.count, int) else p.only(a.count)
            ob(n == 'seed' and c == prog.consts['LENGTH_SEED'], '%s:%s:count' % (b.fn, n),
               'the %s passed to %s has the number of bytes that is read' % (n, b.fn))
        ob(role(prog, p, n, a), '%s:%s:role' % (b.fn, n), 'what is passed to %s as %s is that' % (b.fn, n))


def role(prog, p, n, a):
    o = a.origin
    if n in ('seed', 'phone_number'):
        return o == ('param', n)
    want = ROLE.get(n)
    if want is None:
        return False
    if o[0] == 'copy':
        return RESULT_OF.get(o[1].fn) == want
    return o[0] == 'field' and o[1] == want and o[3] == 'data' and \
        (o[2] == 'self' or any(isinstance(x, Obj) and own(x, a) for x in p.args.values()) or own(p.me, a))


def own(o, a):
    return any(x is a or isinstance(x, Obj) and own(x, a) for x in o.f.values())


def reach(v):
    out, todo = [], [v]
    while todo:
        o = todo.pop()
        if isinstance(o, Obj) and o not in out:
            out.append(o)
            todo += list(o.f.values())
    return out


PARTS = [wrappers]
