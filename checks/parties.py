"""Unknown, well-formed parties of the protocols."""
from lib import *


def params():
    return {'g': point('g'), 'h': point('h')}


def ty(crate, path_end):
    w = world(crate)
    for i, d in enumerate(w.types):
        if d['k'] == 'adt' and d['path'].endswith(path_end) and not d['args']:
            return i
    raise Missing('the type ' + path_end)


def issuer(crate='aeonflux', n=1, x='x'):
    """An issuer of credentials with n attributes whose public parameters belong to its key."""
    w = world(crate)
    xs = [scalar('%s%d' % (x, i + 1)) for i in range(n)]
    h = params()['h']
    return make(w, ty(crate, '::issuer::Issuer'), {
        'system_parameters': params(),
        'keypair': {'public': {'Xn': lit(*[lmul(k, h) for k in xs])},
                    'secret': {'x0': scalar(x + '0'), 'xn': lit(*xs)}}})


def tag_value(iss, attrs, P):
    key = F(iss, 'keypair', 'secret')
    v = F(key, 'x0')
    for i, a in enumerate(attrs):
        v = padd(v, pmul(elem(F(key, 'xn'), i), a))
    return lmul(v, P)


def user(crate='aeonflux', iss=None, credential=NONE, key=None):
    w = world(crate)
    iss = iss or issuer(crate)
    ip = Interp(w)
    t = ty(crate, '::user::User')
    fs = {f['name']: f['ty'] for f in w.types[t]['variants'][0]['fields']}
    k = key if key is not None else ip.symbolic(E('in', 'userkey'), fs['key'])
    return make(w, t, {'system_parameters': F(iss, 'system_parameters'),
                       'issuer_parameters': F(iss, 'keypair', 'public'), 'key': k, 'credential': credential})


def credential(crate, iss, attrs):
    """A credential with a valid MAC."""
    P = point('credential.P')
    return make(world(crate), ty(crate, '::credential::Credential'),
                {'mac': {'nonce': P, 'mac': tag_value(iss, attrs, P)}, 'attributes': lit(*attrs)})
