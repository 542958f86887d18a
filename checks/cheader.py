"""The C header, as clang parses it."""
import subprocess
from lib import *

PATH = 'ffi/src/include/credential.h'


def header(path=PATH):
    p = os.path.join(extract.REPO, path)
    if not os.path.isfile(p):
        raise Missing('the header ' + path)
    # uint is a type of the system's headers.
    r = subprocess.run(['clang', '-x', 'c', '-fsyntax-only', '-include', 'sys/types.h', '-Xclang', '-ast-dump=json', p],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if r.returncode:
        raise Missing('%s is not valid C: %s' % (path, r.stderr.decode('utf8', 'replace')[:400]))
    ast = json.loads(r.stdout.decode('utf8'))
    h = {'functions': {}, 'constants': {}, 'structs': {}, 'typedefs': {}}
    here = False
    for n in ast['inner']:
        loc = n.get('loc', {})
        for l in (loc, loc.get('expansionLoc', {}), loc.get('spellingLoc', {})):
            if l.get('file'):
                here = os.path.realpath(l['file']) == os.path.realpath(p)
        if not here:
            continue
        k = n['kind']
        if k == 'FunctionDecl':
            ps = [(x.get('name'), x['type'].get('desugaredQualType', x['type']['qualType'])) for x in n.get('inner', [])
                  if x['kind'] == 'ParmVarDecl']
            h['functions'][n['name']] = (n['type']['qualType'].split('(')[0].strip(), ps, n['type']['qualType'])
        elif k == 'VarDecl':
            h['constants'][n['name']] = (value(n.get('inner', [])), n['type']['qualType'])
        elif k == 'RecordDecl' and n.get('completeDefinition'):
            h['structs'][n.get('name')] = [(x['name'], x['type'].get('desugaredQualType', x['type']['qualType']))
                                           for x in n.get('inner', []) if x['kind'] == 'FieldDecl']
        elif k == 'TypedefDecl':
            h['typedefs'][n['name']] = n['type'].get('desugaredQualType', n['type']['qualType'])
    return h


def value(inner):
    for x in inner:
        if x['kind'] == 'IntegerLiteral':
            return int(x['value'])
        v = value(x.get('inner', []))
        if v is not None:
            return v
    return None


def canonical(t):
    """A C type in terms of its width, without qualifiers of the value itself."""
    t = t.replace('const ', '').replace(' const', '').replace('struct ', '').strip()
    t = re.sub(r'\s*\*', '*', t)
    return {'unsigned long': 'u64', 'uint64_t': 'u64', '__uint64_t': 'u64', 'unsigned char': 'u8', 'uint8_t': 'u8',
            'unsigned char*': '*u8', 'uint8_t*': '*u8', 'unsigned int': 'u32', 'buf_s': 'buf_t', 'unsigned long long': 'u64',
            'size_t': 'u64'}.get(t, t)
