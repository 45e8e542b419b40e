"""Shared by the rules about the measurement classes (C20, C21, C04, C13): roles of the members and Base64 by contract."""
from .common import *

M = 'testutil::Measurement'
DM = 'testutil::DataMeasurement'
MF = 'testutil::MeasurementFile'
B64 = 'testutil::Base64'


def bases(ck, cls):
    out = [cls]
    for b in (ck.p.classes.get(cls) or {}).get('bases', []):
        out += [x for x in bases(ck, b) if x not in out]
    return out


def own_fields(ck, cls):
    """[(class, field)] of the class and its bases inside the repository"""
    return [(b, f) for b in bases(ck, cls) for f in (ck.p.classes.get(b) or {}).get('fields', [])]


def getters(ck, cls):
    """the functions that tell about a measurement without changing it"""
    out = []
    for b in bases(ck, cls):
        for m in (ck.p.classes.get(b) or {}).get('methods', []):
            if m.get('const') and not m.get('params') and not m.get('static') and m.get('rt') not in ('void', None) and m['f'] in ck.p.functions:
                out.append(m['f'])
    return out


def observable(ck, cls):
    """members that the getters of the class read, directly or through other functions"""
    mine = {'%s::%s' % (b, f['n']) for b, f in own_fields(ck, cls)}
    out = set()
    for k in reach(ck, getters(ck, cls)):
        f = ck.p.functions[k]
        for n in walk([f.get('body'), [i.get('e') for i in f.get('inits', [])]]):
            if n['k'] == 'mem' and '%s::%s' % (n.get('fc'), n.get('n')) in mine:
                out.add('%s::%s' % (n.get('fc'), n.get('n')))
    return out


def pointers(ck, cls):
    return ['%s::%s' % (b, f['n']) for b, f in own_fields(ck, cls) if f['t'].endswith('*')]


def concrete(ck, root=M):
    return [c for c in ck.p.derived(root) if not ck.p.classes[c].get('abstract')]


def method(ck, cls, name, pred=None):
    """the function that answers to a call of the method for an object of class cls"""
    for b in bases(ck, cls):
        for m in (ck.p.classes.get(b) or {}).get('methods', []):
            if m['n'] == name and (pred is None or pred(m)) and m['f'] in ck.p.functions:
                return ck.p.functions[m['f']]
    return None


def as_class(cls):
    def s(E, st, this, vals):
        st.typ[this] = frozenset([cls])
    return s


def role(c, cls, getter):
    """qualified name of the member that the getter returns for objects of class cls, or None"""
    f = method(c, cls, getter)
    if f is None:
        return None
    r = c.analyse(f, setup=as_class(cls))
    v = {v for st, v in r.rets}
    if len(v) == 1:
        v = v.pop()
        if v[0] == 'l' and v[1][0] == 'f' and v[1][1] == r.this:
            return v[1][2]
    return None


def str_arg(E, st, c, i):
    return E.load(st, c.args[i][1])


def base64_hooks(ck):
    """IsBase64(s): the size of what s decodes to, 0 if it is nothing valid; Decode writes the decoded bytes or throws;
    Encode gives the encoding of a memory area"""
    def size(E, st, fr, c):
        t = T('b64size', str_arg(E, st, c, 0))
        st.iv[t] = (0, (1 << 62))
        st.emit('b64size', t[2], c.line)
        return [(st, lin(t))]

    def decode(E, st, fr, c):
        s = str_arg(E, st, c, 0)
        t = T('b64size', s)
        st.iv[t] = (0, (1 << 62))
        s2 = st.fork()
        if s2.assume(mk_eq0(lin(t))):
            s2.emit('stepthrow', c.name, c.line)
            E.throw(s2, 'std::runtime_error', None, fr, c.line)
        st.emit('b64decode', c.args[1], s, c.line)
        return [(st, lin(t))]

    def encode(E, st, fr, c):
        p, n = c.args[0], st.norm(c.args[1])
        b = byte_content(E, st, p, n)
        st.emit('b64encode', p, n, b, c.line)
        d = T('b64enc', b)
        if c.dest is not None:
            st.mem[c.dest] = d
            return [(st, ('o', c.dest))]
        return [(st, d)]
    return {B64 + '::IsBase64': size, B64 + '::Decode': decode, B64 + '::Encode': encode}


def byte_content(E, st, p, n):
    """what n bytes at p are, as a text"""
    from sa.models import bytes_of
    return bytes_of(E, st, p, n)
