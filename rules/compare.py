"""Abstract interpretation of RegressionTest::CompareMeasurement with measurements
and visitors replaced by their contracts; used by C02, C03, C05, C12, C18, C22."""
from .common import *

M = 'testutil::Measurement'
CV = 'testutil::CompareVisitor'
DV = 'testutil::DifferenceVisitor'
CNT = RT + '::inputUnmatched'
INPUT = RT + '::Input'


def attr(obj, n):
    return ('f', obj, 'attr::' + n)


def measurement_classes(ck):
    return ck.p.derived(M)


def attr_hooks(ck, throwing=False):
    """getters and setters of name, type, file name, content as abstract fields of the object"""
    h = {}

    def getter(n):
        def g(E, st, fr, c):
            st.emit('getattr', n, c.obj, c.line)
            return [(st, ('l', attr(c.obj, n)))]
        return g

    def setter(n):
        def g(E, st, fr, c):
            v = E.load(st, c.args[0][1])
            st.mem[attr(c.obj, n)] = v
            st.emit('setattr', n, c.obj, v, c.line)
            return [(st, ('void',))]
        return g
    for cl in measurement_classes(ck):
        for n, (g, s) in {'name': ('GetAttributeName', 'SetAttributeName'), 'type': ('GetAttributeType', 'SetAttributeType'),
                          'file': ('GetFileName', 'SetFileName'), 'content': ('GetContent', 'SetContent'),
                          'encoding': ('GetAttributeEncoding', 'SetAttributeEncoding'),
                          'compression': ('GetAttributeCompression', 'SetAttributeCompression')}.items():
            h['%s::%s' % (cl, g)] = getter(n)
            h['%s::%s' % (cl, s)] = setter(n)
    return h


def printed(E, st, fr, c):
    """operator<<(ostream&, const Measurement&)"""
    o = c.args[1][1]
    st.emit('printed', c.args[0][1], o, tuple(sorted((l[2], v) for l, v in st.mem.items() if l[0] == 'f' and l[1] == o)), c.line, tuple(sorted(st.typ.get(o) or ())))
    return [(st, ('l', c.args[0][1]))]


def accept(E, st, fr, c):
    vis = c.args[0][1]
    cls = st.typ.get(vis) or frozenset()
    s2 = st.fork()
    s2.emit('stepthrow', c.name, c.line)
    E.throw(s2, 'any', None, fr, c.line)
    snap = tuple(sorted((l[2], v) for l, v in st.mem.items() if l[0] == 'f' and l[1] == vis and l[2].startswith('testutil')))
    kinds = {('compare' if E.p.is_a(x, CV) else 'difference' if E.p.is_a(x, DV) else 'other') for x in cls}
    k = kinds.pop() if len(kinds) == 1 else 'other'
    alive = ('dead', vis) not in st.mem
    st.emit('accept', k, c.obj, vis, snap, tuple(sorted(cls)), c.line, alive)
    if k == 'compare':
        st.mem[field(vis, CV + '::compareResults')] = mk_true(T('verdict', len(evs(st, 'accept'))))
    return [(st, ('void',))]


def outstream(E, st, fr, c):
    return [(st, ('l', ('d', T('configured-output'))))]


def hooks(ck):
    h = attr_hooks(ck)
    for cl in measurement_classes(ck):
        h[cl + '::AcceptVisitor'] = accept
        h['~' + cl] = None
    h = {k: v for k, v in h.items() if v}
    h['testutil::operator<<'] = printed
    h[RT + '::GetOutStream'] = outstream
    h['fileutil::PathName::SearchPathList'] = search
    h['fileutil::PathName::Tail'] = tail
    return h


def search(E, st, fr, c):
    pn = 'fileutil::PathName::pathName'
    src = E.load(st, field(c.obj, pn))
    lst = E.load(st, c.args[0][1])
    v = T('search', src, lst)
    st.emit('search', src, lst, v, c.line)
    E.drop_under(st, c.dest)
    st.mem[field(c.dest, pn)] = v
    return [(st, ('o', c.dest))]


def tail(E, st, fr, c):
    pn = 'fileutil::PathName::pathName'
    v = T('tail', E.load(st, field(c.obj, pn)))
    E.drop_under(st, c.dest)
    st.mem[field(c.dest, pn)] = v
    return [(st, ('o', c.dest))]


def implementations(ck):
    base = ck.need(RT + '::CompareMeasurement')
    r = [base]
    for f in ck.p.functions.values():
        if f['name'] == 'CompareMeasurement' and f is not base and f.get('class') and ck.p.is_a(f['class'], RT):
            r.append(f)
    return r


TAIL0 = T('init', ('f', ('d', T('this')), INPUT))


def run(ck, f, cls=None, **kw):
    def setup(E, st, this, vals):
        if cls:
            st.typ[this] = frozenset([cls])
    h = hooks(ck)
    h.update(kw.pop('extra', {}))
    return ck.analyse(f, hooks=h, setup=setup, **kw)


def runners(ck):
    """exact classes whose CompareMeasurement is analysed: every class of the program that can run tests"""
    r = [c for c in ck.p.derived(RT)]
    return r
