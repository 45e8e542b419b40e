"""C04 Without tolerance, equality means same name, type and bytes."""
from .common import *
from . import dispatch as dp
from .measure import M, DM, MF, concrete, method, as_class
from .dispatch import ND
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
For every pair of concrete measurement classes the equality function that the class provides is interpreted abstractly,
through all the functions it delegates to, with the decoded content of a measurement (C21) as an unknown memory area and the
loading of a file measurement replaced by its contract (a new measurement of the class that the type names and of plain text
for any other type, or nothing, or an exception).  On each path the returned truth value must be entailed by the branch
facts: true only where names, types, content lengths and content bytes (of the loaded content for files) have been found
equal, false only where one of them has been found different or a file has no content.  Loading itself is interpreted too: what it
gives must carry the name of the file measurement and be of the class that its type names.  CompareMeasurement is interpreted to
the end for every class that can run tests and every measurement class: where no tolerance applies, exactly one such equality
between the test and its baseline entry decides the result, and a numeric measurement never equals an entry that is not."""
ASSUME = ['decoded content and loaded files by their contracts (C21)', 'measurement classes outside the repository are not analysed']


def check(ck):
    cls = concrete(ck)
    tasks = []
    for a in cls:
        for b in cls:
            tasks.append(('%s == %s' % (a, b), lambda c, a=a, b=b: pair(c, a, b)))
    for f, cls_, K in dp.pairs(ck):
        tasks.append(('%s as %s of %s' % (f['qual'], cls_, K), lambda c, f=f, cls_=cls_, K=K: end(c, f, cls_, K)))
    for f in ck.p.functions.values():
        if f['name'] == 'Load' and f.get('class') and ck.p.is_a(f['class'], MF) and 'body' in f:
            tasks.append(('contract of %s' % f['qual'], lambda c, f=f: contract(c, f)))
    ck.run(tasks)


def contract(c, f):
    """what loading gives carries the name of the file measurement, and the class that its type names"""
    rule = 'a file is loaded under its own name and type'
    fixed = {}
    for k, t in fixed_types(c).items():
        fixed.setdefault(t, set()).add(k)

    def content(E, st, fr, cc):
        return [(st, ('void',))]
    h = {}
    for k in c.p.derived(DM):
        h[k + '::SetContentAsData'] = content
        h[k + '::SetContent'] = content
    r = c.analyse(f, hooks=h, setup=as_class(MF), maxsteps=400000)
    st0 = St()
    st0.typ[r.this] = frozenset([MF])
    want, ty = (attr_value(r.E, st0, r.this, g, h) for g in ('GetAttributeName', 'GetAttributeType'))
    w = c.where(f)
    n = 0
    for st, v in r.rets:
        if v[0] == 'o':
            p = [x for l, x in st.mem.items() if l[0] == 'f' and l[1] == v[1] and x[0] == 'p']
            v = p[0] if len(p) == 1 else v
        if v[0] != 'p':
            if st.decide_null(v) != 1:
                c.decide(None, rule, '%s gives %s' % (f['qual'], show(v)), w)
            continue
        o = v[1]
        cs = st.typ.get(o) or frozenset()
        if len(cs) != 1:
            c.decide(None, rule, '%s gives an object of an unknown class' % f['qual'], w)
            continue
        n += 1
        k = sorted(cs)[0]
        x = attr_value(r.E, st, o, 'GetAttributeName', h)
        d = st.decide_eq(x, want)
        c.decide(True if d == 1 else verdict(st, 0, x), rule, '%s gives the name %s' % (f['qual'], show(x)), w, facts(st))
        named = [t for t in fixed if st.decide_eq(ty, t) == 1]
        if named:
            ok = k in fixed[named[0]]
            c.decide(True if ok else verdict(st, 0), rule, '%s makes a %s of a file of type %s' % (f['qual'], k.split('::')[-1], show(named[0])), w, facts(st))
        else:
            left = [t for t in sorted(fixed) if k not in fixed[t] and st.decide_eq(ty, t) is None and possible(st, ty, t)]
            c.decide(True if not left else verdict(st, 0), rule, '%s makes a %s of a file of %s' % (f['qual'], k.split('::')[-1], 'type %s' % show(left[0]) if left else 'another type'), w, facts(st))
    if not n:
        c.undecided(rule, '%s gives no measurement' % f['qual'], w)


def possible(st, ty, t):
    """may the type be this text, for what is known about its beginning?"""
    for a, v in st.facts.items():
        if a[0] != 'eq':
            continue
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if y[0] == 's' and x != ty and contains(x, lambda z: z == ty):
                if x[:2] == ('t', 'substr') and x[2] == ty and isnum(x[3]) and isnum(x[4]):
                    i, n = int(x[3][1]), int(x[4][1])
                    if (t[1][i:i + n] == y[1]) != bool(v):
                        return False
    return True


def data_hooks(c, types):
    h = {}

    def size(E, st, fr, c_):
        t = T('dsize', c_.obj)
        st.iv[t] = (0, 1 << 62)
        return [(st, lin(t))]

    def ptr(E, st, fr, c_):
        t = T('dptr', c_.obj)
        st.facts[('null', t)] = False
        return [(st, t)]

    def load(E, st, fr, c_):
        n = len(evs(st, 'loaded')) + 1
        w = T('loaded', n)
        out = []
        s = st.fork()
        s.emit('loaded', c_.obj, None, None, c_.line)
        out.append((s, NULL))
        s = st.fork()
        s.emit('loaded', c_.obj, None, None, c_.line)
        E.throw(s, 'std::runtime_error', None, fr, c_.line)
        ty = attr_value(E, st, c_.obj, 'GetAttributeType', h)
        nm = attr_value(E, st, c_.obj, 'GetAttributeName', h)
        rest = [st]
        for k, t in types.items():
            nx = []
            for s in rest:
                for s2, d in E.fork_bool(s, mk_eq(ty, t)):
                    if d:
                        out.append((made(E, s2, w, k, c_, nm, k), w))
                    else:
                        nx.append(s2)
            rest = nx
        for s in rest:
            out.append((made(E, s, w, 'testutil::PlainText', c_, nm, None), w))
        return out

    def made(E, s, w, k, c_, nm, known):
        o = ('d', w)
        s.facts[('null', w)] = False
        s.assume(mk_not(mk_eq(w, T('this'))))
        s.assume(mk_not(mk_eq(w, T('par', 0))))
        for e in evs(s, 'loaded'):
            if e[2] is not None and e[2][1] != w:
                s.assume(mk_not(mk_eq(w, e[2][1])))
        s.typ[o] = frozenset([k])
        s.mem[('alive', o)] = S('new')
        s.mem[field(o, M + '::name')] = nm
        s.emit('loaded', c_.obj, o, known, c_.line)
        return s
    for k in c.p.derived(M):
        h[k + '::GetContentAsDataSize'] = size
        h[k + '::GetContentAsData'] = ptr
        h[k + '::Load'] = load
        h['~' + k] = lambda E, st, fr, loc, cls, line: [st]
    return h


def attr_value(E, st, obj, getter, h):
    """value of name/type of the object in this state, through its own getter"""
    cs = st.typ.get(obj)
    k = sorted(cs)[0]
    f = method(E, k, getter)
    r = E.run(f, st.fork(), obj, [], None, None, 0)
    v = {E.load(s, x[1]) if x[0] == 'l' else x for s, x in r}
    return v.pop() if len(v) == 1 else T('fresh', getter, obj)


def fixed_types(c):
    out = {}
    for k in concrete(c, DM):
        f = method(c, k, 'GetAttributeType')
        r = c.analyse(f, setup=as_class(k))
        v = {r.E.load(st, x[1]) if x[0] == 'l' else x for st, x in r.rets}
        if len(v) == 1:
            x = v.pop()
            if x[0] == 's':
                out[k] = x
    return out


def pair(c, a, b):
    types = fixed_types(c)
    names = M + '::name'
    f = method(c, a, 'IsEqual')
    if f is None:
        raise BrokenAnalysis('%s has no IsEqual' % a)
    other = ('d', T('par', 0))

    def setup(E, st, this, vals):
        st.typ[this] = frozenset([a])
        st.typ[other] = frozenset([b])
        st.assume(mk_not(mk_eq(T('this'), T('par', 0))))
    h = data_hooks(c, types)
    r = c.analyse(f, hooks=h, setup=setup, maxrec=2, merge=False)
    st0 = St()
    st0.typ[r.this], st0.typ[other] = frozenset([a]), frozenset([b])
    nm = [attr_value(r.E, st0, o, 'GetAttributeName', h) for o in (r.this, other)]
    ty = [attr_value(r.E, st0, o, 'GetAttributeType', h) for o in (r.this, other)]
    what = '%s compared with %s' % (a.split('::')[-1], b.split('::')[-1])
    w = c.where(f)
    for st, v in r.rets:
        N, Y = st.decide_eq(*nm), st.decide_eq(*ty)
        objs, gone = [], False
        for o, k in ((r.this, a), (other, b)):
            if not c.p.is_a(k, MF):
                objs.append(o)
                continue
            ls = [e for e in evs(st, 'loaded') if e[1] == o]
            if any(e[2] is None or e[3] is None for e in ls):
                gone = True
            objs.append(ls[-1][2] if ls else None)
        if gone:
            exp = 0
        elif N == 0 or Y == 0:
            exp = 0
        elif None in objs:
            exp = None
        else:
            x, y = sorted((T('dptr', objs[0]), T('dptr', objs[1])), key=skey)
            s1, s2 = lin(T('dsize', objs[0])), lin(T('dsize', objs[1]))
            Z = st.decide(mk_eq0(sub(s1, s2)))
            q = [st.decide(('b', ('memeq', x, y, st.norm(n)), 1)) for n in (s1, s2)]
            q = 1 if 1 in q else 0 if 0 in q else None
            if Z == 1 and st.decide(mk_eq0(s1)) == 1:
                q = 1
            if Z == 0 or q == 0 and Z == 1:
                exp = 0
            elif Z == 1 and q == 1 and N == 1 and Y == 1:
                exp = 1
            else:
                exp = None
        z = zero(st, v)
        ok = exp is not None and z is not None and z == 1 - exp
        c.decide(True if ok else verdict(st, 0, v), 'equality is name, type and bytes', '%s gives %s where %s' % (
            what, {1: 'different', 0: 'equal', None: show(v)}[z], {1: 'all is the same', 0: 'a file has no content' if gone else 'something differs', None: 'that does not follow'}[exp]), w, facts(st, 30))
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), 'equality is name, type and bytes', '%s: %s' % (what, k), c.where(f, line), facts(st))


def tolerant(c, st, tolq):
    """1/0/None: does a tolerance apply on this path?"""
    fl = st.decide(mk_true(T('par', 1)))
    if tolq is None:
        return None
    t = T('init', field(('d', T('this')), tolq))
    z = st.decide(('b', ('feq',) + tuple(sorted((t, ('fl', '0.0E+0')), key=skey)), 1))
    if z is None:
        z = st.decide(('b', ('feq',) + tuple(sorted((t, ('fl', '0')), key=skey)), 1))
    if fl == 0 or z == 1:
        return 0
    if fl == 1 and z == 0:
        return 1
    return None


def end(c, f, cls, K):
    tolq = dp.tolerance_role(c, cls)
    r = dp.run(c, f, cls, K)
    w = c.where(f)
    num = c.p.is_a(K, ND)
    what = 'as %s: a %s' % (cls.split('::')[-1], K.split('::')[-1])
    for st, v in r.rets:
        if dp.compared(st) != 1:
            continue
        js = evs(st, 'judged')
        bn = st.decide(('b', ('isa', dp.FRONT, ND), 1))
        if bn is None:
            bn = dp.baseline_is(c, st, ND)
        z = zero(st, v)
        if num and bn == 0:
            ok = z == 0
            c.decide(True if ok else verdict(st, 0, v), 'numeric against non-numeric', '%s compared with an entry that is not numeric is different' % what, w, facts(st, 30))
            continue
        tl = tolerant(c, st, tolq)
        if num and tl == 1:
            continue
        if num and tl is None and any(e[1] == 'tolerant' for e in js):
            continue    # C05
        if len(js) == 1 and js[0][1] == 'image':
            continue    # C23
        ok = len(js) == 1 and js[0][1] == 'exact' and {js[0][2], js[0][3]} == {dp.PAR, dp.FRONT}
        c.decide(True if ok else verdict(st, 0), 'one exact equality decides', '%s is judged by %s' % (what, ', '.join('%s(%s, %s)' % (e[1], show(e[2]), show(e[3]) if e[3] else '') for e in js) or 'nothing'), w, facts(st, 30))
        if ok:
            d = st.decide(mk_true(T('judged', js[0][6])))
            ok = d is not None and z is not None and z == d
            c.decide(True if ok else verdict(st, 0, v), 'one exact equality decides', '%s judged %s gives %s' % (what, {1: 'equal', 0: 'different', None: 'something'}[d], show(v)), w, facts(st, 30))
