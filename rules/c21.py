"""C21 Decoded content and encoded content always agree."""
from .common import *
from .measure import *
from sa import export

UNITS = export.CORE
EXPLAIN = """
For every concrete class of measurements with content, each of the decoding and encoding functions is interpreted abstractly
from an arbitrary object whose cached decoded form, if there is one, is right (the class invariant), with base64 replaced by
its contract (C15, C16).  The decoded form returned must be the cached one, the content itself without encoding, or newly
allocated memory of the decoded size that was filled by decoding the current content; the size returned must be the size of
just that.  Setting the decoded form must leave the content equal to the given bytes or to their encoding, also when the given
bytes are the object's own cached form or content, and every function that makes or keeps a cached form must leave the
invariant true.  Loading a file measurement is interpreted with its reading loop as a fixpoint: the bytes given to the new
measurement start empty, grow in every iteration by exactly what that iteration read, and are complete only at the end of the
file."""
ASSUME = ['base64 encoding and decoding by their contracts (C15, C16)', 'the streams and allocation behave as documented']


def check(ck):
    tasks = []
    cls = concrete(ck, DM)
    if not cls:
        raise BrokenAnalysis('no measurement class with content is left')
    for k in cls:
        tasks.append((k, lambda c, k=k: data(c, k)))
    tasks.append(('load', load))
    ck.run(tasks)


def roles(c, cls):
    r = {n: role(c, cls, g) for n, g in (('content', 'GetContent'), ('encoding', 'GetAttributeEncoding'), ('compression', 'GetAttributeCompression'))}
    ps = pointers(c, cls)
    r['data'] = ps[0] if len(ps) == 1 else None
    return r


def init(E, this, q):
    return E.load(St(), field(this, q))


def enc_of(st, x):
    """'none', 'base64', 'other' or None (not known)"""
    if x[0] == 's':
        return x[1] if x[1] in ('none', 'base64') else 'other'
    a, b = st.decide_eq(x, S('none')), st.decide_eq(x, S('base64'))
    if a == 1:
        return 'none'
    if b == 1:
        return 'base64'
    if a == 0 and b == 0:
        return 'other'
    return None


def plain_(st, x):
    return st.decide_eq(x, S('none'))


def data(c, cls):
    R = roles(c, cls)
    name = cls.split('::')[-1]
    if None in R.values():
        c.undecided('roles of the members', '%s: the members cannot be told apart (%s)' % (name, R))
        return
    h = base64_hooks(c)
    get, size, put = (method(c, cls, n) for n in ('GetContentAsData', 'GetContentAsDataSize', 'SetContentAsData'))
    if not (get and size and put):
        raise BrokenAnalysis('%s has no decoded form any more' % name)
    sizeq = reading(c, cls, name, R, h, get, size)
    setting(c, cls, name, R, h, put, sizeq)
    keepers(c, cls, name, R, h, sizeq)


def reading(c, cls, name, R, h, get, size):
    r = c.analyse(size, hooks=h, setup=as_class(cls), merge=False)
    own = init(r.E, r.this, R['data'])
    sizeq = None
    w = c.where(size)
    rule = 'size of the decoded form'
    for st, v in r.rets:
        cached = st.decide_null(own) == 0 and st.mem.get(field(r.this, R['data']), own) == own
        if cached:
            u = unlin(v)
            if u[0] == 't' and u[1] == 'init' or u[0] == 'f':
                l = u[2] if u[0] == 't' else u
                if l[0] == 'f' and l[1] == r.this:
                    sizeq = l[2]
                    c.held(rule, '%s: a cached form has its stored size' % name, w)
                    continue
            c.decide(verdict(st, 0, v), rule, '%s: the size of a cached form is %s' % (name, show(v)), w, facts(st))
            continue
        cont = current(r, st, R, 'content')
        for k, certain in possible(r, st, R):
            if k == 'none':
                ok = same(st, v, strlen(cont)) == 1
            else:
                bs = lin(T('b64size', cont))
                if zero(st, bs) == 1:
                    continue    # nothing valid, or nothing at all
                ok = same(st, v, bs) == 1
            c.decide(True if ok else verdict(st, 0, v), rule, '%s: %s the size is %s' % (name, ENC[k], show(v)), w, facts(st))
    r = c.analyse(get, hooks=h, setup=as_class(cls), merge=False)
    own = init(r.E, r.this, R['data'])
    w = c.where(get)
    rule = 'the decoded form'
    for st, v in r.rets:
        if v == own and st.decide_null(own) == 0:
            c.held(rule, '%s: the cached form is used' % name, w)
            continue
        cont = current(r, st, R, 'content')
        text = v[0] == 't' and v[1] == 'cstr' and v[2] == cont
        for k, certain in possible(r, st, R):
            if k == 'none':
                c.decide(True if text else verdict(st, 0, v), rule, '%s: without encoding it is %s' % (name, show(v)), w, facts(st))
            else:
                bs = lin(T('b64size', cont))
                if zero(st, bs) == 1:
                    continue
                ok, how = decoded(st, v, cont, bs)
                c.decide(True if ok else None if ok is None else verdict(st, 0, v), rule, '%s: with base64 encoding it is %s' % (name, how), w, facts(st))
    for st, et, v in r.throws:
        if et not in ('std::bad_alloc', 'std::runtime_error'):
            c.decide(verdict(st, 0), rule, '%s: reading it throws %s' % (name, et), w, facts(st))
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), rule, '%s: reading it: %s' % (name, k), c.where(get, line), facts(st))
    return sizeq


ENC = {'none': 'without encoding', 'base64': 'with base64 encoding'}


def possible(r, st, R):
    """the encodings that are possible on this path, where nothing is compressed"""
    if plain_(st, current(r, st, R, 'compression')) == 0:
        return []
    e = current(r, st, R, 'encoding')
    k = enc_of(st, e)
    if k in ENC:
        return [(k, True)]
    if k == 'other':
        return []
    return [(n, False) for n in ENC if st.decide_eq(e, S(n)) != 0]


def current(r, st, R, n):
    v = st.mem.get(field(r.this, R[n]))
    return v if v is not None else init(r.E, r.this, R[n])


def decoded(st, v, cont, b):
    """is v memory of the right size filled by decoding the content?"""
    if v[0] != 'p' or v[1][0] != 'h':
        return False, show(v)
    new = [e for e in evs(st, 'new') if e[1] == v[1]]
    dec = [e for e in evs(st, 'b64decode') if e[1] == v]
    if not dec:
        return False, 'memory that was not filled by decoding'
    if dec[-1][2] != cont:
        return False, 'decoded from %s' % show(dec[-1][2])
    if new and new[-1][6] is not None:
        d = st.decide(mk_le(sub(b, lin(new[-1][6]))))
        if d != 1:
            return (False if d == 0 else None), 'memory of %s bytes' % show(new[-1][6])
    return True, 'decoded into memory of its size'


def setting(c, cls, name, R, h, put, sizeq):
    rule = 'setting the decoded form'
    w = c.where(put)
    cases = [('foreign bytes', None)]
    cases.append(('its own cached form', 'data'))
    cases.append(('its own content', 'content'))
    for how, alias in cases:
        def setup(E, st, this, vals):
            st.typ[this] = frozenset([cls])
            if alias == 'data':
                vals[0] = init(E, this, R['data'])
                st.facts[('null', vals[0])] = False
                if sizeq:
                    s = init(E, this, sizeq)
                    st.iv[unlin(lin(s))] = (0, 1 << 62)
                    vals[1] = lin(s)
            elif alias == 'content':
                from sa.models import mkstr
                t = init(E, this, R['content'])
                vals[0] = mkstr(t)
                vals[1] = strlen(t)
            setup.p, setup.n = vals[0], vals[1]
        r = c.analyse(put, hooks=h, setup=setup, merge=False)
        p, n = setup.p, setup.n
        for st, v in r.rets:
            if plain_(st, current(r, st, R, 'compression')) == 0:
                continue
            got = st.mem.get(field(r.this, R['content']))
            if got is None:
                got = init(r.E, r.this, R['content'])
            raw = byte_content(r.E, St(), p, n)
            wants = {'none': [raw], 'base64': [T('b64enc', raw)]}
            empty = zero(st, n) == 1
            for k, certain in possible(r, st, R):
                ok = got in wants[k]
                if not ok and empty:
                    ok = got == (S('') if k == 'none' else T('b64enc', S('')))
                c.decide(True if ok else verdict(st, 0, got), rule, '%s: given %s %s the content becomes %s' % (name, how, ENC[k], show(got)), w, facts(st))
        for st, et, v in r.throws:
            if et != 'std::bad_alloc':
                c.decide(verdict(st, 0), rule, '%s: given %s it throws %s' % (name, how, et), w, facts(st))
        for st, k, fr, line, det in r.aborts:
            c.decide(verdict(st, 0), rule, '%s: given %s: %s' % (name, how, k), c.where(fr.fn if hasattr(fr, 'fn') else put, line), facts(st))


def keepers(c, cls, name, R, h, sizeq):
    """functions after which a cached form may exist: it must be right"""
    rule = 'cached form agrees'
    fs = {}
    for q in (R['data'], sizeq, R['content'], R['encoding'], R['compression']):
        if q:
            for k in writers(c, q):
                f = c.p.functions[k]
                if f.get('class') and c.p.is_a(cls, f['class']) and f['kind'] == 'method' and not f.get('static') and f['name'] != 'operator=':
                    fs[k] = f
    for k, f in sorted(fs.items()):
        r = c.analyse(f, hooks=h, setup=as_class(cls))
        own = init(r.E, r.this, R['data'])
        w = c.where(f)
        for st, v in r.rets:
            p = st.mem.get(field(r.this, R['data']), own)
            cont, e = current(r, st, R, 'content'), current(r, st, R, 'encoding')
            k_ = enc_of(st, e)
            if p == NULL or st.decide_null(p) == 1 or plain_(st, current(r, st, R, 'compression')) == 0 or k_ == 'other':
                c.held(rule, '%s: %s leaves no cached form' % (name, f['name']), w)
                continue
            if p == own:
                changed = [n for n in ('content', 'encoding', 'compression') if current(r, st, R, n) != init(r.E, r.this, R[n])]
                if sizeq and st.mem.get(field(r.this, sizeq)) is not None and st.mem[field(r.this, sizeq)] not in (init(r.E, r.this, sizeq), lin(init(r.E, r.this, sizeq))):
                    changed.append('size')
                c.decide(True if not changed else verdict(st, 0), rule, '%s: %s keeps the cached form%s' % (name, f['name'], ' although it changes the ' + changed[0] if changed else ' and all it depends on'), w, facts(st))
                continue
            if p[0] != 'p' or p[1][0] != 'h':
                c.undecided(rule, '%s: %s makes the cached form %s' % (name, f['name'], show(p)), w)
                continue
            n = st.mem.get(field(r.this, sizeq)) if sizeq else None
            if k_ == 'base64':
                ok, how = decoded(st, p, cont, lin(T('b64size', cont)))
                d = same(st, lin(n), lin(T('b64size', cont))) if n is not None else None
                if not ok and cont[0] == 't' and cont[1] == 'b64enc':
                    a = byte_content(r.E, st, p, st.norm(lin(n))) if n is not None else None
                    ok, how, d = (True if a == cont[2] else None), 'what the content encodes', 1
            elif k_ == 'none':
                a = st.mem.get(('bytes', p[1]))
                src = a[1] if a is not None and a[0] == 'cpy' else None
                ok = src is not None and (src == T('cstr', cont) or cont == T('bytes', src, n))
                ok, how, d = (True if ok else None), 'a copy of the content', 1
            else:
                ok, how, d = None, 'made for any encoding', None
            c.decide(True if ok and d == 1 else None if ok is None or d is None else verdict(st, 0), rule, '%s: the cached form that %s makes is %s%s' % (
                name, f['name'], how, '' if d == 1 else ' with size %s' % show(n)), w, facts(st))


# ------------------------------------------------------------------ files
def load(c):
    fs = [f for f in c.p.functions.values() if f.get('class') and c.p.is_a(f['class'], MF) and 'body' in f and f['kind'] == 'method' and f.get('rt', '').replace('const ', '').rstrip(' *') in (DM, 'DataMeasurement') or f['qual'] == MF + '::Load']
    if not fs:
        # loading may have moved into the comparison
        fs = [method(c, MF, 'IsEqual')]
    for f in fs:
        one(c, f)


def one(c, f):
    def setdata(E, st, fr, cc):
        st.emit('setdata', cc.obj, cc.args[0], st.norm(cc.args[1]), cc.line)
        return [(st, ('void',))]

    def setcont(E, st, fr, cc):
        t = E.load(st, cc.args[0][1])
        st.emit('setcontent', cc.obj, t, cc.line)
        return [(st, ('void',))]
    h = {}
    for k in c.p.derived(DM):
        h[k + '::SetContentAsData'] = setdata
        h[k + '::SetContent'] = setcont
    r = c.analyse(f, hooks=h, setup=as_class(MF), maxsteps=400000)
    w = c.where(f)
    fname = role(c, MF, 'GetFileName')
    want = init(r.E, r.this, fname) if fname else None
    rule = 'a file measurement loads its file'
    n = 0
    bufs = {}
    for st, v in r.rets:
        ev = evs(st, 'setdata', 'setcontent')
        opens = evs(st, 'open')
        if not ev:
            continue
        n += 1
        for o in opens:
            if want is not None:
                c.decide(True if o[3] == want else verdict(st, 0, o[3]), rule, '%s opens %s' % (f['qual'], show(o[3])), w, facts(st))
        e = ev[-1]
        if len(ev) > 1:
            c.decide(None, rule, '%s sets the content %d times' % (f['qual'], len(ev)), w)
            continue
        if e[0] == 'setdata':
            p, ln = e[2], e[3]
            x = p[2] if p[0] == 't' and p[1] == 'cstr' else None
            if x is not None:
                d = same(st, ln, strlen(x))
                c.decide(True if d == 1 else None if st.unk or imprecise(drop(ln, x)) else False, rule, '%s passes on %s of the %s bytes read' % (f['qual'], show(ln), show(strlen(x))), c.where(f, e[4]), facts(st))
        else:
            x = e[2]
        if x is None or not opens:
            c.undecided(rule, '%s passes on %s' % (f['qual'], show(e[2])), w)
            continue
        stream = opens[-1][1]
        grows(c, r, f, st, x, stream, w, rule)
        cut = [y for y in evs(st, 'ntbs') if y[1] == x]
        if cut:
            c.decide(verdict(st, 0), rule, '%s cuts what was read at the first zero byte' % f['qual'], w, facts(st))
        # only at the end of the file
        s = st.mem.get(('sst', stream))
        if s is not None:
            eof, bad = st.decide(mk_true(T('eof', s))), st.decide(mk_true(T('bad', s)))
            ok = eof == 1 and bad == 0
            c.decide(True if ok else verdict(st, 0), 'only a whole file is used', '%s goes on %s' % (f['qual'], 'at the end of the file' if ok else 'without knowing that the whole file was read'), w, facts(st))
    for st, et, v in r.throws:
        opens = evs(st, 'open')
        s = st.mem.get(('sst', opens[-1][1])) if opens else None
        if et == 'std::bad_alloc' or s is None or not evs(st, 'get', 'read', 'getline', 'extract'):
            continue
        # what was read was read well and there may be more
        ok = not (st.decide(mk_true(T('fail', s))) == 0 and st.decide(mk_true(T('bad', s))) == 0)
        c.decide(True if ok else verdict(st, 0), rule, '%s fails %s' % (f['qual'], 'where reading failed' if ok else 'although reading did not'), w, facts(st))
    if not n:
        c.undecided(rule, '%s does not hand over what it read' % f['qual'], w)
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), rule, '%s: %s' % (f['qual'], k), c.where(f, line), facts(st))


def drop(v, x):
    """v with the text x taken as known"""
    return subst(v, x, S('x'))


def subst(v, x, y):
    if v == x:
        return y
    return tuple(subst(z, x, y) if isinstance(z, tuple) else z for z in v) if isinstance(v, tuple) else v


def narrow(v):
    """the byte of a character value"""
    v = unlin(v)
    while v[0] == 't' and v[1] in ('schar', 'uchar'):
        v = unlin(v[2])
    return v


def reads(evl, stream):
    """(terms read from the stream in order, None if something is not understood)"""
    out, odd = [], None
    for e in evl:
        if len(e) > 1 and e[1] != stream:
            continue
        if e[0] == 'get' and e[3]:
            out.append(T('chr', e[2]))
        elif e[0] == 'read':
            out.append(('read', e[2], e[4]))
        elif e[0] == 'extract' and e[3]:
            odd = 'extracts with >>, which skips white space'
        elif e[0] == 'getline':
            odd = 'reads by lines, which loses the line ends or adds one'
        elif e[0] in ('sop',) and e[1:2] and 'seek' in str(e[1]):
            odd = None
    return out, odd


def parts(x):
    return list(catparts(x))


def grows(c, r, f, st, x, stream, w, rule):
    """x, given on, must be exactly what was read from the stream"""
    ps = parts(x)
    loops = {L.lid: L for L in r.loops}
    acc = [(L, l, p) for L in loops.values() for l, p in L.phi.items() if ps and ps[0] == p]
    if not acc:
        # a piece of what was collected that leaves something out
        y = ps[0] if len(ps) == 1 else None
        if y is not None and y[:2] == ('t', 'substr') and any(y[2] == p for L in loops.values() for p in L.phi.values()):
            short = same(st, y[4], strlen(y[2]))
            if short == 0 or st.prove_le(add(sub(y[4], strlen(y[2])), num(1))):
                c.decide(verdict(st, 0), rule, '%s hands over %s of what it read' % (f['qual'], show(x)), w, facts(st))
                return
        c.undecided(rule, '%s hands over %s' % (f['qual'], show(x)), w)
        return
    L, l, p = acc[0]
    e0 = L.entry.mem.get(l)
    c.decide(True if e0 == S('') else verdict(L.entry, 0, e0 or NULL), rule, '%s starts with %s' % (f['qual'], show(e0) if e0 else 'nothing'), c.where(f, L.line))
    for it in L.iters:
        key, h0, s2, k2 = it
        evl = L.iter_events(it)
        rd, odd = reads(evl, stream)
        back = s2.mem.get(l)
        old = h0.mem.get(l)
        if odd:
            c.decide(verdict(s2, 0) if not evs(s2, 'manip') else None, rule, '%s %s' % (f['qual'], odd), c.where(f, L.line), facts(s2))
            continue
        delta = parts(back) if back is not None else None
        olds = parts(old) if old is not None else []
        if delta is None or delta[:len(olds)] != olds:
            c.decide(None if back is not None and imprecise_(back, old) else verdict(s2, 0), rule, '%s: one round makes the bytes %s' % (f['qual'], show(back) if back else '?'), c.where(f, L.line), facts(s2))
            continue
        delta = delta[len(olds):]
        ok = matches(s2, delta, rd)
        c.decide(True if ok else None if ok is None else verdict(s2, 0), rule, '%s: one round reads %s and keeps %s' % (f['qual'], [show(y) if y[0] != 'read' else 'a block' for y in rd], [show(y) for y in delta]), c.where(f, L.line), facts(s2))
    # what is read after the last round
    tail = st.events()
    idx = max([i for i, e in enumerate(tail) if e[0] == 'loop' and e[1] is L] or [0])
    seg = [e for e in tail[idx:]]
    rd, odd = reads(seg, stream)
    if odd:
        c.decide(verdict(st, 0) if not evs(st, 'manip') else None, rule, '%s %s' % (f['qual'], odd), c.where(f, L.line), facts(st))
        return
    ok = matches(st, ps[1:], rd)
    c.decide(True if ok else None if ok is None else verdict(st, 0), rule, '%s: after the last round it reads %s and keeps %s' % (f['qual'], [show(y) if y[0] != 'read' else 'a block' for y in rd], [show(y) for y in ps[1:]]), c.where(f, L.line), facts(st))


def imprecise_(a, b):
    return imprecise(*[y for y in (a,) if y is not None]) and a != b and not contains(a, lambda t: t == b)


def matches(st, delta, rd):
    if len(delta) != len([y for y in rd]):
        # a block of no bytes may have been left out
        rd = [y for y in rd if not (y[0] == 'read' and zero(st, lin(T('gcount', y[2]))) == 1)]
        if len(rd) != len(delta):
            return False
    for d, y in zip(delta, rd):
        if y[0] == 'read':
            if not (d[0] == 't' and d[1] == 'bytes'):
                return None
            z = same(st, lin(d[3]), lin(T('gcount', y[2])))
            if z != 1:
                return None if z is None and imprecise(d[3]) else False
            if d[2] not in (y[1], T('readbytes', y[2])):
                return None
        elif d != y and not (d[0] == 't' and d[1] == 'chr' and narrow(d[2]) == narrow(y[2])):
            return None if imprecise(d) else False
    return True
