"""C20 Copying or assigning a measurement preserves it completely."""
from .common import *
from .measure import *
from sa import export

UNITS = export.CORE
EXPLAIN = """
For every measurement class the members that its const query functions read, directly or through other functions, are
determined from the syntax tree (the observable members).  The copy constructor and the assignment operator of every class are
interpreted abstractly, bases included: at every exit each observable member must be the value the same member of the source
had, the source must be untouched, pointer members must be null or newly allocated and never the source's, and what the source
points to must not be released.  The assignment is interpreted a second time with the object itself as its source and must
leave all observable members as they were.  Every function that changes the content, the encoding or the compression must
leave the cached decoded form null or newly made."""
ASSUME = ['a string or number member behaves as a value (C++ standard library)']


def check(ck):
    tasks = []
    cls = ck.p.derived(M)
    if len(cls) < 2:
        raise BrokenAnalysis('the measurement classes are gone')
    for k in cls:
        tasks.append((k, lambda c, k=k: one(c, k)))
    ck.run(tasks)


def one(c, cls):
    name = cls.split('::')[-1]
    obs = observable(c, cls)
    mine = {'%s::%s' % (b, f['n']): f for b, f in own_fields(c, cls)}
    ptrs = pointers(c, cls)
    c.count('observable_members', len(obs))
    info = c.p.classes[cls]
    w = '%s:%s' % (export.rel(info['file']), info['line'])
    cc = [m for m in info['methods'] if m['n'] == name and len(m['params']) == 1 and m['params'][0]['t'].replace('const ', '').strip(' &') == cls and not m['params'][0]['t'].endswith('&&')]
    asg = [m for m in info['methods'] if m['n'] == 'operator=' and len(m['params']) == 1 and m['params'][0]['t'].replace('const ', '').strip(' &') == cls and not m['params'][0]['t'].endswith('&&')]
    for what, ms in (('copying', cc), ('assigning', asg)):
        if ms and ms[0].get('deleted'):
            c.held('preserved', '%s: %s is not possible' % (name, what), w)
            continue
        f = c.p.functions.get(ms[0]['f']) if ms else None
        if f is None or 'body' not in f:
            # member by member, made by the compiler
            bad = [f['n'] for f in info.get('fields', []) if f['t'].endswith('*')]
            c.decide(not bad, 'independent', '%s: %s member by member%s' % (name, what, ', the pointer %s is shared' % bad[0] if bad else ''), w)
            c.held('preserved', '%s: %s member by member' % (name, what), w)
            continue
        copied(c, cls, name, what, f, obs, mine, ptrs)
        if what == 'assigning':
            selfassign(c, cls, name, f, obs, mine)
    if c.p.is_a(cls, DM) and not info.get('abstract'):
        setters(c, cls, name, ptrs)


def copied(c, cls, name, what, f, obs, mine, ptrs):
    def other(E, st, this, vals):
        as_class(cls)(E, st, this, vals)
        st.assume(mk_not(mk_eq(T('this'), T('par', 0))))
    r = c.analyse(f, setup=other if f['kind'] != 'ctor' else None)
    w = c.where(f)
    this, src = r.this, ('d', T('par', 0))
    clean = St()
    for st, v in r.rets:
        for q in sorted(obs):
            if mine[q]['t'].endswith('*'):
                continue
            ft = mine[q]['t']
            want = r.E.load(clean, field(src, q))
            got = st.mem.get(field(this, q))
            n = q.split('::')[-1]
            if got is None:
                if f['kind'] == 'ctor':
                    c.decide(verdict(st, 0), 'preserved', '%s: %s leaves %s without a value' % (name, what, n), w, facts(st))
                    continue
                got = r.E.load(clean, field(this, q))
            same_ = equal(st, got, want)
            c.decide(True if same_ else verdict(st, 0, got), 'preserved', '%s: %s gives %s %s' % (name, what, n, 'the value of the source' if same_ else show(got)), w, facts(st))
        for q in ptrs:
            ptr(c, r, st, name, what, q, this, src, w, f)
        touched = [l for l in st.mem if l[0] == 'f' and l[1] == src and not equal(st, st.mem[l], r.E.load(clean, l))]
        c.decide(True if not touched else verdict(st, 0), 'source untouched', '%s: %s %s' % (name, what, 'changes %s of the source' % show(touched[0]) if touched else 'leaves the source as it is'), w, facts(st))
        freed = [e for e in evs(st, 'del') if any(e[1] == ('d', r.E.load(clean, field(src, q))) for q in ptrs)]
        c.decide(True if not freed else verdict(st, 0), 'independent', '%s: %s %s' % (name, what, 'releases what the source holds' if freed else 'releases nothing of the source'), w, facts(st))
    for st, et, v in r.throws:
        if et == 'std::bad_alloc':
            continue
        c.decide(verdict(st, 0), 'no failure', '%s: %s throws %s' % (name, what, et), w, facts(st))
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), 'no failure', '%s: %s: %s' % (name, what, k), c.where(f, line), facts(st))


def equal(st, a, b):
    if a == b:
        return True
    if a[0] in ('B', 'b') and b[0] == 't':
        b = mk_true(b)
    elif b[0] in ('B', 'b') and a[0] == 't':
        a = mk_true(a)
    if a == b:
        return True
    try:
        return same(st, a, b) == 1
    except Exception:
        return False


def ptr(c, r, st, name, what, q, this, src, w, f):
    n = q.split('::')[-1]
    clean = St()
    v = st.mem.get(field(this, q))
    theirs = r.E.load(clean, field(src, q))
    own = r.E.load(clean, field(this, q))
    if v is None:
        if f['kind'] == 'ctor':
            c.decide(verdict(st, 0), 'independent', '%s: %s leaves the pointer %s undefined' % (name, what, n), w, facts(st))
            return
        v = own
    if v == NULL or st.decide_null(v) == 1:
        ok, how = True, 'null'
    elif v == theirs:
        ok, how = verdict(st, 0), "the source's own"
    elif v[0] == 'p' and v[1][0] == 'h':
        ok, how = True, 'newly made'
    elif v == own:
        ok, how = verdict(st, 0), 'still that of the old content'
    else:
        ok, how = None, show(v)
    c.decide(ok, 'independent', '%s: after %s the pointer %s is %s' % (name, what, n, how), w, facts(st))


def selfassign(c, cls, name, f, obs, mine):
    this = ('d', T('this'))
    r = c.analyse(f, setup=as_class(cls), args=[('l', this)])
    clean = St()
    for st, v in r.rets:
        for q in sorted(obs):
            if mine[q]['t'].endswith('*'):
                continue
            got = st.mem.get(field(this, q))
            want = r.E.load(clean, field(this, q))
            if got is None:
                got = want
            ok = equal(st, got, want)
            c.decide(True if ok else verdict(st, 0, got), 'self-assignment', '%s: assigning it to itself makes %s %s' % (name, q.split('::')[-1], show(got) if not ok else 'no other value'), c.where(f), facts(st))
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), 'self-assignment', '%s: assigning it to itself: %s' % (name, k), c.where(f, line), facts(st))


def setters(c, cls, name, ptrs):
    """changing the content, encoding or compression discards the cached decoded form"""
    roles = [q for q in (role(c, cls, g) for g in ('GetContent', 'GetAttributeEncoding', 'GetAttributeCompression')) if q]
    seen = set()
    for q in roles:
        for k in writers(c, q):
            f = c.p.functions[k]
            if f['kind'] in ('ctor', 'dtor') or f['name'] == 'operator=' or f.get('static') or k in seen or not f.get('class') or not c.p.is_a(cls, f['class']):
                continue
            seen.add(k)
            r = c.analyse(f, setup=as_class(cls), hooks=base64_hooks(c))
            clean = St()
            for st, v in r.rets:
                # only where something was stored
                if not any(st.mem.get(field(r.this, x)) is not None and not equal(st, st.mem[field(r.this, x)], r.E.load(clean, field(r.this, x))) for x in roles):
                    continue
                for p in ptrs:
                    l = field(r.this, p)
                    v, own = st.mem.get(l), r.E.load(clean, l)
                    if v is None:
                        v = own
                    if v == NULL or st.decide_null(v) == 1 or v[0] == 'p' and v[1][0] == 'h':
                        ok = True
                    else:
                        ok = verdict(st, 0) if v == own else None
                    c.decide(ok, 'cache discarded', '%s: %s %s' % (name, f['qual'], 'discards the cached form' if ok else 'keeps the cached form (%s)' % show(v)), c.where(f), facts(st))
