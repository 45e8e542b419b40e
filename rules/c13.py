"""C13 Library helpers release what they acquire, exactly once."""
from .common import *
from .measure import *
from . import compare as cmp, own, process
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
Ownership analysis by abstract interpretation of every function outside the run driver (C12) that acquires memory, a handle or
an object, itself or through a function that returns one: on every way out, also when a called step throws, whatever was
acquired is released by the matching means, returned, or held by an object that lives on; nothing is released twice or touched
after its release.  For the classes that own a buffer through a member, every constructor, assignment, member function that can
write the member, and the destructor is interpreted from an object that owns a buffer and from one that owns none: afterwards
the member is null or an owned buffer, nothing is lost, the destructor releases exactly the buffer, and two objects never share
one; also when an object is assigned to itself or given its own buffer."""
ASSUME = ['memory exhaustion is out of scope', 'base64, streams, directory and process functions as documented']

ACQUIRE = {'malloc', 'calloc', 'realloc', 'strdup', 'opendir', 'fopen', 'fdopen', 'itksysProcess_New', 'XML_ParserCreate', 'getcwd'}
RULE = 'what is acquired is released or handed on'


def bodies(f):
    return [f.get('body'), [i.get('e') for i in f.get('inits', [])]]


def counted(ck, cls):
    """objects of the toolkit count their references themselves"""
    return bool(cls) and cls.split('<')[0].startswith('itk::') and any(b.split('<')[0] in ('itk::LightObject', 'itk::Object', 'itk::ProcessObject', 'itk::ImageToImageFilter', 'itk::Command') for b in bases(ck, cls))


def acquirers(ck):
    direct = set()
    for k, f in ck.p.functions.items():
        if 'body' not in f:
            continue
        for n in walk(bodies(f)):
            if n['k'] == 'new' and n.get('place') is None and not counted(ck, n.get('c')) or (n['k'] in ('call', 'mcall') and (n.get('n') or '').split('::')[-1] in ACQUIRE and n.get('f') not in ck.p.functions):
                direct.add(k)
    # through functions that return a pointer to what they acquired
    out = set(direct)
    giving = {k for k in direct if (ck.p.functions[k].get('rt') or '').endswith('*')}
    change = True
    while change:
        change = False
        for k, f in ck.p.functions.items():
            if 'body' in f and k not in out and set(callees(ck, f)) & giving:
                out.add(k)
                if (f.get('rt') or '').endswith('*') and k not in giving:
                    giving.add(k)
                change = True
    return sorted(out)


def enclosing(ck, keys):
    """the functions, each lambda replaced by those that use it"""
    out, todo = [], list(keys)
    while todo:
        k = todo.pop(0)
        if not is_lambda(ck.p.functions[k]):
            if k not in out:
                out.append(k)
            continue
        todo += [g['key'] for g in ck.p.functions.values() if 'body' in g and g['key'] != k and any(n['k'] == 'lambda' and n.get('f') == k for n in walk(g['body']))]
    return out


def check(ck):
    owners = [c for c in ck.p.classes if ck.p.is_a(c, M) and any(f['t'].endswith('*') for f in ck.p.classes[c].get('fields', []))]
    tasks = []
    skip = set()
    for cls in owners:
        for f in ck.p.functions.values():
            if f.get('class') == cls and 'body' in f:
                skip.add(f['key'])
    for k in concrete(ck, M):
        if pointers(ck, k):
            tasks.append(('buffers of ' + k, lambda c, k=k: buffers(c, k)))
    n = 0
    for k in enclosing(ck, acquirers(ck)):
        f = ck.p.functions[k]
        if k in skip or f.get('class') and ck.p.is_a(f['class'], RT) and f['file'].endswith(('tfRegressionTest.cpp', 'itktfRegression.cxx')) or driver_part(f):
            continue
        n += 1
        tasks.append((f['qual'], lambda c, f=f: helper(c, f)))
    if not n:
        raise BrokenAnalysis('no helper that acquires anything was found')
    tasks.append(('callers of a buffer owner', raw))
    ck.run(tasks, timeout=400)


def driver_part(f):
    """parts of the run that C12 covers: parser callbacks"""
    return f['file'].endswith('tfRegressionTest.cpp') and not f.get('class')


# ------------------------------------------------------------------ helpers
def fresh_string(E, st, fr, c):
    v = T('text', st.fresh())
    if c.dest is not None:
        E.drop_under(st, c.dest)
        st.mem[c.dest] = v
        return [(st, ('o', c.dest))]
    return [(st, v)]


def fresh_int(E, st, fr, c):
    t = T('some', st.fresh())
    st.iv[t] = (-2**31, 2**31 - 1)
    return [(st, lin(t))]


def fresh_bool(E, st, fr, c):
    return [(st, mk_true(T('some', st.fresh())))]


def fresh_hash(E, st, fr, c):
    t = T('some', st.fresh())
    st.iv[t] = (0, 2**64 - 1)
    return [(st, lin(t))]


def step_hook(E, st, fr, c):
    """a step of the same module that owns nothing of ours: it returns something or throws"""
    s2 = st.fork()
    s2.emit('stepthrow', c.name, c.line)
    E.throw(s2, 'any', None, fr, c.line)
    if c.dest is not None:
        E.drop_under(st, c.dest)
        st.mem[c.dest] = T('made', st.fresh())
        return [(st, ('o', c.dest))]
    t = T('some', st.fresh())
    return [(st, t if (c.t or 'void') != 'void' else ('void',))]


def helper_hooks(c, f):
    h = base64_hooks(c)
    for k in c.p.derived(M):
        for n in ('IsEqual', 'IsEqualTolerant', 'operator=='):
            h['%s::%s' % (k, n)] = judged
    h[RT + '::MeasurementTextPlain'] = step_hook
    h.update(process.hooks())
    # what a function of the same file computes from texts alone owns nothing
    mine = set(acquirers(c))
    for k, g in c.p.functions.items():
        if g['file'] == f['file'] and k != f['key'] and 'body' in g and g['file'].endswith('tfDiff.cpp') and not reaches(c, k, mine):
            if g['kind'] in ('ctor', 'dtor') or g.get('class'):
                continue
            rt = g.get('rt') or 'void'
            if any('*' in p['t'] and 'const' not in p['t'] for p in g['params']):
                continue
            if rt == 'void' and not any('ostream' in p['t'] for p in g['params']) or 'list<' in rt or any('ostream' in p['t'] for p in g['params']):
                h[k] = step_hook
            elif rt not in ('bool', 'void') and len(g['params']) <= 2:
                h[k] = fresh_hash
    if f['file'].endswith('tfDiff.cpp'):
        h['std::basic_string::substr'] = fresh_string
        h['std::basic_string::compare'] = fresh_int
        for k in ('map', 'multimap', 'unordered_map', 'unordered_multimap', 'set', 'multiset'):
            h['std::%s::%s' % (k, k)] = nothing
            h['std::%s::empty' % k] = fresh_bool
    return h


def judged(E, st, fr, c):
    t = T('equal', st.fresh())
    s2 = st.fork()
    s2.emit('stepthrow', c.name, c.line)
    E.throw(s2, 'any', None, fr, c.line)
    return [(st, mk_true(t))]


def reaches(c, k, goal):
    return bool(reach(c, [k]) & goal)


def helper(c, f):
    def setup(E, st, this, vals):
        if f.get('class') and this is not None and not c.p.classes[f['class']].get('abstract'):
            st.typ[this] = frozenset([f['class']])
    r = c.analyse(f, hooks=helper_hooks(c, f), setup=setup, maxsteps=3000000)
    w = c.where(f)
    c.count('acquisitions', len(own.acquired(r)))
    own.clean(c, RULE, r, f['qual'], w)
    touched(c, r, f)


def touched(c, r, f):
    """handles of the system that are used or closed after they were closed"""
    for st, v in r.rets + [(s, x) for s, t, x in r.throws]:
        for e in evs(st, 'useafter'):
            c.decide(None if st.unk else False, RULE, '%s uses a handle in %s after its release' % (f['qual'], e[1]), c.where(f), facts(st))


# ------------------------------------------------------------------ buffers held by a member
def buffers(c, cls):
    qs = pointers(c, cls)
    name = cls.split('::')[-1]
    fs = {}
    for b in bases(c, cls):
        for f in c.p.functions.values():
            if f.get('class') != b or 'body' not in f or f.get('static'):
                continue
            if f['kind'] in ('ctor', 'dtor') or f['name'] == 'operator=' or touches(c, f, qs):
                if f['kind'] in ('ctor', 'dtor') and b != cls:
                    continue
                fs[f['key']] = f
    for f in sorted(fs.values(), key=lambda x: x['key']):
        refs = [i for i, p in enumerate(f['params']) if p.get('c') and c.p.is_a(cls, p['c']) and p['t'].rstrip().endswith('&')]
        ptrs = [i for i, p in enumerate(f['params']) if p['t'].replace('const ', '').strip() in ('void *', 'char *')]
        cases = []
        for mine in ((None,) if f['kind'] == 'ctor' else (True, False)):
            if refs:
                for theirs in (True, False) + (('self',) if f['kind'] != 'ctor' else ()):
                    cases.append((mine, theirs))
            elif ptrs and mine:
                cases += [(mine, None), (mine, 'own')]
            else:
                cases.append((mine, None))
        for mine, theirs in cases:
            one(c, cls, name, f, qs, refs, ptrs, mine, theirs)


def touches(c, f, qs):
    if f['name'] == 'AcceptVisitor':
        return False    # what happens there is the visitor's business
    w = set()
    for q in qs:
        w |= set(writers(c, q))
    return f['key'] in w or bool(reach(c, [f['key']]) & w)


def buffer(E, st, n):
    loc = ('h', 'given', st.fresh(), n)
    st.mem[('alive', loc)] = S('malloc')
    return loc


RULEB = 'a buffer belongs to one object'


def one(c, cls, name, f, qs, refs, ptrs, mine, theirs):
    box = {}

    def setup(E, st, this, vals):
        st.typ[this] = frozenset([cls])
        box['this'] = this
        box['mine'] = []
        box['theirs'] = []
        for q in qs:
            if mine is True:
                b = buffer(E, st, 0)
                box['mine'].append(b)
                st.mem[field(this, q)] = ('p', b)
            elif mine is False:
                st.mem[field(this, q)] = NULL
        for i in refs:
            o = vals[i][1]
            if theirs == 'self':
                vals[i] = ('l', this)
                continue
            st.typ[o] = frozenset([cls])
            for q in qs:
                if theirs is True:
                    b = buffer(E, st, 1)
                    box['theirs'].append((o, q, b))
                    st.mem[field(o, q)] = ('p', b)
                else:
                    st.mem[field(o, q)] = NULL
        if theirs == 'own':
            for i in ptrs:
                vals[i] = ('p', box['mine'][0])
    h = base64_hooks(c)
    for k in c.p.derived(M):
        for n in ('IsEqual', 'IsEqualTolerant', 'operator=='):
            h['%s::%s' % (k, n)] = judged
        h[k + '::AcceptVisitor'] = step_hook
    r = c.analyse(f, hooks=h, setup=setup)
    w = c.where(f)
    how = {None: 'building', True: 'with a buffer', False: 'without a buffer'}[mine]
    how += {None: '', True: ' from one with a buffer', False: ' from one without', 'self': ' from itself', 'own': ' given its own buffer'}[theirs]
    what = '%s: %s %s' % (name, f['name'] if f['kind'] == 'method' else 'destructor' if f['kind'] == 'dtor' else 'constructor', how)
    gone = f['kind'] == 'dtor'
    for st, val, end in [(s, v, 'returns') for s, v in r.rets] + [(s, v, 'throws') for s, t, v in r.throws if t != 'std::bad_alloc']:
        if end == 'throws' and f['kind'] == 'ctor':
            continue
        kept = set()
        for q in qs:
            v = r.E.load(st, field(box['this'], q))
            if gone:
                continue
            if st.decide_null(v) == 1:
                c.held(RULEB, '%s %s: %s is null' % (what, end, q.split('::')[-1]), w)
                continue
            b = loc_base(v[1]) if v[0] == 'p' else None
            if b is None:
                c.decide(verdict(st, 0, v) if not (v[0] == 't' and v[1] == 'undef') else False, RULEB, '%s %s: %s is %s' % (what, end, q.split('::')[-1], show(v)), w, facts(st))
                continue
            kept.add(b)
            dead = ('dead', b) in st.mem or ('alive', b) not in st.mem
            c.decide(True if not dead else verdict(st, 0), RULEB, '%s %s: %s is %s' % (what, end, q.split('::')[-1], 'a released buffer' if dead else 'an owned buffer'), w, facts(st))
            if b in [x for o, q2, x in box['theirs']]:
                c.decide(verdict(st, 0), RULEB, '%s %s: both objects hold the same buffer' % (what, end), w, facts(st))
        for o, q, b in box['theirs']:
            v = r.E.load(st, field(o, q))
            same_ = v == ('p', b) and ('alive', b) in st.mem
            c.decide(True if same_ else verdict(st, 0, v), RULEB, '%s %s: the other object %s its buffer' % (what, end, 'keeps' if same_ else 'loses'), w, facts(st))
            kept.add(b)
        alive = [l[1] for l in st.mem if l[0] == 'alive']
        kept |= own.held_by(st, ([val] if end == 'returns' and val is not None else []) + [v for l, v in st.mem.items() if l[0] not in ('alive', 'dead', 'count', 'zero', 'opq', 'hav') and loc_base(l)[0] in 'dg' and not (gone and loc_base(l) == box['this'])])
        lost = [a for a in alive if a not in kept]
        c.decide(True if not lost else verdict(st, 0), RULEB, '%s %s %s' % (what, end, 'with every buffer owned' if not lost else 'and loses a buffer'), w, facts(st))
    for a in r.aborts:
        if a[1] in own.BADABORT:
            c.decide(None if a[0].unk else False, RULEB, '%s: a buffer %s' % (what, own.BADABORT[a[1]]), c.where(f, a[3]) if a[2] is None or a[2].fn is f else '%s:%s' % (a[2].fn['file'].split('/repo/')[-1], a[3]), facts(a[0]))


def raw(c):
    """pointers to owned buffers do not escape into other objects"""
    n = 0
    for cls in c.p.classes:
        if not c.p.is_a(cls, M):
            continue
        for fl in c.p.classes[cls].get('fields', []):
            if not fl['t'].endswith('*'):
                continue
            q = '%s::%s' % (cls, fl['n'])
            for k in writers(c, q):
                f = c.p.functions[k]
                n += 1
                inside = f.get('class') and c.p.is_a(f['class'], M) or f['kind'] in ('ctor', 'dtor')
                c.decide(True if inside else None, RULEB, '%s is written by %s' % (q, f['qual']), c.where(f))
    c.count('writers of owning members', n)
