"""C14 No decision rests on an undefined value."""
from .common import *
from .measure import M, concrete, bases
from . import compare as cmp, process
from sa import export, engine

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
Definite initialisation as a path-partitioned dataflow analysis.  Every function with a body is interpreted abstractly, with the
functions it calls where that stays within the step budget and on its own otherwise: on every feasible path each read of a local
variable, object member or array cell finds a value that was stored, where a system call that fails leaves its buffers as they
were, a failing allocation of a handle gives null, and fresh objects hold only what their constructor stores.  Every constructor
(of the classes that have one) leaves every scalar member with a value.  Members of visitors may be left to their setters: there
each place that hands a visitor to a measurement is interpreted, and the visitor's members that its handlers read are all set."""
ASSUME = ['parameters and objects of callers are completely initialised', 'array cells behind a symbolic index are not tracked one by one', 'system calls as documented']

RULE = 'what is read was given a value'
RULEC = 'a constructor leaves no member undefined'
RULEV = 'a visitor is complete before it visits'
VISITOR = 'testutil::MeasurementVisitor'
BUDGET = 60000


def check(ck):
    # a lambda is interpreted where it is called, with what it captured
    fs = [f for k, f in sorted(ck.p.functions.items()) if 'body' in f and not is_lambda(f)]
    if len(fs) < 50:
        raise BrokenAnalysis('only %d functions found' % len(fs))
    tasks = []
    hard = [f for f in fs if size(f) > 900]
    easy = [f for f in fs if size(f) <= 900]
    for f in sorted(hard, key=size, reverse=True):
        tasks.append((f['qual'], lambda c, f=f: function(c, f)))
    n = 24
    for i in range(n):
        part = easy[i::n]
        if part:
            tasks.append(('functions %d/%d' % (i + 1, n), lambda c, part=part: [function(c, f) for f in part]))
    tasks.append(('constructors', constructors))
    tasks.append(('visitors', visitors))
    ck.run(tasks, timeout=240)


def size(f):
    return sum(1 for n in walk([f.get('body'), [i.get('e') for i in f.get('inits', [])]]))


def step(E, st, fr, c):
    s2 = st.fork()
    s2.emit('stepthrow', c.name, c.line)
    E.throw(s2, 'any', None, fr, c.line)
    return [(st, ('void',))]


def judged(E, st, fr, c):
    return [(st, mk_true(T('equal', st.fresh())))]


def hooks(ck, f):
    h = process.hooks()
    for k in ck.p.derived(M):
        if f.get('name') != 'AcceptVisitor':
            h[k + '::AcceptVisitor'] = step
        for n in ('IsEqual', 'IsEqualTolerant'):
            if f.get('name') != n:
                h['%s::%s' % (k, n)] = judged
    return h


def alone(c, f):
    """the functions that f calls change what they can reach, and may throw"""
    h = hooks(c, f)
    for g in callees(c, f):
        k = g if isinstance(g, str) else g['key']
        g = c.p.functions.get(k)
        if g is None or g is f or g['kind'] in ('ctor', 'dtor'):
            continue

        def call(E, st, fr, cc):
            s2 = st.fork()
            s2.emit('stepthrow', cc.name, cc.line)
            s2.unknown('opaque:' + cc.name)
            E.throw(s2, 'any', None, fr, cc.line)
            return E.external(cc.e, cc.name, st, fr, cc.obj, cc.args, cc.dest)
        h.setdefault(g['qual'], call)
    return h


def private(f, loc):
    """is the place a local variable of f that nothing else can reach: it is only read and assigned?"""
    if loc[0] != 'v':
        return False
    for n in walk([f['body'], [i.get('e') for i in f.get('inits', [])]]):
        for k, x in n.items():
            if k == 'e' and n['k'] == 'rd' or k == 'a' and n['k'] == 'asg':
                continue
            for y in x if isinstance(x, list) else [x]:
                if isinstance(y, dict) and y.get('k') == 'var' and (y.get('n') == loc[3]):
                    return False
    return True


def plain(st):
    """does the path depend on nothing that was left out?"""
    def left(t):
        return isinstance(t, tuple) and contains(t, lambda x: x[:2] in (('t', 'ret'), ('t', 'hav'), ('t', 'unkexpr'), ('t', 'phi')))
    return not any(left(x) for x in list(st.facts) + list(st.le) + list(st.ne) + list(st.bind) + list(st.bind.values()) + list(st.iv))


def function(c, f):
    import time
    try:
        r = c.analyse(f, hooks=hooks(c, f), maxsteps=BUDGET)
        how = 'with its callees'
    except (engine.TooBig, RecursionError):
        try:
            r = c.analyse(f, hooks=alone(c, f), inline=lambda g: g is f or is_lambda(g), maxsteps=4 * BUDGET)
            how = 'on its own'
        except (engine.TooBig, RecursionError) as x:
            c.undecided(RULE, '%s is too large for the analysis' % f['qual'], c.where(f), str(x))
            return
    report(c, f, r, how == 'on its own')
    c.count('functions %s' % how, 1)
    c.held(RULE, '%s on %d ways out, %s' % (f['qual'], len(r.rets) + len(r.throws), how), c.where(f))


def cell(loc):
    """is the place a cell whose index is not a constant?"""
    while isinstance(loc, tuple) and loc and loc[0] in ('f', 'e', 'c'):
        if loc[0] in ('e', 'c') and not isnum(lin(loc[2])):
            return True
        loc = loc[1]
    return False


def report(c, f, r, alone=False):
    seen = set()
    for st, fr, line, loc in r.uninit:
        g = fr.fn if fr is not None else f
        key = (g['key'], line, show(loc), bool(st.unk))
        if key in seen:
            continue
        seen.add(key)
        if cell(loc):
            c.count('array cells not tracked', 1)
            continue
        v = verdict(st, 0)
        if v is None and alone and g is f and private(f, loc) and plain(st):
            v = False
        c.decide(v, RULE, '%s reads %s, which has no value' % (g['qual'], show(loc)), c.where(g, line), facts(st))
    for st, kind, fr, line, det in r.aborts:
        if kind in ('null-deref', 'null-string') and fr is not None:
            bad = [e for e in evs(st, 'sys') if not e[3]]
            if bad and fr.fn['key'] == f['key']:
                c.decide(verdict(st, 0), 'the result of a failed call is not used', '%s uses the null result after %s failed' % (f['qual'], bad[-1][1]), c.where(fr.fn, line), facts(st))


SCALAR = ('bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double')


def scalars(c, cls, path=()):
    """[(path of member names, type)] of the scalar and pointer members, bases included"""
    out = []
    for b in bases(c, cls):
        for fl in (c.p.classes.get(b) or {}).get('fields', []) or []:
            t = fl['t'].replace('const ', '').replace('volatile ', '').strip()
            if t in SCALAR or t.endswith('*') or c.p.classes.get(t, {}).get('enum'):
                out.append(('%s::%s' % (b, fl['n']), t))
    return out


def arrays(c, cls):
    """[(member, extent)] of the small arrays that the destructor uses"""
    out = []
    d = [f['key'] for f in c.p.functions.values() if f['kind'] == 'dtor' and f.get('class') == cls and 'body' in f]
    for fl in (c.p.classes.get(cls) or {}).get('fields', []) or []:
        t = fl['t'].replace('const ', '')
        if not d or not t.endswith(']') or t.count('[') != 1:
            continue
        e, k = t[:-1].split('[')
        e = e.strip()
        if k.isdigit() and int(k) <= 8 and (e in SCALAR or e.endswith('*')):
            q = '%s::%s' % (cls, fl['n'])
            if any(x['k'] == 'mem' and is_field(x, q) for g in reach(c, d) for x in walk(c.p.functions[g].get('body'))):
                out.append((q, int(k)))
    return out


def constructors(c):
    n = 0
    for f in sorted(c.p.functions.values(), key=lambda x: x['key']):
        if f['kind'] != 'ctor' or 'body' not in f or c.p.is_a(f['class'], VISITOR):
            continue
        if f.get('implicit') and not any(g['kind'] == 'ctor' and g['class'] == f['class'] and not g.get('implicit') for g in c.p.functions.values()) and not any(g['kind'] == 'ctor' for g in c.p.functions.values() if g.get('class') in bases(c, f['class'])[1:]):
            continue    # an aggregate without constructors: its users are analysed
        fs = scalars(c, f['class'])
        if not fs and not arrays(c, f['class']):
            continue
        try:
            r = c.analyse(f, hooks=hooks(c, f), maxsteps=BUDGET)
        except (engine.TooBig, RecursionError) as x:
            c.undecided(RULEC, '%s is too large' % f['qual'], c.where(f))
            continue
        for st, v in r.rets:
            for q, k in arrays(c, f['class']):
                for i in range(k):
                    n += 1
                    x = r.E.load(st, ('e', field(r.this, q), num(i)))
                    und = x[:2] == ('t', 'undef')
                    c.decide(True if not und else verdict(st, 0), RULEC, '%s leaves element %d of %s, which the destructor reads, %s' % (f['qual'], i, q.split('::')[-1], 'without a value' if und else 'with a value'), c.where(f), facts(st))
            for q, t in fs:
                n += 1
                x = r.E.load(st, field(r.this, q))
                und = x[:2] == ('t', 'undef')
                if und and not read_somewhere(c, q):
                    und = False
                c.decide(True if not und else verdict(st, 0), RULEC, '%s leaves %s %s' % (f['qual'], q.split('::')[-1], 'without a value' if und else 'with a value'), c.where(f), facts(st))
    if not n:
        raise BrokenAnalysis('no constructor with scalar members')


def read_somewhere(c, q):
    from .common import is_field
    for f in c.p.functions.values():
        if 'body' not in f:
            continue
        for n in walk([f['body'], [i.get('e') for i in f.get('inits', [])]]):
            if n['k'] == 'rd' and is_field(n.get('e'), q):
                return True
    return False


def visitors(c):
    """visitors are complete when they are handed to a measurement"""
    n = 0
    for f in sorted(c.p.functions.values(), key=lambda x: x['key']):
        if 'body' not in f or not f.get('class') or not c.p.is_a(f['class'], RT):
            continue
        if not any(x['k'] in ('mcall', 'call') and (x.get('n') or '').endswith('::AcceptVisitor') for x in walk(f['body'])):
            continue
        h = cmp.hooks(c)
        box = {'bad': [], 'n': 0}
        for k in c.p.derived(M):
            old = h.get(k + '::AcceptVisitor')

            def accepted(E, st, fr, cc, old=old):
                vis = cc.args[0][1]
                for cls in sorted(st.typ.get(vis) or ()):
                    for q, t in scalars(c, cls):
                        box['n'] += 1
                        x = E.load(st, field(vis, q))
                        if x[:2] == ('t', 'undef') and handler_reads(c, cls, q):
                            box['bad'].append((st.fork(), cls, q, cc.line))
                return old(E, st, fr, cc) if old else step(E, st, fr, cc)
            h[k + '::AcceptVisitor'] = accepted
        try:
            r = c.analyse(f, hooks=h, maxsteps=8 * BUDGET)
        except (engine.TooBig, RecursionError) as x:
            c.undecided(RULEV, '%s is too large' % f['qual'], c.where(f))
            continue
        n += box['n']
        report(c, f, r)
        for st, cls, q, line in box['bad']:
            c.decide(verdict(st, 0), RULEV, '%s hands over a %s whose %s has no value' % (f['qual'], cls, q.split('::')[-1]), c.where(f, line), facts(st))
        c.held(RULEV, '%s: %d members of visitors looked at' % (f['qual'], box['n']), c.where(f))
    if not n:
        c.undecided(RULEV, 'no visitor was seen on its way to a measurement', None)


def handler_reads(c, cls, q):
    from .common import is_field
    start = [m['f'] for b in bases(c, cls) for m in (c.p.classes.get(b) or {}).get('methods', []) if m['n'] == 'Visit']
    for k in reach(c, [s for s in start if s in c.p.functions]):
        f = c.p.functions[k]
        for n in walk(f.get('body')):
            if n['k'] == 'rd' and is_field(n.get('e'), q):
                return True
    return False
