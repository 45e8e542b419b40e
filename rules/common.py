"""Helpers shared by the rules."""
from sa.terms import *
from sa.state import *
from sa.engine import plain
from sa.export import BrokenAnalysis

RT = 'testutil::RegressionTest'


def field(base, qual):
    return ('f', base, qual)


def imprecise(*vals):
    """does a value stem from something the analysis had to give up on?"""
    return any(contains(v, lambda t: t[:1] == ('t',) and t[1] in ('hav', 'phi', 'unkexpr')) for v in vals if isinstance(v, tuple))


def facts(st, n=12):
    out = []
    for a, v in list(st.facts.items()):
        if a[0] in ('null',) and v is False:
            continue
        out.append(('' if v else 'not ') + show(a)[:100])
    for x in st.le:
        out.append(show(x)[:80] + ' <= 0')
    for x in st.ne:
        out.append(show(x)[:80] + ' != 0')
    for a, b in st.bind.items():
        out.append('%s = %s' % (show(a)[:60], show(b)[:60]))
    return 'on the path where ' + '; '.join(out[:n]) if out else ''


def zero(st, v):
    """1 certainly zero/false, 0 certainly not, None unknown"""
    if v[0] in ('B', 'b'):
        d = st.decide(v)
        return None if d is None else 1 - d
    if v[0] in ('n', 't'):
        return st.decide(mk_eq0(lin(v)))
    return None


def same(st, a, b):
    """are the two integer/boolean values certainly equal?"""
    if a == b:
        return 1
    if a[0] in ('B', 'b') or b[0] in ('B', 'b'):
        x, y = zero(st, a), zero(st, b)
        if x is not None and y is not None:
            return int(x == y)
        return None
    if a[0] in ('n', 't') and b[0] in ('n', 't'):
        return st.decide(mk_eq0(sub(a, b)))
    return st.decide_eq(a, b)


def verdict(st, d, *vals):
    """turn a decided fact (1/0/None) into held/violated/undecided"""
    if d == 1:
        return True
    if st.unk or imprecise(*vals):
        return None
    return False


def throwing(names, etype='any', then=None):
    """hook: the call either throws something unknown or has effect `then`"""
    def h(E, st, fr, c):
        s2 = st.fork()
        s2.emit('stepthrow', c.name, c.line)
        E.throw(s2, etype, None, fr, c.line)
        st.emit('step', c.name, tuple(c.args), c.obj, c.line)
        if then:
            return then(E, st, fr, c)
        return [(st, ('void',))]
    return {n: h for n in names}


def havoc_fields(E, st, obj, quals):
    for q in quals:
        l = field(obj, q)
        st.mem[l] = T('after', q.split('::')[-1], st.fresh())


def nothing(E, st, fr, c):
    return [(st, ('void',))]


def step(E, st, fr, c):
    st.emit('step', c.name, tuple(c.args), c.obj, c.line)
    return [(st, ('void',))]


def evs(st, *kinds):
    return [e for e in st.events() if e[0] in kinds]


def class_fields(ck, cls):
    c = ck.p.classes.get(cls)
    if not c:
        raise BrokenAnalysis('class %s is gone' % cls)
    return c['fields']


def writers(ck, qual):
    """functions that syntactically may write field `qual` (assignment, ++/--, address or non-const reference taken)"""
    out = {}
    for k, f in ck.p.functions.items():
        if 'body' not in f:
            continue
        for n, why in field_writes(f, qual):
            out.setdefault(k, []).append((n, why))
    return out


def walk(n):
    """all nodes of a tree"""
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            if isinstance(x, (dict, list)):
                yield from walk(x)


def strip(e):
    while isinstance(e, dict) and (e.get('k') in ('full', 'tmp', 'rd') or (e.get('k') == 'cast' and e.get('ck') in ('NoOp', 'LValueBitCast', 'ArrayToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase'))):
        e = e['e']
    return e


def is_field(e, qual):
    e = strip(e)
    return isinstance(e, dict) and e.get('k') == 'mem' and '%s::%s' % (e.get('fc'), e.get('n')) == qual


def field_writes(f, qual):
    """[(line, how)] of the places in f where the field may be changed"""
    out = []
    for i in f.get('inits', []):
        if 'm' in i and '%s::%s' % (i.get('fc'), i['m']) == qual:
            out.append((f['line'], 'init'))
    for n in walk(f['body']):
        k = n['k']
        if k == 'asg' and is_field(n['a'], qual):
            out.append((n.get('l'), 'assign'))
        elif k == 'un' and n['op'] in ('++', '--') and is_field(n['e'], qual):
            out.append((n.get('l'), n['op']))
        elif k == 'un' and n['op'] == '&' and is_field(n['e'], qual):
            out.append((n.get('l'), 'address'))
        elif k == 'call' or k == 'ctor':
            pr = n.get('pr', [])
            for j, a in enumerate(n.get('a', [])):
                if j < len(pr) and pr[j] in ('r', 'm') and is_field(a, qual):
                    out.append((n.get('l'), 'passed to ' + str(n.get('n'))))
            if k == 'call' and n.get('obj') is not None and not n.get('const') and is_field(n['obj'], qual):
                out.append((n.get('l'), 'call ' + str(n.get('n'))))
        elif k == 'decl':
            for v in n['v']:
                if v.get('t', '').endswith('&') and not v['t'].startswith('const') and isinstance(v.get('init'), dict) and is_field(v['init'], qual):
                    out.append((n.get('l'), 'reference'))
    return out


def is_lambda(f):
    return f.get('name') == 'operator()' and ('(anonymous class)' in f['qual'] or '(lambda' in f['qual'])


def callees(ck, f, virt=True):
    """keys of the repository functions that f may call directly"""
    out = set()
    for n in walk([f.get('body'), [i.get('e') for i in f.get('inits', [])]]):
        if n['k'] in ('call', 'ctor') and n.get('f'):
            if n.get('vc') and virt:
                for c in ck.p.derived(n.get('oc') or ''):
                    out.add(ck.p.final_overrider(c, n['f']))
            out.add(n['f'])
        elif n['k'] == 'fn' and n.get('f'):
            out.add(n['f'])
        elif n['k'] == 'del' and n.get('c'):
            for c in ck.p.derived(n['c']):
                d = ck.p.classes.get(c, {}).get('dtor')
                if d:
                    out.add(d)
    return {k for k in out if k in ck.p.functions}


def reach(ck, roots, stop=()):
    """call graph closure over the repository's functions"""
    seen, todo = set(), [r for r in roots]
    while todo:
        k = todo.pop()
        if k in seen or k in stop:
            continue
        seen.add(k)
        todo += [c for c in callees(ck, ck.p.functions[k]) if c not in seen]
    return seen
