"""C09 A malformed baseline is rejected, never a crash."""
from .common import *
from . import reader as rd
from sa import export

UNITS = export.CORE
EXPLAIN = """
Every callback the reader registers with the XML parser is interpreted abstractly, with everything it calls, for any element
name, any list of attributes (pairs behind one another, ended by a null), any text, any nesting depth and with or without a
current measurement: every pointer that is dereferenced is known to be there on that path (a position in the attribute list
only behind a name that is there, reached in steps of two from the start), no assertion, abort or empty list access is
reached, and only measurements that exist are collected.  The reading function itself is interpreted with the parser's
documented contract (any call may fail): a missing parser or buffer is never used, no chunk is parsed or read after the parser
rejected one, a rejected chunk never ends in a normal return; and whatever is thrown on the way is an exception object the
run catches (C01)."""
ASSUME = ['expat calls back with non-null names, null-terminated name/value pairs and properly nested elements', 'memory exhaustion is out of scope']

NULLS = 'what is dereferenced is there'
DIES = 'no input ends in an abort'
KINDS = {'null-deref': 'dereferences a null pointer', 'null-string': 'makes a string of a null pointer', 'assert': 'runs into an assertion',
         'front-of-empty': 'takes the first of an empty list', 'pop-of-empty': 'removes from an empty list', 'abort': 'aborts', 'terminate': 'terminates',
         'use-after-release': 'uses what was released', 'double-release': 'releases twice', 'mismatched-release': 'releases by the wrong means'}


def check(ck):
    h = rd.handlers(ck)
    ck.run([('%s callback' % role, lambda c, role=role: handler(c, role)) for role in h] + [('reading loop', reading)], timeout=400)


def parity(v, known):
    """parity of a linear value when the terms in `known` have known parity"""
    v = lin(v)
    p = v[1] % 2
    for t, k in v[2]:
        if k % 2 == 0:
            continue
        if t not in known or t == 'mixed':
            return None
        p ^= known[t]
    return p


def counters(r):
    """{counter term: parity} of the loop counters that keep their parity"""
    known = {}
    for L in r.loops:
        for k, phi in L.phi.items():
            init = L.entry.mem.get(k) if hasattr(L.entry, 'mem') else None
            if init is None or init[0] not in 'n':
                continue
            p = parity(init, known)
            if p is None:
                continue
            trial = dict(known)
            trial[phi] = p
            ps = [parity(it[2].mem[k], trial) if it[2].mem.get(k) is not None and it[2].mem[k][0] in 'nt' else None for it in L.iters]
            if any(x == 1 - p for x in ps):
                known.setdefault('mixed', set()).add(phi)
            elif all(it[2].mem.get(k) is not None and it[2].mem[k][0] in 'nt' and parity(it[2].mem[k], trial) == p for it in L.iters):
                known[phi] = p
    return known


def attr_index(v, names):
    """the position of an attribute pointer, if it is one"""
    if v[:2] == ('t', 'cell') and v[2] == names:
        return lin(v[3])
    return None


def handler(c, role):
    f = rd.handlers(c)[role][0]
    names = T('par', 2)

    def setup(E, st, this, vals):
        rd.handler_setup(E, st, this, vals)
        if role == 'data':
            st.iv[T('par', 2)] = (0, 2**31 - 1)
    r = c.analyse(f, setup=setup)
    w = c.where(f)
    m = T('init', rd.pd_field(c, 'm'))
    odd = counters(r)
    for st, v in r.rets:
        c.held(DIES, '%s comes back from a %s' % (f['qual'], {'start': 'start tag', 'end': 'end tag', 'data': 'text'}[role]), w)
    for st, t, v in r.throws:
        c.held(DIES, '%s throws %s' % (f['qual'], t), w)
    for st, kind, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), DIES, '%s %s' % (f['qual'], KINDS.get(kind, kind)), place(c, f, fr, line), facts(st))
    for st, fr, line, v in r.null_derefs:
        i = attr_index(v, names) if role == 'start' else None
        if i is not None:
            p = parity(i, odd)
            if p == 1:
                before = T('cell', names, st.norm(sub(i, num(1))))
                d = null_cell(st, before)
                c.decide(True if d == 0 else verdict(st, 0), NULLS, '%s uses an attribute value %s' % (f['qual'], 'behind a name that is there' if d == 0 else 'without knowing that there is a name before it'), place(c, f, fr, line), facts(st))
            else:
                mixed = any(contains(i, lambda t, x=x: t == x) for x in odd.get('mixed', ()))
                c.decide(verdict(st, 0) if p == 0 or mixed else None, NULLS, '%s uses position %s of the attributes without knowing that it is there' % (f['qual'], show(i)), place(c, f, fr, line), facts(st))
            continue
        ours = v == m or contains(v, lambda t: t == T('par', 0))
        c.decide(verdict(st, 0, v) if ours else None, NULLS, '%s dereferences %s, which may be null' % (f['qual'], 'the current measurement' if v == m else show(v)), place(c, f, fr, line), facts(st))
    for st, v in r.rets + [(x[0], None) for x in r.throws]:
        for e in evs(st, 'front-maybe-empty'):
            c.decide(verdict(st, 0), DIES, '%s takes an element of a list that may be empty' % f['qual'], w, facts(st))
    if role == 'start':
        walks(c, f, r, names, odd)
    lst = rd.pd_field(c, 'measurements')
    for st, v in r.rets:
        for e in evs(st, 'push_back', 'push_front', 'insert'):
            if e[1] != lst:
                continue
            x = e[2]
            x = r.E.load(st, x[1]) if isinstance(x, tuple) and x[0] in ('l', 'o') else x
            d = st.decide_null(x)
            c.decide(True if d == 0 else verdict(st, 0, x), 'only measurements that exist are collected', '%s collects %s' % (f['qual'], 'an existing measurement' if d == 0 else '%s, which may be null' % show(x)), w, facts(st))


def null_cell(st, want):
    d = st.decide_null(want)
    if d is not None:
        return d
    for k, v in st.facts.items():
        if k[0] == 'null' and v is False and k[1][:2] == ('t', 'cell') and k[1][2] == want[2] and st.decide(mk_eq0(sub(lin(k[1][3]), lin(want[3])))) == 1:
            return 0
    return None


def place(c, f, fr, line):
    g = fr.fn if fr is not None else f
    return c.where(g, line)


def walks(c, f, r, names, odd):
    """a walk over the attributes ends at the null"""
    RULE = 'attributes are read up to their end'
    for L in r.loops:
        for k, phi in L.phi.items():
            reads = any(contains(x, lambda t: t[:2] == ('t', 'cell') and t[2] == names and contains(t[3], lambda u: u == phi))
                        for it in L.iters for x in list(it[2].facts) + [y for y in it[2].mem.values()])
            if not reads or phi not in odd:
                continue
            for it in L.iters:
                st = it[2]
                d = null_cell(st, T('cell', names, lin(phi)))
                step = sub(lin(st.mem[k]), lin(phi))
                good = d == 0 and st.decide(mk_le(sub(step, num(2)))) == 1
                c.decide(True if good else verdict(st, 0), RULE, '%s steps %s' % (f['qual'], 'over a pair that is there' if good else 'past what is known to be there'), c.where(f, L.line), facts(st))


def reading(c):
    f, r = rd.read_run(c)
    w = c.where(f)
    RULE = 'nothing is parsed after an error'
    for st, kind, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), DIES, '%s %s' % (f['qual'], KINDS.get(kind, kind)), place(c, f, fr, line), facts(st))
    for L in r.loops:
        for it in L.iters:
            rejected(c, f, it[2], L.iter_events(it), RULE, True)
    for st, v in r.rets:
        rejected(c, f, st, st.events(), RULE, True)
    for st, t, v in r.throws:
        rejected(c, f, st, st.events(), RULE, False)
        c.held(DIES, '%s throws %s' % (f['qual'], t), w)


def rejected(c, f, st, es, RULE, on):
    bad = None
    for e in es:
        if e[0] == 'parse':
            if bad is not None:
                c.decide(verdict(st, 0), RULE, '%s parses on after the parser reported an error' % f['qual'], c.where(f, e[5]), facts(st))
            if not e[4]:
                bad = e
        elif e[0] == 'read' and bad is not None:
            c.decide(verdict(st, 0), RULE, '%s reads on after the parser reported an error' % f['qual'], c.where(f, e[5]), facts(st))
        elif e[0] == 'sys' and e[1] in ('XML_ParserCreate', 'XML_GetBuffer') and not e[3]:
            bad = bad or e
    if bad is None:
        c.held(RULE, '%s meets no error' % f['qual'], c.where(f))
    else:
        c.decide(True if not on else verdict(st, 0), RULE, '%s %s after an error of the parser' % (f['qual'], 'goes on' if on else 'throws'), c.where(f), facts(st))
