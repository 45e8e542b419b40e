"""C33 The image comparison tool applies each option to the images that follow it."""
from .common import *
from . import c17
from sa import export

UNITS = export.CORE + export.ITK
EXPLAIN = """
The test body of the image comparison tool is interpreted abstractly with the argument vector as one symbolic array and its length
as a symbolic number; the loop over the arguments is solved as a fixpoint.  One iteration, seen from its head, must either
have recognised exactly one option and know that a value follows, move on by two and leave exactly that option's tolerance changed,
to what the value reads as; or have found an argument that does not begin with '-', move on by one, leave the tolerances alone and hand the
three tolerances, each in its own place, and then the image of that argument to the framework, once, under a name that contains a
counter which no iteration lets repeat.  The tool ends with success only when no argument is left, and fails only at an option
without a readable value or at an argument beginning with '-' that is no option."""
ASSUME = ['streams read numbers as the C++ standard says', 'what the framework does with tolerances and images is decided by C23 and C06']
OPTS = ('--intensityTolerance', '--numberOfPixelTolerance', '--radiusTolerance')
ARGV = ('d', T('par', 1))
ARR = ('f', ARGV, '[]')
N = lin(T('par', 0))
SET, IMG = 'SetImageInsightTolerance', 'MeasurementInsightFileImage'
WIDE = {OPTS[0]: ('double', 'long double'), OPTS[1]: ('unsigned int', 'unsigned long', 'long', 'unsigned long long', 'long long'), OPTS[2]: ('unsigned int', 'unsigned long', 'long', 'unsigned long long', 'long long')}
RULE = 'an option changes its own tolerance'
RULEI = 'an image is compared with the tolerances in effect'
RULEE = 'the tool stops for a reason'


def check(ck):
    fs = [f for f in ck.p.functions.values() if f['name'] == 'Test' and 'body' in f and f.get('class') and f['file'].endswith('itktfImageCompare.cxx')]
    if not fs:
        raise BrokenAnalysis('the test body of the image comparison tool is gone')
    ck.run([(f['qual'], lambda c, f=f: tool(c, f)) for f in fs])


def argument(A, i):
    return T('cs', T('sel', A, i))


def tool(c, f):
    def ev(n):
        def h(E, st, fr, cc):
            vals = []
            for a in cc.args:
                vals.append(E.load(st, a[1]) if a[0] in ('l', 'o') else a)
            st.emit('did', n, tuple(vals), cc.line)
            if n == SET:
                return [(st, ('void',))]
            d = T('differs', st.fresh())
            st.iv[d] = (0, 1)
            return [(st, lin(d))]
        return h
    h = {k['qual']: ev(k['name']) for k in c.p.functions.values() if k['name'] in (SET, IMG)}
    r = c.analyse(f, hooks=h, arrays={ARGV}, merge=False, flags=('frames',))
    w = c.where(f)
    A = T('init', ARR)
    loops = [L for L in r.loops if any('did' == e[0] for it in L.iters for e in it[2].events())] or r.loops
    if not loops:
        c.undecided(RULEI, '%s has no loop over the arguments' % f['qual'], w)
        return
    O = loops[-1]
    # the position: the arguments are taken at a fixed distance from it
    pos = {}
    for l, p in O.phi.items():
        ks = set()
        for it in O.iters:
            used = []
            for a in list(it[2].facts) + [x for e in it[2].events() if e[0] == 'did' for x in e[2]]:
                selected(a, A, used)
            for i in used:
                d = sub(i, lin(p))
                if isnum(d):
                    ks.add(d[1])
        if ks and it_moves(O, l):
            pos[l] = min(ks)
    if len(pos) != 1:
        c.undecided(RULEI, '%s: the position in the arguments is not found' % f['qual'], w)
        return
    P, off = pos.popitem()
    e0 = O.entry.mem.get(P)
    e0 = add(lin(e0), num(off)) if e0 is not None and e0[0] in ('n', 't') else NULL
    c.decide(True if e0 == num(1) else verdict(O.entry, 0, e0), RULEI, '%s starts at argument %s' % (f['qual'], show(e0)), c.where(f, O.line))
    tol = tolerances(c, f, O, w)
    if tol is None:
        return
    counters = set()
    for k, h0, st, k2 in O.iters:
        iteration(c, f, O, P, off, A, tol, h0, st, counters, w)
    for k, h0, st, k2 in O.iters:
        for l in sorted(counters):
            grew = st.prove_le(sub(lin(h0.mem[l]), lin(st.mem[l]))) if l in st.mem and h0.mem.get(l, NULL)[0] in ('n', 't') and st.mem[l][0] in ('n', 't') else None
            c.decide(True if grew else verdict(st, 0), RULEI, '%s: the counter in the names %s' % (f['qual'], 'never goes back' if grew else 'may repeat'), w, facts(st))
    for o in OPTS:
        z = O.entry.mem.get(tol[o]) if tol[o] is not None and tol[o][0] != 'const' else tol[o][1]
        ok = z is not None and (z == num(0) or z[0] == 'fl' and float(z[1]) == 0.0)
        c.decide(True if ok else verdict(O.entry, 0, z or NULL), RULE, '%s: without %s the tolerance is %s' % (f['qual'], o, show(z) if z else 'undefined'), w)
    for st, v in r.rets:
        leave(c, f, O, P, off, A, st, v, w)
    for st, et, v in r.throws:
        if et != 'std::bad_alloc':
            c.decide(verdict(st, 0), RULEE, '%s ends in an exception (%s)' % (f['qual'], et), w, facts(st))
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), RULEE, '%s: %s' % (f['qual'], k), c.where(f, line), facts(st))
    c.count('iterations', len(O.iters))


def tolerances(c, f, O, w):
    """{option: the variable that carries it}, by the place in which it is handed over"""
    out = {}
    for k, h0, st, k2 in O.iters:
        for e in evs(st, 'did'):
            if e[1] != SET:
                continue
            if len(e[2]) < 3:
                c.undecided(RULEI, '%s hands over %d tolerances' % (f['qual'], len(e[2])), w)
                return None
            for o, x in zip(OPTS, e[2]):
                ls = [l for l, p in O.phi.items() if x == p or x == lin(p)]
                if len(ls) == 1:
                    out.setdefault(o, set()).add(ls[0])
                elif x[0] == 'fl' or isnum(x):
                    out.setdefault(o, set()).add(('const', x))
    if set(out) != set(OPTS) or any(len(x) != 1 for x in out.values()) or len({min(x) for x in out.values()}) != 3:
        # which variable an option changes tells whether one is handed over in a wrong place
        c.undecided(RULEI, '%s: the tolerances handed over are not found' % f['qual'], w)
        return None
    return {o: min(x) for o, x in out.items()}


def recognised(st, A, i):
    """(options it equals, options it was compared with), 0/1/None whether it begins with '-'"""
    t = argument(A, i)
    yes, no = [], []
    for a, v in st.facts.items():
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 's' and y == t:
                    (yes if v else no).append(x[1])
    d = st.decide(mk_eq0(sub(lin(T('at', t, num(0))), num(45))))
    if yes:
        d = int(yes[0].startswith('-'))
    return yes, no, d


def other_facts(st, t):
    """does the path know anything else about this text?"""
    for a in list(st.facts) + list(st.le) + list(st.ne) + list(st.bind):
        if a[0] == 'eq' and (a[1] == t or a[2] == t):
            continue
        if contains(a, lambda x: x == t or x == t[2]):
            return True
    return False


def iteration(c, f, O, P, off, A, tol, h0, st, counters, w):
    i = add(lin(h0.mem[P]), num(off))
    t = argument(A, i)
    yes, no, dash = recognised(st, A, i)
    moved = sub(lin(st.mem[P]), lin(h0.mem[P]))
    did = evs(st, 'did')
    unchanged = {o: l[0] == 'const' or st.mem.get(l) == h0.mem.get(l) for o, l in tol.items()}
    if yes:
        o = yes[0]
        what = '%s with %s' % (f['qual'], o)
        c.decide(True if o in OPTS else verdict(st, 0), RULE, '%s goes on' % what, w, facts(st))
        if o not in OPTS:
            return
        d = same(st, moved, num(2))
        c.decide(True if d == 1 else verdict(st, 0, moved), RULE, '%s moves on by %s' % (what, show(moved)), w, facts(st))
        ok = st.prove_le(sub(add(i, num(2)), N))
        c.decide(True if ok else verdict(st, 0), RULE, '%s %s that a value follows' % (what, 'knows' if ok else 'does not know'), w, facts(st))
        c.decide(True if not [e for e in did if e[1] == IMG] else verdict(st, 0), RULE, '%s %s' % (what, 'compares nothing' if not did else 'compares an image'), w, facts(st))
        for q in OPTS:
            if q != o:
                c.decide(True if unchanged[q] else verdict(st, 0, st.mem.get(tol[q]) or NULL), RULE, '%s %s the value of %s' % (what, 'leaves' if unchanged[q] else 'changes', q), w, facts(st))
        x = st.mem.get(tol[o])
        y, k = unlin1(x)
        v = argument(A, add(i, num(1)))
        got = []
        parses(x, got)
        if y is not None and y[:2] == ('t', 'badparse'):
            c.decide(verdict(st, 0), RULE, '%s goes on with a value that is not readable' % what, w, facts(st))
        elif y is not None and y[:2] == ('t', 'parse') and k == 0:
            ok = y[2] == T('isrc', v)
            c.decide(True if ok else verdict(st, 0), RULE, '%s takes the value %s' % (what, 'that follows' if ok else show(x)), w, facts(st))
            c.decide(True if y[3] in WIDE[o] or tname(y[3]) in WIDE[o] else verdict(st, 0), RULE, '%s reads the value as %s' % (what, tname(y[3])), w, facts(st))
        elif unchanged[o]:
            c.decide(verdict(st, 0), RULE, '%s does not take the value' % what, w, facts(st))
        else:
            c.decide(None if st.unk or not known_ops(x) else False, RULE, '%s takes the value %s' % (what, show(x) if x else 'nothing'), w, facts(st))
        return
    what = '%s with an argument that is no option' % f['qual']
    if dash == 1:
        c.decide(verdict(st, 0), RULEE, '%s goes on at an unknown option' % f['qual'], w, facts(st))
        return
    if dash is None:
        c.decide(None if other_facts(st, t) else verdict(st, 0), RULEE, '%s goes on without knowing that the argument does not begin with \'-\'' % f['qual'], w, facts(st))
        return
    d = same(st, moved, num(1))
    c.decide(True if d == 1 else verdict(st, 0, moved), RULEI, '%s moves on by %s' % (what, show(moved)), w, facts(st))
    for q in OPTS:
        c.decide(True if unchanged[q] else verdict(st, 0, st.mem.get(tol[q]) or NULL), RULE, '%s %s the value of %s' % (what, 'leaves' if unchanged[q] else 'changes', q), w, facts(st))
    img = [k for k, e in enumerate(did) if e[1] == IMG]
    if len(img) != 1:
        c.decide(verdict(st, 0), RULEI, '%s compares %d images' % (what, len(img)), w, facts(st))
        return
    e = did[img[0]]
    before = [x for x in did[:img[0]] if x[1] == SET]
    if not before:
        c.decide(verdict(st, 0), RULEI, '%s compares without handing over the tolerances' % what, w, facts(st))
    else:
        for o, x in zip(OPTS, before[-1][2]):
            ok = x == tol[o][1] if tol[o][0] == 'const' else x == h0.mem.get(tol[o]) or x == lin(h0.mem[tol[o]])
            c.decide(True if ok else verdict(st, 0, x), RULEI, '%s hands over %s for %s' % (what, show(x), o), w, facts(st))
    x = e[2][0]
    c.decide(True if x == t else None if st.unk or not known_ops(x) else False, RULEI, '%s compares %s' % (what, 'it' if x == t else show(x)), w, facts(st))
    fm = []
    walk_fmt(e[2][1], fm)
    cs = [l for l, p in O.phi.items() if any(contains(y, lambda z: z == p) for y in fm)]
    grow = [l for l in cs if l in st.mem and st.mem[l][0] in ('n', 't') and st.prove_le(add(sub(lin(h0.mem[l]), lin(st.mem[l])), num(1)))]
    if grow:
        counters.update(grow[:1])
        c.held(RULEI, '%s gives a name with a counter that moves on' % what, w)
    else:
        c.decide(None if st.unk or not known_ops(e[2][1]) else False, RULEI, '%s gives the name %s, which may repeat' % (what, show(e[2][1])), w, facts(st))


def walk_fmt(t, out):
    if isinstance(t, tuple):
        if t[:2] == ('t', 'fmt'):
            out.append(t)
        for x in t:
            walk_fmt(x, out)


def unlin1(x):
    """(term, constant) of a value that is one term"""
    if x is None:
        return None, 0
    if x[0] == 'n':
        if len(x[2]) == 1 and x[2][0][1] == 1:
            return x[2][0][0], x[1]
        return None, 0
    return x, 0


OPS = ('phi', 'parse', 'isrc', 'cs', 'sel', 'init', 'par', 'fmt', 'substr', 'find', 'len', 'i2f', 'f2f', 'f+', 'f-', 'f*', 'mul')


def known_ops(x):
    return x is not None and not contains(x, lambda z: z[:1] == ('t',) and z[1] not in OPS)


def parses(x, out):
    if isinstance(x, tuple):
        if x[:2] == ('t', 'parse'):
            out.append(x)
        for y in x:
            parses(y, out)


def selected(t, A, out):
    if isinstance(t, tuple):
        if t[:3] == ('t', 'sel', A):
            out.append(t[3])
        for x in t:
            selected(x, A, out)


def it_moves(O, l):
    return any(it[2].mem.get(l) is not None and it[2].mem[l] != it[1].mem.get(l) for it in O.iters)


def tname(t):
    n = tname0(t)
    return n.replace('&', '').replace('const ', '').strip()


def tname0(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == 's' else t if isinstance(t, str) else show(t)


def leave(c, f, O, P, off, A, st, v, w):
    z = zero(st, v)
    if z is None:
        c.decide(verdict(st, 0, v) if v[0] != 't' else None, RULEE, '%s returns %s' % (f['qual'], show(v)), w, facts(st))
        return
    head = O.phi.get(P)
    heads = [add(lin(head), num(off))] if head is not None else []
    known = None
    for i in heads + [num(1)]:
        yes, no, dash = recognised(st, A, i)
        if yes or no or dash is not None:
            known = (i, yes, no, dash)
            break
    if z == 1:
        if known is not None and (known[1] or known[3] == 1):
            c.decide(verdict(st, 0), RULEE, '%s ends with success at %s' % (f['qual'], known[1][0] if known[1] else 'an unknown option'), w, facts(st))
            return
        x = st.mem.get(P)
        ok = x is not None and x[0] in ('n', 't') and st.prove_le(sub(N, add(lin(x), num(off)))) or st.prove_le(sub(N, num(1)))
        c.decide(True if ok else verdict(st, 0), RULEE, '%s ends with success %s' % (f['qual'], 'at the end of the arguments' if ok else 'although arguments may be left'), w, facts(st))
        return
    if known is None:
        c.decide(verdict(st, 0), RULEE, '%s fails without a reason in the arguments' % f['qual'], w, facts(st))
        return
    i, yes, no, dash = known
    if yes:
        o = yes[0]
        missing = st.prove_le(sub(N, add(i, num(1))))
        val = argument(A, add(i, num(1)))
        bad = unreadable(st, val)
        ok = missing or bad
        c.decide(True if ok else verdict(st, 0), RULEE, '%s fails at %s, whose value %s' % (f['qual'], o, 'is missing' if missing else 'is not readable' if bad else 'is there and may be readable'), w, facts(st))
        return
    ok = dash == 1 and set(OPTS) <= set(no)
    c.decide(True if ok else None if other_facts(st, argument(A, i)) and dash is None else verdict(st, 0), RULEE, '%s fails at %s' % (f['qual'], 'an unknown option' if ok else 'an argument that it should handle'), w, facts(st))


def unreadable(st, val):
    src = T('isrc', val)
    for a, v in st.facts.items():
        if not v and contains(a, lambda t: t[:2] == ('t', 'parses') and t[2] == src):
            return True
    return False
