"""C17 Leading options are consumed exactly once, in order, with their values."""
from .common import *
from . import compare as cmp
from . import c18
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
The argument parser is interpreted abstractly with the argument vector as one symbolic array (select/store terms) and its
length as a symbolic number; the loop over the options and the loops that move the remaining arguments are solved as
fixpoints.  A moving loop is summarised by an inductive rule: it starts at the option, writes position w from position w+2,
moves on by one, touches nothing behind w+2, and stops exactly when w+2 reaches the length.  Against the entry state of one
iteration of the option loop, an iteration that goes on must have compared the current argument with exactly one option, know
that a value follows, remove exactly the two positions, lower the count by two and have the documented effect of the option
and no other; leaving the loop requires that no option is left at the front.  Exceptions are allowed for a missing value and
for what cannot be read only."""
ASSUME = ['file predicates are decided by C32; strtol and strcmp behave as the C standard says']
OPTS = ('-I', '-O', '-R', '-P')
N = ('d', T('par', 0))
ARGV = ('d', T('par', 1))
ARR = ('f', ARGV, '[]')
EXP = RT + '::expectedReturn'
OUTNAME = RT + '::outFileName'


def check(ck):
    fs = [f for f in ck.p.functions.values() if f['name'] == 'ParseAndRemoveArguments' and 'body' in f and f.get('class') and ck.p.is_a(f['class'], RT)]
    if not fs:
        raise BrokenAnalysis('ParseAndRemoveArguments is gone')
    ck.run([('parse ' + f['qual'], lambda c, f=f: parse(c, f)) for f in fs])


class Iter:
    """one way through the option loop, seen from its head"""


def parse(c, f):
    r = c.analyse(f, hooks=c18.pred_hooks(c), arrays={ARGV}, merge=False, flags=('frames',))
    w = c.where(f)
    outer = [L for L in r.loops if N in L.phi]
    outer = [L for L in outer if not any(L is not M and M.entry.mem.get(N) == lin(L.phi[N]) for M in outer)] or outer
    if not outer:
        c.undecided('loop over the options', '%s has no loop over the arguments' % f['qual'], w)
        return
    O = outer[-1] if len({L.lid for L in outer}) > 1 else outer[0]
    inner = {L.lid: L for L in r.loops if L is not O}
    this = r.this
    # which variables carry the names
    names = {}
    for st, v in r.rets:
        for fl, tag in ((c18.INNAME, '-I'), (OUTNAME, '-O')):
            x = st.mem.get(field(field(this, fl), c18.NAME))
            if x is not None and x[0] == 't' and x[1] == 'cs':
                for l, p in O.phi.items():
                    if p == x[2]:
                        names[tag] = l
    pos = None
    for l, p in O.phi.items():
        pass

    def pre(h, loc):
        v = h.mem.get(loc)
        return v if v is not None else r.E.load(h, loc)
    for k, h0, st, k2 in O.iters:
        step(c, f, r, O, inner, names, h0, st, w)
    for key, h0, st, kind in O.exits:
        if kind == 'throw' or h0 is None:
            continue
        done(c, f, r, O, h0, st, w)
    for st, v in r.rets:
        final(c, f, r, O, st, names, this, w)
    for st, et, v in r.throws:
        thrown(c, f, r, st, et, O, w)
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), 'no abort', '%s: %s' % (f['qual'], k), c.where(f, line), facts(st))
    # the loop must make progress: the count shrinks (decided in step) and stops it
    c.count('option_iterations', len(O.iters))


def head_array(h0):
    return h0.mem.get(ARR) or T('init', ARR)


def options(st, A, unk=None):
    """{option: (index term, outcome)} of the comparisons with an element of A"""
    out = {}
    for a, v in st.facts.items():
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 's' and y[0] == 't' and y[1] == 'cs' and y[2][0] == 't' and y[2][1] == 'sel' and y[2][2] == A:
                    out.setdefault(x[1], []).append((y[2][3], v))
    return out


def ptr(A, i):
    return T('sel', A, i)


def text(A, i):
    return T('cs', ptr(A, i))


def step(c, f, r, O, inner, names, h0, st, w):
    A, n = head_array(h0), h0.mem.get(N)
    n = lin(n) if n is not None else lin(T('init', N))
    opts = options(st, A)
    pos = [(o, i) for o, l in opts.items() for i, v in l if v is True]
    if len(pos) != 1:
        c.decide(verdict(st, 0), 'only options are consumed', '%s goes on having recognised %s' % (f['qual'], [o for o, i in pos] or 'no option'), w, facts(st))
        return
    o, i = pos[0]
    what = '%s with %s' % (f['qual'], o)
    c.decide(True if o in OPTS else verdict(st, 0), 'only options are consumed', what, w, facts(st))
    # the position looked at is that of the loop, and it does not move
    at = [l for l in O.phi if l[0] == 'v' and h0.mem.get(l) is not None and h0.mem[l][0] in ('n', 't') and st.decide(mk_eq0(sub(lin(h0.mem[l]), i))) == 1 and l != N]
    first = i == num(1) if not at else all(O.entry.mem.get(l) == num(1) for l in at[:1])
    still = i == num(1) or any(st.mem.get(l) is not None and st.decide(mk_eq0(sub(lin(st.mem[l]), i))) == 1 for l in at)
    c.decide(True if first and still else verdict(st, 0), 'the first argument left is looked at', '%s looks at position %s%s' % (what, show(i), '' if still else ' and moves on'), w, facts(st))
    ok = st.prove_le(sub(add(i, num(2)), n))
    c.decide(True if ok else verdict(st, 0), 'a value follows', '%s %s' % (what, 'knows that a value follows' if ok else 'does not know that a value follows'), w, facts(st))
    n2 = st.mem.get(N)
    d = st.decide(mk_eq0(sub(lin(n2), sub(n, num(2))))) if n2 is not None and n2[0] in ('n', 't') else 0
    c.decide(True if d == 1 else verdict(st, 0) if d == 0 or not contains(n2, lambda t: t[:2] == ('t', 'phi') and t != O.phi.get(N)) else None,
             'two arguments are taken out', '%s leaves %s of %s arguments' % (what, show(n2), show(n)), w, facts(st))
    d, why = removed(r, st, st.mem.get(ARR), A, i, n, inner)
    c.decide(True if d else None if d is None else verdict(st, 0), 'the rest keeps its order', '%s %s' % (what, why), w, facts(st))
    # effects
    val, vt = ptr(A, add(i, num(1))), text(A, add(i, num(1)))
    this = r.this
    for tag in ('-I', '-O'):
        l = names.get(tag)
        if l is None:
            continue
        a, b = h0.mem.get(l), st.mem.get(l)
        if o == tag:
            ok = b == val
            if o == '-O' and not ok:
                # a file that cannot be written is not used
                ok = b == NULL and fact(st, 'IsFile', vt) is True and fact(st, 'IsWritable', vt) is False
            c.decide(True if ok else verdict(st, 0), 'effect of the option', '%s sets the name to %s' % (what, show(b)), w, facts(st))
        else:
            c.decide(True if a == b else verdict(st, 0), 'no other effect', '%s changes the name of %s to %s' % (what, tag, show(b)), w, facts(st))
    if o == '-I':
        ok = fact(st, 'IsFile', vt) is True and fact(st, 'IsReadable', vt) is True
        c.decide(True if ok else verdict(st, 0), 'only readable files', '%s goes on %s' % (what, 'with a readable file' if ok else 'with a file that may not be readable'), w, facts(st))
    if o == '-P':
        ok = fact(st, 'IsDirectory', vt) is True and fact(st, 'IsReadable', vt) is True
        c.decide(True if ok else verdict(st, 0), 'only readable directories', '%s goes on %s' % (what, 'with a readable directory' if ok else 'with something that may not be a readable directory'), w, facts(st))
    l = field(this, EXP)
    a, b = load(r, h0, l), load(r, st, l)
    if o == '-R':
        ok = is_strtol(st, b, vt)
        c.decide(True if ok else verdict(st, 0), 'effect of the option', '%s expects %s' % (what, show(b)), w, facts(st))
    else:
        c.decide(True if a == b else verdict(st, 0), 'no other effect', '%s changes the expected result to %s' % (what, show(b)), w, facts(st))
    l = field(this, c18.LIST)
    a, b = load(r, h0, l), load(r, st, l)
    if o == '-P':
        ok = b[0] == 'L' and len(b[1]) == 1 and not b[3] and c18.text_of(r, st, b[1][0]) == vt and b[2] == a
        c.decide(True if ok else verdict(st, 0), 'effect of the option', '%s makes the search path %s' % (what, show(b)), w, facts(st))
    else:
        ok = a == b or b == ('L', (), a, ())
        c.decide(True if ok else verdict(st, 0), 'no other effect', '%s changes the search path to %s' % (what, show(b)), w, facts(st))


def load(r, st, l):
    return r.E.load(st, l)


def fact(st, pred, t):
    d = st.decide(mk_true(T(pred, t)))
    return None if d is None else bool(d)


def is_strtol(st, b, vt):
    if b is None or b[0] not in ('n', 't'):
        return False
    ts = []
    contains(b, lambda t: t[:2] == ('t', 'strtol') and ts.append(t) and False)
    return len(ts) == 1 and ts[0][2] == vt and all(x in (num(10), num(0)) for x in ts[0][3:]) and ts[0][3:] != (num(0),)


def stores(a, base):
    """[(index, value)] of the stores onto base, oldest first"""
    out = []
    while a is not None and a != base:
        if a[:2] != ('t', 'sto'):
            return None
        out.append((a[3], a[4]))
        a = a[2]
    return out[::-1] if a == base else None


def removed(r, st, B, A, i, n, inner):
    """is B the array A without its positions i and i+1 (up to n)?"""
    if B is None or B == A:
        if st.prove_le(sub(n, add(i, num(2)))):
            return True, 'has nothing to move'
        return False, 'leaves the option in place'
    while B[0] == 't' and B[1] == 'sto' and st.prove_le(sub(sub(n, num(2)), lin(B[3]))):
        B = B[2]            # positions behind the new end do not matter
    if B == A:
        return removed(r, st, B, A, i, n, inner)
    if B[:2] == ('t', 'move') and B[2] == A:
        to, frm, cnt = B[3], B[4], B[5]
        ok = st.decide(mk_eq0(sub(to, i))) == 1 and st.decide(mk_eq0(sub(frm, add(to, num(2))))) == 1 and st.prove_le(sub(sub(n, add(i, num(2))), cnt))
        return ok, 'moves %s arguments from %s to %s' % (show(cnt), show(frm), show(to))
    if B[:2] == ('t', 'phi'):
        M = inner.get(B[2])
        if M is None:
            return None, 'moves the arguments in a loop that is not understood'
        return shifted(r, st, M, A, i, n)
    s = stores(B, A)
    if s is not None:
        return False, 'moves only %s' % ', '.join('%s to %s' % (show(v), show(k)) for k, v in s)
    return None, 'leaves %s' % show(B)[:80]


def shifted(r, st, M, A, i, n):
    E0 = M.entry
    A0 = E0.mem.get(ARR) or T('init', ARR)
    if A0 != A:
        s = stores(A0, A)
        for k, v in s or ():
            if E0.prove_le(add(sub(lin(k), i), num(1))):
                return False, 'overwrites the argument at position %s' % show(k)
        return None, 'moves the arguments twice'
    if not M.iters:
        return False, 'never moves an argument'
    for k, h0, b, k2 in M.iters:
        P = h0.mem.get(ARR)
        s = stores(b.mem.get(ARR), P)
        if s is None:
            return None, 'moves the arguments in a way that is not understood'
        # the final value of each position written
        fin = {}
        for kx, v in s:
            fin[b.norm(lin(kx))] = v
        ws = [kx for kx, v in fin.items() if v[:2] == ('t', 'sel') and v[2] == P and b.decide(mk_eq0(sub(v[3], add(kx, num(2))))) == 1]
        if len(ws) != 1:
            return False, 'stores %s' % ', '.join('%s to %s' % (show(v), show(kx)) for kx, v in fin.items())
        wx = ws[0]
        for kx in fin:
            if kx != wx and not (b.prove_le(sub(add(wx, num(1)), kx)) and b.prove_le(sub(kx, add(wx, num(2))))):
                return False, 'also overwrites position %s' % show(kx)
        if not b.prove_le(sub(add(wx, num(3)), n)):
            return False, 'moves position %s, which may lie behind the last argument' % show(add(wx, num(2)))
        w0 = at_state(M, wx, E0, h0)
        w1 = at_state(M, wx, b, h0)
        if w0 is None or E0.decide(mk_eq0(sub(w0, i))) != 1:
            return False, 'starts to fill at position %s' % (show(w0) if w0 is not None else '?')
        if w1 is None or b.decide(mk_eq0(sub(w1, add(wx, num(1))))) != 1:
            return False, 'goes from position %s to %s' % (show(wx), show(w1) if w1 is not None else '?')
    # all positions are filled when the loop ends
    ex = [e for e in M.exits if e[1] is not None and e[3] == 'n']
    for k, h0, s, kind in ex:
        wx2 = at_state(M, wx, s, M.iters[0][1])
        if wx2 is None or not s.prove_le(sub(sub(n, num(2)), wx2)):
            return False, 'stops at position %s' % (show(wx2) if wx2 is not None else '?')
    return True, 'moves all later arguments down by two'


def at_state(M, e, s, h0):
    """the linear expression e over M's head values, evaluated in state s"""
    out = num(e[1])
    inv = {}
    for l, p in M.phi.items():
        v = h0.mem.get(l)
        if v is not None and v[0] in ('n', 't'):
            inv[p] = l
    for t, k in e[2]:
        if t in inv:
            v = s.mem.get(inv[t])
            if v is None:
                v = None
            if v is None or v[0] not in ('n', 't'):
                return None
            out = add(out, scale(lin(v), k))
        else:
            out = add(out, scale(lin(t), k))
    return out


def done(c, f, r, O, h0, st, w):
    """the option loop is left: no option may be left at the front"""
    A, n = head_array(h0), h0.mem.get(N)
    n = lin(n) if n is not None else lin(T('init', N))
    opts = options(st, A)
    hit = [o for o, l in opts.items() if any(v is True for i, v in l)]
    idx = num(1)
    miss = [o for o in OPTS if any(v is False for i, v in opts.get(o, []))]
    for l in O.phi:
        if l != N and l[0] == 'v' and O.entry.mem.get(l) == num(1) and h0.mem.get(l, ('x',))[0] in ('n', 't'):
            idx = lin(h0.mem[l])
    end = st.prove_le(sub(n, idx))
    if hit and not end:
        c.decide(verdict(st, 0), 'options are consumed', '%s stops at %s' % (f['qual'], hit[0]), w, facts(st))
        return
    ok = end or len(miss) == len(OPTS)
    c.decide(True if ok else verdict(st, 0), 'options are consumed', '%s stops %s' % (
        f['qual'], 'at the end' if end else 'at something that is no option' if ok else 'without having tried %s' % ' '.join(o for o in OPTS if o not in miss)), w, facts(st))
    same_ = (st.mem.get(ARR) or T('init', ARR)) == A and (st.mem.get(N) is None or lin(st.mem[N]) == n)
    c.decide(True if same_ else verdict(st, 0), 'what is not consumed stays', '%s %s' % (f['qual'], 'leaves the other arguments alone' if same_ else 'changes the other arguments'), w, facts(st))


def final(c, f, r, O, st, names, this, w):
    for fl, tag in ((c18.INNAME, '-I'), (OUTNAME, '-O')):
        l = field(field(this, fl), c18.NAME)
        x = load(r, st, l)
        old = T('init', l)
        if tag not in names:
            c.decide(verdict(st, 0, x) if x == old else None, 'the name is set', '%s never uses the value of %s' % (f['qual'], tag), w, facts(st))
            continue
        p = st.mem.get(names[tag])
        if p is None:
            p = O.phi[names[tag]]
        d = st.decide_null(p)
        exp = old if d == 1 else T('cs', p) if d == 0 else None
        ok = exp is not None and x == exp
        c.decide(True if ok else verdict(st, 0) if not contains(x, lambda t: t[:2] == ('t', 'hav')) else None, 'the name is set', '%s leaves the name of %s as %s' % (f['qual'], tag, show(x)), w, facts(st))
    if 'args changed':
        A = st.mem.get(ARR)
        p = O.phi.get(ARR)
        if A is not None and p is not None and A != p:
            s = stores(A, p)
            c.decide(verdict(st, 0) if s else None, 'what is not consumed stays', '%s changes the arguments after the options' % f['qual'], w, facts(st))


def thrown(c, f, r, st, et, O, w):
    heads = {head_array(h) for h in O.heads.values() if h is not None}
    ok = None
    why = 'without a reason'
    for A in heads:
        opts = options(st, A)
        pos = [(o, i) for o, l in opts.items() for i, v in l if v is True]
        n = None
        for h in O.heads.values():
            if h is not None and head_array(h) == A:
                n = h.mem.get(N)
        n = lin(n) if n is not None else lin(T('init', N))
        for o, i in pos:
            vt = text(A, add(i, num(1)))
            if o in OPTS and st.prove_le(sub(n, add(i, num(1)))):
                ok = True
            if o == '-I' and (fact(st, 'IsFile', vt) is False or fact(st, 'IsReadable', vt) is False):
                ok = True
            if o == '-P' and (fact(st, 'IsDirectory', vt) is False or fact(st, 'IsReadable', vt) is False):
                ok = True
            why = 'at %s' % o
    c.decide(True if ok else verdict(st, 0), 'only errors end the run', '%s throws %s %s' % (f['qual'], et, 'for a missing value or something unreadable' if ok else why), w, facts(st))
