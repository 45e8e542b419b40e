"""C29 A line diff labels and ranges every change correctly."""
from .common import *
from sa import export, models

UNITS = export.CORE
EXPLAIN = """
The five steps of the text difference are interpreted one by one, each against what the others promise.  The function that prints lines:
from its loop the analysis derives which parameter is the prefix, the text, the first line and the number of lines; every iteration
prints exactly the line at its position from the table of that text, the positions run from the first line in steps of one to the end.
The function that prints the list: on every path through one element the branch facts on its counts decide which of the three forms has
to come, and the numbers printed and the lines asked for have to be linear forms of the element's fields.  The construction of the list
(recursion and midpoint by contract): the pieces handed to the recursion, what is passed over and the changes made tile the range; a line
is passed over only under the fact that both identifiers are equal; table reads are within the range.  The line tables: the counting and
the filling loop step under the same predicate.  Iterators of the hash table are followed for being used only where they are not the end.
"""
ASSUME = ['the midpoint search returns a point inside the range and a positive length (it is too large for the interpreter)',
          'equal identifiers stand for equal lines (the values of the hash table are not followed)', 'texts of fewer than 2^62 bytes']

RULEP = 'lines are printed whole, in order and as many as asked for'
RULEL = 'each change has the label and ranges of its kind'
RULEC = 'changes and unchanged lines tile the texts'
RULEB = 'no position outside the lines of the texts is read'
RULEE = 'lines are passed over only if they are equal, equal texts give no output'
RULET = 'the line tables describe the lines of the texts'

BIG = 1 << 62


def find(ck, name):
    for f in ck.p.functions.values():
        if f['name'] == name and 'tfDiff' in f['file'] and 'body' in f:
            return f
    return None


def deref(v):
    return v[1] if v[0] in ('p', 'l', 'o') else ('d', v)


def check(ck):
    fs = {n: find(ck, n) for n in ('Diff', 'BuildLines', 'GenerateEditList', 'PrintLines', 'PrintEditList', 'FindEditMidPoint')}
    if fs['Diff'] is None:
        raise BrokenAnalysis('the difference of texts is gone')
    missing = [n for n, f in fs.items() if f is None]
    for n in missing:
        ck.undecided(RULEC, 'the step %s is not a function of its own' % n, ck.where(fs['Diff']))
    tasks = []
    if fs['PrintLines'] and fs['PrintEditList']:
        tasks.append(('printing', lambda c: printing(c, fs)))
    if fs['GenerateEditList'] and fs['FindEditMidPoint']:
        tasks.append(('construction', lambda c: construction(c, fs)))
    if fs['BuildLines']:
        tasks.append(('tables', lambda c: tables(c, fs)))
        tasks.append(('iterators', lambda c: iterators(c, fs)))
    if not missing:
        tasks.append(('whole', lambda c: whole(c, fs)))
    ck.run(tasks)


def entry_map(L):
    """phi -> value at entry"""
    out = {}
    for loc, phi in L.phi.items():
        v = L.entry.mem.get(loc)
        if v is not None:
            out[phi] = v
    return out


def back_map(L, it):
    out = {}
    for loc, phi in L.phi.items():
        v = it[2].mem.get(loc)
        if v is not None:
            out[phi] = v
    return out


def outs(ev):
    """what is printed: [text | ('v', term) | ('call', args)] of a run of events"""
    out = []
    for e in ev:
        if e[0] == 'out':
            for p in models.catparts(e[2]):
                if p[0] == 's':
                    if out and isinstance(out[-1], str):
                        out[-1] += p[1]
                    else:
                        out.append(p[1])
                else:
                    out.append(('v', p))
        elif e[0] == 'lines':
            out.append(('call',) + e[1:])
    return out


# ---------------------------------------------------------------- printing
def printing(c, fs):
    roles = lines(c, fs['PrintLines'])
    if roles is None:
        return
    edits(c, fs, roles)


def lines(c, f):
    """check the function that prints lines; -> which parameter is what"""
    def setup(E, st, this, vals):
        for v in vals:
            if v[0] in ('n', 't'):
                st.assume(mk_le(sub(lin(v), num(BIG))))
    r = c.analyse(f, merge=False, setup=setup)
    w = c.where(f)
    if len(r.loops) != 1 or not r.loops[0].iters:
        c.undecided(RULEP, 'lines are not printed by one loop', w)
        return None
    L = r.loops[0]
    role = None
    for st, v in r.rets:
        pre = []
        for e in st.events():
            if e[0] == 'loop':
                break
            pre.append(e)
        post = []
        for e in reversed(list(st.events())):
            if e[0] == 'loopexit':
                break
            post.append(e)
        if outs(pre) or outs(post):
            c.decide(verdict(st, 0), RULEP, 'something is printed besides the lines', w, facts(st))
    pos = None
    for it in L.iters:
        st = it[2]
        ev = list(L.iter_events(it))
        o = outs(ev)
        w2 = c.where(f, L.line)
        cut = [e for e in ev if e[0] == 'ntbs' and contains(e[1], lambda t: t[:2] == ('t', 'substr'))]
        if cut:
            c.decide(verdict(st, 0), RULEP, 'a line is printed only up to its first null character', w2, facts(st))
        vs = [x for x in o if isinstance(x, tuple)]
        if len(vs) != 2 or o[-1] != '\n' or len(o) != 3:
            txt = vs and any(contains(x, lambda t: t[:2] == ('t', 'substr')) for x in vs)
            c.decide(False if txt and len(vs) <= 2 else None, RULEP, 'an iteration prints %s instead of prefix, line and line break'
                     % ', '.join(repr(x) if isinstance(x, str) else show(x[1])[:40] for x in o), w2, facts(st))
            continue
        pre, txt = vs[0][1], vs[1][1]
        if txt[:2] != ('t', 'substr') or len(txt) != 5:
            # without a check of the length the whole rest of the text
            c.undecided(RULEP, 'what is printed is %s' % show(txt)[:80], w2)
            continue
        ix = [x for x in walkterm(txt) if x[:1] == ('e',) and contains(x[1], lambda t: isinstance(t, tuple) and t[:1] == ('f',) and str(t[2]).endswith('::lines')) and x[1][:1] == ('d',)]
        poss = {x[2] for x in ix}
        arrs = {x[1] for x in ix}
        src = {x[2] for x in walkterm(txt) if x[:1] == ('e',) and x[1][:1] == ('f',) and str(x[1][2]).endswith(('::lines', '::str'))}
        if len(poss) != 1 or len(arrs) != 1:
            c.decide(None if not poss else False, RULEP, 'the position and length of a line come from different entries' if poss else 'the table is not used', w2, facts(st))
            continue
        if len(src) != 1:
            c.decide(verdict(st, 0) if all(isnum(x) or par(x) for x in src) else None, RULEP, 'the text and the table of lines belong to different texts', w2, facts(st))
            continue
        pos, arr, s = poss.pop(), arrs.pop(), src.pop()
        begin, length = txt[3], txt[4]
        fld = lambda x: [t[2].split('::')[-1] for t in walkterm(x) if t[:1] == ('f',) and t[1][:1] == ('e',)]
        # the start is the entry's start, the length its length (or what is left of the text)
        ok = fld(begin) == ['lindex'] and begin[1:2] == (0,)
        c.decide(True if ok else False if fld(begin) else None, RULEP, 'a line begins where the table says' if ok else 'a line begins at %s' % show(begin)[:80], w2, facts(st))
        fl = fld(length)
        okl = 'length' in fl and len(fl) == 1 and same(st, length, lin([t for t in walkterm(length) if t[:2] == ('t', 'init') and t[2][:1] == ('f',) and t[2][2].endswith('::length')][0])) == 1
        clip = not okl and contains(length, lambda t: t[:2] == ('t', 'len')) and 'lindex' in fl
        c.decide(True if okl or clip else False if fl else None, RULEP, 'a line ends where the table says' if okl or clip else 'a line has the length %s' % show(length)[:80], w2, facts(st))
        a = subst(pos, entry_map(L))
        b = subst(pos, back_map(L, it))
        c.decide(stepok(st, sub(lin(b), lin(pos)), 1), RULEP, 'from one line to the next in steps of one', w2, facts(st))
        c.count('iterations', 1)
        a = L.entry.norm(a)
        start = par(a)
        p, q = parobj(pre), par(s)
        if start is None or p is None or q is None:
            if start is None:
                d = [t for t in a[2]] if a[0] == 'n' else None
                c.decide(False if d is not None and all(par(lin(x[0])) is not None for x in d) else None, RULEP, 'the first line printed is %s' % show(a)[:80], w2, facts(st))
            else:
                c.undecided(RULEP, 'the prefix or the text are not parameters', w2)
            continue
        role = dict(prefix=p, source=q, start=start, pos=pos)
    if role is None:
        return None
    ends = set()
    for x in L.exits:
        st = x[2] if hasattr(x[2], 'mem') else x[1]
        if x[3] != 'n':
            if x[3] == 'r':
                c.decide(None, RULEP, 'the loop is left by a return', w)
            continue
        v = st.norm(subst(role['pos'], back_map(L, (None, None, st))))
        n = st.norm(sub(v, lin(T('par', role['start']))))
        k = par(n)
        if k is None:
            # equal to a parameter by the facts?
            for i in range(len(f['params'])):
                t = T('par', i)
                if i != role['start'] and f['params'][i]['t'] == f['params'][role['start']]['t'] and st.decide(mk_eq0(sub(n, lin(t)))) == 1:
                    k = i
        if k is None and not st.unk:
            t = first_time(st, [L])
            cand = [i for i in range(len(f['params'])) if i != role['start'] and f['params'][i]['t'] == f['params'][role['start']]['t']]
            if t is not None and len(cand) == 1 and same(t, t.norm(n), num(0)) == 1 and t.assume(mk_le(sub(num(1), lin(T('par', cand[0]))))):
                c.violated(RULEP, 'no line is printed although lines are asked for', c.where(f, L.line), facts(t))
                continue
        if k is None:
            const = n[0] == 'n' and len(n[2]) == 1 and par(sub(n, num(n[1]))) is not None
            c.decide(verdict(st, 0) if const else None, RULEP, 'the number of lines printed is %s' % show(n)[:80], c.where(f, L.line), facts(st))
            continue
        ends.add(k)
    # nothing else may be decided by an iteration that was not taken
    for it in L.iters:
        st = it[2]
        if ends and len(ends) == 1:
            left = sub(add(lin(T('par', role['start'])), lin(T('par', list(ends)[0]))), lin(role['pos']))
            c.decide(st.prove_le(sub(num(1), left)) or verdict(st, 0 if st.prove_le(left) else None, left) if True else None, RULEP, 'a line is printed only while lines are left', c.where(f, L.line), facts(st))
    if len(ends) != 1:
        if ends:
            c.undecided(RULEP, 'the number of lines differs between ways out', w)
        return None
    c.held(RULEP, 'the lines from the start on, as many as asked for', w)
    role['count'] = ends.pop()
    return role


def stepok(st, d, k):
    if isnum(d):
        return d[1] == k
    x = st.decide(mk_eq0(sub(d, num(k))))
    return True if x == 1 else (False if x == 0 and not st.unk else None)


def par(v):
    """number of the parameter a value is"""
    if v is None:
        return None
    if v[0] == 'n' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        v = v[2][0][0]
    if v[:2] == ('t', 'par'):
        return v[2]
    return None


def parobj(v):
    if v[:2] == ('t', 'par'):
        return v[2]
    if v[:2] == ('t', 'init') and v[2][:1] == ('d',) and v[2][1][:2] == ('t', 'par'):
        return v[2][1][2]
    return None


def walkterm(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walkterm(x)


def edits(c, fs, role):
    f = fs['PrintEditList']

    def pl(E, st, fr, cc):
        a = list(cc.args)
        p = a[role['prefix']]
        if p[0] in ('l', 'o', 'p'):
            p = E.load(st, p[1])
        st.emit('lines', p, st.norm(a[role['source']]), st.norm(a[role['start']]), st.norm(a[role['count']]), cc.line)
        return [(st, ('void',))]
    r = c.analyse(f, hooks={fs['PrintLines']['key']: pl, fs['PrintLines']['qual']: pl}, merge=False)
    w = c.where(f)
    if len(r.loops) != 1:
        c.undecided(RULEL, 'the list is not printed by one loop', w)
        return
    L = r.loops[0]
    for st, v in r.rets:
        ev, inside = [], False
        for e in st.events():
            if e[0] == 'loop':
                inside = True
            elif e[0] == 'loopexit':
                inside = False
            elif not inside:
                ev.append(e)
        o = outs(ev)
        c.decide(verdict(st, 0) if o else True, RULEE, 'nothing is printed for a list without changes' if not o else 'something is printed that is not a change', w, facts(st))
    seen = set()
    for it in L.iters:
        st = it[2]
        ev = list(L.iter_events(it))
        el = [e[1] for e in ev if e[0] == 'mayderef' and e[1][:2] == ('t', 'elem')]
        if not el:
            c.decide(None, RULEL, 'an element of the list is not looked at', c.where(f, L.line), facts(st))
            continue
        if len(set(el)) != 1:
            c.undecided(RULEL, 'more than one element in an iteration', c.where(f, L.line))
            continue
        X = ('d', el[0])
        flds = {}
        for t in walkterm(tuple(ev)):
            if t[:1] == ('f',) and t[1] == X:
                flds[t[2].split('::')[-1]] = t
        for t in list(st.facts) + list(st.le) + list(st.ne) + list(st.bind):
            for t in walkterm(t):
                if t[:1] == ('f',) and len(t) == 3 and t[1] == X:
                    flds[t[2].split('::')[-1]] = t
        g = {n: lin(T('init', ('f', X, E_EDIT + n))) for n in ('line0', 'line1', 'inserted', 'deleted')}
        if not set(flds) <= set(g):
            c.undecided(RULEL, 'changes have other fields', w)
            continue
        s = st.fork()
        if not (s.assume(mk_le(sub(num(0), g['inserted']))) and s.assume(mk_le(sub(num(0), g['deleted']))) and s.assume(mk_le(sub(num(0), g['line0']))) and s.assume(mk_le(sub(num(0), g['line1'])))):
            continue
        if any(e[0] == 'wrap' for e in ev):
            continue
        some = add(g['inserted'], g['deleted'])
        if s.prove_le(some) or not s.assume(mk_le(sub(num(1), some))):
            continue            # changes nothing: is not in the list (construction)
        # complete the case distinction the element's counts allow
        for iz in (0, 1):
            for dz in (0, 1):
                if iz and dz:
                    continue
                for big in (0, 1):
                    for bigd in (0, 1):
                        if (iz and big) or (dz and bigd):
                            continue
                        t = s.fork()
                        ok = t.assume(mk_eq0(g['inserted']) if iz else mk_le(sub(num(2), g['inserted'])) if big else mk_eq0(sub(g['inserted'], num(1)))) and \
                            t.assume(mk_eq0(g['deleted']) if dz else mk_le(sub(num(2), g['deleted'])) if bigd else mk_eq0(sub(g['deleted'], num(1))))
                        if not ok or contradiction(t, g):
                            continue
                        seen.add((iz, dz, big, bigd))
                        one(c, f, L, t, ev, g, iz, dz, big, bigd)
    c.count('kinds of changes', len(seen))
    if not seen:
        c.undecided(RULEL, 'no change is printed', w)


E_EDIT = 'testutil::(anonymous namespace)::edit::'


def contradiction(t, g):
    return t.prove_le(add(add(g['inserted'], g['deleted']), num(0)))


def one(c, f, L, st, ev, g, iz, dz, big, bigd):
    w = c.where(f, L.line)
    kind = ('change', 'insertion', 'deletion')[0 if not iz and not dz else 1 if dz else 2]
    n0, n1 = g['line0'], g['line1']
    r0 = [add(n0, num(1))] + ([',', add(n0, g['deleted'])] if bigd else [])
    r1 = [add(n1, num(1))] + ([',', add(n1, g['inserted'])] if big else [])
    if kind == 'change':
        want = r0 + ['c'] + r1 + ['\n', ('<', 0, n0, g['deleted']), None, ('>', 1, n1, g['inserted'])]
    elif kind == 'insertion':
        want = [n0, 'a'] + r1 + ['\n', ('>', 1, n1, g['inserted'])]
    else:
        want = r0 + ['d', add(n1, num(1)), '\n', ('<', 0, n0, g['deleted'])]
    got = []
    for x in outs(ev):
        if isinstance(x, str):
            cur = x
            while cur:
                if cur[0] in ',acd\n':
                    got.append(cur[0])
                    cur = cur[1:]
                else:
                    got.append(cur)
                    cur = ''
        elif x[0] == 'v':
            v = x[1]
            got.append(('num', lin(v[2])) if v[:2] == ('t', 'fmt') else ('?', v))
        else:
            got.append(x)
    # an optional separator
    i = 0
    msg = None
    sure = True
    for wv in want:
        if wv is None:
            while i < len(got) and isinstance(got[i], str) and got[i] not in ('a', 'c', 'd', ','):
                i += 1
            continue
        if i >= len(got):
            msg = 'a part is missing'
            break
        x = got[i]
        i += 1
        if isinstance(wv, str):
            if x != wv:
                msg = '%r is printed instead of %r' % (x if isinstance(x, str) else show(x[1])[:60], wv)
                sure = isinstance(x, str) or x[0] in ('num', 'call')
                break
        elif wv[0] == 'n':
            if not (isinstance(x, tuple) and x[0] == 'num'):
                msg = 'a number is missing, there is %s' % (x if isinstance(x, str) else show(x[1])[:60],)
                sure = isinstance(x, str) or x[0] == 'call'
                break
            d = same(st, x[1], wv)
            if d != 1:
                msg = 'the number is %s instead of %s' % (show(x[1])[:80], show(wv)[:80])
                sure = not imprecise_(x[1])
                break
        else:
            if not (isinstance(x, tuple) and x[0] == 'call'):
                msg = 'the lines are missing'
                sure = isinstance(x, str) or x[0] == 'num'
                break
            p, src, start, cnt = x[1:5]
            if p[0] != 's' or not p[1].startswith(wv[0]) or (p[1][1:] not in ('', ' ')):
                msg = 'the lines are printed with the prefix %s' % show(p)
                sure = p[0] == 's'
                break
            if same(st, src, num(wv[1])) != 1:
                msg = 'the lines are taken from the other text'
                sure = isnum(src)
                break
            if same(st, start, wv[2]) != 1 or same(st, cnt, wv[3]) != 1:
                msg = 'the lines printed are %s lines from %s' % (show(cnt)[:60], show(start)[:60])
                sure = not imprecise_(start) and not imprecise_(cnt)
                break
    if msg is None and i < len(got):
        rest = [x for x in got[i:] if not (isinstance(x, str) and x.strip() == '')]
        if rest:
            msg = 'something is printed after it'
    what = 'a %s%s' % (kind, ' of several lines' if big or bigd else '')
    c.decide(True if msg is None else (verdict(st, 0) if sure else None), RULEL, what if msg is None else '%s: %s' % (what, msg), w, facts(st))
    c.count('paths through one change', 1)


def imprecise_(v):
    return contains(v, lambda t: t[:1] == ('t',) and t[1] in ('hav', 'unkexpr'))


# ---------------------------------------------------------------- construction
ED = E_EDIT
PART = 'testutil::(anonymous namespace)::partition::'


def within(st, lo, x, hi):
    """lo <= x <= hi: 1, 0 (refuted) or None"""
    a, b = sub(lin(lo), lin(x)), sub(lin(x), lin(hi))
    if st.prove_le(a) and st.prove_le(b):
        return 1
    if st.prove_le(sub(num(1), a)) or st.prove_le(sub(num(1), b)):
        return 0
    return None


def opaque(*vs):
    return any(imprecise_(v) for v in vs)


def construction(c, fs):
    f = fs['GenerateEditList']
    P = [T('par', i) for i in range(4)]
    xb, xe, yb, ye = (lin(v) for v in P)
    ty = [p['t'] for p in f['params'][:4]]
    if len(f['params']) != 5 or len(set(ty)) != 1:
        c.undecided(RULEC, 'the construction of the list has other parameters', c.where(f))
        return

    def setup(E, st, this, vals):
        for v in (xb, yb):
            st.assume(mk_le(sub(num(0), v)))
        st.assume(mk_le(sub(xb, xe)))
        st.assume(mk_le(sub(yb, ye)))
        for v in (xe, ye):
            st.assume(mk_le(sub(v, num(BIG))))

    def mid(E, st, fr, cc):
        st.emit('midpoint', tuple(st.norm(a) for a in cc.args[:4]), cc.line)
        p = deref(cc.args[4])
        k = st.fresh()
        X, Y, N = T('midx', k), T('midy', k), T('midn', k)
        st.mem[('f', p, PART + 'xmid')] = lin(X)
        st.mem[('f', p, PART + 'ymid')] = lin(Y)
        st.mem[('f', p, PART + 'length')] = lin(N)
        st.iv[N] = (1, 1 << 31)
        a = [lin(x) for x in cc.args[:4]]
        for v, lo, hi in ((X, a[0], a[1]), (Y, a[2], a[3])):
            st.assume(mk_le(sub(lo, lin(v))))
            st.assume(mk_le(sub(lin(v), hi)))
        return [(st, ('void',))]

    def rec(E, st, fr, cc):
        k = st.fresh()
        st.emit('piece', tuple(st.norm(a) for a in cc.args[:4]), k, cc.line)
        st.mem[cc.dest] = ('L', (), T('made', k), ())
        return [(st, ('o', cc.dest))]
    m = fs['FindEditMidPoint']
    r = c.analyse(f, hooks={m['key']: mid, m['qual']: mid, f['key']: rec, f['qual']: rec}, merge=False, setup=setup, flags=('cells',))
    w = c.where(f)
    n = 0
    for L in r.loops:
        passing(c, f, L)
    cells(c, f, r, lambda st, base: rng(c, base, xb, xe, yb, ye))
    for st, v in r.rets:
        n += 1
        result(c, f, st, v, xb, xe, yb, ye)
    c.count('ways through the construction', n)


def which(base):
    """the text (0/1) an array of identifiers belongs to"""
    for t in walkterm(base):
        if t[:1] == ('e',) and t[1][:1] == ('f',) and str(t[1][2]).endswith('::vec') and isnum(t[2]):
            return t[2][1]
        if t[:2] == ('t', 'vec') and isinstance(t[2], int):
            return t[2]
    return None


def rng(c, base, xb, xe, yb, ye):
    k = which(base)
    return None if k is None else (xb, xe) if k == 0 else (yb, ye)


def cells(c, f, r, bounds):
    """every read of a cell is within the range given for its array"""
    done = set()
    every = [st for st, _ in r.rets] + [a[0] for a in r.aborts] + [it[2] for L in r.loops for it in L.iters]
    for st in every:
        for e in st.events():
            if e[0] == 'cell':
                d = e[4]
                key = (e[3], e[1], e[2], d)
                if key in done:
                    continue
                done.add(key)
                b = bounds(st, e[1])
                if b is None:
                    continue
                s = e[5]
                v = within(s, b[0], e[2], sub(b[1], num(1)))
                if v is None and not st.unk:
                    t = first_time(s, r.loops)
                    if t is not None and feasible(t, b, t.norm(e[2])):
                        v = 0
                    for t in second_time(s, r.loops):
                        if v is None and feasible(t, b, t.norm(e[2])):
                            v = 0
                c.decide(True if v == 1 else (False if not s.unk else None) if v == 0 or not opaque(e[2]) and feasible(s, b, e[2]) else None, RULEB,
                         'line %s is inside the range' % show(e[2])[:40] if v == 1 else 'line %s of text %s is read although the range may end before' % (show(e[2])[:60], which(e[1])),
                         c.where(f, e[3]), facts(s))
                c.count('reads of identifiers', 1)


def first_time(s, loops):
    """the path restricted to the first iteration of the loops it is in (their variables have the values of the entry)"""
    t = s.fork()
    for L in loops:
        for loc, phi in L.phi.items():
            v = L.entry.mem.get(loc)
            if v is None or v[0] not in ('n', 't'):
                continue
            if not t.assume(mk_eq0(sub(lin(phi), L.entry.norm(v)))):
                return None
    return t


def second_time(s, loops):
    """the path restricted to the second iteration of its loops"""
    out = []
    for L in loops:
        ent = entry_map(L)
        for it in L.iters:
            t = s.fork()
            good = True
            for loc, phi in L.phi.items():
                v, n = L.entry.mem.get(loc), it[2].mem.get(loc)
                if v is None or n is None or v[0] not in ('n', 't') or n[0] not in ('n', 't'):
                    continue
                first = subst(it[2].norm(n), ent)
                good = good and t.assume(mk_eq0(sub(lin(phi), L.entry.norm(first))))
            for x in it[2].le:
                good = good and t.assume(mk_le(subst(x, ent)))
            for x in it[2].ne:
                if not contains(x, lambda y: y[:2] == ('t', 'cell')):
                    good = good and t.assume(mk_eq0(subst(x, ent)), 0)
            if good and not it[2].unk:
                out.append(t)
    return out


def feasible(s, b, x):
    """a concrete witness-free check: the facts of the path are consistent with the position being outside"""
    if any(contains(y, lambda t: t[:1] == ('t',) and t[1] in ('phi', 'hav')) for y in (x,)):
        return False
    a = s.fork()
    if a.assume(mk_le(sub(b[1], lin(x)))):
        return True
    a = s.fork()
    return bool(a.assume(mk_le(sub(add(lin(x), num(1)), b[0]))))


def phi_of(L, loc):
    return lin(L.phi[loc])


def passing(c, f, L):
    """a loop that passes over lines does so under equality, in step"""
    if any(e[0] in ('piece', 'push_back', 'push_front', 'midpoint') for it in L.iters for e in L.iter_events(it)):
        return
    w = c.where(f, L.line)
    for it in L.iters:
        st = it[2]
        moves = {}
        for loc, phi in L.phi.items():
            v = st.mem.get(loc)
            if v is None or v[0] not in ('n', 't'):
                continue
            d = st.norm(sub(lin(v), lin(phi)))
            if isnum(d) and d[1]:
                moves[loc] = d[1]
        if len(moves) < 2:
            # one of the two may be expressed by the other
            if moves:
                c.undecided(RULEE, 'only one position moves', w)
            continue
        eqs = equal_cells(it[2]) - equal_cells(it[1])
        if len(set(moves.values())) != 1 or abs(list(moves.values())[0]) != 1:
            c.decide(verdict(st, 0) if eqs or True else None, RULEE, 'the two positions do not move together: %s' % sorted(moves.values()), w, facts(st))
            continue
        k = list(moves.values())[0]
        good = None
        for i, j in eqs:
            vals = [st.norm(lin(L.phi[l])) for l in moves]
            off = 0 if k > 0 else -1
            a = [same(st, add(v, num(off)), i) == 1 for v in vals]
            b = [same(st, add(v, num(off)), j) == 1 for v in vals]
            if any(a) and any(b):
                good = True
        if good is None:
            # definite if nothing in the iteration compares lines at all, or it compares others
            c.decide(verdict(st, 0), RULEE, 'lines are passed over without being found equal' if not eqs else 'other lines are compared than those passed over', w, facts(st))
        else:
            c.held(RULEE, 'equal lines are passed over together', w)
        c.count('passing steps', 1)


def equal_cells(st):
    """pairs (index in the first text, index in the second) whose identifiers are equal by the facts"""
    out = set()

    def cell(t):
        return t[:2] == ('t', 'cell') and which(t[2]) is not None

    def pair(a, b):
        x = {which(a[2]): st.norm(a[3]), which(b[2]): st.norm(b[3])}
        if 0 in x and 1 in x:
            out.add((x[0], x[1]))
    for a, b in st.bind.items():
        b = b[2][0][0] if b[0] == 'n' and b[1] == 0 and len(b[2]) == 1 and b[2][0][1] == 1 else b
        if cell(a) and isinstance(b, tuple) and cell(b):
            pair(a, b)
    for a, v in st.facts.items():
        if v and a[0] == 'eq' and cell(a[1]) and cell(a[2]):
            pair(a[1], a[2])
    return out


def result(c, f, st, v, xb, xe, yb, ye):
    """the changes of the list, the pieces and what is passed over tile the range"""
    w = c.where(f)
    evs_ = list(st.events())
    pieces = [e for e in evs_ if e[0] == 'piece']
    mids = [e for e in evs_ if e[0] == 'midpoint']
    pushes = [e for e in evs_ if e[0] in ('push_back', 'push_front')]
    line = (pieces or pushes or mids or [(None,)])[-1][-1]
    w = c.where(f, line) if isinstance(line, int) else w
    for m in mids:
        a = m[1]
        if all(same(st, x, y) == 1 for x, y in zip(a, (xb, xe, yb, ye))):
            continue
        c.decide(None if opaque(*a) else verdict(st, 0), RULEC, 'the midpoint is looked for in %s' % ', '.join(show(x)[:30] for x in a), w, facts(st))
        return
    empty0, empty1 = st.decide(mk_eq0(sub(xe, xb))), st.decide(mk_eq0(sub(ye, yb)))
    if pieces:
        if len(pieces) != 2 or pushes:
            c.undecided(RULEC, '%d pieces' % len(pieces), w)
            return
        A, B = pieces
        # which is the first?
        def at_start(e):
            return same(st, e[1][0], xb) == 1 and same(st, e[1][2], yb) == 1

        def at_end(e):
            return same(st, e[1][1], xe) == 1 and same(st, e[1][3], ye) == 1
        if at_start(A) and at_end(B):
            a, b = A, B
        elif at_start(B) and at_end(A):
            a, b = B, A
        else:
            bad = [x for e in pieces for x in e[1]]
            c.decide(None if opaque(*bad) else verdict(st, 0), RULEC, 'the pieces do not begin and end with the range: %s' % '; '.join(', '.join(show(x)[:30] for x in e[1]) for e in pieces), w, facts(st))
            return
        for e in (a, b):
            for lo, hi, l, h in ((e[1][0], e[1][1], xb, xe), (e[1][2], e[1][3], yb, ye)):
                d1, d2 = within(st, l, lo, h), within(st, l, hi, h)
                d = 1 if d1 == 1 and d2 == 1 else 0 if 0 in (d1, d2) else None
                c.decide(verdict(st, d) if d != 0 else verdict(st, 0), RULEB, 'the pieces are inside the range', c.where(f, e[3]), facts(st)) if d is not None else \
                    c.undecided(RULEB, 'the piece %s..%s' % (show(lo)[:40], show(hi)[:40]), c.where(f, e[3]))
        gx, gy = st.norm(sub(b[1][0], a[1][1])), st.norm(sub(b[1][2], a[1][3]))
        d = same(st, gx, gy)
        # what lies between the pieces is what the passing loops moved over
        if d == 1 and (st.prove_le(sub(num(0), gx))):
            c.held(RULEC, 'between the pieces equally many lines are passed over', w)
            # the gap starts at the midpoint: only the loop may have moved
            if not any(e[0] == 'loop' for e in evs_) and same(st, gx, num(0)) != 1:
                c.decide(None if opaque(gx) else verdict(st, 0), RULEC, '%s lines between the pieces are not in any' % show(gx), w, facts(st))
        else:
            c.decide(verdict(st, 0) if (isnum(gx) and isnum(gy)) or (d == 0) else None, RULEC, 'between the pieces %s and %s lines are passed over' % (show(gx)[:60], show(gy)[:60]), w, facts(st))
        joined_(c, f, st, v, a, b, w)
        return
    if len(pushes) != 1:
        if not pushes:
            if empty0 == 1 and empty1 == 1:
                return
            c.decide(verdict(st, 0) if not mids else None, RULEC, 'no change is made for a range that has lines', w, facts(st))
        else:
            c.undecided(RULEC, '%d changes are made' % len(pushes), w)
        return
    ed = record(st, pushes[0])
    if ed is None:
        c.undecided(RULEC, 'the change made is %s' % str(pushes[0][2])[:80], w)
        return
    l0, l1, ins, dele = (ed[n] for n in ('line0', 'line1', 'inserted', 'deleted'))
    for nm, lo, n, l, h in (('first', l0, dele, xb, xe), ('second', l1, ins, yb, ye)):
        d1, d2 = within(st, l, lo, h), within(st, l, add(lo, n), h)
        d3 = 1 if st.prove_le(sub(num(0), n)) else 0
        d = 1 if (d1, d2, d3) == (1, 1, 1) else 0 if 0 in (d1, d2) or (d3 == 0 and not opaque(n)) else None
        c.decide(True if d == 1 else verdict(st, 0) if not opaque(lo, n) else None, RULEB, 'the change is inside the range of the %s text' % nm if d == 1 else
                 'the change %s, %s lines may be outside the range of the %s text' % (show(lo)[:60], show(n)[:60], nm), w, facts(st))
    if empty0 == 1 or empty1 == 1:
        ok = [same(st, x, y) for x, y in ((l0, xb), (l1, yb), (ins, sub(ye, yb)), (dele, sub(xe, xb)))]
        c.decide(True if ok == [1] * 4 else None if opaque(l0, l1, ins, dele) else verdict(st, 0), RULEC,
                 'a range without lines in one text is one change' if ok == [1] * 4 else
                 'a range without lines in one text gives the change %s, %s: %s inserted, %s deleted' % tuple(show(x)[:50] for x in (l0, l1, ins, dele)), w, facts(st))
        return
    # a single step: one line inserted or deleted, at one of the ends, the others are equal (midpoint)
    diff = sub(sub(ye, yb), sub(xe, xb))
    if st.prove_le(sub(num(1), diff)):
        want = (0, 1)
    elif st.prove_le(diff):
        want = (1, 0)
    else:
        c.undecided(RULEC, 'one step', w)
        return
    ok = same(st, dele, num(want[0])) == 1 and same(st, ins, num(want[1])) == 1
    c.decide(True if ok else None if opaque(ins, dele) else verdict(st, 0), RULEC, 'one step is one line inserted or deleted' if ok else
             'one step with %s text being longer inserts %s and deletes %s lines' % ('the second' if want[1] else 'the first', show(ins)[:40], show(dele)[:40]), w, facts(st))
    front = [same(st, x, y) for x, y in ((l0, xb), (l1, yb))]
    back = [same(st, add(l0, dele), xe), same(st, add(l1, ins), ye)]
    eq = equal_cells(st)
    first = any(same(st, i, xb) == 1 and same(st, j, yb) == 1 for i, j in eq)
    if front == [1, 1]:
        c.decide(True if not first else verdict(st, 0), RULEC, 'the change is in front of the equal lines', w, facts(st))
    elif back[0] == 1 and back[1] == 1:
        c.held(RULEC, 'the change is behind the equal lines', w)
    else:
        # the change at the end: the position in the other text is not printed
        a, b = (l0, xe) if want[0] else (l1, ye)
        n = dele if want[0] else ins
        d = same(st, add(a, n), b)
        c.decide(True if d == 1 and first else None if opaque(a) or st.unk else False, RULEC, 'the change is at one end of the range' if d == 1 else 'the change %s is neither in front of nor behind the equal lines' % show(a)[:60], w, facts(st))


def inorder(v):
    """the sub-terms of a list value from its beginning to its end"""
    if isinstance(v, tuple):
        yield v
        for x in v:
            if isinstance(x, tuple):
                yield from inorder(x)


def record(st, push):
    v = push[2]
    out = {}
    if isinstance(v, tuple) and v[:1] == ('obj',):
        for k, x in v[2]:
            if isinstance(k, tuple) and k[:1] == ('f',):
                out[k[2].split('::')[-1]] = st.norm(x)
    return out if set(out) >= {'line0', 'line1', 'inserted', 'deleted'} else None


def joined_(c, f, st, v, a, b, w):
    """the result is the first piece followed by the second; two adjacent changes may become one"""
    val = st.mem.get(v[1]) if v[0] == 'o' else v
    if val is None or val[:1] != ('L',):
        c.undecided(RULEC, 'the result is %s' % str(val)[:60], w)
        return
    k1, k2 = T('made', a[2]), T('made', b[2])
    order = [1 if t == k1 else 2 for t in inorder(val) if t in (k1, k2)]
    sp = [e for e in st.events() if e[0] in ('pop_front', 'pop_back', 'push_back', 'push_front')]
    if order != [1, 2]:
        c.decide(verdict(st, 0) if order in ([2, 1], [1], [2]) and not opaque(val) else None, RULEC,
                 'the pieces are joined in the order %s' % order, w, facts(st))
        return
    pops = [e for e in sp if e[0] in ('pop_front', 'pop_back')]
    stores = [e for e in st.events() if e[0] == 'store' and e[1][:1] == ('f',) and str(e[1][2]).startswith(ED)]
    if not pops and not stores:
        c.held(RULEC, 'the pieces are joined in order', w)
        return
    bk, fr = ('d', T('back', k1)), ('d', T('front', k2))
    g = lambda o, n: lin(T('init', ('f', o, ED + n)))
    if len(pops) != 1 or pops[0][0] != 'pop_front' or not contains(pops[0], lambda t: True):
        c.decide(verdict(st, 0) if stores and not pops or pops and not stores else None, RULEC, 'a change is %s' % ('printed twice' if not pops else 'dropped'), w, facts(st))
        return
    want = {'inserted': add(g(bk, 'inserted'), g(fr, 'inserted')), 'deleted': add(g(bk, 'deleted'), g(fr, 'deleted'))}
    got = {}
    for e in stores:
        if e[1][1] != bk:
            c.undecided(RULEC, 'another change is written', w)
            return
        got[e[1][2].split('::')[-1]] = e[2]
    for n in ('inserted', 'deleted'):
        d = same(st, got[n], want[n]) if n in got else 0
        c.decide(verdict(st, d, *( [got[n]] if n in got else [])), RULEC, 'joined changes have the %s lines of both' % n, w, facts(st))
    adj = [same(st, add(g(bk, 'line0'), g(bk, 'deleted')), g(fr, 'line0')), same(st, add(g(bk, 'line1'), g(bk, 'inserted')), g(fr, 'line1'))]
    # an adjacency that the path does not establish is one it forgot to ask for
    ok = adj == [1, 1]
    c.decide(True if ok else verdict(st, 0), RULEC, 'only adjacent changes are joined', w, facts(st))


# ---------------------------------------------------------------- the whole
FUM = 'testutil::(anonymous namespace)::fumoffu::'


def whole(c, fs):
    f = fs['Diff']
    NL = [T('nlines', 0), T('nlines', 1)]

    def build(E, st, fr, cc):
        d = deref(cc.args[0])
        src = tuple(E.load(st, ('e', ('f', d, FUM + 'str'), num(j))) for j in (0, 1))
        st.emit('build', src, cc.line)
        for j in (0, 1):
            st.iv[NL[j]] = (1, BIG)
            st.mem[('e', ('f', d, FUM + 'nlines'), num(j))] = lin(NL[j])
            for x in ('lines', 'vec'):
                v = T(x, j)
                st.facts[('null', v)] = False
                st.mem[('e', ('f', d, FUM + x), num(j))] = v
        return [(st, ('void',))]

    def gen(E, st, fr, cc):
        k = st.fresh()
        st.emit('piece', tuple(st.norm(a) for a in cc.args[:4]), k, cc.line)
        for n, a in enumerate(cc.e.get('a', [])[:4]):
            a = strip(a)
            if a.get('k') == 'var':
                bounds[n] = (a.get('n'), a.get('id'))
        st.mem[cc.dest] = ('L', (), T('made', k), ())
        return [(st, ('o', cc.dest))]
    bounds = {}

    def pr(E, st, fr, cc):
        o = deref(cc.args[0])
        os = [deref(a) for a in cc.args if a[0] in ('l', 'o', 'p')]
        st.emit('print', E.load(st, o), {l[-1]: v for l, v in st.mem.items() if l[0] == 'v' and v[0] in ('n', 't')}, cc.line)
        return [(st, ('void',))]
    hooks = {}
    for n, h in (('BuildLines', build), ('GenerateEditList', gen), ('PrintEditList', pr)):
        hooks[fs[n]['key']] = hooks[fs[n]['qual']] = h
    r = c.analyse(f, hooks=hooks, merge=False, flags=('cells',))
    w = c.where(f)
    for L in r.loops:
        passing(c, f, L)
        exits(c, f, L, NL)
    cells(c, f, r, lambda st, base: None if which(base) is None else (num(0), lin(NL[which(base)])))
    for st, v in r.rets:
        pieces, prints = evs(st, 'piece'), evs(st, 'print')
        builds = evs(st, 'build')
        for b in builds:
            ok = all(str(deref(b[1][j])) == str(('d', T('par', j))) for j in (0, 1))
            sw = all(str(deref(b[1][j])) == str(('d', T('par', 1 - j))) for j in (0, 1))
            c.decide(True if ok else verdict(st, 0) if sw else None, RULET, 'the first text is the first one given', c.where(f, b[2]), facts(st))
        if len(prints) != 1:
            c.decide(verdict(st, 0), RULEL, 'the list is printed %d times' % len(prints), w, facts(st))
            continue
        val = prints[0][1]
        if len(pieces) > 1:
            c.undecided(RULEC, 'more than one list', w)
            continue
        if not pieces:
            vals = [prints[0][2].get(bounds[n][0]) if n in bounds else None for n in range(4)]
            if None in vals:
                c.undecided(RULEE, 'what is left is not in variables', w)
            else:
                g = [lin(sub(lin(vals[1]), lin(vals[0]))), lin(sub(lin(vals[3]), lin(vals[2])))]
                d = [same(st, x, num(0)) for x in g]
                some = None
                if d != [1, 1] and not opaque(*g):
                    for x in g:
                        t = st.fork()
                        if not st.unk and t.assume(mk_le(sub(num(1), x))):
                            some = t
                c.decide(True if d == [1, 1] else False if some else None, RULEC, 'no list is made only if all lines are passed over' if d == [1, 1] else
                         'no list is made although %s and %s lines may be left' % (show(st.norm(g[0]))[:60], show(st.norm(g[1]))[:60]), w, facts(some or st))
            ok = val[:1] == ('L',) and not val[1] and val[2] is None and not val[3]
            c.decide(verdict(st, ok and 1 or 0), RULEE, 'without a remaining range the list is empty', w, facts(st))
            continue
        a = pieces[0][1]
        for lo, hi, n in ((a[0], a[1], NL[0]), (a[2], a[3], NL[1])):
            d = [within(st, num(0), lo, hi), within(st, lo, hi, lin(n))]
            c.decide(True if d == [1, 1] else verdict(st, 0) if 0 in d else None, RULEB, 'the remaining range %s..%s' % (show(lo)[:40], show(hi)[:40]), c.where(f, pieces[0][3]), facts(st))
        # something is left
        both = add(sub(a[1], a[0]), sub(a[3], a[2]))
        c.decide(True if st.prove_le(sub(num(1), both)) else verdict(st, 0) if st.prove_le(both) else anyway(st, a), RULEE, 'the list is made only if lines are left', c.where(f, pieces[0][3]), facts(st))
        ok = val[:1] == ('L',) and val[2] == T('made', pieces[0][2]) and not val[1] and not val[3]
        c.decide(verdict(st, 1 if ok else 0, val), RULEC, 'the list made is the one printed', w, facts(st))
        c.count('ways through the difference', 1)


def anyway(st, a):
    """may the range be empty on this path?"""
    if opaque(*a):
        return None
    s = st.fork()
    if s.assume(mk_eq0(sub(a[1], a[0]))) and s.assume(mk_eq0(sub(a[3], a[2]))) and not st.unk:
        # a path without a question whether lines are left: it is reached by equal texts
        return False
    return None


def exits(c, f, L, NL):
    """the loops stop at an end or at different lines: equal texts are passed over completely"""
    for x in L.exits:
        st = x[2] if hasattr(x[2], 'mem') else x[1]
        if x[3] != 'n' or st is None:
            continue
        w = c.where(f, L.line)
        new = [t for t in st.ne if any(y[:2] == ('t', 'cell') for y in walkterm(t))]
        differ = bool(new) or any(a[0] == 'eq' and not v and any(y[:2] == ('t', 'cell') for y in walkterm(a)) for a, v in st.facts.items())
        vals = [st.norm(st.mem.get(loc, lin(p))) for loc, p in L.phi.items() if (st.mem.get(loc) or p)[0] in ('n', 't')]
        ends = False
        ent = [L.entry.norm(L.entry.mem[loc]) for loc in L.entry.mem if loc[0] == 'v' and L.entry.mem[loc][0] in ('n', 't')]
        for v in vals:
            for e in ent + [lin(n) for n in NL]:
                if same(st, v, e) == 1:
                    ends = True
        c.decide(True if differ or ends else None, RULEE, 'the passing loop stops at the end or at different lines', w, facts(st))


# ---------------------------------------------------------------- tables
LINE = 'testutil::(anonymous namespace)::line::'


def tables(c, fs):
    f = fs['BuildLines']

    def setup(E, st, this, vals):
        for j in (0, 1):
            p = T('text', j)
            st.facts[('null', p)] = False
            st.mem[('e', ('f', ('d', vals[0]) if vals[0][0] == 't' else deref(vals[0]), FUM + 'str'), num(j))] = p
    stop = {}

    def end(E, st, fr, cc):
        st.emit('hashing', cc.line)
        E.throw(st, 'stop', None, fr, cc.line)
        return []
    stop['std::multimap::insert'] = end
    stop['std::multimap::multimap'] = lambda E, st, fr, cc: [(st, ('o', cc.obj) if cc.obj else ('void',))]
    hs = [g for g in c.p.functions.values() if g['name'] == 'hashString']
    for g in hs:
        stop[g['key']] = stop[g['qual']] = end
    r = c.analyse(f, hooks=stop, merge=False, setup=setup)
    w = c.where(f)
    if not r.loops:
        c.undecided(RULET, 'the tables are not built by loops', w)
        return
    for j in (0, 1):
        count = fill = None
        for L in r.loops:
            if not L.iters or not about(L, j):
                continue
            nl = [loc for loc in L.phi if loc[:1] == ('e',) and loc[1][:1] == ('f',) and str(loc[1][2]).endswith('::nlines') and loc[2] == num(j)]
            stores = [e for it in L.iters for e in L.iter_events(it) if e[0] == 'store' and e[1][:1] == ('f',) and str(e[1][2]).startswith(LINE)]
            if nl and not stores:
                count = (L, nl[0]) if count is None else 'twice'
            elif stores:
                fill = L if fill is None else 'twice'
        if not count or not fill or 'twice' in (count, fill):
            c.undecided(RULET, 'counting and filling are not one loop each for text %d' % j, w)
            continue
        one_text(c, f, r, j, count, fill)


def about(L, j):
    return any(contains(e, lambda t: t == T('text', j)) for it in L.iters for e in L.iter_events(it))


def newline(st, head, j):
    """what the iteration found about the current character: (position, 1 newline / 0 other / None)"""
    for a, b in st.bind.items():
        if a[:2] == ('t', 'chr') or 'ch' in str(a[:2]):
            pass
    out = []
    tests = [(x, 1) for x in st.facts if x not in head.facts and st.facts[x]] + [(x, 0) for x in st.facts if x not in head.facts and not st.facts[x]] + \
        [(x, 0) for x in st.ne if x not in head.ne] + [((a, b), 1) for a, b in st.bind.items() if a not in head.bind]
    for t, v in tests:
        if any(isinstance(y, tuple) and y[:1] == ('t',) and y[1] in ('chr', 'char', 'at', 'ch') for y in walkterm(t)):
            out.append((t, v))
    return out


def one_text(c, f, r, j, count, fill):
    CL, nl = count
    FL = fill
    w = c.where(f, CL.line)
    # the counter: one at the beginning, one more with every line break
    e0 = CL.entry.norm(CL.entry.mem.get(nl, num(0)))
    counts = steps(c, CL, nl, j)
    wf = c.where(f, FL.line)
    idx = cur = None
    kinds = {}
    for it in FL.iters:
        st = it[2]
        s = [e for e in FL.iter_events(it) if e[0] == 'store' and e[1][:1] == ('f',) and str(e[1][2]).startswith(LINE)]
        if s:
            for e in s:
                nm = e[1][2][len(LINE):]
                if e[1][1][:1] == ('e',):
                    kinds.setdefault(nm, []).append((st, e[1][1][2], e[2], it))
    poss = {k[1] for v in kinds.values() for k in v}
    if set(kinds) != {'lindex', 'length'} or len(poss) != 1:
        c.undecided(RULET, 'the entries are written in another way', wf)
        return
    pos = poss.pop()
    loc = [l for l, p in FL.phi.items() if lin(p) == pos]
    if not loc:
        c.undecided(RULET, 'the position in the table is %s' % show(pos)[:60], wf)
        return
    loc = loc[0]
    p0 = FL.entry.norm(FL.entry.mem.get(loc, num(0)))
    fills = steps(c, FL, loc, j)
    if counts is None or fills is None or counts[0] is None or fills[0] is None:
        c.undecided(RULET, 'how lines are counted for text %d' % j, w)
        return
    # both run over the whole text by one
    if isnum(e0) and isnum(p0):
        d = e0[1] - p0[1]
        c.decide(d >= 1, RULEB, 'text %d has room for one line more than line breaks' % j if d >= 1 else 'text %d: room for %d lines in front of the first line break, and a line is added behind the last' % (j, d), w)
        c.decide(d == 1, RULET, 'text %d has one line more than line breaks' % j if d == 1 else 'text %d: %d lines more than line breaks' % (j, d), w)
    else:
        c.undecided(RULET, 'the counters start at %s and %s' % (show(e0), show(p0)), w)
        return
    for s in (counts, fills):
        for (nlb, k, st) in s[1]:
            want = 1 if nlb else 0
            c.decide(k == want, RULET, 'lines are counted by line breaks', w if s is counts else wf, facts(st))
    c.decide(counts[0] == fills[0] == num(10), RULET, 'lines end with the line break', w)
    # starts and lengths
    start = [l for l, p in FL.phi.items() if lin(p) == kinds['lindex'][0][2]]
    cpos = fills[2]
    if not start or cpos is None:
        v = kinds['lindex'][0]
        c.decide(None, RULET, 'a line starts at %s' % show(v[2])[:60], wf, facts(v[0]))
        return
    start = start[0]
    sphi = lin(FL.phi[start])
    ok = isnum(FL.entry.norm(FL.entry.mem.get(start, num(0)))) and FL.entry.norm(FL.entry.mem.get(start, num(0))) == num(0)
    c.decide(ok, RULET, 'the first line starts at the beginning', wf)
    for st, _, v, it in kinds['length']:
        d = same(st, v, sub(cpos, sphi))
        c.decide(True if d == 1 else verdict(st, 0), RULET, 'a line ends in front of its line break' if d == 1 else 'the length of a line is %s' % show(v)[:60], wf, facts(st))
        n = st.mem.get(start)
        d = same(st, n, add(cpos, num(1))) if n is not None else None
        c.decide(True if d == 1 else (verdict(st, 0) if n is not None else None), RULET, 'the next line starts behind the line break' if d == 1 else 'the next line starts at %s' % show(n)[:60], wf, facts(st))
    # the last line
    last = set()
    for st in [x[0] for x in r.throws] + [x[0] for x in r.rets]:
        inside = False
        got = {}
        for e in st.events():
            if e[0] == 'loop' and e[1] is FL:
                inside, got = True, {}
            elif e[0] == 'loopexit' and e[1] is FL:
                inside = False
                got = {'exit': 1}
            elif e[0] == 'loop' and got.get('exit'):
                break
            elif e[0] == 'store' and got.get('exit') and e[1][:1] == ('f',) and str(e[1][2]).startswith(LINE) and e[1][1][:1] == ('e',):
                got.setdefault(e[1][2][len(LINE):], (e[1][1][2], e[2], e[3]))
        if not got.get('exit'):
            continue
        if 'lindex' not in got or 'length' not in got:
            c.decide(verdict(st, 0), RULET, 'the line behind the last line break has no entry', wf, facts(st))
            continue
        key = (got['lindex'], got['length'])
        if key in last:
            continue
        last.add(key)
        w3 = c.where(f, got['lindex'][2])
        ln = [t for t in walkterm(got['length'][1]) if t[:2] == ('t', 'len')]
        okp = same(st, got['lindex'][0], pos) == 1 and same(st, got['length'][0], pos) == 1
        c.decide(True if okp else verdict(st, 0), RULET, 'the last line gets the next entry', w3, facts(st))
        oks = same(st, got['lindex'][1], sphi) == 1
        c.decide(True if oks else verdict(st, 0), RULET, 'the last line starts behind the last line break', w3, facts(st))
        okl = len(set(ln)) >= 1 and same(st, got['length'][1], sub(lin(ln[0]), sphi)) == 1 if ln else same(st, got['length'][1], sub(cpos, sphi)) == 1
        c.decide(True if okl else verdict(st, 0), RULET, 'the last line ends with the text' if okl else 'the length of the last line is %s' % show(got['length'][1])[:60], w3, facts(st))
    c.count('line tables', 1)


def steps(c, L, loc, j):
    """(character lines end with, [(found?, step of the counter, state)], position) of a loop over text j"""
    out, chars, pos = [], set(), None
    for it in L.iters:
        head, st = it[1], it[2]
        si = [e for e in L.iter_events(it) if e[0] == 'sindex']
        ps = {e[3] if len(e) > 3 else None for e in si}
        v = st.mem.get(loc, lin(L.phi[loc]))
        d = st.norm(sub(lin(v), lin(L.phi[loc])))
        t = char_tests(st, head)
        if len(t) != 1 or not isnum(d):
            return None
        p, ch, found = t[0]
        chars.add(ch)
        # the position runs over the text by one
        pl = [l for l, q in L.phi.items() if lin(q) == p]
        if not pl:
            return None
        n = st.mem.get(pl[0])
        if n is None or same(st, n, add(p, num(1))) != 1 or L.entry.norm(L.entry.mem.get(pl[0], T('?'))) != num(0):
            return None
        pos = p
        out.append((found, d[1], st))
    return (chars.pop() if len(chars) == 1 else None, out, pos)


def char_tests(st, head):
    """[(position, character, equal?)] the iteration established about a character of a text"""
    res = []

    def at(t):
        return isinstance(t, tuple) and t[:2] == ('t', 'at') and len(t) >= 4
    for a, b in st.bind.items():
        if a not in head.bind and at(a) and isnum(b):
            res.append((lin(a[3]), b, 1))
    for x in st.ne:
        if x not in head.ne and x[0] == 'n' and len(x[2]) == 1 and at(x[2][0][0]):
            co = x[2][0][1]
            res.append((lin(x[2][0][0][3]), num(-x[1] * co), 0))
    return res


# ---------------------------------------------------------------- iterators of the hash table
def iterators(c, fs):
    f = fs['BuildLines']
    seen = {}

    def ver(st, o):
        return st.mem.get(('ver', o), num(0))

    def bump(st, o):
        st.mem[('ver', o)] = T('ver', st.fresh())

    def ret(st, cc, v):
        if cc.dest is not None:
            st.mem[cc.dest] = v
            return [(st, ('o', cc.dest))]
        return [(st, v)]

    def begin(E, st, fr, cc):
        return ret(st, cc, T('mbegin', cc.obj, ver(st, cc.obj)))

    def endh(E, st, fr, cc):
        return ret(st, cc, T('mend', cc.obj))

    def empty(E, st, fr, cc):
        return [(st, mk_eq(T('mbegin', cc.obj, ver(st, cc.obj)), T('mend', cc.obj)))]

    def erase(E, st, fr, cc):
        a = cc.args[0]
        v = E.load(st, a[1]) if a[0] in ('l', 'o') else a
        use(E, st, fr, cc, v, 'erased')
        st.emit('merase', v, cc.line)
        st.facts[('gone', v)] = True
        bump(st, cc.obj)
        return [(st, T('erased', st.fresh()))]

    def insert(E, st, fr, cc):
        bump(st, cc.obj)
        return [(st, T('inserted', st.fresh()))]

    def use(E, st, fr, cc, v, how):
        if not (isinstance(v, tuple) and v[:1] == ('t',)):
            return
        key = (fr.fn['key'], cc.line, how)
        if st.facts.get(('gone', v)):
            seen.setdefault(key, []).append((False, 'an iterator is %s after its element was erased' % how, facts(st)))
            return
        if v[1] == 'mend':
            seen.setdefault(key, []).append((False, 'the end is %s' % how, facts(st)))
            return
        ends = [a for a in st.facts if a[0] == 'eq' and v in a[1:] and any(isinstance(y, tuple) and y[:2] == ('t', 'mend') for y in a[1:])]
        known = [st.facts[a] for a in ends]
        if known and not any(known):
            seen.setdefault(key, []).append((True, 'an iterator that is not the end is %s' % how, ''))
        elif any(known):
            seen.setdefault(key, []).append((False, 'the end is %s' % how, facts(st)))
        else:
            seen.setdefault(key, []).append((None if st.unk else False if v[1] == 'mbegin' else 'late', 'an iterator that was not compared with the end is %s' % how, facts(st)))

    def deref_(E, st, fr, cc):
        v = E.load(st, cc.obj)
        use(E, st, fr, cc, v, 'read')
        loc = ('d', T('mval', v))
        if cc.name.endswith('->'):
            return [(st, ('p', loc))]
        return [(st, ('l', loc))]

    def inc(E, st, fr, cc):
        v = E.load(st, cc.obj)
        use(E, st, fr, cc, v, 'advanced')
        E.store(st, cc.obj, T('mnext', v, st.fresh()))
        if cc.args or cc.dest is not None and not cc.e.get('lv'):
            return ret(st, cc, v)
        return [(st, ('l', cc.obj))]

    def size(E, st, fr, cc):
        b = mk_eq(T('mbegin', cc.obj, ver(st, cc.obj)), T('mend', cc.obj))
        res = []
        s2 = st.fork()
        if s2.assume(b):
            res.append((s2, num(0)))
        if st.assume(b, 0):
            n = T('msize', st.fresh())
            st.iv[n] = (1, BIG)
            res.append((st, lin(n)))
        return res

    hooks = {'std::multimap::size': size, 'std::multimap::multimap': lambda E, st, fr, cc: [(st, ('o', cc.obj) if cc.obj else ('void',))], 'std::multimap::begin': begin, 'std::multimap::end': endh, 'std::multimap::empty': empty, 'std::multimap::erase': erase, 'std::multimap::insert': insert}
    for k in ('_Rb_tree_iterator', '_Rb_tree_const_iterator'):
        hooks['std::%s::operator*' % k] = hooks['std::%s::operator->' % k] = deref_
        hooks['std::%s::operator++' % k] = inc
    r = c.analyse(f, hooks=hooks)
    identifiers(c, f, r)
    n = 0
    for (fn, line, how), rs in sorted(seen.items()):
        fd = c.p.functions[fn]
        w = c.where(fd, line)
        bad = [x for x in rs if x[0] is False]
        late = [x for x in rs if x[0] == 'late']
        n += len(rs)
        if bad:
            c.violated(RULEB, bad[0][1], w, bad[0][2])
        elif late:
            # definite where the function does compare it with the end, only later
            c.decide(False if compared_later(fd, line) else None, RULEB, late[0][1], w, late[0][2])
        elif any(x[0] is None for x in rs):
            c.undecided(RULEB, rs[0][1], w)
        else:
            c.held(RULEB, rs[0][1], w)
    c.count('uses of iterators', n)


def identifiers(c, f, r):
    """a line gets the current identifier only if it was found equal; the next group gets another identifier"""
    done = set()
    for L in r.loops:
        for it in L.iters:
            st = it[2]
            for e in L.iter_events(it):
                if e[0] != 'store' or e[1][:1] != ('e',) or not contains(e[1][2], lambda t: t[:2] == ('t', 'mval')):
                    continue
                if any(x[0] == 'loop' for x in L.iter_events(it)):
                    continue
                eqs = [v for a, v in st.facts.items() if a[0] == 'eq' and all(x[:2] == ('t', 'substr') for x in a[1:3])]
                c.decide(True if any(eqs) else False if not st.unk else None, RULET, 'a line gets the identifier of an equal one' if any(eqs) else 'a line gets the identifier of another without being equal to it', c.where(f, e[3]), facts(st))
                c.count('identifiers given', 1)
                v = e[2]
                own = [(K, loc) for K in r.loops for loc, p in K.phi.items() if lin(p) == lin(v)]
                for K, loc in own:
                    if (id(K), loc) in done:
                        continue
                    done.add((id(K), loc))
                    if K is L or all(j[2].mem.get(loc) is None or same(j[2], lin(j[2].mem[loc]), lin(K.phi[loc])) == 1 for j in K.iters):
                        continue
                    for j in K.iters:
                        n = j[2].mem.get(loc)
                        d = j[2].norm(sub(lin(n), lin(K.phi[loc])))
                        if isnum(d):
                            c.decide(d[1] != 0, RULET, 'the next group gets another identifier', c.where(f, K.line), facts(j[2]))
                        else:
                            c.decide(None, RULET, 'the identifiers are %s apart' % show(d)[:60], c.where(f, K.line), facts(j[2]))


def compared_later(f, line):
    """is there a condition on this line in which the comparison with the end comes after the use?"""
    for n in walk(f['body']):
        if n['k'] == 'call' and (n.get('n') or '').endswith('::end') and 'map' in (n.get('n') or '') and abs((n.get('l') or 0) - line) <= 1:
            return True
    return False
