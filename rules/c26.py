"""C26 The pipe tool records all output and reports the child's status."""
from .common import *
from . import process
from sa import export

UNITS = export.CORE + ['PipeToXML']
EXPLAIN = """
Path-partitioned abstract interpretation of the tool's test body against the documented contract of the process interface: what
is handed to the child is the array whose cells the copying loop filled (cell by cell the arguments after the first, in order,
the cell behind the last one null when the command is set); every piece of data that was received is appended, with its length,
to the text before the next piece is asked for, and the text recorded, once, is all of it; the child is waited for before its
state is asked; on every way out the result is the child's exit value if its state is exited, and otherwise not zero."""
ASSUME = ['the process interface of the system library as documented; its states are numbered as in its header',
          'the order in which standard output and error of the child arrive is the library\'s']


def check(ck):
    fs = [f for f in ck.p.functions.values() if f.get('class') and ck.p.is_a(f['class'], RT) and f['class'] != RT and f['name'] == 'Test' and 'body' in f and f['file'].endswith('tfPipeToXML.cxx')]
    if len(fs) != 1:
        raise BrokenAnalysis('the test body of the pipe tool was not found')
    ck.run([('pipe tool', lambda c: tool(c, fs[0]))], timeout=400)


def tool(c, f):
    h = process.hooks()

    def record(E, st, fr, cc):
        args = []
        for a in cc.args:
            v = a
            if a[0] in ('l', 'o'):
                v = E.load(st, a[1])
            args.append(v)
        st.emit('recorded', cc.name.split('::')[-1], args[0] if args else None, cc.line)
        s2 = st.fork()
        s2.emit('stepthrow', cc.name, cc.line)
        E.throw(s2, 'any', None, fr, cc.line)
        t = T('some', 'record', st.fresh())
        st.iv[t] = (-2**31, 2**31 - 1)
        return [(st, lin(t))]
    for m in c.p.classes[RT].get('methods', []):
        if m['n'].startswith('Measurement') or m['n'] == 'operator()':
            h['%s::%s' % (RT, m['n'])] = record

    def setup(E, st, this, vals):
        argc = T('par', 0)
        st.iv[argc] = (1, 2**31 - 2)
        st.facts[('null', T('par', 1))] = False
    r = c.analyse(f, hooks=h, setup=setup)
    w = c.where(f)
    for st, v in r.rets:
        path(c, r, f, st, v)
    for L in r.loops:
        loop(c, f, L)
    # nothing that was started is left behind when a step throws either: C13
    c.count('ways out', len(r.rets))


def pieces(v, base=None):
    return [p for p in catparts(v)]


from sa.models import catparts  # noqa: E402


def loop(c, f, L):
    """every piece of data is appended to the text that is carried around the loop"""
    RULE = 'every piece of output is kept'
    carriers = carried(L)
    late = shifted(L)
    if not any(e[0] in ('data', 'nodata', 'timeout') for it in L.iters for e in L.iter_events(it)):
        return
    for it in L.iters:
        es = L.iter_events(it)
        data = [e for e in es if e[0] == 'data']
        st = it[2]
        rec = [e for e in es if e[0] == 'recorded']
        if rec:
            c.decide(verdict(st, 0), RULE, 'a measurement is recorded while the output is read', c.where(f, rec[0][3]), facts(st))
        w = c.where(f, data[0][4]) if data else c.where(f)
        ok = False
        for k, phi in carriers.items():
            v = st.mem.get(k)
            want = [phi] + [T('bytes', e[2], lin(e[3])) for e in data]
            alt = [phi] + [T('bytes', e[2], e[3]) for e in data]
            if v is not None and list(catparts(v)) in (want, alt):
                ok = True
        if not carriers and not data:
            ok = True
        c.decide(True if ok else None if late else verdict(st, 0), RULE, ('a piece of output is %s' if data else 'what is not output is %s') % ('appended with its length' if ok and data else 'left out' if ok else 'not appended as received'), w,
                 '; '.join('%s becomes %s' % (show(phi), show(st.mem.get(k))[:80]) for k, phi in list(carriers.items())[:2]) or 'no text is carried on')


def shifted(L):
    """does an iteration append what an earlier one read?"""
    phis = set(L.phi.values())
    for k, phi in carried(L).items():
        for it in L.iters:
            v = it[2].mem.get(k)
            if v is not None and any(p[:2] == ('t', 'bytes') and contains(p, lambda t: t in phis) for p in catparts(v)):
                if not any(e[0] == 'timeout' for e in L.iter_events(it)):
                    return True
    return False


def carried(L):
    """texts that an iteration extends or leaves"""
    out = {}
    for k, phi in L.phi.items():
        if k[0] in ('alive', 'dead', 'pver') or k == ('g', 'std::cout') or k == ('g', 'std::cerr'):
            continue
        for it in L.iters:
            v = it[2].mem.get(k)
            if v is not None and v != phi and phi in catparts(v):
                out[k] = phi
    return out


def path(c, r, f, st, v):
    w = c.where(f)
    ev = list(evs(st, 'new', 'command', 'addcommand', 'process', 'data', 'nodata', 'timeout', 'waited', 'recorded', 'del', 'store', 'loopexit'))
    cmds = [e for e in ev if e[0] == 'command']
    base = cmds[0][1] if cmds else None
    # the command
    R1 = 'the remaining arguments are the command'
    if any(e[0] == 'addcommand' for e in ev):
        c.decide(None, R1, 'the command is set in another way', w)
    elif len(cmds) != 1:
        c.decide(verdict(st, 0), R1, '%d commands are set' % len(cmds), w, facts(st))
    else:
        ok, why = command(r, st, cmds[0], ev)
        c.decide(ok, R1, why, c.where(f, cmds[0][4]), facts(st))
        runs = [e for e in ev if e[0] == 'process' and e[1] == 'Execute']
        good = len(runs) == 1 and ev.index(runs[0]) > ev.index(cmds[0])
        c.decide(True if good else verdict(st, 0), R1, 'the command is executed once' if good else 'the command is executed %d times' % len(runs), w, facts(st))
    # the text
    R2 = 'all the output is one text measurement'
    rec = [e for e in ev if e[0] == 'recorded']
    if len(rec) != 1:
        c.decide(verdict(st, 0), R2, '%d measurements are recorded' % len(rec), w, facts(st))
    else:
        e = rec[0]
        text = e[2]
        if not e[1].startswith('MeasurementText') and e[1].startswith('Measurement') and len(e[1]) > 11:
            c.decide(verdict(st, 0), R2, 'recorded by %s' % e[1], c.where(f, e[3]))
        want, after = kept(st)
        parts = list(catparts(text)) if text is not None else []
        pos = ev.index(e)
        late = [x for x in ev[pos:] if x[0] == 'data']
        ok = True if parts == want and not late else verdict(st, 0, text) if want is not None else None
        if ok is None and not st.unk and want and len(want) == 1 and not contains(text, lambda t: t[:1] == ('unkexpr',) or t[:2] == ('t', 'hav') or (t[:2] == ('t', 'phi') and t != want[0])):
            ok = False    # made of what was received, but not it
        before = st.events()[st.events().index(e) - 1]
        cut = before[0] == 'ntbs' and want and want[0] in catparts(before[1])
        if ok and cut:
            ok = verdict(st, 0)
            text = T('cut at the first null character', text)
        c.decide(ok, R2, 'the recorded text is %s' % ('everything received' if ok else show(text)[:80]), c.where(f, e[3]), facts(st))
        # nothing more was to be read
        reads = [x for x in ev if x[0] in ('data', 'nodata', 'timeout')]
        last = reads[-1] if reads else None
        allev = st.events()
        later = allev[allev.index(last) + 1:] if last is not None else allev
        if any(x[0] == 'loop' and any(y[0] in ('data', 'nodata') for it in x[1].iters for y in x[1].iter_events(it)) for x in later):
            c.decide(None, R2, 'reading ends in another way', w)
            plain_end = False
        else:
            plain_end = True
        if plain_end:
          c.decide(True if last is not None and last[0] == 'nodata' else verdict(st, 0), R2,
                 'reading goes on until there is nothing more' if last is not None and last[0] == 'nodata' else 'reading ends before the end of the output', w, facts(st))
    # waiting
    R3 = 'the child is waited for and released'
    if base is not None:
        wt = [i for i, e in enumerate(ev) if e[0] == 'waited' and e[1] == base]
        dl = [i for i, e in enumerate(ev) if e[0] == 'del' and e[1] == base]
        c.decide(True if wt and len(dl) == 1 and wt[0] < dl[0] else verdict(st, 0), R3, 'the child is waited for and its handle released' if wt and len(dl) == 1 and wt[0] < dl[0] else 'the handle is released %d times, after %d waits' % (len(dl), len(wt)), w, facts(st))
    # the status
    R4 = 'the result is the exit value of a child that exited and not zero otherwise'
    if base is None:
        return
    pst = [t for t in st.iv if t[0] == 't' and t[1] == 'pstate' and t[2] == base]
    if not pst:
        c.decide(verdict(st, 0), R4, 'the state of the child is not asked for', w, facts(st))
        return
    last = T('pstate', base, st.mem.get(('pver', base), TRUE))
    cur = last if last in pst else pst[-1]
    is4 = mk_eq0(add(lin(cur), num(-process.EXITED)))
    for exited in (True, False):
        s = st.fork()
        if s.assume(is4 if exited else mk_not(is4)) is False:
            continue
        if exited:
            val = lin(T('exitvalue', base, cur[3]))
            ok = s.decide(mk_eq0(sub(lin(v), val)))
            good, bad = 'returns the exit value', 'does not return the exit value of a child that exited'
        else:
            d = s.decide(mk_eq0(lin(v)))
            ok = None if d is None else 1 - d
            good, bad = 'returns what is not zero', 'may return zero although the child did not exit normally'
        c.decide(True if ok == 1 else verdict(s, 0, v), R4, good if ok == 1 else bad, w, 'result %s where %s' % (show(v), facts(s)))


def kept(st):
    """what the text must consist of on this way out: the carried text of the loops and what was read since"""
    want, after = [], []
    for e in st.events():
        if e[0] == 'loopexit':
            L = e[1]
            cs = carried(L)
            if any(x[0] == 'data' for it in L.iters for x in L.iter_events(it)):
                if len(cs) != 1 or shifted(L):
                    return None, None
                (k, phi), = cs.items()
                init = L.entry.mem.get(k) if hasattr(L.entry, 'mem') else None
                if want and init != (want[0] if len(want) == 1 else None):
                    return None, None
                want = [phi]
        elif e[0] == 'data':
            want.append(T('bytes', e[2], lin(e[3])))
    return want, after


def command(r, st, e, ev):
    arr = e[2]
    argc = lin(T('par', 0))
    if arr[0] != 'p' or arr[1][0] != 'e':
        if arr[0] == 'p' and arr[1][0] == 'd':
            arr = ('p', ('e', arr[1], num(0)))
        elif arr == T('par', 1):
            return verdict(st, 0), 'the arguments themselves, with the program, are the command'
        else:
            return None, 'the command is %s' % show(arr)
    B_, k0 = arr[1][1], lin(arr[1][2])
    mem = e[3]
    if contains(('x', B_), lambda t: t == T('par', 1)):
        if mem.get(('e', B_, st.norm(argc))) == NULL and k0 == num(1):
            return True, 'the arguments themselves with a null behind'
        return verdict(st, 0), 'the arguments themselves are passed, with nothing behind the last one'
    end = st.norm(add(add(argc, k0), num(-1)))
    term = None
    for l, v in mem.items():
        if l[0] == 'e' and l[1] == B_ and v == NULL and st.decide(mk_eq0(sub(lin(l[2]), end))) == 1:
            term = l
    if term is None:
        known = [v for l, v in mem.items() if l[0] == 'e' and l[1] == B_ and st.decide(mk_eq0(sub(lin(l[2]), end))) != 0]
        return verdict(st, 0), 'the array has no null behind the last argument'
    fills = []
    for x in st.events():
        if x[0] == 'loopexit':
            L = x[1]
            if any(y[0] == 'store' and y[1][0] == 'e' and y[1][1] == B_ for it in L.iters for y in L.iter_events(it)):
                if not any(q[0] is L for q in fills):
                    fills.append((L, x[2]))
        if x is e:
            break
    others = [x for x in st.events() if x[0] == 'store' and x[1][0] == 'e' and x[1][1] == B_ and x[1] != term]
    if others or len(fills) != 1:
        if not fills and not others:
            return verdict(st, 0), 'the array is never filled'
        return None, 'the array is filled in another way'
    L = fills[0][0]
    for it in L.iters:
        s = it[2]
        stores = [y for y in L.iter_events(it) if y[0] == 'store' and y[1][0] == 'e' and y[1][1] == B_]
        if len(stores) != 1:
            return (verdict(s, 0) if not stores else None), 'an iteration stores %d cells' % len(stores)
        idx, val = lin(stores[0][1][2]), stores[0][2]
        want = T('cell', T('par', 1), s.norm(add(sub(idx, k0), num(1))))
        if s.norm(val) != s.norm(want) if isinstance(val, tuple) and val[0] != 't' else not cell_same(s, val, want):
            return (verdict(s, 0) if val[:2] == ('t', 'cell') else None), 'cell %s is given %s' % (show(idx), show(val))
    # the cells run from the first to the last
    ctr = None
    for k, phi in L.phi.items():
        for it in L.iters:
            stores = [y for y in L.iter_events(it) if y[0] == 'store' and y[1][0] == 'e' and y[1][1] == B_]
            if contains(('x', stores[0][1][2]), lambda t: t == phi):
                ctr = (k, phi, sub(lin(stores[0][1][2]), lin(phi)))
    if ctr is None or not isnum(ctr[2]):
        return None, 'the counter of the filling loop was not recognised'
    k, phi, off = ctr
    init = L.entry.mem.get(k) if hasattr(L.entry, 'mem') else dict(L.entry).get(k)
    if init is None:
        return None, 'the counter of the filling loop has no known start'
    if st.norm(add(lin(init), off)) != k0:
        return verdict(st, 0) if isnum(lin(init)) else None, 'filling starts at cell %s' % show(add(lin(init), off))
    for it in L.iters:
        nv = it[2].mem.get(k)
        if nv is None or it[2].decide(mk_eq0(sub(sub(lin(nv), lin(phi)), num(1)))) != 1:
            return None, 'the counter does not step by one'
    left = sub(end, add(lin(phi), off))
    d = st.decide(mk_le(left))
    return (True if d == 1 else verdict(st, 0)), 'the cells hold the arguments in order, null at the end' if d == 1 else 'the last arguments are not copied'


def cell_same(s, val, want):
    return val[:2] == ('t', 'cell') and val[2] == want[2] and s.decide(mk_eq0(sub(lin(val[3]), lin(want[3])))) == 1
