"""C18 The first existing file along the search path is used."""
from .common import *
from . import compare as cmp
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
SearchPathList is interpreted abstractly over a list of arbitrary length with joining (decided by C28) and the file test as
uninterpreted functions: its loop is solved as a fixpoint; the iterator must start at the first element and move by one, an
iteration may go on only if the joined path of its element is not a file, a return inside must give that joined path with
the test true, and the return behind the last element must give the empty path.  The users (the mode query, the opening of
the baseline, the comparison of file measurements) are interpreted with the search as an uninterpreted function of name and
list: each must search its own name in the configured list and use the result if it is not empty and the name itself
otherwise.  The setters of the list are checked for order: a prepended directory comes first."""
ASSUME = ['IsFile is decided by C32, joining by C28']
PN = 'fileutil::PathName'
NAME = PN + '::pathName'
LIST = RT + '::searchPath'
INNAME = RT + '::inFileName'


def pname(o):
    return field(o, NAME)


def pred_hooks(ck):
    h = {}
    for n in ('IsFile', 'IsDirectory', 'IsReadable', 'IsWritable', 'IsExecutable', 'Exists'):
        def p(E, st, fr, c, n=n):
            v = T(n, E.load(st, pname(c.obj)))
            st.emit('pred', n, v[2], c.line)
            return [(st, mk_true(v))]
        h['%s::%s' % (PN, n)] = p
    return h


def joined(E, st, fr, c):
    a, b = E.load(st, pname(c.obj)), E.load(st, pname(c.args[0][1]))
    st.mem[pname(c.obj)] = T('joined', a, b)
    st.emit('join', a, b, c.line)
    return [(st, ('l', c.obj))]


def hooks(ck):
    h = pred_hooks(ck)
    h[PN + '::SearchPathList'] = cmp.search
    h[PN + '::Tail'] = cmp.tail
    return h


def check(ck):
    tasks = [('search', search), ('setters', setters), ('mode', mode), ('opening', opening)]
    for f in cmp.implementations(ck):
        tasks.append(('comparison ' + f['qual'], lambda c, f=f: comparison(c, f)))
    ck.run(tasks)


def search(c):
    f = c.need(PN + '::SearchPathList')
    h = pred_hooks(c)
    h[PN + '::Append'] = joined
    r = c.analyse(f, hooks=h)
    w = c.where(f)
    me = T('init', pname(r.this))
    lst = T('init', ('d', T('par', 0)))

    def tested(st, since=None):
        return [(a[1][2], v) for a, v in st.facts.items() if a[0] == 'true' and a[1][0] == 't' and a[1][1] == 'IsFile']

    def elem_of(x):
        """the list position whose joined path x is"""
        if x[0] == 't' and x[1] == 'joined' and x[3] == me and x[2][0] == 't' and x[2][1] == 'init':
            l = x[2][2]
            if l[0] == 'f' and l[2] == NAME and l[1][0] == 'd':
                e = l[1][1]
                return e
        return None
    n = 0
    for L in r.loops:
        pos = None
        for loc in L.phi:
            v0 = L.entry.mem.get(loc)
            if v0 is not None and first(v0, lst, L.entry):
                pos = loc
            elif v0 is not None and v0[0] == 't' and v0[1] in ('it', 'itn') and contains(v0, lambda t: of_list(L.entry, t, lst)):
                c.decide(False, 'in order', '%s starts at %s' % (f['qual'], show(v0)), w, facts(L.entry))
                pos = loc
        if pos is None:
            if any(e[0] == 'pred' for it in L.iters for e in L.iter_events(it)):
                c.undecided('in order', '%s: the position in the list is not found' % f['qual'], w)
            continue
        n += 1
        for it in L.iters:
            st = it[2]
            x, y = it[1].mem.get(pos), st.mem.get(pos)
            ok = nexts(x, y)
            c.decide(True if ok else verdict(st, 0), 'in order', '%s goes from %s to %s' % (f['qual'], show(x), show(y)), w, facts(st))
            if not any(i[0] == it[3] for i in L.iters):
                continue                # a flag set here ends the loop
            ok = [1 for a, v in tested(st) if v is False and elem_of(a) is not None and at_pos(elem_of(a), x)]
            c.decide(True if ok else verdict(st, 0), 'no file is passed over', '%s %s' % (f['qual'], 'goes on when this is no file' if ok else 'goes on without knowing that this is no file'), w, facts(st))
    for st, v in r.rets:
        got = r.E.load(st, pname(v[1])) if v[0] in 'lo' else v
        le = [e for e in st.events() if e[0] == 'loopexit']
        e = elem_of(got)
        if e is not None:
            ok = any(a == got and t is True for a, t in tested(st))
            c.decide(True if ok else verdict(st, 0), 'what is found is a file', '%s gives %s' % (f['qual'], show(got)), w, facts(st))
            if le and le[-1][3] == 'n':
                # found in the loop, returned behind it
                pass
        elif got == S(''):
            ok = ended(st, lst) or st.decide(mk_eq0(lin(T('lsize', lst)))) == 1
            c.decide(True if ok else None if not le and st.unk else verdict(st, 0), 'the empty path only if there is none', '%s gives the empty path %s' % (
                f['qual'], 'behind the last directory' if ok else 'before the last directory'), w, facts(st))
        else:
            c.decide(verdict(st, 0, got), 'what is found is a file', '%s gives %s' % (f['qual'], show(got)), w, facts(st))
    if not n:
        c.undecided('in order', '%s does not walk over the list' % f['qual'], w)
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), 'no abort', '%s: %s' % (f['qual'], k), c.where(f, line), facts(st))


def ended(st, lst):
    """is the current position the end of the list?"""
    for a, v in st.facts.items():
        if a[0] == 'eq' and v is True and any(x[:2] == ('t', 'lend') and of_list(st, x[2], lst) for x in a[1:3]):
            return True
    return False


def of_list(st, o, lst):
    return o == ('d', T('par', 0)) or st.mem.get(o) in (lst, ('L', (), lst, ()))


def first(v, lst, st):
    return v[:2] == ('t', 'it') and len(v) == 4 and v[3] == num(0) and of_list(st, v[2], lst)


def nexts(x, y):
    return y is not None and y[:2] == ('t', 'itn') and y[2] == x and y[3] == 1


def at_pos(e, x):
    return contains(e, lambda t: t == x)


def setters(c):
    f = c.need(RT + '::PrependInFileSearchPath')
    r = c.analyse(f)
    old, new = T('init', field(r.this, LIST)), T('init', pname(('d', T('par', 0))))
    for st, v in r.rets:
        now = r.E.load(st, field(r.this, LIST))
        fr = list(now[1]) if now[0] == 'L' else []
        ok = now[0] == 'L' and len(fr) == 1 and text_of(r, st, fr[0]) in (new, T('init', ('d', T('par', 0)))) and now[2] == old and not now[3]
        c.decide(True if ok else verdict(st, 0, now), 'a prepended directory comes first', '%s leaves %s' % (f['qual'], show(now)), c.where(f), facts(st))
    f = c.need(RT + '::SetInFileSearchPath')
    r = c.analyse(f)
    for st, v in r.rets:
        now = r.E.load(st, field(r.this, LIST))
        ok = now in (('L', (), T('init', ('d', T('par', 0))), ()), T('init', ('d', T('par', 0))))
        c.decide(True if ok else verdict(st, 0, now), 'the list that is set', '%s leaves %s' % (f['qual'], show(now)), c.where(f), facts(st))
    f = c.need(RT + '::GetInFileSearchPath')
    r = c.analyse(f)
    for st, v in r.rets:
        ok = v == ('l', field(r.this, LIST))
        c.decide(True if ok else verdict(st, 0, v), 'the list that was set', '%s gives %s' % (f['qual'], show(v)), c.where(f), facts(st))
    wr = writers(c, LIST)
    for k, ws in wr.items():
        g = c.p.functions[k]
        if g['kind'] == 'ctor' or g['name'] in ('PrependInFileSearchPath', 'SetInFileSearchPath'):
            c.held('who may change the list', g['qual'], c.where(g))
        else:
            c.undecided('who may change the list', '%s changes the search path' % g['qual'], c.where(g, ws[0][0]))


def text_of(r, st, x):
    if x[0] in ('o', 'l'):
        return r.E.load(st, pname(x[1]))
    if x[0] == 'obj':
        for l, v in x[2]:
            if l[-1] == NAME:
                return v
    return x


def lists(r):
    l = field(r.this, LIST)
    return (T('init', l), ('L', (), T('init', l), ()))


def mode(c):
    f = c.need(RT + '::GetCompareMode')
    r = c.analyse(f, hooks=hooks(c))
    nm = T('init', pname(field(r.this, INNAME)))
    isf = T('init', field(r.this, RT + '::is'))
    w = c.where(f)
    for st, v in r.rets:
        if st.decide_null(isf) == 0:
            c.decide(True if zero(st, v) == 0 else verdict(st, 0, v), 'compare mode', '%s gives %s while a baseline is open' % (f['qual'], show(v)), w, facts(st))
            continue
        if st.decide_eq(nm, S('')) == 1:
            c.decide(True if zero(st, v) == 1 else verdict(st, 0, v), 'compare mode', '%s gives %s without a baseline name' % (f['qual'], show(v)), w, facts(st))
            continue
        used = which(c, f, r, st, nm, w)
        if used is None:
            continue
        a, b = st.decide(mk_true(T('IsFile', used))), st.decide(mk_true(T('IsReadable', used)))
        exp = 0 if a == 0 or b == 0 else 1 if a == 1 and b == 1 else None
        z = zero(st, v)
        ok = exp is not None and z is not None and z == 1 - exp
        if not ok and exp is None and v in (mk_true(T('IsReadable', used)), ) and a == 1:
            ok = True
        if not ok and exp is None and v == mk_true(T('IsFile', used)) and b == 1:
            ok = True
        c.decide(True if ok else verdict(st, 0, v), 'compare mode', '%s gives %s for the file %s' % (f['qual'], show(v), show(used)), w, facts(st))


def which(c, f, r, st, nm, w, rule='the name itself if nothing is found'):
    """the file that must be used on this path: the search result or the name itself"""
    se = [e for e in evs(st, 'search') if e[1] == nm]
    if not se:
        c.decide(verdict(st, 0), 'the name is searched', '%s does not search for the name' % f['qual'], w, facts(st))
        return None
    for e in se:
        ok = e[2] in lists(r)
        c.decide(True if ok else verdict(st, 0, e[2]), 'in the configured search path', '%s searches in %s' % (f['qual'], show(e[2])), w, facts(st))
    e = se[-1]
    d = st.decide_eq(e[3], S(''))
    if d is None:
        c.decide(verdict(st, 0), rule, '%s does not test whether anything was found' % f['qual'], w, facts(st))
        return None
    return nm if d == 1 else e[3]


def opening(c):
    f = c.need(RT + '::BeginMeasurement')
    h = hooks(c)
    h[RT + '::ReadXMLInput'] = nothing
    h[RT + '::WriteXMLOutputStart'] = nothing
    for cl in cmp.runners(c):
        h[cl + '::GetCompareMode'] = lambda E, st, fr, c: [(st, mk_true(T('compare-mode')))]
    r = c.analyse(f, hooks=h)
    nm = T('init', pname(field(r.this, INNAME)))
    w = c.where(f)
    k = 0
    for st in [s for s, v in r.rets] + [s for s, et, v in r.throws]:
        op = [e for e in evs(st, 'open') if 'ifstream' in str(e[2])]
        if st.decide_eq(nm, S('')) == 1:
            c.decide(True if not op else verdict(st, 0), 'no baseline without a name', '%s opens %d files for reading without a baseline name' % (f['qual'], len(op)), w, facts(st))
            continue
        if not op:
            continue
        k += 1
        used = which(c, f, r, st, nm, w)
        if used is None:
            continue
        ok = len(op) == 1 and op[0][3] == used
        c.decide(True if ok else verdict(st, 0, op[0][3]), 'the file that was found is opened', '%s opens %s' % (f['qual'], show(op[0][3])), w, facts(st))
    if not k:
        raise BrokenAnalysis('%s never opens a baseline' % f['qual'])


def comparison(c, f):
    for cls in cmp.runners(c)[:1] if f['class'] == RT else [f['class']]:
        r = cmp.run(c, f, cls)
        w = c.where(f)
        k = 0
        for st in [s for s, v in r.rets]:
            front = ('d', T('front', cmp.TAIL0))
            par = ('d', T('par', 0))
            both = is_file(c, st, front), is_file(c, st, par)
            acc = [e for e in evs(st, 'accept') if e[1] == 'compare']
            if not acc:
                continue
            f0 = T('init', cmp.attr(front, 'file'))
            last = None
            sets = [e for e in evs(st, 'setattr') if e[1] == 'file']
            mine = [e for e in sets if e[2] == front]
            for e in sets:
                if e[2] != front:
                    c.decide(verdict(st, 0), 'only the baseline\'s file name is looked up', '%s sets the file name of %s' % (f['qual'], show(e[2])), w, facts(st))
            now = mine[-1][3] if mine else f0
            if both == (1, 1):
                k += 1
                se = [e for e in evs(st, 'search')]
                if not se:
                    c.decide(verdict(st, 0), 'file baselines are searched', '%s compares a file without looking it up' % f['qual'], w, facts(st))
                    continue
                e = se[-1]
                ok = e[1] == T('tail', f0) and e[2] in lists(r)
                c.decide(True if ok else verdict(st, 0, e[1]), 'file baselines are searched', '%s looks up %s in %s' % (f['qual'], show(e[1]), show(e[2])), w, facts(st))
                d = st.decide_eq(e[3], S(''))
                exp = f0 if d == 1 else e[3] if d == 0 else None
                ok = exp is not None and now == exp
                c.decide(True if ok else verdict(st, 0, now), 'the file that was found is compared', '%s compares the file %s where %s' % (
                    f['qual'], show(now), 'nothing was found' if d == 1 else 'a file was found' if d == 0 else 'it is not known whether a file was found'), w, facts(st))
            else:
                ok = not mine
                c.decide(True if ok else verdict(st, 0), 'only file measurements are looked up', '%s leaves the file name %s' % (f['qual'], show(now)), w, facts(st))
        if not k:
            raise BrokenAnalysis('%s has no path for two file measurements' % f['qual'])


def is_file(c, st, o):
    """1 file measurement, 0 not, None unknown"""
    cl = st.typ.get(o)
    if cl:
        k = {c.p.is_a(x, 'testutil::MeasurementFile') for x in cl}
        if len(k) == 1:
            return int(k.pop())
    for a, v in st.facts.items():
        if a[0] == 'isa' and contains(a, lambda t: t == o or (o[0] == 'd' and t == o[1])) and 'testutil::MeasurementFile' in str(a):
            return int(v)
    return None
