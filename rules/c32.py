"""C32 Path predicates report what the operating system says about exactly that path."""
from .common import *
from sa import export

UNITS = export.CORE
EXPLAIN = """
Every predicate is interpreted abstractly on all its paths with stat and access as nondeterministic operations that either
succeed (defining the mode word of the path asked about) or fail.  On each abstract path the answer must follow from the
system calls made on it: they must ask about the path's own text, the mode bits compared must be those of the documented
kind, and the set of permissions asked for must be the documented one (search permission exactly for directories).  The
listing of a directory is solved as a loop fixpoint: every iteration must append exactly the name that was read."""
ASSUME = ['stat, access, chdir, getcwd and readdir behave as POSIX says']
PN = 'fileutil::PathName'
NAME = PN + '::pathName'


def check(ck):
    tasks = []
    for n, bits in (('IsFile', 0o100000), ('IsDirectory', 0o040000), ('Exists', None)):
        tasks.append((n, lambda c, n=n, b=bits: kind(c, n, b)))
    for n, m in (('IsReadable', 4), ('IsWritable', 2), ('IsExecutable', 1)):
        tasks.append((n, lambda c, n=n, m=m: perm(c, n, m)))
    tasks += [('listing', listing), ('current', current)]
    ck.run(tasks)


def calls(st):
    return evs(st, 'sys')


def own(c, f, st, path, w, evl):
    """every call asks about the path itself"""
    for e in evl:
        if e[1] in ('stat', 'access', 'lstat'):
            ok = e[2][0] == path and e[1] != 'lstat'
            c.decide(True if ok else verdict(st, 0, e[2][0]), 'asks about its own path', '%s calls %s on %s' % (f['qual'], e[1], show(e[2][0])), w, facts(st))


def mode_of(st, path):
    """the value of the mode word's kind bits on this path, if any stat succeeded"""
    out = []
    for l, v in st.mem.items():
        if l[0] == 'f' and l[-1] == 'stat::st_mode':
            out.append(v)
    return out


def kind(c, n, bits):
    f = c.need('%s::%s' % (PN, n))
    r = c.analyse(f)
    path = T('init', field(r.this, NAME))
    w = c.where(f)
    for st, v in r.rets:
        sy = calls(st)
        own(c, f, st, path, w, sy)
        stats = [e for e in sy if e[1] == 'stat' or (e[1] == 'access' and n == 'Exists' and e[2][1:] == (num(0),))]
        if not stats:
            c.decide(verdict(st, 0, v), 'asks the system', '%s answers %s without asking' % (f['qual'], show(v)), w, facts(st))
            continue
        if not stats[-1][3]:
            c.decide(True if zero(st, v) == 1 else verdict(st, 0, v), 'the answer', '%s answers %s when the path does not exist' % (f['qual'], show(v)), w, facts(st))
            continue
        if bits is None:
            c.decide(True if zero(st, v) == 0 else verdict(st, 0, v), 'the answer', '%s answers %s when the path exists' % (f['qual'], show(v)), w, facts(st))
            continue
        exp = isdir(st, path, bits)
        d = st.decide(exp)
        z = zero(st, v)
        ok = v == exp or (d is not None and z is not None and z == 1 - d)
        c.decide(True if ok else verdict(st, 0, v), 'the answer', '%s answers %s for an existing path' % (f['qual'], show(v)), w, facts(st))
    aborts(c, f, r)


def isdir(st, path, bits=0o040000):
    m = None
    for e in calls(st):
        if e[1] == 'stat' and e[3] and e[2][0] == path:
            m = e
    terms = [t for t in all_terms(st) if t[:3] == ('t', 'st_mode', path)]
    t = terms[0] if terms else T('st_mode', path, ('g', 0))
    return mk_eq0(sub(lin(T('&', lin(t), num(0o170000))), num(bits)))


def all_terms(st):
    seen = []
    for src in list(st.mem.values()) + list(st.iv) + list(st.bind) + list(st.facts):
        contains(src, lambda t: t[:2] == ('t', 'st_mode') and seen.append(t) and False) if isinstance(src, tuple) else None
    return seen


def perm(c, n, m):
    f = c.need('%s::%s' % (PN, n))
    r = c.analyse(f)
    path = T('init', field(r.this, NAME))
    w = c.where(f)
    for st, v in r.rets:
        sy = calls(st)
        own(c, f, st, path, w, sy)
        z = zero(st, v)
        acc = [e for e in sy if e[1] == 'access']
        masks = [(e[2][1], e[3]) for e in acc]
        if any(not isnum(a) for a, b in masks) or z is None:
            c.decide(verdict(st, 0, v, *[a for a, b in masks]), 'the answer', '%s answers %s having asked for %s' % (f['qual'], show(v), masks), w, facts(st))
            continue
        stats = [e for e in sy if e[1] == 'stat']
        d = None
        if stats:
            d = 0 if not stats[-1][3] else st.decide(isdir(st, path))
        need = m | 1 if d == 1 else m
        got = 0
        for a, b in masks:
            if b:
                got |= a[1]
        if z == 0:
            ok = got == need and (d is not None or m == 1)
        else:
            # some required permission was refused; without knowing the kind only the permission itself counts
            ok = any(not b and a[1] & ~(need if d is not None else m) == 0 for a, b in masks)
            if not ok and stats and not stats[-1][3] and not acc:
                ok = True           # what does not exist has no permission
        c.decide(True if ok else verdict(st, 0, v), 'the answer', '%s answers %s having been %s for %s' % (
            f['qual'], show(v), ' and '.join('%s %s' % ('granted' if b else 'refused', perms(a[1])) for a, b in masks) or 'asked nothing',
            {None: 'a path of unknown kind', 1: 'a directory', 0: 'something else than a directory'}[d]), w, facts(st))
    aborts(c, f, r)


def perms(k):
    return '+'.join(n for n, b in (('read', 4), ('write', 2), ('search', 1)) if k & b) or 'existence'


def aborts(c, f, r):
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), 'no abort', '%s: %s' % (f['qual'], k), c.where(f, line), facts(st))
    for st, et, v in r.throws:
        c.decide(verdict(st, 0), 'no exception', '%s throws %s' % (f['qual'], et), c.where(f), facts(st))


def text(x):
    if x[0] == 'obj':
        for l, v in x[2]:
            if l[-1] == NAME:
                return v
    return x


def listing(c):
    f = c.need(PN + '::SearchDirectory')
    r = c.analyse(f)
    path = T('init', field(r.this, NAME))
    w = c.where(f)
    n = 0
    for L in r.loops:
        for it in L.iters:
            st = it[2]
            ev = L.iter_events(it)
            rd = [e for e in ev if e[0] == 'readdir']
            pb = [e for e in ev if e[0] == 'push_back']
            bad = [e for e in ev if e[0] in ('push_front', 'clear', 'swap', 'splice', 'lassign')]
            if not rd and not pb:
                continue
            n += 1
            ok = len(rd) == 1 and len(pb) == 1 and not bad
            if ok:
                t = text(pb[0][2])
                ok = contains(t, lambda x: x == rd[0][2]) and contains(t, lambda x: x[:1] == ('f',) and x[2].endswith('d_name'))
            c.decide(True if ok else verdict(st, 0), 'every entry is listed once, in order', '%s reads %d entries and appends %d names' % (f['qual'], len(rd), len(pb)), w, facts(st))
    for st, v in r.rets:
        op = [e for e in st.events() if e[0] == 'new' and e[2] == 'opendir']
        for e in op:
            ok = e[6] == path
            c.decide(True if ok else verdict(st, 0, e[6]), 'asks about its own path', '%s opens %s' % (f['qual'], show(e[6])), w, facts(st))
        rd = [e for e in st.events() if e[0] in ('readdir', 'loop')]
        got = r.E.load(st, v[1]) if v[0] in 'lo' else v
        if not rd:
            ok = got == ('L', (), None, ())
            fl = [e for e in calls(st) if e[1] == 'opendir' and not e[3]] or st.decide(isdir(st, path)) == 0 or not any(e[1] == 'stat' and e[3] for e in calls(st))
            c.decide(True if ok and fl else verdict(st, 0, got), 'only what cannot be listed is empty', '%s gives %s' % (f['qual'], show(got)), w, facts(st))
    if not n:
        c.undecided('every entry is listed once, in order', '%s has no loop over the entries' % f['qual'], w)
    aborts(c, f, r)


def current(c):
    f = c.need('fileutil::SetCurrentDirectory')
    r = c.analyse(f)
    path = T('init', field(('d', T('par', 0)), NAME))
    w = c.where(f)
    for st, v in r.rets:
        cd = [e for e in calls(st) if e[1] == 'chdir']
        ok = len(cd) == 1 and cd[0][2][0] == path and zero(st, v) == (0 if cd[0][3] else 1)
        c.decide(True if ok else verdict(st, 0, v), 'changing the directory', '%s gives %s after %s' % (
            f['qual'], show(v), ', '.join('chdir(%s) %s' % (show(e[2][0]), 'succeeded' if e[3] else 'failed') for e in cd) or 'no system call'), w, facts(st))
    for st, et, v in r.throws:
        cd = [e for e in calls(st) if e[1] == 'chdir' and e[3]]
        c.decide(True if not cd else verdict(st, 0), 'changing the directory', '%s throws %s %s the directory was changed' % (
            f['qual'], et, 'after' if cd else 'before'), w, facts(st))
    f = c.need('fileutil::GetCurrentDirectory')
    r = c.analyse(f)
    w = c.where(f)
    for st, v in r.rets:
        got = r.E.load(st, field(v[1], NAME)) if v[0] in 'lo' else text(v)
        g = [e for e in calls(st) if e[1] == 'getcwd']
        if g and g[-1][3]:
            ok = contains(got, lambda t: t[:2] == ('t', 'getcwd'))
        else:
            ok = got == S('')
        c.decide(True if ok else verdict(st, 0, got), 'the current directory', '%s gives %s %s' % (
            f['qual'], show(got), 'where the system named it' if g and g[-1][3] else 'where the system did not name it'), w, facts(st))
