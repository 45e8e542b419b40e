"""C19 Failures of files and system calls are not ignored."""
from .common import *
from . import compare as cmp, measure as me, reader as rd, c08, c14
from sa.models import bump_stream
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
The run driver is interpreted with every file operation failing or succeeding: on every path the state of a stream after it was
opened is asked before the test body runs, and the body runs only if it is good; on every path that ends as a completed run the
output was flushed after the last thing written (by driver or test body), the state after that flush is asked, and it is
good.  The reading loop is interpreted with reads that deliver everything, reach the end, or fail: no chunk is passed on and no normal
return is made after a failed read.  The comparison of a file measurement is interpreted down to the character loop: a way to
'equal' requires an opened file, read to its end without an error.  Every function with a system call is interpreted with the call
failing: buffers keep what they had (nothing), pointers are null, and none of it is used; what a function reports follows the
result of the call it reports on."""
ASSUME = ['an existing output file without write permission is refused with a message when the command line is read (documented by C17)', 'closing after a successful flush loses nothing',
          'failing memory allocation is not part of this property']

RULEO = 'a file that cannot be opened ends the run'
RULEW = 'output that could not be written is an error'
RULER = 'a failed read of the baseline is an error'
RULEF = 'a file that was not read completely is not equal'
RULES = 'the result of a system call is asked before it is used'
RULEU = 'a failed call is not reported as done'
OS = RT + '::os'
SYS = {'getcwd', 'gethostname', 'stat', 'lstat', 'fstat', 'access', 'chdir', 'opendir', 'readdir', 'getenv', 'fopen', 'readlink', 'realpath', 'pipe', 'fork', 'waitpid', 'read', 'write',
       'open', 'mkdir', 'rename', 'remove', 'unlink', 'tmpfile', 'XML_ParserCreate', 'XML_GetBuffer', 'fread', 'fwrite', 'fgets', 'popen', 'ctime', 'localtime', 'gmtime', 'strftime', 'mkstemp'}


def check(ck):
    ck.need(RT + '::Main')
    ck.need(RT + '::ReadXMLInput')
    ck.run([('driver', driver), ('baseline', baseline), ('files', files), ('system calls', calls), ('directory', directory)], timeout=500)


# ------------------------------------------------------------------ the driver

def driver(c):
    f, r = c08.run(c, real=True, body=written, flags=('writes',))
    w = c.where(f)
    n = {'completed runs': 0, 'failed runs': 0}
    for st, v in r.rets:
        evl = evs(st, 'open', 'body', 'reading', 'state', 'throw', 'stepthrow')
        b = [i for i, e in enumerate(evl) if e[0] == 'body']
        for i, e in enumerate(evl):
            if e[0] != 'open':
                continue
            bad = opened(st, e[1])
            what = 'the file %s opened in %s' % (show(e[3]), e[5].split('::')[-1])
            if b and b[0] > i:
                if bad == [False]:
                    c.held(RULEO, '%s: the test runs only if that worked' % what, w)
                else:
                    c.decide(verdict(st, 0), RULEO, '%s: the test runs %s' % (what, 'although that failed' if bad else 'without asking whether that worked'), w, facts(st))
            elif bad == [True]:
                n['failed runs'] += 1
                z = zero(st, v)
                c.decide(True if z != 1 else verdict(st, 0, v), RULEO, '%s: failed, and the run ends with %s' % (what, show(v)), w, facts(st))
        if len(b) != 1 or evs(st, 'throw', 'stepthrow'):
            continue
        n['completed runs'] += 1
        body = evl[b[0]]
        o = body[1]
        loc = ('g', 'std::cout') if st.decide_null(o) == 1 else (o[1] if o[0] == 'p' else ('d', o))
        states = [e for e in evl if e[0] == 'state' and e[1] == loc]
        if not states:
            c.undecided(RULEW, 'no stream that the test body writes to', w)
            continue
        z = zero(st, v)
        last = states[-1]
        ok = st.decide(mk_true(T('fail', last[2])))
        if ok is None:
            ok = st.decide(mk_true(T('bad', last[2])))
        if not last[3]:
            c.decide(True if z == 0 else verdict(st, 0), RULEW, 'the run ends and what was written last is not flushed', w, facts(st))
        else:
            c.decide(True if ok == 0 or z == 0 else verdict(st, 0, last[2]), RULEW, 'the run ends %s' % (
                'after asking whether everything was written' if ok == 0 else 'without asking whether everything was written' if ok is None else 'although not everything was written'), w, facts(st))
    for a, x in n.items():
        c.count(a, x)
        if not x:
            c.undecided(RULEO, 'no %s found' % a, w)


def opened(st, loc):
    """what is known about the result of opening the stream: [], [True] it failed, [False] it worked"""
    return [v for a, v in st.facts.items() if a[0] == 'true' and a[1][:2] == ('t', 'fail') and a[1][2][:3] == ('t', 'opened', loc)]


def written(E, st, obj):
    """the test body writes to the output"""
    o = E.load(st, field(obj, OS))
    loc = ('g', 'std::cout') if st.decide_null(o) == 1 else (o[1] if o[0] == 'p' else ('d', o))
    bump_stream(st, loc)
    st.emit('state', loc, st.mem[('sst', loc)], False)


# ------------------------------------------------------------------ reading the baseline

def baseline(c):
    f, r = rd.read_run(c, merge=False)
    n = 0

    def one(st, evl, how):
        nonlocal n
        for i, e in enumerate(evl):
            if e[0] != 'read':
                continue
            n += 1
            fail, eof, bad = (st.decide(mk_true(T(k, e[4]))) for k in ('fail', 'eof', 'bad'))
            if fail == 0 or eof == 1 and bad != 1 or bad == 0:
                c.held(RULER, '%s after a read that %s' % (how, 'reached the end' if eof == 1 else 'delivered all it was asked for'), c.where(f, e[5]))
            else:
                c.decide(verdict(st, 0), RULER, '%s: %s %s' % (f['qual'], how, 'after a failed read' if fail == 1 else 'without asking whether the read failed'), c.where(f, e[5]), facts(st))
    for L in r.loops:
        for it in L.iters:
            one(it[2], [e for e in L.iter_events(it) if e[0] == 'read'], 'goes on')
    for st, v in r.rets:
        ev = st.events()
        last = max([i for i, e in enumerate(ev) if e[0] == 'loop' and any(x[0] in ('parse', 'read') for x in ev[i:])] or [-1])
        one(st, [e for e in ev[last + 1:] if e[0] == 'read'], 'returns')
    c.count('reads of the baseline on all paths', n)
    if not n:
        raise BrokenAnalysis('no read of the baseline was found')


# ------------------------------------------------------------------ files that are compared

def files(c):
    n = 0
    h = me.base64_hooks(c)
    equal = []

    def other(E, st, fr, cc):
        v = mk_true(T('equal', st.fresh()))
        return [(st, v)]
    for k in c.p.derived(me.M):
        h[k + '::operator=='] = other
        if not c.p.is_a(k, me.MF):
            h[k + '::IsEqual'] = other
            h[k + '::SetContentAsData'] = nothing
    h['testutil::operator=='] = other
    for cls in c.p.derived(me.MF):
        f = me.method(c, cls, 'IsEqual')
        if not f or 'body' not in f:
            continue
        w = c.where(f)
        r = c.analyse(f, hooks=h, setup=me.as_class(cls), flags=('writes', 'reads'), maxsteps=2000000)
        for st, v in r.rets:
            z = zero(st, v)
            if z == 1:
                continue
            n += 1
            op = [e for e in st.events() if e[0] == 'open']
            if not op:
                c.decide(verdict(st, 0, v), RULEF, '%s says equal without opening the file' % f['qual'], w, facts(st))
                continue
            loc = op[-1][1]
            o = opened(st, loc)
            fs = {(a[1][1], a[1][2]): val for a, val in st.facts.items() if a[0] == 'true' and a[1][1] in ('eof', 'fail', 'bad') and len(a[1]) > 2 and a[1][2][:3] == ('t', 'sst', loc)}
            states = sorted({k[1] for k in fs}, key=lambda t: t[3])
            if o == [True]:
                c.decide(verdict(st, 0, v), RULEF, '%s says equal although the file could not be opened' % f['qual'], w, facts(st))
                continue
            if not states:
                c.decide(verdict(st, 0, v), RULEF, '%s says equal without reading to the end of the file' % f['qual'], w, facts(st))
                continue
            last = states[-1]
            eof, bad, fail = fs.get(('eof', last)), fs.get(('bad', last)), fs.get(('fail', last))
            ok = eof is True and (bad is False)
            c.decide(True if ok else verdict(st, 0, v), RULEF, '%s says equal after reading %s' % (f['qual'], 'to the end without an error' if ok else
                     'and not asking whether the end was reached' if eof is None else 'and not asking for an error' if bad is None and eof else 'not to the end' if eof is False else 'with an error'), w, facts(st))
    c.count('ways to say that a file is equal', n)
    if not n:
        raise BrokenAnalysis('no way to an equal file found')


# ------------------------------------------------------------------ system calls

def calls(c):
    n = 0
    for k, f in sorted(c.p.functions.items()):
        if 'body' not in f:
            continue
        s = [x for x in walk([f['body'], [i.get('e') for i in f.get('inits', [])]]) if x['k'] == 'call' and x['n'].split('::')[-1] in SYS and x.get('f') not in c.p.functions and not x.get('mc')]
        if not s:
            continue
        if f['qual'] == RT + '::ReadXMLInput':
            f2, r = rd.read_run(c)
            c14.report(c, f2, r)
            for st, kind, fr, line, det in r.aborts:
                c.decide(verdict(st, 0), RULES, '%s: %s' % (f['qual'], kind), c.where(f, line), facts(st))
        else:
            c14.function(c, f)
        n += len(s)
        c.held(RULES, '%s: %s' % (f['qual'], ', '.join(sorted({x['n'] for x in s}))), c.where(f))
    c.count('calls of system functions', n)
    if n < 5:
        raise BrokenAnalysis('only %d calls of system functions found' % n)


def directory(c):
    """what is reported follows the result of the call"""
    f = c.need('fileutil::SetCurrentDirectory')
    r = c.analyse(f)
    w = c.where(f)
    for st, v in r.rets:
        sy = [e for e in evs(st, 'sys') if e[1] == 'chdir']
        z = zero(st, v)
        if z == 0 and not any(e[3] for e in sy):
            c.decide(verdict(st, 0, v), RULEU, '%s reports success %s' % (f['qual'], 'although the call failed' if sy else 'without a call'), w, facts(st))
        elif z is None:
            c.decide(verdict(st, 0, v) if sy else None, RULEU, '%s reports %s' % (f['qual'], show(v)), w, facts(st))
        else:
            c.held(RULEU, '%s reports %s' % (f['qual'], 'success' if z == 0 else 'a failure'), w)
    g = c.need('fileutil::GetCurrentDirectory')
    r = c.analyse(g)
    for st, v in r.rets:
        if v[0] not in 'lo':
            continue
        got = r.E.load(st, field(v[1], 'fileutil::PathName::pathName'))
        sy = [e for e in evs(st, 'sys') if e[1] == 'getcwd']
        if sy and not sy[-1][3] or not sy:
            c.decide(True if got == S('') else verdict(st, 0, got), RULEU, '%s gives %s when the directory is not known' % (g['qual'], show(got)), c.where(g), facts(st))
