"""C10 The whole baseline file reaches the parser, byte for byte."""
from .common import *
from . import reader as rd
from sa import export

UNITS = export.CORE
EXPLAIN = """
ReadXMLInput is interpreted abstractly with the stream (every read gives all bytes, reaches the end, or fails) and the XML
parser (accepts or rejects) replaced by their contracts; its loop is solved as a fixpoint.  On every iteration and exit:
each chunk handed to the parser is preceded by exactly one read into the parser's own buffer, of no more bytes than asked
for, with the length that this read delivered, and is marked final exactly if this read reached the end; no normal return
without an accepted final chunk, nothing after it, none twice; a rejected chunk or failed read ends in an exception.  The
registered text callback appends exactly the piece it is given to the text of the current element and the end callback
makes that text the element's content and starts the next one empty."""
ASSUME = ['expat delivers the text between its callbacks as documented', 'a stream read fails, reaches the end or delivers all bytes asked for']


def check(ck):
    ck.run([('reading loop', loop), ('other reads', others), ('text callback', text), ('end callback', end), ('start callback', start), ('reader result', result)])


def segments(st):
    """events since the entry of the (last) reading loop iteration"""
    return [e for e in st.events() if e[0] in ('getbuffer', 'read', 'parse', 'loop', 'loopexit')]


def scan(c, f, st, evl, how, done_before=False):
    """check one run of getbuffer/read/parse events; returns (accepted final, rejected)"""
    buf, rd_, final, rejected, nparse = None, None, False, False, 0
    R = 'each chunk is passed on exactly'
    for e in evl:
        if e[0] == 'getbuffer':
            buf = (e[1], e[2])
        elif e[0] == 'read':
            obj, p, n, v, line = e[1], e[2], e[3], e[4], e[5]
            if final or rejected:
                c.decide(verdict(st, 0), 'nothing after the end', '%s reads on after the final chunk' % f['qual'], c.where(f, line), facts(st))
            if rd_ is not None:
                c.decide(verdict(st, 0), R, '%s reads again although the last chunk was not passed on' % f['qual'], c.where(f, line), facts(st))
            if obj != ('d', T('configured-input')):
                c.decide(verdict(st, 0), R, '%s reads from %s' % (f['qual'], show(obj)), c.where(f, line))
            if buf is not None and p == buf[0]:
                ok = st.decide(mk_le(sub(n, buf[1])))
                c.decide(True if ok == 1 else verdict(st, 0, n), R, 'at most the buffer size is read (%s of %s)' % (show(n), show(buf[1])), c.where(f, line), facts(st))
            rd_ = (p, n, v, line)
        elif e[0] == 'parse':
            nparse += 1
            pbuf, ln, done, acc, line = e[1], e[2], e[3], e[4], e[5]
            if final or rejected:
                c.decide(verdict(st, 0), 'nothing after the end', '%s parses on after %s' % (f['qual'], 'the final chunk' if final else 'the parser reported an error'), c.where(f, line), facts(st))
            if rd_ is None:
                z = zero(st, ln)
                c.decide(True if z == 1 else verdict(st, 0, ln), R, '%s passes on a chunk of %s bytes without having read one' % (f['qual'], show(ln)), c.where(f, line), facts(st))
                d = None
            else:
                p, n, v, _ = rd_
                want = buf[0] if pbuf is None and buf else pbuf
                c.decide(True if want == p else verdict(st, 0, p), R, '%s hands over the buffer that was read into' % f['qual'], c.where(f, line), facts(st))
                ok = same(st, ln, lin(T('gcount', v)))
                c.decide(True if ok == 1 else verdict(st, 0, ln), R, '%s hands over %s bytes after a read of %s' % (f['qual'], show(ln), show(T('gcount', v))), c.where(f, line), facts(st))
                d = st.decide(mk_true(T('eof', v)))
                err = st.decide(mk_true(T('fail', v)))
                bad = st.decide(mk_true(T('bad', v)))
                # a read that failed and reached no end, or of which nothing tells that it did not fail
                if err == 1 and d == 0 or bad == 1:
                    c.decide(verdict(st, 0), 'a failed read is an error', '%s hands over a chunk after a failed read' % f['qual'], c.where(f, line), facts(st))
                z = zero(st, done)
                ok = z is not None and d is not None and (1 - z) == d
                if z == 1 and d == 1:
                    ok = True       # nothing is left: the next chunk is empty and can be the final one
                c.decide(True if ok else verdict(st, 0, done), 'the end is told exactly at the end', '%s marks a chunk %s where the read %s' % (
                    f['qual'], {0: 'final', 1: 'not final', None: 'final or not'}[z], {1: 'reached the end', 0: 'did not reach the end', None: 'was not checked'}[d]), c.where(f, line), facts(st))
            z = zero(st, done)
            if acc:
                final = z == 0
            else:
                rejected = True
            rd_ = None
    return final, rejected, nparse, rd_


def loop(c):
    f, r = rd.read_run(c, merge=False)
    if not any(evs(s, 'parse') for s, v in r.rets):
        if not r.rets and any(e[0] == 'parse' for L in r.loops for it in L.iters for e in L.iter_events(it)) and not any(imprecise(it[2]) for L in r.loops for it in L.iters):
            c.violated('an accepted document is not refused', '%s never returns after reading to the end' % f['qual'], c.where(f))
            return
        raise BrokenAnalysis('no way through %s parses anything' % f['qual'])
    n = 0
    for L in r.loops:
        for it in L.iters:
            evl = [e for e in L.iter_events(it) if e[0] in ('getbuffer', 'read', 'parse')]
            if not evl or L.fn != f['qual'] and not evl:
                continue
            n += 1
            fin, rej, np, pend = scan(c, f, it[2], evl, 'iteration')
            c.decide(True if not fin and not rej and pend is None else verdict(it[2], 0), 'the loop goes on only when more can come',
                     '%s goes round again after %s' % (f['qual'], 'the final chunk' if fin else 'a parse error' if rej else 'a chunk that was not passed on' if pend else 'a chunk'),
                     c.where(f, L.line), facts(it[2]))
    if not n:
        raise BrokenAnalysis('%s has no reading loop' % f['qual'])
    for st, v in r.rets:
        evl = segments(st)
        # only what happened since the last loop head is fixed on this path; what was before is covered by the iterations
        last = max([i for i, e in enumerate(evl) if e[0] == 'loop' and any(x[0] in ('parse', 'read') for x in evl[i:])] or [-1])
        fin, rej, np, pend = scan(c, f, st, evl[last + 1:], 'return')
        ok = fin and not rej and pend is None
        c.decide(True if ok else verdict(st, 0), 'reading ends with the accepted end of the document',
                 '%s returns %s' % (f['qual'], 'after the end was accepted' if ok else 'although the parser rejected the document' if rej else 'without an accepted final chunk'), c.where(f), facts(st))
    k = 0
    for st, et, v in r.throws:
        evl = segments(st)
        last = max([i for i, e in enumerate(evl) if e[0] == 'loop' and any(x[0] in ('parse', 'read') for x in evl[i:])] or [-1])
        fin, rej, np, pend = scan(c, f, st, evl[last + 1:], 'throw')
        k += rej
        c.decide(True if not fin else verdict(st, 0), 'an accepted document is not refused', '%s throws %s' % (f['qual'], et), c.where(f), facts(st))
        if pend is not None:
            # what the read delivered is dropped
            fail, eof, bad = (st.decide(mk_true(T(x, pend[2]))) for x in ('fail', 'eof', 'bad'))
            ok = bad == 1 or fail == 1 and eof == 0
            c.decide(True if ok else verdict(st, 0), 'what was read is passed on', '%s throws %s after a read that %s' % (
                f['qual'], et, 'failed' if ok else 'reached the end' if eof == 1 else 'delivered all it was asked for' if fail == 0 else 'is not known to have failed'), c.where(f, pend[3]), facts(st))
    for st, kind, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), 'no abort', '%s: %s' % (f['qual'], kind), c.where(f, line), facts(st))
    if not k:
        c.violated('a parse error ends the reading', '%s has no exception after a parse error' % f['qual'], c.where(f))


MOVES = {'ignore', 'getline', 'get', 'seekg', 'operator>>', 'unget', 'putback', 'readsome', 'sync'}


def others(c):
    """nothing else takes bytes from the configured input"""
    f = c.need(rd.READ)
    n = 0
    for k in reach(c, [f['key']]):
        g = c.p.functions[k]
        for x in walk(g.get('body')):
            if x['k'] != 'call':
                continue
            name = plain(x.get('n') or '')
            if name == 'std::basic_istream::read':
                n += 1
            last = name.split('::')[-1]
            if last not in MOVES or not (name.startswith('std::basic_istream::') or name in ('std::getline', 'std::operator>>')):
                continue
            on = [y for y in walk(x) if y['k'] == 'call' and plain(y.get('n') or '') == RT + '::GetInStream']
            c.decide(False if on and last == 'ignore' else None, 'every byte goes to the parser', '%s takes bytes from %s with %s' % (
                g['qual'], 'the configured input' if on else 'a stream', last), c.where(g, x.get('l')))
    if n:
        c.held('every byte goes to the parser', 'the input is taken by %d calls of read' % n, c.where(f))


def result(c):
    """what the callbacks collected becomes the list of entries"""
    f, r = rd.read_run(c)
    inp = field(r.this, RT + '::Input')
    for st, v in r.rets:
        now = r.E.load(st, inp)
        want = [e for e in evs(st, 'store', 'swap', 'splice', 'lassign')]
        ok = now[0] == 'L' and not now[1] and not now[3] and now[2] is not None and now[2][0] == 't' and now[2][1] == 'parsed' and now[2][2] == rd.pd_name(c, 'measurements').split('::')[-1]
        c.decide(True if ok else verdict(st, 0, now), 'the entries are what was read', '%s leaves the entries %s' % (f['qual'], show(now)), c.where(f), facts(st))
    for st, et, v in r.throws:
        now = r.E.load(st, inp)
        ok = now == T('init', inp)
        c.decide(True if ok else verdict(st, 0, now), 'a failed reading leaves no entries', '%s leaves the entries %s when it throws' % (f['qual'], show(now)), c.where(f), facts(st))


def whole(t):
    """t is the par 2 bytes at par 1 (the length is converted to an unsigned one, which changes nothing: it is not negative)"""
    if t[:3] != ('t', 'bytes', T('par', 1)):
        return t == T('chars', T('par', 1), lin(T('par', 2)))
    n = t[3]
    return n == lin(T('par', 2)) or n[0] == 'n' and n[1] in (0, 2**64, 2**32) and n[2] == ((T('par', 2), 1),)


def text(c):
    f = rd.handlers(c)['data'][0]
    r = c.analyse(f, setup=rd.handler_setup, hooks=rd.measurement_hooks(c))
    D = rd.pd_field(c, 'data')
    k = 0
    for st, v in r.rets:
        d0 = T('init', D)
        now = r.E.load(st, D)
        dep = st.decide(mk_eq0(sub(T('init', rd.pd_field(c, 'depth')), num(2))))
        piece = T('chars', T('par', 1), lin(T('par', 2)))
        if dep == 1:
            k += 1
            p = catparts(now)
            ok = len(p) == 2 and p[0] == d0 and whole(p[1])
            what = 'appends %s' % show(now)
            cut = [e[1] for e in evs(st, 'ntbs') if contains(e[1], lambda t: t == T('par', 1))]
            if ok and cut:
                ok, what = False, 'appends the piece up to its first zero byte only'
        elif dep == 0:
            ok, what = now == d0, 'ignores text outside measurements'
        else:
            ok, what = False, 'does not distinguish where the text stands'
        c.decide(True if ok else verdict(st, 0, now), 'text belongs to its measurement', '%s %s' % (f['qual'], what), c.where(f), facts(st))
        unchanged(c, f, r, st, ('depth', 'm', 'measurements'))
    if not k:
        raise BrokenAnalysis('text inside a measurement is not handled')


def unchanged(c, f, r, st, roles):
    for role in roles:
        l = rd.pd_field(c, role)
        now = r.E.load(st, l)
        t0 = T('init', l)
        ok = now == t0 or now == ('L', (), t0, ()) or now == lin(t0)
        c.decide(True if ok else verdict(st, 0, now), 'a callback changes only what it should', '%s leaves %s as %s' % (f['qual'], role, show(now)), c.where(f), facts(st))


def end(c):
    f = rd.handlers(c)['end'][0]
    r = c.analyse(f, setup=rd.handler_setup, hooks=rd.measurement_hooks(c))
    D, Mf, dp = rd.pd_field(c, 'data'), rd.pd_field(c, 'm'), rd.pd_field(c, 'depth')
    k = 0
    for st, v in r.rets:
        dep = st.decide(mk_eq0(sub(T('init', dp), num(2))))
        isn = st.decide_null(T('init', Mf))
        sets = [e for e in evs(st, 'setattr') if e[1] in ('content', 'file')]
        nd, now, mm = r.E.load(st, dp, 'int'), r.E.load(st, D), r.E.load(st, Mf)
        ok = same(st, nd, sub(T('init', dp), num(1)))
        c.decide(True if ok == 1 else verdict(st, 0, nd), 'depth follows the elements', '%s changes the depth to %s' % (f['qual'], show(nd)), c.where(f), facts(st))
        if dep == 1:
            ok = now == S('')
            c.decide(True if ok else verdict(st, 0, now), 'the next measurement starts empty', '%s leaves the text %s' % (f['qual'], show(now)), c.where(f), facts(st))
            ok = st.decide_null(mm) == 1
            c.decide(True if ok else verdict(st, 0, mm), 'the next measurement starts afresh', '%s leaves the current measurement %s' % (f['qual'], show(mm)), c.where(f), facts(st))
        if dep == 1 and isn == 0:
            k += 1
            cut = [e for e in evs(st, 'ntbs') if e[1] == T('init', D)]
            ok = len(sets) == 1 and sets[0][2] == ('d', T('init', Mf)) and sets[0][3] == T('init', D) and not cut
            c.decide(True if ok else verdict(st, 0), 'the text becomes the content', '%s sets %s' % (f['qual'], ', '.join('%s of %s to %s' % (e[1], show(e[2]), show(e[3])) for e in sets) or 'no content'),
                     c.where(f), facts(st))
        elif dep is None:
            c.decide(verdict(st, 0), 'the text becomes the content', '%s does not distinguish which element ends' % f['qual'], c.where(f), facts(st))
        else:
            c.decide(True if not sets else verdict(st, 0), 'no content for other elements', '%s sets %d contents' % (f['qual'], len(sets)), c.where(f), facts(st))
    if not k:
        raise BrokenAnalysis('the end of a measurement is not handled')


def start(c):
    f = rd.handlers(c)['start'][0]
    r = c.analyse(f, setup=rd.handler_setup, hooks=rd.measurement_hooks(c))
    dp, D = rd.pd_field(c, 'depth'), rd.pd_field(c, 'data')
    for st, v in r.rets:
        nd = r.E.load(st, dp, 'int')
        ok = same(st, nd, add(T('init', dp), num(1)))
        c.decide(True if ok == 1 else verdict(st, 0, nd), 'depth follows the elements', '%s changes the depth to %s' % (f['qual'], show(nd)), c.where(f), facts(st))
        unchanged(c, f, r, st, ('data', 'measurements'))
