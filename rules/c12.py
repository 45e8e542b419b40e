"""C12 A run releases everything it acquired, exactly once."""
from .common import *
from . import compare as cmp, reader as rd, own
from .c18 import pred_hooks
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
Ownership analysis by abstract interpretation.  The run driver is interpreted from a freshly built object with opening,
finishing and releasing inlined and the argument parser, the writer, the reader and the test body replaced by 'returns or
throws': on every way out every stream that was created must have been released, every pointer member be null and the list of
baseline entries be empty.  The functions that empty a list of owned measurements are solved as loops: each element released
exactly once, from the first to the last, and the list empty afterwards.  The comparison of one measurement is interpreted for
every class that can run tests: the entry taken off the list is released exactly once on every way out, also exceptional ones,
visitors are released, and nothing is used afterwards.  The reader: parser, buffer, the measurement under construction and the
list are released or handed on exactly once on every way out; the parser callbacks keep the invariant that a measurement under
construction exists only inside its element and hand each new measurement on exactly once.  Deleting through a base class
needs a virtual destructor (all delete expressions and owning pointers)."""
ASSUME = ['attribute names in one element are different (XML well-formedness)', 'memory exhaustion is out of scope', 'the test body does not touch the private members']
RULE_RUN = 'a run leaves nothing behind'


def ptr_fields(ck):
    return ['%s::%s' % (RT, f['n']) for f in class_fields(ck, RT) if f['t'].endswith('*')]


def list_fields(ck):
    return ['%s::%s' % (RT, f['n']) for f in class_fields(ck, RT) if 'list<' in f['t'] and '*' in f['t']]


def check(ck):
    ck.need(RT + '::Main')
    tasks = [('run', driver), ('building and destroying', lifetime), ('emptying', emptying), ('reading', reading), ('callbacks', callbacks), ('holder', holder), ('virtual destructors', virtual)]
    for f in cmp.implementations(ck):
        for cls in cmp.runners(ck):
            if ck.p.is_a(cls, f['class']):
                tasks.append(('%s as %s' % (f['qual'], cls), lambda c, f=f, cls=cls: comparison(c, f, cls)))
    ck.run(tasks)


def driver(c):
    ptrs, lsts = ptr_fields(c), list_fields(c)
    if not ptrs or not lsts:
        raise BrokenAnalysis('the run object owns no stream or no list of entries any more')

    def havoc_list(E, st, fr, cc):
        for q in lsts:
            l = field(cc.obj, q)
            if cc.name == RT + '::Test' and own.empty(st, E.load(st, l)) == 1:
                continue    # entries are only taken off
            E.drop_under(st, l)
            st.mem[l] = ('L', (), T('entries', st.fresh()), ())
        if cc.name == RT + '::Test':
            t = T('testret', st.fresh())
            st.iv[t] = (-2**31, 2**31 - 1)
            return [(st, lin(t))]
        return [(st, ('void',))]
    h = throwing([RT + '::' + n for n in ('ParseAndRemoveArguments', 'WriteXMLOutputStart', 'WriteXMLOutputEnd')])
    h.update(throwing([RT + '::ReadXMLInput', RT + '::Test'], then=havoc_list))
    h.update(pred_hooks(c))
    h['fileutil::PathName::SearchPathList'] = cmp.search
    freed = frees(c, lsts)
    for k in freed:
        f = c.p.functions[k]

        def hook(E, st, fr, cc):
            for q in lsts:
                l = field(cc.obj, q)
                E.drop_under(st, l)
                st.mem[l] = ('L', (), None, ())
            return [(st, ('void',))]
        h[k] = hook
    f = c.need(RT + '::Main')

    def setup(E, st, this, vals):
        st.typ[this] = frozenset([RT])
        for q in ptrs:
            st.mem[field(this, q)] = NULL
        for q in lsts:
            st.mem[field(this, q)] = ('L', (), None, ())
    r = c.analyse(f, hooks=h, setup=setup, maxsteps=4000000)
    w = c.where(f)
    own.clean(c, RULE_RUN, r, 'Main', w)
    opened = 0
    for st, val, how in [(s, v, 'returns') for s, v in r.rets] + [(s, v, 'throws') for s, t, v in r.throws]:
        opened += bool(evs(st, 'new'))
        for q in ptrs:
            v = r.E.load(st, field(r.this, q))
            d = st.decide_null(v)
            c.decide(True if d == 1 else verdict(st, 0, v), RULE_RUN, 'Main %s with %s %s' % (how, q.split('::')[-1], 'null' if d == 1 else 'still set'), w, facts(st))
        for q in lsts:
            v = r.E.load(st, field(r.this, q))
            e = own.empty(st, v)
            c.decide(True if e == 1 else verdict(st, 0, v), RULE_RUN, 'Main %s with %s' % (how, 'no baseline entry left' if e == 1 else 'baseline entries left'), w, facts(st))
    if not opened:
        raise BrokenAnalysis('no stream is ever opened')


def frees(c, lsts):
    """functions of the run class that release the whole list (and nothing that the driver analysis needs to see)"""
    out = []
    for f in c.p.functions.values():
        if f.get('class') != RT or f['kind'] in ('ctor', 'dtor') or f['params'] or 'body' not in f:
            continue
        if any(field_writes(f, q) for q in lsts) and any(n['k'] == 'del' for n in walk(f['body'])) and not any(field_writes(f, q) for q in ptr_fields(c)):
            out.append(f['key'])
    return out


def emptying(c):
    n = 0
    for k in frees(c, list_fields(c)):
        f = c.p.functions[k]
        r = c.analyse(f)
        n += 1
        for st, v in r.rets:
            for q in list_fields(c):
                l = field(r.this, q)
                init = T('init', l)
                ok, why = own.drained(r, st, init)
                c.decide(None if ok is None else bool(ok), 'every entry is released once', '%s: %s' % (f['qual'], why), c.where(f), facts(st))
                now = r.E.load(st, l)
                e = own.empty(st, now)
                c.decide(True if e == 1 else verdict(st, 0, now), 'every entry is released once', '%s leaves the list %s' % (f['qual'], 'empty' if e == 1 else 'with released entries'), c.where(f), facts(st))
        own.clean(c, 'every entry is released once', r, f['qual'], c.where(f))
    if not n:
        c.undecided('every entry is released once', 'no function that releases the entries was found')


def lifetime(c):
    for f in c.p.functions.values():
        if f.get('class') != RT or f['kind'] not in ('ctor', 'dtor') or 'body' not in f:
            continue
        if f['kind'] == 'ctor':
            if f['params']:
                continue
            r = c.analyse(f)
            for st, v in r.rets:
                for q in ptr_fields(c):
                    x = r.E.load(st, field(r.this, q))
                    c.decide(True if st.decide_null(x) == 1 else verdict(st, 0, x), 'built and destroyed', 'a new object has %s %s' % (q.split('::')[-1], show(x)), c.where(f))
            continue
        r = c.analyse(f)
        own.clean(c, 'built and destroyed', r, 'the destructor', c.where(f))
        for st, v in r.rets:
            for q in ptr_fields(c):
                x = T('init', field(r.this, q))
                n = own.released(st, x)
                ok = n == 1 or (n == 0 and st.decide_null(x) == 1)
                c.decide(True if ok else verdict(st, 0), 'built and destroyed', 'the destructor releases %s %s' % (q.split('::')[-1], 'once if it is set' if ok else '%d times' % n), c.where(f), facts(st))
            for q in list_fields(c):
                ok, why = own.drained(r, st, T('init', field(r.this, q)))
                c.decide(None if ok is None else bool(ok), 'built and destroyed', 'the destructor: %s' % why, c.where(f), facts(st))


def comparison(c, f, cls):
    r = cmp.run(c, f, cls)
    front = T('front', cmp.TAIL0)
    what = 'as %s: %s' % (cls.split('::')[-1], f['name'])
    w = c.where(f)
    rule = 'the entry compared is released once'
    own.clean(c, rule, r, what, w)
    for st, val, how in [(s, v, 'returns') for s, v in r.rets] + [(s, v, 'throws') for s, t, v in r.throws]:
        now = r.E.load(st, field(r.this, cmp.INPUT))
        untouched = now in own.lists(cmp.TAIL0)
        n = own.released(st, front)
        ok = n == (0 if untouched else 1)
        if not untouched and own.empty(st, now) != 1 and now not in own.lists(T('tail', cmp.TAIL0)):
            ok = None
        c.decide(ok if ok is None else True if ok else verdict(st, 0, now), rule, '%s %s: the first entry is %s and released %d times' % (what, how, 'kept' if untouched else 'taken off', n), w, facts(st))


def reading(c):
    last = {}

    def parse(E, st, fr, cc):
        outs = c._rd_parse(E, st, fr, cc)
        for s, v in outs:
            for u in c._rd_box.get('user', ()):
                if u[0] == 'p':
                    s.emit('pdnow', E.load(s, field(u[1], rd.pd_name(c, 'm'))), E.load(s, field(u[1], rd.pd_name(c, 'measurements'))))
        return outs
    box = {}
    h = rd.xml_hooks(c, box)
    c._rd_box, c._rd_parse = box, h['XML_Parse']
    h['XML_Parse'] = h['XML_ParseBuffer'] = parse
    h.update(cmp.attr_hooks(c))
    h[RT + '::GetInStream'] = rd.instream
    f = c.need(rd.READ)
    r = c.analyse(f, hooks=h, merge=False)
    w = c.where(f)
    rule = 'the reader releases or hands on'
    own.clean(c, rule, r, 'ReadXMLInput', w)
    if not any(evs(st, 'new') for st, v in r.rets):
        raise BrokenAnalysis('no parser is created')
    for st, val, how in [(s, v, 'returns') for s, v in r.rets] + [(s, v, 'throws') for s, t, v in r.throws]:
        for e in evs(st, 'useafter'):
            c.decide(verdict(st, 0), rule, 'ReadXMLInput calls %s on a released parser' % e[1], w, facts(st))
        pn = evs(st, 'pdnow')
        if not pn:
            continue
        m, L = pn[-1][1], pn[-1][2]
        n = own.released(st, m)
        ok = n == 1 or (n == 0 and (st.decide_null(m) == 1))
        c.decide(True if ok else verdict(st, 0), rule, 'ReadXMLInput %s: a measurement still under construction is released %s' % (how, 'once' if ok else '%d times' % n), w, facts(st))
        if L[0] == 'L' and not L[1] and not L[3]:
            L = L[2]
        kept = [q for q in list_fields(c) if contains(r.E.load(st, field(r.this, q)), lambda t: t == L)]
        d, why = own.drained(r, st, L) if L is not None else (1, 'empty')
        if how == 'returns':
            c.decide(True if kept else verdict(st, 0), rule, 'ReadXMLInput hands the measurements %s' % ('on' if kept else 'not on'), w, facts(st))
            c.decide(None if d is None else (d == 0 or own.empty(st, L) == 1), rule, 'ReadXMLInput returns: of the measurements handed on, %s' % why, w, facts(st))
        else:
            if kept:
                c.decide(None if d is None else d == 0, rule, 'ReadXMLInput throws with the measurements handed on; %s' % why, w, facts(st))
            else:
                c.decide(None if d is None else bool(d), rule, 'ReadXMLInput throws: of the measurements read, %s' % why, w, facts(st))


def holder(c):
    """the user data of the callbacks starts empty"""
    cls = rd.pd_class(c)
    for f in c.p.functions.values():
        if f.get('class') == cls and f['kind'] == 'ctor' and not f['params']:
            r = c.analyse(f)
            for st, v in r.rets:
                x = r.E.load(st, field(r.this, rd.pd_name(c, 'm')))
                c.decide(True if st.decide_null(x) == 1 else verdict(st, 0, x), 'the callbacks hand each measurement on', 'reading starts with %s under construction' % show(x), c.where(f))


def callbacks(c):
    hs = rd.handlers(c)
    rule = 'the callbacks hand each measurement on'
    mloc, dloc, lloc = rd.pd_field(c, 'm'), rd.pd_field(c, 'depth'), rd.pd_field(c, 'measurements')
    m0, d0, l0 = T('init', mloc), T('init', dloc), T('init', lloc)
    for which in ('start', 'end', 'data'):
        for f in hs[which]:
            for inside in (True, False):
                def setup(E, st, this, vals):
                    rd.handler_setup(E, st, this, vals)
                    # invariant: a measurement is under construction only inside an element of the document element
                    if inside:
                        st.assume(mk_le(sub(num(2), lin(d0))))
                    else:
                        st.assume(mk_le(sub(lin(d0), num(1))))
                        st.assume(mk_null(m0))
                r = c.analyse(f, setup=setup, hooks=rd.measurement_hooks(c))
                w = c.where(f)
                pos = 'inside a measurement' if inside else 'outside of measurements'
                for st, v in r.rets:
                    x = own.leaked(st, v)
                    y = own.lost(st, v)
                    c.decide(True if not x and not y else verdict(st, 0), rule, 'the %s callback %s %s' % (which, pos, 'keeps what it creates' if not x and not y else 'drops ' + ', '.join([own.describe(st, l) for l in x] + ['what the loop in line %s created' % L.line for L, p in y])), w, facts(st))
                    now = r.E.load(st, mloc)
                    ls = r.E.load(st, lloc)
                    dep = r.E.load(st, dloc, 'int')
                    listed = (ls[0] == 'L' and (list(ls[3]).count(m0) + list(ls[1]).count(m0))) or 0
                    n = (now == m0) + listed + own.released(st, m0)
                    ok = n == 1 or st.decide_null(m0) == 1
                    c.decide(True if ok else verdict(st, 0, now, ls), rule, 'the %s callback %s leaves the measurement under construction owned %s' % (which, pos, 'once' if ok else '%d times' % n), w, facts(st))
                    base = ls in own.lists(l0) or (ls[0] == 'L' and ls[2] == l0)
                    c.decide(True if base else verdict(st, 0, ls), rule, 'the %s callback keeps the measurements that are complete' % which, w, facts(st))
                    # invariant afterwards
                    shallow = st.decide(mk_le(sub(lin(dep), num(1))))
                    isnull = st.decide_null(now)
                    ok = isnull == 1 or shallow == 0
                    c.decide(True if ok else verdict(st, 0, now, dep), rule, 'after the %s callback %s a measurement is under construction only inside its element' % (which, pos), w, facts(st))
                for L in r.loops:
                    for it, phi in own.overwritten(L):
                        once = any(a[0] == 'eq' and v and any(x[0] == 's' for x in a[1:3]) and any(contains(x, lambda t: t[:2] == ('t', 'cell')) for x in a[1:3]) for a, v in it[2].facts.items())
                        c.decide(True if once else verdict(it[2], 0), rule, 'the loop of the %s callback in line %s creates a measurement %s' % (which, L.line, 'for one attribute name only' if once else 'in more than one iteration and drops the former'), w, facts(it[2]))
                for a in r.aborts:
                    if a[1] in own.BADABORT:
                        c.decide(None if a[0].unk else False, rule, 'the %s callback: something %s' % (which, own.BADABORT[a[1]]), '%s line %s' % (w, a[3]), facts(a[0]))


def virtual(c):
    n = 0
    todo = []
    for f in c.p.functions.values():
        for x in walk([f.get('body'), [i.get('e') for i in f.get('inits', [])]]):
            if x['k'] == 'del' and x.get('c') in c.p.classes:
                todo.append((x['c'], c.where(f, x.get('l')), 'delete in ' + f['qual']))
            if x['k'] == 'decl':
                for v in x['v']:
                    for k in ('unique_ptr<', 'auto_ptr<', 'shared_ptr<'):
                        t = v.get('t', '')
                        if k in t:
                            k2 = t.split(k, 1)[1].split(',')[0].strip('> ')
                            if k2 in c.p.classes:
                                todo.append((k2, c.where(f, x.get('l')), 'owning pointer in ' + f['qual']))
    for cls, w, what in todo:
        if len(c.p.derived(cls)) < 2 or not c.p.classes[cls].get('root'):
            continue
        d = c.p.classes[cls].get('dtor')
        ms = [m for m in c.p.classes[cls].get('methods', []) if m['n'].startswith('~')]
        v = any(m.get('virt') for m in ms) or (d in c.p.functions and c.p.functions[d].get('virt'))
        n += 1
        c.decide(bool(v), 'released through the base class', '%s of %s, whose destructor is %svirtual' % (what, cls, '' if v else 'not '), w)
    if not n:
        c.undecided('released through the base class', 'nothing is released through a base class')
