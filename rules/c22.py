"""C22 All results go to the configured output."""
from .common import *
from . import compare as cmp, measure as me, c08
from sa.models import catparts
from sa import export

UNITS = export.CORE + export.ITK + ['PipeToXML']
EXPLAIN = """
Provenance: for every place in a test class or visitor (or a function they reach) where a measurement is printed, and every place
where a stream is handed to a function of the framework, the stream expression is traced back through casts, chained insertions,
references, pointers, local variables, return values and parameters (to all callers) to where it comes from; the origin must be
the test's GetOutStream, the visitor's stream or a text buffer, never a global or local file stream.  The two getters are
interpreted: the configured stream if there is one and standard output otherwise, and the stream the visitor was given.  The
comparison is interpreted with every measurement class: at each visit of a difference visitor the visitor holds the configured output.
The run driver is interpreted with the getters as they are: while the test body runs the open output is a stream made from the
configured file name exactly if one is set, what the driver itself writes goes there, and a comparing run writes neither start nor end."""
ASSUME = ['insertions return the stream they write to']

RULEP = 'measurements are printed to the configured output'
RULEH = 'helpers are handed the configured output'
RULED = 'content of measurements is not written elsewhere'
RULEG = 'the output is the configured file or standard output'
RULEV = 'the visitor writes where it was told to'
RULEB = 'the difference visitor is told before it is used'
RULEM = 'header and trailer go with the results'
RULER = 'header and trailer in record mode only'
OS = RT + '::os'
OUTNAME = RT + '::outFileName'
PNAME = 'fileutil::PathName::pathName'
VIS = 'testutil::MeasurementVisitor'
OST = 'std::basic_ostream<char>'


def check(ck):
    ck.need(RT + '::GetOutStream')
    ck.need(cmp.DV + '::GetOutStream')
    ck.need(cmp.DV + '::SetOutStream')
    ck.run([('provenance', provenance), ('getters', getters), ('driver', driver)] +
           [('comparison %s %s' % (f['qual'], f['class']), lambda c, f=f: comparison(c, f)) for f in cmp.implementations(ck)], timeout=500)


# ------------------------------------------------------------------ where streams come from

def is_stream(t):
    return bool(t) and ('basic_ostream' in t or 'basic_ofstream' in t or 'basic_ostringstream' in t or 'basic_stringstream' in t or 'basic_iostream' in t or 'basic_fstream' in t or t in ('std::ostream',))


def etype(e):
    return e.get('c') or e.get('t') or e.get('rt') or ''


class Streams:
    def __init__(self, ck):
        self.ck, self.p = ck, ck.p
        self.getters = set()
        for f in self.p.functions.values():
            if f['name'] == 'GetOutStream' and f.get('class') and (self.p.is_a(f['class'], RT) or self.p.is_a(f['class'], VIS)):
                self.getters.add(f['key'] if 'key' in f else None)
        self.keys = {id(f): k for k, f in self.p.functions.items()}
        self.getters = {k for k, f in self.p.functions.items() if f['name'] == 'GetOutStream' and f.get('class') and (self.p.is_a(f['class'], RT) or self.p.is_a(f['class'], VIS))}
        self.calls = {}
        for k, f in self.p.functions.items():
            if 'body' not in f:
                continue
            for n in walk([f['body'], [i.get('e') for i in f.get('inits', [])]]):
                if n['k'] in ('call', 'ctor') and n.get('f'):
                    self.calls.setdefault(n['f'], []).append((f, n))
        self.defs = {}

    def key(self, f):
        return self.keys[id(f)]

    def defined(self, f):
        """variable id -> expressions bound or assigned to it in f"""
        k = self.key(f)
        if k not in self.defs:
            d = {}
            for n in walk(f['body']):
                if n['k'] == 'decl':
                    for v in n['v']:
                        d.setdefault(v.get('id'), []).append(('decl', v))
                elif n['k'] == 'asg' and strip(n['a']).get('k') == 'var':
                    d.setdefault(strip(n['a']).get('id'), []).append(('asg', n['b']))
            self.defs[k] = d
        return self.defs[k]

    def origin(self, f, e, depth=0):
        """set of (kind, text) a stream expression (or pointer to one) may denote"""
        if depth > 12 or not isinstance(e, dict):
            return {('unknown', '')}
        e = strip(e)
        k = e.get('k')
        go = lambda x: self.origin(f, x, depth + 1)
        if k == 'cast':
            return go(e['e'])
        if k == 'un' and e.get('op') in ('*', '&'):
            return go(e['e'])
        if k == 'cond':
            return go(e.get('a')) | go(e.get('b'))
        if k == 'bin' and e.get('op') == ',':
            return go(e['b'])
        if k == 'var':
            if e.get('g') or 'std::c' in str(e.get('n')):
                return {('global', str(e.get('n')))}
            for i, prm in enumerate(f.get('params', [])):
                if prm.get('id') == e.get('id') and prm.get('n') == e.get('n'):
                    return {('param', str(i))}
            ds = self.defined(f).get(e.get('id'), [])
            out = set()
            for kind, v in ds:
                if kind == 'asg':
                    out |= go(v)
                    continue
                t = v.get('t', '')
                if t.endswith('&') or t.endswith('*'):
                    if isinstance(v.get('init'), dict):
                        out |= go(v['init'])
                elif 'stringstream' in t:
                    out.add(('buffer', v.get('n', '')))
                elif 'fstream' in t or 'basic_ostream' in t:
                    out.add(('file', v.get('n', '')))
                elif isinstance(v.get('init'), dict):
                    out |= go(v['init'])
            return out or {('unknown', str(e.get('n')))}
        if k == 'mem':
            return {('field', '%s::%s' % (e.get('fc'), e.get('n')))}
        if k == 'new':
            return {('file', 'new')}
        if k == 'call':
            if e.get('f') in self.getters:
                return {('configured', e['n'])}
            g = self.p.functions.get(e.get('f'))
            if g is None:
                for x in ([e['obj']] if isinstance(e.get('obj'), dict) else []) + e.get('a', []):
                    if isinstance(x, dict) and is_stream(etype(strip(x))) or is_stream(str(x.get('t'))):
                        return go(x)
                return {('unknown', str(e.get('n')))}
            out = set()
            ps = g.get('params', [])
            for n in walk(g['body']):
                if n['k'] == 'ret' and isinstance(n.get('e'), dict):
                    for kind, t in self.origin(g, n['e'], depth + 1):
                        if kind == 'param' and int(t) < len(e.get('a', [])):
                            out |= go(e['a'][int(t)])
                        else:
                            out.add((kind, t))
            return out or {('unknown', str(e.get('n')))}
        return {('unknown', str(k))}

    def overridden(self, f):
        """keys through which f may be called"""
        k = self.key(f)
        out = {k}
        if f.get('virt') and f.get('class'):
            for k2, g in self.p.functions.items():
                if g['name'] == f['name'] and g.get('class') and g['class'] != f['class'] and self.p.is_a(f['class'], g['class']) and len(g.get('params', [])) == len(f.get('params', [])) and \
                        [x.get('t') for x in g['params']] == [x.get('t') for x in f['params']]:
                    out.add(k2)
        return out

    def resolved(self, f, e, seen=()):
        """origins with parameters traced to every caller: [(function, line, kind, text)]"""
        out = []
        for kind, t in self.origin(f, e):
            if kind != 'param':
                out.append((f, e.get('l'), kind, t))
                continue
            if (id(f), t) in seen:
                continue
            for k in self.overridden(f):
                for g, n in self.calls.get(k, []):
                    if int(t) < len(n.get('a', [])):
                        out += self.resolved(g, n['a'][int(t)], seen + ((id(f), t),))
        return out


def in_scope(ck):
    """methods of test classes and visitors and all they reach"""
    roots = [k for k, f in ck.p.functions.items() if f.get('class') and (ck.p.is_a(f['class'], RT) or ck.p.is_a(f['class'], VIS))]
    return roots, reach(ck, roots)


def provenance(c):
    S_ = Streams(c)
    roots, keys = in_scope(c)
    n = {'printing places': 0, 'streams handed over': 0}

    def judge(rule, what, f, e, line, own=True):
        for g, l, kind, t in S_.resolved(f, e):
            at = c.where(g, l or line)
            if kind == 'configured' or kind == 'buffer' and own:
                c.held(rule, '%s: %s' % (what, t), at)
            elif kind == 'global' and g['qual'] in (RT + '::GetOutStream',) or kind == 'field':
                c.decide(True if t == cmp.DV + '::os' else None, rule, '%s: member %s' % (what, t), at)
            elif kind == 'global' and any(x[2] in ('field', 'unknown') for x in S_.resolved(f, e)):
                c.undecided(rule, '%s: %s under a condition' % (what, t), at)
            elif kind in ('global', 'file'):
                c.violated(rule, '%s: the stream is %s, not the configured output' % (what, t if kind == 'global' else 'the file stream "%s"' % t), at)
            else:
                c.undecided(rule, '%s: the stream comes from %s' % (what, t), at)
    for k in sorted(keys):
        f = c.p.functions[k]
        if 'body' not in f or k in S_.getters:
            continue
        inner = f['name'] in ('operator<<', 'Print') or f.get('class') and c.p.is_a(f['class'], me.M)
        for x in walk(f['body']):
            if x['k'] == 'call' and x.get('f') in c.p.functions or x['k'] == 'call' and x.get('mc') and c.p.is_a(x['mc'], me.M):
                g = c.p.functions.get(x.get('f'), {})
                prints = x['n'] == 'testutil::operator<<' and len(x['a']) == 2 and c.p.is_a(str(strip(x['a'][1]).get('c', '')), me.M) or \
                    x.get('mc') and c.p.is_a(x['mc'], me.M) and x['n'].split('::')[-1] == 'Print'
                if prints and not inner:
                    n['printing places'] += 1
                    judge(RULEP, '%s prints a measurement' % f['qual'], f, x['a'][0], x.get('l'))
                elif not inner and x.get('f') not in S_.getters:
                    for i, prm in enumerate(g.get('params', [])):
                        if i < len(x['a']) and is_stream(prm.get('t')) and prm['t'].endswith(('&', '*')) and not prm['t'].startswith('const') and g['name'] != 'operator<<':
                            n['streams handed over'] += 1
                            judge(RULEH, '%s calls %s' % (f['qual'], g['qual']), f, x['a'][i], x.get('l'), own=g['name'] != 'SetOutStream')
            if x['k'] == 'call' and x['n'].split('::')[-1] == 'operator<<' and not x['n'].startswith('testutil') and k in roots:
                a = ([x['obj']] if isinstance(x.get('obj'), dict) else []) + x.get('a', [])
                if len(a) > 1 and any(y['k'] == 'call' and y.get('mc') and c.p.is_a(y['mc'], me.M) and y['n'].split('::')[-1] == 'GetContent' for y in walk(a[1])):
                    o = S_.resolved(f, a[0])
                    if any(kind == 'global' and t.endswith('cout') for _, _, kind, t in o):
                        c.decide(False if all(kind in ('global', 'configured') for _, _, kind, t in o) else None, RULED, '%s writes the content of a measurement to %s' % (f['qual'], o[0][3]), c.where(f, x.get('l')))
                    else:
                        c.held(RULED, '%s writes content to %s' % (f['qual'], o[0][3] if o else '?'), c.where(f, x.get('l')))
    for a, b in n.items():
        c.count(a, b)
    if not n['printing places']:
        raise BrokenAnalysis('no place where a measurement is printed was found')


# ------------------------------------------------------------------ the getters

def getters(c):
    for f in [g for g in c.p.functions.values() if g['name'] == 'GetOutStream' and g.get('class') and c.p.is_a(g['class'], RT)]:
        r = c.analyse(f)
        w = c.where(f)
        mine = field(r.this, OS)
        for st, v in r.rets:
            o = r.E.load(st, mine)
            null = st.decide_null(o)
            l = v[1] if v[0] in 'lp' else None
            if null == 1:
                ok = l == ('g', 'std::cout')
                c.decide(True if ok else verdict(st, 0, v), RULEG, '%s: no file set, the output is %s' % (f['qual'], show(v)), w, facts(st))
            elif null == 0:
                ok = l is not None and deref(o) == l
                c.decide(True if ok else verdict(st, 0, v), RULEG, '%s: a file is set, the output is %s' % (f['qual'], 'it' if ok else show(v)), w, facts(st))
            else:
                c.decide(verdict(st, 0, v), RULEG, '%s gives %s whether a file is set or not' % (f['qual'], show(v)), w, facts(st))
    for f in [g for g in c.p.functions.values() if g['name'] == 'GetOutStream' and g.get('class') and c.p.is_a(g['class'], VIS)]:
        setter = [g for g in c.p.functions.values() if g['name'] == 'SetOutStream' and g.get('class') and c.p.is_a(f['class'], g['class'])]
        for s in setter:
            told = ('d', T('told'))

            def setup(E, st, this, vals):
                return None
            r = c.analyse(s)
            w = c.where(s)
            for st, v in r.rets:
                given = ('d', T('par', 0))
                fs = [l for l, x in st.mem.items() if l[0] == 'f' and l[1] == r.this and deref(x) == given]
                if len(fs) != 1:
                    c.decide(verdict(st, 0), RULEV, '%s keeps the stream in %d members' % (s['qual'], len(fs)), w, facts(st))
                    continue
                q = fs[0][2]
                c.held(RULEV, '%s keeps the stream' % s['qual'], w)
                r2 = c.analyse(f, setup=lambda E, st, this, vals: st.mem.__setitem__(field(this, q), T('told')))
                for st2, v2 in r2.rets:
                    ok = v2[0] in 'lp' and v2[1] == told
                    c.decide(True if ok else verdict(st2, 0, v2), RULEV, '%s gives %s' % (f['qual'], 'the stream that was set' if ok else show(v2)), c.where(f), facts(st2))


def deref(o):
    if o[0] in ('p', 'l'):
        return o[1]
    return ('d', o)


# ------------------------------------------------------------------ the difference visitor

def comparison(c, f):
    r = cmp.run(c, f)
    w = c.where(f)
    seen = 0
    OUT = ('d', T('configured-output'))
    for st in [s for s, *_ in r.rets] + [s for s, *_ in r.throws]:
        for e in evs(st, 'accept'):
            if e[1] != 'difference':
                continue
            seen += 1
            held = [v for q, v in e[4] if deref(v) == OUT]
            st_ = [v for q, v in e[4] if q == cmp.DV + '::os']
            ok = bool(held)
            c.decide(True if ok else verdict(st, 0), RULEB, '%s: the difference visitor %s' % (f['qual'], 'holds the configured output' if ok else 'is used with the output %s' % (show(st_[0]) if st_ else 'not set')), c.where(f, e[6]), facts(st))
    if not seen:
        c.undecided(RULEB, '%s: no visit of a difference visitor is found' % f['qual'], w)


# ------------------------------------------------------------------ the driver

def driver(c):
    f, r = c08.run(c, real=True)
    w = c.where(f)
    n = {'with a file': 0, 'without': 0}
    for st, v in r.rets:
        evl = evs(st, 'out', 'body', 'reading', 'open')
        b = [i for i, e in enumerate(evl) if e[0] == 'body']
        if len(b) != 1 or evs(st, 'throw', 'stepthrow'):
            continue
        name = T('init', field(field(r.this, OUTNAME), PNAME))
        empty = st.decide_eq(name, S(''))
        e = evl[b[0]]
        o = e[1]
        null = st.decide_null(o)
        comparing = any(x[0] == 'reading' for x in evl)
        if empty is None:
            c.decide(None if st.unk else None, RULEG, 'the run does not ask whether an output file is set', w, facts(st))
            continue
        if empty == 1:
            n['without'] += 1
            c.decide(True if null == 1 else verdict(st, 0, o), RULEG, 'no file is set: the test body runs with %s' % ('standard output' if null == 1 else show(o)), w, facts(st))
        else:
            n['with a file'] += 1
            loc = deref(o) if null != 1 else None
            ops = [x for x in evl[:b[0]] if x[0] == 'open' and x[1] == loc]
            ok = null == 0 and len(ops) == 1 and native(ops[0][3], name)
            c.decide(True if ok else None if null is None else verdict(st, 0, o, *([ops[0][3]] if ops else [])), RULEG, 'a file is set: the test body runs with %s' % (
                'a stream opened on it' if ok else 'standard output' if null == 1 else 'a stream opened on %s' % (show(ops[0][3]) if ops else '?')), w, facts(st))
        for i, x in enumerate(evl):
            if x[0] != 'out':
                continue
            to = x[1]
            ok = to == (('g', 'std::cout') if empty == 1 else deref(o))
            if to == ('g', 'std::cerr'):
                continue
            c.decide(True if ok else verdict(st, 0), RULEM, 'the run writes %r %s' % (piece(x[2]), 'to the output' if ok else 'to %s' % show(to)), c.where(c.p.fn(x[4]) if c.p.fn(x[4]) else f, x[3]) if False else w, facts(st))
            if comparing:
                c.decide(verdict(st, 0), RULER, 'a comparing run writes %r' % piece(x[2]), w, facts(st))
        if comparing and not any(x[0] == 'out' for x in evl):
            c.held(RULER, 'a comparing run writes nothing of its own', w)
    for a, x in n.items():
        c.count('runs ' + a, x)
        if not x:
            c.undecided(RULEG, 'no completed run %s was found' % a, w)


def native(v, name):
    """is v the configured name?"""
    return v == name or v[0] == 't' and v[1] in ('native', 'cstr') and native(v[2], name)


def piece(v):
    return ''.join(p[1] if p[0] == 's' else '?' for p in catparts(v))[:40]
