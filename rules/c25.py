"""C25 Composite measurements cover every component exactly once."""
import re
from .common import *
from .own import loops_on
from sa.models import catparts
from sa import export, engine

UNITS = export.CORE + export.ITK
WITNESS = 'c25.cpp'
REG = 'itk::Regression'
PRE = REG + '::MeasurementInsight'
KINDS = ('Size', 'Index', 'Region', 'Point', 'Vector', 'FixedArray', 'Matrix')
SCALARS = ('MeasurementNumericInteger', 'MeasurementNumericFloat', 'MeasurementNumericDouble', 'MeasurementNumericBoolean')
EXPLAIN = """
A witness file instantiates every composite measurement for a range of dimensions and component types.  Each instance is interpreted
abstractly on all its paths with the recording of one scalar replaced by an event (value, name, flag) whose result is an unknown
non-negative number, and the components of the toolkit types by memory cells.  The events of a path have to be the components 0, 1, ...
in order, each once, the value being that cell without a narrowing conversion, the name the given name followed by text that ends in the
position and is found nowhere else in the composite, and the flag the caller's.  The result has to be a sum (or a bitwise or, or a
flag decided by the results) of which every recorded result is a part and nothing else."""
ASSUME = ['sizes fit into a signed long, the type the framework records', 'recording a scalar returns 0 or a positive number', "the toolkit's element access returns the element asked for",
          'the templates have no specialisations other than those the witness file names (checked: all instances come from one definition)']

RULE = 'every component is recorded once'
RULEV = 'a component is recorded with its value'
RULEN = 'a name ends in the position'
RULEF = 'the tolerance flag is handed on'
RULER = 'the result is zero exactly when all results are'


def check(ck):
    fs = {}
    for k, f in sorted(ck.p.functions.items()):
        if f['qual'].startswith(PRE) and f['qual'][len(PRE):] in KINDS and 'body' in f:
            fs.setdefault(f['qual'][len(PRE):], []).append(f)
    for k in KINDS:
        if k not in fs:
            raise BrokenAnalysis('no instance of %s%s' % (PRE, k))
        ls = {(f['file'], f['line']) for f in fs[k]}
        if len(ls) > 1:
            ck.undecided(RULE, '%d definitions of the measurement of a %s' % (len(ls), k), ck.where(fs[k][0]))
    ck.run([(k, lambda c, k=k: [one(c, k, f) for f in fs[k]]) for k in KINDS], timeout=200)


def dims(f):
    m = re.search(r'MeasurementInsight[A-Za-z]+I(.*?)EEi', f['key'])
    return [int(x) for x in re.findall(r'Lj(\d+)', m.group(1))] if m else []


def element(E, st, fr, c):
    """v[i]"""
    i = st.norm(lin(c.args[0]))
    if not isnum(i):
        return E.external(c.e, c.name, st, fr, c.obj, c.args, c.dest)
    l = at(c.obj, i[1])
    if 'Size' in c.name:
        st.assume(mk_le(sub(lin(T('init', l)), num(2**63 - 1))))
    return [(st, ('l', l))]


def at(obj, i):
    return ('f', obj, 'at%d' % i)


def row(E, st, fr, c):
    i = st.norm(lin(c.args[0]))
    if not isnum(i):
        return E.external(c.e, c.name, st, fr, c.obj, c.args, c.dest)
    return [(st, ('p', ('e', at(c.obj, i[1]), num(0))))]


def entry(E, st, fr, c):
    i, j = st.norm(lin(c.args[0])), st.norm(lin(c.args[1]))
    if not isnum(i):
        return E.external(c.e, c.name, st, fr, c.obj, c.args, c.dest)
    return [(st, ('l', ('e', at(c.obj, i[1]), j)))]


def part(name):
    def get(E, st, fr, c):
        l = ('f', c.obj, name)
        if c.args:
            i = st.norm(lin(c.args[0]))
            if not isnum(i):
                return E.external(c.e, c.name, st, fr, c.obj, c.args, c.dest)
            if name == 'size':
                st.assume(mk_le(sub(lin(T('init', at(l, i[1]))), num(2**63 - 1))))
            return [(st, lin(T('init', at(l, i[1]))))]
        return [(st, ('l', l))]
    return get


def hooks(c):
    h = {}
    for q in ('itk::Size', 'itk::Index', 'itk::FixedArray', 'itk::Vector', 'itk::Point', 'itk::Offset'):
        h[q + '::operator[]'] = element
        h[q + '::GetElement'] = element
    h['itk::Matrix::operator[]'] = row
    h['itk::Matrix::operator()'] = entry
    h['itk::ImageRegion::GetIndex'] = part('index')
    h['itk::ImageRegion::GetSize'] = part('size')

    def record(E, st, fr, cc):
        r = T('result', st.fresh())
        n = cc.args[1]
        n = st.mem.get(n[1]) if n[0] in ('o', 'l', 'p') else n
        if n is None:
            n = E.load(st, cc.args[1][1])
        st.emit('recorded', cc.name.split('::')[-1], cc.args[0], n, cc.args[2], r, cc.line)
        st.assume(mk_le(sub(num(0), lin(r))))
        return [(st, lin(r))]
    for s in SCALARS:
        h[REG + '::' + s] = record
        h[RT + '::' + s] = record
        h['virtual:' + RT + '::' + s] = record
    return h


def one(c, kind, f):
    d = dims(f)
    w = c.where(f)
    if not d:
        c.undecided(RULE, 'the dimension of %s is not known' % f['key'], w)
        return
    tag = '%s of %s %s' % (kind.lower(), ' x '.join(map(str, d)), '')
    tag = tag.strip()
    try:
        r = c.analyse(f, hooks=hooks(c), merge=False, maxsteps=400000)
    except (engine.TooBig, RecursionError):
        c.undecided(RULE, 'a %s is too large for the analysis' % tag, w)
        return
    par = ('d', T('par', 0))
    want = []
    if kind == 'Matrix':
        want = [(('e', at(par, i), num(j)), '%d_%d' % (i, j)) for i in range(d[0]) for j in range(d[-1])]
    elif kind == 'Region':
        want = [(at(('f', par, p), i), str(i)) for p in ('index', 'size') for i in range(d[0])]
    else:
        want = [(at(par, i), str(i)) for i in range(d[0])]
    npaths = 0
    for st, v in r.rets:
        npaths += 1
        path(c, f, kind, tag, want, st, v, w)
    if not r.rets:
        c.decide(None, RULE, 'a %s never returns' % tag, w)
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), RULE, 'a %s: %s' % (tag, k), c.where(f, line), facts(st))
    c.count('instances', 1)
    c.count('components', len(want))
    c.count('paths', npaths)


def cell(v):
    """(cell the value is read from, conversions on the way)"""
    conv = []
    while True:
        if v[0] == 'n' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            v = v[2][0][0]
        elif v[0] == 't' and v[1] == 'init':
            return v[2], conv
        elif v[0] == 't' and v[1] in NARROW:
            conv.append(v[1] if v[1] not in ('trunc', 'wrap') else '%s' % (v[3],))
            v = v[2]
        elif v[0] == 't' and len(v) > 2 and isinstance(v[2], tuple) and v[1] in WIDE:
            v = v[2]
        else:
            return None, conv


NARROW = ('trunc', 'wrap', 'int', 'uint', 'short', 'ushort', 'uchar', 'char', 'f2i', 'fptoi', 'tofloat')
WIDE = ('fext', 'i2f', 'itof', 'todouble', 'fcast')


def value_type(kind, f):
    if kind in ('Size', 'Index', 'Region'):
        return 'long'
    m = re.search(r'MeasurementInsight[A-Za-z]+I([a-z])', f['key'])
    return {'d': 'double', 'f': 'float', 'h': 'unsigned char', 'i': 'int'}.get(m.group(1) if m else '', None)


def path(c, f, kind, tag, want, st, v, w):
    es = evs(st, 'recorded')
    if loops_on(st):
        c.undecided(RULE, 'a loop of a %s runs an unknown number of times' % tag, w, facts(st))
        return
    got = []
    for e in es:
        l, conv = cell(e[2])
        got.append(l)
        we = c.where(f, e[6]) if not isinstance(e[6], tuple) else w
        if l is None:
            c.undecided(RULEV, 'a %s records %s' % (tag, show(e[2])[:80]), w, facts(st))
            continue
        c.decide(True if not conv else verdict(st, 0), RULEV, 'a %s records a component%s' % (tag, ' converted to ' + conv[0] if conv else ''), w, facts(st))
        t = value_type(kind, f)
        if kind in ('Size', 'Index', 'Region'):
            ok = e[1] == 'MeasurementNumericInteger'
        elif t in ('double', 'int'):
            ok = e[1] == 'MeasurementNumericDouble'
        elif t in ('float', 'unsigned char'):
            ok = e[1] in ('MeasurementNumericDouble', 'MeasurementNumericFloat')
        else:
            ok = None
        if ok is False and t in ('int', 'unsigned char') and e[1] == 'MeasurementNumericInteger':
            ok = True
        c.decide(True if ok else verdict(st, 0) if ok is False else None, RULEV, 'a %s records a component with %s' % (tag, e[1]), w, facts(st))
        c.decide(same_flag(st, e[4]), RULEF, 'a %s records a component with the flag %s' % (tag, show(e[4])), w, facts(st))
    # components: every one once, in order
    cells = [x for x, p in want]
    known = all(l in cells for l in got)
    if got == cells:
        c.held(RULE, 'a %s records its %d components in order' % (tag, len(cells)), w)
    elif kind == 'Region' and got == cells[len(cells) // 2:] + cells[:len(cells) // 2]:
        c.held(RULE, 'a %s records size and index' % tag, w)
    elif any(l is None or imprecise(*[x for x in l if isinstance(x, tuple)]) for l in got):
        c.undecided(RULE, 'which components a %s records is not known' % tag, w, facts(st))
    else:
        miss = [p for x, p in want if x not in got]
        twice = [p for x, p in want if got.count(x) > 1]
        alien = [l for l in got if l not in cells]
        c.decide(verdict(st, 0), RULE, 'a %s %s' % (tag, 'leaves out %s' % ', '.join(miss) if miss else 'records %s twice' % twice[0] if twice else 'records something else' if alien else 'records its components in another order'), w, facts(st))
    # names
    pos = dict(want)
    names = {}
    for e, l in zip(es, got):
        n = e[3]
        if n is None or l is None or l not in pos:
            continue
        ps = list(catparts(n))
        txt = [fold(p) for p in ps]
        given = ps and ps[0] == T('init', ('d', T('par', 1)))
        tail = ''
        for p in reversed(txt):
            if p is None:
                break
            tail = p + tail
        full = given and all(p is not None for p in txt[1:])
        if not full:
            c.decide(verdict(st, 0, n) if n[0] == 's' or tail and not tail.endswith(pos[l]) else None, RULEN, 'a %s names component %s %s' % (tag, pos[l], show(n)[:80]), w, facts(st))
            continue
        rest = tail[:-len(pos[l])] if tail.endswith(pos[l]) else None
        ok = rest is not None and rest != '' and not rest[-1].isdigit()
        c.decide(True if ok else verdict(st, 0), RULEN, 'a %s names component %s "<name>%s"' % (tag, pos[l], tail), w, facts(st))
        if tail in names and names[tail] != l:
            c.decide(verdict(st, 0), RULEN, 'a %s has two components named "<name>%s"' % (tag, tail), w, facts(st))
        names[tail] = l
    result(c, tag, st, v, [e[5] for e in es], w)


def fold(p):
    if p[0] == 's':
        return p[1]
    if p[0] == 't' and p[1] == 'fmt' and isnum(lin(p[2])):
        return str(lin(p[2])[1])
    return None


def same_flag(st, b):
    """the flag is the third parameter"""
    p = mk_true(T('par', 2))
    if b == p:
        return True
    out = True
    for want in (True, False):
        s = st.fork()
        s.assume(p if want else mk_not(p))
        d = s.decide(b) if b[0] in ('b', 'B') else None
        if d is None:
            return None
        if bool(d) != want:
            return False if not st.unk else None
    return out


def result(c, tag, st, v, rs, w):
    """zero exactly when all results are zero: the value is a sum (or bitwise combination) of the results, taken apart by its structure"""
    v = st.norm(lin(v))
    parts = pieces(v)
    if parts is None or any(x not in rs for x in parts):
        c.undecided(RULER, 'a %s returns %s' % (tag, show(v)[:80]), w, facts(st))
        return
    for ones in [()] + [(i,) for i in range(len(rs))] + ([tuple(range(len(rs)))] if len(rs) > 1 else []) + [(i, i + 1) for i in range(len(rs) - 1)]:
        s = st.fork()
        ok = True
        for i, r in enumerate(rs):
            ok = ok and s.assume(mk_eq0(sub(lin(r), num(1 if i in ones else 0))))
        if not ok:
            continue        # not on this path
        z = value(v, {r: 1 if i in ones else 0 for i, r in enumerate(rs)})
        if (z != 0) != bool(ones):
            c.decide(None if st.unk else False, RULER, 'a %s returns %s when %s' % (tag, z, 'all results are zero' if not ones else 'result %s is not zero' % ', '.join(map(str, ones))), w, facts(st))
            return
    # beyond the samples: no result can cancel another
    c.decide(True if monotone(v, rs, st) else None, RULER, 'the result of a %s is zero exactly when all results are' % tag, w, facts(st))


def pieces(v):
    """the results that a value is made from, None if there is something else"""
    out = set()
    if v[0] == 'n':
        for x, k in v[2]:
            y = pieces(x)
            if y is None:
                return None
            out |= y
        return out
    if v[0] == 't' and v[1] == 'result':
        return {v}
    if v[0] == 't' and v[1] in ('|', '&', '^'):
        for x in v[2:4]:
            y = pieces(lin(x))
            if y is None:
                return None
            out |= y
        return out
    return None


def value(v, at):
    if v[0] == 'n':
        return v[1] + sum(k * value(x, at) for x, k in v[2])
    if v[1] == 'result':
        return at[v]
    a, b = value(lin(v[2]), at), value(lin(v[3]), at)
    return a | b if v[1] == '|' else a & b if v[1] == '&' else a ^ b


def monotone(v, rs, st):
    """a sum or bitwise or of all results that the path does not know to be zero; a constant that agrees with the path"""
    free = [r for r in rs if st.decide(mk_eq0(lin(r))) != 1]
    if isnum(v):
        return v[1] != 0 and any(st.decide(mk_eq0(lin(r))) == 0 for r in rs) or not free
    return v[1] >= 0 and (plus(v) or v[1] == 0 and plus(sub(num(0), v))) and (v[1] == 0 or any(st.decide(mk_eq0(lin(r))) == 0 for r in rs)) and all(r in pieces(v) or any(st.decide(mk_eq0(lin(x))) == 0 for x in rs if v[1]) for r in free)


def plus(v):
    if v[0] == 'n':
        return v[1] >= 0 and all(k > 0 and plus(x) for x, k in v[2])
    return v[1] == 'result' or v[1] == '|' and plus(lin(v[2])) and plus(lin(v[3]))
