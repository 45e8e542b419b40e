"""C07 Recorded output is well formed whatever the names and contents."""
import re
from .common import *
from .strings import view
from . import measure as me, compare as cmp, escape, switches
from sa.models import catparts
from sa import export

UNITS = export.CORE
EXPLAIN = """
Every function that the printing of a measurement reaches and that turns a text into a text is shown, by an inductive argument about
its loops, to rewrite its argument character by character: which characters become what, every other one copied, none lost, repeated
or moved (compositions are composed).  Then what each concrete measurement class prints is interpreted abstractly for every object
state, with those translations as uninterpreted functions of their proved character map, and the sequence of constant and translated
pieces of every path is read by an automaton for one XML element: start tag with quoted attributes, content, matching end tag.  A
piece inside an attribute value must have &, <, > and the quote replaced by an accepted reference for that character, a piece of content
&, < and >; the name and type attributes and the content must be those of the object, the encoding and compression attributes as well,
and absent only where the object has the default.  The escaping switch is on in a new object, and every function that writes it makes it
what its name or argument says; nothing in the framework switches it off."""
ASSUME = ['with escaping switched off by the caller texts are written as they are', 'the getters return what they are named after (C20, C21)',
          'text is encoded so that the bytes & < > and the quote stand for those characters (ASCII, UTF-8, ISO-8859)']

RULET = 'a text is translated character by character'
RULEA = 'an attribute value holds no markup'
RULEC = 'the content holds no markup'
RULEE = 'a measurement is printed as one element'
RULEV = 'every attribute carries its own value'
ATTRS = {'name': 'name', 'type': 'type', 'encoding': 'encoding', 'compression': 'compression'}
GET = {'name': 'GetAttributeName', 'type': 'GetAttributeType', 'encoding': 'GetAttributeEncoding', 'compression': 'GetAttributeCompression',
       'content': 'GetContent', 'file': 'GetFileName'}
DEFAULTS = {'encoding': 'GetDefaultAttributeEncoding', 'compression': 'GetDefaultAttributeCompression'}


def check(ck):
    for cls in me.concrete(ck):
        ck.need_print = me.method(ck, cls, 'Print')
        if ck.need_print is None:
            raise BrokenAnalysis('%s has no Print' % cls)
    tr = translators(ck)
    ck.run([('translations', translations), ('escaping switch', escaping)] + [(cls, lambda c, cls=cls: printing(c, cls)) for cls in me.concrete(ck)], timeout=400)
    ck.count('text translations analysed', len(tr))


def escaping(c):
    switches.switch(c, me.M, 'GetApplyEscapeSequences', put=['SetApplyEscapeSequences'], on=['ApplyEscapeSequencesOn'], off=['ApplyEscapeSequencesOff'], default=1)


def is_string(t):
    return re.sub(r'\bconst\b|&|\s', '', t or '') in ('std::string', 'string', 'std::basic_string<char>', 'std::__cxx11::basic_string<char>')


def translators(ck):
    """functions in reach of the printing that take a text and return one"""
    roots = []
    for cls in me.concrete(ck):
        f = me.method(ck, cls, 'Print')
        roots.append(f['key'])
        for n in ('PrintStartTag', 'PrintContent', 'PrintEndTag'):
            g = me.method(ck, cls, n)
            if g:
                roots.append(g['key'])
    out = []
    for k in sorted(reach(ck, roots)):
        f = ck.p.functions[k]
        ps = [i for i, p in enumerate(f.get('params', [])) if is_string(p['t'])]
        if is_string(f.get('rt')) and '&' not in f['rt'] and len(ps) == 1 and f.get('kind') not in ('ctor', 'dtor'):
            out.append((f, ps[0]))
    return out


def flag(ck):
    """the member behind GetApplyEscapeSequences, None if there is none"""
    f = me.method(ck, me.M, 'GetApplyEscapeSequences')
    if f is None:
        return None
    r = ck.analyse(f)
    qs = set()
    for st, v in r.rets:
        for q in fields_in(v):
            qs.add(q)
        for k in st.facts:
            for q in fields_in(k):
                qs.add(q)
    return qs.pop() if len(qs) == 1 else None


def fields_in(v):
    out = []

    def see(t):
        if t[:2] == ('t', 'init') and t[2][0] == 'f':
            out.append(t[2][2])
        return False
    if isinstance(v, tuple):
        contains(v, see)
    return out


class Translations:
    def __init__(self, c):
        self.c = c
        self.fs = translators(c)
        self.flag = flag(c)
        self.memo = {}

    def hooks(self, but=None, outer=()):
        h = {}
        for f, i in self.fs:
            if f['key'] != but and f['key'] not in outer:
                h[f['key']] = self.hook(f, i)
        return h

    def hook(self, f, i):
        def go(E, st, fr, c):
            a = c.args[i]
            v = E.load(st, a[1]) if a[0] in ('l', 'o', 'p') else a
            rest = []
            for j, x in enumerate(c.args):
                if j != i:
                    x = st.norm(x) if x[0] in ('n', 't') else x
                    if not (x in (('B', 0), ('B', 1)) or isnum(x)):
                        return E.external(c.e, c.name, st, fr, c.obj, c.args, c.dest)
                    rest.append((j, x))
            out = []
            for s, pol in self.polarity(st, c.obj if f.get('class') else None):
                t = T('esc', f['key'], pol, tuple(rest), v)
                if c.dest is not None:
                    s.mem[c.dest] = t
                    out.append((s, ('o', c.dest)))
                else:
                    out.append((s, t))
            return out
        return go

    def polarity(self, st, obj):
        if obj is None or self.flag is None:
            return [(st, None)]
        b = st.mem.get(field(obj, self.flag))
        if b is None:
            b = mk_true(T('init', field(obj, self.flag)))
        elif b[0] not in ('B', 'b'):
            b = mk_true(b)
        d = st.decide(b)
        if d is not None:
            return [(st, d)]
        s2 = st.fork()
        out = []
        if st.assume(b):
            out.append((st, 1))
        if s2.assume(b, False):
            out.append((s2, 0))
        return out

    def derive(self, key, pol, rest, outer=()):
        """(Derived, result) of one way to call a translation"""
        k = (key, pol, rest)
        if k not in self.memo:
            f, i = next(x for x in self.fs if x[0]['key'] == key)

            def setup(E, st, this, vals):
                if pol is not None and self.flag:
                    st.mem[field(this, self.flag)] = ('B', pol)
                for j, x in rest:
                    vals[j] = x
            self.memo[k] = None
            r = self.c.analyse(f, hooks=self.hooks(key), setup=setup, merge=False)
            rets = []
            for st, v in r.rets:
                x = st.mem.get(v[1]) if v[0] in ('o', 'l', 'p') else v
                if x is None:
                    x = T('unkexpr', st.fresh())
                rets.append((st, x))
            self.memo[k] = (escape.derive(r, rets) if rets else None, r, f, i)
        return self.memo[k]

    def resolve(self, v, depth=0):
        """(root text, {code: text}, problem) of a translated text"""
        if v[:2] != ('t', 'esc'):
            return v, {}, None
        d = self.derive(v[2], v[3], v[4])
        if d is None or d[0] is None:
            return v, {}, 'recursion'
        d, r, f, i = d
        if not d.ok:
            return v, {}, 'not a translation'
        base = d.base
        inner, m1, why = (base, {}, None) if base[:2] != ('t', 'esc') or depth > 4 else self.resolve(base, depth + 1)
        if why:
            return v, {}, why
        if not (inner[:2] == ('t', 'init') and inner[2] in (('d', T('par', i)), ('v', T('par', i)))) and not contains(inner, lambda t: t == T('par', i)):
            return v, {}, 'translates something else'
        m = dict(d.map)
        for c, x in m1.items():
            m[c] = ''.join(d.map.get(ord(ch), ch) for ch in x)
        root, m0, why = self.resolve(v[5], depth + 1)
        if why:
            return v, {}, why
        out = dict(m)
        for c, x in m0.items():
            out[c] = ''.join(m.get(ord(ch), ch) for ch in x)
        return root, out, None


def translations(c):
    t = Translations(c)
    for f, i in t.fs:
        for pol in ((0, 1) if f.get('class') and t.flag else (None,)):
            ps = [j for j, p in enumerate(f['params']) if j != i]
            if any(f['params'][j]['t'] != 'bool' for j in ps):
                c.undecided(RULET, '%s has arguments that are not a flag' % f['qual'], c.where(f))
                continue
            for bits in range(2 ** len(ps)):
                rest = tuple((j, ('B', bits >> n & 1)) for n, j in enumerate(ps))
                d, r, f_, i_ = t.derive(f['key'], pol, rest)
                w = c.where(f)
                how = '' if pol is None else ' (escaping %s)' % ('on' if pol else 'off')
                if d is None:
                    c.undecided(RULET, f['qual'] + ' never returns', w)
                    continue
                for what, st in d.bad:
                    c.violated(RULET, '%s%s: %s' % (f['qual'], how, what), w, facts(st))
                for what, st in d.open:
                    c.undecided(RULET, '%s%s: %s' % (f['qual'], how, what), w)
                if d.ok:
                    c.held(RULET, '%s%s: %s' % (f['qual'], how, ', '.join('%s becomes %s' % (chr(k), x) for k, x in sorted(d.map.items())) or 'returns its text'), w)


# what is printed

NAME = re.compile(r'[A-Za-z_][A-Za-z0-9_.:-]*')


class Bad(Exception):
    pass


class Open(Exception):
    pass


def setter(c, cls):
    roles = {a: me.role(c, cls, g) for a, g in GET.items()}

    def setup(E, st, this, vals):
        st.typ[this] = frozenset([cls])
        for a, q in roles.items():
            if q:
                st.mem[field(this, q)] = T('init', cmp.attr(this, a))
    return setup, roles


def elements(c, cls):
    """paths of printing one measurement: [(state, [piece])]"""
    t = Translations(c)
    f = me.method(c, cls, 'Print')
    setup, roles = setter(c, cls)
    h = {}
    for n, g in GET.items():
        m = me.method(c, cls, g)
        if m:
            h[m['key']] = lambda E, st, fr, cc, n=n: [(st, ('l', cmp.attr(cc.obj, n)))] if '&' in (m_rt(c, cls, GET[n])) else string(E, st, cc, T('init', cmp.attr(cc.obj, n)))
    h.update(t.hooks())
    r = c.analyse(f, hooks=h, setup=setup, merge=False, MAXPATHS=4000)
    return t, f, r


def m_rt(c, cls, g):
    return me.method(c, cls, g).get('rt') or ''


def string(E, st, cc, v):
    if cc.dest is not None:
        st.mem[cc.dest] = v
        return [(st, ('o', cc.dest))]
    return [(st, v)]


def pieces(st, stream):
    out = []
    for e in evs(st, 'out'):
        if e[1] != stream:
            continue
        for p in catparts(e[2]):
            if p[0] == 's':
                if out and out[-1][0][0] == 's':
                    out[-1] = (S(out[-1][0][1] + p[1]), out[-1][1])
                elif p[1]:
                    out.append((p, e[3]))
            else:
                out.append((p, e[3]))
    return out


def printing(c, cls):
    t, f, r = elements(c, cls)
    w = c.where(f)
    this = r.this
    defaults = {}
    for st, typ, v in r.throws:
        pass
    for st, v in r.rets:
        try:
            ps = pieces(st, ('d', T('par', 0)))
            one(c, cls, t, f, st, this, ps)
        except Bad as e:
            c.decide(None if st.unk else False, e.args[0], '%s: %s' % (cls, e.args[1]), c.where(f, e.args[2]) if len(e.args) > 2 and False else w, facts(st))
        except Open as e:
            c.undecided(RULEE, '%s: %s' % (cls, e.args[0]), w)
    c.count('ways to print a measurement', len(r.rets))


def off(st, t, this):
    """is escaping switched off on this path?"""
    if t.flag is None:
        return False
    d = st.decide(mk_true(T('init', field(this, t.flag))))
    return d == 0


def one(c, cls, t, f, st, this, ps, shape=False):
    """reads the pieces of a path as one element"""
    toks = []
    for p, line in ps:
        if p[0] == 's':
            toks += [(ch, line) for ch in p[1]]
        else:
            toks.append((p, line))
    pos = 0
    w = c.where(f)
    E_ = (RULEE,)

    def peek():
        return toks[pos][0] if pos < len(toks) else None

    def bad(what):
        p = peek()
        if isinstance(p, tuple) and imprecise(p):
            raise Open(what)
        raise Bad(RULEE, '%s (%s)' % (what, 'at the end' if p is None else 'at %r' % p if isinstance(p, str) else 'at ' + show(p)[:60]))

    def expect(s, what):
        nonlocal pos
        for ch in s:
            if peek() != ch:
                bad(what)
            pos += 1

    def name(what):
        nonlocal pos
        v = ''
        while isinstance(peek(), str) and re.match(r'[A-Za-z0-9_.:-]', peek()):
            v += peek()
            pos += 1
        if isinstance(peek(), tuple):
            v2 = peek()
            if not (v2[:2] in (('t', 'fmt'), ('t', 'esc')) or v2[:2] == ('t', 'init') and v2[2][0] == 'f' and v2[2][2].startswith('attr::')):
                raise Open('%s is %s' % (what, show(v2)[:60]))
            bad('%s depends on the measurement' % what)
        if not NAME.fullmatch(v):
            bad(what)
        return v

    def safe(p, need, rule, what):
        """root text of a piece; the piece has the needed characters replaced"""
        if shape:
            return p
        if isinstance(p, str):
            if p in ('<', '&') or ord(p) in need:
                raise Bad(rule, '%s holds %r' % (what, p))
            return p
        if p[:2] == ('t', 'fmt'):
            return p
        root, m, why = t.resolve(p)
        if why:
            raise Open('%s is %s' % (what, why))
        if imprecise(root):
            raise Open('%s is %s' % (what, show(root)[:60]))
        for k in sorted(need):
            x = m.get(k)
            if x is None:
                if not off(st, t, this):
                    raise Bad(rule, '%s is written with %s as it is' % (what, chr(k)))
            elif x not in escape.REFS[k]:
                raise Bad(rule, '%s is written with %s as %s' % (what, chr(k), x))
        for k, x in m.items():
            if k not in need and x not in escape.REFS.get(k, ()):
                raise Bad(rule, '%s is written with %r as %r' % (what, chr(k), x))
        if not off(st, t, this) or m:
            c.held(rule, '%s: %s' % (cls, what), w)
        return root

    def value_of(vals):
        if len(vals) == 1 and isinstance(vals[0], tuple):
            return vals[0]
        if all(isinstance(x, str) for x in vals):
            return S(''.join(vals))
        return None

    def is_attr(v, a):
        return v == T('init', cmp.attr(this, a)) or v is not None and st.decide_eq(v, T('init', cmp.attr(this, a))) == 1

    expect('<', 'no start tag')
    elem = name('the element name')
    seen = {}
    while True:
        ws = False
        while peek() in (' ', '\n', '\t'):
            pos += 1
            ws = True
        if peek() == '>':
            pos += 1
            break
        if not ws:
            bad('two attributes run together')
        a = name('an attribute name')
        if a in seen:
            raise Bad(RULEE, 'the attribute %s is there twice' % a)
        expect('=', 'an attribute without a value')
        q = peek()
        if q not in ('"', "'"):
            bad('an attribute value without quotes')
        pos += 1
        vals = []
        while pos < len(toks) and peek() != q:
            vals.append(safe(peek(), {38, 60, 62, ord(q)} if q == '"' else {38, 60, ord(q)}, RULEA, 'the value of %s' % a))
            pos += 1
        expect(q, 'an attribute value that is not closed')
        seen[a] = value_of(vals)
        if a in ATTRS and not shape:
            if is_attr(seen[a], a):
                c.held(RULEV, '%s: %s' % (cls, a), w)
            elif seen[a] is None:
                other = [x for x in vals if not isinstance(x, str)]
                raise Bad(RULEV, 'the attribute %s is something else' % a)
            else:
                d = st.decide_eq(seen[a], T('init', cmp.attr(this, a)))
                if seen[a][0] == 't' and seen[a][:2] == ('t', 'init') or seen[a][0] == 's' or view(seen[a])[0] == T('init', cmp.attr(this, a)):
                    raise Bad(RULEV, 'the attribute %s is %s' % (a, show(seen[a])[:80]))
                raise Open('the attribute %s is %s' % (a, show(seen[a])[:80]))
    for a in () if shape else ('name', 'type'):
        if a not in seen:
            raise Bad(RULEV, 'there is no attribute %s' % a)
    for a, g in DEFAULTS.items():
        if shape or me.method(c, cls, GET[a]) is None or a in seen:
            continue
        dflt = default(c, cls, g)
        if dflt is None:
            raise Open('the default of %s' % a)
        d = st.decide_eq(T('init', cmp.attr(this, a)), dflt)
        if d == 1:
            c.held(RULEV, '%s: %s is left out where it has the default' % (cls, a), w)
        else:
            raise Bad(RULEV, 'the attribute %s is left out although it need not have the default' % a)
    # content
    vals = []
    while pos < len(toks) and peek() != '<':
        vals.append(safe(peek(), {38, 60, 62}, RULEC, 'the content'))
        pos += 1
    v = value_of(vals)
    if not shape and not is_attr(v, 'content') and not is_attr(v, 'file'):
        if v is not None and (v[0] == 's' or v[:2] == ('t', 'init') or view(v)[0] in [T('init', cmp.attr(this, x)) for x in ('content', 'file')]):
            raise Bad(RULEE, 'the content is %s' % show(v)[:80])
        raise Open('the content is %s' % (show(v)[:80] if v else 'made of several pieces'))
    c.held(RULEE, '%s: the content' % cls, w)
    cut = [e[1] for e in evs(st, 'ntbs')]
    for p in ps:
        if p[0][0] != 's' and p[0] in cut and p[0][:2] in (('t', 'init'), ('t', 'esc')):
            raise Bad(RULEE, '%s is written up to its first zero byte only' % show(t.resolve(p[0])[0])[:60])
    expect('</', 'no end tag')
    e2 = name('the name in the end tag')
    if e2 != elem:
        raise Bad(RULEE, '<%s> is closed by </%s>' % (elem, e2))
    while peek() in (' ', '\n', '\t'):
        pos += 1
    expect('>', 'an end tag that is not closed')
    while peek() in (' ', '\n', '\t'):
        pos += 1
    if peek() is not None:
        bad('something is written behind the element')
    c.held(RULEE, '%s: <%s %s>' % (cls, elem, ' '.join(sorted(seen))), w)
    return elem, tuple(seen)


def default(c, cls, g):
    f = me.method(c, cls, g)
    if f is None:
        return None
    r = c.analyse(f, setup=me.as_class(cls))
    v = {(r.E.load(st, v[1]) if v[0] in ('l', 'o', 'p') else v) for st, v in r.rets}
    return v.pop() if len(v) == 1 else None
