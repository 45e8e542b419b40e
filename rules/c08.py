"""C08 What record mode writes is what compare mode reads."""
import re
from .common import *
from . import measure as me, compare as cmp, reader as rd, escape, c07
from .c18 import pred_hooks
from sa.models import catparts, CERR
from sa import export

UNITS = export.CORE
EXPLAIN = """
Writer: the run driver is interpreted abstractly from an object without open streams, with reading, test body and arguments as
contracts; on every path that ends in a completed run what is written to the output before and after the test body is a sequence of
constant and variable pieces, read by an automaton for an XML prolog (declaration first, comments without a double hyphen in any
variable piece, one root start tag) and an epilog (that root's end tag and nothing else); a comparing run writes neither.  Elements:
for every concrete measurement class the element name and the attributes of every printing path (C07).  Reader: the start callback is
interpreted with exactly that element name and those attributes, in that order, the values unknown except for the class's own type
string: it creates an object of exactly that class, each attribute's value is stored as that attribute, and nothing is reported as unknown; the
root name is accepted at the top without complaint; the end callback is C10's."""
ASSUME = ['the test body does not change the file names of the run', 'ctime writes no double hyphen', 'attribute values without line breaks (XML turns them into spaces)',
          'the encodings expat knows are UTF-8, UTF-16, ISO-8859-1 and US-ASCII']

RULEP = 'a recorded document starts properly'
RULEC = 'a comment cannot break the document'
RULEE = 'the document is closed once'
RULEX = 'a comparing run writes no document of its own'
RULER = 'the reader knows what the writer writes'
RULET = 'the reader makes the class that was written'
RULEA = 'the reader stores what was written'
OUT = ('d', T('configured-output'))
ENCODINGS = ('utf-8', 'utf-16', 'iso-8859-1', 'us-ascii')


class Bad(Exception):
    pass


class Open(Exception):
    pass


def check(ck):
    for f in ('Main', 'ReadXMLInput'):
        ck.need(RT + '::' + f)
    rd.handlers(ck)
    ck.run([('document', document)] + [(cls, lambda c, cls=cls: agreement(c, cls)) for cls in me.concrete(ck)], timeout=400)


# ------------------------------------------------------------------ the document

def run(c, real=False, body=None, flags=()):
    def test(E, st, fr, cc):
        st.emit('body', E.load(st, field(cc.obj, RT + '::os')))
        if body:
            body(E, st, cc.obj)
        t = T('testret', st.fresh())
        st.iv[t] = (-2**31, 2**31 - 1)
        return [(st, lin(t))]

    def read(E, st, fr, cc):
        st.emit('reading', cc.line)
        return [(st, ('void',))]
    h = {RT + '::ParseAndRemoveArguments': nothing, RT + '::Test': test, RT + '::ReadXMLInput': read}
    if not real:
        h[RT + '::GetOutStream'] = cmp.outstream
    h.update(pred_hooks(c))
    h['fileutil::PathName::SearchPathList'] = cmp.search
    from .c12 import frees, list_fields, ptr_fields
    for k in frees(c, list_fields(c)):
        h[k] = nothing

    def setup(E, st, this, vals):
        st.typ[this] = frozenset([RT])
        for q in ptr_fields(c):
            st.mem[field(this, q)] = NULL
        for q in list_fields(c):
            st.mem[field(this, q)] = ('L', (), None, ())
    f = c.need(RT + '::Main')
    return f, c.analyse(f, hooks=h, setup=setup, merge=False, maxsteps=4000000, flags=flags)


def tokens(evl):
    out = []
    for e in evl:
        for p in catparts(e[2]):
            out += [(ch, e[3]) for ch in p[1]] if p[0] == 's' else [(p, e[3])]
    return out


def document(c):
    f, r = run(c)
    w = c.where(f)
    n = {'record': 0, 'compare': 0}
    root = set()
    for st, v in r.rets:
        if evs(st, 'throw', 'stepthrow'):
            continue        # the run did not complete: its result says so (C01)
        evl = evs(st, 'out', 'body', 'reading')
        bodies = [i for i, e in enumerate(evl) if e[0] == 'body']
        if len(bodies) != 1:
            continue
        evl = [e for e in evl if e[0] != 'out' or e[1] == OUT]
        b = [i for i, e in enumerate(evl) if e[0] == 'body'][0]
        pre, post = [e for e in evl[:b] if e[0] == 'out'], [e for e in evl[b + 1:] if e[0] == 'out']
        if any(e[0] == 'reading' for e in evl):
            n['compare'] += 1
            c.decide(True if not pre and not post else verdict(st, 0), RULEX, 'a comparing run writes %s' % ('nothing of its own' if not pre and not post else
                     repr(''.join(ch if isinstance(ch, str) else '?' for ch, _ in tokens(pre + post)))[:80]), w, facts(st))
            continue
        n['record'] += 1
        try:
            x = prolog(c, f, r, st, tokens(pre))
            root.add(x)
            c.held(RULEP, 'declaration, comments and <%s>' % x, w)
            epilog(tokens(post), x)
            c.held(RULEE, '</%s>' % x, w)
        except Bad as e:
            c.decide(verdict(st, 0), e.args[0], e.args[1], w, facts(st))
        except Open as e:
            c.undecided(e.args[0], e.args[1], w)
    if not n['record'] or not n['compare']:
        raise BrokenAnalysis('runs found: %s' % n)
    c.count('completed recording runs', n['record'])
    c.count('completed comparing runs', n['compare'])
    for x in sorted(root):
        top(c, x)


def prolog(c, f, r, st, toks):
    text = ''.join(ch if isinstance(ch, str) else '\0' for ch, _ in toks)
    if not text:
        raise Bad(RULEP, 'a recording run writes no start of a document')
    m = re.match(r'''<\?xml\s+version\s*=\s*(["'])1\.[0-9]+\1(\s+encoding\s*=\s*(["'])([A-Za-z][A-Za-z0-9._-]*)\3)?(\s+standalone\s*=\s*(["'])(yes|no)\6)?\s*\?>''', text)
    if not m:
        i = text.find('\0')
        if text.startswith('<?xml') and 0 <= i < text.find('?>') or i == 0:
            raise Open(RULEP, 'the declaration holds a variable text')
        raise Bad(RULEP, 'the document starts with %r' % text[:40])
    if m.group(4) and m.group(4).lower() not in ENCODINGS:
        raise Bad(RULEP, 'the declared encoding is %s' % m.group(4))
    i = m.end()
    root = None
    while i < len(text):
        if text[i].isspace():
            i += 1
        elif text.startswith('<!--', i):
            i = comment(c, r, st, toks, text, i + 4)
        elif text[i] == '\0':
            raise (Open if imprecise(toks[i][0]) else Bad)(RULEP, 'a variable text stands outside of tags: %s' % show(toks[i][0])[:60])
        else:
            m = re.match(r'<([A-Za-z_][A-Za-z0-9_.-]*)((\s+[A-Za-z_][A-Za-z0-9_.-]*\s*=\s*("[^"<&\0]*"|\'[^\'<&\0]*\'))*)\s*>', text[i:])
            if not m:
                raise Bad(RULEP, 'before the measurements stands %r' % text[i:i + 40].replace('\0', '?'))
            if root:
                raise Bad(RULEP, 'a second element <%s> is opened' % m.group(1))
            root = m.group(1)
            i += m.end()
    if root is None:
        raise Bad(RULEP, 'no element is opened around the measurements')
    return root


def comment(c, r, st, toks, text, i):
    """position behind the comment"""
    var = False     # the character before may be a hyphen of a variable text
    while i < len(text):
        if text.startswith('-->', i):
            if var:
                raise Bad(RULEC, 'a text that may end in a hyphen stands before the end of the comment')
            return i + 3
        ch = text[i]
        if ch == '-':
            if var or text.startswith('--', i) or text[i + 1:i + 2] == '\0' and hyphens(c, r, st, toks[i + 1][0]) != 'none':
                raise Bad(RULEC, 'a comment holds a double hyphen')
            var = False
        elif ch == '\0':
            p = toks[i][0]
            k = hyphens(c, r, st, p)
            if k == 'any':
                raise Bad(RULEC, 'a comment holds %s as it is, which may have a double hyphen' % show(p)[:60])
            if k == 'unknown':
                raise Open(RULEC, 'whether %s may have a double hyphen' % show(p)[:60])
            if var and k == 'single':
                raise Bad(RULEC, 'two texts that may begin and end in a hyphen stand side by side in a comment')
            var = k == 'single'
            c.held(RULEC, 'no double hyphen in %s' % show(p)[:60], '')
        else:
            var = False
        i += 1
    raise Bad(RULEC, 'the comment is not closed')


def hyphens(c, r, st, p):
    """'none': no hyphen, 'single': no two in a row, 'any', 'unknown'"""
    if p[:2] == ('t', 'fmt'):
        return 'single'
    if contains(p, lambda t: t[:1] == ('t',) and t[1] in ('ctime', 'asctime', 'strftime')):
        return 'none'
    for k, pol in st.facts.items():
        if not pol and isinstance(k, tuple) and k[0] == 'found' and k[2] == p and k[1] == 'find' and st.decide(mk_eq0(lin(k[4]))) == 1:
            if k[3] == S('-'):
                return 'none'
            if k[3] == S('--'):
                return 'single'
        if not pol and isinstance(k, tuple) and k[0] == 'found' and k[2] == p and k[1] == 'find_first_of' and k[3][0] == 's' and '-' in k[3][1] and st.decide(mk_eq0(lin(k[4]))) == 1:
            return 'none'
    d = escape.derive(r, [(st, p)])
    if d.ok and '-' not in d.map.get(45, '-'):
        return 'none'
    if imprecise(p):
        return 'unknown'
    return 'any'


def epilog(toks, root):
    text = ''.join(ch if isinstance(ch, str) else '\0' for ch, _ in toks)
    if re.fullmatch(r'\s*</%s\s*>\s*' % re.escape(root), text):
        return
    if any(not isinstance(ch, str) and imprecise(ch) for ch, _ in toks):
        raise Open(RULEE, 'the end of the document')
    raise Bad(RULEE, 'after the measurements of <%s> a recording run writes %r' % (root, text.replace('\0', '?')) if text else 'the element <%s> is never closed' % root)


# ------------------------------------------------------------------ writer and reader

def literal(s):
    return ('p', ('c', ('lit', S(s)), num(0)))


def start(c, elem, attrs, depth):
    """the start callback for this element; attrs: [(name, value pointer)]"""
    f = rd.handlers(c)['start'][0]
    names = ('d', T('par', 2))

    def setup(E, st, this, vals):
        vals[1] = literal(elem)
        rd.handler_setup(E, st, this, vals)
        k = 0
        for a, v in attrs:
            st.mem[('e', names, num(k))] = literal(a)
            st.mem[('e', names, num(k + 1))] = v if v[0] == 'p' else literal(v[1])
            if v[0] == 'p':
                st.mem[('str', v[1][1])] = value(a)
            k += 2
        st.mem[('e', names, num(k))] = NULL
        vals[2] = ('p', ('e', names, num(0)))
        st.mem[rd.pd_field(c, 'depth')] = num(depth)
    return f, c.analyse(f, hooks=rd.measurement_hooks(c), setup=setup, merge=False, flags=('cerr',))


def value(a):
    return T('init', ('f', ('d', T('written')), 'attr::' + a))


def pointer(a):
    return ('p', ('e', ('d', T('value', a)), num(0)))


def complaint(st):
    return [e for e in evs(st, 'out') if e[1] == CERR]


def top(c, x):
    f, r = start(c, x, [], 0)
    for st, v in r.rets:
        bad = complaint(st)
        c.decide(True if not bad else None if r.loops else verdict(st, 0), RULER, 'the root element %s is %s' % (x, 'complained about' if bad else 'known'), c.where(f), facts(st))


def skeletons(c, cls):
    """the elements printed for a class: [(element, (attribute, ...))]"""
    t, f, r = c07.elements(c, cls)
    quiet = Quiet(c)
    out, notes = [], []
    for st, v in r.rets:
        try:
            x = c07.one(quiet, cls, t, f, st, r.this, c07.pieces(st, ('d', T('par', 0))), shape=True)
            if x not in out:
                out.append(x)
        except (c07.Bad, c07.Open) as e:
            notes.append(e.args[-1])
    return f, out, notes


class Quiet:
    """takes the results of another rule without recording them"""
    def __init__(self, c):
        self.c = c

    def __getattr__(self, n):
        if n in ('held', 'violated', 'undecided', 'decide'):
            return lambda *a, **k: None
        return getattr(self.c, n)


def type_string(c, cls):
    """the constant type of a class, None if it is set"""
    f = me.method(c, cls, 'GetAttributeType')
    if f is None:
        return None
    r = c.analyse(f, setup=me.as_class(cls))
    v = {(r.E.load(st, v[1]) if v[0] in ('l', 'o') else v) for st, v in r.rets}
    if len(v) == 1:
        v = v.pop()
        if v[0] == 's':
            return v
    return None


def agreement(c, cls):
    f, sk, notes = skeletons(c, cls)
    w = c.where(f)
    for n in sorted(set(notes)):
        c.undecided(RULER, '%s: %s' % (cls, n), w)
    if not sk and not notes:
        raise BrokenAnalysis('%s prints nothing' % cls)
    ty = type_string(c, cls)
    for elem, attrs in sk:
        av = [(a, ty if a == 'type' and ty is not None else pointer(a)) for a in attrs]
        g, r = start(c, elem, av, 1)
        wg = c.where(g)
        what = '<%s %s>%s' % (elem, ' '.join(attrs), ' of type %s' % ty[1] if ty else '')
        if not r.rets and not r.throws:
            c.undecided(RULER, 'the reader of %s' % what, wg)
        for st, v in r.rets:
            if r.loops:         # everything is known here: a loop that is not unrolled was not understood
                c.undecided(RULET, what, wg)
                continue
            bad = complaint(st)
            c.decide(True if not bad else verdict(st, 0), RULER, '%s is %s' % (what, 'known' if not bad else 'complained about: %s' % ' '.join(show(e[2]) for e in bad)[:80]), wg, facts(st))
            m = r.E.load(st, rd.pd_field(c, 'm'))
            obj = m[1] if m[0] == 'p' else None
            got = st.typ.get(obj) if obj is not None else None
            ok = got == frozenset([cls])
            c.decide(True if ok else verdict(st, 0, m), RULET, '%s becomes %s' % (what, ' or '.join(sorted(got)) if got else 'no measurement' if st.decide_null(m) == 1 else show(m)[:60]), wg, facts(st))
            if obj is None:
                continue
            for a in attrs:
                if a == 'type' and ty is not None:
                    continue
                l = cmp.attr(obj, a)
                now = st.mem.get(l)
                if now is None:
                    ok, tell = False, 'is not stored'
                else:
                    ok, tell = now == value(a), 'is stored as %s' % show(now)[:60]
                    if contains(now, lambda t: t == value(a)) and not ok:
                        tell += ' and not as written'
                c.decide(True if ok else verdict(st, 0, now or num(0)), RULEA, 'the %s of %s %s' % (a, what, tell if not ok else 'is stored'), wg, facts(st))
        for st, et, v in r.throws:
            if 'bad_alloc' not in (et or ''):
                c.decide(verdict(st, 0), RULER, '%s makes the reader throw %s' % (what, et), wg, facts(st))
    c.count('element forms', len(sk))
