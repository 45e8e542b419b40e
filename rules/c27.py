"""C27 Generated file names are unique within a run and well defined."""
from .common import *
from . import compare as cmp, c18
from sa.models import catparts
from sa import export, engine

UNITS = export.CORE + export.ITK
PN = 'fileutil::PathName'
REG = 'itk::Regression'
EXPLAIN = """
The name generator is interpreted abstractly on all its paths; the returned text is taken apart into its pieces: program name, hash,
number, dot and extension, joined to the root path where one was given.  The number has to be the changed value of a member that every
path through the generator moves by a constant in one direction and that nothing else changes but the constructor and the start of a
run.  The hash is followed back through the loops that compute it: each loop starts at the first element (character), moves by one,
ends only at the end, and a bit-dependency pass over one step shows that every bit of the old hash and of the character stays in the
new hash.  The start of a run is interpreted up to the call of the run itself: there the argument list holds exactly the arguments."""
ASSUME = ['fewer than 2^32 names are generated in one run', 'arguments and extensions are given by the caller as they are to appear in the name']

RULE = 'a name has its parts'
RULEU = 'the number grows with every name'
RULEH = 'the hash depends on every argument'
RULEL = 'a run starts with its own arguments'
RULED = 'a name is defined at any time'
NARROW = ('&', '%', 'uchar', 'ushort', 'byte', 'char', 'short')

THIS = ('d', T('this'))


def check(ck):
    ck.run([('names', names), ('start', start)], timeout=300)


def hooks(ck):
    h = dict(c18.pred_hooks(ck))
    h[PN + '::Append'] = c18.joined
    h[PN + '::Tail'] = cmp.tail
    return h


def names(c):
    f = c.need(REG + '::GenerateFileName')
    r = c.analyse(f, hooks=hooks(c), merge=False)
    w = c.where(f)
    if not r.rets:
        raise BrokenAnalysis('the name generator never returns')
    defined(c, f, r)
    root, ext = params(c, f)
    counters, hashes = set(), set()
    for st, v in r.rets:
        v = text(st, v)
        if v is None:
            c.undecided(RULE, 'the returned text is not known', w, facts(st))
            continue
        given = st.decide(mk_eq0(strlen(root)))
        name = v
        if contains(v, lambda t: t[:2] == ('t', 'joined')):
            if v[:2] != ('t', 'joined'):
                c.undecided(RULE, 'the joined path is changed', w, facts(st))
                continue
            name = v[3]
            c.decide(True if v[2] == root else verdict(st, 0, v[2]), RULE, 'the name is placed under the root path', w, facts(st))
        else:
            c.decide(True if given == 1 else verdict(st, 0, v if given is None else num(0)), RULE, 'without root path the name stands alone' if given == 1 else 'the root path is left out', w, facts(st))
        ps = list(catparts(name))
        parts(c, f, r, st, ps, ext, counters, hashes, name is not v, w)
    if len(counters) > 1:
        c.undecided(RULEU, 'different numbers on different paths', w)
    for q in sorted(counters):
        counter(c, f, r, q)
    for t in sorted(hashes, key=skey):
        Hash(c, f, r).cover(t)
    c.count('paths of the generator', len(r.rets))


def params(c, f):
    """contents of the parameters: (root path, extension): the extension is the first, the root path the second"""
    return T('init', ('d', T('par', 1))), T('init', ('d', T('par', 0)))


def text(st, v):
    if v[0] == 'o':
        return st.mem.get(v[1])
    return v if v[0] in ('s', 'cat', 't') else None


def plain_fmt(p):
    """the number that a piece of text shows"""
    if p[0] == 't' and p[1] == 'fmtmod':
        p = p[2]
    if p[0] == 't' and p[1] == 'fmt':
        return lin(p[2])
    return None


def member(t):
    """member of the object whose old value the number is made from: (member, term)"""
    for x, k in t[2]:
        if x[0] == 't' and x[1] == 'init' and x[2][0] == 'f' and x[2][1] == THIS:
            return x[2][2], x, k
    return None


def parts(c, f, r, st, ps, ext, counters, hashes, rooted, w):
    plain = [p for p in ps if plain_fmt(p) is None]
    nophi = verdict(st, 0, *plain)
    # extension
    if ps and ps[-1] == ext:
        before = ps[-2] if len(ps) > 1 else None
        ok = before is not None and before[0] == 's' and before[1].endswith('.')
        c.decide(True if ok else verdict(st, 0, before or num(0)), RULE, 'the name ends with a dot and the extension', w, facts(st))
    else:
        c.decide(nophi, RULE, 'the name does not end with the extension', w, facts(st))
    # number and hash
    nums = [(i, p, plain_fmt(p)) for i, p in enumerate(ps) if plain_fmt(p) is not None]
    cnt = [(i, p, t, member(t)) for i, p, t in nums if member(t)]
    if len(cnt) != 1:
        part = [x for p in ps for x in subterms(p) if isinstance(x, tuple) and x[:1] == ('t',) and x[1] in NARROW and member(lin(x[2]))]
        if not cnt and part:
            c.decide(verdict(st, 0), RULEU, 'the name has only some bits of the number', w, facts(st))
        else:
            c.decide(nophi if not cnt else None, RULEU, 'the name has %d numbers that come from a member' % len(cnt), w, facts(st))
    for i, p, t, m in cnt:
        q, x, k = m
        counters.add(q)
        if len(t[2]) != 1 or k not in (1, -1):
            c.undecided(RULEU, 'the number in the name is %s' % show(t), w, facts(st))
            continue
        nxt = ps[i + 1] if i + 1 < len(ps) else S('')
        ok = nxt[0] == 's' and nxt[1] and not nxt[1][0].isalnum()
        digits = any(plain_fmt(x) is not None for x in (nxt, ps[i - 1] if i else S('')))
        prv = ps[i - 1] if i else S('_')
        okb = prv[0] == 's' and prv[1] and not prv[1][-1].isalnum()
        c.decide(True if ok and okb else None if st.unk or not digits and imprecise(nxt, prv) else False, RULEU, 'the number stands apart from its neighbours in the name', w, facts(st))
        new = st.mem.get(field(THIS, q))
        d = sub(lin(new), lin(x)) if new is not None else num(0)
        step = d[1] if isnum(d) else None
        c.decide(True if step is not None and step > 0 else verdict(st, 0, new or num(0)) if step is not None else None, RULEU,
                 'the number %s with each name' % ('grows by %d' % step if step and step > 0 else 'does not grow' if step == 0 else 'goes down' if step else 'is changed to %s' % show(new)), w, facts(st))
    rest = [(i, p, t) for i, p, t in nums if not member(t)]
    h = [t for i, p, t in rest if not isnum(t)]
    if len(h) == 1:
        hashes.add(h[0])
    else:
        c.decide(verdict(st, 0) if not rest and not any(imprecise(p) for p in ps) else None, RULEH, 'the name has %d hashes' % len(h), w, facts(st))
    # program
    prog = []
    for p in ps:
        if contains(p, lambda t: t[:2] in (('t', 'front'), ('t', 'elem'))):
            prog.append(p)
    none = any(zero_list(st, t) for t in terms(st, 'lsize'))
    if len(prog) == 1:
        p = prog[0]
        base = p
        while base[0] == 't' and base[1] == 'tail':
            base = base[2]
        if rooted and ps[0] == p:
            c.decide(True if p != base else verdict(st, 0, p), RULE, 'under a root path %s of the program is used' % ('the tail' if p != base else 'the whole path, which may be absolute,'), w, facts(st))
        first = base[0] == 't' and base[1] == 'front' or base[0] == 't' and base[1] == 'init' and contains(base, lambda t: t[:2] == ('t', 'front'))
        c.decide(True if first else None, RULE, 'the name has the program name' if first else 'the name has %s' % show(p), w, facts(st))
    elif not prog and none:
        c.held(RULE, 'a name before any run has no program name', w)
    elif not prog:
        c.decide(nophi, RULE, 'the name lacks the program name', w, facts(st))
    else:
        c.undecided(RULE, 'the name has %d argument texts' % len(prog), w, facts(st))


def terms(st, op):
    out = set()
    for t in list(st.bind) + [x for l in (st.le, st.ne) for y in l for x, k in lin(y)[2]]:
        for x in subterms(t) if isinstance(t, tuple) else ():
            if isinstance(x, tuple) and x[:2] == ('t', op):
                out.add(x)
    return out


def zero_list(st, t):
    return st.decide(mk_eq0(lin(t))) == 1


def defined(c, f, r):
    w = c.where(f)
    bad = False
    seen = set()
    for st, kind, fr, line, det in r.aborts:
        if (kind, line) in seen:
            continue
        seen.add((kind, line))
        bad = True
        c.decide(verdict(st, 0), RULED, 'asking for a name: %s' % kind, c.where(fr.fn if fr else f, line), facts(st))
    for st, v in r.rets:
        for e in evs(st, 'front-maybe-empty'):
            if e in seen:
                continue
            seen.add(e)
            bad = True
            c.decide(verdict(st, 0), RULED, 'the first argument is taken although there may be none', c.where(f, e[-1] if isinstance(e[-1], int) else None), facts(st))
    for st, fr, line, loc in r.uninit:
        bad = True
        c.decide(verdict(st, 0), RULED, 'reads %s, which has no value' % show(loc), c.where(f, line), facts(st))
    if not bad:
        c.held(RULED, 'no path takes an element of an empty list or an undefined value', w)


def counter(c, f, r, q):
    cls = q.rsplit('::', 1)[0]
    # the constructor gives it a value
    for g in sorted(c.p.functions.values(), key=lambda x: x['key']):
        if g['kind'] != 'ctor' or g.get('class') != cls or 'body' not in g or g.get('implicit') and g['params']:
            continue
        if g['params'] and not g.get('implicit') and g['params'][0].get('c') == cls:
            continue
        try:
            x = c.analyse(g, hooks={RT + '::RegressionTest': nothing}, merge=False, maxsteps=200000)
        except (engine.TooBig, RecursionError):
            c.undecided(RULED, 'the constructor is too large', c.where(g))
            continue
        for st, v in x.rets:
            y = x.E.load(st, field(x.this, q))
            und = y[:2] == ('t', 'undef')
            c.decide(True if not und else verdict(st, 0), RULED, 'the constructor %s the number' % ('leaves a value in' if not und else 'does not set'), c.where(g), facts(st))
    run = {k for k in c.p.functions if c.p.functions[k]['qual'] == REG + '::Main'}
    gen = f['key']
    helpers = reach(c, [gen])
    for k, ws in sorted(writers(c, q).items()):
        g = c.p.functions[k]
        if k == gen or g['kind'] == 'ctor' or k in run or k in helpers and only_from(c, k, gen):
            continue
        c.undecided(RULEU, '%s may change the number' % g['qual'], c.where(g, ws[0][0]))
    t = [fl['t'] for fl in c.p.classes[cls]['fields'] if '%s::%s' % (cls, fl['n']) == q]
    if t:
        narrow = t[0].replace('mutable ', '') in ('char', 'signed char', 'unsigned char', 'bool', 'short', 'unsigned short', 'unsigned short int', 'uint8_t', 'uint16_t')
        c.decide(not narrow, RULEU, 'the number is kept in %s' % t[0], c.where(f))


def only_from(c, k, gen):
    return all(g['key'] == gen for g in c.p.functions.values() if 'body' in g and k in callees(c, g))


# --- the hash

class Hash:
    def __init__(self, c, f, r):
        self.c, self.f, self.r = c, f, r
        self.seen = set()

    def at(self, L):
        return self.c.where(self.f, L.line)

    def loop_of(self, phi):
        for L in self.r.loops:
            for loc, p in L.phi.items():
                if p == phi:
                    return L, loc
        return None, None

    def cover(self, t):
        """the number in the name, back to the arguments"""
        c = self.c
        phis = {x for x in subterms(t) if isinstance(x, tuple) and x[:2] == ('t', 'phi')}
        if not phis:
            c.undecided(RULEH, 'the hash is %s' % show(t)[:100], c.where(self.f))
            return
        for phi in sorted(phis, key=skey):
            self.carried(phi)

    def carried(self, phi):
        if phi in self.seen:
            return
        self.seen.add(phi)
        c = self.c
        L, loc = self.loop_of(phi)
        if L is None:
            c.undecided(RULEH, 'the loop of the hash is not known', c.where(self.f))
            return
        contents = set()
        steps = [(it[2], single(it[2].mem.get(loc))) for it in L.iters]
        chars = any(contains(new, lambda t: t[:2] == ('t', 'at')) for st, new in steps if new is not None)
        for st, new in steps:
            if new is None:
                continue
            ats = {x for x in subterms(new) if isinstance(x, tuple) and x[:2] == ('t', 'at')}
            inner = {x for x in subterms(new) if isinstance(x, tuple) and x[:2] == ('t', 'phi') and x != phi and self.loop_of(x)[0] is not None and self.loop_of(x)[0] is not L}
            if ats:
                for a in ats:
                    contents.add(a[2])
                    self.index(L, a[3], a[2])
                self.mixes(L, st, new, phi, ats)
            elif inner and new in inner:
                # the value of an inner loop that starts from ours
                for x in inner:
                    L2, loc2 = self.loop_of(x)
                    ok = L2.entry.mem.get(loc2) == phi
                    c.decide(True if ok else None, RULEH, 'the inner loop goes on with the hash', self.at(L2))
                    self.carried(x)
            elif new == phi:
                c.decide(early(st) if chars else None, RULEH, 'a step leaves the hash as it is', self.at(L), facts(st))
            else:
                c.undecided(RULEH, 'a step of the hash is not understood: %s' % show(new)[:120], self.at(L), facts(st))
        for k in sorted(contents, key=skey):
            self.content(L, k)
        if not contents and not any(True for x in L.iters):
            c.undecided(RULEH, 'the loop of the hash has no step', self.at(L))

    def index(self, L, i, text):
        """the index goes from 0 to the end in steps of one"""
        c = self.c
        i = lin(i)
        ph = [(x, k) for x, k in i[2] if x[:2] == ('t', 'phi')]
        if len(ph) != 1 or len(i[2]) != 1 or ph[0][1] != 1:
            c.undecided(RULEH, 'the position in the arguments is %s' % show(i), self.at(L))
            return
        loc = [l for l, p in L.phi.items() if p == ph[0][0]]
        if not loc:
            c.undecided(RULEH, 'the position is not that of the loop', self.at(L))
            return
        loc = loc[0]
        e = L.entry.mem.get(loc)
        e = add(lin(e), num(i[1])) if e is not None else None
        c.decide(True if e is not None and isnum(e) and e[1] == 0 else (False if e is not None and isnum(e) and not L.entry.unk else None), RULEH,
                 'the characters are taken from position %s on' % (show(e) if e is not None else '?'), self.at(L))
        for it in L.iters:
            st = it[2]
            d = sub(lin(st.mem.get(loc)), lin(ph[0][0])) if st.mem.get(loc) is not None else num(0)
            one = isnum(d) and d[1] == 1
            c.decide(True if one else verdict(st, 0, d) if isnum(d) else None, RULEH, 'the position moves by %s' % show(d), self.at(L), facts(st))
        for x in L.exits:
            st = x[2]
            p = add(lin(ph[0][0]), num(i[1]))
            end = st.prove_le(sub(strlen(text), p))
            if not end and contains(strlen(text), lambda t: t[:2] == ('t', 'len')) and st.unk:
                c.undecided(RULEH, 'where the loop over the characters ends is not known', self.at(L), facts(st))
                continue
            c.decide(True if end else early(st), RULEH, 'the loop over the characters ends at their end' if end else 'the loop over the characters may end before their end', self.at(L), facts(st))

    def content(self, L, k):
        """what the characters come from: all arguments"""
        c = self.c
        if k[0] == 't' and k[1] == 'phi':
            L2, loc = self.loop_of(k)
            if L2 is None:
                c.undecided(RULEH, 'the text of the arguments is not known', self.at(L))
                return
            e = L2.entry.mem.get(loc)
            c.decide(True if e is not None and e[0] == 's' else None, RULEH, 'the text of the arguments starts as %s' % (show(e) if e else '?'), self.at(L2))
            for it in L2.iters:
                st = it[2]
                v = st.mem.get(loc)
                ps = list(catparts(v)) if v is not None else []
                el = [p for p in ps if self.element(p)]
                if v == k:
                    c.decide(verdict(st, 0), RULEH, 'an argument is left out of the text', self.at(L2), facts(st))
                elif k in ps and len(el) >= 1:
                    c.held(RULEH, 'each argument is added to the text', self.at(L2))
                    for p in el:
                        self.over(L2, p)
                elif k not in ps and el and not any(imprecise(p) for p in ps if p not in el):
                    c.decide(verdict(st, 0), RULEH, 'the text keeps one argument only', self.at(L2), facts(st))
                else:
                    c.undecided(RULEH, 'what is added to the text is not understood', self.at(L2), facts(st))
        elif self.element(k):
            outer = [x for x in self.r.loops if x is not L and any(p in list(subterms(k)) for p in x.phi.values())]
            for x in outer:
                self.over(x, k)
            if not outer:
                c.decide(None, RULEH, 'one argument only: %s' % show(k), self.at(L))
        else:
            c.undecided(RULEH, 'the characters of %s' % show(k)[:80], self.at(L))

    def element(self, p):
        return contains(p, lambda t: t[:2] == ('t', 'elem')) and not contains(p, lambda t: t[:2] == ('t', 'substr'))

    def over(self, L, p):
        """the loop goes over the whole list"""
        c = self.c
        its = [x for x in subterms(p) if isinstance(x, tuple) and x[:2] == ('t', 'elem')]
        phi = [x for e in its for x in subterms(e) if isinstance(x, tuple) and x[:2] == ('t', 'phi')]
        loc = [l for l, q in L.phi.items() if q in phi]
        if len(loc) != 1:
            c.undecided(RULEH, 'the loop over the arguments is not understood', self.at(L))
            return
        loc = loc[0]
        e = L.entry.mem.get(loc)
        first = e is not None and e[:2] == ('t', 'it') and len(e) > 3 and lin(e[3]) == num(0)
        c.decide(True if first else (False if e is not None and not imprecise(e) and not L.entry.unk and e[:2] in (('t', 'it'), ('t', 'itn')) else None), RULEH,
                 'the loop over the arguments starts at the first' if first else 'the loop over the arguments starts at %s' % (show(e) if e else '?'), self.at(L))
        for it in L.iters:
            v = it[2].mem.get(loc)
            one = v is not None and v[:2] == ('t', 'itn') and v[2] == L.phi[loc] and (len(v) < 4 or v[3] == 1 or lin(v[3]) == num(1))
            c.decide(True if one else verdict(it[2], 0, num(0)) if v is not None and v[:2] == ('t', 'itn') else None, RULEH, 'the loop over the arguments goes to the next', self.at(L), facts(it[2]))
        for x in L.exits:
            st = x[2]
            end = any(b is True and a[0] == 'eq' and contains(a, lambda t: t[:2] == ('t', 'lend')) for a, b in st.facts.items()) or any(
                contains(a, lambda t: t[:2] == ('t', 'lend')) or isinstance(b, tuple) and contains(b, lambda t: t[:2] == ('t', 'lend')) for a, b in st.bind.items())
            c.decide(True if end else early(st), RULEH, 'the loop over the arguments ends at the end' if end else 'the loop over the arguments may end early', self.at(L), facts(st))

    def mixes(self, L, st, new, phi, ats):
        """every bit of the old hash and of the character is in the new hash"""
        c = self.c
        n = width(self.f, L, phi, new)
        b = Bits({phi: [frozenset([('h', i)]) for i in range(n)] + [frozenset()] * (64 - n)},
                 {a: [frozenset([('c', min(i, 7))]) for i in range(64)] for a in ats})
        v = b.val(new)
        if v is None:
            c.undecided(RULEH, 'a step of the hash is not understood: %s' % show(new)[:120], self.at(L), facts(st))
            return
        got = frozenset().union(*v[:n])
        lost = [('h', i) for i in range(n) if ('h', i) not in got]
        lostc = [i for i in range(8) if ('c', i) not in got]
        # the sign bit never differs in ASCII text
        c.decide(True if not lost else verdict(st, 0), RULEH, 'a step keeps all %d bits of the hash' % n if not lost else 'a step loses %d bits of the old hash' % len(lost), self.at(L), facts(st))
        c.decide(True if not [i for i in lostc if i < 7] else verdict(st, 0), RULEH, 'a step takes in all bits of the character' if not lostc else 'a step leaves out %d bits of the character' % len(lostc), self.at(L), facts(st))


def single(v):
    if v is not None and v[0] == 'n' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        return v[2][0][0]
    return v


def early(st):
    return None if st.unk else False


def width(f, L, phi, *news):
    t = None
    for n in walk(f['body']):
        if n['k'] == 'decl':
            for v in n['v']:
                if v['n'] == phi[3][-1] if phi[3][0] == 'v' else False:
                    t = v.get('t')
    t = (t or '').replace('const ', '')
    outer = [x for x in news if x[0] == 't' and x[1] in ('uchar', 'ushort')]
    if t is None and outer:
        return 8 if outer[0][1] == 'uchar' else 16
    return {'unsigned char': 8, 'uint8_t': 8, 'unsigned short': 16, 'uint16_t': 16, 'short': 16, 'unsigned long': 64, 'size_t': 64, 'uint64_t': 64, 'long': 64}.get(t, 32)


class Bits:
    """for each of 64 bits of a value the bits it may depend on"""
    def __init__(self, *envs):
        self.env = {}
        for e in envs:
            self.env.update(e)

    def const(self, t):
        return t[1] if t[0] == 'n' and not t[2] else None

    def val(self, t):
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k == 'n':
            c = self.const(t)
            if c is not None:
                return [frozenset()] * 64
            if len(t[2]) == 1 and t[2][0][1] == 1 and t[1] == 0:
                return self.val(t[2][0][0])
            vs = [(self.val(x), f) for x, f in t[2]]
            if any(v is None for v, f in vs):
                return None
            out = []
            acc = frozenset()
            for i in range(64):
                for v, f in vs:
                    tz = (f & -f).bit_length() - 1 if f else 64
                    if i >= tz:
                        acc = acc | v[i - tz]
                out.append(acc)
            return out
        if k != 't':
            return None
        op = t[1]
        if op in ('uchar', 'byte', 'ushort', 'uint', 'uint16', 'char', 'schar', 'short', 'wrap', 'trunc', 'int', 'mod'):
            v = self.val(t[2])
            if v is None:
                return None
            n = {'uchar': 8, 'byte': 8, 'char': 8, 'schar': 8, 'ushort': 16, 'uint16': 16, 'short': 16, 'uint': 32, 'int': 32}.get(op)
            if n is None:
                w = self.const(t[3]) if len(t) > 3 and isinstance(t[3], tuple) else t[3] if len(t) > 3 else None
                n = w if isinstance(w, int) else 64
            return v[:n] + [frozenset() if op in ('uchar', 'byte', 'ushort', 'uint16', 'uint') else v[n - 1]] * (64 - n)
        if op in ('&', '|', '^'):
            a, b = self.val(t[2]), self.val(t[3])
            ca, cb = self.const(lin(t[2])), self.const(lin(t[3]))
            if op == '&' and cb is not None and a is not None:
                return [a[i] if cb >> i & 1 else frozenset() for i in range(64)]
            if op == '&' and ca is not None and b is not None:
                return [b[i] if ca >> i & 1 else frozenset() for i in range(64)]
            if a is None or b is None:
                return None
            return [x | y for x, y in zip(a, b)]
        if op in ('<<', '>>'):
            a, n = self.val(t[2]), self.const(lin(t[3]))
            if a is None or n is None or not 0 <= n < 64:
                return None
            return [frozenset()] * n + a[:64 - n] if op == '<<' else a[n:] + [frozenset()] * n
        if op == '*':
            a, b = self.val(t[2]), self.val(t[3])
            if a is None or b is None:
                return None
            out, acc = [], frozenset()
            for i in range(64):
                acc = acc | a[i] | b[i]
                out.append(acc)
            return out
        return None


# --- the start of a run

def start(c):
    f = c.need(REG + '::Main')
    lst = arglist(c)
    if lst is None:
        c.undecided(RULEL, 'which member holds the arguments is not known', c.where(f))
        return

    def run(E, st, fr, cc):
        st.emit('run', tuple(cc.args), E.load(st, field(cc.obj, lst)), cc.line)
        return [(st, lin(T('run', st.fresh())))]
    r = c.analyse(f, hooks={RT + '::Main': run}, merge=False)
    n = 0
    for st, v in r.rets:
        es = evs(st, 'run')
        w = c.where(f, es[0][3] if es else None)
        if len(es) != 1:
            c.decide(verdict(st, 0), RULEL, '%d runs' % len(es), w, facts(st))
            continue
        n += 1
        c.decide(True if v[0] in ('n', 't') and lin(v)[2] and lin(v)[2][0][0][1] == 'run' else None, RULEL, 'the result of the run is returned', w, facts(st))
        val = es[0][2]
        if val == T('init', field(THIS, lst)):
            c.decide(verdict(st, 0), RULEL, 'the argument list is not replaced', w, facts(st))
            continue
        filled(c, f, r, st, val, w)
    c.count('starts of a run', n)


def arglist(c):
    """the member with the arguments: the list of texts that the generator reads"""
    f = c.need(REG + '::GenerateFileName')
    out = set()
    for k in reach(c, [f['key']]):
        for n in walk(c.p.functions[k].get('body')):
            if n['k'] == 'mem' and n.get('fc') == REG:
                t = [fl['t'] for fl in c.p.classes[REG]['fields'] if fl['n'] == n['n']]
                if t and ('list<' in t[0] or 'vector<' in t[0] or 'deque<' in t[0]):
                    out.add('%s::%s' % (REG, n['n']))
    return out.pop() if len(out) == 1 else None


def filled(c, f, r, st, val, w):
    for L in r.loops:
        for loc, phi in L.phi.items():
            if phi != val and not (val[0] == 'L' and val[2] == phi and not val[1] and not val[3]):
                continue
            e = r.E.load(L.entry, loc)
            ok = e is not None and e[0] == 'L' and not e[1] and e[2] is None and not e[3]
            old = e is not None and contains(e, lambda t: t[:2] == ('t', 'init'))
            c.decide(True if ok else (False if old and not L.entry.unk else None), RULEL, 'the list is %s before the arguments are added' % ('empty' if ok else show(e) if e else '?'), w, facts(L.entry))
            for it in L.iters:
                b = it[2]
                v = b.mem.get(loc)
                one = v is not None and v[0] == 'L' and not v[1] and v[2] == phi and len(v[3]) == 1
                if not one:
                    c.decide(verdict(b, 0, num(0)) if v == phi or v is not None and v[0] == 'L' else None, RULEL, 'a step adds %s' % ('nothing' if v == phi else 'something else than one argument'), w, facts(b))
                    continue
                t = v[3][0]
                cells = [x for x in subterms(t) if isinstance(x, tuple) and x[:2] == ('t', 'cell') and x[2] == T('par', 1)]
                if t[:2] != ('t', 'cs') or len(cells) != 1:
                    c.undecided(RULEL, 'a step adds %s' % show(t), w, facts(b))
                    continue
                i = lin(cells[0][3])
                idx = [l for l, p in L.phi.items() if any(x == p for x, k in i[2])]
                if len(idx) != 1 or len(i[2]) != 1 or i[2][0][1] != 1:
                    c.undecided(RULEL, 'a step adds argument %s' % show(i), w, facts(b))
                    continue
                il = idx[0]
                e0 = L.entry.mem.get(il)
                e0 = add(lin(e0), num(i[1])) if e0 is not None else None
                c.decide(True if e0 is not None and isnum(e0) and e0[1] == 0 else False if e0 is not None and isnum(e0) and not b.unk else None, RULEL, 'the first argument added is number %s' % (show(e0) if e0 is not None else '?'), w)
                d = sub(lin(b.mem.get(il)), lin(L.phi[il]))
                c.decide(True if d == num(1) else False if isnum(d) and not b.unk else None, RULEL, 'each step goes on by %s' % show(d), w)
                for x in L.exits:
                    end = x[2].prove_le(sub(lin(T('par', 0)), add(lin(L.phi[il]), num(i[1]))))
                    c.decide(True if end else early(x[2]), RULEL, 'all arguments are added' if end else 'the loop may end before all arguments are added', w, facts(x[2]))
            return
    if val[0] == 'L' and val[2] is not None and contains(val[2], lambda t: t[:2] == ('t', 'init')):
        c.decide(verdict(st, 0), RULEL, 'the argument list is extended, not replaced', w, facts(st))
        return
    if val == ('L', (), None, ()):
        c.decide(True if st.prove_le(lin(T('par', 0))) else verdict(st, 0), RULEL, 'the argument list is empty when the run starts', w, facts(st))
        return
    if val[0] == 'L' and not val[1] and not val[3] and val[2] and val[2][:2] == ('t', 'range'):
        b, e = val[2][2:4]
        ok = b == T('par', 1) and contains(e, lambda t: t[:2] == ('t', 'cell') and t[2] == T('par', 1)) and contains(e, lambda t: t == T('par', 0))
        c.decide(True if ok else None, RULEL, 'the list is made from the range of all arguments', w, facts(st))
        return
    c.undecided(RULEL, 'the argument list is %s' % show(val)[:100], w, facts(st))
