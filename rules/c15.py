"""C15 Base64 encoding follows RFC 2045."""
from .common import *
from .measure import B64
from . import base64 as b64, switches
from .base64 import L, label, WIDTH, ALPHABET, Abs, lconst, bits_of, ladd
from .c16 import setting
from sa.models import catparts
from sa import export
from sa.terms import scale

UNITS = export.CORE
EXPLAIN = """
The encoding function is brought into a graph by the path-partitioned abstract interpreter: one node for the loop head, one edge for each
way through the body and for each way out.  A relational pass finds what each loop-carried counter is in terms of the number of groups
done (offset 3 for each group, remaining bytes N - 3 for each group).  On every edge the text appended to the result is taken apart: it
has to be four table characters whose positions have, bit by bit (bit-provenance domain), the right bits of the three bytes at hand; the
line break only where the setting is on; at every return the facts of the path have to entail how many bytes are left (0, 1 or 2) and the
appended characters have to be the padded group for them.  The tables are compared entry by entry with the alphabet of RFC 2045; the line
length is followed through the loop with the values of the counters (finite)."""
EXPLAIN += """
The line break switch is made by every function that writes it what its name or argument says."""
ASSUME = ['the input has at least as many bytes as said', 'fewer than 2^62 bytes']

RULE = 'each three bytes give the right four characters'
RULET = 'the tables are the alphabet and its inverse'
RULEL = 'no line has more than 76 characters'
RULEE = 'the input is read to its end and not beyond'

INPUT, SIZE = T('par', 0), T('par', 1)


def check(ck):
    tables(ck)
    ck.run([('line break switch', lambda c: switches.switch(c, B64, 'GetAddNewLines', put=['SetAddNewLines'], on=['NewLinesOn'], off=['NeLinesOff', 'NewLinesOff']))])
    f = ck.need('%s::Encode' % B64)
    r = ck.analyse(f, merge=False, setup=small)
    w0 = ck.where(f)
    for o in r.oob:
        ck.decide(verdict(o[0], 0), RULET, 'position %s of %s is outside' % (show(o[5]), show(o[4])), ck.where(f, o[2]), facts(o[0]))
    g = b64.graph(r)
    if g is None:
        ck.undecided(RULE, 'encoding is not one loop over the input', w0)
        return
    e = Encode(ck, f, r, g)
    e.run()
    ck.count('ways through the loop and out of it', e.n)


def small(E, st, this, vals):
    st.assume(mk_le(sub(lin(SIZE), num(1 << 62))))


def codes(E, key):
    t = E.table(key)
    return [x % 256 for x in t] if t else None


def tables(ck):
    from sa import engine
    E = engine.Engine(ck.p)
    want = [ord(c) for c in ALPHABET]
    for key in sorted(ck.p.globals):
        if not key.startswith(B64 + '::') and 'ase64' not in key:
            continue
        t = codes(E, key)
        if t is None:
            continue
        if len(t) in (64, 65):
            bad = [i for i in range(64) if t[i] != want[i]]
            ck.decide(not bad, RULET, '%s maps 0..63 to the alphabet' % key if not bad else '%s maps %d to %r' % (key, bad[0], chr(t[bad[0]])), key)
            ck.count('table entries', 64)
        elif len(t) in (128, 256):
            bad = [i for i in range(64) if t[want[i]] != i] + [i for i in range(len(t)) if i not in want and t[i] < 64]
            ck.decide(not bad, RULET, '%s is the inverse of the alphabet' % key if not bad else '%s is not the inverse of the alphabet at %d' % (key, bad[0]), key)
            ck.count('table entries', len(t))


def step(phi, v):
    """by how many bytes the pointer moves"""
    if v == phi or v == ('p', ('d', phi)):
        return 0
    if v is not None and v[0] == 'p' and v[1][0] == 'e' and v[1][1] == ('d', phi) and isnum(v[1][2]):
        return v[1][2][1]
    return None


class Encode:
    def __init__(self, c, f, r, g):
        self.c, self.f, self.r = c, f, r
        self.loop, self.edges, self.before = g
        self.E = r.E
        self.n = 0
        self.nl = setting(c, 'GetAddNewLines')
        self.tabs = {}

    def where(self, e=None):
        return self.c.where(self.f, self.loop.line)

    def table(self, key):
        if key not in self.tabs:
            t = codes(self.E, key)
            self.tabs[key] = t is not None and t[:64] == [ord(x) for x in ALPHABET] and len(t) in (64, 65)
        return self.tabs[key]

    # --- counters

    def counters(self):
        """what each integer that the loop carries is at the head, in terms of N bytes and g groups done"""
        env = {SIZE: L(0, N=1)}
        entry = Abs(env, self.E.table)
        start = {loc: entry.val(self.loop.entry.mem[loc]) for loc in self.loop.phi if loc in self.loop.entry.mem}
        for loc in sorted(self.loop.phi, key=skey):
            x = start.get(loc)
            phi = self.loop.phi[loc]
            if x is None or x[0] != 'lin':
                continue
            for k in (3, 1, 4, 2, -3, -1):
                env2 = dict(env)
                env2[phi] = ladd(x, L(0, g=k))
                ok = True
                for e in self.nexts():
                    v = Abs(env2, self.E.table).val(e.st.mem.get(loc) or num(0))
                    if v != ladd(x, L(k, g=k)):
                        v = self.through(e, env2, e.st.mem.get(loc), ladd(x, L(k, g=k)))
                        if not v:
                            ok = False
                            break
                if ok:
                    env[phi] = env2[phi]
                    break
        self.ptrs = {INPUT: L(0)}
        for loc, phi in self.loop.phi.items():
            v = self.loop.entry.mem.get(loc)
            if v not in (INPUT, ('p', ('d', INPUT))):
                continue
            steps = {step(phi, e.st.mem.get(loc)) for e in self.nexts()}
            if len(steps) == 1 and None not in steps:
                self.ptrs[phi] = L(0, g=steps.pop())
        return env

    def through(self, e, env, v, want):
        """may the value be that one, by what the path knows?  (a counter written in another way: 0 where N - 3g - 3 is 0)"""
        if v is None:
            return False
        w = self.term(env, want)
        if w is None:
            return False
        return e.st.decide(mk_eq0(sub(lin(v), w))) == 1

    def term(self, env, x):
        """the linear form x of N and g as a term of the path"""
        d = dict(x[1])
        out = num(x[2])
        if d.get('N'):
            out = add(out, scale(lin(SIZE), d['N']))
        if d.get('g'):
            for phi, v in env.items():
                if phi[:2] == ('t', 'phi') and v[0] == 'lin' and dict(v[1]).get('g') and d['g'] % dict(v[1])['g'] == 0:
                    q = d['g'] // dict(v[1])['g']
                    # g = (phi - rest) / k
                    out = add(out, scale(lin(phi), q))
                    out = sub(out, num(v[2] * q))
                    if dict(v[1]).get('N'):
                        out = sub(out, scale(lin(SIZE), dict(v[1])['N'] * q))
                    return out
            return None
        return out

    def nexts(self):
        return [e for es in self.edges.values() for e in es if e.what == 'next']

    # --- characters

    def parts(self, e, v):
        """what the edge appends to the text carried by the loop; None if that is not how it is built"""
        more = []
        if v[0] == 't' and v[1] == 'resized' and len(v) > 3:
            k = e.st.norm(sub(lin(v[3]), strlen(v[2])))
            if not isnum(k) or not 0 <= k[1] < 100:
                return None
            v, more = v[2], [S(chr(0) * k[1])]
        ps = list(catparts(v)) + more
        head = [p for p in ps if p[0] == 't' and p[1] == 'phi']
        if e.h0 is None:
            return ps if not head else None
        if len(head) != 1 or ps[0] != head[0] or head[0] != self.loop.phi.get(self.out):
            return None
        return ps[1:]

    def chars(self, e, ps, env):
        """each appended character: ('c', code) | ('b', six bits or None, table is right) | None"""
        out = []
        wrong = []

        def atom(a, t):
            i = None
            if t[1] == 'cell' and t[2] in self.ptrs:
                i = a.val(lin(t[3]))
                i = None if i is None else ladd(i, self.ptrs[t[2]]) if i[0] == 'lin' else None
            elif t[1] == 'init' and t[2][0] == 'd' and t[2][1] in self.ptrs:
                i = self.ptrs[t[2][1]]
            if i is not None:
                k = lconst(ladd(i, L(0, g=3), -1))
                if k is None:
                    wrong.append('number ' + b64.showabs(ladd(i, L(0, g=3), -1)))
                    return ()
                if not 0 <= k <= 2:
                    wrong.append(k)
                return label(('i', k), 8)
            return None
        a = Abs(env, self.E.table, atom)
        for p in ps:
            if p[0] == 's':
                out += [('c', ord(x)) for x in p[1]]
            elif p[0] == 't' and p[1] == 'chr':
                x = p[2]
                v = a.val(x)
                if x[0] == 'n' and len(x[2]) == 1 and x[1] == 0 and x[2][0][1] == 1:
                    x = x[2][0][0]
                if x[0] == 't' and x[1] in ('uchar', 'schar', 'char'):
                    x = x[2]
                if lconst(v) is not None:
                    out.append(('c', lconst(v) % 256))
                elif x[0] == 't' and x[1] == 'tab':
                    out.append(('b', bits_of(a.val(x[3])), self.table(x[2])))
                else:
                    out.append(None)
            else:
                out.append(None)
        return out, wrong

    def expect(self, m, n):
        """bits of the m-th character of a group of n bytes"""
        b = []
        for i in range(6):
            pos = 18 - 6 * m + i
            k = 2 - pos // 8
            b.append((('i', k), pos % 8) if k < n else 0)
        return tuple(b) + (0,) * (WIDTH - 6)

    # --- the walk

    def run(self):
        c = self.c
        env = self.counters()
        rets = [e for es in self.edges.values() for e in es if e.what == 'return'] + [e for e in self.before if e.what == 'return']
        outs = set()
        for e in rets:
            v = self.result(e)
            for p in subterms(v) if v is not None else []:
                if isinstance(p, tuple) and p[:2] == ('t', 'phi') and self.isstr(p):
                    outs.update(loc for loc, phi in self.loop.phi.items() if phi == p)
        if len(outs) != 1:
            c.undecided(RULE, 'the result is not built up by the loop', self.where())
            return
        self.out = outs.pop()
        start = self.loop.entry.mem.get(self.out)
        c.decide(True if start == S('') else (False if start is not None and start[0] == 's' else None), RULE,
                 'the result is empty before the first group' if start == S('') else 'the result starts with %s' % (show(start) if start else 'something unknown'), self.where())
        for e in self.nexts():
            self.n += 1
            self.one(e, env, 3, e.st.mem.get(self.out))
        for e in rets:
            self.n += 1
            ns = self.lefts(e, env)
            if ns is None:
                c.undecided(RULEE, 'how many bytes are left at the end is not known', self.where(), facts(e.st))
                continue
            for n in ns:
                if n > 2:
                    c.decide(False if self.precise(e, env) else None, RULEE, 'returns although %d bytes are left' % n, self.where(), facts(e.st))
                else:
                    c.held(RULEE, 'a return with %d bytes left' % n, self.where())
                    self.one(e, env, n, self.result(e), len(ns) == 1 or self.precise(e, env))
        for es in list(self.edges.values()) + [self.before]:
            for e in es:
                if e.what == 'throw':
                    c.undecided(RULE, 'encoding throws', self.where(), facts(e.st))
        self.lines(env)

    def isstr(self, phi):
        return any(p == phi and self.loop.entry.mem.get(loc, ('?',))[0] in ('s', 'cat') for loc, p in self.loop.phi.items())

    def result(self, e):
        v = e.val
        if v is None:
            return None
        return e.st.mem.get(v[1]) if v[0] == 'o' else v

    def ended(self, env, n):
        """the counters where n bytes are left: N is three times the number of groups and n"""
        out = {}
        for t, v in env.items():
            d = dict(v[1])
            k = d.pop('N', 0)
            out[t] = L(v[2] + k * n, **dict(d, g=d.get('g', 0) + 3 * k))
        return out

    def rest(self, e, env):
        """bytes left at the head, as a term"""
        if e.h0 is None:
            return lin(SIZE)
        return self.term(env, L(0, N=1, g=-3))

    def left(self, e, env):
        t = self.rest(e, env)
        if t is None:
            return None
        for k in range(3):
            if e.st.decide(mk_eq0(sub(t, num(k)))) == 1:
                return k
        return None

    def lefts(self, e, env):
        """how many bytes may be left (5 stands for more), by the facts of the path"""
        t = self.rest(e, env)
        if t is None:
            return None
        out = []
        for k in range(5):
            st = e.st.fork()
            if st.decide(mk_eq0(sub(t, num(k)))) != 0 and st.assume(mk_eq0(sub(t, num(k)))):
                out.append(k)
        if not e.st.prove_le(sub(t, num(4))):
            out.append(5)
        return out

    def precise(self, e, env):
        """are all facts that the way out adds about the counters, so that what they allow is possible?"""
        if e.st.unk:
            return False
        ok = set(env) | {SIZE}
        h = e.h0
        for x in list(e.st.le) + list(e.st.ne):
            if h is not None and (x in h.le or x in h.ne):
                continue
            if any(t not in ok for t, k in lin(x)[2]):
                return False
        for t, v in e.st.bind.items():
            if h is not None and t in h.bind:
                continue
            if t not in ok or isinstance(v, tuple) and v[0] == 'n' and any(y not in ok for y, k in v[2]):
                return False
        return True

    def one(self, e, env, n, v, sure=True):
        c, w = self.c, self.where()

        def verdict(st, d):
            return False if sure and not st.unk else None
        group = {3: 'a group', 2: 'a last group of two bytes', 1: 'a last group of one byte', 0: 'the end'}[n]
        ps = self.parts(e, v) if v is not None else None
        if ps is None:
            c.undecided(RULE, '%s is not appended to the result' % group, w, facts(e.st))
            return
        if n == 3:
            t = self.rest(e, env)
            ok = t is not None and e.st.prove_le(sub(num(3), t))
            if not ok:
                bad = t is not None and not e.st.unk and any(can(e.st, mk_eq0(sub(t, num(k)))) for k in range(3))
                c.decide(False if bad else None, RULEE, 'takes a group although fewer than three bytes may be left', w, facts(e.st))
                return
        ch, wrong = self.chars(e, ps, env if n == 3 else self.ended(env, n))
        if wrong:
            c.decide(verdict(e.st, 0), RULEE, 'uses byte %s from the start of %s' % (wrong[0], group), w, facts(e.st))
            return
        data = [x for x in ch if x != ('c', 10)]
        if len(data) != len(ch):
            on = self.nl is not None and e.st.facts.get(self.nl[0])
            if self.nl is None or (on is None and e.st.unk):
                c.undecided(RULE, 'a line break where the setting is not known', w, facts(e.st))
            elif on is None or bool(on) != bool(self.nl[1]):
                c.decide(verdict(e.st, 0), RULE, 'a line break although line breaks are off', w, facts(e.st))
            else:
                c.held(RULE, 'a line break only where the setting is on', w)
        want = [self.expect(m, n) for m in range(n + 1)] + [None] * (3 - n) if n else []
        if len(data) != len(want) and None not in data:
            c.decide(verdict(e.st, 0), RULE, '%s gives %d characters' % (group, len(data)), w, facts(e.st))
            return
        if len(data) != len(want):
            c.undecided(RULE, '%s appends something not understood' % group, w, facts(e.st))
            return
        for m, (x, b) in enumerate(zip(data, want)):
            if x is None:
                c.undecided(RULE, 'character %d of %s is not understood' % (m, group), w, facts(e.st))
            elif b is None:
                c.decide(True if x == ('c', ord('=')) else verdict(e.st, 0), RULE, 'character %d of %s is =' % (m, group), w, facts(e.st))
            elif x[0] == 'c':
                c.decide(verdict(e.st, 0), RULE, 'character %d of %s is %r whatever the input' % (m, group, chr(x[1])), w, facts(e.st))
            elif not x[2]:
                c.undecided(RULE, 'character %d of %s is taken from another table' % (m, group), w, facts(e.st))
            elif x[1] is None:
                c.undecided(RULE, 'the bits of character %d of %s are not understood' % (m, group), w, facts(e.st))
            elif x[1] == b:
                c.held(RULE, 'character %d of %s has the right bits' % (m, group), w)
            elif any(y == '?' for y in x[1]):
                c.undecided(RULE, 'the bits of character %d of %s are not all understood' % (m, group), w, facts(e.st))
            else:
                c.decide(verdict(e.st, 0), RULE, 'character %d of %s is made of the wrong bits' % (m, group), w, facts(e.st))

    # --- line length

    def lines(self, env):
        c, w = self.c, self.where()
        if self.nl is None:
            c.undecided(RULEL, 'the setting for line breaks is not known', w)
            return
        a = Abs({}, self.E.table)
        start = {phi: a.val(self.loop.entry.mem[loc]) for loc, phi in self.loop.phi.items() if loc in self.loop.entry.mem}
        start = {p: v for p, v in start.items() if lconst(v) is not None and p not in env or lconst(v) is not None and dict(env.get(p, L(0))[1]) == {}}
        key = next(iter(self.loop.heads))
        todo = [(key, tuple(sorted(start.items(), key=repr)), 0, False)]
        seen = set()
        worst = 0
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if len(seen) > 3000:
                c.undecided(RULEL, 'the line length is not followed to the end', w)
                return
            key, vals, col, over = s
            vals = dict(vals)
            for e in self.edges.get(key, []):
                if e.what == 'throw':
                    continue
                on = e.st.facts.get(self.nl[0])
                if on is not None and bool(on) != bool(self.nl[1]):
                    continue
                if contradicted(e, vals, self.E.table) or over and (e.what == 'next' or self.left(e, env) not in (0, None)):
                    continue
                v = e.st.mem.get(self.out) if e.what == 'next' else self.result(e)
                ps = self.parts(e, v) if v is not None else None
                if ps is None:
                    c.undecided(RULEL, 'what a line gets is not understood', w)
                    return
                ch, _ = self.chars(e, ps, env)
                k = col
                for x in ch:
                    k = 0 if x == ('c', 10) else k + 1
                    worst = max(worst, k)
                if worst > 76:
                    c.decide(verdict(e.st, 0), RULEL, 'a line of more than 76 characters when line breaks are on', w, facts(e.st))
                    return
                if e.what == 'next':
                    x = Abs(dict(vals), self.E.table)
                    nv = {}
                    for loc, phi in self.loop.phi.items():
                        if phi in vals and e.st.mem.get(loc) is not None:
                            y = x.val(e.st.mem[loc])
                            if lconst(y) is not None:
                                nv[phi] = y
                    t = self.rest(e, env)
                    end = t is not None and e.st.decide(mk_eq0(sub(t, num(3)))) == 1
                    todo.append((e.key2, tuple(sorted(nv.items(), key=repr)), k, end))
        c.held(RULEL, 'lines of at most %d characters (%d states of the counters)' % (worst, len(seen)), w)
        c.count('states of the line counters', len(seen))


def can(st, b):
    return st.decide(b) != 0


def contradicted(e, env, tables):
    a = Abs(dict(env), tables)
    for x in e.st.le:
        v = lconst(a.val(x))
        if v is not None and v > 0:
            return True
    for x in e.st.ne:
        if lconst(a.val(x)) == 0:
            return True
    for t, w in e.st.bind.items():
        x, y = lconst(a.val(t)), lconst(a.val(w))
        if x is not None and y is not None and x != y:
            return True
    return False
