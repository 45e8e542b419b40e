"""Functions that rewrite a text character by character: what each character becomes, proved for every text.

The result of such a function is a sum of pieces of the old text and constant texts.  A loop is covered by an invariant: the text built
so far is the translation of the characters before position p, where p is one of the loop's numbers.  Each way through the loop body
must append the translation of exactly the characters it moves p over; a stretch that is copied must hold no character that is
translated elsewhere.  What is known of the characters of a stretch between two loop variables is inferred as an invariant
(assume all candidates, drop those an edge does not re-establish, repeat)."""
import re
from .common import *
from .strings import view, char_is
from sa.models import catparts, NPOS

REFS = {38: ('&amp;', '&#38;', '&#x26;'), 60: ('&lt;', '&#60;', '&#x3c;', '&#x3C;'), 62: ('&gt;', '&#62;', '&#x3e;', '&#x3E;'),
        34: ('&quot;', '&#34;', '&#x22;'), 39: ('&apos;', '&#39;', '&#x27;')}


def posn(v):
    """the number a position is, None if the value is no position"""
    if v is None:
        return None
    if v[0] == 'n':
        return v
    if v[0] == 'p' and v[1][0] == 'c':
        return lin(v[1][2])
    return None


class Derived:
    def __init__(self):
        self.map = {}           # code -> text
        self.base = None        # the text that is translated
        self.open = []          # [(what, state)] not shown
        self.bad = []           # [(what, state)] definitely wrong

    @property
    def ok(self):
        return self.base is not None and not self.open and not self.bad


def derive(r, rets):
    """rets: [(state, content)]: the translation that all of them are"""
    d = Derived()
    D = Deriver(r, d)
    for st, v in rets:
        D.value(st, v)
    D.finish()
    return d


class Deriver:
    def __init__(self, r, d):
        self.r, self.d = r, d
        self.raw = []           # (state, base, a, b, loop, key): stretches that are copied
        self.rawat = []         # (state, position term set of codes): single characters copied
        self.done = {}

    def note(self, st, base):
        if self.d.base is None:
            self.d.base = base
        elif self.d.base != base:
            self.d.open.append(('pieces of two texts', st))

    def loop_of(self, phi):
        for L in self.r.loops:
            for loc, p in L.phi.items():
                if p == phi:
                    return L, loc
        return None, None

    def value(self, st, v):
        ps = list(catparts(v))
        L = key = None
        cur = num(0)
        if ps and ps[0][:2] == ('t', 'phi'):
            L, loc = self.loop_of(ps[0])
            if L is None:
                self.d.open.append(('the text comes from an unknown loop', st))
                return
            p = self.loop(L, loc)
            if p is None:
                return
            key = [e[2] for e in evs(st, 'loopexit') if e[1] is L]
            key = key[-1] if key else None
            cur = lin(L.phi[p]) if not self.fixed(L, p, key) else self.fixed(L, p, key)
            ps = ps[1:]
        end = self.walk(st, ps, cur, L, key)
        if end is None:
            return
        base = self.d.base
        if base is None:        # nothing copied and nothing replaced
            self.pending = (st, end)
            self.d.open.append(('the text is built from nothing', st))
            return
        n = strlen(base)
        if st.decide(mk_eq0(sub(n, end))) == 1:
            return
        if self.d.open:
            self.d.open.append(('whether the text ends where the translation ends', st))
        elif isnum(st.norm(sub(n, end))) and not st.unk:
            self.d.bad.append(('%s characters at the end are %s' % (abs(st.norm(sub(n, end))[1]), 'left out' if st.norm(sub(n, end))[1] > 0 else 'made up'), st))
        elif not ps and L is not None and not st.unk and st.decide(mk_le(sub(n, end))) is None:
            self.d.bad.append(('the characters after the last replaced one are left out', st))
        else:
            self.d.open.append(('whether the text ends where the translation ends', st))

    @staticmethod
    def fixed(L, loc, key):
        for l, tag in key or ():
            if l == loc and tag[0] == 'const':
                return lin(tag[1]) if isinstance(tag[1], tuple) else num(tag[1])
        return None

    def char(self, st, base, at, L, key):
        """codes that the character at this position may have"""
        t = T('at', base, st.norm(at))
        out = {x for x in range(128) if char_is(st, t, chr(x)) != 0}
        if L is not None:
            out &= self.inset(L, key, at)
        return out

    def walk(self, st, ps, cur, L, key):
        """position after the pieces, None if not understood"""
        d = self.d
        for i, p in enumerate(ps):
            if p[0] == 's':
                base = d.base or self.guess(st, L)
                if base is None:
                    d.open.append(('a constant text of unknown origin', st))
                    return None
                self.note(st, base)
                cs = self.char(st, base, cur, L, key)
                if not cs:
                    return None     # this way is not feasible
                if not self.single(st, base, cur, p[1], L, key):
                    d.open.append(('several constant texts in a row', st))
                    return None
                for c in cs:
                    self.put(st, c, p[1], len(cs) > 1)
                cur = add(cur, num(1))
            elif p[0] == 't' and p[1] == 'chr':
                x = lin(p[2])
                a = x[2][0][0] if len(x[2]) == 1 and x[2][0][1] == 1 and x[1] == 0 else None
                if a is None or a[:2] != ('t', 'at'):
                    k = st.norm(x)
                    if isnum(k) and (d.base or self.guess(st, L)):
                        base = d.base or self.guess(st, L)
                        self.note(st, base)
                        for c in self.char(st, base, cur, L, key):
                            self.put(st, c, chr(k[1] % 256), False)
                        cur = add(cur, num(1))
                        continue
                    d.open.append(('a character of unknown origin', st))
                    return None
                b, o, n = view(a[2])
                self.note(st, b)
                at = add(o, lin(a[3]))
                if st.decide(mk_eq0(sub(at, cur))) != 1:
                    self.off(st, cur, at)
                    return None
                self.rawat.append((st, b, at, L, key))
                cur = add(cur, num(1))
            else:
                b, o, n = view(p)
                if b[0] != 't' and b[0] != 'cat':
                    d.open.append(('a text of unknown origin', st))
                    return None
                self.note(st, b)
                if st.decide(mk_eq0(n)) == 1:
                    continue
                if st.decide(mk_eq0(sub(o, cur))) != 1:
                    self.off(st, cur, o)
                    return None
                self.raw.append((st, b, o, add(o, n), L, key))
                cur = st.norm(add(o, n))
        return cur

    def off(self, st, cur, at):
        k = st.norm(sub(at, cur))
        if isnum(k) and not st.unk:
            self.d.bad.append(('%d characters are %s' % (abs(k[1]), 'left out' if k[1] > 0 else 'repeated'), st))
        else:
            self.d.open.append(('where a piece of the text starts', st))

    def single(self, st, base, cur, s, L, key):
        """may this constant text stand for one character only?"""
        toks = re.findall(r'&#?[A-Za-z0-9]+;|.', s, re.S)
        if len(toks) == 1:
            return True
        for k, x in enumerate(toks):
            known = [c for c, refs in REFS.items() if x in refs] or [ord(x)]
            if self.char(st, base, add(cur, num(k)), L, key) != set(known):
                return True
        return False

    def put(self, st, c, text, many):
        m = self.d.map
        if m.get(c, text) != text:
            self.d.bad.append(('the character %r becomes %r or %r' % (chr(c), m[c], text), st))
        m[c] = text

    def guess(self, st, L):
        """the text that the path asks about"""
        out = set()
        for k in list(st.cset) + list(st.bind) + [x for a in st.ne for x, f in lin(a)[2]]:
            if isinstance(k, tuple) and k[:2] == ('t', 'at'):
                out.add(view(k[2])[0])
        for k in st.facts:
            if isinstance(k, tuple) and k[0] == 'found':
                out.add(k[2])
        return out.pop() if len(out) == 1 else None

    # loops

    def loop(self, L, loc):
        """the position that goes with the text built in this loop"""
        if (id(L), loc) in self.done:
            return self.done[id(L), loc]
        d = self.d
        best = None
        for p, phi in sorted(L.phi.items(), key=skey):
            e = L.entry.mem.get(p)
            if p == loc or posn(e) is None:
                continue
            t = Deriver(self.r, Derived())
            t.d.base = d.base
            t.done[id(L), loc] = p
            t.edges(L, loc, p)
            score = (len(t.d.open) + len(t.d.bad))
            if best is None or score < best[0]:
                best = (score, p, t)
        if best is None:
            d.open.append(('no position goes with the text of the loop in line %s' % L.line, L.entry))
            self.done[id(L), loc] = None
            return None
        s, p, t = best
        self.done[id(L), loc] = p
        d.open += t.d.open
        d.bad += t.d.bad
        for c, x in t.d.map.items():
            self.put(L.entry, c, x, False)
        if t.d.base is not None:
            self.note(L.entry, t.d.base)
        self.raw += t.raw
        self.rawat += t.rawat
        return p

    def edges(self, L, loc, p):
        d = self.d
        # entry
        e = L.entry.mem.get(loc)
        if e is None:
            d.open.append(('the text at the start of the loop', L.entry))
            return
        at = self.walk(L.entry, [x for x in catparts(e) if x != S('')], num(0), None, None)
        ep = posn(L.entry.mem.get(p))
        if at is not None and L.entry.decide(mk_eq0(sub(at, ep))) != 1:
            k = L.entry.norm(sub(ep, at))
            (d.bad if isnum(k) and not L.entry.unk else d.open).append(('the loop starts at character %s' % show(k), L.entry))
        for key, h0, st, k2 in L.iters:
            v = st.mem.get(loc)
            ps = list(catparts(v)) if v is not None else []
            if not ps or ps[0] != L.phi[loc]:
                if v is not None and not contains(v, lambda t: t == L.phi[loc]) and not st.unk:
                    d.bad.append(('what was translated before is dropped', st))
                else:
                    d.open.append(('the text after a step', st))
                continue
            cur = self.fixed(L, p, key) or lin(L.phi[p])
            if not self.feasible(L, key, st):
                continue
            end = self.walk(st, ps[1:], cur, L, key)
            if end is None:
                continue
            new = posn(st.mem.get(p))
            if new is None:
                d.open.append(('how far a step goes', st))
                continue
            k = st.norm(sub(new, end))
            if st.decide(mk_eq0(k)) == 1:
                continue
            if isnum(k) and not st.unk:
                d.bad.append(('%d characters are %s' % (abs(k[1]), 'left out' if k[1] > 0 else 'repeated'), st))
            else:
                d.open.append(('how far a step goes', st))

    def feasible(self, L, key, st):
        for p in L.phi:
            f = self.fixed(L, p, key)
            base = self.d.base or self.guess(st, L)
            if f is None and base is not None and posn(L.entry.mem.get(p)) is not None and not self.char(st, base, lin(L.phi[p]), L, key):
                return False
        return True

    # invariants

    def incoming(self, L):
        """[(source key or None, state, target key)]"""
        out = []
        for key in L.heads:
            if all(self.same(L.entry, l, tag) for l, tag in key or ()):
                out.append((None, L.entry, key))
        for key, h0, st, k2 in L.iters:
            out.append((key, st, k2))
        return out

    @staticmethod
    def same(st, loc, tag):
        if tag[0] != 'const':
            return True
        v = st.mem.get(loc)
        c = lin(tag[1]) if isinstance(tag[1], tuple) else num(tag[1])
        return v is not None and v[0] == 'n' and (not isnum(v) or v == c) and (isnum(v) or st.decide(mk_eq0(sub(v, c))) != 0)

    def inset(self, L, key, at):
        """codes the character at a loop variable may have at the head"""
        allc = set(range(128))
        at = lin(at)
        if at[1] or len(at[2]) != 1 or at[2][0][1] != 1:
            return allc
        loc = [l for l, p in L.phi.items() if p == at[2][0][0]]
        if not loc:
            return allc
        loc = loc[0]
        inc = [(s, st) for s, st, k in self.incoming(L) if k == key]
        if not inc:
            return allc
        out = set()
        for s, st in inc:
            v = posn(st.mem.get(loc))
            x = v[2][0][0] if v is not None and len(v[2]) == 1 and v[1] == 0 and v[2][0][1] == 1 else None
            if x is None or x[:2] != ('t', 'find') or x[4][0] != 's' or not (x[2] == 'find_first_of' or x[2] == 'find' and len(x[4][1]) == 1):
                return allc
            if self.d.base is not None and x[3] != self.d.base:
                return allc
            out |= {ord(c) for c in x[4][1]}
        return out

    def free(self, st, base, a, b, S, L, key, inv):
        """1 if no character of S is in base[a, b)"""
        n = strlen(base)
        ivs = []
        for k, pol in list(st.facts.items()):
            if not (isinstance(k, tuple) and k[0] == 'found' and k[2] == base and k[3][0] == 's'):
                continue
            if not (k[1] == 'find_first_of' or k[1] == 'find' and len(k[3][1]) == 1):
                continue
            if not {chr(c) for c in S} <= set(k[3][1]):
                continue
            ivs.append((lin(k[4]), lin(T('find', k[1], base, k[3], k[4])) if pol else n))
        if L is not None:
            for x, y in inv.get(key, ()):
                fx = self.fixed(L, x, key) or lin(L.phi[x])
                fy = n if y == 'end' else (self.fixed(L, y, key) or lin(L.phi[y]))
                if isnum(fy) and fy[1] == NPOS:
                    fy = n
                ivs.append((fx, fy))
        if isnum(b) and b[1] == NPOS:
            b = n
        reached = [st.norm(a)]
        for cur in reached:
            if st.prove_le(sub(b, cur)):
                return 1
            if len(reached) > 12:
                break
            for x, y in ivs:
                y = st.norm(y)
                if y not in reached and st.prove_le(sub(x, cur)):
                    reached.append(y)
            if not self.char(st, base, cur, L, key) & S:
                reached.append(st.norm(add(cur, num(1))))
        return None

    def missed(self, st, base, a, b, S, L, key):
        """a character of S that the stretch [a, b) may hold for certain"""
        for k, pol in st.facts.items():     # one was found in it
            if pol and isinstance(k, tuple) and k[0] == 'found' and k[2] == base and k[3][0] == 's' and {ord(x) for x in k[3][1]} <= S and k[1] in ('find_first_of', 'find'):
                t = lin(T('find', k[1], base, k[3], k[4]))
                if st.prove_le(sub(a, t)) and st.prove_le(sub(add(t, num(1)), b)):
                    return ord(k[3][1][0])
        sources = [(st, a)]
        if L is not None:
            loc = [l for l, p in L.phi.items() if lin(p) == lin(a)]
            if loc:
                sources = [(s, posn(s.mem.get(loc[0]))) for src, s, k in self.incoming(L) if k == key]
        for s, pos in sources:              # it was searched, but not for that one
            if pos is None:
                continue
            sets = [set(k[3][1]) for k in s.facts if isinstance(k, tuple) and k[0] == 'found' and k[2] == base and k[3][0] == 's' and s.decide(mk_eq0(sub(lin(k[4]), pos))) == 1]
            for c in sorted(S):
                if sets and all(chr(c) not in x for x in sets):
                    return c
        return None

    def invariants(self, L, base, S):
        nums = [l for l, p in L.phi.items() if posn(L.entry.mem.get(l)) is not None]
        inv = {k: {(a, b) for a in nums for b in nums + ['end'] if a != b} for k in L.heads}
        inc = self.incoming(L)
        for _ in range(12):
            changed = False
            for src, st, key in inc:
                if key not in inv:
                    continue
                for a, b in list(inv[key]):
                    va = posn(st.mem.get(a))
                    vb = strlen(base) if b == 'end' else posn(st.mem.get(b))
                    if va is None or vb is None or self.free(st, base, va, vb, S, L if src is not None or st is not L.entry else None, src, inv) != 1:
                        inv[key].discard((a, b))
                        changed = True
            if not changed:
                return inv
        return {}

    def finish(self):
        """the stretches that are copied hold no character that is translated elsewhere"""
        d = self.d
        S = set(d.map)
        if not S:
            return
        cache = {}
        for st, base, a, b, L, key in self.raw:
            inv = {}
            if L is not None:
                if id(L) not in cache:
                    cache[id(L)] = self.invariants(L, base, S)
                inv = cache[id(L)]
            if self.free(st, base, a, b, S, L, key, inv) != 1:
                miss = self.missed(st, base, a, b, S, L, key)
                if miss is not None and not st.unk:
                    d.bad.append(('the character %r may be copied, although it is replaced elsewhere' % chr(miss), st))
                else:
                    d.open.append(('whether a copied stretch holds characters that are replaced', st))
        for st, base, at, L, key in self.rawat:
            hit = self.char(st, base, at, L, key) & S
            hit = {c for c in hit if d.map.get(c) != chr(c)}
            if hit:
                if not st.unk:
                    d.bad.append(('the character %r may be copied, although it is replaced elsewhere' % chr(min(hit)), st))
                else:
                    d.open.append(('whether a copied character is one that is replaced', st))
