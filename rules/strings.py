"""Facts about the characters of a string on an abstract path: which stretches of it are free of (or made of) a
character, from searches, comparisons and solved scanning loops; and a normal form of strings as segments."""
from .common import *


# ---- segments ---------------------------------------------------------------

def view(v):
    """a string as (base, offset, length) of one base string"""
    if v[0] == 't' and v[1] == 'substr':
        b, o, n = view(v[2])
        return b, add(o, lin(v[3])), lin(v[4])
    return v, num(0), strlen(v)


def segs(st, v):
    """[('s', base, offset, length) | ('c', code)] with empty stretches dropped and neighbours joined"""
    out = []
    for p in catparts(v):
        if p[0] == 's':
            for ch in p[1]:
                out.append(('c', ord(ch)))
        elif p[0] == 't' and p[1] == 'chr':
            x = lin(p[2])
            k = st.norm(x)
            if isnum(k):
                out.append(('c', k[1] % 256))
            elif p[2][0] == 't' and p[2][1] == 'at':
                b, o, n = view(p[2][2])
                put(st, out, ('s', b, st.norm(add(o, lin(p[2][3]))), num(1)))
            else:
                out.append(('x', p))
        elif p[0] == 't' and p[1] in ('fmt', 'fmtmod', 'obj', 'chars', 'fill'):
            out.append(('x', p))
        else:
            b, o, n = view(p)
            put(st, out, ('s', b, st.norm(o), st.norm(n)))
    return out


def put(st, out, s):
    if st.decide(mk_eq0(s[3])) == 1:
        return
    if isnum(s[3]) and s[3][1] == 1:
        a = st.norm(lin(T('at', s[1], unlin_idx(s[2]))))
        if isnum(a):
            out.append(('c', a[1] % 256))
            return
    if out and out[-1][0] == 's' and out[-1][1] == s[1] and st.decide(mk_eq0(sub(add(out[-1][2], out[-1][3]), s[2]))) == 1:
        l = out.pop()
        s = ('s', l[1], l[2], st.norm(add(l[3], s[3])))
    out.append(s)


def unlin_idx(i):
    return i


def seg_eq(st, a, b):
    """1 equal, None not shown"""
    if len(a) != len(b):
        return None
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] == 's' and y[0] == 's' and x[1] == y[1] and st.decide(mk_eq0(sub(x[2], y[2]))) == 1 and st.decide(mk_eq0(sub(x[3], y[3]))) == 1:
            continue
        return None
    return 1


def same_text(st, a, b):
    if a == b:
        return 1
    d = st.decide_eq(a, b)
    if d is not None:
        return d
    return seg_eq(st, segs(st, a), segs(st, b))


# ---- stretches --------------------------------------------------------------

def at_terms(st):
    """every character term the path says something about"""
    seen = set()
    for c in [st.bind, st.facts, st.cset]:
        for k in list(c):
            for t in subterms(k):
                if len(t) > 3 and t[0] == 't' and t[1] == 'at':
                    seen.add(t)
    for x in list(st.ne) + list(st.le):
        for t in subterms(x):
            if len(t) > 3 and t[0] == 't' and t[1] == 'at':
                seen.add(t)
    return seen


def char_is(st, t, ch):
    cs = st.cset.get(t)
    if cs is not None:
        if ord(ch) not in cs:
            return 0
        if cs == frozenset([ord(ch)]):
            return 1
    return st.decide(mk_eq0(sub(lin(t), num(ord(ch)))))


def char_at(st, base, i, ch):
    """1/0/None: does base hold ch at position i?"""
    d = char_is(st, T('at', base, st.norm(i)), ch)
    if d is not None:
        return d
    for t in at_terms(st):
        b, off, ln = view(t[2])
        if b == base and st.decide(mk_eq0(sub(add(off, lin(t[3])), i))) == 1:
            d = char_is(st, t, ch)
            if d is not None:
                return d
    return None


def shrinking(r):
    """loop-carried strings that only lose characters at their end: phi -> (entry value, loop, [(back state, kept length)])"""
    out = {}
    for L in r.loops:
        for loc, phi in L.phi.items():
            e = L.entry.mem.get(loc)
            if e is None or not L.iters or e[0] not in ('t', 's', 'cat'):
                continue
            kept = []
            for k, h0, s, k2 in L.iters:
                v, w = h0.mem.get(loc), s.mem.get(loc)
                if v is None or w is None or w[0] != 't':
                    kept = None
                    break
                b, off, ln = view(w)
                if v != phi or b != phi or s.decide(mk_eq0(off)) != 1:
                    kept = None
                    break
                kept.append((s, ln))
            if kept:
                out[phi] = (e, L, kept)
    return out


def prefixes(r, st, p):
    """[(string, length it has left)]: the loop-carried strings that are prefixes of p"""
    return [(phi, strlen(phi)) for phi, (e, L, kept) in shrinking(r).items() if e == p]


def stretches(r, st, base, ch, eq):
    """half-open intervals [a, b) of positions of `base` all of whose characters are `ch` (eq) or none is (not eq)"""
    out = []
    for a, pol in list(st.facts.items()):
        if a[0] != 'found':
            continue
        kind, s, x, pos = a[1:5]
        b, off, ln = view(s)
        if b != base or x[0] != 's':
            continue
        if kind in ('find', 'rfind'):
            ok = x[1] == ch and not eq
        elif kind in ('find_first_of', 'find_last_of'):
            ok = ch in x[1] and not eq
        else:
            ok = eq and x[1] == ch
        if not ok:
            continue
        hit = lin(T('find', kind, s, x, pos))
        if kind in ('find', 'find_first_of', 'find_first_not_of'):
            out.append((add(off, pos), add(off, hit) if pol else add(off, ln)))
        else:
            end = ln if st.prove_le(sub(sub(ln, num(1)), pos)) else add(pos, num(1))
            out.append((add(off, add(hit, num(1))) if pol else off, add(off, end)))
    for t in at_terms(st):
        b, off, ln = view(t[2])
        if b != base:
            continue
        d = char_is(st, t, ch)
        if d is not None and d == (1 if eq else 0):
            i = add(off, lin(t[3]))
            out.append((i, add(i, num(1))))
    for e in st.events():
        if e[0] == 'loopexit':
            for phi, (e0, L, kept) in shrinking(r).items():
                if L is e[1] and e0 == base and all(every(r, s, phi, ch, eq, ln, strlen(phi)) for s, ln in kept):
                    out.append((strlen(phi), strlen(base)))
            out += scanned(r, st, e[1], e[2], base, ch, eq)
    return out


def scanned(r, st, L, key, base, ch, eq):
    """what a finished loop that walks over the string tells about the characters it passed"""
    out = []
    if key is None or key not in L.heads or L.heads[key] is None or not L.iters:
        return out
    for loc in L.phi:
        start = L.entry.mem.get(loc)
        if start is None or start[0] not in ('n', 't'):
            continue
        step = None
        for k, h0, s, k2 in L.iters:
            v, w = h0.mem.get(loc), s.mem.get(loc)
            if v is None or w is None or v[0] not in 'nt' or w[0] not in 'nt':
                step = None
                break
            d = s.norm(sub(lin(w), lin(v)))
            if not isnum(d) or step not in (None, d[1]) or d[1] not in (1, -1):
                step = None
                break
            step = d[1]
        if step is None:
            continue
        offs = None
        for k, h0, s, k2 in L.iters:
            v = lin(h0.mem[loc])
            mine = set()
            for t in at_terms(s):
                b, off, ln = view(t[2])
                if b != base:
                    continue
                dd = char_is(s, t, ch)
                if dd is None or dd != (1 if eq else 0):
                    continue
                c = s.norm(sub(add(off, lin(t[3])), v))
                if isnum(c):
                    mine.add(c[1])
            offs = mine if offs is None else offs & mine
        x = L.heads[key].mem.get(loc)
        if x is None or x[0] not in 'nt':
            continue
        for c in offs or ():
            if step < 0:
                out.append((add(lin(x), num(c + 1)), add(lin(start), num(c + 1))))
            else:
                out.append((add(lin(start), num(c)), add(lin(x), num(c))))
    return out


def every(r, st, base, ch, eq, lo, hi):
    """1 if all positions of [lo, hi) are shown to hold ch (eq) / something else (not eq)"""
    iv = stretches(r, st, base, ch, eq)
    for _ in range(len(iv) + 1):
        if st.prove_le(sub(hi, lo)):
            return 1
        nxt = None
        for a, b in iv:
            if st.prove_le(sub(a, lo)) and not st.prove_le(sub(b, lo)):
                nxt = b
                iv.remove((a, b))
                break
        if nxt is None:
            return None
        lo = nxt
    return 1 if st.prove_le(sub(hi, lo)) else None


def positions(r, st, base, ch):
    """positions of base known to hold ch"""
    out = []
    for t in at_terms(st):
        b, off, ln = view(t[2])
        if b == base and char_is(st, t, ch) == 1:
            i = st.norm(add(off, lin(t[3])))
            if i not in out:
                out.append(i)
    return out


def last(r, st, base, ch, lo=None):
    """('at', k): ch's last position (from lo on) is k; ('none',): it does not occur; None: not shown"""
    lo = lo or num(0)
    n = strlen(base)
    if every(r, st, base, ch, False, lo, n):
        return ('none',)
    for k in positions(r, st, base, ch):
        if st.prove_le(sub(lo, k)) and every(r, st, base, ch, False, add(k, num(1)), n):
            return ('at', k)
    return None


def slice_of(base, a, b=None):
    return T('substr', base, a, sub(b if b is not None else strlen(base), a))
