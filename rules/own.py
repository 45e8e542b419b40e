"""Ownership of what a function acquires: every object that is still alive on a way out is owned by something that lives on."""
from .common import *

BADABORT = {'double-release': 'is released twice', 'mismatched-release': 'is released by the wrong means', 'use-after-release': 'is used after its release'}


def roots(st, val=None):
    """terms of everything that lives on after the function returned: the value, what parameters, members and globals hold"""
    if val is not None:
        yield val
    for l, v in st.mem.items():
        if l[0] in ('alive', 'dead', 'count', 'zero', 'opq', 'hav'):
            continue
        b = loc_base(l)
        if b[0] in ('d', 'g'):
            yield v


def held_by(st, start):
    """heap objects reachable from the terms"""
    seen, todo = set(), list(start)
    by = {}
    for l, v in st.mem.items():
        b = loc_base(l)
        if b[0] == 'h' and l[0] not in ('alive', 'dead', 'count', 'zero', 'opq', 'hav'):
            by.setdefault(b, []).append(v)

    def inside(t):
        if isinstance(t, tuple):
            if t[:1] == ('h',):
                if t not in seen:
                    seen.add(t)
                    todo.extend(by.get(t, []))
                return
            for x in t:
                if isinstance(x, tuple):
                    inside(x)
    while todo:
        inside(todo.pop())
    return seen


def leaked(st, val=None):
    alive = [l[1] for l in st.mem if l[0] == 'alive']
    if not alive:
        return []
    ok = held_by(st, list(roots(st, val)))
    return [a for a in alive if a not in ok]


def describe(st, loc):
    for e in evs(st, 'new'):
        if e[1] == loc:
            return '%s%s acquired in line %s' % (e[2], ' array' if e[3] else '', e[4])
    return show(loc)


def acquired(r):
    return {e[1] for st, v in r.rets for e in evs(st, 'new')} | {e[1] for st, t, v in r.throws for e in evs(st, 'new')}


def owners(L):
    """{place: phi} of the variables that receive, in some iteration, what the iteration acquired"""
    out = {}
    for it in L.iters:
        new = {e[1] for e in L.iter_events(it) if e[0] == 'new'}
        for k, phi in L.phi.items():
            v = it[2].mem.get(k)
            if v is not None and v[0] == 'p' and loc_base(v[1]) in new:
                out[k] = phi
    return out


def loops_on(st):
    out = []
    for e in evs(st, 'loopexit'):
        if e[1] not in out:
            out.append(e[1])
    return out


def released(st, v):
    """how often the pointer is released on the path"""
    return sum(1 for e in evs(st, 'del') if e[5] == v or (v[0] == 'p' and e[1] == loc_base(v[1])) or (v[0] == 't' and e[1] == ('d', v)))


def lost(st, val=None):
    """what an earlier loop acquired and nothing holds on this way out"""
    out = []
    left = {}
    for e in evs(st, 'loopexit'):
        left.setdefault(id(e[1]), (e[1], set()))[1].add(e[2])
    for L, keys in left.values():
        for k, phi in owners(L).items():
            if not any(L.heads[x].mem.get(k) == phi for x in keys if x in L.heads):
                continue    # the path left the loop from a head where the variable holds nothing
            if st.decide_null(phi) == 1 or released(st, phi):
                continue
            if not any(contains(v, lambda t: t == phi) for v in roots(st, val)):
                out.append((L, phi))
    return out


def overwritten(L):
    """[(iteration, old value)] where an iteration drops what an earlier one acquired"""
    out = []
    for k, phi in owners(L).items():
        for it in L.iters:
            v = it[2].mem.get(k)
            if v is None or v == phi or it[1].mem.get(k) != phi:
                continue
            if it[2].decide_null(phi) == 1 or it[1].decide_null(phi) == 1:
                continue
            if any(e[0] == 'del' and (e[5] == phi) for e in L.iter_events(it)):
                continue
            if any(contains(x, lambda t: t == phi) for l, x in it[2].mem.items() if l != k and loc_base(l)[0] in 'dg'):
                continue
            out.append((it, phi))
    return out


def empty(st, v):
    """is the list value certainly empty?"""
    if v[0] == 'L':
        if v[1] or v[3]:
            return 0
        if v[2] is None:
            return 1
        return st.decide(mk_eq0(lin(T('lsize', v[2]))))
    return st.decide(mk_eq0(lin(T('lsize', v))))


def lists(v):
    return {v, ('L', (), v, ())}


def pos_of(L, i):
    """value of the list position at the head of the loop"""
    return i


def drained(r, st, init):
    """(1/0/None, why): is every element of the list value `init` released exactly once on this path, and nothing else twice?"""
    if empty(st, init) == 1:
        return 1, 'the list is empty'
    direct = [e for e in evs(st, 'del') if contains(e[5], lambda t: t == init)]
    unclear = []
    for L in loops_on(st):
        target = None
        # a position that runs from the first to the last element
        for k, phi in L.phi.items():
            ent = L.entry.mem.get(k)
            if ent is not None and ent[0] == 't' and ent[1] == 'it' and ent[3] == num(0):
                X = ent[2]
                src = L.entry.mem.get(X, T('init', X)) if isinstance(X, tuple) and X[0] in ('d', 'f', 'v', 'h', 'e', 'g') else X
                if src in lists(init):
                    return by_position(L, k, phi, st)
                target = src
            elif ent is None or ent[0] in ('L', 't'):
                if L.entry.mem.get(k, T('init', k)) in lists(init) and any(contains(it[2].mem.get(k, phi), lambda t: t == phi) for it in L.iters):
                    return by_front(L, k, phi, st)
        has = any(dels(L, it) or any(e[0] == 'call' for e in L.iter_events(it)) for it in L.iters)
        if has and target is None:
            unclear.append(L)
    if direct and not unclear and not any(dels(L, it) for L in loops_on(st) for it in L.iters):
        v = init[2] if init[0] == 'L' and init[2] is not None and not init[1] and not init[3] else init
        if v[0] == 't' and st.decide(mk_le(sub(lin(T('lsize', v)), num(len(direct))))) != 1:
            return (None if st.unk else 0), 'only %d of the elements %s released' % (len(direct), 'is' if len(direct) == 1 else 'are')
    if direct or unclear:
        return None, 'the way the elements are released is not understood'
    return (None if st.unk else 0), 'no element is released'


def dels(L, it):
    return [e for e in L.iter_events(it) if e[0] == 'del']


def by_position(L, k, phi, st):
    cell = ('d', T('elem', phi))
    for it in L.iters:
        v = it[2].mem.get(k)
        if v is None or v[0] != 't' or v[1] != 'itn' or v[2] != phi or v[3] != 1:
            return None, 'the position does not move by one element'
        e = it[1].mem.get(cell, T('init', cell))
        alts = {e, L.phi.get(cell), T('init', cell)}
        alts |= {x for c2, x in it[1].mem.items() if c2[0] == 'd' and c2[1][:3] == T('elem', phi)[:3]}
        d = dels(L, it)
        mine = [x for x in d if x[5] in alts]
        other = [x for x in d if x[5] not in alts]
        if len(mine) > 1:
            return 0, 'an element is released %d times' % len(mine)
        if other:
            return None, 'something else is released (%s)' % show(other[0][5])
        if not mine and not any(x == NULL or it[2].decide_null(x) == 1 for x in alts if x is not None):
            return (None if it[2].unk else 0), 'an element is passed without being released %s' % facts(it[2])
    for key, h, s, kind in L.exits:
        if kind != 'n' or not any(a[0] == 'eq' and v and {x[1] if x[0] == 't' else None for x in a[1:3]} >= {'lend'} and phi in a[1:3] for a, v in s.facts.items()):
            return (None if s.unk else 0), 'the loop may end before the last element'
    return 1, 'every element is released once'


def by_front(L, k, phi, st):
    for it in L.iters:
        v = it[2].mem.get(k)
        if v is None or v[0] != 'L' or v[1] or v[3] or v[2] is None or v[2][0] != 't' or v[2][1] not in ('tail', 'init_of') or v[2][2] != phi:
            return None, 'an iteration does not take one element off'
        which = T('front', phi) if v[2][1] == 'tail' else T('back', phi)
        alts = {which, T('init', ('d', which)), T('cell', which)}
        d = dels(L, it)
        def is_el(x):
            if x in alts or (x[0] == 't' and contains(x, lambda t: t == which)):
                return True
            return v[2][1] == 'tail' and contains(x, lambda t: t[:2] == ('t', 'elem') and t[-1] == phi)
        mine = [x for x in d if is_el(x[5])]
        if len(mine) > 1:
            return 0, 'an element is released %d times' % len(mine)
        if len(d) > len(mine):
            return None, 'something else is released'
        if not mine and not any(s2 for s2 in [1] if any(a[0] == 'null' and val and is_el(a[1]) for a, val in it[2].facts.items())) and not any(x == NULL for l, x in it[2].mem.items() if contains(l, lambda t: t[:1] == ('t',) and t[1] in ('elem', 'front', 'back') and t[-1] == phi)):
            return (None if it[2].unk else 0), 'an element is taken off without being released %s' % facts(it[2])
    for key, h, s, kind in L.exits:
        if empty(s, phi) != 1:
            return (None if s.unk else None), 'the loop may end before the list is empty'
    return 1, 'every element is taken off and released once'


def clean(c, rule, r, what, w, ok_pending=()):
    """no way out leaves something nobody owns, nothing is released twice or used afterwards"""
    bad = 0
    for st, val, how in [(s, v, 'returns') for s, v in r.rets] + [(s, v, 'throws %s' % t) for s, t, v in r.throws]:
        x = leaked(st, val)
        y = lost(st, val)
        ok = not x and not y
        desc = [describe(st, l) for l in x] + ['what the loop in line %s acquired' % L.line for L, p in y]
        c.decide(True if ok else (None if st.unk else False), rule, '%s %s%s' % (what, how, '' if ok else ' without releasing or handing on ' + ', '.join(desc)), w, facts(st))
        bad += not ok
        after(c, rule, st, what, w)
    for a in r.aborts:
        if a[1] == 'null-deref' and evs(a[0], 'del'):
            c.decide(None if a[0].unk else False, rule, '%s: an owner that was emptied is used' % what, '%s line %s' % (w, a[3]), facts(a[0]))
        if a[1] in BADABORT:
            c.decide(None if a[0].unk else False, rule, '%s: something %s (%s)' % (what, BADABORT[a[1]], a[4] if isinstance(a[4], str) else show(a[4]) if a[4] else ''), '%s line %s' % (w, a[3]), facts(a[0]))
    return bad


def after(c, rule, st, what, w):
    dead = set()
    for e in st.events():
        if e[0] == 'del':
            dead.add(e[1])
        elif e[0] == 'new':
            dead.discard(e[1])
        elif e[0] in ('getattr', 'setattr', 'accept'):
            if e[2] in dead:
                c.decide(None if st.unk else False, rule, '%s: a measurement is used after its release' % what, w, facts(st))
            if e[0] == 'accept':
                if e[3] in dead or any(v[0] == 'p' and v[1] in dead for n, v in e[4]):
                    c.decide(None if st.unk else False, rule, '%s: a measurement is given to a visitor that is released or works with a released measurement' % what, w, facts(st))
        elif e[0] == 'printed' and e[2] in dead:
            c.decide(None if st.unk else False, rule, '%s: a measurement is printed after its release' % what, w, facts(st))
