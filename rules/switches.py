"""A boolean setting that the user switches: it starts as documented, changes only when asked to, and to what was asked for."""
from .common import *

RULE = 'a setting is what the user made it'


def truth(st, v, neg):
    """1, 0 or None: what the setting is when its member holds v"""
    if v[0] == 'n' or v[0] == 'B':
        z = zero(st, v)
        r = None if z is None else 1 - z
    else:
        r = st.decide(mk_true(v))
    return None if r is None else r ^ neg


def switch(c, cls, getter, put=(), on=(), off=(), default=None):
    g = c.need('%s::%s' % (cls, getter))
    qs = {'%s::%s' % (n.get('fc'), n['n']) for n in walk(g['body']) if n['k'] == 'mem' and n.get('fc') in [cls] + c.p.bases(cls)}
    qs = {q for q in qs if q.split('::')[-1] not in ()}
    if len(qs) != 1:
        c.undecided(RULE, '%s is no plain member' % getter, c.where(g))
        return
    q = qs.pop()
    r = c.analyse(g, merge=False)
    neg = None
    l0 = field(r.this, q)
    for st, v in r.rets:
        x = truth(st, v, 0)
        m = truth(st, r.E.load(st, l0, 'bool'), 0)
        if v in (T('init', l0), mk_true(T('init', l0)), lin(T('init', l0))):
            k = 0
        elif v == mk_not(mk_true(T('init', l0))):
            k = 1
        elif x is None or m is None:
            k = None
        else:
            k = x ^ m
        if k is None or neg is not None and k != neg:
            c.undecided(RULE, '%s is no plain member' % getter, c.where(g))
            return
        neg = k
    ws = writers(c, q)
    todo = set(ws)
    for n in tuple(put) + tuple(on) + tuple(off):
        todo |= {f['key'] for f in c.p.fn('%s::%s' % (cls, n))}
    used = 0
    for k in sorted(todo):
        f = c.p.functions[k]
        w = c.where(f)
        copy = any(cls.split('::')[-1] in p['t'] or f.get('class') and f['class'].split('::')[-1] in p['t'] for p in f['params'])
        if f.get('kind') == 'ctor' or f['name'] == 'operator=':
            if copy or f['name'] == 'operator=':
                continue        # the copy has its source's setting
            want, what = default, 'a new object'
            if default is None:
                continue
        elif f['name'] in put and len(f['params']) == 1:
            want, what = 'par', f['name']
        elif f['name'] in on:
            want, what = 1, f['name']
        elif f['name'] in off:
            want, what = 0, f['name']
        else:
            want, what = 'same', f['qual']
        r = c.analyse(f, merge=False)
        l = field(r.this, q) if r.this is not None else None
        if l is None:
            c.undecided(RULE, '%s writes the setting of some object' % f['qual'], w)
            continue
        for st, v in r.rets:
            now = r.E.load(st, l, 'bool')
            x = truth(st, now, neg)
            p = T('par', 0)
            if want == 'same':
                ok = now in (T('init', l), mk_true(T('init', l)), lin(T('init', l)))
                if not ok and x is not None and f.get('kind') != 'dtor':
                    ok = truth(st, T('init', l), neg) == x
                say = 'leaves the setting alone' if ok else 'changes the setting to %s' % show(now)
            elif want == 'par':
                y = truth(st, p, 0)
                ok = not neg and now in (p, mk_true(p), lin(p)) or neg and now == mk_not(mk_true(p)) or x is not None and x == y
                say = 'makes the setting %s' % show(now)
            else:
                ok = x == want
                say = 'makes the setting %s' % ({1: 'on', 0: 'off'}.get(x) or show(now))
            c.decide(True if ok else verdict(st, 0, now), RULE, '%s %s' % (what if want != 'same' else f['qual'], say), w, facts(st))
            used += 1
    if not used:
        c.undecided(RULE, 'nothing sets what %s returns' % getter, c.where(g))
    # the framework itself never switches it
    names = set(put) | set(on) | set(off)
    for k, f in c.p.functions.items():
        if 'body' not in f or f['name'] in names and f.get('class') == cls or k in c.p.witness:
            continue
        sites = [n for n in walk(f['body']) if n['k'] == 'call' and plain(n.get('n') or '').split('::')[-1] in names and any(plain(n.get('n') or '') == '%s::%s' % (x, y) for x in [cls] + c.p.derived(cls) for y in names)]
        for n in sites:
            last = plain(n['n']).split('::')[-1]
            bad = last in (off if default else on) and len(sites) == 1
            c.decide(False if bad else None, RULE, '%s calls %s' % (f['qual'], last), c.where(f, n.get('l')))
