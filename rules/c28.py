"""C28 Path operations take a path apart and join it without loss."""
from .common import *
from . import strings as sx
from sa import export

UNITS = export.CORE
EXPLAIN = """
The path functions are interpreted abstractly over symbolic strings of arbitrary length; searches contribute where the
searched character is and is not, scanning loops are solved as fixpoints and contribute the stretch of characters they
passed.  On every returning path the result, normalised to segments of the original path and literals, is compared with the
segments the statement prescribes for what the path knows about the last slash, the last dot, the kind of path appended and
the trailing slashes of the base.  For the list splitter each iteration of the solved loop must append exactly the stretch
from its cursor to the next colon (or the end), and leave the cursor behind that colon."""
ASSUME = ['std::string and the search functions behave as documented', 'POSIX build: the Windows branches are not compiled here']
PN = 'fileutil::PathName'
NAME = PN + '::pathName'


def check(ck):
    for n in ('Tail', 'DirectoryName', 'Extension', 'Append', 'GetPathType'):
        ck.need('%s::%s' % (PN, n))
    ck.run([('tail', tail), ('directory', directory), ('extension', extension), ('append', append), ('kind', kind),
            ('split', split), ('environment', environment), ('accessors', accessors)])


def ret_text(r, st, v):
    """the text of a returned string or path"""
    if v[0] in ('o', 'l'):
        l = field(v[1], NAME)
        return r.E.load(st, l) if l in st.mem else r.E.load(st, v[1])
    return v


def noways(c, f, r):
    for st, et, v in r.throws:
        # behind a loop the position is only known by its invariants
        c.decide(None if any(e[0] == 'loopexit' for e in st.events()) else verdict(st, 0), 'no exception', '%s throws %s' % (f['qual'], et), c.where(f), facts(st))
    for st, k, fr, line, det in r.aborts:
        c.decide(verdict(st, 0), 'no abort', '%s: %s' % (f['qual'], k), c.where(f, line), facts(st))


def want(c, f, r, st, got, exp, why):
    d = sx.same_text(st, got, exp)
    ok = True if d == 1 else verdict(st, 0, got)
    c.decide(ok, f['name'], '%s gives %s where %s' % (f['qual'], show(got), why), c.where(f), facts(st))


def run_path(c, n):
    f = c.need('%s::%s' % (PN, n))
    r = c.analyse(f)
    p = T('init', field(r.this, NAME))
    noways(c, f, r)
    return f, r, p


def open_(c, f, st, v, what):
    c.decide(None if st.unk or imprecise(v) or any(e[0] == 'loopexit' for e in st.events()) else False, f['name'],
             '%s gives %s without having determined %s' % (f['qual'], show(v), what), c.where(f), facts(st))


def tail(c):
    f, r, p = run_path(c, 'Tail')
    for st, v in r.rets:
        got = ret_text(r, st, v)
        k = sx.last(r, st, p, '/')
        if k is None:
            open_(c, f, st, got, 'the last slash')
        elif k[0] == 'none':
            want(c, f, r, st, got, p, 'there is no slash')
        else:
            want(c, f, r, st, got, sx.slice_of(p, add(k[1], num(1))), 'the last slash is at %s' % show(k[1]))


def directory(c):
    f, r, p = run_path(c, 'DirectoryName')
    for st, v in r.rets:
        got = ret_text(r, st, v)
        k = sx.last(r, st, p, '/')
        if k is None:
            open_(c, f, st, got, 'the last slash')
        elif k[0] == 'none':
            want(c, f, r, st, got, S('.'), 'there is no slash')
        else:
            z = st.decide(mk_eq0(k[1]))
            if z is None and sx.same_text(st, got, sx.slice_of(p, num(0), k[1])) == 1:
                c.decide(verdict(st, 0, got), f['name'], '%s gives %s where the slash may be the first character' % (f['qual'], show(got)), c.where(f), facts(st))
            elif z == 1:
                want(c, f, r, st, got, S('/'), 'the last slash is the first character')
            else:
                want(c, f, r, st, got, sx.slice_of(p, num(0), k[1]), 'the last slash is at %s' % show(k[1]))


def extension(c):
    f, r, p = run_path(c, 'Extension')
    for st, v in r.rets:
        got = ret_text(r, st, v)
        if sx.last(r, st, p, '.') == ('none',):
            want(c, f, r, st, got, S(''), 'there is no dot')
            continue
        k = sx.last(r, st, p, '/')
        if k is None:
            # without knowing the slash: only the last dot counts, and it must be known to lie in the tail
            d = sx.last(r, st, p, '.')
            if d and d[0] == 'at' and sx.every(r, st, p, '/', False, d[1], strlen(p)):
                want(c, f, r, st, got, sx.slice_of(p, add(d[1], num(1))), 'the last dot of the tail is at %s' % show(d[1]))
            else:
                open_(c, f, st, got, 'the tail')
            continue
        lo = num(0) if k[0] == 'none' else add(k[1], num(1))
        d = sx.last(r, st, p, '.', lo)
        if d is None:
            open_(c, f, st, got, 'the last dot of the tail')
        elif d[0] == 'none':
            want(c, f, r, st, got, S(''), 'the tail has no dot')
        else:
            want(c, f, r, st, got, sx.slice_of(p, add(d[1], num(1))), 'the last dot of the tail is at %s' % show(d[1]))


def append(c):
    f, r, p = run_path(c, 'Append')
    q = T('init', field(('d', T('par', 0)), NAME))
    for st, v in r.rets:
        got = r.E.load(st, field(r.this, NAME))
        d = v[0] == 'l' and v[1] == r.this
        c.decide(True if d else verdict(st, 0), 'Append', '%s returns %s' % (f['qual'], 'the path itself' if d else show(v)), c.where(f))
        empty = st.decide(mk_eq0(strlen(p)))
        qe = st.decide(mk_eq0(strlen(q)))
        a = sx.char_at(st, q, num(0), '/')
        absolute = 0 if qe == 1 else a if a is not None else None
        if empty == 1 or absolute == 1:
            want(c, f, r, st, got, q, 'the appended path is absolute' if absolute == 1 else 'the base is empty')
            continue
        sg = sx.segs(st, got)
        if absolute is None and qe is None or empty is None:
            ok = None
            if sx.same_text(st, got, q) == 1 or len(sg) >= 2:
                ok = verdict(st, 0, got)
            c.decide(ok, f['name'], '%s gives %s without having determined %s' % (f['qual'], show(got), 'the kind of the appended path' if empty is not None else 'whether the base is empty'), c.where(f), facts(st))
            continue
        # base without trailing slashes + one slash + appended
        m, ok = num(0), True
        pre = [x for x, ln in sx.prefixes(r, st, p)]
        sg = [('s', p) + x[2:] if x[0] == 's' and x[1] in pre else x for x in sg]
        rest = list(sg)
        tailq = sx.segs(st, q)
        while rest and rest[0] != ('c', 47) or len(rest) > 1 + len(tailq) and rest:
            s = rest.pop(0)
            if s[0] == 's' and s[1] == p and st.decide(mk_eq0(sub(s[2], m))) == 1:
                m = st.norm(add(m, s[3]))
            elif s[0] == 'c' and sx.char_at(st, p, m, chr(s[1])) == 1:
                m = st.norm(add(m, num(1)))
            else:
                ok = False
                break
        ok = ok and bool(rest) and rest[0] == ('c', 47) and sx.seg_eq(st, rest[1:], tailq) == 1
        if not ok:
            c.decide(verdict(st, 0, got), f['name'], '%s gives %s instead of the base, one slash and the appended path' % (f['qual'], show(got)), c.where(f), facts(st))
            continue
        n = strlen(p)
        trimmed = sx.every(r, st, p, '/', True, m, n)
        stop = st.decide(mk_eq0(m)) == 1 or sx.char_at(st, p, sub(m, num(1)), '/') == 0 or any(sx.char_at(st, x, sub(m, num(1)), '/') == 0 for x in pre)
        looped = any(e[0] == 'loopexit' for e in st.events())
        c.decide(True if trimmed else None if looped and st.decide(mk_eq0(sub(m, n))) != 0 else verdict(st, 0, got) if looped is False else undetermined(st, r, p, m, n), f['name'],
                 '%s keeps the first %s characters of the base, %s' % (f['qual'], show(m), 'the rest are slashes' if trimmed else 'although the rest need not be slashes'), c.where(f), facts(st))
        c.decide(True if stop else verdict(st, 0, got), f['name'], '%s keeps the first %s characters of the base, %s' % (
            f['qual'], show(m), 'which do not end in a slash' if stop else 'which may end in a slash'), c.where(f), facts(st))


def undetermined(st, r, p, m, n):
    """the stretch behind m is not shown to be slashes: certain only if every loop it comes from was understood"""
    return None if st.unk else False


def kind(c):
    f, r, p = run_path(c, 'GetPathType')
    vals = {0: set(), 1: set()}
    for st, v in r.rets:
        e = st.decide(mk_eq0(strlen(p)))
        a = sx.char_is(st, T('at', p, num(0)), '/')
        k = 0 if e == 1 else a
        if k is None:
            open_(c, f, st, v, 'the first character')
        else:
            vals[k].add(st.norm(v) if v[0] == 'n' else v)
            ok = c.p  # the value of the enumerator
            n = enum(c, 'Absolute' if k else 'Relative')
            ok = n is not None and same(st, v, num(n)) == 1
            c.decide(True if ok else verdict(st, 0, v), 'GetPathType', '%s gives %s for %s' % (f['qual'], show(v), 'an absolute path' if k else 'a relative path'), c.where(f), facts(st))


def enum(c, name):
    return {'Relative': 0, 'Absolute': 1}[name]


def accessors(c):
    """setting, constructing, copying and reading a path keep the text"""
    pairs = [('SetPathName', lambda r: field(r.this, NAME), T('init', ('d', T('par', 0))))]
    for n, loc, exp in pairs:
        f = c.need('%s::%s' % (PN, n))
        r = c.analyse(f)
        for st, v in r.rets:
            want(c, f, r, st, r.E.load(st, loc(r)), exp, 'that path is set')
    for n in ('GetPathName', 'GetNativePathName'):
        f, r, p = run_path(c, n)
        for st, v in r.rets:
            want(c, f, r, st, r.E.load(st, v[1]) if v[0] in 'lo' else v, p, 'it is the path')
    for f in c.need(PN + '::PathName', many=True):
        if 'body' not in f:
            continue
        r = c.analyse(f)
        for st, v in r.rets:
            got = r.E.load(st, field(r.this, NAME))
            t = f['params'][0]['t'] if f['params'] else ''
            exp = S('') if not t else T('init', field(('d', T('par', 0)), NAME)) if 'PathName' in t else T('init', ('d', T('par', 0))) if 'string' in t else None
            if exp is None:
                ok = contains(got, lambda x: x == T('par', 0)) and len(catparts(got)) == 1
                c.decide(True if ok else verdict(st, 0, got), 'construction', '%s gives %s' % (f['qual'], show(got)), c.where(f), facts(st))
            else:
                want(c, f, r, st, got, exp, 'it is constructed from %s' % (t or 'nothing'))
    for f in c.need(PN + '::operator=', many=True):
        if 'body' in f:
            r = c.analyse(f)
            for st, v in r.rets:
                want(c, f, r, st, r.E.load(st, field(r.this, NAME)), T('init', field(('d', T('par', 0)), NAME)), 'that path is assigned')


def pushed(r, st, e):
    """the text of a path appended to a list"""
    x = e[2]
    if x[0] in ('o', 'l'):
        return r.E.load(st, field(x[1], NAME))
    if x[0] == 'obj':
        for l, v in x[2]:
            if l[-1] == NAME:
                return v
    return x


def split(c):
    f = c.need('fileutil::GetPathListFromColonSeparatedList')
    r = c.analyse(f)
    s = T('init', ('d', T('par', 0)))
    n = strlen(s)
    noways(c, f, r)
    w = c.where(f)

    def piece(st, e):
        sg = sx.segs(st, pushed(r, st, e))
        return sg

    def bounds(st, e, cursor):
        """(a, b) of the appended stretch of s"""
        sg = piece(st, e)
        if not sg:
            return cursor, cursor
        if len(sg) == 1 and sg[0][0] == 's' and sg[0][1] == s:
            return sg[0][2], add(sg[0][2], sg[0][3])
        return None

    def judge(st, e, cursor, h):
        """is the appended piece [cursor, next colon or end)? returns ('colon', b) / ('end',) / None"""
        b = bounds(st, e, cursor)
        what = 'the piece %s' % show(pushed(r, st, e))
        if b is None or st.decide(mk_eq0(sub(b[0], cursor))) != 1:
            c.decide(verdict(st, 0), 'a piece starts behind the last colon', '%s appends %s from cursor %s' % (f['qual'], what, show(cursor)), w, facts(st))
            return None
        clear = sx.every(r, st, s, ':', False, b[0], b[1])
        c.decide(True if clear else verdict(st, 0), 'a piece has no colon', '%s appends %s' % (f['qual'], what), w, facts(st))
        if st.decide(mk_eq0(sub(b[1], n))) == 1:
            return ('end',)
        if any(st.decide(mk_eq0(sub(k, b[1]))) == 1 for k in sx.positions(r, st, s, ':')):
            return ('colon', b[1])
        c.decide(verdict(st, 0), 'a piece ends at a colon or the end', '%s appends %s' % (f['qual'], what), w, facts(st))
        return None
    loops = [L for L in r.loops if any(e[0] in ('push_back',) for it in L.iters for e in L.iter_events(it)) or
             any(e[0] == 'push_back' for k, h0, s_, o in L.exits if s_ is not None for e in (s_.events(h0.ev) if h0 is not None else []))]
    if not loops:
        c.undecided('pieces in order', '%s does not append in a loop' % f['qual'], w)
        return
    if len(loops) == 1 and collected(c, f, r, s, loops[0], w):
        return
    k = 0
    for L in loops:
        # the cursor: a loop variable that is behind the colon after each piece
        best = None
        for loc in L.phi:
            v0 = L.entry.mem.get(loc)
            if v0 is not None and v0[0] in 'nt' and L.entry.decide(mk_eq0(lin(v0))) == 1:
                best = best or loc
                ok = all(it[1].mem.get(loc, ('?',))[0] in 'nt' for it in L.iters)
                if ok:
                    best = loc
                    break
        if best is None:
            c.undecided('pieces in order', '%s: the cursor of the loop is not found' % f['qual'], w)
            continue
        for it in L.iters:
            key, h0, st, k2 = it
            ps = [e for e in L.iter_events(it) if e[0] == 'push_back']
            other = [e for e in L.iter_events(it) if e[0] in ('push_front', 'splice', 'pop_front', 'pop_back', 'clear')]
            if other:
                c.decide(verdict(st, 0), 'pieces in order', '%s does %s in one iteration' % (f['qual'], other[0][0]), w, facts(st))
                continue
            cur = lin(h0.mem[best])
            if len(ps) == 0 and sx.positions(r, st, s, ':'):
                c.decide(verdict(st, 0), 'one piece at a time', '%s appends nothing in an iteration that finds a colon' % f['qual'], w, facts(st))
                continue
            if len(ps) != 1:
                c.decide(verdict(st, 0) if ps else None, 'one piece at a time', '%s appends %d pieces in one iteration' % (f['qual'], len(ps)), w, facts(st))
                continue
            k += 1
            res = judge(st, ps[0], cur, h0)
            nxt = st.mem.get(best)
            if res is None or nxt is None:
                continue
            if res[0] == 'colon':
                ok = st.decide(mk_eq0(sub(lin(nxt), add(res[1], num(1)))))
                c.decide(True if ok == 1 else verdict(st, 0, nxt), 'the next piece starts behind the colon', '%s goes on at %s after a colon at %s' % (f['qual'], show(nxt), show(res[1])), w, facts(st))
            else:
                # the last piece: the loop must not append again
                again = [x for x in L.iters if x[0] == k2 and any(e[0] == 'push_back' for e in L.iter_events(x))]
                c.decide(True if not again else verdict(st, 0), 'nothing after the last piece', '%s %s after the end was reached' % (f['qual'], 'appends again' if again else 'stops'), w, facts(st))
        for key, h0, st, o in L.exits:
            if h0 is None:
                continue
            ps = []
            for e in st.events(h0.ev):
                if e[0] == 'loopexit' and e[1] is L:
                    break
                if e[0] == 'push_back':
                    ps.append(e)
            cur = h0.mem.get(best)
            for e in ps:
                k += 1
                res = judge(st, e, lin(cur), h0)
                if res and res[0] == 'colon':
                    c.decide(verdict(st, 0), 'the list is split to its end', '%s stops at a colon' % f['qual'], w, facts(st))
        c.decide(True if k else None, 'pieces in order', '%s appends each piece in turn' % f['qual'], w)
    # what leaves the function: nothing for an empty list, otherwise the end was reached
    for st, v in r.rets:
        e = st.decide(mk_eq0(n))
        pb = [x for x in st.events() if x[0] == 'push_back']
        le = [x for x in st.events() if x[0] == 'loopexit']
        if e == 1:
            c.decide(True if not pb and not le else verdict(st, 0), 'nothing for an empty list', '%s gives %d pieces for an empty list' % (f['qual'], len(pb)), w, facts(st))
            continue
        if e is None and not le and not pb:
            c.decide(verdict(st, 0), 'all pieces', '%s gives nothing for a list that need not be empty' % f['qual'], w, facts(st))
            continue
        if e is None:
            c.decide(verdict(st, 0), 'nothing for an empty list', '%s gives a piece for an empty list' % f['qual'], w, facts(st))
        # after the loop: either it ended by reaching the end, or the remaining piece is appended now
        after = []
        seen = False
        for x in st.events():
            if x[0] == 'loopexit' and x[1] in loops:
                seen, after = x, []
            elif x[0] == 'push_back' and seen:
                after.append(x)
        if not seen:
            c.decide(verdict(st, 0) if len(pb) != 1 else None, 'all pieces', '%s gives %d pieces without a loop' % (f['qual'], len(pb)), w, facts(st))
            continue
        L, key = seen[1], seen[2]
        h = L.heads.get(key)
        best = [l for l in L.phi if (L.entry.mem.get(l) or ('?',))[0] in 'nt' and L.entry.decide(mk_eq0(lin(L.entry.mem[l]))) == 1]
        cur = h.mem.get(best[0]) if h is not None and best else None
        if after:
            if cur is None or cur[0] not in 'nt':
                c.undecided('all pieces', '%s appends after the loop' % f['qual'], w)
                continue
            res = judge(st, after[0], lin(cur), h)
            ok = len(after) == 1 and res == ('end',)
            c.decide(True if ok else verdict(st, 0), 'all pieces', '%s ends with the piece %s' % (f['qual'], show(pushed(r, st, after[0]))), w, facts(st))
        else:
            # the loop must have been left after its final piece
            pushes_in_exit = [e for e in st.events(h.ev if h is not None else None) if e[0] == 'push_back']
            came = [it for it in L.iters if it[3] == key]
            def final(it):
                return any(e[0] == 'push_back' and (lambda b: b is not None and it[2].decide(mk_eq0(sub(b[1], n))) == 1)(bounds(it[2], e, lin(it[1].mem[best[0]]))) for e in L.iter_events(it))
            ok = bool(best) and ((pushes_in_exit and h is not None and final_exit(st, pushes_in_exit, bounds, cur, n)) or (bool(came) and all(final(it) for it in came) and key != (L.iters and L.iters[0][0])))
            c.decide(True if ok else None if h is None else verdict(st, 0), 'all pieces', '%s %s' % (f['qual'], 'ends after the final piece' if ok else 'may end before the final piece'), w, facts(st))


def collected(c, f, r, s, L, w):
    """the other way to split: collect the characters of a piece one by one, append it at each colon and after the loop"""
    n = strlen(s)
    for i in L.phi:
        e = L.entry.mem.get(i)
        if e is None or e[0] not in 'nt' or L.entry.decide(mk_eq0(lin(e))) != 1:
            continue
        for cur in L.phi:
            if L.entry.mem.get(cur) != S(''):
                continue
            ok = bool(L.iters)
            for it in L.iters:
                key, h0, st, k2 = it
                x, y = h0.mem.get(i), st.mem.get(i)
                ps = [e for e in L.iter_events(it) if e[0] in ('push_back', 'push_front', 'splice', 'clear') and e[1] != cur]
                if x is None or y is None or st.decide(mk_eq0(sub(sub(lin(y), lin(x)), num(1)))) != 1:
                    ok = False
                    break
                colon = sx.char_at(st, s, lin(x), ':')
                was, now = h0.mem.get(cur), st.mem.get(cur)
                if colon == 1:
                    ok = len(ps) == 1 and ps[0][0] == 'push_back' and pushed(r, st, ps[0]) == was and now == S('')
                elif colon == 0:
                    ok = not ps and now == cat(was, T('chr', T('at', s, st.norm(lin(x)))))
                else:
                    ok = False
                if not ok:
                    break
            if not ok:
                continue
            # behind the loop: the last piece, exactly once
            for st, v in r.rets:
                le = [x for x in st.events() if x[0] == 'loopexit' and x[1] is L]
                if not le:
                    good = st.decide(mk_eq0(n)) == 1 and not [x for x in st.events() if x[0] == 'push_back']
                    c.decide(True if good else verdict(st, 0), 'nothing for an empty list', '%s leaves without splitting' % f['qual'], w, facts(st))
                    continue
                evl = st.events()
                at = max(j for j, x in enumerate(evl) if x[0] == 'loopexit' and x[1] is L)
                ps = [x for x in evl[at:] if x[0] in ('push_back', 'push_front')]
                h = L.heads.get(le[-1][2])
                end = h is not None and st.decide(mk_le(sub(n, lin(h.mem[i])))) == 1
                last_ = h.mem.get(cur) if h is not None else None
                good = len(ps) == 1 and ps[0][0] == 'push_back' and pushed(r, st, ps[0]) == last_ and end
                c.decide(True if good else verdict(st, 0), 'all pieces', '%s %s' % (f['qual'], 'appends the last piece behind the loop' if good else 'does not append the last piece once'), w, facts(st))
            c.held('pieces in order', '%s collects each piece and appends it at its colon' % f['qual'], w)
            return True
    return False


def final_exit(st, ps, bounds, cur, n):
    b = bounds(st, ps[-1], lin(cur)) if cur is not None and cur[0] in 'nt' else None
    return b is not None and st.decide(mk_eq0(sub(b[1], n))) == 1


def environment(c):
    f = c.need('fileutil::GetPathFromEnviroment')

    def lst(E, st, fr, cc):
        x = E.load(st, cc.args[0][1])
        st.emit('splitlist', x, cc.line)
        E.drop_under(st, cc.dest)
        st.mem[cc.dest] = ('L', (), T('pieces', x), ())
        return [(st, ('o', cc.dest))]
    r = c.analyse(f, hooks={'fileutil::GetPathListFromColonSeparatedList': lst})
    for st, v in r.rets:
        got = r.E.load(st, v[1]) if v[0] in 'lo' else v
        calls = [e for e in st.events() if e[0] == 'splitlist']
        gv = [a for a in st.facts if a[0] == 'null' and contains(a[1], lambda t: t[0] == 't' and 'getenv' in str(t[1:3]))]
        isnull = any(st.facts[a] is True for a in gv)
        known = any(st.facts[a] is False for a in gv)
        if isnull:
            ok = not calls and got in (('L', (), None, ()), ('L', (), T('pieces', S('')), ()))
            c.decide(True if ok else verdict(st, 0, got), 'environment', '%s gives %s for an unset variable' % (f['qual'], show(got)), c.where(f), facts(st))
        else:
            ok = known and len(calls) == 1 and contains(calls[0][1], lambda t: t[0] == 't' and 'getenv' in str(t[1:3])) and got == ('L', (), T('pieces', calls[0][1]), ())
            c.decide(True if ok else verdict(st, 0, got), 'environment', '%s gives %s for a set variable' % (f['qual'], show(got)), c.where(f), facts(st))
