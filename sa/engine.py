"""Path-partitioned abstract interpreter over the exported syntax trees.

Values are value numbers (terms.py), loops are solved as fixpoints over heads
partitioned by their discrete variables (booleans, null-ness, few small
constants); everything else that a loop changes becomes an opaque head value
for which linear invariants are kept when they are inductive.  Nothing is
executed and no solver is asked: a condition is decided from the facts of the
partition or splits it."""
import re
from .state import *
from .export import BrokenAnalysis, rel


HEAPTAGS = ('alive', 'dead', 'opq', 'zero', 'hav', 'count')


class TooBig(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'fid', 'this', 'depth', 'ret', 'caller', 'line', 'cls', 'lam')

    def __init__(self, fn, fid, this, depth, ret, caller, line):
        self.fn, self.fid, self.this, self.depth, self.ret, self.caller, self.line = fn, fid, this, depth, ret, caller, line
        self.cls = None
        self.lam = None

    def chain(self):
        f, out = self, []
        while f:
            out.append(f.fn['qual'] if f.fn else '?')
            f = f.caller
        return out[::-1]


_ta = re.compile(r'<[^<>]*>')
_nm = {}


def plain(n):
    """qualified name without template arguments"""
    r = _nm.get(n)
    if r is None:
        r = n
        ops = ''
        m = re.search(r'operator(<<|>>|<=|>=|<|>|->\*?|<=>)?[^:]*$', r)
        if m and m.group(1):
            ops = r[m.start():]
            r = r[:m.start()]
        while True:
            s = _ta.sub('', r)
            if s == r:
                break
            r = s
        r = r + ops
        r = r.replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::')
        _nm[n] = r
    return r


STDEXC = {
    'std::exception': None, 'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::bad_alloc': 'std::exception',
    'std::bad_cast': 'std::exception', 'std::bad_exception': 'std::exception', 'std::length_error': 'std::logic_error',
    'std::domain_error': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
    'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error',
    'std::ios_base::failure': 'std::runtime_error', 'std::bad_typeid': 'std::exception', 'itk::ExceptionObject': 'std::exception',
}


class Loop:
    def __init__(self, lid, fn, line, kind):
        self.lid, self.fn, self.line, self.kind = lid, fn, line, kind
        self.ptrs = {}          # positions in texts: their phi is the index
        self.phi = {}        # loc -> phi term
        self.entry = None    # state at entry
        self.heads = {}      # key -> head state
        self.iters = []      # (from key, head state, back state, to key)
        self.exits = []      # (key, head state, exit state, outcome)
        self.inv = []

    def iter_events(self, it):
        return it[2].events(it[1].ev)

    def __repr__(self):
        return 'Loop@%s' % self.line


def substr_eqs(st):
    """stretches of texts found equal: not given up when partitions are joined"""
    return {a for a, v in st.facts.items() if v and a[0] == 'eq' and a[1][:2] == ('t', 'substr') and a[2][:2] == ('t', 'substr')}


class Engine:
    MAXPATHS = 4000
    arrays = frozenset()
    RELEASERS = frozenset(('free', 'std::free', 'closedir', 'operator delete', 'operator delete[]', 'fclose', 'pclose', 'close', 'XML_ParserFree'))

    def __init__(self, prog, hooks=None, inline=None, maxdepth=24):
        self.p = prog
        from . import models
        self.models = models.MODELS
        self.typeops = models
        self.hooks = hooks or {}
        self.inline = inline          # callable(fn) -> bool, default True
        self.maxdepth = maxdepth
        self.maxrec = 0
        self.sinks = [[]]
        self.aborts = []              # (state, kind, frame, line, detail)
        self.uninit = []
        self.oob = []
        self.loops = []
        self.nloop = 0
        self.nframe = 0
        self.calls = 0
        self.steps = 0
        self.analysed = set()
        self.opaque = {}
        self.loctype = {}
        self.maxsteps = 3000000
        self.flags = set()
        self.merge = True
        self.joins = 0
        self.curfr = None
        self.dtor_effects = True
        self.null_derefs = []
        self.unkstmts = set()

    # ---------------------------------------------------------------- utils
    def where(self, fr, line):
        return '%s:%s' % (rel(fr.fn['file']) if fr and fr.fn else '?', line)

    def abort(self, st, kind, fr, line, detail=''):
        self.aborts.append((st, kind, fr, line, detail))

    def throw(self, st, etype, val=None, fr=None, line=None):
        st.emit('throw', etype, val, fr.fn['qual'] if fr and fr.fn else None, line)
        self.sinks[-1].append((st, etype, val))

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise TooBig('step limit')

    def fork_bool(self, st, b):
        """[(state, 1|0)]"""
        d = st.decide(b)
        if d is not None:
            return [(st, d)]
        s2 = st.fork()
        out = []
        if st.assume(b, 1):
            out.append((st, 1))
        if s2.assume(b, 0):
            out.append((s2, 0))
        return out

    def new_temp(self, st, tag='t'):
        return ('t', tag, st.fresh())

    def candidates(self, cls):
        c = self.p.classes.get(cls)
        if not c or not c.get('root'):
            return None
        r = self.p.concrete(cls)
        return frozenset(r) if r else None

    # ---------------------------------------------------------------- memory
    def load(self, st, loc, t=None):
        if loc in self.arrays:
            loc = ('e', loc, num(0))
        m = st.mem.get(loc)
        if m is not None:
            if m[0] == 'ref':
                return self.load(st, m[1], t)
            return m
        k = loc[0]
        if k == 'c':        # character of a string
            return self.charat(st, self.load(st, loc[1]), loc[2])
        if k == 'e':
            base = loc[1]
            if base in self.arrays:
                return self.typed(self.sel(st, self.arrval(st, base), st.norm(loc[2])), t)
            if base[0] == 'g':
                v = self.gtable(base[1], loc[2], st, t)
                if v is not None:
                    return v
            for d in (st.mem.get(('hav', base)),):
                if d is not None:
                    return self.typed(T('cell', d, loc[2]), t)
            if base[0] in ('d',):
                idx = st.norm(loc[2])
                v = T('cell', base[1] if base[0] == 'd' else base, idx)
                return self.typed(v, t)
        if k == 'f' and loc[1][0] in ('f', 'e'):
            q, path = loc, ()
            while q[0] == 'f':
                q, path = q[1], (q[2],) + path
            if q[0] == 'e' and ('hav', q[1]) in st.mem:
                return self.typed(T('cell', st.mem[('hav', q[1])], q[2], path), t)
        if k == 'g':
            v = self.ginit(loc[1], st)
            if v is not None:
                return v
        b = loc_base(loc)
        if b[0] in ('v', 'h', 't') and ('opq', b) not in st.mem:
            z = st.mem.get(('zero', b))
            if z is not None:
                return NULL if t and t.endswith('*') else (FALSE if t == 'bool' else num(0))
            q = loc
            while q[0] == 'f':      # part of an object that was copied as a whole
                q = q[1]
                m = st.mem.get(q)
                if m is not None and m[:2] == ('t', 'init'):
                    return self.typed(T('init', rebase(loc, q, m[2]), *m[3:]), t)
            return T('undef', loc)
        return self.typed(T('init', loc, st.gen) if st.gen else T('init', loc), t)

    # arrays held as one value: T('sto', array, index, value) and T('move', array, to, from, count)
    def arrval(self, st, base):
        a = st.mem.get(('f', base, '[]'))
        return a if a is not None else T('init', ('f', base, '[]'))

    def sel(self, st, a, i):
        while a[0] == 't' and a[1] in ('sto', 'move'):
            if a[1] == 'sto':
                d = st.decide(mk_eq0(sub(lin(a[3]), lin(i))))
                if d == 1:
                    return a[4]
                if d is None:
                    break
                a = a[2]
            else:
                to, fr, n = a[3], a[4], a[5]
                if st.prove_le(add(sub(i, to), num(1))) or st.prove_le(sub(add(to, n), i)):
                    a = a[2]
                elif st.prove_le(sub(to, i)) and st.prove_le(add(sub(i, add(to, n)), num(1))):
                    a, i = a[2], add(i, sub(fr, to))
                else:
                    break
        return T('sel', a, st.norm(lin(i)))

    def typed(self, term, t):
        if t and t.startswith('const '):
            t = t[6:]
        if t == 'bool':
            return mk_true(term)
        r = int_range(t)
        if r:
            self.loctype[term] = r
        return term

    def fit(self, st, v, t):
        """attach the range of integer type t to an opaque value"""
        r = int_range(t)
        if r and v[0] == 't' and v not in st.iv and default_iv(v) is None:
            st.iv[v] = r
        return v

    def ginit(self, key, st):
        g = self.p.globals.get(key)
        if g is None or not g.get('const') or 'init' not in g:
            return None
        return self.const_init(g['init'])

    def const_init(self, e):
        while e['k'] in ('full', 'tmp', 'cast') and e.get('ck') != 'ArrayToPointerDecay' or e['k'] == 'rd':
            e = e['e']
        k = e['k']
        if k == 'cast':
            e = e['e']
            k = e['k']
        if k == 'str':
            return S(e['v'])
        if k == 'int':
            return self.intval(e)
        if k == 'flt':
            return ('fl', e['v'])
        if k == 'ctor' and plain(e['n']) == 'std::basic_string::basic_string' and e['a']:
            return self.const_init(e['a'][0])
        if k == 'ctor' and plain(e['n']) == 'std::basic_string::basic_string':
            return S('')
        return None

    def gtable(self, key, idx, st, t):
        g = self.p.globals.get(key)
        if g is None or not g.get('const') or 'init' not in g:
            return None
        idx = st.norm(idx)
        a = self.table(key)
        if a is None:
            return None
        if not idx[2]:
            if 0 <= idx[1] < len(a):
                return num(a[idx[1]])
            return None
        v = T('tab', key, idx, (min(a), max(a)) if a else None)
        return v

    def table(self, key):
        g = self.p.globals.get(key)
        x = g.get('init') if g else None
        while x and x['k'] in ('cast', 'full', 'rd'):
            x = x['e']
        if x and x['k'] == 'str':
            out = [ord(ch) for ch in x['v']]
            return out + [0] * ((g.get('arr') or len(out)) - len(out))
        if not x or x['k'] != 'init':
            return None
        g = dict(g, init=x)
        out = []
        for x in g['init']['a']:
            while x['k'] in ('cast', 'full', 'rd'):
                x = x['e']
            if x['k'] == 'zero':
                out.append(0)
            elif x['k'] == 'int':
                out.append(int(x.get('v', x.get('vs'))))
            else:
                return None
        n = g.get('arr')
        if n is not None:
            out += [0] * (n - len(out))
        return out

    def charat(self, st, content, idx):
        idx = st.norm(idx)
        if content[0] == 's' and not idx[2] and 0 <= idx[1] < len(content[1]):
            c = ord(content[1][idx[1]])
            return num(c if c < 128 else c - 256)
        if idx == st.norm(strlen(content)):
            return num(0)
        return T('at', content, idx)

    def store(self, st, loc, v, fr=None, line=None):
        if loc in self.arrays:
            loc = ('e', loc, num(0))
        m = st.mem.get(loc)
        if m is not None and m[0] == 'ref':
            return self.store(st, m[1], v, fr, line)
        if loc[0] == 'c':
            base = loc[1]
            st.mem[base] = T('setat', self.load(st, base), loc[2], v)
            st.emit('store', loc, v, line)
            return
        if loc[0] == 'e':
            base, i = loc[1], st.norm(loc[2])
            loc = ('e', base, i)
            if base in self.arrays:
                st.mem[('f', base, '[]')] = T('sto', self.arrval(st, base), i, v)
                st.emit('store', loc, v, line)
                return
            drop = [l for l in st.mem if l[0] == 'e' and l[1] == base and l != loc and st.decide_atom(mk_eq0(sub(l[2], i))[1] if mk_eq0(sub(l[2], i))[0] == 'b' else ('eq0', sub(l[2], i))) != 0]
            for l in drop:
                del st.mem[l]
                st.mem[('hav', base)] = T('hav', base, st.fresh())
        st.mem[loc] = v
        if loc_base(loc)[0] not in ('v', 't') or loc[0] == 'e':
            st.emit('store', loc, v, line)

    def drop_under(self, st, loc):
        """forget everything stored in the object at loc"""
        for l in [l for l in st.mem if under(l, loc)]:
            del st.mem[l]

    def havoc(self, st, loc, why='havoc'):
        self.drop_under(st, loc)
        b = loc_base(loc)
        v = T('hav', loc, st.fresh())
        st.mem[loc] = v
        st.mem[('hav', loc)] = v
        if b[0] in ('v', 'h', 't'):
            st.mem[('opq', b)] = TRUE

    # ---------------------------------------------------------------- literals
    def intval(self, e):
        v = int(e['vs']) if 'vs' in e else e['v']
        if e.get('t') == 'bool':
            return B(v)
        return num(v)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        """prvalue: [(state, value)]"""
        self.tick()
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            st.unknown('expr:' + k + ':' + str(e.get('n', '')))
            self.unkstmts.add(k + ':' + str(e.get('n', '')))
            return [(st, T('unkexpr', k, st.fresh()))]
        return m(e, st, fr)

    def ev_int(self, e, st, fr):
        return [(st, self.intval(e))]

    def ev_flt(self, e, st, fr):
        return [(st, ('fl', e['v']))]

    def ev_str(self, e, st, fr):
        return [(st, S(e['v']))]

    def ev_nullp(self, e, st, fr):
        return [(st, NULL)]

    def ev_this(self, e, st, fr):
        return [(st, mkptr(fr.this))]

    def ev_fn(self, e, st, fr):
        return [(st, ('fnp', e['f'], e['n']))]

    def ev_zero(self, e, st, fr):
        return [(st, self.zero_of(e.get('t')))]

    def zero_of(self, t):
        if t == 'bool':
            return FALSE
        if t and t.endswith('*'):
            return NULL
        if is_float(t):
            return ('fl', '0')
        return num(0)

    def ev_full(self, e, st, fr):
        h = len(st.tmps)
        out = []
        for s, v in self.ev(e['e'], st, fr):
            for s2 in self.end_temps(s, h, fr, e.get('l')):
                out.append((s2, v))
        return out

    def end_temps(self, st, h, fr, line):
        """destroy the temporaries created after height h"""
        sts = [st]
        todo = st.tmps[h:]
        if not todo:
            return sts
        st.tmps = st.tmps[:h]
        for loc, cls in reversed(todo):
            nx = []
            for s in sts:
                s.live = tuple(x for x in s.live if x[0] != loc)
                nx += self.destroy(s, loc, cls, fr, line)
            sts = nx
        return sts

    def ev_rd(self, e, st, fr):
        out = []
        for s, loc in self.lv(e['e'], st, fr):
            v = self.rdloc(s, loc, e, fr)
            out.append((s, v))
        return out

    def rdloc(self, s, loc, e, fr):
        t = e.get('t')
        v = self.load(s, loc, t)
        if 'cells' in self.flags and loc[0] == 'e' and loc[1][0] == 'd':
            s.emit('cell', loc[1][1], s.norm(loc[2]), e.get('l'), fr.fn['key'], s.fork())
        if v[0] == 't' and v[1] == 'undef':
            self.uninit.append((s, fr, e.get('l'), loc))
            if t == 'bool':
                return mk_true(v)
            return v
        if v[0] == 't' and int_range(t):
            if t == 'bool':
                return mk_true(v)
            self.fit(s, v, t)
        if v[0] in ('t',) and int_range(t):
            return lin(v)
        if v[0] == 'n' and t == 'bool':
            return mk_not(mk_eq0(v))
        return v

    def ev_var(self, e, st, fr):
        # a glvalue used where a class prvalue is expected
        return [(s, ('o', l)) for s, l in self.lv(e, st, fr)]

    ev_mem = ev_idx = ev_var

    def ev_tmp(self, e, st, fr):
        return [(s, ('o', l)) for s, l in self.lv(e, st, fr)]

    def ev_call(self, e, st, fr):
        if e.get('lv'):
            return [(s, ('o', l)) for s, l in self.lv(e, st, fr)]
        return self.call(e, st, fr, None)

    def ev_ctor(self, e, st, fr):
        return [(s, ('o', l)) for s, l in self.materialize(e, st, fr)]

    def ev_init(self, e, st, fr):
        t = e.get('t') or ''
        if not self.class_of(e) and not t.endswith(']'):
            if not e['a']:
                return [(st, self.zero_of(t))]
            if len(e['a']) == 1:
                return self.ev(e['a'][0], st, fr)
        return [(s, ('o', l)) for s, l in self.materialize(e, st, fr)]

    def ev_un(self, e, st, fr):
        op = e['op']
        if op == '&':
            if e['e']['k'] == 'fn':
                return self.ev(e['e'], st, fr)
            return [(s, mkptr(self.decay(l))) for s, l in self.lv(e['e'], st, fr)]
        if op in ('++', '--'):
            out = []
            for s, l in self.lv(e['e'], st, fr):
                old = self.rdloc(s, l, e, fr)
                nv = self.arith(s, '+' if op == '++' else '-', old, num(1), e.get('t'), fr, e)
                for s2, v in nv:
                    self.store(s2, l, v, fr, e.get('l'))
                    out.append((s2, old if e.get('post') else v))
            return out
        if op == '*':
            return [(s, ('o', l)) for s, l in self.lv(e, st, fr)]
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if op == '!':
                out.append((s, mk_not(self.truth(s, v))))
            elif op == '-':
                if v[0] in ('n', 'B') or v[0] == 't' and not is_float(e.get('t')):
                    if is_unsigned(e.get('t')):
                        out += self.arith(s, '-', num(0), v, e.get('t'), fr, e)
                    else:
                        out.append((s, scale(self.asint(v), -1)))
                else:
                    out.append((s, T('neg', v)))
            elif op == '+':
                out.append((s, v))
            elif op == '~':
                if isnum(lin(v)):
                    out.append((s, num(~lin(v)[1])))
                else:
                    out.append((s, T('~', v)))
            else:
                s.unknown('unary ' + op)
                out.append((s, T('un' + op, v)))
        return out

    def decay(self, loc):
        return loc

    def truth(self, st, v):
        """contextual conversion to bool"""
        k = v[0]
        if k in ('B', 'b'):
            return v
        if k == 'n':
            return mk_not(mk_eq0(v))
        if k in ('p', 'nullp', 'fnp'):
            return B(k != 'nullp')
        if k == 'fl':
            return B(float(v[1]) != 0)
        return mk_true(v)

    def asint(self, v):
        if v[0] == 'b':
            return lin(T('b2i', v))
        return lin(v)

    def ev_bin(self, e, st, fr):
        op = e['op']
        if op == ',':
            out = []
            for s, _ in self.ev_any(e['a'], st, fr):
                out += self.ev_any(e['b'], s, fr)
            return out
        if op in ('&&', '||'):
            out = []
            for s, v in self.ev(e['a'], st, fr):
                for s2, d in self.fork_bool(s, self.truth(s, v)):
                    if (op == '&&') != bool(d):
                        out.append((s2, B(d)))
                    else:
                        for s3, w in self.ev(e['b'], s2, fr):
                            out.append((s3, self.truth(s3, w)))
            return out
        out = []
        for s, a in self.ev(e['a'], st, fr):
            for s2, b in self.ev(e['b'], s, fr):
                out += self.binop(s2, op, a, b, e, fr)
        return out

    def ev_any(self, e, st, fr):
        """evaluate a discarded or pass-through expression (lvalue or prvalue)"""
        if self.is_glv(e):
            return [(s, ('o', l)) for s, l in self.lv(e, st, fr)]
        return self.ev(e, st, fr)

    def is_glv(self, e):
        k = e['k']
        if k in ('var', 'mem', 'idx', 'tmp', 'asg', 'str'):
            return True
        if k == 'un':
            return e['op'] == '*' or (e['op'] in ('++', '--') and not e.get('post'))
        if k in ('call', 'cast'):
            return bool(e.get('lv'))
        if k == 'full':
            return self.is_glv(e['e'])
        if k == 'cond':
            return self.is_glv(e['a']) and self.is_glv(e['b'])
        if k == 'bin' and e['op'] == ',':
            return self.is_glv(e['b'])
        return False

    def binop(self, st, op, a, b, e, fr):
        t = e.get('t')
        if op in ('==', '!='):
            v = self.equal(st, a, b, e)
            return [(st, v if op == '==' else mk_not(v))]
        if op in ('<', '>', '<=', '>='):
            if a[0] in ('n', 'B', 'b') or b[0] in ('n', 'B', 'b'):
                if a[0] == 'fl' or b[0] == 'fl' or self.floaty(a) or self.floaty(b):
                    return [(st, self.fcmp(op, a, b))]
                x, y = self.asint(a), self.asint(b)
                if op in ('>', '>='):
                    x, y = y, x
                d = sub(x, y)
                return [(st, mk_le(add(d, num(1)) if op in ('<', '>') else d))]
            ot = e['a'].get('t')
            if is_float(ot) or a[0] == 'fl' or b[0] == 'fl':
                return [(st, self.fcmp(op, a, b))]
            if a[0] == 'p' or b[0] == 'p' or (ot or '').endswith('*'):
                return [(st, ('b', ('plt', op, a, b), 1))]
            x, y = self.asint(a), self.asint(b)
            if op in ('>', '>='):
                x, y = y, x
            d = sub(x, y)
            return [(st, mk_le(add(d, num(1)) if op in ('<', '>') else d))]
        if op == '<<' and not int_range(t):
            pass
        return self.arith(st, op, a, b, t, fr, e)

    def floaty(self, v):
        return v[0] == 't' and (v[1].startswith('f') and v[1] in ('f+', 'f-', 'f*', 'f/', 'fabs', 'i2f', 'f2f'))

    def fcmp(self, op, a, b):
        # a > b  ==  b < a ;  a >= b == b <= a
        if op in ('>', '>='):
            a, b = b, a
        if op in ('<', '>') and a[:2] == ('t', 'fabs') and b[0] == 'fl' and float(b[1]) <= 0:
            return FALSE
        if a[0] == 'fl' and b[0] == 'fl':
            x, y = float(a[1]), float(b[1])
            return B(x < y if op in ('<', '>') else x <= y)
        return ('b', ('flt' if op in ('<', '>') else 'fle', a, b), 1)

    def equal(self, st, a, b, e=None):
        if a[0] in ('B', 'b') and b[0] in ('B', 'b'):
            if a[0] == 'B':
                a, b = b, a
            if b[0] == 'B':
                return a if b[1] else mk_not(a)
            da, db = st.decide(a), st.decide(b)
            if da is not None and db is not None:
                return B(da == db)
            if da is not None:
                return b if da else mk_not(b)
            if db is not None:
                return a if db else mk_not(a)
            return ('b', eqatom(a, b), 1)
        if a[0] == 'fl' or b[0] == 'fl' or self.floaty(a) or self.floaty(b):
            if a[0] == 'fl' and b[0] == 'fl':
                return B(float(a[1]) == float(b[1]))
            return ('b', ('feq',) + tuple(sorted((a, b), key=skey)), 1)
        ot = e['a'].get('t') if e else None
        if is_float(ot):
            return ('b', ('feq',) + tuple(sorted((a, b), key=skey)), 1)
        if a[0] in ('n', 'B') or b[0] in ('n', 'B') or int_range(ot):
            return mk_eq0(sub(self.asint(a), self.asint(b)))
        a, b = self.ptrnorm(st, a), self.ptrnorm(st, b)
        return mk_eq(a, b)

    def ptrnorm(self, st, a):
        if a[0] == 'p' and a[1][0] == 'e':
            return ('p', ('e', a[1][1], st.norm(a[1][2])))
        return a

    def ptradd(self, st, p, i):
        i = st.norm(i)
        if p[0] == 'p':
            l = p[1]
            if l[0] in ('e', 'c'):
                return mkptr((l[0], l[1], st.norm(add(l[2], i))))
            if isnum(i) and i[1] == 0:
                return p
            return ('p', ('e', l, i))
        if isnum(i) and i[1] == 0:
            return p
        if p[0] == 's':
            return ('p', ('c', ('lit', p), i))
        if p[0] == 't' and p[1] == 'cstr':
            return ('p', ('c', ('lit', p[2]), i))
        if p == NULL:
            return T('nulladd', i)
        return ('p', ('e', ('d', p), i))

    def arith(self, st, op, a, b, t, fr, e):
        """[(state, value)]"""
        ptr = lambda v: v[0] in ('p', 'nullp', 's') or (v[0] == 't' and (t or '').endswith('*'))
        if (t or '').endswith('*'):
            if op == '+':
                if self.isptr(b) and not self.isptr(a):
                    a, b = b, a
                return [(st, self.ptradd(st, a, self.asint(b)))]
            if op == '-':
                return [(st, self.ptradd(st, a, scale(self.asint(b), -1)))]
        if op == '-' and not is_float(t) and self.isptr(a) and self.isptr(b):
            la = a[1] if a[0] == 'p' else ('d', a)
            lb = b[1] if b[0] == 'p' else ('d', b)
            ia = la[2] if la[0] in ('e', 'c') else num(0)
            ib = lb[2] if lb[0] in ('e', 'c') else num(0)
            if (la[1] if la[0] in ('e', 'c') else la) == (lb[1] if lb[0] in ('e', 'c') else lb):
                return [(st, sub(ia, ib))]
            return [(st, lin(T('pdiff', a, b)))]
        if is_float(t) or a[0] == 'fl' or b[0] == 'fl':
            if op in ('+', '*'):
                x, y = sorted((a, b), key=skey)
                return [(st, T('f' + op, x, y, t))]
            return [(st, T('f' + op, a, b, t))]
        x, y = self.asint(a), self.asint(b)
        if op == '+':
            return self.wrap(st, add(x, y), t, fr, e)
        if op == '-':
            return self.wrap(st, sub(x, y), t, fr, e)
        if op == '*':
            return self.wrap(st, mul(x, y), t, fr, e)
        x, y = st.norm(x), st.norm(y)
        if isnum(x) and isnum(y):
            p, q = x[1], y[1]
            if op == '/' and q:
                r = abs(p) // abs(q)
                return [(st, num(r if (p < 0) == (q < 0) else -r))]
            if op == '%' and q:
                r = abs(p) % abs(q)
                return [(st, num(r if p >= 0 else -r))]
            if op == '<<' and 0 <= q < 64:
                return [(st, num(p << q))]
            if op == '>>' and 0 <= q < 64:
                return [(st, num(p >> q))]
            if op == '&':
                return [(st, num(p & q))]
            if op == '|':
                return [(st, num(p | q))]
            if op == '^':
                return [(st, num(p ^ q))]
        if op in ('/', '%') and not (isnum(y) and y[1]):
            if st.decide(mk_eq0(y)) != 0:
                st.emit('maydivzero', y, e.get('l'))
        if op in ('&', '|', '^') and skey(y) < skey(x):
            x, y = y, x
        v = T(op, x, y)
        rng = None
        if op == '&' and (isnum(x) or isnum(y)):
            c = x[1] if isnum(x) else y[1]
            if c >= 0:
                rng = (0, c)
        elif op == '>>' and isnum(y):
            lo, hi = st.bounds(x)
            if lo is not None and hi is not None:
                rng = (lo >> y[1], hi >> y[1])
        elif op == '<<' and isnum(y):
            lo, hi = st.bounds(x)
            if lo is not None and hi is not None:
                rng = (lo << y[1], hi << y[1])
        elif op == '|':
            l1, h1 = st.bounds(x)
            l2, h2 = st.bounds(y)
            if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0 and h1 is not None and h2 is not None:
                rng = (max(l1, l2), (1 << max(h1.bit_length(), h2.bit_length())) - 1)
        elif op == '%' and isnum(y):
            lo, hi = st.bounds(x)
            m = abs(y[1]) - 1
            rng = (0 if lo is not None and lo >= 0 else -m, m)
        elif op == '/' and isnum(y) and y[1] > 0:
            lo, hi = st.bounds(x)
            if lo is not None and hi is not None and lo >= 0:
                rng = (lo // y[1], hi // y[1])
        if rng is None:
            rng = int_range(t)
        if rng and v not in st.iv:
            st.iv[v] = rng
        return [(st, lin(v))]

    def wrap(self, st, v, t, fr, e):
        """unsigned wrap-around splits the partition"""
        r = int_range(t)
        v = st.norm(v)
        if not r or not (r[0] == 0) or t == 'bool':
            return [(st, v)]
        lo, hi = st.bounds(v)
        if lo is not None and lo >= 0 or st.prove_le(scale(v, -1)):
            if isnum(v) and v[1] > r[1]:
                return [(st, num(v[1] & r[1]))]
            return [(st, v)]
        M = r[1] + 1
        if isnum(v):
            return [(st, num(v[1] % M))]
        if hi is not None and hi < 0:
            return [(st, add(v, num(M)))]
        s2 = st.fork()
        out = []
        if st.add_le(scale(v, -1)):
            out.append((st, v))
        if s2.add_le(add(v, num(1))):
            s2.emit('wrap', v, e.get('l'), fr.fn['qual'])
            out.append((s2, add(v, num(M))))
        return out

    def isptr(self, v):
        return v[0] in ('p', 'nullp', 's') or (v[0] == 't' and v[1] not in ('b2i',) and False) or (v[0] == 't')

    def ev_cond(self, e, st, fr):
        out = []
        for s, v in self.ev(e['c'], st, fr):
            for s2, d in self.fork_bool(s, self.truth(s, v)):
                out += self.ev_any(e['a'] if d else e['b'], s2, fr)
        return out

    def ev_cast(self, e, st, fr):
        ck = e['ck']
        t, ft = e.get('t'), e.get('ft')
        if ck == 'ToVoid':
            return [(s, ('void',)) for s, _ in self.ev_any(e['e'], st, fr)]
        if ck == 'ArrayToPointerDecay':
            sub_ = e['e']
            if sub_['k'] == 'str':
                return [(st, S(sub_['v']))]
            return [(s, ('p', ('e', l, num(0)))) for s, l in self.lv(sub_, st, fr)]
        if e.get('dyn'):
            return self.dyncast(e, st, fr)
        out = []
        for s, v in self.ev(e['e'], st, fr):
            out += self.conv(s, v, ck, ft, t, e, fr)
        return out

    def conv(self, s, v, ck, ft, t, e, fr):
        if v[0] == 'o':
            return [(s, v)]
        if ck in ('NullToPointer',):
            return [(s, NULL)]
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            if ck == 'FloatingToBoolean' and v[0] not in ('fl',):
                return [(s, mk_not(('b', ('feq',) + tuple(sorted((v, ('fl', '0')), key=skey)), 1)))]
            if ck == 'IntegralToBoolean':
                return [(s, self.truth(s, v if v[0] in ('n', 'B', 'b') else lin(v)))]
            if ck == 'PointerToBoolean':
                return [(s, mk_not(mk_null(v)))]
            return [(s, self.truth(s, v))]
        if ck == 'IntegralCast' or ck == 'BooleanToSignedIntegral':
            if t == 'bool':
                return [(s, self.truth(s, v))]
            if v[0] in ('B', 'b'):
                return [(s2, num(d)) for s2, d in self.fork_bool(s, v)]
            return self.intcast(s, lin(v), t, ft, e, fr)
        if ck == 'IntegralToFloating':
            if v[0] in ('B', 'b'):
                return [(s2, ('fl', str(d))) for s2, d in self.fork_bool(s, v)]
            if isnum(lin(v)):
                return [(s, ('fl', str(lin(v)[1])))]
            return [(s, T('i2f', v, t))]
        if ck == 'FloatingCast':
            if v[0] == 'fl':
                return [(s, v)]
            rank = {'float': 0, 'double': 1, 'long double': 2}
            if rank.get(t, 0) >= rank.get(ft, 0):
                return [(s, v)]
            return [(s, T('f2f', v, t))]
        if ck == 'FloatingToIntegral':
            return [(s, lin(self.fit(s, T('f2i', v, t), t)))]
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'NoOp', 'IntegralToPointer', 'PointerToIntegral',
                  'LValueBitCast', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'Dependent'):
            return [(s, v)]
        s.unknown('cast:' + str(ck))
        return [(s, T('cast', ck, v))]

    def intcast(self, s, v, t, ft, e, fr):
        r = int_range(t)
        if r is None:
            return [(s, v)]
        v = s.norm(v)
        rs = int_range(ft)
        if isnum(v):
            c = v[1]
            M = r[1] - r[0] + 1
            return [(s, num((c - r[0]) % M + r[0]))]
        lo, hi = s.bounds(v)
        if lo is None or hi is None:
            if rs:
                lo = rs[0] if lo is None else lo
                hi = rs[1] if hi is None else hi
        if lo is not None and hi is not None and lo >= r[0] and hi <= r[1]:
            return [(s, v)]
        if s.prove_le(sub(v, num(r[1]))) and s.prove_le(sub(num(r[0]), v)):
            return [(s, v)]
        if t in ('unsigned char', 'char', 'signed char'):
            u = unlin(v)
            if u[0] == 't' and u[1] == 'at' and t == 'unsigned char':
                return [(s, lin(T('uchar', u)))]
            w = T('byte' if t == 'unsigned char' else 'schar', v)
            s.iv.setdefault(w, r)
            return [(s, lin(w))]
        if rs and (rs[1] - rs[0]) == (r[1] - r[0]):
            # same width: identity unless the sign matters; split on it
            out = []
            s2 = s.fork()
            if s.add_le(sub(v, num(r[1]))) and s.add_le(sub(num(r[0]), v)):
                out.append((s, v))
            if r[0] == 0:
                if s2.add_le(add(v, num(1))):
                    s2.emit('wrap', v, e.get('l'), fr.fn['qual'] if fr else None)
                    out.append((s2, add(v, num(r[1] + 1))))
            else:
                if s2.add_le(sub(num(r[1] + 1), v)):
                    out.append((s2, sub(v, num(2 * (r[1] + 1)))))
            return out
        if rs and rs[0] < 0 and r[0] == 0 and r[1] > rs[1]:
            out = []
            s2 = s.fork()
            if s.add_le(scale(v, -1)):
                out.append((s, v))
            if s2.add_le(add(v, num(1))):
                s2.emit('wrap', v, e.get('l'), fr.fn['qual'] if fr else None)
                out.append((s2, add(v, num(r[1] + 1))))
            return out
        w = T('trunc', v, t)
        s.iv.setdefault(w, r)
        return [(s, lin(w))]

    def dyncast(self, e, st, fr):
        target = e.get('c')
        isptr = e['t'].endswith('*')
        out = []
        src = self.ev(e['e'], st, fr) if isptr else [(s, mkptr(l)) for s, l in self.lv(e['e'], st, fr)]
        for s, v in src:
            d = s.decide_null(v)
            if d == 1:
                out.append((s, NULL))
                continue
            if d is None and isptr:
                s0 = s.fork()
                if s0.assume(mk_null(v), 1):
                    out.append((s0, NULL))
                s.assume(mk_null(v), 0)
            for s2, r in self.isa_split(s, self.deref(s, v), target, e['e'].get('c')):
                if r:
                    out.append((s2, v))
                elif isptr:
                    out.append((s2, NULL))
                else:
                    self.throw(s2, 'std::bad_cast', None, fr, e.get('l'))
        return out

    def isa_split(self, st, loc, target, static=None):
        cs = st.typ.get(loc)
        if cs is None and static:
            cs = self.candidates(static)
        if cs is None:
            s2 = st.fork()
            a = ('isa', loc, target)
            d = st.facts.get(a)
            if d is not None:
                return [(st, int(d))]
            st.facts[a] = True
            s2.facts[a] = False
            return [(st, 1), (s2, 0)]
        yes = frozenset(c for c in cs if self.p.is_a(c, target))
        no = cs - yes
        if not no:
            return [(st, 1)]
        if not yes:
            return [(st, 0)]
        s2 = st.fork()
        st.typ[loc] = yes
        s2.typ[loc] = no
        return [(st, 1), (s2, 0)]

    def ev_asg(self, e, st, fr):
        return [(s, self.rdloc(s, l, e, fr)) for s, l in self.lv_asg(e, st, fr)]

    def ev_new(self, e, st, fr):
        out = []
        pre = self.ev(e['n'], st, fr) if e.get('arr') and e.get('n') else [(st, None)]
        for s, n in pre:
            loc = ('h', 'new', s.fresh(), e.get('l'))
            cls = e.get('c') if not e['t'].endswith('*') else None
            if cls in self.p.classes and self.p.classes[cls].get('root'):
                s.typ[loc] = frozenset([cls])
            s.emit('new', loc, e['t'], bool(e.get('arr')), e.get('l'), fr.fn['qual'], n)
            s.mem[('alive', loc)] = ('s', 'new[]' if e.get('arr') else 'new')
            if n is not None:
                s.mem[('count', loc)] = lin(n)
            init = e.get('init')
            if e.get('arr'):
                if init is not None and init['k'] in ('zero', 'init'):
                    s.mem[('zero', loc)] = TRUE
                out.append((s, ('p', ('e', loc, num(0)))))
                continue
            if init is None:
                out.append((s, ('p', loc)))
            elif init['k'] in ('ctor', 'init', 'call', 'full', 'tmp') and e.get('c') and not e['t'].endswith('*'):
                # the memory is given back if the constructor throws
                sink = []
                self.sinks.append(sink)
                try:
                    res = self.into(init, loc, s, fr)
                finally:
                    self.sinks.pop()
                for s2, et, val in sink:
                    s2.mem.pop(('alive', loc), None)
                    self.sinks[-1].append((s2, et, val))
                out += [(s2, ('p', loc)) for s2 in res]
            else:
                for s2, v in self.ev(init, s, fr):
                    self.store(s2, loc, v)
                    out.append((s2, ('p', loc)))
        return out

    def ev_del(self, e, st, fr):
        out = []
        for s, v in self.ev(e['e'], st, fr):
            out += [(s2, ('void',)) for s2 in self.delete(s, v, bool(e.get('arr')), e.get('c'), fr, e.get('l'))]
        return out

    def delete(self, s, v, arr, cls, fr, line):
        out = []
        d = s.decide_null(v)
        if d == 1:
            return [s]
        if d is None:
            s0 = s.fork()
            if s0.assume(mk_null(v), 1):
                out.append(s0)
            if not s.assume(mk_null(v), 0):
                return out
        loc = v[1] if v[0] == 'p' else ('d', v)
        base = loc[1] if loc[0] == 'e' else loc
        s.emit('del', base, 'delete[]' if arr else 'delete', line, fr.fn['qual'] if fr else None, v)
        sts = [s]
        if not arr and cls:
            exact = s.typ.get(base)
            sts = self.destroy(s, base, cls, fr, line, virtual=True)
        for s2 in sts:
            self.release(s2, base, 'delete[]' if arr else 'delete', fr, line)
            out.append(s2)
        return out

    def release(self, s, base, how, fr, line):
        al = s.mem.get(('alive', base))
        if al is None:
            if ('dead', base) in s.mem or base[0] == 'h':
                self.abort(s.fork(), 'double-release', fr, line, base)
            s.mem[('dead', base)] = TRUE
        else:
            ok = {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free', 'ext': how}.get(al[1])
            if ok != how:
                self.abort(s.fork(), 'mismatched-release', fr, line, (base, al[1], how))
            del s.mem[('alive', base)]
            s.mem[('dead', base)] = TRUE

    def ev_throw(self, e, st, fr):
        if e.get('e') is None:
            self.throw(st, 'rethrow', None, fr, e.get('l'))
            return []
        x = e['e']
        if e.get('c'):
            for s, v in self.ev_any(x, st, fr):
                val = v
                if v[0] == 'o':
                    val = self.load(s, v[1])
                self.throw(s, e.get('c') if not e['t'].endswith('*') else e['t'], val, fr, e.get('l'))
        else:
            for s, v in self.ev(x, st, fr):
                self.throw(s, e.get('c') or e.get('t') or '?', v, fr, e.get('l'))
        return []

    def ev_lambda(self, e, st, fr):
        loc = self.new_temp(st, 'lambda')
        return [(s, ('o', loc)) for s in self.into_lambda(e, loc, st, fr)]

    def into_lambda(self, e, loc, st, fr):
        caps = []
        for c in e['caps']:
            if c.get('this'):
                caps.append(('this', fr.this))
            else:
                src = self.varloc(st, fr, c['id'], c.get('n'))
                if c.get('ref'):
                    caps.append((c['id'], ('ref', src)))
                else:
                    caps.append((c['id'], ('val', src)))
        vals = []
        for cid, x in caps:
            if cid == 'this':
                vals.append(('this', x))
            elif x[0] == 'ref':
                vals.append((cid, ('ref', x[1])))
            else:
                l2 = ('f', loc, 'cap%d' % cid)
                self.copy_object(st, x[1], l2)
                vals.append((cid, ('ref', l2)))
        st.mem[loc] = ('lambda', e['f'], tuple(vals), fr.fid)
        return [st]

    def copy_object(self, st, src, dst):
        """bitwise/value copy of everything stored under src"""
        m = st.mem.get(src)
        if m is not None and m[0] == 'ref':
            src = m[1]
        found = False
        for l in [l for l in st.mem if under(l, src)]:
            st.mem[rebase(l, src, dst)] = st.mem[l]
            found = True
        if src in st.typ:
            st.typ[dst] = st.typ[src]
        if not found:
            st.mem[dst] = self.load(st, src)

    # ---------------------------------------------------------------- glvalues
    def varloc(self, st, fr, vid, n):
        f = fr
        loc = ('v', fr.fid, vid, n)
        if fr.lam:
            for cid, x in fr.lam[2]:
                if cid == vid:
                    return x[1]
            # a variable of the enclosing frame that is used without capture (constant)
        m = st.mem.get(loc)
        if m is not None and m[0] == 'ref':
            return m[1]
        return loc

    def lv(self, e, st, fr):
        """glvalue: [(state, location)]"""
        self.tick()
        k = e['k']
        if k == 'var':
            if 'g' in e:
                l = ('g', e['g'])
                m = st.mem.get(l)
                if m is not None and m[0] == 'ref':
                    return [(st, m[1])]
                return [(st, l)]
            return [(st, self.varloc(st, fr, e['id'], e['n']))]
        if k == 'mem':
            out = []
            if e['arrow']:
                for s, v in self.ev(e['b'], st, fr):
                    l = self.deref(s, v, fr, e.get('l'))
                    if l is not None:
                        out.append((s, self.field(s, l, e)))
            else:
                base = self.lv(e['b'], st, fr) if self.is_glv(e['b']) else self.materialize(e['b'], st, fr)
                for s, l in base:
                    out.append((s, self.field(s, l, e)))
            return out
        if k == 'idx':
            out = []
            for s, b in self.ev(e['b'], st, fr):
                for s2, i in self.ev(e['i'], s, fr):
                    if self.isptr(i) and not self.isptr(b):
                        b, i = i, b
                    p = self.ptradd(s2, b, self.asint(i))
                    l = self.deref(s2, p, fr, e.get('l'))
                    if l is not None:
                        self.note_index(s2, l, fr, e)
                        out.append((s2, l))
            return out
        if k == 'un':
            if e['op'] == '*':
                out = []
                for s, v in self.ev(e['e'], st, fr):
                    l = self.deref(s, v, fr, e.get('l'))
                    if l is not None:
                        self.note_index(s, l, fr, e)
                        out.append((s, l))
                return out
            if e['op'] in ('++', '--'):
                out = []
                for s, l in self.lv(e['e'], st, fr):
                    old = self.rdloc(s, l, e, fr)
                    for s2, v in self.arith(s, '+' if e['op'] == '++' else '-', old, num(1), e.get('t'), fr, e):
                        self.store(s2, l, v, fr, e.get('l'))
                        out.append((s2, l))
                return out
        if k == 'asg':
            return self.lv_asg(e, st, fr)
        if k == 'call':
            return [(s, self.asloc(s, v, fr, e)) for s, v in self.call(e, st, fr, None)]
        if k == 'cast':
            if e.get('dyn'):
                return [(s, self.deref(s, v)) for s, v in self.dyncast(e, st, fr)]
            if e['ck'] == 'LValueBitCast':
                return self.lv(e['e'], st, fr)
            if self.is_glv(e['e']):
                return self.lv(e['e'], st, fr)
            return self.materialize(e['e'], st, fr)
        if k == 'cond':
            out = []
            for s, v in self.ev(e['c'], st, fr):
                for s2, d in self.fork_bool(s, self.truth(s, v)):
                    x = e['a'] if d else e['b']
                    if x['k'] == 'throw':
                        self.ev(x, s2, fr)
                    else:
                        out += self.lv(x, s2, fr) if self.is_glv(x) else self.materialize(x, s2, fr)
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, _ in self.ev_any(e['a'], st, fr):
                out += self.lv(e['b'], s, fr)
            return out
        if k == 'tmp':
            return self.materialize(e['e'], st, fr, e)
        if k == 'full':
            h = len(st.tmps)
            out = []
            for s, l in self.lv(e['e'], st, fr):
                keep = s.tmps[h:]
                # a temporary bound to the reference lives on
                for s2 in self.end_temps_except(s, h, l, fr, e.get('l')):
                    out.append((s2, l))
            return out
        if k == 'str':
            return [(st, ('lit', S(e['v'])))]
        if k == 'this':
            return [(st, fr.this)]
        return self.materialize(e, st, fr)

    def end_temps_except(self, st, h, loc, fr, line):
        b = loc_base(loc)
        keep = tuple(x for x in st.tmps[h:] if x[0] == b)
        st.tmps = st.tmps[:h] + tuple(x for x in st.tmps[h:] if x[0] != b)
        return self.end_temps(st, h, fr, line)

    def asloc(self, s, v, fr, e):
        if v[0] == 'l':
            return v[1]
        if v[0] == 'o':
            return v[1]
        return ('d', v)

    def note_index(self, st, l, fr, e):
        """bounds obligations of an element access"""
        if l[0] != 'e':
            return
        base, i = l[1], st.norm(l[2])
        n = None
        if base[0] == 'g':
            g = self.p.globals.get(base[1])
            n = num(g['arr']) if g and g.get('arr') is not None else None
        if n is None:
            n = st.mem.get(('count', base))
        if n is None:
            return
        lo = st.prove_le(scale(i, -1))
        hi = st.prove_le(add(sub(i, n), num(1)))
        st.emit('index', base, i, n, bool(lo), bool(hi), e.get('l'), fr.fn['qual'])
        if not (lo and hi):
            self.oob.append((st.fork(), fr, e.get('l'), base, i, n, lo, hi))

    def field(self, st, base, e):
        l = ('f', base, '%s::%s' % (e.get('fc'), e['n']))
        m = st.mem.get(l)
        if m is not None and m[0] == 'ref':
            return m[1]
        if e.get('t', '').endswith('&'):
            # reference member of an object that exists before the analysis
            return ('d', T('init', l))
        return l

    def dead(self, st, v, fr, line):
        """use of a pointer whose memory was released"""
        l = v[1] if v[0] == 'p' else ('d', v)
        b = loc_base(l)
        if ('dead', b) in st.mem or l != b and ('dead', l) in st.mem:
            self.abort(st.fork(), 'use-after-release', fr, line, b)

    def deref(self, st, v, fr=None, line=None):
        if fr is not None and v[0] in ('p', 't'):
            self.dead(st, v, fr, line)
        if v[0] == 'p':
            return v[1]
        if v[0] == 'o':
            return v[1]
        if v == NULL or st.decide_null(v) == 1:
            if fr is not None:
                st.emit('nullderef', line, fr.fn['qual'])
                self.abort(st, 'null-deref', fr, line, v)
                return None
            return ('d', v)
        if v[0] == 's':
            return ('c', ('lit', v), num(0))
        if v[0] == 't' and v[1] == 'cstr':
            return ('c', ('lit', v[2]), num(0))
        if v[0] == 't' and v[1] == 'undef' and fr is not None:
            pass
        if fr is not None and st.decide_null(v) is None:
            st.emit('mayderef', v, line, fr.fn['qual'])
            self.null_derefs.append((st, fr, line, v))
        return ('d', v)

    def materialize(self, e, st, fr, tmpnode=None):
        """evaluate a prvalue into a temporary; [(state, loc)]"""
        loc = self.new_temp(st)
        cls = self.class_of(e)
        if cls:
            out = []
            for s in self.into(e, loc, st, fr):
                if self.has_dtor(cls):
                    s.tmps = s.tmps + ((loc, cls),)
                    s.live = s.live + ((loc, cls),)
                out.append((s, loc))
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            if v[0] == 'o':
                out.append((s, v[1]))
            else:
                s.mem[loc] = v
                out.append((s, loc))
        return out

    def class_of(self, e):
        """class name if e is a prvalue of class type"""
        k = e['k']
        if k in ('full', 'rd', 'tmp'):
            return self.class_of(e['e'])
        t = e.get('t') or ''
        if k == 'ctor':
            return e.get('c') or t
        if t.endswith('*') or t.endswith('&'):
            return None
        if int_range(t) or is_float(t) or t in ('void', ''):
            return None
        if isinstance(e.get('c'), str) and e['c']:
            return e['c']
        if k in ('call', 'cond', 'init', 'lambda', 'unk', 'cast', 'zero') and re.match(r'^(const )?(std|testutil|fileutil|itk)::', t):
            return t
        if k in ('lambda', 'init'):
            return t
        if k == 'call' and t and not int_range(t) and '(' not in t and not t.startswith('enum'):
            if t.endswith(']'):
                return None
            return t if '::' in t else None
        return None

    def lv_asg(self, e, st, fr):
        out = []
        op = e['op']
        if op == '=':
            for s, v in self.ev(e['b'], st, fr):
                for s2, l in self.lv(e['a'], s, fr):
                    self.store(s2, l, v, fr, e.get('l'))
                    out.append((s2, l))
            return out
        for s, b in self.ev(e['b'], st, fr):
            for s2, l in self.lv(e['a'], s, fr):
                a = self.rdloc(s2, l, e, fr)
                ct = e.get('ct') or e.get('t')
                lt = e.get('t')
                if a[0] in ('B', 'b') and op in ('|=', '&=', '^='):
                    bb = self.truth(s2, b)
                    for s3, v in self.boolop(s2, op[0], a, bb):
                        self.store(s3, l, v, fr, e.get('l'))
                        out.append((s3, l))
                    continue
                if a[0] in ('B', 'b'):
                    for s3, d in self.fork_bool(s2, a):
                        for s4, v in self.arith(s3, op[:-1], num(d), b, ct, fr, e):
                            self.store(s4, l, v, fr, e.get('l'))
                            out.append((s4, l))
                    continue
                if is_float(ct) and not is_float(lt):
                    a = T('i2f', a, ct)
                for s3, v in self.arith(s2, op[:-1], a, b, ct, fr, e):
                    res = [(s3, v)]
                    if int_range(lt) and ct != lt and not is_float(ct):
                        res = self.intcast(s3, lin(v), lt, ct, e, fr)
                    elif int_range(lt) and is_float(ct):
                        res = [(s3, lin(self.fit(s3, T('f2i', v, lt), lt)))]
                    for s4, w in res:
                        self.store(s4, l, w, fr, e.get('l'))
                        out.append((s4, l))
        return out

    def boolop(self, st, op, a, b):
        out = []
        for s, x in self.fork_bool(st, a):
            if op == '|' and x:
                out.append((s, TRUE))
            elif op == '&' and not x:
                out.append((s, FALSE))
            elif op == '^':
                out.append((s, mk_not(b) if x else b))
            else:
                out.append((s, b))
        return out

    # ---------------------------------------------------------------- initialisation
    def into(self, e, dest, st, fr):
        """initialise the object at dest from expression e; [state]"""
        self.tick()
        k = e['k']
        if k == 'full':
            h = len(st.tmps)
            out = []
            for s in self.into(e['e'], dest, st, fr):
                out += self.end_temps(s, h, fr, e.get('l'))
            return out
        if k == 'tmp' and not self.is_glv(e['e']):
            return self.into(e['e'], dest, st, fr)
        if k == 'ctor':
            return self.construct(e, dest, st, fr)
        if k == 'call':
            if not e.get('lv') and self.class_of(e):
                return [s for s, _ in self.call(e, st, fr, dest)]
        if k == 'cond':
            out = []
            for s, v in self.ev(e['c'], st, fr):
                for s2, d in self.fork_bool(s, self.truth(s, v)):
                    out += self.into(e['a'] if d else e['b'], dest, s2, fr)
            return out
        if k == 'init':
            return self.init_list(e, dest, st, fr)
        if k == 'lambda':
            return self.into_lambda(e, dest, st, fr)
        if k == 'zero':
            cls = e.get('c')
            if cls or (e.get('t') or '').endswith(']'):
                st.mem[('zero', loc_base(dest))] = TRUE
                return [st]
            st.mem[dest] = self.zero_of(e.get('t'))
            return [st]
        if k == 'cast' and self.class_of(e) and not e.get('lv'):
            return self.into(e['e'], dest, st, fr)
        if k == 'throw':
            self.ev(e, st, fr)
            return []
        if k == 'str':
            st.mem[dest] = S(e['v'])
            return [st]
        if self.is_glv(e):
            out = []
            for s, l in self.lv(e, st, fr):
                self.copy_object(s, l, dest)
                out.append(s)
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            if v[0] == 'o':
                if v[1] != dest:
                    self.copy_object(s, v[1], dest)
            else:
                s.mem[dest] = v
            out.append(s)
        return out

    def init_list(self, e, dest, st, fr):
        cls = e.get('c')
        sts = [st]
        t = e.get('t') or ''
        if t.endswith(']'):
            m = re.search(r'\[(\d+)\]$', t)
            n = int(m.group(1)) if m else len(e['a'])
            for i, x in enumerate(e['a']):
                nx = []
                for s in sts:
                    nx += self.into(x, ('e', dest, num(i)), s, fr)
                sts = nx
            for s in sts:
                for i in range(len(e['a']), min(n, 64)):
                    s.mem[('e', dest, num(i))] = num(0)
                if n > 64:
                    s.mem[('zero', loc_base(dest))] = TRUE
            return sts
        c = self.p.classes.get(cls)
        if c and c.get('root'):
            fs = c['fields']
            for i, x in enumerate(e['a']):
                if i >= len(fs):
                    break
                nx = []
                for s in sts:
                    nx += self.into(x, ('f', dest, '%s::%s' % (cls, fs[i]['n'])), s, fr)
                sts = nx
            return sts
        if len(e['a']) == 1 and not cls:
            return self.into(e['a'][0], dest, st, fr)
        if not e['a'] and not cls:
            st.mem[dest] = self.zero_of(t)
            return [st]
        h = self.typeops.init_list_model(self, e, dest, st, fr)
        if h is not None:
            return h
        st.unknown('init list of ' + str(cls or t))
        st.mem[('opq', loc_base(dest))] = TRUE
        st.mem[dest] = T('initlist', st.fresh())
        return [st]

    def construct(self, e, dest, st, fr):
        cls = e.get('c')
        fkey = e['f']
        fn = self.p.functions.get(fkey)
        if cls in self.p.classes and self.p.classes[cls].get('root'):
            st.typ[dest] = frozenset([cls])
        if e.get('zero'):
            self.zero_fields(st, dest, cls)
        if fn is None and (e.get('triv') or (cls in self.p.classes and self.p.classes[cls].get('root'))):
            if e.get('copy'):
                out = []
                x = e['a'][0]
                for s, l in (self.lv(x, st, fr) if self.is_glv(x) else self.materialize(x, st, fr)):
                    if l != dest:
                        self.copy_object(s, l, dest)
                    out.append(s)
                return out
            if e.get('dflt'):
                return self.default_members(cls, dest, st, fr)
        return [s for s, _ in self.call(e, st, fr, dest, ctor=True)]

    def zero_fields(self, st, dest, cls):
        c = self.p.classes.get(cls)
        for f in (c or {}).get('fields', []):
            l = ('f', dest, '%s::%s' % (cls, f['n']))
            st.mem[l] = self.zero_of(f['t'])

    def default_members(self, cls, dest, st, fr):
        """implicit default constructor without exported body: class members get their own default value"""
        sts = [st]
        c = self.p.classes.get(cls) or {}
        for f in c.get('fields', []):
            l = ('f', dest, '%s::%s' % (cls, f['n']))
            nx = []
            for s in sts:
                if 'init' in f:
                    nx += self.into(f['init'], l, s, fr)
                else:
                    self.typeops.default_content(self, s, l, f)
                    nx.append(s)
            sts = nx
        return sts

    # ---------------------------------------------------------------- destruction
    def has_dtor(self, cls):
        if cls is None:
            return False
        c = self.p.classes.get(cls)
        if c and c.get('root'):
            return not c.get('trivialDtor')
        return self.typeops.has_dtor(cls)

    def destroy(self, st, loc, cls, fr, line, virtual=False):
        """run the destructor of the object at loc"""
        c = self.p.classes.get(cls)
        if not (c and c.get('root')):
            return self.typeops.destroy(self, st, loc, cls, fr, line)
        if virtual:
            cs = st.typ.get(loc)
            if cs is not None and len(cs) == 1:
                cls = next(iter(cs))
                c = self.p.classes[cls]
            elif cs is None or len(cs) > 1:
                h = self.hooks.get('~' + cls)
                st.emit('destroy', loc, cls, line)
                if h:
                    return h(self, st, fr, loc, cls, line)
                return [st]
        st.emit('destroy', loc, cls, line)
        h = self.hooks.get('~' + cls)
        if h:
            return h(self, st, fr, loc, cls, line)
        if c.get('trivialDtor'):
            return [st]
        return self.run_dtor(st, loc, cls, fr, line)

    def run_dtor(self, st, loc, cls, fr, line):
        c = self.p.classes[cls]
        sts = [st]
        fn = self.p.functions.get(c.get('dtor'))
        if fn and not fn.get('implicit') and fn.get('body', {}).get('s'):
            if (fr.depth if fr else 0) < self.maxdepth:
                nx = []
                for s in sts:
                    old = s.typ.get(loc)
                    s.typ[loc] = frozenset([cls])
                    for s2, _ in self.run(fn, s, loc, [], None, fr, line):
                        nx.append(s2)
                sts = nx
        # members, then bases
        for f in reversed(c.get('fields', [])):
            t = f['t']
            fc = f.get('c')
            if t.endswith('*') or t.endswith('&') or not fc and not self.typeops.has_dtor(t):
                continue
            if self.has_dtor(fc or t):
                nx = []
                for s in sts:
                    nx += self.destroy(s, ('f', loc, '%s::%s' % (cls, f['n'])), fc or t, fr, line)
                sts = nx
        for b in reversed(c.get('bases', [])):
            if self.has_dtor(b) and self.p.classes.get(b, {}).get('root'):
                nx = []
                for s in sts:
                    nx += self.run_dtor(s, loc, b, fr, line)
                sts = nx
        return sts

    # ---------------------------------------------------------------- calls
    def call(self, e, st, fr, dest, ctor=False):
        """[(state, value)]; class results are built at dest (or a temporary)"""
        self.calls += 1
        line = e.get('l')
        if 'fe' in e:
            return self.call_pointer(e, st, fr, dest)
        name = plain(e['n'])
        rcls = None
        if not ctor and not e.get('lv'):
            rcls = self.class_of(e)
        # object expression
        objs = [(st, None)]
        if not ctor and e.get('obj') is not None:
            objs = []
            o = e['obj']
            if e.get('arrow'):
                for s, v in self.ev(o, st, fr):
                    l = self.deref(s, v, fr, line)
                    if l is not None:
                        objs.append((s, l))
            else:
                objs = list(self.lv(o, st, fr) if self.is_glv(o) else self.materialize(o, st, fr))
        elif ctor:
            objs = [(st, dest)]
        out = []
        for s, obj in objs:
            for s2, args in self.eval_args(e, s, fr):
                d = dest
                if rcls and d is None:
                    d = self.new_temp(s2)
                    if self.has_dtor(rcls):
                        pass
                for s3, v in self.dispatch(e, name, s2, fr, obj, args, d, rcls, ctor):
                    if rcls:
                        if dest is None and self.has_dtor(rcls):
                            s3.tmps = s3.tmps + ((d, rcls),)
                            s3.live = s3.live + ((d, rcls),)
                        out.append((s3, ('o', d)))
                    else:
                        out.append((s3, v))
        return out

    def eval_args(self, e, st, fr):
        """[(state, [arg])]: values for value/pointer parameters, locations for references"""
        res = [(st, [])]
        pr = e.get('pr', [])
        for i, a in enumerate(e.get('a', [])):
            kind = pr[i] if i < len(pr) else ('v')
            nx = []
            for s, acc in res:
                if kind in ('c', 'r', 'm'):
                    for s2, l in (self.lv(a, s, fr) if self.is_glv(a) else self.materialize(a, s, fr)):
                        nx.append((s2, acc + [('l', l)]))
                elif self.class_of(a) and not self.is_glv(a):
                    for s2, l in self.materialize_arg(a, s, fr):
                        nx.append((s2, acc + [('o', l)]))
                else:
                    for s2, v in self.ev_any(a, s, fr):
                        if v[0] == 'o' and kind in ('v',):
                            nx.append((s2, acc + [v]))
                        else:
                            nx.append((s2, acc + [v]))
            res = nx
        return res

    def materialize_arg(self, a, st, fr):
        loc = self.new_temp(st, 'arg')
        cls = self.class_of(a)
        out = []
        for s in self.into(a, loc, st, fr):
            if self.has_dtor(cls):
                s.tmps = s.tmps + ((loc, cls),)
                s.live = s.live + ((loc, cls),)
            out.append((s, loc))
        return out

    def call_pointer(self, e, st, fr, dest):
        out = []
        for s, f in self.ev(e['fe'], st, fr):
            for s2, args in self.eval_args(e, s, fr):
                if f[0] == 'fnp' and f[1] in self.p.functions:
                    fn = self.p.functions[f[1]]
                    out += self.run(fn, s2, None, self.adapt(fn, args, s2), dest, fr, e.get('l'))
                else:
                    s2.unknown('call through pointer')
                    out.append((s2, T('ret', 'ptr', s2.fresh())))
        return out

    def dispatch(self, e, name, st, fr, obj, args, dest, rcls, ctor):
        line = e.get('l')
        h = self.hooks.get(name)
        if h is None and e['f'] in self.hooks:
            h = self.hooks[e['f']]
        if h is not None:
            r = h(self, st, fr, Call(e, name, obj, args, dest, line))
            if r is not None:
                return r
        if obj is not None and name.endswith('::operator()'):
            lam = st.mem.get(obj)
            if lam is not None and lam[0] == 'lambda':
                fn = self.p.functions.get(lam[1])
                if fn:
                    return self.run(fn, st, None, self.adapt(fn, args, st), dest, fr, line, lam=lam)
        key = e['f']
        if e.get('root') or key in self.p.functions:
            if e.get('vc') and obj is not None:
                return self.virtual(e, name, key, st, fr, obj, args, dest)
            return self.call_key(e, name, key, st, fr, obj, args, dest)
        m = self.models.get(name)
        if name not in self.RELEASERS:
            for a in args:
                if a[0] in ('p', 't'):
                    self.dead(st, a, fr, line)
        if m is not None:
            self.at = (fr, line)
            r = m(self, st, fr, Call(e, name, obj, args, dest, line))
            if r is not None:
                return r
        return self.external(e, name, st, fr, obj, args, dest)

    def virtual(self, e, name, key, st, fr, obj, args, dest):
        static = e.get('oc')
        cs = st.typ.get(obj)
        if cs is None:
            cs = self.candidates(static)
        if cs is None:
            # every class is abstract here: all overriders that exist
            return self.call_key(e, name, key, st, fr, obj, args, dest)
        groups = {}
        for c in sorted(cs):
            groups.setdefault(self.p.final_overrider(c, key), set()).add(c)
        if len(groups) == 1:
            k = next(iter(groups))
            return self.call_key(e, name, k, st, fr, obj, args, dest)
        h = self.hooks.get('virtual:' + name)
        if h:
            return h(self, st, fr, Call(e, name, obj, args, dest, e.get('l')))
        out = []
        for k, g in sorted(groups.items()):
            s = st.fork()
            s.typ[obj] = frozenset(g)
            out += self.call_key(e, name, k, s, fr, obj, args, dest)
        return out

    def call_key(self, e, name, key, st, fr, obj, args, dest):
        fn = self.p.functions.get(key)
        line = e.get('l')
        if fn is not None:
            q = plain(fn['qual'])
            h = self.hooks.get(q) if q != name else None
            if h is None and key in self.hooks:
                h = self.hooks[key]
            if h is not None:
                r = h(self, st, fr, Call(e, q, obj, args, dest, line))
                if r is not None:
                    return r
            d = fr.depth if fr else 0
            rec = 0
            f = fr
            while f is not None:
                if f.fn is fn:
                    rec += 1
                f = f.caller
            if d < self.maxdepth and rec <= self.maxrec and (self.inline is None or self.inline(fn)):
                return self.run(fn, st, obj, self.adapt(fn, args, st), dest, fr, line)
            if rec > self.maxrec or d >= self.maxdepth:
                st.unknown('recursion:' + q)
        m = self.models.get(name)
        if name not in self.RELEASERS:
            for a in args:
                if a[0] in ('p', 't'):
                    self.dead(st, a, fr, line)
        if m is not None:
            self.at = (fr, line)
            r = m(self, st, fr, Call(e, name, obj, args, dest, line))
            if r is not None:
                return r
        return self.external(e, name, st, fr, obj, args, dest)

    def external(self, e, name, st, fr, obj, args, dest):
        """a function without known body: result unknown, writable arguments changed"""
        line = e.get('l')
        self.opaque[name] = self.opaque.get(name, 0) + 1
        r = T('ret', name, st.fresh())
        pr = e.get('pr', [])
        st.emit('call', name, obj, tuple(args), line, fr.fn['qual'] if fr else None, r)
        if not name.startswith('itk') and not name.startswith('vnl'):
            st.unknown('opaque:' + name)
        for i, a in enumerate(args):
            k = pr[i] if i < len(pr) else 'v'
            if k in ('r', 'm', 'p'):
                l = a[1] if a[0] in ('l', 'o', 'p') else None
                if l is not None:
                    self.havoc(st, l[1] if l[0] == 'e' and k == 'p' else l)
        if obj is not None and not e.get('const') and not e.get('static'):
            if name.startswith('itk') or name.startswith('vnl'):
                pass
            else:
                self.havoc(st, obj)
        if dest is not None:
            self.drop_under(st, dest)
            st.mem[dest] = r
            st.mem[('opq', loc_base(dest))] = TRUE
            return [(st, ('o', dest))]
        t = e.get('rt') or e.get('t') or ''
        if e.get('lv'):
            return [(st, ('l', ('d', r)))]
        if t == 'bool':
            return [(st, mk_true(r))]
        if int_range(t):
            self.fit(st, r, t)
            return [(st, lin(r))]
        return [(st, r)]

    def adapt(self, fn, args, st):
        return args

    def run(self, fn, st, this, args, dest, caller, line, lam=None):
        """inline a function: [(state, value)]"""
        self.nframe += 1
        depth = (caller.depth + 1) if caller else 0
        fid = 'F%d' % st.fresh() if caller else 'F0'
        fr = Frame(fn, fid, this, depth, dest, caller, line)
        if lam:
            fr.lam = lam
            for cid, x in lam[2]:
                if cid == 'this':
                    fr.this = x
        self.analysed.add(fn['key'])
        for i, p in enumerate(fn['params']):
            loc = ('v', fid, p['id'], p['n'])
            if i >= len(args):
                if 'def' in p and p['def'] is not None:
                    for s, v in self.ev(p['def'], st, fr):
                        st = s
                        st.mem[loc] = v
                continue
            a = args[i]
            if p['t'].rstrip().endswith('&'):
                l = a[1] if a[0] in ('l', 'o') else None
                if l is None:
                    l = ('t', 'par', st.fresh())
                    st.mem[l] = a
                st.mem[loc] = ('ref', l)
            elif a[0] == 'o':
                st.mem[loc] = ('ref', a[1])
            elif a[0] == 'l':
                self.copy_object(st, a[1], loc)
            else:
                st.mem[loc] = a
        outs = []
        lh = len(st.live)
        th = st.tmps
        st.tmps = ()
        sts = [st]
        if fn.get('kind') == 'ctor':
            sts = self.ctor_inits(fn, st, fr)
        for s in sts:
            outs += self.exec(fn['body'], s, fr)
        res = []
        for s, kind, v in outs:
            s.tmps = th
            if kind == 'ret' or kind == 'n':
                self.leave(s, fr)
                res.append((s, v if kind == 'ret' and v is not None else ('void',)))
            else:
                s.unknown('stray ' + kind)
                res.append((s, ('void',)))
        return self.prune(res)

    def leave(self, s, fr):
        fid = fr.fid
        if fr.caller is None or 'frames' in self.flags:
            return
        for l in [l for l in s.mem if loc_base_fid(l) == fid]:
            del s.mem[l]

    def join(self, sts):
        """states that differ in their branch facts only become one"""
        if not self.merge:
            return sts
        out = []
        for s in sts:
            for q in out:
                if q.ev is s.ev and len(q.mem) == len(s.mem) and q.live == s.live and q.tmps == s.tmps and q.unk == s.unk \
                        and q.mem == s.mem and q.typ == s.typ and substr_eqs(q) == substr_eqs(s):
                    q.join(s)
                    self.joins += 1
                    break
            else:
                out.append(s)
        return out

    def prune(self, res):
        if len(res) > 1 and self.merge:
            groups, rest, order = {}, [], []
            for s, v in res:
                k = v if v[0] == 'void' else None
                if k is None:
                    rest.append((s, v))
                else:
                    groups.setdefault(k, []).append(s)
            if groups:
                res = rest + [(s, k) for k, g in groups.items() for s in self.join(g)]
        if len(res) > self.MAXPATHS:
            raise TooBig('paths')
        return res

    def ctor_inits(self, fn, st, fr):
        sts = [st]
        cls = fn['class']
        for i in fn.get('inits', []):
            nx = []
            for s in sts:
                if 'm' in i:
                    dest = ('f', fr.this, '%s::%s' % (i['fc'], i['m']))
                    ft = i.get('t', '')
                    if ft.endswith('&'):
                        for s2, l in (self.lv(i['e'], s, fr) if self.is_glv(i['e']) else self.materialize(i['e'], s, fr)):
                            s2.mem[dest] = ('ref', l)
                            nx.append(s2)
                    else:
                        nx += self.into(i['e'], dest, s, fr)
                elif 'base' in i:
                    b = i['base']
                    x = i['e']
                    keep = s.typ.get(fr.this)
                    for s2 in self.into(x, fr.this, s, fr):
                        if keep is not None:
                            s2.typ[fr.this] = keep
                        nx.append(s2)
                else:
                    nx += self.into(i['e'], fr.this, s, fr)
            sts = nx
        return sts

    # ---------------------------------------------------------------- statements
    def exec(self, x, st, fr):
        """[(state, outcome, value)] with outcome n | brk | cont | ret"""
        if x is None:
            return [(st, 'n', None)]
        self.tick()
        k = x['k']
        m = getattr(self, 'st_' + k, None)
        if m is None:
            st.unknown('stmt:' + k + ':' + str(x.get('n', '')))
            self.unkstmts.add('stmt ' + k + ':' + str(x.get('n', '')))
            return [(st, 'n', None)]
        return m(x, st, fr)

    def st_null(self, x, st, fr):
        return [(st, 'n', None)]

    def st_ex(self, x, st, fr):
        h = len(st.tmps)
        out = []
        for s, _ in self.ev_any(x['e'], st, fr):
            for s2 in self.end_temps(s, h, fr, x.get('l')):
                out.append((s2, 'n', None))
        return out

    def st_seq(self, x, st, fr):
        return self.block(x['s'], st, fr)

    def block(self, stmts, st, fr):
        lh = len(st.live)
        cur = [st]
        done = []
        for y in stmts:
            nx = []
            for s in cur:
                n0 = s.n
                for s2, k, v in self.exec(y, s, fr):
                    if k == 'n':
                        self.drop_temps(s2, n0)
                        nx.append(s2)
                    else:
                        done.append((s2, k, v))
            cur = self.join(nx) if len(nx) > 1 else nx
            if len(cur) + len(done) > self.MAXPATHS:
                raise TooBig('paths in block')
            if not cur:
                break
        out = []
        for s, k, v in [(s, 'n', None) for s in cur] + done:
            for s2 in self.unwind(s, lh, fr, x_line(stmts)):
                out.append((s2, k, v))
        return out

    def drop_temps(self, st, n0):
        """the temporaries of a finished statement are gone"""
        dead = None
        for l in st.mem:
            b = loc_base(l[1]) if l[0] in TAGS else loc_base(l)
            if b[0] == 't' and len(b) > 2 and isinstance(b[2], int) and b[2] > n0:
                if dead is None:
                    keep = {loc_base(v[1]) for v in st.mem.values() if v[0] == 'ref'}
                    keep |= {loc_base(x[1]) for v in st.mem.values() if v[0] == 'lambda' for _, x in v[2] if isinstance(x, tuple) and x[0] == 'ref'}
                    keep |= {loc_base(x[0]) for x in st.live} | {loc_base(x[0]) for x in st.tmps}
                    dead = []
                if b not in keep:
                    dead.append(l)
        for l in dead or ():
            del st.mem[l]

    def unwind(self, st, h, fr, line):
        if len(st.live) <= h:
            return [st]
        sts = [st]
        todo = st.live[h:]
        st.live = st.live[:h]
        for loc, cls in reversed(todo):
            nx = []
            for s in sts:
                nx += self.destroy(s, loc, cls, fr, line)
            sts = nx
        return sts

    def st_decl(self, x, st, fr):
        sts = [st]
        for v in x['v']:
            nx = []
            for s in sts:
                nx += self.declare(v, s, fr)
            sts = nx
        return [(s, 'n', None) for s in sts]

    def declare(self, v, st, fr):
        loc = ('v', fr.fid, v['id'], v['n'])
        h = len(st.tmps)
        t = v['t']
        if v.get('static'):
            g = ('g', v['g'])
            st.mem[loc] = ('ref', g)
            if v.get('init') is not None and v['g'] not in self.p.globals:
                c = self.const_init(v['init'])
                if c is not None and v['t'].startswith('const') or c is not None:
                    st.mem.setdefault(g, c)
            return [st]
        # a new object each time the declaration is reached
        self.drop_under(st, loc)
        for tag in ('opq', 'zero', 'hav', 'count'):
            st.mem.pop((tag, loc), None)
        if v.get('arr') is not None:
            st.mem[('count', loc)] = num(v['arr'])
        init = v.get('init')
        if t.endswith('&') or init is not None and t.endswith(']') and ('(&)' in t or '(&&)' in t):
            out = []
            for s, l in (self.lv(init, st, fr) if self.is_glv(init) else self.materialize(init, st, fr)):
                s.mem[loc] = ('ref', l)
                # lifetime extension: the temporary now dies with the block
                s.tmps = tuple(y for y in s.tmps if y[0] != loc_base(l))
                out += self.end_temps(s, h, fr, v.get('l'))
            return out
        if init is None:
            if v.get('arr') is None and not (v.get('c') and not t.endswith('*')):
                st.mem[loc] = T('undef', loc)
            return [st]
        if init.get('k') == 'ctor' and init.get('dflt') and init.get('triv') and not init.get('zero'):
            # no initialisation at all
            self.typ_only(st, loc, init)
            return [st]
        cls = None
        if v.get('c') and not t.endswith('*'):
            cls = v['c']
        elif self.class_of(init):
            cls = self.class_of(init)
        out = []
        if cls or v.get('arr') is not None or init['k'] == 'init':
            for s in self.into(init, loc, st, fr):
                for s2 in self.end_temps(s, h, fr, v.get('l')):
                    if cls and v.get('arr') is None and self.has_dtor(cls):
                        s2.live = s2.live + ((loc, cls),)
                    out.append(s2)
            return out
        for s, val in self.ev(init, st, fr):
            if val[0] == 'o':
                self.copy_object(s, val[1], loc)
            else:
                s.mem[loc] = val
            out += self.end_temps(s, h, fr, v.get('l'))
        return out

    def typ_only(self, st, loc, init):
        c = init.get('c')
        if c in self.p.classes and self.p.classes[c].get('root'):
            st.typ[loc] = frozenset([c])

    def cond_states(self, x, st, fr):
        """evaluate the controlling condition: [(state, 1|0)]"""
        sts = [st]
        if x.get('cv') is not None:
            sts = self.declare(x['cv'], st, fr)
        out = []
        for s in sts:
            h = len(s.tmps)
            for s2, v in self.ev(x['c'], s, fr):
                if v[0] == 'o':
                    v = self.load(s2, v[1])
                for s3 in self.end_temps(s2, h, fr, x.get('l')):
                    out += self.fork_bool(s3, self.truth(s3, v))
        return out

    def st_if(self, x, st, fr):
        lh = len(st.live)
        sts = [st]
        if x.get('init'):
            sts = [s for s, k, v in self.exec(x['init'], st, fr)]
        out = []
        for s0 in sts:
            for s, d in self.cond_states(x, s0, fr):
                if 'branch' in self.flags:
                    s.emit('branch', x.get('l'), d, fr.fn['qual'])
                br = x.get('th') if d else x.get('el')
                for s2, k, v in self.exec(br if isinstance(br, dict) else None, s, fr):
                    for s3 in self.unwind(s2, lh, fr, x.get('l')):
                        out.append((s3, k, v))
        return out

    def st_ret(self, x, st, fr):
        h = len(st.tmps)
        if x.get('e') is None:
            return [(st, 'ret', None)]
        e = x['e']
        rt = fr.fn['rt']
        out = []
        if rt.rstrip().endswith('&'):
            for s, l in (self.lv(e, st, fr) if self.is_glv(e) else self.materialize(e, st, fr)):
                for s2 in self.end_temps(s, h, fr, x.get('l')):
                    out.append((s2, 'ret', ('l', l)))
            return out
        if fr.ret is not None and (fr.fn.get('rc') or self.class_of(e)) and not rt.endswith('*'):
            for s in self.into(e, fr.ret, st, fr):
                for s2 in self.end_temps(s, h, fr, x.get('l')):
                    out.append((s2, 'ret', ('o', fr.ret)))
            return out
        if self.class_of(e) or (fr.fn.get('rc') and not rt.endswith('*')):
            # top level call of a function that returns an object
            loc = ('t', 'result', 0)
            for s in self.into(e, loc, st, fr):
                for s2 in self.end_temps(s, h, fr, x.get('l')):
                    out.append((s2, 'ret', ('o', loc)))
            return out
        for s, v in self.ev_any(e, st, fr):
            for s2 in self.end_temps(s, h, fr, x.get('l')):
                out.append((s2, 'ret', v))
        return out

    def st_break(self, x, st, fr):
        return [(st, 'brk', None)]

    def st_cont(self, x, st, fr):
        return [(st, 'cont', None)]

    def st_label(self, x, st, fr):
        return self.exec(x['s'], st, fr)

    def st_goto(self, x, st, fr):
        st.unknown('goto')
        return []

    def st_case(self, x, st, fr):
        return self.exec(x['s'], st, fr)

    st_default = st_case

    def st_switch(self, x, st, fr):
        lh = len(st.live)
        sts = [st]
        if x.get('cv') is not None:
            sts = self.declare(x['cv'], st, fr)
        body = x['b']
        stmts = body['s'] if body['k'] == 'seq' else [body]
        # flatten nested labels into (label, stmt index)
        flat, labels = [], []
        for y in stmts:
            while y is not None and y['k'] in ('case', 'default'):
                labels.append((y, len(flat)))
                y = y.get('s')
            if y is not None:
                flat.append(y)
        out = []
        for s in sts:
            for s2, v in self.ev(x['c'], s, fr):
                cur = s2
                dflt = None
                dead = False
                v = self.asint(v)
                for lab, pos in labels:
                    if lab['k'] == 'default':
                        dflt = pos
                        continue
                    lo = self.case_val(lab['lo'])
                    c = mk_eq0(sub(v, lo)) if 'hi' not in lab else None
                    if c is None:
                        cur.unknown('case range')
                        continue
                    d = cur.decide(c)
                    if d == 0:
                        continue
                    if d == 1:
                        cur.emit('case', lab.get('l'), fr.fn['qual'])
                        out += self.block(flat[pos:], cur, fr)
                        dead = True
                        break
                    t = cur.fork()
                    if t.assume(c, 1):
                        t.emit('case', lab.get('l'), fr.fn['qual'])
                        out += self.block(flat[pos:], t, fr)
                    if not cur.assume(c, 0):
                        dead = True
                        break
                if not dead:
                    if dflt is not None:
                        out += self.block(flat[dflt:], cur, fr)
                    else:
                        out.append((cur, 'n', None))
        res = []
        for s, k, v in out:
            for s2 in self.unwind(s, lh, fr, x.get('l')):
                res.append((s2, 'n' if k == 'brk' else k, v))
        return res

    def case_val(self, e):
        while e['k'] in ('cast', 'full', 'rd'):
            e = e['e']
        return self.asint(self.intval(e)) if e['k'] == 'int' else lin(T('case', str(e.get('v'))))

    # -- exceptions ------------------------------------------------------------
    def exc_is(self, et, ht):
        """1 certainly matches, 0 certainly not, None maybe"""
        if ht is None:
            return 1
        if et in ('any', None):
            return None
        x, seen = et, 0
        while x is not None and seen < 20:
            if x == ht:
                return 1
            seen += 1
            if x in STDEXC:
                x = STDEXC[x]
            elif x in self.p.classes and self.p.classes[x].get('bases'):
                for b in self.p.classes[x]['bases']:
                    if self.exc_is(b, ht) == 1:
                        return 1
                return 0
            else:
                return 0
        if et.startswith('anystd'):
            return 1 if ht == 'std::exception' else None
        return 0

    def st_try(self, x, st, fr):
        lh = len(st.live)
        sink = []
        self.sinks.append(sink)
        try:
            out = self.exec(x['b'], st, fr)
        finally:
            self.sinks.pop()
        for s, et, val in sink:
            s.tmps = ()
            # unwinding may itself run code that throws: treat as termination
            self.sinks.append([])
            sts = self.unwind(s, lh, fr, x.get('l'))
            bad = self.sinks.pop()
            for b in bad:
                self.abort(b[0], 'throw-in-destructor', fr, x.get('l'))
            for s1 in sts:
                cur = s1
                for h in x['h']:
                    ht = h.get('t')
                    m = self.exc_is(et, ht)
                    if m == 0:
                        continue
                    t = cur if m == 1 else cur.fork()
                    t.emit('caught', ht, et, h.get('l'), fr.fn['qual'])
                    ts = [t]
                    if h.get('v'):
                        hl = ('v', fr.fid, h['v']['id'], h['v']['n'])
                        t.mem[hl] = ('ref', ('exc', et))
                    s0 = []
                    self.sinks.append(s0)
                    try:
                        res = self.exec(h['b'], t, fr)
                    finally:
                        self.sinks.pop()
                    for q, et2, v2 in s0:
                        if et2 == 'rethrow':
                            self.sinks[-1].append((q, et, val))
                        else:
                            self.sinks[-1].append((q, et2, v2))
                    out += res
                    if m == 1:
                        cur = None
                        break
                if cur is not None:
                    self.sinks[-1].append((cur, et, val))
        return out

    # -- loops -----------------------------------------------------------------
    def st_while(self, x, st, fr):
        return self.loop(x, st, fr, 'while', None)

    def st_do(self, x, st, fr):
        c = x.get('c')
        while c is not None and c['k'] in ('cast', 'full'):
            c = c['e']
        if c is not None and c['k'] == 'int' and c.get('v') in (0, False):
            # 'do { } while (false)': a block that break and continue leave
            lh = len(st.live)
            out = []
            for s, k, v in self.exec(x['b'], st, fr):
                for s2 in self.unwind(s, lh, fr, x.get('l')):
                    out.append((s2, 'n' if k in ('brk', 'cont') else k, v))
            return out
        return self.loop(x, st, fr, 'do', None)

    def st_for(self, x, st, fr):
        lh = len(st.live)
        out = []
        pre = self.exec(x['init'], st, fr) if x.get('init') else [(st, 'n', None)]
        for s, k, v in pre:
            for s2, k2, v2 in self.loop(x, s, fr, 'for', x.get('inc')):
                for s3 in self.unwind(s2, lh, fr, x.get('l')):
                    out.append((s3, k2, v2))
        return out

    def st_rfor(self, x, st, fr):
        lh = len(st.live)
        sts = [st]
        for part in ('range', 'begin', 'end'):
            nx = []
            for s in sts:
                nx += [q for q, k, v in self.exec(x[part], s, fr)]
            sts = nx
        y = dict(x)
        y['b'] = {'k': 'seq', 'l': x.get('l'), 's': [x['lv'], x['b']]}
        out = []
        for s in sts:
            for s2, k2, v2 in self.loop(y, s, fr, 'for', x.get('inc')):
                for s3 in self.unwind(s2, lh, fr, x.get('l')):
                    out.append((s3, k2, v2))
        return out

    def marks(self):
        return (len(self.sinks[-1]), len(self.aborts), len(self.uninit), len(self.oob), len(self.loops), len(self.null_derefs))

    def restore(self, m):
        del self.sinks[-1][m[0]:]
        del self.aborts[m[1]:]
        del self.uninit[m[2]:]
        del self.oob[m[3]:]
        del self.loops[m[4]:]
        del self.null_derefs[m[5]:]

    def loop(self, x, st, fr, kind, inc):
        m = self.marks()
        steps0 = self.steps
        r = self.unroll(x, st.fork(), fr, kind, inc)
        if r is not None:
            return r
        self.restore(m)
        return self.fixloop(x, st, fr, kind, inc)

    def one_cond(self, x, st, fr):
        if x.get('c') is None:
            return [(st, 1)]
        return self.cond_states(x, st, fr)

    def unroll(self, x, st, fr, kind, inc):
        c = x.get('c')
        if c is None or (c['k'] == 'int'):
            return None
        lh = len(st.live)
        done = []
        pend = [st]
        first = kind == 'do'
        for n in range(70):
            if not pend:
                return done
            if len(pend) > 12 or len(done) > 200:
                return None
            nx = []
            dec = set()
            for s in pend:
                if first:
                    conds = [(s, 1)]
                else:
                    conds = self.one_cond(x, s, fr)
                    if len(conds) != 1:
                        return None
                dec.add(conds[0][1])
                if len(dec) > 1:
                    return None     # the trip count depends on the data
                for s2, d in conds:
                    if not d:
                        done.append((s2, 'n', None))
                        continue
                    for s3, k, v in self.exec(x['b'], s2, fr):
                        for s4 in self.unwind(s3, lh, fr, x.get('l')):
                            if k == 'brk':
                                done.append((s4, 'n', None))
                            elif k == 'ret':
                                done.append((s4, k, v))
                            else:
                                if inc is not None:
                                    for s5, _ in self.ev_any(inc, s4, fr):
                                        nx.append(s5)
                                else:
                                    nx.append(s4)
            first = False
            pend = nx
        return None

    def fixloop(self, x, st, fr, kind, inc):
        self.nloop += 1
        lid = self.nloop
        line = x.get('l')
        lh = len(st.live)
        widened = set()
        mods = set()
        drop = set()          # dropped candidate invariants
        entry = st
        rounds = 0
        seen_vals = {}
        cand = []
        noptr = set()
        saved_n = st.n
        while True:
            rounds += 1
            if rounds > 60:
                raise TooBig('loop does not stabilise at line %s' % line)
            m = self.marks()
            L = Loop(lid, fr.fn['qual'], line, kind)
            L.entry = entry
            L.fr = fr
            self.loops.append(L)
            restart = False
            outs = []
            for loc in sorted(mods, key=skey):
                L.phi[loc] = T('phi', lid, loc)
                b = self.walker(entry.mem.get(loc))
                if b is not None and loc not in noptr and not any(l == b or l[0] in ('hav', 'dead') and l[1] == b for l in mods):
                    L.ptrs[loc] = b
            k0 = self.key(entry, mods, widened)
            work = [k0]
            heads = {}
            done = set()
            heads[k0] = None
            newmods = set()
            bad = set()
            while work and not restart:
                key = work.pop(0)
                if key in done:
                    continue
                done.add(key)
                if len(done) > 160:
                    raise TooBig('loop partitions at line %s' % line)
                h = self.make_head(entry, mods, key, L, cand, drop)
                if h is None:
                    continue
                L.heads[key] = h
                h0 = h.fork()
                cur = h.fork()
                cur.emit('loop', L, key)
                h0.ev = cur.ev
                first = []
                if kind == 'do' and False:
                    pass
                body_in = []
                if kind == 'do':
                    body_in = [cur]
                else:
                    for s, d in self.one_cond(x, cur, fr):
                        if d:
                            body_in.append(s)
                        else:
                            outs.append((s, 'n', None, key, h0))
                backs = []
                for s in body_in:
                    for s2, k, v in self.exec(x['b'], s, fr):
                        for s3 in self.unwind(s2, lh, fr, line):
                            if k == 'brk':
                                outs.append((s3, 'n', None, key, h0))
                            elif k == 'ret':
                                outs.append((s3, k, v, key, h0))
                            else:
                                if inc is not None:
                                    for s4, _ in self.ev_any(inc, s3, fr):
                                        backs.append(s4)
                                else:
                                    backs.append(s3)
                if kind == 'do':
                    nb = []
                    for s in backs:
                        for s2, d in self.one_cond(x, s, fr):
                            if d:
                                nb.append(s2)
                            else:
                                outs.append((s2, 'n', None, key, h0))
                    backs = nb
                for s in backs:
                    ch = self.changed(h0, s, entry, fr, lid)
                    if not ch <= mods:
                        newmods |= ch - mods
                        restart = True
                        continue
                    for loc, b in L.ptrs.items():
                        if self.walker(s.mem.get(loc)) != b:
                            noptr.add(loc)
                            restart = True
                    if restart:
                        continue
                    # widening of growing constants
                    for loc in mods:
                        if loc in widened:
                            continue
                        t = self.tag(s, loc, widened)
                        vs = seen_vals.setdefault(loc, set())
                        if t[0] == 'const':
                            vs.add(t[1])
                            hv = h0.mem.get(loc)
                            if len(vs) > 6 or (t[1][0] == 'n' and abs(t[1][1]) > 64):
                                widened.add(loc)
                                restart = True
                        elif t[0] == 'top':
                            widened.add(loc)
                            restart = True
                    if restart:
                        continue
                    k2 = self.key(s, mods, widened)
                    fixed = {L.phi[loc] for loc, tag in k2 if tag[0] in ('const', 'undef')}
                    for c in cand:
                        if c in drop or c in bad or any(t in fixed for t, _ in c[2]):
                            continue
                        if not s.prove_le(self.subst_inv(c, s, L)):
                            bad.add(c)
                    L.iters.append((key, h0, s, k2))
                    if k2 not in heads:
                        heads[k2] = None
                        work.append(k2)
            if restart:
                mods |= newmods
                for loc in newmods:
                    seen_vals.setdefault(loc, set())
                    ev_ = entry.mem.get(loc)
                    if ev_ is not None:
                        t = self.tag(entry, loc, widened)
                        if t[0] == 'const':
                            seen_vals[loc].add(t[1])
                        elif t[0] == 'top':
                            widened.add(loc)
                    elif ev_ is None:
                        widened.add(loc)
                # a counter that controls the loop is not worth enumerating
                for loc in self.guard_counters(x, entry, fr, mods):
                    widened.add(loc)
                self.restore(m)
                cand = []
                drop = set()
                continue
            if not cand and not drop and (widened or L.ptrs):
                cand = self.candidates_inv(entry, L, mods, widened)
                cand = [c for c in cand if entry.prove_le(self.subst_inv(c, entry, L))]
                if cand:
                    self.restore(m)
                    continue
                drop = {'none'}
            elif bad:
                drop |= bad
                self.restore(m)
                continue
            break
        L.inv = [c for c in cand if c not in drop]
        L.mods, L.widened = mods, widened
        res = []
        for s, k, v, key, h0 in outs:
            L.exits.append((key, h0, s.fork(), k))
            s.emit('loopexit', L, key, k)
            res.append((s, k, v))
        for s, et, val in self.sinks[-1][m[0]:]:
            L.exits.append((None, None, s, 'throw'))
        return res

    def guard_counters(self, x, entry, fr, mods):
        """integer variables compared in the loop condition with something that is not a constant"""
        out = set()
        c = x.get('c')

        def walk(e):
            if not isinstance(e, dict):
                return
            if e.get('k') == 'bin' and e['op'] in ('<', '>', '<=', '>=', '!='):
                for a, b in ((e['a'], e['b']), (e['b'], e['a'])):
                    y = a
                    while y.get('k') in ('cast', 'rd', 'full'):
                        y = y['e']
                    if y.get('k') == 'var' and 'id' in y and int_range(y.get('t')) and y.get('t') != 'bool':
                        l = ('v', fr.fid, y['id'], y['n'])
                        if l in mods:
                            out.add(l)
            for v in e.values():
                if isinstance(v, dict):
                    walk(v)
                elif isinstance(v, list):
                    for z in v:
                        walk(z)
        if c:
            walk(c)
        return out

    def tag(self, st, loc, widened):
        v = st.mem.get(loc)
        if v is not None and v[0] == 't' and v[1] == 'undef':
            return ('undef',)
        if loc in widened and v is not None and v[0] in ('n', 't'):
            w = st.norm(lin(v))
            if not w[2] and w[1] == NPOS:
                return ('const', w)
        if loc in widened or v is None:
            if v is not None and self.ptrlike(v):
                d = st.decide_null(v)
                if d == 1:
                    return ('null',)
                if d == 0:
                    return ('nn',)
            return ('top',)
        if v[0] == 'n':
            v = st.norm(v)
            if not v[2]:
                return ('const', v)
            return ('top',)
        if v[0] == 'b':
            d = st.decide(v)
            if d is not None:
                return ('const', B(d))
            return ('top',)
        if v[0] in ('B', 'fnp'):
            return ('const', v)
        if v == NULL:
            return ('const', NULL) if False else ('null',)
        if v[0] == 't':
            x = st.norm(v) if v in st.bind else None
            if x is not None and not x[2]:
                return ('const', x)
        if self.ptrlike(v):
            d = st.decide_null(v)
            if d == 1:
                return ('null',)
            if d == 0:
                return ('nn',)
        if v[0] == 's' and v[1] == '':
            return ('const', v)
        return ('top',)

    def ptrlike(self, v):
        return v[0] in ('p', 'nullp') or (v[0] == 't' and v[1] in ('init', 'phi', 'ret', 'front', 'vcall', 'new'))

    @staticmethod
    def walker(v):
        """the text a position in a text belongs to"""
        return v[1][1] if v is not None and v[0] == 'p' and v[1][0] == 'c' else None

    def key(self, st, mods, widened):
        return tuple((loc, self.tag(st, loc, widened)) for loc in sorted(mods, key=skey))

    def make_head(self, entry, mods, key, L, cand, drop):
        h = entry.fork()
        # objects inside a changed string keep their location, only the content changes
        for loc, tag in key:
            if loc[0] == 'hav':
                for l in [l for l in h.mem if l[0] not in TAGS and l != loc[1] and under(l, loc[1])]:
                    del h.mem[l]
                h.mem[loc] = L.phi[loc]
                if loc_base(loc[1])[0] in ('v', 'h', 't'):
                    h.mem[('opq', loc_base(loc[1]))] = TRUE
        for loc, tag in key:
            p = L.phi[loc]
            if loc[0] == 'hav':
                continue
            if tag[0] == 'const':
                h.mem[loc] = tag[1]
                continue
            if tag[0] == 'null':
                h.mem[loc] = NULL
                continue
            if tag[0] == 'undef':
                h.mem[loc] = T('undef', loc)
                continue
            if loc in L.ptrs:
                h.mem[loc] = ('p', ('c', L.ptrs[loc], lin(p)))
                h.iv[p] = (0, 2**62)
                continue
            ev_ = entry.mem.get(loc)
            if ev_ is not None and ev_[0] in ('B', 'b'):
                h.mem[loc] = mk_true(p)
            elif ev_ is not None and ev_[0] == 'n' or (ev_ is not None and ev_[0] == 't' and ev_ in entry.iv):
                h.mem[loc] = lin(p)
                lo, hi = entry.bounds(lin(ev_))
                r = self.loctype_of(loc, entry)
                if r:
                    h.iv[p] = r
            else:
                h.mem[loc] = p
                r = self.loctype_of(loc, entry)
                if r:
                    h.iv[p] = r
            if tag[0] == 'nn':
                h.facts[('null', p)] = False
        fixed = {L.phi[loc] for loc, tag in key if tag[0] in ('const', 'undef')}
        for c in cand:
            if c in drop or any(t in fixed for t, _ in c[2]):
                continue
            cc = self.subst_head(c, h, L)
            if not h.add_le(cc):
                return None
        return h

    def subst_head(self, c, h, L):
        r = c
        for loc, p in L.phi.items():
            v = h.mem.get(loc)
            if v is not None and v[0] == 'n' and v != lin(p):
                r = subst_lin(r, p, v)
        return r

    def subst_inv(self, c, s, L):
        """candidate over phi terms, evaluated in state s"""
        r = num(c[1])
        inv = {p: loc for loc, p in L.phi.items()}
        for t, k in c[2]:
            if t in inv:
                v = s.mem.get(inv[t])
                if inv[t] in L.ptrs and self.walker(v) is not None:
                    v = v[1][2]
                if v is None or v[0] not in ('n', 't'):
                    return num(1)
                r = add(r, scale(lin(v), k))
            else:
                r = add(r, scale(lin(t), k))
        return r

    def loctype_of(self, loc, st):
        t = None
        if loc[0] == 'v':
            t = self.vartypes().get((loc[2], loc[3]))
            if isinstance(t, set):
                t = next(iter(t)) if len(t) == 1 else None
        elif loc[0] == 'f':
            cls, _, n = loc[2].rpartition('::')
            c = self.p.classes.get(cls)
            for f in (c or {}).get('fields', []):
                if f['n'] == n:
                    t = f['t']
        return int_range(t)

    def vartypes(self):
        if not hasattr(self.p, '_vt'):
            vt = {}

            def walk(x):
                if isinstance(x, dict):
                    if 'id' in x and 'n' in x and 't' in x and x.get('k') in (None,):
                        vt.setdefault((x['id'], x['n']), set()).add(x['t'])
                    for v in x.values():
                        walk(v)
                elif isinstance(x, list):
                    for v in x:
                        walk(v)
            for f in self.p.functions.values():
                for q in f['params']:
                    vt.setdefault((q['id'], q['n']), set()).add(q['t'])
                walk(f.get('body'))
            self.p._vt = vt
        return self.p._vt

    def candidates_inv(self, entry, L, mods, widened):
        """linear invariants worth trying: bounds by the entry value, constant sums/differences, guards"""
        ints = []
        for loc in sorted(mods, key=skey):
            if loc in L.ptrs:
                ints.append((L.phi[loc], lin(entry.mem[loc][1][2])))
                continue
            if loc not in widened:
                continue
            v = entry.mem.get(loc)
            if v is None:
                continue
            if v[0] == 'n' or (v[0] == 't' and int_range_of(self, loc, entry)):
                ints.append((L.phi[loc], lin(v)))
        out = []
        for p, e0 in ints:
            d = sub(lin(p), e0)
            out += [d, scale(d, -1)]
        if len(ints) <= 6:
            for i in range(len(ints)):
                for j in range(i + 1, len(ints)):
                    (p, a), (q, b) = ints[i], ints[j]
                    for sg in (1, -1):
                        d = sub(add(lin(p), scale(lin(q), sg)), add(a, scale(b, sg)))
                        out += [d, scale(d, -1)]
        # relaxed guards seen at the exits of this round
        guards = set()
        ps = {p for p, _ in ints}
        for key, h0, s, k2 in L.iters:
            for f in s.le[len(h0.le):]:
                if any(t in ps for t, _ in f[2]):
                    for r in (0, 1):
                        guards.add(sub(f, num(r)) if r else f)
            for t, b in s.iv.items():
                if t in ps and h0.iv.get(t) != b:
                    if b[1] is not None:
                        guards.add(sub(lin(t), num(b[1] + 1)))
                    if b[0] is not None:
                        guards.add(sub(num(b[0] - 1), lin(t)))
            for f in s.ne[len(h0.ne):]:
                if any(t in ps for t, _ in f[2]):
                    guards.add(f)
                    guards.add(scale(f, -1))
        out += sorted(guards, key=skey)[:40]
        # positions in strings stay within them
        bases = set()
        for key, h0, s, k2 in L.iters:
            for f in list(s.facts) + list(s.bind) + list(s.ne) + list(s.cset):
                for t in subterms(f):
                    if len(t) > 4 and t[0] == 'found' or len(t) > 3 and t[0] == 't' and t[1] == 'at':
                        b = t[2]
                        if b[0] != 's' and not any(contains(b, lambda x: x == q) for q in L.phi.values()):
                            bases.add(b)
        for b in sorted(bases, key=skey)[:4]:
            for p_ in sorted(ps, key=skey)[:4]:
                d = sub(lin(p_), strlen(b))
                out += [d, sub(d, num(1))]
        res = []
        for c in out:
            if c not in res and c[2]:
                res.append(c)
        return res

    def unstable(self, l, h0, lid):
        """the array of which l is a cell, if the index means nothing outside of one iteration"""
        while l[0] in ('f', 'e', 'c'):
            if l[0] == 'e':
                for t in subterms(l[2]):
                    if t and t[0] == 't' and len(t) > 2 and (t[1] == 'phi' and t[2] > lid or isinstance(t[-1], int) and t[-1] > h0.n and t[1] != 'phi'):
                        return l[1]
            l = l[1]
        return None

    def changed(self, h0, s, entry, fr, lid=0):
        ch = set()
        for l, v in s.mem.items():
            if h0.mem.get(l) == v:
                continue
            if l[0] == 'f' or l[0] == 'e':
                b = self.unstable(l, h0, lid)
                if b is not None:
                    if l not in h0.mem and not (loc_base(b)[0] in ('t', 'h') and not any(under(l2, loc_base(b)) or l2 == ('alive', loc_base(b)) for l2 in h0.mem)):
                        ch.add(('hav', b))
                    continue
            if l[0] in TAGS:
                if l[0] in HEAPTAGS:
                    continue
                b = loc_base(l[1])
                if l in h0.mem or any(loc_base(l2) == b for l2 in h0.mem if l2[0] not in TAGS) or b[0] in ('g', 'd'):
                    ch.add(l)
                continue
            b = loc_base(l)
            if l not in h0.mem:
                if b[0] in ('t', 'h'):
                    if not any(under(l2, b) or l2 == ('alive', b) for l2 in h0.mem):
                        continue
                if b[0] == 'v':
                    if not any(loc_base(l2) == b for l2 in h0.mem) and ('count', b) not in h0.mem:
                        continue
                hv = self.load(h0, l)
                if hv == v or lin_eq(hv, v):
                    continue
                if b[0] == 'v' and hv[0] == 't' and hv[1] == 'undef' and b[0] == 'v' and not self.declared_before(h0, b, fr):
                    continue
            else:
                if h0.mem[l][0] in ('n', 't') and v[0] in ('n', 't') and s.norm(lin(v)) == s.norm(lin(h0.mem[l])) and v[0] != 't':
                    continue
            ch.add(l)
        for l in h0.mem:
            if l not in s.mem and l[0] not in TAGS:
                b = loc_base(l)
                ch.add(l)
        return ch

    def declared_before(self, h0, b, fr):
        return ('count', b) in h0.mem

    # ---------------------------------------------------------------- entry point
    def analyse(self, fn, this=None, args=None, setup=None, params=None):
        """analyse fn from an arbitrary entry state.
        Result: object with .rets [(state, value)], .throws [(state, type, value)]"""
        st = St()
        self.sinks = [[]]
        self.aborts, self.uninit, self.oob, self.loops, self.null_derefs = [], [], [], [], []
        if this is None and fn.get('class') and not fn.get('static') and fn.get('kind') in ('method', 'dtor'):
            this = ('d', T('this'))
            st.facts[('null', T('this'))] = False
            c = self.candidates(fn['class'])
            if c:
                st.typ[this] = c
        elif this is None and fn.get('kind') == 'ctor':
            this = ('h', 'this')
            st.typ[this] = frozenset([fn['class']])
        vals = []
        for i, p in enumerate(fn['params']):
            if params and p['n'] in params:
                vals.append(params[p['n']])
                continue
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
                continue
            t = p['t']
            v = T('par', i)
            if t.endswith('&'):
                l = ('d', v)
                st.facts[('null', v)] = False
                if p.get('c'):
                    c = self.candidates(p['c'])
                    if c:
                        st.typ[l] = c
                vals.append(('l', l))
            elif t.endswith('*') or '(*)' in t:
                if p.get('c'):
                    c = self.candidates(p['c'])
                    if c:
                        st.typ[('d', v)] = c
                vals.append(v)
            elif t == 'bool':
                vals.append(mk_true(v))
            elif int_range(t):
                st.iv[v] = int_range(t)
                vals.append(lin(v))
            elif is_float(t):
                vals.append(v)
            else:
                l = ('d', v)
                st.facts[('null', v)] = False
                vals.append(('o', l))
        if setup:
            setup(self, st, this, vals)
        r = Result()
        r.fn = fn
        r.this = this
        if fn.get('kind') == 'dtor' and fn.get('class') in self.p.classes:
            r.rets = [(s2, ('void',)) for s2 in self.run_dtor(st, this, fn['class'], None, fn['line'])]
        else:
            r.rets = self.run(fn, st, this, vals, None, None, fn['line'])
        top = []
        for s, et, v in self.sinks[0]:
            s.tmps = ()
            for s2 in self.unwind(s, 0, None, None):
                top.append((s2, et, v))
        r.throws = top
        r.aborts = self.aborts
        r.loops = self.loops
        r.uninit = self.uninit
        r.oob = self.oob
        r.null_derefs = self.null_derefs
        return r


class Result:
    pass


class Call:
    __slots__ = ('e', 'name', 'obj', 'args', 'dest', 'line')

    def __init__(self, e, name, obj, args, dest, line):
        self.e, self.name, self.obj, self.args, self.dest, self.line = e, name, obj, args, dest, line

    @property
    def t(self):
        return self.e.get('t') or self.e.get('rt') or ''


def int_range_of(eng, loc, st):
    return eng.loctype_of(loc, st)


def lin_eq(a, b):
    if a[0] in ('n', 't') and b[0] in ('n', 't'):
        return lin(a) == lin(b)
    return False


def subst_lin(v, t, w):
    v = lin(v)
    k = dict(v[2]).get(t)
    if not k:
        return v
    return add(sub(v, scale(lin(t), k)), scale(lin(w), k))


def under(l, base):
    """is l the location base or a part of it?"""
    while True:
        if l == base:
            return True
        if l[0] in ('f', 'e', 'c'):
            l = l[1]
        else:
            return False


def rebase(l, a, b):
    if l == a:
        return b
    if l[0] == 'f':
        return ('f', rebase(l[1], a, b), l[2])
    return (l[0], rebase(l[1], a, b)) + l[2:]


def loc_base_fid(l):
    if l[0] in TAGS:
        l = l[1]
    b = loc_base(l)
    return b[1] if b[0] == 'v' else None


def x_line(stmts):
    return stmts[-1].get('l') if stmts else None
