"""The baseline reader: ReadXMLInput and the parser callbacks it registers."""
from .common import *
from . import compare as cmp

READ = RT + '::ReadXMLInput'


def _calls(ck, f, name):
    return [n for n in walk(f['body']) if n['k'] == 'call' and plain(n.get('n') or '') == name]


def handlers(ck):
    """{'start': [functions], 'end': [...], 'data': [...]} registered by any function reachable from ReadXMLInput"""
    root = ck.need(READ)
    out = {'start': [], 'end': [], 'data': []}
    sites = 0
    for k in reach(ck, [root['key']]):
        f = ck.p.functions[k]
        for n in _calls(ck, f, 'XML_SetElementHandler'):
            sites += 1
            for role, a in (('start', n['a'][1]), ('end', n['a'][2])):
                out[role] += _fn(ck, f, a)
        for n in _calls(ck, f, 'XML_SetStartElementHandler'):
            out['start'] += _fn(ck, f, n['a'][1])
        for n in _calls(ck, f, 'XML_SetEndElementHandler'):
            out['end'] += _fn(ck, f, n['a'][1])
        for n in _calls(ck, f, 'XML_SetCharacterDataHandler'):
            sites += 1
            out['data'] += _fn(ck, f, n['a'][1])
    for role in out:
        if len(out[role]) != 1:
            raise BrokenAnalysis('%d %s handlers found' % (len(out[role]), role))
    return out


def _fn(ck, f, a):
    """the functions an expression names, itself or through local variables"""
    r, todo, done = [], [a], set()
    while todo:
        for n in walk(todo.pop()):
            if n['k'] == 'fn' and n.get('f') in ck.p.functions:
                r.append(ck.p.functions[n['f']])
            elif n['k'] == 'var' and n.get('id') not in done:
                done.add(n.get('id'))
                for d in walk(f['body']):
                    if d['k'] == 'decl':
                        todo += [v['init'] for v in d['v'] if v.get('id') == n.get('id') and v.get('init')]
    return [g for i, g in enumerate(r) if g not in r[:i]]


def pd_class(ck):
    """the class of the user data: the class all handlers cast their first parameter to"""
    h = handlers(ck)
    cs = set()
    for role in h:
        f = h[role][0]
        # the cast itself, or that of a helper the handler passes its user data to
        for g in [f] + [ck.p.functions[k] for k in reach(ck, [f['key']]) if k != f['key']]:
            if not is_lambda(g) and not any((p.get('t') or '').startswith('void *') for p in g.get('params', [])):
                continue
            for n in walk(g['body']):
                t = n.get('t') or ''
                if n['k'] == 'cast' and t.endswith('*') and n.get('ft', '').startswith('void'):
                    cs.add(t.rstrip(' *'))
    cs = {c for c in cs if c in ck.p.classes}
    if len(cs) != 1:
        raise BrokenAnalysis('user data class of the parser callbacks not found: %s' % sorted(cs))
    return cs.pop()


ROLE = {'measurements': lambda t: t.startswith('std::') and 'list<' in t and 'Measurement *' in t,
        'm': lambda t: t == 'testutil::Measurement *',
        'data': lambda t: t in ('std::string', 'std::basic_string<char>') or t.startswith('std::__cxx11::basic_string') or t.startswith('std::basic_string<'),
        'depth': lambda t: t in ('int', 'unsigned int', 'long', 'unsigned long', 'short')}


def pd_name(ck, role):
    c = pd_class(ck)
    fs = [f for f in ck.p.classes[c]['fields'] if ROLE[role](f['t'])]
    if len(fs) > 1:
        fs = [f for f in fs if f['n'] == role]
    if len(fs) != 1:
        raise BrokenAnalysis('the callbacks\' %s is not found in %s' % (role, c))
    return '%s::%s' % (c, fs[0]['n'])


def pd_obj(ck):
    return ('d', T('par', 0))


def pd_field(ck, role):
    return field(pd_obj(ck), pd_name(ck, role))


def handler_setup(E, st, this, vals):
    st.facts[('null', T('par', 0))] = False
    if len(vals) > 1:
        st.facts[('null', T('par', 1))] = False
    if len(vals) == 3 and vals[2] == T('par', 2):
        st.facts[('null', T('par', 2))] = False


def measurement_hooks(ck):
    h = cmp.attr_hooks(ck)
    return h


def xml_hooks(ck, box):
    """contracts of the expat calls; box collects the registered user data"""
    h = {}

    def create(E, st, fr, c):
        s2 = st.fork()
        loc = ('h', 'parser', st.fresh())
        st.emit('new', loc, 'XML_Parser', False, c.line, fr.fn['qual'], None)
        st.mem[('alive', loc)] = S('ext')
        s2.emit('sys', 'XML_ParserCreate', (), False, c.line, NULL)
        return [(st, mkptr(loc)), (s2, NULL)]

    def free(E, st, fr, c):
        v = c.args[0]
        base = loc_base(v[1]) if v[0] == 'p' else None
        if base is None:
            st.emit('xmlfree-unknown', v, c.line)
            return [(st, ('void',))]
        E.release(st, base, 'XML_ParserFree', fr, c.line)
        st.emit('del', base, 'XML_ParserFree', c.line, fr.fn['qual'], v)
        return [(st, ('void',))]

    def use(E, st, fr, c):
        v = c.args[0]
        base = loc_base(v[1]) if v[0] == 'p' else None
        if st.decide_null(v) == 1:
            E.abort(st.fork(), 'null-deref', fr, c.line, v)
        if base is not None and ('dead', base) in st.mem:
            st.emit('useafter', c.name, base, c.line)
        st.emit('xml', c.name, tuple(c.args), c.line)
        return base

    def plain_(E, st, fr, c):
        use(E, st, fr, c)
        return [(st, ('void',))]

    def userdata(E, st, fr, c):
        use(E, st, fr, c)
        box.setdefault('user', set()).add(c.args[1])
        return [(st, ('void',))]

    def getbuffer(E, st, fr, c):
        use(E, st, fr, c)
        s2 = st.fork()
        n = st.fresh()
        p = ('p', ('e', ('d', T('xmlbuf', n)), num(0)))
        st.emit('getbuffer', p, st.norm(lin(c.args[1])), c.line)
        s2.emit('sys', 'XML_GetBuffer', (), False, c.line, NULL)
        return [(st, p), (s2, NULL)]

    def parse(E, st, fr, c):
        use(E, st, fr, c)
        if c.name == 'XML_Parse':
            buf, ln, done = c.args[1], c.args[2], c.args[3]
        else:
            buf, ln, done = None, c.args[1], c.args[2]
        for u in box.get('user', ()):
            if u[0] == 'p':
                # the callbacks run: the user data changes
                for f in ck.p.classes.get(pd_class(ck), {}).get('fields', []):
                    l = field(u[1], '%s::%s' % (pd_class(ck), f['n']))
                    E.drop_under(st, l)
                    v = T('parsed', f['n'], st.fresh())
                    st.mem[l] = ('L', (), v, ()) if 'list<' in f['t'] else lin(v) if int_range(f['t']) else v
        s2 = st.fork()
        st.emit('parse', buf, lin(ln), lin(done) if done[0] in 'nB' else done, True, c.line)
        s2.emit('parse', buf, lin(ln), lin(done) if done[0] in 'nB' else done, False, c.line)
        return [(st, num(1)), (s2, num(0))]

    def opaque(E, st, fr, c):
        use(E, st, fr, c)
        r = T('xmlret', c.name, st.fresh())
        t = c.t
        if t.endswith('*'):
            st.facts[('null', r)] = False
            return [(st, r)]
        st.iv[r] = (0, 2**31 - 1)
        return [(st, lin(r))]
    h['XML_ParserCreate'] = h['XML_ParserCreateNS'] = create
    h['XML_ParserFree'] = free
    for n in ('XML_SetElementHandler', 'XML_SetCharacterDataHandler', 'XML_SetStartElementHandler', 'XML_SetEndElementHandler'):
        h[n] = plain_
    h['XML_SetUserData'] = userdata
    h['XML_GetBuffer'] = getbuffer
    h['XML_ParseBuffer'] = h['XML_Parse'] = parse
    for n in ('XML_GetErrorCode', 'XML_ErrorString', 'XML_GetCurrentLineNumber', 'XML_GetCurrentColumnNumber', 'XML_GetCurrentByteIndex'):
        h[n] = opaque
    return h


def instream(E, st, fr, c):
    return [(st, ('l', ('d', T('configured-input'))))]


def read_run(ck, **kw):
    """abstract interpretation of ReadXMLInput"""
    box = {}
    h = xml_hooks(ck, box)
    h.update(cmp.attr_hooks(ck))
    h[RT + '::GetInStream'] = instream
    h.update(kw.pop('extra', {}))
    f = ck.need(READ)
    r = ck.analyse(f, hooks=h, **kw)
    r.box = box
    return f, r
