"""What a child process handle of the toolkit does (documented behaviour of the process interface of the system library)."""
from .common import *

STATES = ['Starting', 'Error', 'Exception', 'Executing', 'Exited', 'Expired', 'Killed', 'Disowned']
EXITED, EXECUTING = 4, 3
PREFIX = 'itksysProcess_'


def handle(E, st, fr, c, what):
    v = c.args[0]
    if st.decide_null(v) == 1:
        return None
    base = loc_base(v[1]) if v[0] == 'p' else ('d', v)
    if ('dead', base) in st.mem:
        E.abort(st.fork(), 'use-after-release', fr, c.line, base)
        st.emit('useafter', what, base, c.line)
    return base


def version(st, base, step=False):
    loc = ('pver', base)
    if step:
        st.mem[loc] = T('pversion', st.fresh())
    return st.mem.get(loc, TRUE)


def state(st, base):
    t = T('pstate', base, version(st, base))
    if t not in st.iv:
        st.iv[t] = (0, 7)
    return t


def hooks():
    h = {}

    def new(E, st, fr, c):
        base = ('h', 'process', st.fresh(), c.line)
        st.mem[('alive', base)] = S('ext')
        st.emit('new', base, 'process', False, c.line, fr.fn['qual'], None)
        return [(st, ('p', base))]
    h[PREFIX + 'New'] = new

    def delete(E, st, fr, c):
        v = c.args[0]
        if st.decide_null(v) == 1:
            return [(st, ('void',))]
        base = loc_base(v[1]) if v[0] == 'p' else ('d', v)
        E.release(st, base, PREFIX + 'Delete', fr, c.line)
        st.emit('del', base, PREFIX + 'Delete', c.line, fr.fn['qual'], v)
        return [(st, ('void',))]
    h[PREFIX + 'Delete'] = delete

    def flag(st, name, base):
        t = T('some', name, st.fresh())
        st.iv[t] = (0, 1)
        return lin(t)

    def setcommand(E, st, fr, c):
        base = handle(E, st, fr, c, c.name)
        cmd = c.args[1]
        if cmd[0] == 'p' and ('dead', loc_base(cmd[1])) in st.mem:
            E.abort(st.fork(), 'use-after-release', fr, c.line, loc_base(cmd[1]))
        st.emit('command', base, c.args[1], dict(st.mem), c.line)
        version(st, base, True)
        return [(st, flag(st, 'set', base))]
    h[PREFIX + 'SetCommand'] = setcommand

    def addcommand(E, st, fr, c):
        base = handle(E, st, fr, c, c.name)
        st.emit('addcommand', base, c.args[1], c.line)
        return [(st, flag(st, 'add', base))]
    h[PREFIX + 'AddCommand'] = addcommand

    def plain(E, st, fr, c):
        base = handle(E, st, fr, c, c.name)
        st.emit('process', c.name[len(PREFIX):], base, tuple(c.args[1:]), c.line)
        version(st, base, True)
        return [(st, ('void',) if (c.t or 'void') == 'void' else flag(st, c.name, base))]
    for n in ('SetTimeout', 'SetOption', 'SetPipeFile', 'SetPipeShared', 'SetWorkingDirectory', 'Execute', 'Kill', 'Interrupt', 'Disown'):
        h[PREFIX + n] = plain

    def waitdata(E, st, fr, c):
        base = handle(E, st, fr, c, c.name)
        n = st.fresh()
        done = st.fork()
        done.emit('nodata', base, c.line)
        out = [(done, num(0))]
        t = T('pipe', n)
        st.iv[t] = (2, 3)
        version(st, base, True)
        data, length = T('pdata', n), T('plen', n)
        st.iv[length] = (0, 2**31 - 1)
        st.facts[('null', data)] = False
        for a, v in ((c.args[1], data), (c.args[2], lin(length))):
            if a[0] == 'p':
                E.store(st, a[1], v)
        st.emit('data', base, data, length, c.line)
        out.append((st, lin(t)))
        if len(c.args) > 3 and done.decide_null(c.args[3]) != 1:
            s3 = done.fork()
            s3.emit('timeout', base, c.line)
            out.append((s3, num(255)))
        return out
    h[PREFIX + 'WaitForData'] = waitdata

    def waitexit(E, st, fr, c):
        base = handle(E, st, fr, c, c.name)
        version(st, base, True)
        if len(c.args) < 2 or st.decide_null(c.args[1]) == 1:
            st.emit('waited', base, c.line)
            t = state(st, base)
            st.assume(mk_not(mk_eq0(add(lin(t), num(-EXECUTING)))))
        return [(st, flag(st, 'exit', base))]
    h[PREFIX + 'WaitForExit'] = waitexit

    def getstate(E, st, fr, c):
        base = handle(E, st, fr, c, c.name)
        return [(st, lin(state(st, base)))]
    h[PREFIX + 'GetState'] = getstate

    def exitvalue(E, st, fr, c):
        base = handle(E, st, fr, c, c.name)
        t = T('exitvalue', base, version(st, base))
        st.iv[t] = (-2**31, 2**31 - 1)
        return [(st, lin(t))]
    h[PREFIX + 'GetExitValue'] = exitvalue

    def other(E, st, fr, c):
        base = handle(E, st, fr, c, c.name)
        t = T('some', c.name, st.fresh())
        return [(st, lin(t))]
    for n in ('GetExitCode', 'GetExitException', 'GetOption'):
        h[PREFIX + n] = other

    def text(want):
        def get(E, st, fr, c):
            base = handle(E, st, fr, c, c.name)
            t = T('ptext', want, base)
            d = st.decide(mk_eq0(add(lin(state(st, base)), num(-want))))
            if d == 0:
                return [(st, NULL)]
            if d == 1:
                st.facts[('null', t)] = False
            return [(st, t)]
        return get
    h[PREFIX + 'GetErrorString'] = text(1)
    h[PREFIX + 'GetExceptionString'] = text(2)
    return h
