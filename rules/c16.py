"""C16 Base64 decoding accepts exactly valid input and stays in bounds."""
from .common import *
from .measure import B64
from . import base64 as b64, switches
from sa import export

UNITS = export.CORE
EXPLAIN = """
The decoding loop and the loop of the validity check are brought into graphs by the path-partitioned abstract interpreter (nodes:
partitions of the loop head by their small discrete variables; edges: ways through the body, with the conditions on the character at
hand).  Each graph is walked together with a reference automaton of base64 (characters of the group taken, padding) for each of the 256
byte values and the end of the input: on every reachable pair of states the edge that the character enables has to accept, reject or go
on as the automaton does, look at one character after the other, return 3 bytes for each group and 1 or 2 for a padded one, and write
each byte of the group to its place, once, made of the right bits of the right characters (a bit-provenance domain).  Every position in
a table is in range for every byte value."""
EXPLAIN += """
A new codec is strict, and the switch for it is made by every function that writes it what its name or argument says."""
ASSUME = ['a text is shorter than 2^62 characters', 'white space is the six ASCII characters']

RULE = 'decoding follows the reference automaton'
RULEI = 'every table position is legal'


def check(ck):
    ck.run([('strictness switch', lambda c: switches.switch(c, B64, 'GetIgnoreInvalids', put=['SetIgnoreInvalids'], on=['IgnoreInvalidsOn'], off=['IgnoreInvalidsOff'], default=0)), ('check', lambda c: walk(c, 'IsBase64', False)), ('decode', lambda c: walk(c, 'Decode', True))], timeout=300)


def setting(c, getter):
    """(fact, value): what states know where the setting of the codec is on"""
    g = c.analyse(c.need('%s::%s' % (B64, getter)), merge=False)
    v = {v for st, v in g.rets}
    if len(v) == 1:
        x = v.pop()
        if x[0] == 'b':
            return x[1], x[2]
        return (('true', x), 1) if x[0] == 't' else None
    on = [st for st, v in g.rets if v == B(1)]
    keys = {(k, b) for st in on for k, b in st.facts.items() if k[0] == 'true'}
    return keys.pop() if len(keys) == 1 and len(g.rets) == 2 else None


def walk(c, name, writes):
    f = c.need('%s::%s' % (B64, name))
    r = c.analyse(f, merge=False)
    w0 = c.where(f)
    flagt = setting(c, 'GetIgnoreInvalids')
    index(c, f, r)
    if b64.graph(r) is None:
        c.undecided(RULE, '%s is not one loop over the characters' % name, w0)
        return
    w = b64.Walk(c, f, r, flagt, writes)
    if not w.edges:
        c.undecided(RULE, '%s has no loop over the characters' % name, w0)
        return
    why = w.run()
    if why:
        c.undecided(RULE, '%s: %s' % (name, why), w0)
        return
    if any(p[0] is None for p in w.problems) and not any(p[0] is False for p in w.problems):
        w.exact()
    seen = set()
    for v, text, st, line in w.problems:
        if text in seen:
            continue
        seen.add(text)
        c.decide(v, RULE, '%s %s' % (name, text), c.where(f, line), facts(st))
    c.held(RULE, '%s agrees with the automaton on %d pairs of states and %d classes of characters' % (name, w.states, w.n), w0)
    c.count('pairs of states', w.states)
    c.count('classes of characters', w.n)


def index(c, f, r):
    n = 0
    seen = set()
    for st in [s for s, v in r.rets] + [s for s, t, v in r.throws] + [it[2] for l in r.loops for it in l.iters]:
        for e in st.events():
            if e[0] == 'index':
                if e in seen:
                    continue
                seen.add(e)
                n += 1
                ok = e[4] and e[5]
                c.decide(True if ok else None, RULEI, '%s[%s]' % (e[1], show(e[2])), c.where(f, e[6]))
    for o in r.oob:
        c.decide(verdict(o[0], 0), RULEI, 'position %s of %s is outside' % (show(o[5]), show(o[4])), c.where(f, o[2]), facts(o[0]))
