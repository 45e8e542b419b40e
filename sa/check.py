"""Runs the rule of one property: loads the current tree, decides its
obligations (in parallel, each in a forked child), reports and writes evidence."""
import json, os, sys, time, importlib, traceback, resource, signal, hashlib, pickle, select
from . import export, engine
from .export import BrokenAnalysis, VERIF
from .terms import show

HELD, BROKEN, OPEN = 'held', 'violated', 'undecided'


class Ob(dict):
    pass


class Check:
    def __init__(self, pid, prog, tier='quick'):
        self.pid, self.p, self.tier = pid, prog, tier
        self.obs = []
        self.fns = set()
        self.stats = {}
        self.task = None
        self.broken = []

    # ---- results ----------------------------------------------------------
    def add(self, status, rule, what, where='', detail='', **kw):
        self.obs.append(Ob(status=status, rule=rule, what=what, where=where, detail=detail, task=self.task, **kw))

    def held(self, rule, what, where='', **kw):
        self.add(HELD, rule, what, where, **kw)

    def violated(self, rule, what, where='', detail='', **kw):
        self.add(BROKEN, rule, what, where, detail, **kw)

    def undecided(self, rule, what, where='', detail='', **kw):
        self.add(OPEN, rule, what, where, detail, **kw)

    def decide(self, ok, rule, what, where='', detail='', **kw):
        """ok: True / False / None"""
        self.add(HELD if ok else OPEN if ok is None else BROKEN, rule, what, where, detail, **kw)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ---- anchors ----------------------------------------------------------
    def need(self, qual, pred=None, many=False):
        r = [f for f in self.p.fn(qual) if pred is None or pred(f)]
        if not r:
            raise BrokenAnalysis('anchor %s is gone' % qual)
        return r if many else r[0]

    def where(self, fn, line=None):
        return '%s:%s' % (export.rel(fn['file']), line or fn['line'])

    # ---- engine -----------------------------------------------------------
    def analyse(self, fn, hooks=None, setup=None, flags=(), **kw):
        ekw = {k: kw.pop(k) for k in ('inline', 'maxdepth') if k in kw}
        E = engine.Engine(self.p, hooks=hooks, **ekw)
        E.flags |= set(flags)
        for k in ('merge', 'maxsteps', 'MAXPATHS', 'arrays', 'maxrec'):
            if k in kw:
                setattr(E, k, kw.pop(k))
        r = E.analyse(fn, setup=setup, **kw)
        r.E = E
        self.fns |= E.analysed
        self.count('partitions', len(r.rets) + len(r.throws) + len(r.aborts))
        self.count('abstract_steps', E.steps)
        self.count('call_sites', E.calls)
        self.count('loops_solved', len(r.loops))
        self.count('joins', E.joins)
        if not r.rets and not r.throws and not r.aborts:
            raise BrokenAnalysis('%s has no way out' % fn['qual'])
        return r

    # ---- tasks ------------------------------------------------------------
    def run(self, tasks, timeout=240, jobs=None):
        """tasks: [(name, callable(check))], each in a forked child"""
        jobs = jobs or min(8, os.cpu_count() or 2)
        if os.environ.get('VERIF_SERIAL'):
            for n, f in tasks:
                self.task = n
                f(self)
            self.task = None
            return
        todo = list(tasks)
        running = {}
        broken = []
        sys.stdout.flush()
        while todo or running:
            while todo and len(running) < jobs:
                name, f = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self.child(name, f, w, timeout)
                os.close(w)
                running[r] = [pid, name, b'', time.time()]
            rs, _, _ = select.select(list(running), [], [], 1.0)
            for r in rs:
                d = os.read(r, 1 << 20)
                if d:
                    running[r][2] += d
                    continue
                pid, name, buf, t0 = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                self.absorb(name, buf, broken, t0)
            for r in list(running):
                pid, name, buf, t0 = running[r]
                if time.time() - t0 > timeout + 20:
                    os.kill(pid, signal.SIGKILL)
        self.broken += broken
        for b in broken:
            self.undecided('analysis', 'incomplete: ' + b)

    def child(self, name, f, w, timeout):
        try:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            sys.setrecursionlimit(12000)
            c = Check(self.pid, self.p, self.tier)
            c.task = name
            err = None

            def onalarm(*a):
                raise engine.TooBig('time limit %ds' % timeout)
            signal.signal(signal.SIGALRM, onalarm)
            signal.alarm(timeout)
            try:
                f(c)
            except BrokenAnalysis as x:
                err = ('broken', str(x))
            except (engine.TooBig, RecursionError, MemoryError) as x:
                err = ('limit', type(x).__name__ + ' ' + str(x)[:200])
            except Exception as x:
                err = ('bug', traceback.format_exc()[-2500:])
            signal.alarm(0)
            out = pickle.dumps((c.obs, c.fns, c.stats, err))
            with os.fdopen(w, 'wb') as fh:
                fh.write(out)
        finally:
            os._exit(0)

    def absorb(self, name, buf, broken, t0):
        try:
            obs, fns, stats, err = pickle.loads(buf)
        except Exception:
            self.task = name
            self.undecided('analysis', 'task %s ended without a result (limits)' % name)
            self.task = None
            return
        self.obs += obs
        self.fns |= fns
        for k, v in stats.items():
            self.count(k, v)
        if os.environ.get('VERIF_TIMES'):
            print('  task %-50s %.1fs' % (name, time.time() - t0))
        if err:
            if err[0] == 'broken':
                broken.append('%s: %s' % (name, err[1]))
            else:
                if os.environ.get('VERIF_TIMES'):
                    print(err[1])
                self.task = name
                self.undecided('analysis', 'task %s: %s' % (name, ' '.join(err[1].split())[-260:]))
                self.task = None


def known_findings():
    f = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(f):
        return []
    return json.load(open(f)).get('findings', [])


def matches(k, pid, o):
    return k['property'] == pid and all(k[x] in str(o.get(x, '')) for x in ('rule', 'what') if x in k)


def main(argv, prog=None):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(12000)
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        if prog is None:
            w = getattr(mod, 'WITNESS', None)
            prog = export.load(mod.UNITS, witness=os.path.join(VERIF, 'witness', w) if w else None)
        ck = Check(pid, prog, tier)
        try:
            mod.check(ck)
        except BrokenAnalysis as x:
            # what was found before stands
            if all(o['status'] == OPEN for o in ck.obs):
                raise
            ck.broken.append(str(x))
            ck.undecided('analysis', 'incomplete: %s' % x)
        if not ck.obs:
            raise BrokenAnalysis('no obligation was formed')
        for b in ck.broken:
            print('ANALYSIS-INCOMPLETE property=%s %s' % (pid, b[:300]))
        if all(o['status'] == OPEN for o in ck.obs):
            raise BrokenAnalysis('no obligation could be decided: ' + str(ck.obs[0]['what'])[:300])
    except BrokenAnalysis as x:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, x))
        return 2
    wall = time.time() - t0
    return report(ck, mod, tier, seed, wall)


def report(ck, mod, tier, seed, wall):
    pid = ck.pid
    bad = [o for o in ck.obs if o['status'] == BROKEN]
    opn = [o for o in ck.obs if o['status'] == OPEN]
    held = [o for o in ck.obs if o['status'] == HELD]
    known, new, seen = [], [], set()
    kf = [k for k in known_findings() if k.get('status') == 'known']
    for o in bad:
        key = (o['rule'], o['what'], o['where'])
        if key in seen:
            continue
        seen.add(key)
        k = next((k for k in kf if matches(k, pid, o)), None)
        (known if k else new).append(o)
    rules = {}
    for o in ck.obs:
        r = rules.setdefault(o['rule'], {'held': 0, 'violated': 0, 'undecided': 0})
        r[o['status']] += 1
    fns = []
    for k in sorted(ck.fns):
        f = ck.p.functions.get(k)
        if f:
            fns.append('%s (%s:%s)' % (f['qual'], export.rel(f['file']), f['line']))
    cov = {
        'explanation': getattr(mod, 'EXPLAIN', '').strip(),
        'obligations': len(ck.obs), 'discharged': len(held), 'undecided': len(opn),
        'per_rule': rules,
        'translation_units': [export.rel(t) for t in ck.p.tus],
        'functions_in_program': len(ck.p.functions),
        'functions_analysed': len(fns), 'functions': fns[:200],
        'measured': ck.stats,
        'samples': [{k: v for k, v in o.items() if v and k != 'task'} for o in held[:6]],
        'undecided_list': [{'rule': o['rule'], 'what': o['what'], 'detail': str(o['detail'])[:300]} for o in opn[:40]],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(wall, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print('%s: %d obligations, %d held, %d violated, %d undecided; %d functions, %.1fs' % (pid, len(ck.obs), len(held), len(bad), len(opn), len(fns), wall))
    for o in opn[:10]:
        print('  undecided: [%s] %s %s' % (o['rule'], o['what'][:400], str(o['detail'])[:200]))
    for o in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, o['what']))
    if not new:
        return 0
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    for i, o in enumerate(new[:20]):
        path = os.path.join(VERIF, 'replay', '%s-%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(dict(o, property=pid), f, indent=1, default=str)
        print('  %s: [%s] %s%s' % (o['where'], o['rule'], o['what'], ('\n      ' + str(o['detail'])) if o['detail'] else ''))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1
