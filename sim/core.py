"""
Cooperative scheduler.

A run is a pure function of its plan (a JSON object) and of the code under test. Every decision
- who runs, which call fails and how, when a process dies, how the clock moves - is listed in the plan:

plan['preempt']  [[task, op, idx, target], ...]   at intercepted call number idx of operation op, task hands
                                                  over to target (if target can run)
plan['faults']   [{'task','op','idx','do',...}]   armed from call number idx of operation op

plan['walk']      {'seed', 'p'}                   instead of (or besides) a list of pre-emptions: at every call, with
                                                  this probability, a random other task. What it did is
                                                  recorded so that it can be made a list afterwards.

With nothing listed a task runs until it blocks. That makes both lists something a shrinker can simply
drop entries from.

Tasks are real threads, but only the one holding the baton runs. They hand over at intercepted calls only.
"""
import _thread
import errno
import hashlib
import random
import sys

SIM = None  # the active simulation, if any


class SimCrash(BaseException):
    """The simulated process is dead. Unwinds its stack."""


class SimStuck(BaseException):
    """Step budget used up"""


class HarnessError(Exception):
    pass


class Violation(Exception):
    def __init__(self, cls, msg, **info):
        Exception.__init__(self, msg)
        self.cls = cls
        self.msg = msg
        self.info = info


# which calls an injected errno can hit
ELIGIBLE = {
    'ENOSPC': ('open-create', 'write', 'mkdir', 'rename', 'fsync'),
    'EDQUOT': ('open-create', 'write', 'mkdir', 'rename'),
    'EIO': ('read', 'write', 'fsync', 'rename', 'unlink', 'open', 'open-create', 'listdir'),
    'EMFILE': ('open', 'open-create'),
    'ENOMEM': ('open', 'open-create', 'listdir', 'mkdir'),
}


class Task:
    def __init__(self, sim, name, fn, skew_ns=0):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.skew_ns = skew_ns
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = 'new'  # new ready blocked done
        self.wake = None
        self.cond = None
        self.dead = False
        self.inc = 0  # incarnation
        self.op = -1
        self.idx = 0
        self.kinds = {}
        self.restart = None

    def begin(self, op):
        """A new operation (number) starts"""
        self.op = op
        self.idx = 0
        self.kinds = {}
        self.sim.armed = [f for f in self.sim.armed if f['task'] != self.name]
        self.sim.armed.extend(f for f in self.sim.faults
                              if f['task'] == self.name and f['op'] == op)

    def end(self):
        self.sim.armed = [f for f in self.sim.armed if f['task'] != self.name]
        self.op = -1


class Sim:
    def __init__(self, plan, start_ns=1_600_000_000_000_000_000):
        self.plan = plan
        self.now_ns = plan.get('start_ns', start_ns)
        self.mono_ns = 1_000_000_000
        self.t0 = 0
        self.tick_ns = plan.get('tick_ns', 1000)
        self.tasks = []
        self.one_process = False  # the tasks are threads
        self.by_name = {}
        self.cur = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.faults = [dict(f) for f in plan.get('faults', [])]
        self.armed = []
        self.preempt = {(p[0], p[1], p[2]): p[3] for p in plan.get('preempt', [])}
        self.steps = 0
        self.max_steps = plan.get('max_steps', 200000)
        self.log = hashlib.sha256()
        self.log_lines = [] if plan.get('_log') else None
        self.seq = 0  # global event number
        self.fired = {}
        self.probes = {}
        self.sched = hashlib.sha256()
        self.switches = 0
        self.on_crash = []  # callbacks(task)
        self.stuck = None
        self.excs = []
        walk = plan.get('walk')
        self.walk = random.Random(walk['seed']) if walk else None
        self.walk_p = walk['p'] if walk else 0
        self.walked = []
        self.ids = random.Random(plan.get('id_seed', 1))
        self.node_skew_ns = 0
        self.read_lag_ns = 0  # how long whoever reads the clock is held up then
        self.sim_elapsed_ns = 0

    # -- bookkeeping
    def event(self, *args):
        self.seq += 1
        line = repr(args)
        self.log.update(line.encode('utf-8', 'backslashreplace'))
        if self.log_lines is not None:
            self.log_lines.append(line)
        return self.seq

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- clock
    def clock_ns(self):
        skew = self.cur.skew_ns if self.cur is not None else 0
        res = self.now_ns + skew + self.node_skew_ns
        if self.read_lag_ns:
            self.advance(self.read_lag_ns)
        return res

    def advance(self, ns):
        self.now_ns += ns
        self.mono_ns += ns
        self.sim_elapsed_ns += ns

    def step_clock(self, ns):
        """Someone sets the clock"""
        self.now_ns += ns

    # -- tasks
    def spawn(self, name, fn, skew_ns=0, restart=None):
        t = Task(self, name, fn, skew_ns)
        t.restart = restart
        self.tasks.append(t)
        self.by_name[name] = t
        return t

    def _thread(self, t):
        t.baton.acquire()
        if self.trace_fn is not None:
            sys.settrace(self.trace_fn)
        try:
            if not self.stuck:
                t.fn(t)
        except (SimCrash, SimStuck):
            pass
        except BaseException as err:
            self.excs.append(err)
        finally:
            sys.settrace(None)
            t.state = 'done'
            if t.dead and t.restart is not None and not self.stuck and not self.power:
                # the process is started again
                r = Task(self, t.name, t.restart, t.skew_ns)
                r.inc = t.inc + 1
                r.restart = t.restart
                self.tasks[self.tasks.index(t)] = r
                self.by_name[t.name] = r
                self.cur = r
                r.state = 'ready'
                _thread.start_new_thread(self._thread, (r,))
            nxt = self._pick()
            if nxt is None:
                self.cur = None
                self.main.release()
            else:
                self.cur = nxt
                nxt.baton.release()

    trace_fn = None

    def run(self):
        for t in self.tasks:
            if t.state == 'new':
                t.state = 'ready'
                _thread.start_new_thread(self._thread, (t,))
        first = self.by_name.get(self.plan.get('first')) or self._pick()
        if first is None or first.state != 'ready':
            first = self._pick()
        if first is not None:
            self.cur = first
            first.baton.release()
            self.main.acquire()
        if self.excs:
            raise self.excs[0]

    def _pick(self):
        """Who's next when the one running can't go on. Round robin, then the one that wakes first."""
        n = len(self.tasks)
        try:
            start = self.tasks.index(self.cur) + 1
        except ValueError:
            start = 0
        order = [self.tasks[(start + i) % n] for i in range(n)]
        for t in order:
            if t.state == 'blocked' and t.cond is not None and t.cond():
                t.state, t.cond, t.wake = 'ready', None, None
        for t in order:
            if t.state == 'ready':
                return t
        sleeping = [t for t in order if t.state == 'blocked' and t.wake is not None]
        if sleeping:
            t = min(sleeping, key=lambda x: x.wake)
            if t.wake > self.mono_ns:
                self.advance(t.wake - self.mono_ns)
            t.state, t.wake, t.cond = 'ready', None, None
            return t
        blocked = [t for t in order if t.state == 'blocked']
        if blocked:
            self.stuck = 'deadlock'
            t = blocked[0]
            t.state, t.cond = 'ready', None
            return t
        return None

    def _switch(self, nxt):
        cur = self.cur
        if nxt is cur:
            return
        self.switches += 1
        self.sched.update(('%s:%s:%s>%s;' % (cur.name, cur.op, cur.idx, nxt.name)).encode())
        self.cur = nxt
        nxt.baton.release()
        cur.baton.acquire()

    def _alive(self, t):
        if self.stuck:
            raise SimStuck()
        if t.dead:
            raise SimCrash()

    def block(self, wake_ns=None, cond=None):
        """The running task can't go on for wake_ns / until cond"""
        t = self.cur
        if t is None:
            if wake_ns:
                self.advance(wake_ns)
            return
        self._alive(t)
        t.state = 'blocked'
        t.wake = None if wake_ns is None else self.mono_ns + wake_ns
        t.cond = cond
        nxt = self._pick()
        self._switch(nxt)
        self._alive(t)

    def sleep(self, seconds):
        t = self.cur
        ns = max(int(seconds * 1e9), 0)
        if t is None:
            self.advance(ns)
            return
        self._count(t)
        self.event('sleep', t.name, ns)
        self.block(wake_ns=max(ns, 1))

    def _count(self, t):
        self._alive(t)
        self.steps += 1
        if self.steps > self.max_steps:
            self.stuck = 'steps'
            raise SimStuck()

    def yield_to(self, t, target):
        tgt = self.by_name.get(target)
        if tgt is None or tgt is t:
            return
        if tgt.state == 'blocked' and ((tgt.cond and tgt.cond()) or (tgt.wake is not None and
                                                                     tgt.wake <= self.mono_ns)):
            tgt.state, tgt.cond, tgt.wake = 'ready', None, None
        if tgt.state == 'ready':
            self._switch(tgt)
            self._alive(t)

    def point(self, kind, what=''):
        """
        The running task is about to make a call.
        :return: None or a fault that the caller has to carry out
        """
        t = self.cur
        if t is None:
            self.advance(self.tick_ns)
            return None
        self._count(t)
        idx = t.idx
        t.idx += 1
        n = t.kinds.get(kind, 0)
        t.kinds[kind] = n + 1
        self.advance(self.tick_ns)
        tgt = self.preempt.get((t.name, t.op, idx))
        if tgt is None and self.walk is not None and self.walk.random() < self.walk_p:
            others = [x.name for x in self.tasks if x is not t and x.state != 'done']
            if others:
                tgt = self.walk.choice(others)
                self.walked.append([t.name, t.op, idx, tgt])
        if tgt is not None:
            self.yield_to(t, tgt)
        self.event(kind, t.name, t.op, what)
        if not self.armed:
            return None
        for f in self.armed:
            if f['task'] != t.name or idx < f['idx']:
                continue
            do = f['do']
            if f.get('kind') not in (None, kind):
                continue
            if do == 'err':
                if kind not in ELIGIBLE[f['e']]:
                    continue
                if not f.get('sticky'):
                    self.consume(f)
                self.fire('%s@%s' % (f['e'], kind))
                self.event('fault', f['e'], kind)
                e = getattr(errno, f['e'])
                raise OSError(e, 'injected %s' % f['e'], what)
            if do in ('short', 'enospc-partial'):
                if kind != 'write':
                    continue
                self.consume(f)
                self.fire(do)
                return f
            if do == 'crash-partial':
                if kind != 'write':
                    continue
                self.consume(f)
                self.fire(do)
                return f
            if do == 'crash':
                self.consume(f)
                self.fire('crash@%s' % kind)
                self.crash(t)
                raise SimCrash()
            if do == 'powerloss':
                self.consume(f)
                self.fire('powerloss@%s' % kind)
                self.powerloss()
                raise SimCrash()
            if do == 'clock':
                self.consume(f)
                self.fire('clock-step')
                self.step_clock(f['ns'])
                return None
            if do == 'stall':
                self.consume(f)
                self.fire('stall')
                self.block(wake_ns=f['ns'])
                return None
            if do.startswith('ext:'):  # something for the seam in question
                self.consume(f)
                self.fire('%s@%s' % (do, kind))
                return f
        return None

    def consume(self, f):
        self.armed.remove(f)
        if f in self.faults:
            self.faults.remove(f)

    def crash(self, t):
        """The process of this task dies"""
        t.dead = True
        self.event('crash', t.name)
        for cb in self.on_crash:
            cb(t)

    def powerloss(self):
        self.power = True
        self.event('powerloss')
        for t in self.tasks:
            if t.state != 'done':
                t.dead = True
                if t.state == 'blocked':
                    t.state, t.cond, t.wake = 'ready', None, None
        for cb in self.on_crash:
            cb(None)

    power = False

    def urandom(self, n):
        return self.ids.randbytes(n)
