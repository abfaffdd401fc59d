"""
Runs a check: many seeds, in parallel, one forked process per simulated run. Shrinks and replays what
fails. Writes the evidence.
"""
import copy
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import traceback

from . import boot
from . import core
from . import vfs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
now = boot.REAL['monotonic']
RUN_TIMEOUT = 40  # real seconds for one simulated run, normally a few milliseconds
SCRATCH_ROOT = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'


# ---------------------------------------------------------------- one run

class Env:
    """What a check's run() is given"""

    def __init__(self, plan, scratch):
        self.plan = plan
        self.scratch = scratch
        self.sim = None
        self.fs = None

    def start(self, fs=True):
        plan = self.plan
        self.sim = core.Sim(plan)
        core.SIM = self.sim
        random.seed(plan.get('id_seed', 0))  # the generator all share
        if fs:
            self.fs = vfs.SimFS(self.sim, self.scratch, plan)
            vfs.FS = self.fs
        return self.sim

    def stop(self):
        core.SIM = None
        vfs.FS = None


def run_plan(mod, plan, scratch):
    """
    In a process of its own.

    :return: dictionary, can be serialised as JSON
    """
    os.environ['TZ'] = plan.get('tz', 'UTC')
    import time
    time.tzset()
    vfs.R['makedirs'](scratch)
    os.chdir(scratch)
    env = Env(plan, scratch)
    res = {'viol': None, 'harness': None}
    try:
        extra = mod.run(env, plan) or {}
        res.update(extra)
    except core.Violation as err:
        msg = err.msg if len(err.msg) < 1500 else err.msg[:700] + ' ... ' + err.msg[-700:]
        res['viol'] = {'cls': err.cls, 'msg': msg, 'info': err.info}
    except core.SimStuck:
        res['viol'] = {'cls': 'no-progress', 'msg': 'step budget used up', 'info': {}}
    except core.HarnessError:
        res['harness'] = traceback.format_exc()
    except BaseException as err:
        tb = traceback.extract_tb(err.__traceback__)
        # An exception in the check itself is, most often, what it got being of a kind it never should be
        mine = isinstance(err, (OSError, MemoryError, ImportError, NameError, KeyboardInterrupt, SystemExit))
        if not mine or any('/oidcmsg/' in f.filename for f in tb):
            res['viol'] = {'cls': 'exception-%s' % type(err).__name__,
                           'msg': 'unexpected %s: %s' % (type(err).__name__, err),
                           'info': {'tb': ''.join(traceback.format_exc()[-1500:])}}
        else:
            res['harness'] = traceback.format_exc()
    sim = env.sim
    env.stop()
    if sim is not None:
        if sim.stuck and res['viol'] is None and res['harness'] is None:
            res['viol'] = {'cls': 'no-progress', 'msg': 'stuck: %s after %d steps' % (sim.stuck, sim.steps),
                           'info': {}}
        res['log'] = sim.log.hexdigest()
        res['sched'] = sim.sched.hexdigest()
        res['switches'] = sim.switches
        if sim.walked:
            res['walked'] = sim.walked
        res['steps'] = sim.steps
        res['events'] = sim.seq
        res['fired'] = sim.fired
        res['probes'] = sim.probes
        res['sim_ns'] = sim.sim_elapsed_ns
        if plan.get('_log'):
            res['log_lines'] = sim.log_lines
    return res


def clean(scratch):
    os.chdir('/')
    if os.path.isdir(scratch):
        vfs.R['rmtree'](scratch)


def remove(path):
    if os.path.isdir(path):
        vfs.R['rmtree'](path)


def fork_run(mod, plan, scratch, timeout=RUN_TIMEOUT):
    """Run in a forked process"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            res = run_plan(mod, plan, scratch)
            data = json.dumps(res, default=repr).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 3
            try:
                os.write(w, json.dumps({'viol': None, 'harness': traceback.format_exc()}).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = now() + timeout
    hung = False
    while True:
        left = end - now()
        if left <= 0:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        clean(scratch)
    except OSError:
        pass
    if hung:
        return {'viol': None, 'harness': None, 'hung': True}
    try:
        return json.loads(buf)
    except ValueError:
        return {'viol': None, 'harness': 'run ended with status %s and no result' % status}


def judged_run(mod, plan, scratch):
    """As fork_run. A run that never ends, twice, is a violation as well."""
    res = fork_run(mod, plan, scratch)
    if res.get('hung'):
        res = fork_run(mod, plan, scratch, 3 * RUN_TIMEOUT)
        if res.get('hung'):
            res['viol'] = {'cls': 'hang', 'msg': 'the run never ends', 'info': {}}
            res.setdefault('log', 'hang')
    return res


# ---------------------------------------------------------------- plans

def plan_for(mod, seed, index, tier):
    rng = random.Random('%s/%s/%s' % (mod.PROPERTY, seed, index))
    plan = mod.gen(rng, tier, index)
    plan['property'] = mod.PROPERTY
    plan['seed'] = seed
    plan['index'] = index
    # what is run is what a replay file can hold
    return json.loads(json.dumps(plan))


class Stats:
    def __init__(self):
        self.runs = 0
        self.fired = {}
        self.probes = {}
        self.logs = set()
        self.scheds = set()
        self.nontrivial = 0
        self.distinct = set()
        self.sim_ns = 0
        self.steps = 0
        self.events = 0
        self.switches = 0
        self.samples = []
        self.known = {}

    def add(self, res, plan):
        self.runs += 1
        for k, v in res.get('fired', {}).items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in res.get('probes', {}).items():
            self.probes[k] = self.probes.get(k, 0) + v
        log = res.get('log', '')[:16]
        self.logs.add(log)
        if res.get('switches'):
            self.scheds.add(res['sched'][:16])
        if res.get('nontrivial', True):
            self.nontrivial += 1
            self.distinct.add(res.get('digest', log))
        self.sim_ns += res.get('sim_ns', 0)
        self.steps += res.get('steps', 0)
        self.events += res.get('events', 0)
        self.switches += res.get('switches', 0)
        if len(self.samples) < 1 and res.get('nontrivial', True):
            self.samples.append({'plan': plan, 'log': res.get('log'), 'fired': res.get('fired'),
                                 'note': res.get('note')})

    def dump(self):
        d = dict(self.__dict__)
        for k in ('logs', 'scheds', 'distinct'):
            d[k] = sorted(d[k])
        return d

    def merge(self, d):
        for k in ('runs', 'nontrivial', 'sim_ns', 'steps', 'events', 'switches'):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ('fired', 'probes', 'known'):
            mine = getattr(self, k)
            for n, v in d[k].items():
                mine[n] = mine.get(n, 0) + v
        for k in ('logs', 'scheds', 'distinct'):
            getattr(self, k).update(d[k])
        self.samples = (self.samples + d['samples'])[:3]


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """
    Lines: known: property=<id> class=<violation class> match=<part of the message> -- <what fails>
    """
    out = []
    with open(os.path.join(VERIF, 'known_findings.txt')) as fp:
        for line in fp:
            line = line.strip()
            if not line.startswith('known:'):
                continue
            head, _, what = line.partition(' -- ')
            d = dict(x.split('=', 1) for x in head.split()[1:])
            if d.get('property') == prop:
                out.append((d.get('class'), d.get('match', ''), what))
    return out


def is_known(known, viol):
    for cls, match, what in known:
        if cls == viol['cls'] and match.replace('%20', ' ') in viol['msg']:
            return what
    return None


# ---------------------------------------------------------------- workers

def worker(mod, seed, tier, w, n_workers, n_runs, deadline, known, out, stop_r, first=0):
    stats = Stats()
    scratch = os.path.join(SCRATCH_ROOT, 'verif-sim-%d' % os.getpid(), 'fs')
    viols = []
    harness = None
    try:
        for i in range(first + w, first + n_runs, n_workers):
            if now() > deadline:
                break
            if select.select([stop_r], [], [], 0)[0]:
                break
            plan = plan_for(mod, seed, i, tier)
            res = judged_run(mod, plan, scratch)
            if res.get('harness'):
                harness = 'index %d: %s' % (i, res['harness'])
                break
            if res['viol']:
                what = is_known(known, res['viol'])
                if what:
                    stats.known[what] = stats.known.get(what, 0) + 1
                    stats.add(res, plan)
                    continue
                viols.append((i, res['viol']))
                stats.add(res, plan)
                break
            stats.add(res, plan)
    except BaseException:
        harness = traceback.format_exc()
    data = json.dumps({'stats': stats.dump(), 'viols': viols, 'harness': harness}).encode()
    os.write(out, len(data).to_bytes(8, 'big'))
    while data:
        data = data[os.write(out, data):]


def campaign(mod, seed, tier, n_runs, deadline, known, n_workers, first=0):
    workers = []
    stop_r, stop_w = os.pipe()
    for w in range(n_workers):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.close(stop_w)
                worker(mod, seed, tier, w, n_workers, n_runs, deadline, known, wr, stop_r, first)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                try:
                    d = os.path.join(SCRATCH_ROOT, 'verif-sim-%d' % os.getpid())
                    os.chdir('/')
                    if os.path.isdir(d):
                        vfs.R['rmtree'](d)
                except OSError:
                    pass
                os._exit(code)
        os.close(wr)
        workers.append((pid, r))
    stats = Stats()
    viols, harness = [], []
    pending = {r: [pid, b''] for pid, r in workers}
    stopped = False
    while pending:
        rd, _, _ = select.select(list(pending), [], [], 5)
        for r in rd:
            d = os.read(r, 1 << 16)
            if d:
                pending[r][1] += d
                continue
            pid, buf = pending.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                msg = json.loads(buf[8:])
            except ValueError:
                harness.append('worker %d gave no result' % pid)
                continue
            stats.merge(msg['stats'])
            viols.extend(msg['viols'])
            if msg['harness']:
                harness.append(msg['harness'])
            if (viols or harness) and not stopped:
                os.write(stop_w, b'x')
                stopped = True
    os.close(stop_r)
    os.close(stop_w)
    return stats, sorted(viols, key=lambda v: v[0]), harness


# ---------------------------------------------------------------- shrinking

def lists_of(mod, plan):
    for path in getattr(mod, 'SHRINK', ('preempt', 'faults', 'tasks/*')):
        if path.endswith('/*'):
            base = plan.get(path[:-2]) or {}
            keys = base.keys() if isinstance(base, dict) else range(len(base))
            for k in keys:
                if isinstance(base[k], list):
                    yield (path[:-2], k)
        elif isinstance(plan.get(path), list):
            yield (path,)


def get_list(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def with_list(plan, path, new):
    p = copy.deepcopy(plan)
    d = p
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = new
    return p


def shrink(mod, plan, cls, scratch, deadline):
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        res = fork_run(mod, p, scratch, 10)
        return res.get('viol') is not None and res['viol']['cls'] == cls

    if cls == 'hang':
        return plan, 0
    if plan.get('walk'):
        walked = fork_run(mod, plan, scratch).get('walked', [])
        listed = copy.deepcopy(plan)
        del listed['walk']
        listed['preempt'] = listed.get('preempt', []) + walked
        if fails(listed):
            plan = listed
    changed = True
    while changed and now() < deadline:
        changed = False
        for path in list(lists_of(mod, plan)):
            n = max(len(get_list(plan, path)) // 2, 1)
            while n >= 1 and now() < deadline:
                i = 0
                while i < len(get_list(plan, path)) and now() < deadline:
                    cur = get_list(plan, path)
                    cand = with_list(plan, path, cur[:i] + cur[i + n:])
                    if fails(cand):
                        plan = cand
                        changed = True
                    else:
                        i += n
                n //= 2
        for cand in getattr(mod, 'simplify', lambda p: ())(plan):
            if now() > deadline:
                break
            if cand != plan and fails(cand):
                plan = cand
                changed = True
                break
    return plan, tried


# ---------------------------------------------------------------- main

def load(prop):
    return importlib.import_module('checks.%s' % prop.lower())


def replay(prop, path, quiet=False):
    mod = load(prop)
    with open(path) as fp:
        rec = json.load(fp)
    scratch = os.path.join(SCRATCH_ROOT, 'verif-sim-%d' % os.getpid(), 'fs')
    plan = rec['plan']
    res = judged_run(mod, plan, scratch)
    d = os.path.dirname(scratch)
    remove(d)
    return rec, res


def fresh_replay(prop, path):
    """Replay in a new interpreter"""
    import subprocess
    env = dict(os.environ)
    env.pop('VERIF_BOOTED', None)
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), prop, '--replay', path,
                            '--json'], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        return json.loads(p.stdout.decode().strip().splitlines()[-1])
    except (ValueError, IndexError, subprocess.TimeoutExpired) as err:
        return {'error': repr(err)}


def main(prop, tier, seed):
    t0 = now()
    mod = load(prop)
    known = known_findings(prop)
    n_runs = mod.RUNS[tier]
    n_workers = int(os.environ.get('VERIF_WORKERS', '0')) or min(os.cpu_count() or 1, 8)
    # where a batch has to end even if all the runs haven't been made
    budget = getattr(mod, 'BUDGET', {'quick': 240, 'thorough': 3600})[tier]
    min_runs = max(n_runs // 10, 1)
    print('seed %d, %s tier, %d runs, %d workers' % (seed, tier, n_runs, n_workers))
    sys.stdout.flush()
    stats, viols, harness = campaign(mod, seed, tier, n_runs, t0 + budget, known, n_workers)
    wall = now() - t0

    rc = 0
    messages = []
    replay_info = None
    if viols:
        index, viol = viols[0]
        scratch = os.path.join(SCRATCH_ROOT, 'verif-sim-%d' % os.getpid(), 'fs')
        plan0 = plan_for(mod, seed, index, tier)
        rep_dir = os.path.join(VERIF, 'replays')
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, '%s-%s-%s.json' % (prop, seed, index))
        small, tried = shrink(mod, plan0, viol['cls'], scratch,
                              now() + float(os.environ.get('VERIF_SHRINK', '60')))
        confirmed = None
        for plan in (small, plan0):
            res = judged_run(mod, plan, scratch)
            if not res.get('viol'):
                continue
            rec = {'property': prop, 'seed': seed, 'index': index, 'class': res['viol']['cls'],
                   'message': res['viol']['msg'], 'info': res['viol'].get('info'),
                   'log': res.get('log'), 'plan': plan}
            with open(path, 'w') as fp:
                json.dump(rec, fp, indent=1)
                fp.write('\n')
            again = fresh_replay(prop, path)
            if again.get('class') == rec['class'] and again.get('log') == rec['log']:
                confirmed = rec
                break
            messages.append('replay differs: %s' % again)
        d = os.path.dirname(scratch)
        if os.path.isdir(d):
            vfs.R['rmtree'](d)
        if confirmed is None:
            harness.append('violation at index %d (%s: %s) can not be replayed: %s' % (
                index, viol['cls'], viol['msg'], messages))
            rc = 2
        else:
            rc = 1
            print('seed %d index %d: %s: %s' % (seed, index, confirmed['class'], confirmed['message']))
            print('minimised in %d runs' % tried)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            replay_info = path
    if harness and rc != 1:
        rc = 2
    probes_wanted = getattr(mod, 'PROBES', ())
    missing = [p for p in probes_wanted if not (stats.probes.get(p) or stats.fired.get(p))]
    if rc == 0 and stats.runs < min_runs:
        rc = 2
        harness.append('only %d of %d runs within the time' % (stats.runs, n_runs))
    for h in harness:
        print('HARNESS: %s' % h)
    for what, n in sorted(stats.known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if missing and rc == 0:
        print('note: never reached in this run: %s' % ', '.join(missing))

    cov = {
        'evaluations': stats.runs,
        'distinct_nontrivial': len(stats.distinct),
        'rule': mod.RULE,
        'samples': stats.samples,
        'seeds': '%d indexes of VERIF_SEED=%d' % (stats.runs, seed),
        'runs_per_hour': int(stats.runs / max(wall, 1e-9) * 3600),
        'simulated_seconds': round(stats.sim_ns / 1e9, 3),
        'intercepted_calls': stats.steps,
        'events': stats.events,
        'distinct_event_logs': len(stats.logs),
        'task_switches': stats.switches,
        'distinct_interleavings': len(stats.scheds),
        'interleaving_measure': 'sequence of (task, operation, call index, successor) at every switch',
        'faults_injected': dict(sorted(stats.fired.items())),
        'probes': dict(sorted(stats.probes.items())),
        'probes_never_reached': missing,
        'real_components': mod.REAL,
        'stubbed_components': mod.STUBS,
    }
    if replay_info:
        cov['replay'] = replay_info
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
          'wall_s': round(wall, 3), 'violations': 1 if rc == 1 else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as fp:
        json.dump(ev, fp, indent=1)
        fp.write('\n')
    os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % prop))
    print('%s: %d runs, %d distinct non-trivial, %.1f s, %s' % (
        prop, stats.runs, len(stats.distinct), wall,
        {0: 'held', 1: 'VIOLATED', 2: 'NO ANSWER'}[rc]))
    return rc
