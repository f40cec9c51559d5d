"""Core of the deterministic simulator: one seed decides every choice.

A *job* is one design configuration (generated through veriloggen's public
API, compiled once) together with a list of *runs*.  A run is a plain JSON
object: the operations the simulated clients perform plus the explicit list of
schedule/fault events.  Executing (cfg, run) is a pure function of the code in
/repo and of that JSON object; no PRNG is consulted while a run executes.
"""
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DST_REPO', '/repo')

CPU_LIMIT = 60      # seconds of CPU one simulated run may burn (typical: 0.1)


class HarnessError(Exception):
    """The machinery itself failed: never reported as a violation."""


class SimHang(Exception):
    """Simulated time stopped advancing (CPU limit reached)."""


def rng_for(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).hexdigest()
    return random.Random(int(h, 16))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]


# ----------------------------------------------------------------------------
# schedule = list of fault events
#   {"k": kind, "bit": n, "at": cycle, "n": length}
# expanded to one hex word per cycle that the test bench reads.
# ----------------------------------------------------------------------------

def expand_schedule(events, length):
    words = [0] * length
    for e in events:
        m = 1 << e['bit']
        for t in range(e['at'], min(length, e['at'] + e['n'])):
            words[t] |= m
    return words


def write_hex(path, words, width=None):
    with open(path, 'w') as f:
        for w in words:
            f.write('%x\n' % (w & ((1 << width) - 1) if width else w))


def gen_stalls(rng, chans, horizon, intensity=None):
    """Swarm-style stall generation.

    chans: list of (kind, bit). A random subset of channels is enabled, each
    with its own pattern (sparse hits, long bursts, periodic, clustered).
    """
    events = []
    for kind, bit in chans:
        if rng.random() < 0.3:
            continue
        mode = rng.choice(['sparse', 'burst', 'periodic', 'dense', 'flip', 'early'])
        if mode == 'sparse':
            n = rng.randint(1, 12)
            for _ in range(n):
                events.append({'k': kind, 'bit': bit, 'at': rng.randrange(horizon),
                               'n': rng.randint(1, 3)})
        elif mode == 'burst':
            for _ in range(rng.randint(1, 4)):
                events.append({'k': kind, 'bit': bit, 'at': rng.randrange(horizon),
                               'n': rng.randint(8, max(9, horizon // 12))})
        elif mode == 'periodic':
            period = rng.randint(2, 9)
            duty = rng.randint(1, period - 1)
            start = rng.randrange(period)
            t = start
            while t < horizon:
                events.append({'k': kind, 'bit': bit, 'at': t, 'n': duty})
                t += period
        elif mode == 'dense':
            t = rng.randint(0, 6)
            while t < horizon:
                n = rng.randint(1, 9)
                events.append({'k': kind, 'bit': bit, 'at': t, 'n': n})
                t += n + rng.randint(1, 5)
        elif mode == 'flip':
            t = rng.randint(0, 3)
            while t < horizon:
                n = rng.choice([1, 1, 1, 2])
                events.append({'k': kind, 'bit': bit, 'at': t, 'n': n})
                t += n + rng.choice([1, 1, 1, 2, 3])
        else:
            t = 0
            lim = rng.randint(horizon // 8, horizon // 2)
            while t < lim:
                n = rng.randint(1, 14)
                events.append({'k': kind, 'bit': bit, 'at': t, 'n': n})
                t += n + rng.randint(1, 7)
    return events


# ----------------------------------------------------------------------------
# running tools
# ----------------------------------------------------------------------------

def _limits():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))


CLEAN_PATH = '/usr/local/bin:/usr/bin:/bin'


def tool_env():
    return {'PATH': CLEAN_PATH, 'LC_ALL': 'C', 'TMPDIR': os.environ.get('DST_SCRATCH', '/tmp')}


class CompileError(Exception):
    pass


def iverilog(files, out, cwd, top='tb'):
    p = subprocess.run(['/usr/bin/iverilog', '-g2012', '-s', top, '-o', out] + files,
                       cwd=cwd, env=tool_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, preexec_fn=_limits)
    txt = p.stdout.decode(errors='replace')
    if p.returncode != 0:
        raise CompileError(txt[-2000:])
    return txt


def vvp(vvpfile, cwd, args=()):
    out = os.path.join(cwd, 'log.txt')
    with open(out, 'wb') as f:
        p = subprocess.Popen(['/usr/bin/vvp', '-n', vvpfile] + list(args), cwd=cwd,
                             env=tool_env(), stdin=subprocess.DEVNULL, stdout=f,
                             stderr=subprocess.STDOUT, preexec_fn=_limits)
        try:
            rc = p.wait(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise HarnessError('vvp wall timeout')
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        raise SimHang('simulated time stopped advancing (CPU limit, rc=%d)' % rc)
    with open(out, 'rb') as f:
        txt = f.read().decode(errors='replace')
    os.unlink(out)
    if rc != 0:
        raise CompileError('vvp exit status %d: %s' % (rc, txt[-1500:]))
    return txt


# ----------------------------------------------------------------------------
# violations
# ----------------------------------------------------------------------------

def V(vclass, msg, **kw):
    d = {'class': vclass, 'msg': msg}
    d.update(kw)
    return d


def repo_exception(e):
    """True if the traceback ends inside the code under test."""
    tb = traceback.extract_tb(e.__traceback__)
    return any(f.filename.startswith(REPO + '/veriloggen') for f in tb)


# ----------------------------------------------------------------------------
# shuffle of the concurrent processes of a Verilog text
# ----------------------------------------------------------------------------

def split_items(text):
    """Split generated Verilog into modules; each module into top level items.

    Only used to permute concurrent processes (always / assign / initial /
    instance); anything not recognised stays where it is.
    """
    import re
    out = []
    cur = []
    depth = 0
    for line in text.split('\n'):
        cur.append(line)
        toks = re.findall(r'\b(begin|end|case|casex|casez|endcase|function|endfunction|task|endtask|'
                          r'generate|endgenerate|fork|join)\b', re.sub(r'"[^"]*"|//.*', '', line))
        for t in toks:
            if t in ('begin', 'case', 'casex', 'casez', 'function', 'task', 'generate', 'fork'):
                depth += 1
            else:
                depth -= 1
        s = re.sub(r'//.*', '', line).rstrip()
        if depth == 0 and (s.endswith(';') or s.endswith('end') or s.endswith('endmodule') or
                           s.endswith('endfunction') or s.endswith('endtask') or s.endswith('endgenerate')):
            out.append('\n'.join(cur))
            cur = []
    if cur:
        out.append('\n'.join(cur))
    return out


def shuffle_processes(text, rng):
    """Permute processes: declarations keep their order and come first."""
    import re
    items = split_items(text)
    res = []
    movable = []
    n = 0
    for it in items:
        s = it.strip()
        first = re.sub(r'^(\s*//.*\n)*\s*', '', it).lstrip()
        if first.startswith('endmodule'):
            rng.shuffle(movable)
            res.extend(movable)
            movable = []
            res.append(it)
        elif re.match(r'(always|assign|initial)\b', first) or re.match(r'[A-Za-z_]\w*\s*(#\s*\(|\n)', first):
            movable.append(it)
            n += 1
        else:
            res.append(it)
    res.extend(movable)
    return '\n'.join(res), n


def make_job(F, fam, cfg, rngs, style):
    """Runs for one design.  With style['lin'] the operations become part of the
    design (straight-line thread code) and the runs differ in their schedules."""
    if not style.get('lin'):
        return {'fam': fam, 'cfg': cfg, 'runs': [F.gen_run(cfg, r, style) for r in rngs]}
    runs = [F.gen_run(cfg, r, style) for r in rngs]
    ok = getattr(F, 'lin_ok', lambda cfg, run: True)
    good = [r for r in runs if r['ops'] and ok(cfg, r)]
    if not good:
        return {'fam': fam, 'cfg': cfg, 'runs': runs}
    r0 = good[0]
    runs = [dict(r0, **{k: r[k] for k in getattr(F, 'LIN_VARY', ('sched', 'mode', 'salt')) if k in r}) for r in runs]
    return {'fam': fam, 'cfg': dict(cfg, prog=r0['ops']), 'runs': runs}


# ----------------------------------------------------------------------------
# job execution
# ----------------------------------------------------------------------------

class Sim:
    """A compiled design, able to execute runs."""

    def __init__(self, fam, cfg, wd):
        self.fam = fam
        self.cfg = cfg
        self.wd = wd
        self.k = 0
        os.makedirs(wd, exist_ok=True)
        self.build_violation = None
        old = os.getcwd()
        os.chdir(wd)
        try:
            try:
                src = fam.build(cfg)
            except Exception as e:
                if repo_exception(e):
                    self.build_violation = V('generation-failed', '%s: %s' % (
                        type(e).__name__, str(e)[:300]))
                    return
                raise
            if cfg.get('_shuffle'):
                src, _ = shuffle_processes(src, rng_for('shuffle', cfg['_shuffle']))
            with open('dut.v', 'w') as f:
                f.write(src)
            with open('tb.v', 'w') as f:
                f.write(fam.tb(cfg))
            try:
                self.compile_log = iverilog(['tb.v', 'dut.v'], 'sim.vvp', wd)
            except CompileError as e:
                self.build_violation = V('generation-invalid', 'iverilog rejects the design: %s' % e)
                return
        finally:
            os.chdir(old)

    def execute(self, run):
        """-> (violations, stats)"""
        if self.build_violation:
            return [self.build_violation], {}
        self.k += 1
        rd = os.path.join(self.wd, 'r%d' % self.k)
        os.makedirs(rd)
        try:
            self.fam.files(self.cfg, run, rd)
            try:
                log = vvp(os.path.join(self.wd, 'sim.vvp'), rd)
            except SimHang as e:
                return [V('sim-hang', str(e))], {}
            except CompileError as e:
                return [V('sim-crash', str(e))], {}
            return self.fam.check(self.cfg, run, log)
        finally:
            shutil.rmtree(rd)


def load_family(name):
    return importlib.import_module('dst.fam.' + name)


def make_sim(job, wd):
    fam = load_family(job['fam'])
    if hasattr(fam, 'make_sim'):
        return fam.make_sim(job['cfg'], wd)
    return Sim(fam, job['cfg'], wd)


def filter_v(viols, prop):
    fin = []
    for v in viols:
        if prop is not None and 'props' in v and prop not in v['props']:
            continue
        fin.append(v)
    return fin


def run_job(prop, job, wd):
    """Executed in a forked child. Returns a JSON-able result."""
    t0 = time.time()
    sim = make_sim(job, wd)
    res = {'runs': 0, 'cycles': 0, 'faults': {}, 'probes': {}, 'keys': [], 'nontrivial': [],
           'samples': [], 'viol': None, 'notes': {}, 'logh': []}
    for run in job['runs']:
        viols, st = sim.execute(run)
        viols = filter_v(viols, prop)
        res['runs'] += 1
        res['cycles'] += st.get('cycles', 0)
        for k, n in st.get('faults', {}).items():
            res['faults'][k] = res['faults'].get(k, 0) + n
        for k, n in st.get('probes', {}).items():
            res['probes'][k] = res['probes'].get(k, 0) + n
        key = st.get('key')
        if key is not None:
            res['keys'].append(key)
            if st.get('nontrivial'):
                res['nontrivial'].append(key)
        res['logh'].append(st.get('logh'))
        if not res['samples'] and key is not None:
            res['samples'].append({'cfg': job['cfg'], 'run': brief(run),
                                   'outcome': {k: st[k] for k in ('cycles', 'probes') if k in st}})
        if viols:
            v = viols[0]
            # keep the faulting scenario, minimise in place
            mrun, trials = minimise(sim, prop, run, v['class'])
            mv = filter_v(sim.execute(mrun)[0], prop)
            mv = [x for x in mv if x['class'] == v['class']] or [v]
            res['viol'] = {'fam': job['fam'], 'cfg': job['cfg'], 'run': mrun, 'orig_run': run,
                           'class': v['class'], 'msg': mv[0]['msg'], 'trials': trials,
                           'job': job.get('idx')}
            break
    res['wall'] = time.time() - t0
    return res


def brief(run):
    r = dict(run)
    if 'sched' in r and len(r['sched']) > 12:
        r['sched'] = r['sched'][:12] + ['... %d events in total' % len(run['sched'])]
    if 'ops' in r and isinstance(r['ops'], list) and len(r['ops']) > 12:
        r['ops'] = r['ops'][:12] + ['... %d ops in total' % len(run['ops'])]
    return r


def ddmin(items, test, over):
    """Classic delta debugging; test(list) -> bool (still fails)."""
    if items and not over() and test([]):
        return []
    n = 2
    while len(items) > 1 and not over():
        size = max(1, (len(items) + n - 1) // n)
        reduced = False
        i = 0
        while i < len(items) and not over():
            cand = items[:i] + items[i + size:]
            if cand and test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if reduced:
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items


def minimise(sim, prop, run, vclass, budget=150, tlimit=45):
    """Shrink the schedule and the operations while the violation class persists."""
    if getattr(sim, 'build_violation', None):
        return run, 0
    trials = [0]
    t0 = time.time()

    def fails(r):
        trials[0] += 1
        try:
            vs = filter_v(sim.execute(r)[0], prop)
        except HarnessError:
            return False
        return any(v['class'] == vclass for v in vs)

    def over():
        return trials[0] >= budget or time.time() - t0 > tlimit

    fam = sim.fam
    cur = run
    for rnd in range(2):
        prog = isinstance(sim.cfg, dict) and sim.cfg.get('prog')
        for f in ('sched',) if prog else getattr(fam, 'MINIMISE', ('sched', 'ops')):
            if not isinstance(cur.get(f), list) or not cur[f]:
                continue
            base = cur

            def mk(items, f=f, base=base):
                r = dict(base)
                r[f] = items
                return fam.normalise(sim.cfg, r) if hasattr(fam, 'normalise') and not prog else r

            def test(items):
                r = mk(items)
                return r is not None and fails(r)

            items = ddmin(list(cur[f]), test, over)
            if items != cur[f]:
                cur = mk(items)
        if over():
            break
    return cur, trials[0]


# ----------------------------------------------------------------------------
# fork pool: every job runs in its own forked child (clean process history)
# ----------------------------------------------------------------------------

def fork_map(fn, items, nproc, scratch):
    """Deterministic: result i depends only on item i."""
    results = [None] * len(items)
    running = {}
    nxt = 0
    while nxt < len(items) or running:
        while nxt < len(items) and len(running) < nproc:
            i = nxt
            nxt += 1
            outp = os.path.join(scratch, 'res%d.json' % i)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    sys.setrecursionlimit(20000)
                    wd = os.path.join(scratch, 'j%d' % i)
                    os.makedirs(wd)
                    # the code under test may print while generating
                    fd = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(fd, 1)
                    try:
                        r = {'ok': fn(items[i], wd)}
                    except BaseException as e:
                        r = {'err': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}
                    with open(outp, 'w') as f:
                        json.dump(r, f)
                    shutil.rmtree(wd, ignore_errors=True)
                except BaseException:
                    code = 3
                os._exit(code)
            running[pid] = i
        pid, st = os.wait()
        if pid not in running:
            continue
        i = running.pop(pid)
        outp = os.path.join(scratch, 'res%d.json' % i)
        try:
            with open(outp) as f:
                results[i] = json.load(f)
            os.unlink(outp)
        except Exception as e:
            results[i] = {'err': 'worker %d died, status %d (%s)' % (i, st, e)}
    return results
