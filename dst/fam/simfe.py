"""Simulation front end (veriloggen/simulation): the real Python code runs against
stand-in tools whose every step, and the interleaving of overlapping runs, is decided
by the schedule of the run.

One client thread executes at a time.  A client stops at every source line of the
front end and whenever it waits for a tool; the schedule picks who goes on.
"""
import errno
import gc
import marshal
import os
import queue
import random
import re
import resource
import shutil
import socket
import subprocess
import sys
import tempfile
import threading
import types

from .. import core
from ..core import V

MINIMISE = ('sched', 'ops')
HANG = 60.0
TOOLS = ['iverilog', 'vvp', 'vcs', 'vlib', 'vmap', 'vlog', 'vsim', 'verilator', 'make', 'gtkwave']
FAKE = os.path.join(core.HERE, 'tools', 'faketool')
STAGES = {'iverilog': ['iverilog', 'vvp'], 'vcs': ['vcs', 'simv'], 'modelsim': ['vlib', 'vmap', 'vlog', 'vsim'],
          'verilator': ['verilator', 'make', 'Vout'], 'view': ['gtkwave']}
IGNORED = ('vlib', 'vmap')


def enc(s):
    return s.encode('latin-1')


# ----------------------------------------------------------------------------
# generation
# ----------------------------------------------------------------------------

NAMES = ['plain', 'with space', "quo'te", 'd$HOME', 'semi;colon', 'amp&x', 'b(1)', 'star*', 'dq"x']
CHUNKS = ['', 'hello\n', 'a line\r\n', 'no newline', 'x' * 200000 + '\n', 'caf\xc3\xa9\n', 'bad \xff\xfe byte\n', '\xe3\x81', '\x00nul\n', '\n\n\n', 'LAST 1\n', '%d %s\n']


def gen_cfg(rng, i=0, style={}):
    return {'cwd': rng.choice(NAMES[:1] * 3 + NAMES), 'tmp': rng.choice(NAMES[:1] * 3 + NAMES), 'tiny': rng.random() < 0.4}


def gen_stage(rng, tool, pf):
    s = {'o': [rng.choice(CHUNKS) for _ in range(rng.choice([0, 1, 1, 2, 4]))]}
    if rng.random() < 0.25:
        s['e'] = [rng.choice(CHUNKS)]
    if rng.random() < pf:
        k = rng.choice(['rc', 'rc', 'sig', 'nofile', 'unlink'])
        if k == 'rc':
            s['rc'] = rng.choice([1, 1, 2, 126, 127, 255])
        elif k == 'sig':
            s['sig'] = rng.choice([9, 11, 15, 6, 13])
        elif tool in ('iverilog', 'vcs', 'make'):
            s[k] = 1
            if tool == 'iverilog':
                s['rc'] = 1
    return s


def gen_arg(rng, kind):
    r = rng.random()
    if r < 0.45:
        return None

    def one():
        if kind == 'define':
            n = rng.choice(['A', 'WIDTH', 'SIM_1'])
            v = rng.choice([None, 1, 32, 'x y', '"str"', "8'hff", '$x', 'a;b', 'a\\b'])
            return rng.choice([[n, v], n, n + '=5', n + '=p q'])
        return rng.choice(['inc', '/abs/dir', 'my dir', './a;b', "o'k", 'd$X', '../up'])
    if r < 0.6:
        x = one()
        while not isinstance(x, str):
            x = one()
        return x
    return [one() for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def gen_op(rng, c, cfg, pf):
    sim = rng.choice(['iverilog'] * 5 + ['verilator'] * 3 + ['vcs', 'modelsim', 'view'])
    op = {'c': c, 'sim': sim, 'st': [gen_stage(rng, t, pf) for t in STAGES[sim]]}
    if sim == 'view':
        op['api'] = rng.choice(['fn', 'class'])
        op['file'] = rng.choice(['uut.vcd', 'my wave.vcd', "it's.vcd", 'a$b.vcd'])
        return op
    op.update(api=rng.choice(['fn', 'class', 'class']), display=rng.random() < 0.4,
              objs=rng.choice(['one', 'one', 'two', 'strfirst', 'other']), top=rng.choice([None, 'str', 'mod']),
              out=rng.choice([None, None, 'rel', 'space', 'abs', 'stale']),
              include=gen_arg(rng, 'include'), define=gen_arg(rng, 'define'), libdir=gen_arg(rng, 'libdir'),
              prefault=rng.random() < 0)
    del op['prefault']
    if op['objs'] in ('strfirst', 'other') and op['top'] is None:
        op['top'] = 'str'
    if sim == 'vcs':
        op['full64'] = rng.random() < 0.5
        op['notc'] = rng.random() < 0.5
    if sim == 'verilator':
        op['sim_time'] = rng.choice([0, 0, 1000, 123456])
        op['options'] = rng.choice([None, None, '-O3', '-O3 -Wno-fatal', ['-O3', '-Wno-fatal'], ['--threads 2']])
    return op


def gen_run(cfg, rng, style={}):
    nc = rng.choice([1, 1, 2, 3])
    pf = rng.choice([0, 0.15, 0.4])
    ops = []
    for c in range(nc):
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append(gen_op(rng, c, cfg, pf))
    run = {'ops': ops, 'seed': rng.getrandbits(16)}
    n = rng.choice([0, 20, 100, 300, 600]) if nc > 1 else 0
    p = rng.choice([0.05, 0.3, 0.8])
    run['sched'] = [rng.randrange(1, 7) if rng.random() < p else 0 for _ in range(n)]
    r = rng.random()
    if r < 0.12:
        run['missing'] = rng.choice(TOOLS[:9])
    elif r < 0.18:
        run['noexec'] = rng.choice(TOOLS[:9])
    elif r < 0.3 and nc == 1:
        run['fsize'] = rng.choice([0, 1, 80])
    return run


# ----------------------------------------------------------------------------
# the system under test
# ----------------------------------------------------------------------------

def make_objs(op):
    import veriloggen as vg
    from veriloggen import simulation
    leaf = vg.Module('leaf')
    leaf.Input('CLK')
    o = leaf.OutputReg('o', 8, initval=0)

    def mk(name, dump):
        m = vg.Module(name)
        clk = m.Reg('CLK')
        rst = m.Reg('RST')
        w = m.Wire('w', 8)
        m.Instance(leaf, 'u', ports=[('CLK', clk), ('o', w)])
        if dump:
            simulation.setup_waveform(m, dumpfile='d.vcd')
        simulation.setup_clock(m, clk, hperiod=5)
        init = simulation.setup_reset(m, rst, period=100)
        init.add(vg.Delay(1000), vg.Systask('finish'))
        return m
    tb = mk('tb', True)
    oth = mk('oth', False)
    return {'tb': tb, 'oth': oth, 'text': '// caf\xe9 extra text\nmodule extra(input a); endmodule'}


def objs_of(op, mods):
    k = op['objs']
    if k == 'one':
        return [mods['tb']]
    if k == 'two':
        return [mods['tb'], mods['text']]
    if k == 'strfirst':
        return [mods['text'], mods['tb']]
    return [mods['oth'], mods['tb']]


def deftext(d):
    if isinstance(d, str):
        return d
    return d[0] if d[1] is None else '%s=%s' % (d[0], d[1])


def aslist(v):
    return [] if v is None else [v] if isinstance(v, str) else list(v)


def call(op, mods, outp):
    from veriloggen import simulation
    if op['sim'] == 'view':
        if op['api'] == 'fn':
            return simulation.view_waveform_gtkwave(op['file'])
        return simulation.Simulator(mods['tb']).view_waveform(op['file'])
    objs = objs_of(op, mods)
    kw = {}
    for k in ('include', 'define', 'libdir'):
        v = op[k]
        if v is not None:
            kw[k] = v if isinstance(v, str) else [tuple(x) if isinstance(x, list) else x for x in v]
    if op['top']:
        kw['top'] = 'tb' if op['top'] == 'str' else mods['tb']
    if outp is not None:
        kw['outputfile'] = outp
    sim = op['sim']
    if sim == 'verilator':
        kw['sim_time'] = op['sim_time']
        if op['options'] is not None:
            kw['options'] = op['options']
    if op['api'] == 'class':
        ck = {'sim': sim}
        if sim == 'vcs':
            ck.update(full64=op['full64'], notimingcheck=op['notc'])
        return simulation.Simulator(*objs, **ck).run(display=op['display'], **kw)
    if sim == 'vcs':
        kw.update(full64=op['full64'], notimingcheck=op['notc'])
    fn = {'iverilog': simulation.run_iverilog, 'vcs': simulation.run_vcs, 'modelsim': simulation.run_modelsim,
          'verilator': simulation.run_verilator}[sim]
    return fn(objs[0] if len(objs) == 1 else objs, display=op['display'], **kw)


# ----------------------------------------------------------------------------
# controller
# ----------------------------------------------------------------------------

class Hang(Exception):
    pass


class ThreadOut:
    def __init__(self, ctl):
        self.ctl = ctl

    def write(self, s):
        c = getattr(self.ctl.tl, 'client', None)
        if c is not None:
            self.ctl.shown[c].append(s)
        return len(s)

    def flush(self):
        pass


class Ctl:
    def __init__(self, run):
        self.run = run
        self.tl = threading.local()
        self.q = queue.Queue()
        self.sem = {}
        self.shown = {}
        self.k = 0

    # ---- client side -------------------------------------------------------
    def point(self):
        if getattr(self.tl, 'alive', 0):
            return
        c = self.tl.client
        self.q.put(('point', c))
        self.sem[c].acquire()

    def line(self, code, lineno):
        if getattr(self.tl, 'on', False):
            self.point()

    def instrument(self, on):
        """A client stops at every source line of the front end."""
        mon = sys.monitoring
        if not on:
            mon.free_tool_id(mon.DEBUGGER_ID)
            return
        mon.use_tool_id(mon.DEBUGGER_ID, 'dst')
        mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, self.line)
        seen = set()
        todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType) and '/veriloggen/simulation/' in f.__code__.co_filename]
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            mon.set_local_events(mon.DEBUGGER_ID, c, mon.events.LINE)
            todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]

    def body(self, c, fn):
        self.tl.client = c
        self.tl.alive = 0
        self.sem[c].acquire()
        try:
            fn(c)
        finally:
            self.tl.on = False
            self.q.put(('done', c))

    def event(self):
        try:
            return self.q.get(timeout=HANG)
        except queue.Empty:
            raise Hang('the front end neither finishes nor starts a tool')


class Tool:
    def __init__(self, conn):
        self.s = conn
        self.s.settimeout(HANG)
        self.hello = self.recv()
        self.cmds = []

    def recv(self):
        n = self.recvn(4)
        return marshal.loads(self.recvn(int.from_bytes(n, 'big')))

    def recvn(self, n):
        b = b''
        while len(b) < n:
            x = self.s.recv(n - len(b))
            if not x:
                raise EOFError
            b += x
        return b

    def step(self):
        c = self.cmds.pop(0)
        try:
            b = marshal.dumps(c)
            self.s.sendall(len(b).to_bytes(4, 'big') + b)
            self.recv()
            return True
        except (socket.timeout, TimeoutError):
            raise Hang('the front end does not read the output of a tool (%s %s)' % (self.hello['name'], c['k']))
        except (OSError, EOFError):
            self.cmds = []
            return False

    def close(self):
        self.s.close()


class FeSim:
    def __init__(self, fam, cfg, wd):
        self.fam = fam
        self.cfg = cfg
        self.wd = wd
        self.build_violation = None
        self.n = 0
        os.makedirs(wd, exist_ok=True)

    def execute(self, run):
        self.n += 1
        rd = os.path.join(self.wd, 'r%d' % self.n)
        os.makedirs(rd)
        try:
            return Exec(self.cfg, run, rd).go()
        finally:
            shutil.rmtree(rd, ignore_errors=True)


def make_sim(cfg, wd):
    return FeSim(sys.modules[__name__], cfg, wd)


def decodings(b):
    r = []
    for e in ('replace', 'ignore', 'backslashreplace', 'surrogateescape'):
        r.append(b.decode('utf-8', e))
    r.append(b.decode('latin-1'))
    return r


def short(s):
    return s if len(s) < 160 else s[:70] + '...(%d)...' % len(s) + s[-60:]


class Exec:
    def __init__(self, cfg, run, rd):
        self.cfg, self.run, self.rd = cfg, run, rd
        self.viols = []
        self.faults = {}
        self.probes = {}
        self.log = []

    def v(self, cls, msg):
        self.viols.append(V(cls, msg))

    def fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    # -------------------------------------------------------------------
    def go(self):
        rd, run, cfg = self.rd, self.run, self.cfg
        cwd = os.path.join(rd, cfg['cwd'] + ' c' if ' ' in cfg['cwd'] else cfg['cwd'] + 'c')
        tmp = os.path.join(rd, cfg['tmp'] + 't')
        self.bin = os.path.join(rd, 'bin')
        for d in (cwd, tmp, self.bin):
            os.makedirs(d)
        for t in TOOLS:
            if t == run.get('missing'):
                continue
            if t == run.get('noexec'):
                shutil.copy(FAKE, os.path.join(self.bin, t))
                os.chmod(os.path.join(self.bin, t), 0o644)
                continue
            os.symlink(FAKE, os.path.join(self.bin, t))
        self.cwd, self.tmp = cwd, tmp
        old = {k: os.environ.get(k) for k in ('PATH', 'TMPDIR', 'DST_SOCK')}
        oldcwd = os.getcwd()
        oldtd, oldns = tempfile.tempdir, tempfile._name_sequence
        oldout = sys.stdout
        oldpopen = subprocess.Popen
        fd2 = os.dup(2)
        dn = os.open(os.devnull, os.O_WRONLY)
        lim = resource.getrlimit(resource.RLIMIT_FSIZE)
        lst = socket.socket(socket.AF_UNIX)
        sp = os.path.join(rd, 's')
        lst.bind(sp)
        lst.listen(16)
        self.ctl = ctl = Ctl(run)

        class P(oldpopen):
            def __init__(s, *a, **k):
                oldpopen.__init__(s, *a, **k)
                s._dst = getattr(ctl.tl, 'client', None) is not None
                if s._dst:
                    ctl.tl.alive += 1

            def _gone(s):
                if getattr(s, '_dst', False) and s.returncode is not None:
                    s._dst = False
                    ctl.tl.alive -= 1

            def wait(s, *a, **k):
                r = oldpopen.wait(s, *a, **k)
                s._gone()
                return r

            def poll(s, *a, **k):
                r = oldpopen.poll(s, *a, **k)
                s._gone()
                return r
        try:
            os.environ.update(PATH=self.bin, TMPDIR=tmp, DST_SOCK=sp)
            os.chdir(cwd)
            tempfile.tempdir = tmp
            rng = random.Random(run['seed'])
            tempfile._name_sequence = iter(lambda: ''.join(rng.choice('ab') for _ in range(3)) if cfg['tiny'] else '%08x' % rng.getrandbits(32), None)
            sys.stdout = ThreadOut(ctl)
            os.dup2(dn, 2)
            subprocess.Popen = P
            ctl.instrument(True)
            self.serve(lst)
        except Hang as e:
            self.v('front-end-hang', str(e))
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, lim)
            subprocess.Popen = oldpopen
            ctl.instrument(False)
            os.dup2(fd2, 2)
            os.close(fd2)
            os.close(dn)
            sys.stdout = oldout
            tempfile.tempdir, tempfile._name_sequence = oldtd, oldns
            os.chdir(oldcwd)
            for k, x in old.items():
                if x is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = x
            lst.close()
        st = {'cycles': len(self.log), 'faults': self.faults, 'probes': self.probes, 'key': core.digest(self.log),
              'nontrivial': bool(self.faults) or self.probes.get('switches', 0) > 3,
              'logh': core.digest([self.log, [v['class'] for v in self.viols]])}
        return self.viols, st

    # -------------------------------------------------------------------
    def serve(self, lst):
        run, ctl = self.run, self.ctl
        clients = sorted(set(o['c'] for o in run['ops']))
        self.res = {}
        self.mods = {}
        fds0 = set(os.listdir('/proc/self/fd'))
        for i, o in enumerate(run['ops']):
            o['_i'] = i
        self.cur = {}
        stop = []

        def acceptor():
            while True:
                try:
                    c, _ = lst.accept()
                except OSError:
                    return
                if stop:
                    c.close()
                    return
                ctl.q.put(('tool', c))
        acc = threading.Thread(target=acceptor, daemon=True)
        acc.start()
        threads = {}
        for c in clients:
            self.mods[c] = make_objs(None)
            ctl.sem[c] = threading.Semaphore(0)
            ctl.shown[c] = []
            threads[c] = threading.Thread(target=ctl.body, args=(c, self.client), daemon=True)
        before = self.listing()
        self.allowed = set()
        for c in clients:
            threads[c].start()
        if run.get('fsize') is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (run['fsize'], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        ready = [('go', c) for c in clients]
        tools = {}
        last = None
        k = 0
        while ready:
            x = run['sched'][k] if k < len(run['sched']) else 0
            k += 1
            same = [r for r in ready if r[1] == last]
            if x == 0 and same:
                pick = same[0]
            else:
                pick = ready[x % len(ready)]
            if last is not None and pick[1] != last and same:
                self.probe('switches')
            last = c = pick[1]
            ready.remove(pick)
            self.log.append([c, pick[0]])
            if pick[0] == 'go':
                ctl.sem[c].release()
            else:
                t = tools[c]
                if t.step():
                    ready.append(pick)
                    continue
                t.close()
                del tools[c]
            ev = ctl.event()
            if ev[0] == 'tool':
                t = Tool(ev[1])
                tools[c] = t
                self.tool(c, t)
                ready.append(('tool', c))
            elif ev[0] == 'point':
                if ev[1] != c:
                    raise core.HarnessError('two clients run at once')
                ready.append(('go', c))
            else:
                if ev[1] != c:
                    raise core.HarnessError('two clients run at once')
                threads[c].join()
        lim = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim[1], lim[1]))
        stop.append(1)
        s = socket.socket(socket.AF_UNIX)
        s.connect(os.environ['DST_SOCK'])
        acc.join()
        s.close()
        for op in run['ops']:
            self.judge(op)
        # nothing may remain
        self.mods = {}
        gc.collect()
        after = self.listing()
        left = sorted(p for p in after - before if not any(p == a or p.startswith(a + '/') for a in self.allowed))
        if left:
            self.v('files-left', 'files remain after all runs: %s' % [re.sub(r'_[^_/]*\.out', '_X.out', os.path.relpath(p, self.rd)) for p in left][:4])
        gone = before - after
        if gone:
            self.v('file-lost', 'files disappeared: %s' % sorted(gone)[:3])
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
            self.v('process-left', 'a child process was not waited for')
        except ChildProcessError:
            pass
        n = len(set(os.listdir('/proc/self/fd')) - fds0)
        if n > 0:
            self.v('descriptor-left', '%d file descriptors remain open' % n)

    def listing(self):
        r = set()
        for base in (self.cwd, self.tmp):
            for d, ds, fs in os.walk(base):
                for x in ds + fs:
                    r.add(os.path.join(d, x))
        return r

    def outpath(self, op):
        i = op['_i']
        if op.get('out') is None:
            return None
        return {'rel': 'out%d.x' % i, 'space': 'my out%d' % i, 'abs': os.path.join(self.cwd, 'abs%d' % i), 'stale': 'stale%d' % i}[op['out']]

    # ---- a client thread ------------------------------------------------
    def client(self, c):
        self.ctl.tl.on = True
        for op in self.run['ops']:
            if op['c'] != c:
                continue
            self.ctl.tl.on = False
            self.cur[c] = op
            r = self.res[op['_i']] = {'tools': [], 'show0': len(self.ctl.shown[c])}
            outp = self.outpath(op)
            if outp is not None:
                ap = os.path.join(self.cwd, outp)
                self.allowed.add(ap)
                if op['out'] == 'stale' and op['sim'] == 'iverilog' and self.run.get('fsize') is None:
                    with open(ap, 'w') as f:
                        f.write('STALE')
            if op['sim'] in ('iverilog', 'vcs', 'modelsim'):
                r['code'] = ''.join((o if isinstance(o, str) else o.to_verilog()) + '\n' for o in objs_of(op, self.mods[c]))
            self.ctl.tl.on = True
            try:
                r['ret'] = call(op, self.mods[c], outp)
            except Exception as e:
                self.ctl.tl.on = False
                r['exc'] = type(e).__name__
                r['msg'] = str(e)[:200]
                r['nf'] = isinstance(e, OSError) and e.errno in (errno.EFBIG, errno.ENOSPC)
                del e
            self.ctl.tl.on = False
            r['shown'] = ''.join(self.ctl.shown[c][r['show0']:])
            self.cur[c] = None
        self.ctl.tl.on = False

    # ---- a tool has started ---------------------------------------------
    def tool(self, c, t):
        op = self.cur[c]
        r = self.res[op['_i']]
        h = t.hello
        n = len(r['tools'])
        names = STAGES[op['sim']]
        r['tools'].append(h['name'])
        self.log.append([c, 'start', h['name']])
        if os.path.realpath(h['cwd']) != os.path.realpath(self.cwd):
            self.v('wrong-cwd', '%s runs in another directory' % h['name'])
        if h['name'] not in names:
            self.v('wrong-tool', 'call %d (%s) started %s' % (op['_i'], op['sim'], h['name']))
            t.cmds = [{'k': 'exit', 'rc': 1}]
            return
        st = op['st'][names.index(h['name'])]
        try:
            extra = self.tool_args(op, r, h)
        except Exception as e:
            self.v('wrong-arguments', '%s: arguments cannot be read: %r (%s)' % (h['name'], h['argv'], e))
            extra = []
        for ch in st.get('o', []):
            t.cmds.append({'k': 'out', 'b': (enc(ch))})
        for ch in st.get('e', []):
            t.cmds.append({'k': 'err', 'b': (enc(ch))})
        if st.get('sig'):
            self.fault('killed')
            t.cmds.append({'k': 'kill', 'sig': st['sig']})
            return
        if not st.get('nofile'):
            t.cmds += extra
        else:
            self.fault('no_output_file')
        if st.get('unlink'):
            self.fault('output_deleted')
            t.cmds += [{'k': 'unlink', 'p': x['p']} for x in extra]
        if st.get('rc'):
            self.fault('exit_status')
        t.cmds.append({'k': 'exit', 'rc': st.get('rc', 0)})

    def expect(self, cond, what, h):
        if not cond:
            self.v('wrong-arguments', '%s: %s; argv=%s' % (h['name'], what, [re.sub(re.escape(self.rd), 'RD', short(a)) for a in h['argv']]))

    def source(self, r, h, path):
        got = h['files'][path] if path in h['files'] else None
        self.expect(got is not None, 'the source file does not exist', h)
        if got is not None and 'code' in r:
            if got.decode('utf-8', 'replace') != r['code']:
                self.v('wrong-source', '%s got a source text that is not the text of the modules' % h['name'])

    def tool_args(self, op, r, h):
        a = h['argv']
        name = h['name']
        inc = aslist(op.get('include'))
        dfn = [deftext(d) for d in aslist(op.get('define'))]
        lib = aslist(op.get('libdir'))
        outp = self.outpath(op)
        token = 'IMAGE %d %s' % (op['_i'], 'x' * 10)
        fake = '#!/bin/sh\nexec %s --as %%s "$@"\n' % FAKE

        def flags(withval, plain=()):
            opts, pos = {}, []
            i = 0
            while i < len(a):
                if a[i] in withval:
                    opts.setdefault(a[i], []).append(a[i + 1])
                    i += 2
                    continue
                m = re.match(r'\+(incdir|define)\+(.*)$', a[i], re.S)
                if m:
                    opts.setdefault('+' + m.group(1), []).append(m.group(2))
                elif a[i].startswith('-') or a[i].startswith('+'):
                    opts.setdefault(a[i], []).append(None)
                else:
                    pos.append(a[i])
                i += 1
            return opts, pos

        def common(o, ki, kd):
            self.expect(o.get(ki, []) == inc, 'include directories %r expected' % inc, h)
            self.expect(o.get(kd, []) == dfn, 'macros %r expected' % dfn, h)
            self.expect(o.get('-y', []) == lib, 'library directories %r expected' % lib, h)

        def check_out(x):
            self.expect(len(x) == 1, 'one output file expected', h)
            if outp is not None:
                self.expect(os.path.join(self.cwd, x[0]) == os.path.join(self.cwd, outp), 'output file %r expected' % outp, h)
            else:
                for j, rr in self.res.items():
                    if j != op['_i'] and rr.get('out') == x[0] and 'ret' not in rr and 'exc' not in rr:
                        self.v('shared-output', 'two overlapping runs use the same output file')
            r['out'] = x[0]
            return x[0]

        if name == 'iverilog':
            o, pos = flags(('-I', '-D', '-y', '-s', '-o'))
            common(o, '-I', '-D')
            self.expect(o.get('-s', ['tb']) == ['tb'], 'top module tb expected', h)
            self.expect(op['objs'] == 'one' or '-s' in o, 'no top module given', h)
            self.expect(len(pos) == 1, 'one source file expected', h)
            self.source(r, h, pos[0])
            return [{'k': 'write', 'p': check_out(o.get('-o', [])), 'b': (token.encode())}]
        if name == 'vvp':
            pos = [x for x in a if not x.startswith('-')]
            self.expect(len(pos) == 1, 'one file expected', h)
            got = h['files'].get(pos[0], b'').decode('latin-1')
            if not (op['st'][0].get('nofile') or op['st'][0].get('unlink')):
                if got != token:
                    self.v('wrong-file', 'vvp of call %d got %r, not the file its compiler wrote' % (op['_i'], got[:30]))
            return []
        if name == 'vcs':
            o, pos = flags(('-y', '-o', '-top'))
            common(o, '+incdir', '+define')
            self.expect(('-full64' in o) == op['full64'], 'full64=%s' % op['full64'], h)
            self.expect(('+notimingcheck' in o) == op['notc'], 'notimingcheck=%s' % op['notc'], h)
            self.expect(op['objs'] == 'one' or o.get('-top') == ['tb'], 'top module tb expected', h)
            self.expect(len(pos) == 1, 'one source file expected', h)
            self.source(r, h, pos[0])
            return [{'k': 'write', 'p': check_out(o.get('-o', [])), 'b': ((fake % 'simv').encode()), 'x': 1}]
        if name in ('vlib', 'vmap'):
            return []
        if name == 'vlog':
            o, pos = flags(('-y', '-work'))
            common(o, '+incdir', '+define')
            self.expect(len(pos) == 1, 'one source file expected', h)
            self.source(r, h, pos[0])
            return []
        if name == 'vsim':
            self.expect('tb' in a, 'top module tb expected', h)
            self.expect('-do' in a and 'run' in a[a.index('-do') + 1].split(), 'a run command is expected', h)
            self.expect('-c' in a, 'batch mode expected', h)
            return []
        if name == 'verilator':
            o, pos = flags(('-y', '--Mdir', '--top-module', '--prefix', '--exe'))
            common(o, '+incdir', '+define')
            self.expect('--cc' in o, '--cc expected', h)
            d = check_out(o.get('--Mdir', []))
            opts = aslist(op['options'])
            for x in ' '.join(opts).split():
                self.expect(x in a, 'option %r expected' % x, h)
            self.expect('--trace' in a, 'tracing expected', h)
            self.expect(op['objs'] == 'one' or o.get('--top-module') == ['tb'], 'top module tb expected', h)
            vs = [x for x in h['files'] if x.endswith('.v')]
            cs = [x for x in h['files'] if x.endswith('.cpp')]
            self.expect(len(vs) == 1 and len(cs) == 1, 'one Verilog and one C++ file expected', h)
            txt = h['files'][vs[0]].decode('utf-8', 'replace')
            for x in ('module tb', 'module leaf', 'io_CLK', 'io_RST') + (('module extra',) if op['objs'] in ('two', 'strfirst') else ()):
                self.expect(x in txt, '%s missing in the text' % x, h)
            key = 'vtext-' + op['objs']
            ref = self.mods[op['c']].setdefault(key, txt) if op['c'] in self.mods else txt
            if ref != txt and not (op['objs'] == 'other'):
                self.v('wrong-source', 'repeated Verilator runs of one module got different texts')
            cpp = h['files'][cs[0]].decode()
            m = re.search(r'MAX_SIM_TIME\s*\((\d+)\)', cpp)
            self.expect(m is None or int(m.group(1)) == op['sim_time'], 'sim_time %d expected' % op['sim_time'], h)
            m = re.search(r'main_time % (\d+) == 0', cpp)
            self.expect(m is None or int(m.group(1)) == 5, 'half period 5 expected', h)
            self.expect('d.vcd' in cpp, 'dump file expected', h)
            return []
        if name == 'make':
            o, pos = flags(('-C', '-f'))
            self.expect(o.get('-C') == [r.get('out')], 'make runs in the directory of Verilator', h)
            tgt = [x for x in pos if x.startswith('V')]
            self.expect(len(tgt) == 1, 'one target expected', h)
            exe = os.path.join(r.get('out', ''), tgt[0] if tgt else 'Vout')
            return [{'k': 'write', 'p': exe, 'b': ((fake % 'Vout').encode()), 'x': 1}]
        if name == 'gtkwave':
            self.expect(op['file'] in a, 'file %r expected' % op['file'], h)
        return []

    # ---- after the run ---------------------------------------------------
    def judge(self, op):
        r = self.res.get(op['_i'])
        if r is None or ('ret' not in r and 'exc' not in r):
            return
        run = self.run
        want, fail, shown = [], False, b''
        what = 'call %d (%s, display=%s)' % (op['_i'], op['sim'], op.get('display'))
        bad = (run.get('missing'), run.get('noexec'))
        prev = None
        code = r.get('code')
        if run.get('fsize') is not None and op['sim'] != 'view' and run['fsize'] < len(code or 'x' * 300):
            self.fault('disk_full')
            fail = True
        else:
            outs = {}
            for t, s in zip(STAGES[op['sim']], op['st']):
                ps = op['st'][STAGES[op['sim']].index(prev)] if prev else {}
                if t in bad:
                    self.fault('tool_missing' if t == run.get('missing') else 'tool_not_executable')
                    if t in IGNORED:
                        continue
                    fail = True
                    break
                if t in ('simv', 'Vout') and (ps.get('nofile') or ps.get('unlink')):
                    fail = True
                    break
                want.append(t)
                outs[t] = enc(''.join(s.get('o', [])))
                shown += outs[t]
                if (s.get('rc') or s.get('sig')) and t not in IGNORED:
                    fail = True
                    break
                prev = t
        if op['sim'] == 'view':
            if 'exc' in r and not fail:
                self.v('spurious-error', '%s raised %s' % (what, r['exc']))
            return
        if fail:
            self.probe('failed_runs')
            if 'ret' in r:
                self.v('failure-swallowed', '%s: a stage failed but a result was returned: %r (stages %s)' % (what, short(r['ret']), r['tools']))
        elif 'exc' in r:
            self.v('spurious-error', '%s: every tool succeeded but %s was raised: %s' % (what, r['exc'], r['msg'].replace(self.rd, 'RD')))
        if r['tools'] != want:
            self.v('wrong-stages', '%s: tools started %s, expected %s' % (what, r['tools'], want))
            return
        if op['display']:
            self.probe('displayed')
            if r['shown'] not in decodings(shown):
                self.v('wrong-display', '%s: displayed %r, the tools wrote %r' % (what, short(r['shown']), short(shown.decode('latin-1'))))
        elif r['shown']:
            self.v('wrong-display', '%s: displayed %r without being asked' % (what, short(r['shown'])))
        if not fail and 'ret' in r:
            self.probe('complete_runs')
            full = outs['Vout'] if op['sim'] == 'verilator' else shown
            if not isinstance(r['ret'], str) or r['ret'] not in decodings(full):
                self.v('wrong-result', '%s: returned %r, the tools wrote %r' % (what, short(r['ret']) if isinstance(r['ret'], str) else r['ret'], short(full.decode('latin-1'))))
