"""Child process of the generation determinism family (see fam/gendet.py).

python gendet_child.py SPEC.json OUTDIR

SPEC: {"designs": [...], "steps": [...]}; writes OUTDIR/out.json and one text per generation.
"""
import gc
import importlib.util
import json
import os
import sys
import _thread
import threading
import traceback

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(REPO, 'veriloggen') + os.sep
mon = sys.monitoring
TOOL = 3


class Abort(Exception):
    pass


def description(path):
    """Files that hold descriptions (as opposed to the library and to Python)."""
    if path.endswith('/gendet.py'):
        return False
    return (path.startswith((REPO + '/tests/', REPO + '/examples/', VERIF + '/dst/fam/', VERIF + '/dst/gendescs'))
            or os.path.basename(path).startswith('gen_design_'))


def from_library():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith(LIB):
            return True
        f = f.f_back
    return False


_orig = []
twice = []


def patched(self, filename=None, for_verilator=False):
    a = _orig[0](self, filename, for_verilator)
    b = _orig[0](self, None, for_verilator)
    if a != b and canonical(a) != canonical(b):
        twice.append('second to_verilog() of the same module differs (%d, %d characters)' % (len(a), len(b)))
    if filename is not None:
        with open(filename) as f:
            if f.read() != a:
                twice.append('the file written differs from the text returned')
    return a


def load(path):
    name = 'desc_' + os.path.basename(path)[:-3]
    d = os.path.dirname(path)
    sys.path.insert(0, d)
    try:
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
    finally:
        while d in sys.path:
            sys.path.remove(d)
    return mod


_mods = {}


def build(spec):
    """The text of one design."""
    kind = spec[0]
    if kind == 'fam':
        from dst import core
        return core.load_family(spec[1]).build(spec[2])
    if kind == 'mod':
        if spec[1] not in _mods:
            _mods[spec[1]] = load(REPO + '/' + spec[1])
        r = getattr(_mods[spec[1]], spec[2])()
        if isinstance(r, dict):
            return '\n'.join(x.to_verilog() for x in r.values())
        return r if isinstance(r, str) else r.to_verilog()
    from dst import gendescs
    r = gendescs.build(spec[1], spec[2])
    return r if isinstance(r, str) else r.to_verilog()


class Threads:
    """Runs builds as threads, one at a time, switching at lines of the descriptions."""

    def __init__(self, specs, switches):
        self.specs = specs
        self.sw = list(switches)
        self.done = [False] * len(specs)
        self.res = [None] * len(specs)
        self.ids = {}
        self.left = 0
        self.count = 0
        # one lock per thread and one for the main thread: exactly one of them is free to run
        self.locks = [_thread.allocate_lock() for _ in range(len(specs) + 1)]
        for k in self.locks:
            k.acquire()

    def next_budget(self):
        return self.sw.pop(0) if self.sw else 3

    def switch(self, me, other):
        self.locks[other].release()
        self.locks[me].acquire()

    def after(self, me):
        n = len(self.specs)
        for d in range(1, n + 1):
            if not self.done[(me + d) % n]:
                return (me + d) % n

    def line(self, code, ln):
        if not description(code.co_filename):
            return mon.DISABLE
        me = self.ids.get(threading.get_ident())
        if me is None or from_library():
            return
        self.left -= 1
        if self.left > 0:
            return
        t = self.after(me)
        self.left = self.next_budget()
        if t != me:
            self.count += 1
            self.switch(me, t)

    def worker(self, i):
        main = len(self.specs)
        self.ids[threading.get_ident()] = i
        self.switch(i, main)
        self.res[i] = guarded(self.specs[i])
        self.locks[main].release()
        self.done[i] = True

    def run(self):
        main = len(self.specs)
        mon.use_tool_id(TOOL, 'gendet')
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        ts = [threading.Thread(target=self.worker, args=(i,)) for i in range(len(self.specs))]
        threading.stack_size(256 << 20)
        for t in ts:
            t.start()
            self.locks[main].acquire()
        mon.set_events(TOOL, mon.events.LINE)
        t = 0
        while t is not None:
            self.left = self.next_budget()
            self.switch(main, t)
            # one of the threads has finished
            [x for x in range(main) if self.res[x] is not None and ts[x].join() is None]
            t = self.after(t)
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)
        mon.restart_events()
        return self.res


def guarded(spec):
    try:
        return ('ok', build(spec))
    except Abort:
        return ('abort', '')
    except Exception as e:
        return ('error', '%s: %s\n%s' % (type(e).__name__, str(e)[:300], traceback.format_exc(limit=-3)))


def aborted(spec, k):
    left = [k]

    def line(code, ln):
        if not description(code.co_filename):
            return mon.DISABLE
        if from_library():
            return
        left[0] -= 1
        if left[0] == 0:
            raise Abort()
    mon.use_tool_id(TOOL, 'gendet')
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.LINE)
    try:
        return guarded(spec)
    finally:
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)
        mon.restart_events()


def main():
    spec = json.load(open(sys.argv[1]))
    # threads change only where they wait for each other
    sys.setswitchinterval(1000)
    out = os.path.abspath(sys.argv[2])
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    work = os.path.join(out, 'work')
    os.makedirs(work)
    os.chdir(work)
    junk = [object() for _ in range(spec.get('junk', 0))]
    if spec.get('gc') == 'off':
        gc.disable()
    elif spec.get('gc') == 'often':
        gc.set_threshold(50, 2, 2)
    import veriloggen
    import veriloggen.core.module as M
    import veriloggen.types.axi as axi
    assert veriloggen.__file__.startswith(LIB), veriloggen.__file__
    # the names of the images of memory models are random unless they are given
    axi.get_memimg_name = lambda: os.path.join(os.getcwd(), 'memimg_.out')
    _orig.append(M.Module.to_verilog)
    if spec.get('twice', True):
        M.Module.to_verilog = patched
    designs = spec['designs']
    res = []

    def emit(i, mode, r):
        fn = '%d.v' % len(res)
        with open(os.path.join(out, fn), 'w') as f:
            f.write(r[1])
        res.append({'design': i, 'mode': mode, 'status': r[0], 'file': fn, 'twice': list(twice)})
        del twice[:]

    switches = 0
    if spec.get('fork'):
        # every design in a clean process of its own
        for i, d in enumerate(designs):
            pid = os.fork()
            if pid == 0:
                veriloggen.reset()
                r = guarded(d)
                with open(os.path.join(out, 'ref%d' % i), 'w') as f:
                    json.dump(r, f)
                os._exit(0)
            os.waitpid(pid, 0)
        return
    # no module is imported while threads are switched
    from dst import core, gendescs, genmod
    from dst.fam import gendet
    global canonical
    canonical = gendet.canonical
    for d in designs:
        if d[0] == 'fam':
            core.load_family(d[1])
        elif d[0] == 'mod':
            _mods[d[1]] = load(REPO + '/' + d[1])
    keep = []
    env0 = dict(os.environ)
    for st in spec['steps']:
        op = st[0]
        cwd0 = os.getcwd()
        if op == 'gen':
            veriloggen.reset()
            emit(st[1], 'reset', guarded(designs[st[1]]))
        elif op == 'cont':
            emit(st[1], 'cont', guarded(designs[st[1]]))
        elif op == 'par':
            t = Threads([designs[i] for i in st[1]], st[2])
            for i, r in zip(st[1], t.run()):
                emit(i, 'par', r)
            switches += t.count
        elif op == 'exc':
            if aborted(designs[st[1]], st[2])[0] == 'abort':
                switches += 1
            del twice[:]
        elif op == 'gc':
            gc.collect()
        elif op == 'junk':
            keep.append([object() for _ in range(st[1])])
            if st[1] % 2:
                keep.pop(0)
        elif op == 'chdir':
            d = os.path.join(out, st[1])
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            continue
        if os.getcwd() != cwd0:
            res.append({'trace': 'the working directory was changed by step %s' % st[0]})
            os.chdir(cwd0)
        if dict(os.environ) != env0:
            res.append({'trace': 'the environment was changed by step %s' % st[0]})
            env0 = dict(os.environ)
    with open(os.path.join(out, 'out.json'), 'w') as f:
        json.dump({'res': res, 'switches': switches}, f)


main()
