"""Generation determinism: histories of generations in one process (see gendet_child.py)."""
import ctypes
import difflib
import json
import os
import re
import shutil
import subprocess
import sys

from .. import core
from ..core import V

MINIMISE = ('steps',)
FAMS = [('axim', {}), ('aximlite', {}), ('axisreg', {}), ('axisraw', {}), ('memmodel', {}), ('axistream', {}), ('aximstream', {}),
        ('fifo', {}), ('sync', {}), ('life', {}), ('prog', {}), ('ram', {}), ('strm', {'mode': 'calc'}), ('strm', {'mode': 'fifo'}),
        ('strm', {'mode': 'ctl'}), ('skid', {}), ('seqf', {}), ('fsmf', {})]
KINDS = ('copy', 'flow', 'strm', 'banks', 'fixed', 'autos')
CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'gendet_child.py')
_pool = {}
_libc = ctypes.CDLL(None)


def pool(repo):
    """Descriptions that come with the repository: (file, function)."""
    if repo in _pool:
        return _pool[repo]
    res = []
    for top in ('tests', 'examples', 'tests_obsolete', 'examples_obsolete'):
        for r, ds, fs in os.walk(os.path.join(repo, top)):
            ds.sort()
            for x in sorted(fs):
                # IP-XACT packages are written to the working directory with the date of the day
                if not x.endswith('.py') or x.startswith('test_') or 'ipxact' in r or 'ultra96' in r or '/simulation' in r:
                    continue
                t = open(os.path.join(r, x)).read()
                if 'simulation.' in t.split('__main__')[0].split('def run')[0] and 'run_iverilog' in t.split('__main__')[0].split('def run')[0]:
                    continue
                fns = [f for f, a in re.findall(r'^def (mk\w+)\(([^)]*)\)', t, re.M) if all('=' in z or not z.strip() for z in a.split(','))]
                pick = [f for f in ('mkTest', 'mkTop', 'mkMain', 'mkLed') if f in fns] or fns[-1:]
                if pick:
                    res.append((os.path.relpath(os.path.join(r, x), repo), pick[0]))
    _pool[repo] = res
    return res


def gen_design(rng, style):
    k = rng.random()
    if k < style.get('p_fam', 0.25):
        f, st = rng.choice(FAMS)
        return ['fam', f, core.load_family(f).gen_cfg(rng, rng.randrange(1000), st)]
    if k < 0.65:
        return ['own', rng.choice(KINDS), rng.getrandbits(24)]
    return ['mod'] + list(rng.choice(pool(core.REPO)))


def gen_cfg(rng, i=0, style={}):
    n = style.get('designs', 4)
    ds = [gen_design(rng, style) for _ in range(n)]
    # a relative of one of the others: shared names, other contents
    k = rng.choice(KINDS)
    ds[0] = ['own', k, rng.getrandbits(24)]
    ds[1] = ['own', k, rng.getrandbits(24)]
    return {'designs': ds}


def gen_run(cfg, rng, style={}):
    n = len(cfg['designs'])
    steps = []
    pick = lambda: rng.randrange(n)
    for _ in range(rng.randrange(3, 7)):
        k = rng.random()
        if k < 0.30:
            steps.append(['gen', pick()])
        elif k < 0.50:
            steps.append(['cont', pick()])
        elif k < 0.70:
            steps.append(['par', [pick() for _ in range(rng.choice((2, 2, 3)))],
                          [rng.choice((1, 1, 2, 3, 5, 8, 20)) for _ in range(rng.choice((4, 40, 400)))]])
        elif k < 0.80:
            steps.append(['exc', pick(), rng.choice((1, 2, 3, 5, 8, 12, 20, 30, 50, 80))])
        elif k < 0.87:
            steps.append(['gc'])
        elif k < 0.94:
            steps.append(['junk', rng.choice((1, 10, 1001, 20000, 50001))])
        else:
            steps.append(['chdir', rng.choice(('d1', 'd2/e', 'a b'))])
    steps.append(['gen', pick()])
    steps.append(['cont', pick()])
    return {'hashseed': rng.getrandbits(31), 'gc': rng.choice(('on', 'on', 'off', 'often')), 'junk': rng.choice((0, 1, 777, 30000)),
            'twice': rng.random() < 0.8, 'steps': steps}


def child(spec, wd, hashseed):
    # paths of one length, so that the memory of the process is laid out alike
    wd = os.path.join(wd, 'p' * max(1, 100 - len(wd)))
    os.makedirs(wd)
    p = os.path.join(wd, 'spec.json')
    with open(p, 'w') as f:
        json.dump(spec, f)
    env = {'PATH': os.environ['PATH'], 'PYTHONHASHSEED': str(hashseed), 'PYTHONDONTWRITEBYTECODE': '1', 'DST_REPO': core.REPO, 'HOME': wd, 'TMPDIR': wd, 'MALLOC_ARENA_MAX': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1'}
    # the same addresses in every execution of a run, as far as the system allows it
    q = subprocess.run([sys.executable, CHILD, p, wd], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=wd, timeout=120,
                       preexec_fn=lambda: _libc.personality(0x0040000))
    return q, wd


def masked(t):
    """Names of memory images and waveform files are random or hold the path of the working directory."""
    return re.sub(r'"[^"\n]*?(memimg_)?[^"\n/]*\.(out|vcd|hex|txt)"', '"FILE"', t)


TOKEN = re.compile(r'[A-Za-z_$][A-Za-z0-9_$]*')


def canonical(t):
    """The text with the numbers inside generated names renumbered in order of appearance."""
    maps = {}
    whole = {}

    def tok(mo):
        if mo.group(0)[0] == '_':
            # long names of delays are cut according to their length: one number for the whole name
            return '_g%d' % whole.setdefault(mo.group(0), len(whole))
        out = ''
        for part in re.findall(r'\d+|\D+', mo.group(0)):
            if part[0].isdigit():
                d = maps.setdefault(out, {})
                out += str(d.setdefault(part, len(d)))
            else:
                out += part
        return out
    # dumps are aligned to the longest name
    return re.sub(r'[ \t]+', ' ', TOKEN.sub(tok, t))


def name_of(d):
    return '%s %s' % (d[1], d[2] if isinstance(d[2], (str, int)) else '')


class DetSim:
    def __init__(self, cfg, wd):
        self.fam = sys.modules[__name__]
        self.cfg = cfg
        self.wd = wd
        self.k = 0
        self.build_violation = None
        d0 = os.path.join(wd, 'ref')
        os.makedirs(wd, exist_ok=True)
        q, d = child({'designs': cfg['designs'], 'fork': True, 'steps': [], 'twice': False}, d0, 0)
        if q.returncode:
            raise RuntimeError('reference process failed: %s' % q.stdout.decode(errors='replace')[-1500:])
        self.ref = []
        for i in range(len(cfg['designs'])):
            p = os.path.join(d, 'ref%d' % i)
            st, t = json.load(open(p))
            self.ref.append((st, masked(t) if st == 'ok' else t.split('\n')[0]))
        shutil.rmtree(d0)
        self.canon = [canonical(t) if st == 'ok' else t for st, t in self.ref]

    def execute(self, run):
        self.k += 1
        d0 = os.path.join(self.wd, 'r%d' % self.k)
        viols = []
        try:
            spec = dict(run)
            spec['designs'] = self.cfg['designs']
            n = len(self.cfg['designs'])
            spec['steps'] = [s for s in run['steps']]
            q, d = child(spec, d0, run['hashseed'])
            if q.returncode:
                return [V('process-died', 'generation ended the process with status %d: %s' % (q.returncode, q.stdout.decode(errors='replace')[-300:]))], {}
            out = json.load(open(os.path.join(d, 'out.json')))
            keys = []
            count = {'gen': 0, 'cont': 0, 'par': 0, 'chars': 0, 'errors': 0}
            for r in out['res']:
                if 'trace' in r:
                    viols.append(V('trace', r['trace']))
                    continue
                st, ref = self.ref[r['design']]
                what = '%s (%s)' % (name_of(self.cfg['designs'][r['design']]), {'reset': 'after veriloggen.reset()', 'cont': 'without reset', 'par': 'interleaved'}[r['mode']])
                t = open(os.path.join(d, r['file'])).read()
                count[{'reset': 'gen'}.get(r['mode'], r['mode'])] += 1
                count['chars'] += len(t)
                count['errors'] += st != 'ok'
                keys.append(core.digest(masked(t)))
                for x in r['twice']:
                    viols.append(V('twice', '%s: %s' % (what, x)))
                if r['status'] != st:
                    viols.append(V('outcome', '%s: %s instead of %s: %s' % (what, r['status'], st, t[-300:] if r['status'] == 'error' else ref[:200])))
                    continue
                t = masked(t) if st == 'ok' else t.split('\n')[0]
                if r['mode'] != 'reset' and st == 'ok':
                    t, ref = canonical(t), self.canon[r['design']]
                elif st != 'ok' and r['mode'] != 'reset':
                    t, ref = t.split(':')[0], ref.split(':')[0]
                if t != ref:
                    diff = [x for x in difflib.unified_diff(ref.split('\n'), t.split('\n'), lineterm='', n=0) if x[:2] not in ('--', '++', '@@')]
                    viols.append(V('differs', '%s: the text differs from that of a fresh process: %s' % (what, ' | '.join(diff[:4])[:400])))
            probes = {'after_reset': count['gen'], 'without_reset': count['cont'], 'interleaved': count['par'], 'kchars': count['chars'] // 1000,
                      'switches': out['switches'], 'failing_designs': count['errors'], 'aborted': sum(s[0] == 'exc' for s in run['steps'])}
            return viols, {'cycles': len(out['res']), 'probes': probes, 'key': core.digest([keys, run['steps']]), 'nontrivial': len(out['res']) > 3,
                           'logh': core.digest([keys, out['switches']])}
        finally:
            shutil.rmtree(d0, ignore_errors=True)


def make_sim(cfg, wd):
    return DetSim(cfg, wd)
