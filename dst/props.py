"""Property registry: id -> plan (the jobs of a tier) and description."""
import heapq

from . import core

REG = {}


def prop(pid, **kw):
    def deco(f):
        d = dict(kw)
        d['plan'] = f
        REG[pid] = d
        return f
    return deco


def jobs_from(fam, pid, seed, cfgs, nruns, style=None):
    """nruns runs for every configuration; every choice comes from the seed."""
    F = core.load_family(fam)
    out = []
    for ci, cfg in enumerate(cfgs):
        rng = core.rng_for(seed, pid, fam, ci, core.digest(cfg))
        rngs = [core.rng_for(rng.getrandbits(64), k) for k in range(nruns)]
        out.append(core.make_job(F, fam, cfg, rngs, style or {}))
    return out


SIM_ASSUME = ['the Verilog simulator (Icarus Verilog) executes the generated text according to the language standard',
              'the environment models and reference models in /verif/dst are right',
              'a clean batch is evidence over the sampled schedules, not proof']
REAL_ALL = ['every line of the generated design, produced by /repo in this run and executed by Icarus Verilog']

AXI_RULE = ('design configurations (bus width, RAM kinds, queue depths) and runs (operation sequence + explicit stall/fault events) are drawn '
            'from VERIF_SEED; a run is non-trivial if at least one scheduled fault fired before the end and more than four bus handshakes '
            'happened; distinct = distinct order of bus handshake and program-progress events')



DISC = ('o', 'k', 'op', 'kind', 'mode', 't')


def features(x, path='', out=None):
    """what a configuration contains: every small value at its path, alone and together with the kind of its object"""
    if out is None:
        out = set()
    if isinstance(x, dict):
        kinds = ['%s:%s' % (d, x[d]) for d in DISC if isinstance(x.get(d), str)]
        p = path + ('{%s}' % ','.join(kinds[:1]) if kinds else '')
        for k, v in x.items():
            if isinstance(v, (dict, list, tuple)):
                features(v, '.' + str(k), out)
            elif v is None or isinstance(v, bool) or isinstance(v, int) and -2 <= v <= 8 or isinstance(v, str) and len(v) < 12:
                out.add('%s.%s=%s' % (p, k, v))
            else:
                out.add('%s.%s' % (p, k))
    elif isinstance(x, (list, tuple)):
        for v in x:
            if isinstance(v, (dict, list, tuple)):
                features(v, path + '[]', out)
            elif isinstance(v, str) and len(v) < 12:
                out.add('%s=%s' % (path, v))
    return out


def cfgs_of(fam, rng, n, style):
    """n designs: the first half as drawn, the others chosen among several times as many such that
    what is rare in the sample so far comes up"""
    F = core.load_family(fam)
    over = getattr(F, 'OVERSAMPLE', 8)
    if n > 400 or not over:
        return [F.gen_cfg(rng, i, style) for i in range(n)]
    got = [F.gen_cfg(rng, i, style) for i in range((n + 1) // 2)]
    rest = [F.gen_cfg(rng, i, style) for i in range(len(got), len(got) + over * n)]
    feats = [features(c) for c in rest]
    every = {}
    for f in feats:
        for x in f:
            every[x] = every.get(x, 0) + 1
    feats = [[x for x in f if every[x] > 1] for f in feats]
    cnt = {}
    for c in got:
        for x in features(c):
            cnt[x] = cnt.get(x, 0) + 1

    def score(j):
        return -sum(1.0 / (1 + cnt.get(x, 0)) ** 2 for x in feats[j]) / (8 + len(feats[j]))
    heap = [(score(j), j) for j in range(len(rest))]
    heapq.heapify(heap)
    while len(got) < n:
        _, j = heapq.heappop(heap)
        now = (score(j), j)             # scores only get worse as designs are chosen
        if heap and now > heap[0]:
            heapq.heappush(heap, now)
            continue
        got.append(rest[j])
        for x in feats[j]:
            cnt[x] = cnt.get(x, 0) + 1
    return got


def simple(pid, parts, **kw):
    """parts: list of (family, designs quick, designs thorough, runs per design, style)."""
    def plan(tier, seed):
        jobs = []
        for k, (fam, nq, nt, nr, style) in enumerate(parts):
            rng = core.rng_for(seed, pid, 'cfg', fam, k)
            jobs += jobs_from(fam, pid + '.%d' % k, seed, cfgs_of(fam, rng, nq if tier == 'quick' else nt, style), nr, style)
        return jobs
    d = dict(rule=RULE, real=REAL_ALL, assumptions=SIM_ASSUME, stub=[])
    d.update(kw)
    prop(pid, **d)(plan)


RULE = AXI_RULE
CT_RULE = ('blocks are random scripts of the public API, runs are lists of input-change and reset events, all drawn from VERIF_SEED; a run is non-trivial '
           'if the inputs changed more than three times and more than twenty values were compared; distinct = distinct complete traces of all observed signals')
AXI_STUB = ['the external memory/interconnect: a scheduled AXI slave model', 'the operation feeder']
MT = {'nth': 2}

simple('C01', [('axim', 18, 160, 12, {}), ('axim', 3, 20, 6, {'long': True}), ('aximlite', 12, 80, 10, {}), ('axim', 8, 80, 8, {'lin': 1}), ('aximlite', 6, 50, 8, {'lin': 1})], stub=AXI_STUB,
       technique='seeded slave-timing schedules against generated masters, handshake and burst monitors',
       note='sampled schedules; Icarus Verilog trusted; slave model scheduled per channel and cycle',
       need_probes=('burst_ends_at_4kb', 'burst_256'))
simple('C02', [('axim', 24, 200, 12, {}), ('axim', 4, 30, 6, {'long': True}), ('axim', 12, 120, 8, {'lin': 1})], stub=AXI_STUB,
       technique='seeded transfer sequences and slave timing, sequential memory/RAM reference model',
       note='sampled transfers and schedules against a byte-exact model of memory and RAM',
       need_probes=('burst_ends_at_4kb', 'burst_256', 'async'))
simple('C03', [('axim', 24, 200, 12, {'p_dma': 0.65}), ('axim', 4, 30, 6, {'long': True}), ('axim', 24, 200, 8, {'lin': 1, 'p_dma': 0.65})], stub=AXI_STUB,
       technique='seeded transfer/wait sequences and slave timing, program progress checked against the bus history',
       note='sampled; liveness is bounded: progress within a cycle budget after the last fault',
       need_probes=('async', 'outstanding_writes>1'))
simple('C04', [('axim', 18, 150, 12, {'p_dma': 0.25, 'p_single': 0.6}), ('axim', 6, 50, 10, {'nth': 2}), ('aximlite', 24, 200, 12, {}), ('axim', 8, 80, 8, {'lin': 1, 'p_dma': 0.3, 'p_single': 0.5}), ('aximlite', 8, 80, 8, {'lin': 1})], stub=AXI_STUB,
       technique='seeded mixes of single and DMA accesses under adversarial channel order, sequential reference model',
       note='sampled; slave may order channels in every protocol-legal way except the one recorded as a known finding')
MST_STUB = ['the bus master: a scheduled AXI master model', 'the operation feeder']
simple('C05', [('axisreg', 60, 400, 14, {}), ('axisreg', 20, 150, 8, {'lin': 1})], stub=MST_STUB,
       technique='seeded bus and thread schedules on register slaves, bus monitors and per-register linearizability of the recorded history',
       note='sampled; each register history of a run is decided exactly against a sequential register model with flags', need_probes=('waits',))
simple('C06', [('axisraw', 60, 400, 14, {})], stub=['the bus master: a scheduled AXI master model', 'the state machines that serve the port (written in the harness against the public methods)'],
       technique='seeded bus and server schedules on raw slave ports, exactly-once/in-order history checks and per-word linearizability',
       note='sampled; every request and beat of a run is accounted for', need_probes=('w_before_aw',))
simple('C07', [('axistream', 60, 400, 12, {}), ('axistream', 20, 120, 10, {'side': True}), ('axistream', 20, 150, 8, {'lin': 1})],
       stub=['stream sources and sinks: scheduled models', 'the operation feeder'],
       technique='seeded arrival gaps, back-pressure and operation sequences on stream ports, exactly-once/in-order history checks',
       note='sampled; every beat of a run is accounted for against a sequential model', need_probes=())
simple('C08', [('aximstream', 56, 400, 12, {}), ('aximstream', 8, 60, 8, {'p_long': 0.7}), ('aximstream', 20, 150, 8, {'lin': 1})],
       stub=['two external memories: scheduled AXI slave models', 'the operation feeder'],
       technique='seeded stalls on memory and stream side of the DMA engines, exact request/beat/response accounting against a sequential model',
       note='sampled; every burst, beat and response of a run is accounted for', need_probes=('ends_at_4kb',))
simple('C09', [('fifo', 90, 700, 14, {}), ('fifo', 24, 200, 8, {'lin': 1})],
       stub=['RTL producers, consumers and the external FIFO: scheduled models', 'the operation feeder'],
       technique='seeded schedules of producers and consumers, FIFO-linearizability of the recorded call history (interval conditions over distinct values)',
       note='sampled; the history of a run is judged exactly up to the recorded call intervals', need_probes=('was_full', 'was_empty'))
TH_STUB = ['the operation feeder that stalls each thread by schedule']
simple('C10', [('sync', 44, 320, 12, {'focus': 'm'}), ('sync', 30, 240, 8, {'focus': 'm', 'lin': 1}), ('sync', 8, 60, 8, {'focus': 'mb'})], stub=TH_STUB,
       technique='seeded stalls and hold times of contending threads, overlap monitor and lost-update/ownership-interval checks over the history',
       note='sampled arrival orders; fairness is not claimed, progress is bounded in cycles', need_probes=('contended', 'failed_tries'))
simple('C11', [('sync', 44, 320, 12, {'focus': 'b'}), ('sync', 30, 240, 8, {'focus': 'b', 'lin': 1}), ('sync', 8, 60, 8, {'focus': 'mb'})], stub=TH_STUB,
       technique='seeded arrival orders at barriers, round-by-round arrival/release history check with bounded release',
       note='sampled arrival orders and spacings', need_probes=('barrier_rounds',))
simple('C12', [('life', 70, 600, 10, {}), ('life', 40, 350, 8, {'lin': 1})], stub=TH_STUB,
       technique='seeded stalls of parents and children over legal life-cycle sequences, event-ordering and result checks over the recorded history',
       note='sampled interleavings; every run of every child is matched to its request', need_probes=('runs_of_children', 'pool_runs', 'shared_child_calls'))
simple('C13', [('prog', 130, 1200, 6, {})], stub=['the operation feeder that stalls each thread by schedule'],
       technique='seeded random programs, inputs and thread stalls; the same source text executed by Python (wrapping integers) is the reference',
       note='sampled programs; FIFO-linked threads form a determinate network so Python needs no schedule', need_probes=('values', 'printed'))
simple('C14', [('ram', 90, 700, 8, {}), ('ram', 40, 350, 8, {'lin': 1})], stub=['external RAM users and burst peers: scheduled models', 'the operation feeder'],
       technique='seeded interleavings of thread, burst and external accesses to every port, per-word linearizability of the recorded history',
       note='sampled; the history of every word is decided exactly', need_probes=('burst_beats', 'external_accesses'))
STRM_STUB = ['stalls of the stream pipeline, FIFO peers and the operation feeder: scheduled models']
simple('C15', [('strm', 170, 1500, 4, {'mode': 'calc'}), ('strm', 20, 200, 3, {'mode': 'calc', 'lin': 1})], stub=STRM_STUB,
       technique='seeded random kernels, inputs and stall schedules against an element-by-element reference evaluator of the dataflow',
       note='sampled kernels; the reference evaluator is independent of the eval methods of the library', need_probes=('elements', 'stalled'))
simple('C16', [('strm', 170, 1500, 4, {'mode': 'fifo'}), ('strm', 20, 200, 3, {'mode': 'fifo', 'lin': 1})], stub=STRM_STUB,
       technique='seeded FIFO-fed kernels with independent arrival gaps and back-pressure on every port, exactly-once order oracle per port',
       note='sampled; conditional FIFO sinks are given the number of matches as size (recorded finding)', need_probes=('outputs', 'stalled'))
simple('C17', [('strm', 130, 1200, 4, {'mode': 'ctl'}), ('strm', 30, 300, 3, {'mode': 'ctl', 'lin': 1})], stub=STRM_STUB,
       technique='seeded sequences of configure/run/join/queue/terminate operations under stalls, sequential reference model',
       note='sampled; a queued run keeps the RAM and port of the run in progress (recorded finding)', need_probes=('elements', 'stalled'))
simple('C24', [('memmodel', 48, 320, 10, {}), ('memmodel', 12, 100, 8, {'lin': 1})], stub=MST_STUB,
       technique='seeded multi-port bus schedules and thread accesses on the memory models, per-byte linearizability of the history',
       note='sampled; BREADY kept high for the two models with the recorded finding', need_probes=('bytes_checked',))
simple('C21', [('seqf', 220, 2000, 5, {}), ('seqf', 40, 400, 4, {'reset': True})], stub=['the inputs of the block: seeded change events'], rule=CT_RULE,
       technique='seeded input-change and reset schedules on random sequential blocks, cycle-exact reference model of the API calls',
       note='sampled scripts, stimuli and reset instants; every signal is compared in every cycle', need_probes=('delayed', 'prevs', 'chains', 'resets'))
simple('C22', [('fsmf', 220, 2000, 5, {}), ('fsmf', 40, 400, 4, {'reset': True})], stub=['the inputs of the machine: seeded change events'], rule=CT_RULE,
       technique='seeded input-change and reset schedules on random state machines, cycle-exact reference model of the API calls',
       note='sampled scripts, stimuli and reset instants; state and every register are compared in every cycle', need_probes=('transitions', 'delayed', 'states_visited'))
simple('C29', [('skid', 120, 900, 10, {})], stub=['producer and consumer of the valid/ready ports: scheduled models'],
       technique='seeded producer gaps and consumer stalls on single and chained skid buffers, exactly-once/in-order history check and hold-stable monitor',
       note='sampled; the full-throughput clause is decided on the runs without stalls', need_probes=('items_out', 'unstalled_runs'))
simple('C25', [('axim', 12, 100, 12, {'reset': True}), ('aximlite', 12, 80, 12, {'reset': True}), ('axisreg', 12, 80, 12, {'reset': True}), ('axisraw', 12, 80, 12, {'reset': True}),
               ('memmodel', 8, 60, 10, {'reset': True}), ('axistream', 10, 80, 10, {'reset': True}), ('aximstream', 8, 60, 10, {'reset': True}),
               ('fifo', 10, 80, 10, {'reset': True}), ('sync', 10, 80, 10, {'reset': True}), ('prog', 10, 80, 8, {'reset': True}), ('life', 10, 80, 8, {'reset': True}), ('ram', 10, 80, 8, {'reset': True}),
               ('strm', 8, 60, 4, {'mode': 'calc', 'reset': True}), ('strm', 8, 60, 4, {'mode': 'fifo', 'reset': True}), ('strm', 8, 60, 4, {'mode': 'ctl', 'reset': True}),
               ('skid', 6, 60, 8, {'reset': True}), ('seqf', 20, 200, 4, {'reset': True}), ('fsmf', 20, 200, 4, {'reset': True})], stub=AXI_STUB,
       technique='reset injected at arbitrary cycles of seeded workloads, then replay against the power-up model',
       note='sampled reset instants and lengths', need_probes=())
simple('C28', [('simfe', 80, 900, 6, {})], real=['veriloggen/simulation (every line), Python subprocess, tempfile and threading, /bin/sh, the file system in a scratch directory'],
       stub=['iverilog, vvp, vcs, vlib, vmap, vlog, vsim, verilator, make, gtkwave and the compiled simulators: stand-ins that do what the schedule says'],
       assumptions=['the stand-ins read their arguments as the real tools do', 'a clean batch is evidence over the sampled schedules, not proof'],
       rule='sequences of front end calls of one to three client threads, tool behaviours and the interleaving are drawn from VERIF_SEED; one client runs at a time and '
            'stops at every source line of the front end; a run is non-trivial if a fault fired or clients were switched more than three times; distinct = distinct complete traces of scheduling decisions and tool starts',
       technique='seeded interleaving of overlapping front end calls and tool faults (exit status, signals, missing tools, lost output files, short writes), outcome, argument and leftover-file oracle',
       note='sampled; ModelSim keeps its work library by design', need_probes=('complete_runs', 'failed_runs', 'displayed', 'switches'))
simple('C27', [('shuf', 108, 900, 2, {})], stub=AXI_STUB,
       rule='configurations, operation sequences, schedules and process orders are drawn from VERIF_SEED; the order in which the simulator meets the processes of the text is permuted; '
            'a run is non-trivial if more than one process was moved and the history has more than four lines; distinct = distinct histories',
       technique='seeded permutation of the simulator process order over the seeded workloads of every family, equality of the recorded histories',
       note='sampled orders; two ports writing one word in one cycle are excluded (undefined in hardware)', need_probes=('orders', 'processes_moved', 'lines_compared'))
simple('C26', [('gendet', 40, 500, 2, {})], real=['the whole of veriloggen that turns a description into text, in processes of its own, and the descriptions under tests/ and examples/'],
       stub=['names of memory images and waveform files are masked (random unless given)'],
       assumptions=['a clean batch is evidence over the sampled histories, not proof'],
       rule='designs, process histories (hash seed, garbage collection, junk allocations, aborted and interleaved generations, working directories) are drawn from VERIF_SEED; '
            'interleaved builds run one at a time and switch at lines of the descriptions; a run is non-trivial if more than three texts were compared; distinct = distinct sequences of texts and steps',
       technique='seeded process histories with interleaved, aborted and repeated generations, texts compared with those of a fresh process',
       note='sampled; equality up to the numbering of generated names where no reset was made', need_probes=('after_reset', 'without_reset', 'interleaved', 'switches', 'aborted'))
simple('C23', [('uart', 90, 800, 6, {})], stub=['the far end of the line, the clocks and the users of the two stations: scheduled models'],
       assumptions=['the total clock error of the two ends leaves every sampling point inside its bit', 'a bit lasts at least six receiver clocks', 'the receiver has no buffer: its consumer asks again within a frame',
                    'a clean batch is evidence over the sampled schedules, not proof'],
       technique='seeded clock skews, phases, byte gaps, consumer delays and line glitches on two stations, frame-exact line monitor and exactly-once delivery check',
       note='sampled; simulated time is in nanoseconds', need_probes=('frames', 'delivered', 'back_to_back'))
simple('C20', [('pipe', 260, 2500, 4, {}), ('pipe', 30, 300, 4, {'reset': True})], stub=['producers and consumers of the valid/ready ports: scheduled models'],
       technique='seeded producer gaps, consumer stalls and resets on random stage graphs, token-exact reference model and hold-stable monitor',
       note='sampled; unsigned values of one width per pipeline', need_probes=('items_out', 'joins', 'prevs', 'accumulated', 'many_outputs', 'unstalled_runs'))
simple('C18', [('vstrm', 230, 2500, 4, {}), ('vstrm', 40, 400, 4, {'reset': True})], stub=['producer and consumer of the valid/ready ports: scheduled models'],
       technique='seeded operator graphs, arrival gaps, back-pressure and reset instants; per-item reference evaluator; exactly-once/in-order history check and hold-stable monitor',
       note='sampled graphs and schedules; the consumer does not wait for valid before raising ready (one global enable)',
       need_probes=('items_out', 'prevs', 'accumulated', 'counters', 'multipliers', 'dividers', 'many_outputs', 'buffers', 'unstalled_runs'))
simple('C19', [('dflow', 230, 2500, 4, {}), ('dflow', 40, 400, 4, {'reset': True})], stub=['producers and consumers of the valid/ready ports: scheduled models'],
       assumptions=['the inputs of one graph have the same kind of handshake', 'operators that depend only on parameters are given their latency to settle before the first item',
                    'a clean batch is evidence over the sampled schedules, not proof'],
       technique='seeded producer gaps, consumer stalls and resets on random operator graphs, token-exact reference model and hold-stable monitor',
       note='sampled; operands of mixed signs are not generated', need_probes=('items_out', 'joins', 'prevs', 'accumulated', 'counters', 'multipliers', 'dividers', 'many_outputs', 'unstalled_runs'))
