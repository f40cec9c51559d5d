"""Source of /verif/properties.jsonl (python3 -m dst.propdoc writes it)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


T = 'veriloggen/thread/'
p('C01', 'AXI4 master ports obey the AXI protocol under any slave timing',
  'On every channel a generated AXI4 master keeps VALID asserted and its payload unchanged until the handshake, never drives an undefined payload, '
  'and never makes progress of one channel depend on a channel order the protocol lets a slave choose. Every burst it issues is INCR, at most 256 beats, '
  'naturally sized to the data bus, never crosses a 4 KB boundary, and carries exactly the announced number of data beats with WLAST on the last one only.',
  ['schedules', 'configurations', 'inputs'],
  'for every interleaving of channel stalls, response delays and ready-policy of the slave, every data width, RAM layout and transfer size/alignment',
  'the tests use one always-willing memory model with fixed delays and check only the final data printed by the design; they never observe the bus',
  [T + 'axim.py', 'veriloggen/types/axi.py'],
  [('write/read request, data and response channels', 'types/axi.py AxiMaster*'), ('DMA request splitting', 'thread/axim.py _synthesize_*_fsm*')],
  ['master port signals of the generated module'])
p('C02', 'A DMA transfer moves exactly the requested data, and nothing else',
  'A DMA read or write between external memory and an on-chip RAM (plain, multibank, nested; plain, bank, block, packed and broadcast forms; any stride, size, alignment to the bus, bus/RAM width ratio) '
  'transfers every requested element to exactly the place the request names, whatever the slave timing. '
  'No other RAM word and no other memory byte changes, and the bus carries no request beyond the requested extent.',
  ['schedules', 'inputs', 'configurations'],
  'for every slave timing, every sequence of transfers with random extents, strides, widths, and bank layouts',
  'tests run a few fixed transfers against one timing and compare what was read back with the same engine that wrote it',
  [T + 'axim.py', T + 'ram.py', T + 'ttypes.py', 'veriloggen/types/ram.py'],
  [('DMA read/write FSMs, pack/unpack', 'thread/axim.py'), ('RAM burst ports', 'thread/ram.py read_burst*/write_burst*')],
  ['memory image and RAM image after the run'])
p('C03', 'DMA calls complete exactly when their transfer is done, in program order',
  'A blocking DMA call, or the matching wait call after an asynchronous one, returns only after every beat of the transfer (and for writes every response) has been exchanged, and it always returns once the slave keeps responding. '
  'Transfers issued by one thread take effect in program order per direction and none is dropped, duplicated or starved, including back-to-back asynchronous requests that fill the request queue.',
  ['schedules', 'histories', 'configurations'],
  'for every sequence of blocking/async transfers and waits, any queue depth, any slave timing',
  'tests issue one or two transfers with the default queue depth against a prompt memory',
  [T + 'axim.py'], [('request FIFOs, idle tracking and wait conditions', 'thread/axim.py dma_wait*, _get_*_fifo'), ('outstanding write counter', 'types/axi.py')],
  ['program counter of the worker thread against the bus trace'])
p('C04', 'Single-beat master accesses: reads return memory, writes land once, fences fence',
  'Every single read of an AXI4 or AXI4-Lite master returns the addressed word, every single write changes exactly the addressed word exactly once, and a write fence returns only after all earlier writes were acknowledged. '
  'Mixed sequences of single accesses and DMA transfers, from one or several lock-protected threads, behave as if executed one after the other, whatever the slave timing and channel order.',
  ['schedules', 'histories', 'inputs'],
  'for every sequence of single accesses, any legal slave (including one that accepts data before address or address only with data)',
  'tests use a slave that always accepts address first, a handful of accesses and no stalls between channels',
  [T + 'axim.py', 'veriloggen/types/axi.py'], [('read/write/write_fence/read_delayed/write_delayed', 'thread/axim.py AXIM, AXIMLite, AXIMVerify')],
  ['read results and memory image'])
p('C05', 'AXI and AXI-Lite register slaves: atomic registers and one response per request',
  'A register slave answers every read and every write (any burst length it accepts) with exactly the announced beats and exactly one write response, holds VALID and payload until accepted, and never wedges, for any legal order and delay of the address, data and response channels. '
  'A read returns the latest value written over the bus or by the hardware thread, with register defaults after reset; a flag register is consumed once, a write is seen by a waiting hardware thread exactly once.',
  ['schedules', 'histories', 'configurations'],
  'for every master timing, request interleaving of reads and writes, concurrent hardware access, register count and width',
  'tests drive one fixed sequence of host accesses from a friendly master model',
  [T + 'axis.py', 'veriloggen/types/axi.py'], [('register read/write FSMs', 'thread/axis.py AXISRegister, AXISLiteRegister'), ('slave channel handshakes', 'types/axi.py AxiSlave, AxiLiteSlave')],
  ['slave port signals', 'values read by the hardware thread'])
p('C06', 'Program-controlled AXI slaves deliver every request once and in order',
  'Logic that serves an AXI or AXI-Lite slave port by pulling requests and data and pushing data sees every request exactly once, in order, with the address, length and data the master sent, and every beat it pushes reaches the master exactly once with LAST correctly placed. '
  'This holds for any master timing and any mix of read and write requests, and the port never deadlocks while the master keeps to the protocol.',
  ['schedules', 'histories'],
  'for every master timing and request mix',
  'tests exercise one fixed request order with an obliging master',
  [T + 'axis.py', 'veriloggen/types/axi.py'], [('pull_request/pull_write/push_read', 'thread/axis.py AXIS, AXISLite'), ('slave handshake', 'types/axi.py AxiSlave*')])
p('C07', 'AXI-Stream ports neither lose, duplicate, reorder nor corrupt beats',
  'Data received through an AXI-Stream input port and data sent through an AXI-Stream output port (word by word, or by DMA to and from RAM and FIFO) appear exactly once, in order, with correct payload and LAST, under any back-pressure and any arrival gaps. '
  'TVALID and payload hold until TREADY, and the port waits for traffic instead of timing out or inventing it.',
  ['schedules', 'inputs', 'configurations'],
  'for every back-pressure/arrival schedule, every transfer size, width ratio and port use',
  'tests connect a prompt source and sink',
  [T + 'axistreamin.py', T + 'axistreamout.py', 'veriloggen/types/axi.py'],
  [('stream read/write and DMA FSMs', 'thread/axistreamin.py, thread/axistreamout.py'), ('AxiStreamIn/AxiStreamOut handshake', 'types/axi.py')])
p('C08', 'Memory-to-stream and stream-to-memory engines conserve every byte',
  'A DMA from memory to an AXI stream delivers exactly the requested words once and in order, with LAST on the final one, and a DMA from a stream to memory stores exactly the received words at the requested addresses, touching nothing else. '
  'Both hold under arbitrary stalls on the memory and the stream side at once, for back-to-back and concurrent transfers, and completion is reported only when it is true.',
  ['schedules', 'inputs'],
  'for every combination of memory and stream timing, transfer size, address and order of requests',
  'tests run one transfer in each direction against prompt peers',
  [T + 'axim_for_axistream.py', T + 'axim.py'], [('dma_read/dma_write engines', 'thread/axim_for_axistream.py AXIMForAXIStream, AXIM2ForAXIStream')])
p('C09', 'A FIFO is a FIFO: no loss, duplication, reordering, overflow or phantom data',
  'For any interleaving of concurrent producers and consumers (blocking, non-blocking, several threads, RTL ports or stream ports) every accepted element is delivered exactly once and in acceptance order, a full FIFO accepts nothing, an empty FIFO yields nothing and the reported status agrees with the outcome. '
  'Blocked producers and consumers resume when space or data becomes available, up to the advertised capacity.',
  ['schedules', 'histories', 'configurations'],
  'for every enqueue/dequeue schedule, depth and width',
  'tests run one producer and one consumer at fixed speed, rarely at the full/empty boundaries',
  [T + 'fifo.py', 'veriloggen/types/fifo.py', T + 'fixed.py'], [('FIFO storage and pointers', 'types/fifo.py'), ('thread enq/deq/try_enq/try_deq', 'thread/fifo.py')])
p('C10', 'Mutexes exclude, and are eventually granted',
  'At most one thread is ever inside a critical section guarded by a mutex (stand-alone or the lock of a RAM, FIFO or bus), for any arrival order and any number of contending threads; a non-blocking acquire returns true exactly when it obtained the lock. '
  'A released mutex can be acquired again: whenever the lock is free and wanted, some contender gets it within a bounded number of cycles, so every blocked thread enters once the competing acquisitions cease.',
  ['schedules', 'histories'],
  'for every arrival/hold-time schedule of contending threads',
  'tests contend with fixed timing and look only at the final sum',
  [T + 'thread.py', T + 'pool.py'], [('lock/try_lock/unlock', 'thread/thread.py Mutex')])
p('C11', 'Barriers release all participants together, and only then',
  'No participant passes a barrier before all of them have arrived, every participant passes once all have, and the barrier is reusable: this holds round after round for every arrival order and spacing, including simultaneous arrivals.',
  ['schedules', 'histories'],
  'for every arrival schedule, number of participants and rounds',
  'the test uses one arrival order',
  [T + 'thread.py'], [('arrival counting and release', 'thread/thread.py Barrier.wait')])
p('C12', 'Thread life cycle: start, run, join, done and results are consistent',
  'A started thread (or every thread of a pool) runs its function exactly once per start with the arguments given, join returns only after it has finished and then always returns, done is true exactly between completion and the next reset or start, and ret delivers that run\'s return value. '
  'This holds for any running times and any order of start, join, reset and restart by the parent, for threads run from several call sites and for re-used threads.',
  ['schedules', 'histories', 'programs'],
  'for every duration schedule of the children and every legal order of control operations',
  'tests use fixed-duration children in one order',
  [T + 'thread.py', T + 'pool.py', T + 'compiler.py'], [('start/run/join/done/ret/reset', 'thread/thread.py Thread'), ('pool', 'thread/pool.py')])
p('C13', 'A compiled thread computes what the Python function computes',
  'A thread function in the supported subset (arithmetic, comparisons, boolean logic, if/elif/else, while and for with break/continue/else, nested calls, early returns, keyword and default arguments) stores the same sequence of values to its outputs and shared objects as Python executing that function with the declared integer width. '
  'Stalls in the objects it waits for and the progress of other threads change only when, never what.',
  ['programs', 'schedules', 'inputs'],
  'for every generated program, its inputs, and the schedule of concurrent threads and blocking objects',
  'tests compile a few dozen hand-written functions with constant inputs',
  [T + 'compiler.py', T + 'operator.py', T + 'scope.py'], [('statement and expression compilation', 'thread/compiler.py CompileVisitor')])
p('C14', 'On-chip RAM ports behave as one sequential memory',
  'Every read through any port or method of a RAM or multibank RAM returns the value of the most recent earlier write to that word (or its declared initial value), every write changes exactly the addressed word of the addressed bank, whatever the other ports and threads do on other words. '
  'Word, bank-wise and burst accesses agree on the address mapping.',
  ['schedules', 'histories', 'configurations'],
  'for every interleaving of accesses of concurrent threads and external ports, every width, depth, bank count and initial content',
  'tests use one or two threads with a fixed pattern',
  [T + 'ram.py', 'veriloggen/types/ram.py', T + 'fixed.py'], [('RAM ports', 'types/ram.py'), ('read/write methods', 'thread/ram.py')])
p('C15', 'Stream kernels compute the same results whatever stalls they meet',
  'A stream computation fed from and written to RAMs produces, for every element, exactly the value its dataflow describes in element order (arithmetic, comparisons, conditionals, reductions, counters, predicates, stencil and scratch buffers, RAM read/write inside the stream), and writes exactly the sink words its pattern selects. '
  'Source, sink and internal stalls at any cycle change neither the values nor their number.',
  ['schedules', 'programs', 'inputs', 'configurations'],
  'for every generated kernel, source/sink pattern, input vector and stall schedule',
  'each test runs one kernel with one size and at most one fixed stall pattern',
  [T + 'stream.py', 'veriloggen/stream/stypes.py', 'veriloggen/stream/stream.py', 'veriloggen/stream/scheduler.py'],
  [('source/sink FSMs and stall enable', 'thread/stream.py'), ('operators and pipelining', 'stream/stypes.py, stream/scheduler.py')])
p('C16', 'Streams fed by FIFOs survive back-pressure on every port',
  'A stream whose sources and sinks are FIFOs (filled and drained by threads, other hardware or AXI-stream transfers) consumes each input exactly once, produces each output exactly once and in order with the value its dataflow describes, for any arrival gaps, empty/full conditions and back-pressure on any subset of ports. '
  'It never deadlocks while its peers keep supplying and accepting data.',
  ['schedules', 'inputs', 'configurations'],
  'for every arrival/back-pressure schedule on every port independently',
  'tests use one always-ready producer and consumer',
  [T + 'stream.py', T + 'fifo.py', 'veriloggen/types/axi.py'], [('FIFO source/sink, stall combination', 'thread/stream.py'), ('fifo read/write dataflow', 'types/fifo.py')])
p('C17', 'Stream control: every run is independent, join is exact',
  'A stream may be configured, run, joined, re-parameterised, re-run, run with new sources while idle, or terminated, any number of times; each run uses exactly the configuration in force when it was started and is unaffected by earlier runs. '
  'join returns only after the last output of that run has been stored, and always returns.',
  ['schedules', 'histories'],
  'for every sequence of control operations and every stall schedule',
  'tests perform one or two runs with fixed parameters',
  [T + 'stream.py'], [('run/join/done/terminate, source_join, parameter setting', 'thread/stream.py Stream')])
p('C18', 'Pipelined operator graphs with valid/ready lose and invent nothing',
  'A hardware pipeline generated from a stream expression with valid/ready ports yields, for each accepted input vector, exactly one output vector equal to the meaning of the expression, in order, for any arrival gaps and back-pressure. '
  'Stateful operators (previous values, counters, accumulators, ring buffers, predicates) advance exactly once per accepted input. Outputs hold while stalled, and accepted items drain within a bounded number of cycles once the consumer is ready.',
  ['schedules', 'programs', 'inputs'],
  'for every generated operator graph, operand width/sign, input sequence and valid/ready schedule',
  'tests feed one fixed sequence per operator at one rate',
  ['veriloggen/stream/stypes.py', 'veriloggen/stream/stream.py', 'veriloggen/stream/scheduler.py', 'veriloggen/stream/allocator.py'],
  [('operator implementation and enable/valid propagation', 'stream/stypes.py'), ('latency balancing', 'stream/scheduler.py')])
p('C19', 'Elastic dataflow graphs preserve every token',
  'A dataflow graph with per-port valid/ready handshakes produces for each output exactly the token sequence obtained by applying its operators to the input token sequences, whatever the arrival times and back-pressure of each port independently. '
  'No token is lost, duplicated or reordered and the graph does not deadlock while peers are willing.',
  ['schedules', 'programs', 'inputs'],
  'for every generated graph and every per-port valid/ready schedule',
  'tests use one graph per operator with fixed rates',
  ['veriloggen/dataflow/dtypes.py', 'veriloggen/dataflow/dataflow.py', 'veriloggen/dataflow/scheduler.py'],
  [('operators, registers with valid/ready', 'dataflow/dtypes.py'), ('latency balancing', 'dataflow/scheduler.py')])
p('C20', 'Pipeline stages keep data aligned with valid and ready',
  'A pipeline built from stages carries each accepted item through every stage exactly once with its value computed stage by stage, keeps parallel paths aligned, and holds all stages consistently when the consumer is not ready, for any valid/ready schedule.',
  ['schedules', 'programs', 'inputs'],
  'for every pipeline shape, input sequence and valid/ready schedule',
  'tests run fixed sequences',
  ['veriloggen/pipeline/pipeline.py'], [('stage registers with valid/ready', 'pipeline/pipeline.py')])
p('C21', 'Sequential blocks: conditions, delays and previous values mean what they say',
  'Every statement registered in a sequential block takes effect exactly in the cycles its condition selects, delayed assignments exactly the requested number of cycles later (with condition and value sampled as requested), previous-value references return the value that many cycles ago, and the last applicable statement wins. '
  'This holds for every stimulus including resets at any cycle, after which the block behaves as from power-up.',
  ['schedules', 'programs', 'histories'],
  'for every generated program of conditional/delayed assignments, stimulus history and reset instant',
  'tests observe one short stimulus',
  ['veriloggen/seq/seq.py', 'veriloggen/seq/subst_visitor.py', 'veriloggen/seq/reset_visitor.py'], [('If/Delay/Prev/body generation', 'seq/seq.py Seq')])
p('C22', 'State machines follow their declared transitions and actions',
  'A generated state machine is in each cycle in exactly the state its transition history dictates, performs a state\'s actions exactly in the cycles the machine is in it and the action\'s condition holds, and performs delayed and kept actions exactly the requested number of cycles later or long. '
  'This holds for every input history including resets at any cycle and for nested conditions, jumps, back edges and fall-through branches.',
  ['schedules', 'programs', 'histories'],
  'for every generated machine, input history and reset instant',
  'tests observe one input history',
  ['veriloggen/fsm/fsm.py'], [('goto/If/Then/Delay/make_always', 'fsm/fsm.py FSM')])
p('C23', 'The UART delivers every byte unchanged despite clock skew',
  'Every byte accepted by the transmitter appears on the line as one correctly timed 8N1 frame in acceptance order, and every well-formed frame arriving at the receiver is delivered exactly once with its value, for any gaps between bytes, full-duplex traffic and any clock skew and phase a UART must tolerate. '
  'Short glitches on an idle line and a consumer that is late for a byte never corrupt or duplicate the other bytes, and every UART of a design keeps its own rate.',
  ['schedules', 'fault_sequences', 'inputs'],
  'for every byte sequence, inter-byte gap, relative clock skew within tolerance and start phase',
  'tests loop back a few bytes on one clock',
  [T + 'uart.py'], [('transmit and receive shift machines', 'thread/uart.py')])
p('C24', 'Simulated memory models are faithful memories',
  'The memory models supplied for simulation accept every legal burst from any number of ports, return for each read the bytes most recently written there (or the preset image), answer each write exactly once, hold VALID and payload until accepted and keep responses in request order, for any master timing.',
  ['schedules', 'histories', 'configurations'],
  'for every legal master timing, burst mix, port count, width and preset image',
  'tests reach the model only through the library\'s own master, which never stalls a response',
  ['veriloggen/types/axi.py'], [('AxiMemoryModel, AxiMultiportMemoryModel', 'types/axi.py')])
p('C25', 'A reset at any instant returns the whole system to its initial behaviour',
  'Asserting reset at an arbitrary cycle, in the middle of any transfer, computation or handshake, and releasing it returns every generated component to its initial behaviour: a program restarted after it observes the same results as from power-up, and nothing of the interrupted work (requests, tokens, responses, locks, partially sent frames) leaks into the new one.',
  ['crash_points', 'schedules', 'configurations'],
  'for every reset instant and length during every workload',
  'tests assert reset once, at time zero',
  [T + 'axim.py', T + 'thread.py', T + 'stream.py', 'veriloggen/types/axi.py', 'veriloggen/types/fifo.py', 'veriloggen/seq/seq.py', 'veriloggen/fsm/fsm.py'],
  [('reset statements', 'seq/reset_visitor.py, seq/seq.py make_reset, fsm/fsm.py make_reset')])
p('C26', 'Generating a design is deterministic and leaves no trace in the process',
  'After veriloggen.reset() the same description yields byte-identical Verilog in every process, under every hash seed, in any working directory, and regardless of which other designs were generated (or failed to generate) before it in the same process. '
  'Without the reset, when designs are built interleaved in one process, and when the text of the same objects is generated twice, the text is the same up to the numbering of the automatically generated names.',
  ['histories', 'schedules', 'configurations'],
  'for every design, interpreter hash seed and process history (order and interleaving of other generations, garbage collections)',
  'each test generates one design per process start-up order and compares against one stored text',
  ['veriloggen/core/module.py', 'veriloggen/verilog/to_verilog.py', 'veriloggen/resolver/resolver.py', T + 'ram.py', T + 'stream.py', 'veriloggen/stream/stream.py'],
  [('global counters and caches', 'core/vtypes.py, thread/*.py, stream/*.py, dataflow/*.py, seq/seq.py, fsm/fsm.py')])
p('C27', 'Generated designs do not depend on the simulator\'s process order',
  'The cycle-by-cycle behaviour of a generated design is the same for every order in which a Verilog simulator may execute the concurrently triggered processes of one instant, so simulation and hardware agree.',
  ['schedules', 'programs', 'configurations'],
  'for every permutation of concurrently scheduled always/assign processes, every design family and stimulus',
  'tests run one simulator, whose order is fixed by the text order',
  ['veriloggen/seq/seq.py', 'veriloggen/fsm/fsm.py', T + 'stream.py', T + 'axim.py', 'veriloggen/core/module.py'],
  [('single-driver registers, non-blocking assignment', 'seq/seq.py, fsm/fsm.py, core/module.py')])
p('C28', 'The simulation front end reports what the simulator did, and cleans up',
  'Running a simulation from Python returns the simulator\'s complete output, propagates failure of the compiler or simulator to the caller instead of returning a normal-looking result, uses the options, files and paths it was given, and leaves no temporary files behind, whatever the tools do (missing tool, non-zero exit, killed process, partial output, full disk) and also when simulations overlap.',
  ['fault_sequences', 'configurations', 'histories'],
  'for every failure of the external tools and file system at any point and every option combination',
  'tests only run the happy path',
  ['veriloggen/simulation/simulation.py'], [('run_iverilog/run_verilator/run_modelsim', 'simulation/simulation.py')])
p('C29', 'Skid buffers and elastic registers are transparent',
  'A skid buffer or elastic pipeline register passes every accepted item exactly once, in order and unchanged, keeps VALID and data stable until accepted, sustains one item per cycle when both sides are willing and never accepts what it cannot store, for every valid/ready schedule, data set and depth.',
  ['schedules', 'configurations'],
  'for every valid/ready schedule, payload shape and reset instant',
  'the test uses one schedule',
  ['veriloggen/types/skidbuffer.py'], [('skid register and main register', 'types/skidbuffer.py')])

NA = [
    ('N01', 'Verilog text round trip', 'Reading Verilog text into module objects and writing it out again yields a module with the same meaning.',
     ['inputs', 'programs'], 'for every Verilog source in the supported subset', 'tests convert some files',
     ['veriloggen/verilog/from_verilog.py', 'veriloggen/verilog/to_verilog.py'], [('visitors', 'verilog/from_verilog.py, verilog/to_verilog.py')]),
    ('N02', 'Fixed-point conversion arithmetic', 'Converting between Python numbers and fixed-point words and operating on them yields the nearest representable result for every value, width and point position.',
     ['inputs'], 'for every value, width and binary point', 'tests check a few constants',
     ['veriloggen/types/fixed.py'], [('to_fixed/fixed_to_*', 'types/fixed.py')]),
    ('N03', 'Optimizer and resolver preserve meaning', 'Constant folding and parameter resolution never change the value of an expression or the structure\'s behaviour.',
     ['inputs', 'programs'], 'for every expression and parameter assignment', 'tests check a few expressions',
     ['veriloggen/optimizer/optimizer.py', 'veriloggen/resolver/resolver.py'], [('visitors', 'optimizer.py, resolver.py')]),
    ('N04', 'IP-XACT packages describe the module', 'The generated IP package lists exactly the module\'s ports, interfaces, clocks, resets and register spaces.',
     ['configurations'], 'for every module and interface mix', 'tests only generate it',
     ['veriloggen/types/ipxact.py', 'veriloggen/types/componentgen.py'], [('component generation', 'types/componentgen.py')]),
    ('N05', 'Memory image conversion', 'Converting arrays to and from the byte image of the simulated memory places every element at its address with its width and byte order.',
     ['inputs'], 'for every array shape, element width and base', 'tests convert small arrays',
     ['veriloggen/types/axi.py'], [('to_memory_image, set_memory', 'types/axi.py')]),
]
for x in NA:
    p(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    print(len(P))
