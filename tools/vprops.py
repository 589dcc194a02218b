"""What decides each property: which builds of the simulator, what is real and what is a stub."""
ALL = ('nu', 'nt', 'nn', 'np')
REAL = ['code generator (runs in the check, on the corpus specification)', 'generated packet classes, Controller and Controllee',
        'include/vrtgen (packing, sockets, NATS client, send helpers)', 'libstdc++ threads, futures, condition variables (on simulated primitives)']
STUBS = ['thread scheduling, mutexes, condition variables and clocks (simulated, seeded)', 'socket system calls: UDP and TCP over a simulated network',
         'libnats: an in-process broker behind the public nats.h interface', 'application handlers and listeners (the workload)']
ASSUME = ['interleavings switch at intercepted points only (system calls, locks, waits, clock reads, thread start and end)',
          'simulated socket and broker calls follow the documented behaviour of Linux sockets and libnats']


def sim(builds, **k):
    d = {'kind': 'sim', 'builds': builds, 'real': REAL, 'stubs': STUBS, 'assume': ASSUME}
    d.update(k)
    return d


FULL = [('asan', ALL, 1.0)]
PROPS = {p: sim(FULL) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'D01', 'D02', 'D03', 'R01', 'R02', 'R03', 'R04', 'L01', 'L02')}
PROPS['C06'] = sim([('asan', ('nt',), 1.0)])
PROPS['S01'] = sim([('asan', (), 1.0)])
PROPS['N01'] = sim([('asan', (), 1.0)])
PROPS['N02'] = sim([('asan', (), 1.0)])

PROPS['L03'] = sim([('tsan', ALL, 1.0)])

GEN_NOTE = ('Seeded search over histories of real generator executions on one scratch directory, with every file-system call faulted, delayed, cut short, reordered between '
            'concurrent executions or used as the point of a kill; finds violations within the explored histories, proves nothing beyond them. Trusts the shim below the C library '
            'calls and the list of specifications.')
PROPS.update({p: {'kind': 'gen', 'quick': 45, 'note': GEN_NOTE} for p in ('G01', 'G02', 'G03')})

NOTE = 'Seeded search over simulated executions of the real generated code and library; finds violations within the explored schedules and faults, proves nothing beyond them. Trusts the simulated socket/broker/thread primitives and the reference packet codec in harness/pkt.cpp.'
for _p in PROPS.values(): _p.setdefault('note', NOTE)
CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'D01', 'D02', 'D03', 'R01', 'R02', 'R03', 'R04', 'L01', 'L02', 'L03', 'S01', 'N01', 'N02', 'G01', 'G02', 'G03']
