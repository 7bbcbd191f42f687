"""Which engines decide which property, and what the evidence says about it."""
R, G15, G16 = 0, 1, 2
def allmaps(*cfgs): return [(m, c) for c in cfgs for m in (R, G15, G16)]
def robin(*cfgs): return [(R, c) for c in cfgs]
LITE_B = allmaps('P', 'T')
A_MAP = ['operation histories, configurations, fault plans and schedules are sampled from seeds, not enumerated',
         'the reference model and the simulator are trusted; the map code is compiled from /repo/src with g++ -O1, release assertions, two instruction-set variants',
         'hash and equality functions are deterministic and consistent; operations on one map are not concurrent unless all are const']
RULE = 'one evaluation is one simulated run: a configuration, operation trace, fault plan and schedule derived from one seed. Non-trivial: the run made a table build or rebuild its storage at least once. Distinct: by hash of the event log (operations, outcomes, allocator calls, faults, sampled table states).'
RULE_MISC = 'one evaluation is one simulated run: a sequence of calls on several objects interleaved with clock steps, all derived from one seed. Every run draws or reads at least one value. Distinct: by hash of the event log (calls, returned values, clock readings).'
A_RNG = ['call sequences, seeds, ranges and clock readings are sampled from seeds, not enumerated', 'the reference generators (checked against std::mt19937, std::mt19937_64 and published outputs) are trusted', 'time() readings stay within 32 bits; floating-point ranges have a finite width']
A_CLK = ['call sequences and clock histories are sampled from seeds, not enumerated', 'the stopwatch reference model is trusted; StopWatchEx::again() is called only while an unaccumulated interval exists', 'readings are compared to 4e-10 s plus a relative 1e-14']
A_TIME = ['call sequences, clock histories and interruptions are sampled from seeds, not enumerated', 'interrupted sleeping calls report the remaining time exactly, as the system does']
COMPONENTS = {
 'map': {'real': ['robin_hash_map', 'group15_flat_map/table', 'group16_flat_map/table', 'their iterators, slot policies, probers, SIMD paths'], 'simulated': ['allocator and memory', 'hash and equality functions', 'key and value types', 'caller tasks and their scheduler'], 'stub': []},
 'rng': {'real': ['jstd::MT19937_32/64', 'jstd::BasicRandomGenerator', 'jstd::MtRandomGen helpers'], 'simulated': ['time()'], 'stub': ['adversarial random algorithm plugged into BasicRandomGenerator']},
 'time': {'real': ['jstd/system/time.h', 'jstd/system/sleep.h'], 'simulated': ['clock_gettime(), gettimeofday()', 'nanosleep(), usleep(), clock_nanosleep(), sleep(), select(), poll()', 'signals that interrupt them'], 'stub': []},
 'clock': {'real': ['jstd::BasicStopWatch, StopWatchExBase and their clock adapters'], 'simulated': ['clock(), gettimeofday(), clock_gettime()'], 'stub': []},
}
def plan(a, b=LITE_B, rule=RULE, assumptions=A_MAP, **kw): d = dict(a=a, b=b, rule=rule, assumptions=assumptions); d.update(kw); return d
PLANS = {
 'C01': plan(allmaps('P', 'P1', 'P2', 'T', 'B', 'S', 'DS') + robin('LH', 'LT', 'LB')),
 'C02': plan(allmaps('P', 'P2', 'T', 'B', 'D') + robin('LH', 'LI')),
 'C03': plan(allmaps('P', 'P2', 'T', 'B') + robin('LH', 'LT', 'LI')),
 'C04': plan(allmaps('P', 'T', 'TA', 'B', 'S', 'C', 'D') + robin('LT', 'LI')),
 'C05': plan(allmaps('P', 'P2', 'T', 'TA', 'B', 'M') + robin('LN', 'LI', 'LB')),
 'C06': plan(allmaps('P', 'P2', 'T', 'B', 'DS') + robin('LH', 'LT')),
 'C07': plan(allmaps('P', 'P2', 'TA', 'T', 'B') + robin('LH', 'LT', 'LB')),
 'C08': plan(allmaps('P', 'P2', 'T', 'B', 'M', 'S') + robin('LT')),
 'C09': plan(allmaps('P', 'T', 'TA', 'B', 'M') + robin('LT', 'LN')),
 'C10': plan(allmaps('T', 'B', 'C', 'X', 'M', 'MB') + robin('LT', 'LB')),
 'C11': plan(allmaps('T', 'B', 'C', 'X', 'M', 'MB') + robin('LT', 'LB', 'LN'), allmaps('T', 'B')),
 'C12': plan(allmaps('P', 'P2', 'PI', 'T', 'TA', 'B', 'O', 'M', 'C') + robin('LT', 'LI', 'LN')),
 'C13': plan(allmaps('P', 'T', 'B', 'S') + robin('LH', 'LT')),
 'C14': plan(allmaps('P', 'P2', 'T', 'B', 'M') + robin('LB', 'LT')),
 'C15': plan(allmaps('P', 'T', 'TA', 'B', 'M', 'S') + robin('LI')),
 'C16': plan(allmaps('P', 'T', 'B', 'C', 'M', 'S') + robin('LT', 'LB')),
 'C17': plan(allmaps('P', 'PI', 'T', 'B', 'D') + robin('LH', 'LT'), variant='s', variant_b='t'),
 'C21': plan(allmaps('M', 'MB', 'C', 'O', 'X', 'P1', 'P2') + robin('LB', 'LO'), allmaps('M', 'O'), must_compile=True),
 'C22': plan(allmaps('T', 'TA', 'B') + robin('LT'), allmaps('T', 'B'), must_compile=True),
 'C23': plan(allmaps('P', 'P2', 'T', 'TA', 'B', 'M', 'C', 'S', 'D') + robin('LH', 'LI', 'LT', 'LB', 'LO'), [], variant='d', must_compile=True, assumptions=[A_MAP[0], 'the reference model and the simulator are trusted; the map code is compiled from /repo/src with g++ -O1 and assertions enabled'] + A_MAP[2:]),
 'C18': plan([], [], kind='rng', rule=RULE_MISC, assumptions=A_RNG),
 'C19': plan([], [], kind='rng', rule=RULE_MISC, assumptions=A_RNG),
 'C24': plan([], [], kind='time', rule=RULE_MISC, assumptions=A_TIME, src=['times.cpp'], must_compile=True),
 'C20': plan([], [], kind='clock', rule=RULE_MISC, assumptions=A_CLK),
}
