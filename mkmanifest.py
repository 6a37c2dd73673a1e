#!/usr/bin/env python3
"""writes MANIFEST.json (developer tool)"""
import json
TECH = 'contract-based deductive verification: verification conditions generated from the LLVM IR of the real functions, loop invariants inferred and re-proved on every run, discharged by z3'
NOTE = {
 'P01': 'Proof, function by function and for all inputs, iterations and real option values up to 10^6 in magnitude, of every bounds, overflow, division, conversion, null and assertion obligation; the functions listed in baseline.json use STL trees/deques the memory model does not accept and get a bounded sanitizer search instead (reported as bounded). Trusted: the generator, clang 18 and opt passes, z3, libm.',
 'P02': 'Proof that every return path wrote exactly the announced prefix of every output, in order, or nothing, plus termination by ranking functions; same bounded exceptions and trust as P01.',
 'P11': 'Proof, with every allocation modelled as possibly failing, of release-exactly-once on every return path, no escaping exception and out-of-memory reporting; same bounded exceptions (fault-injection search) and trust as P01.',
 'P03': 'Proof for every indicator that the reject conditions of the batch function, the reference and the stream constructor are the same predicate over the options (any length, data, allocation result) and that accepted options give a start offset of at least 0. Option arithmetic is treated as exact. Trusted: the generator, clang 18 and opt passes, z3, libm.',
 'P05': 'Proof, over the inferred and re-proved object invariant of each stream, that every run call accepts any chunk, advances progress by the chunk size and writes exactly the announced outputs, so counts and progress are the same for every chunking. That the output values are the same for every chunking is so far a bounded search (stated in the evidence), as are the streams listed in baseline.json.',
 'P08': 'Proof of every operation of ringbuf<0> (any capacity up to 2^27), ringbuf<1,2,3,4,5,7,13> (the instances the indicators use) and ti_buffer (function and macros) against the abstract window of latest values; a history is an induction over these operations. Values are real numbers: NaN in extremum queries and the rounding of the running sum are outside the contract. Trusted: the generator, clang 18 and opt passes, z3.',
 'P09': 'Proof on the generated file: every table entry field by field against indicators.yaml and the defined entry points, the lookup function for every string by loop invariants over the order of names (strcmp assumed to be the byte order), the generic stream functions act on the entry the index selects, and each stream object carries the index of its own entry for its whole life (the streams with STL state in baseline.json are searched instead).',
 'P13': 'Proof that no module has writable static data or calls stateful library functions and that every write of every function lies in its outputs, its own allocations or its own stream; that results do not depend on fresh memory contents or interleaved calls is additionally searched (bounded). The functions in baseline.json are outside the memory model and only searched.',
 'P12': 'Proof per stream (constructor, run, free) over an object invariant established by the constructor and kept by every run call: bounds, arithmetic, allocation failure, release exactly once; the streams listed in baseline.json are outside the memory model or have undischarged obligations and get a bounded sanitizer and fault-injection search (reported as bounded). Trusted: the generator, clang 18 and opt passes, z3, libm.',
}
LEVEL = {'P06': 'exploration'}
BOUND = TECH + ' for the functions within reach (a minority); for the others a bounded stand-in for the contract: the definition of every indicator (vc/specs.py, written from the published definition) evaluated on concrete bars and compared with the real function'
NOTE.update({
 'P04': 'Proof over all inputs and all real option values, by two ghost arguments on each function: every input read is of a bar no later than the output being produced and no element is written twice; every use of the series length (branch, selection, address, conversion, loop-carried value) is the same for any shorter length until the shorter run has all its outputs. The functions in baseline.json (built from calls over whole arrays, STL trees) are bounded instead: run on a series, on its prefixes and on series that differ only later, outputs compared bit by bit. Trusted: the generator, clang 18 and opt passes, z3, libm.',
 'P06': 'Proof for 19 of the 55 streams (those not listed in baseline.json): the values a new stream writes for a whole series equal the definition, and so do those of the batch function, for every series, length and whole-number period over exact reals. The other 36, and every split into chunks, are bounded: each stream is fed random chunks and compared with the batch function within what rounding can do to the defined value.',
 'P07': 'Proof for the functions not listed in baseline.json (125 of 207): every value written equals the ghost value of the definition at its bar, for every series, length and whole-number period, over exact reals (rounding, NaN outside), by loop invariants that name the ghost each variable holds. The others, and all functions on top of the proof, are compared with the definition on random, grid (ties, flat stretches, jumps) and constant bars within what rounding can do (bounded, reported separately and never counted as proved).',
 'P10': 'Proof for 65 of the 130 functions (those not listed in baseline.json): the value contract of the function is re-proved, and the documented range, order or window bound is derived from the definition by induction lemmas over its recursions and windowed sums (vc/lemma.py), for every bar, period and well-formed series, over exact reals and where the definition does not divide by zero. The rest is bounded: ranges, orders, window membership and extremes on random, grid and constant bars; the bounded search runs for the proved ones too.',
})
import sys, os
sys.path.insert(0, '/verif/vc')
NA = {
}
m = dict(version=1, setup_cmd='python3-vt -c "import z3, yaml"',
         checks=[dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                      technique=BOUND if p in LEVEL else TECH, level=LEVEL.get(p, 'proof'), level_note=NOTE[p]) for p in sorted(NOTE)],
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items()) if p not in NOTE])
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
