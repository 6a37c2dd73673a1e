#!/usr/bin/env python3
"""writes properties.jsonl (developer tool)"""
import json
I = 'indicators/*.cc'
P = []


def p(id, title, st, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe))))


p('P01', 'Calls stay inside the caller\'s arrays and free of undefined behaviour',
  'For any options, any series length and any data, calling an indicator (or its reference variant) reads only the given elements of its input arrays, writes only the elements of its output arrays that its start offset announces, and leaves inputs and options untouched. It performs no integer overflow, division by integer zero, out-of-range float-to-int conversion, null or dangling access and no failed internal assertion.',
  ['inputs', 'configurations'], 'every option vector (fractions, zero and negatives included), every length from 0 up, every data value including NaN and infinities, for each of the 161 indicators and 46 reference variants',
  'The tests call each indicator with a few fixed option vectors on a few hundred ordinary bars; out-of-bounds accesses for other periods, short series or large periods stay silent.',
  [I, 'utils/buffer.h', 'utils/buffer.c', 'utils/ringbuf.hh', 'utils/minmax.h'],
  [('option checks and the early return on short series', 'first lines of every indicator function'), ('ring buffer index arithmetic', 'utils/ringbuf.hh, utils/buffer.h')],
  [('inputs/outputs', 'caller-owned arrays of size and size-start values', 'indicators.h signatures')], ['memory accesses', 'integer arithmetic'])
p('P02', 'Exactly size minus start outputs are produced, or none',
  'A successful call writes every element of every output array, in order and exactly max(0, size - start) of them, where start is what the indicator\'s start function returns for the same options; a call that reports an error writes nothing. Every call returns one of the documented codes and terminates.',
  ['inputs', 'configurations'], 'every option vector, every length, every data value, each indicator and reference variant',
  'Tests compare a handful of lengths and periods; a missing or extra element shows only for particular combinations of length and periods (length just above start, period 1, fractional or descending periods).',
  [I], [('output pointer advance per bar', 'main loops of every indicator'), ('start functions', 'ti_*_start')], [], ['output arrays', 'return code'])
p('P03', 'Batch, reference and stream accept the same options, with a valid start',
  'For every option vector, the batch function, the reference variant and the stream constructor of an indicator either all accept it or all report an invalid option, independent of the data and the series length. Whenever options are accepted the start offset is not negative.',
  ['configurations'], 'every vector of real option values',
  'Tests only ever pass valid options, so an option accepted by one entry point and rejected by another goes unseen.',
  [I], [('option validation', 'head of ti_*, ti_*_ref, ti_*_stream_new'), ('start functions', 'ti_*_start')], [], ['return codes', 'start value'])
p('P04', 'Outputs depend only on bars up to their own',
  'Output element k of a batch call depends only on the options and on bars 0 .. k+start: running the indicator on any prefix of the series, or on a series that differs only in later bars, gives the same earlier outputs.',
  ['inputs', 'histories'], 'every series, every prefix length, every option vector accepted, each indicator and reference variant',
  'The tests compare full-length results only; look-ahead would show only by comparing runs on different prefixes.',
  [I], [('single forward pass over the bars', 'main loops of every indicator')], [], ['output arrays of two runs'])
p('P05', 'A stream gives the same outputs however its input is split into chunks',
  'Feeding a series to a stream in any sequence of chunks, empty ones included, produces the same output sequence as feeding it in one call. After each call the reported progress equals minus the start offset plus the number of bars fed so far, and exactly as many outputs are produced as bars with non-negative progress were consumed.',
  ['histories', 'inputs'], 'every chunking of every series, every accepted option vector, each of the streaming indicators',
  'Tests feed one or two fixed chunk sizes; state that is not carried over at one particular split point goes unseen.',
  [I, 'utils/ringbuf.hh'], [('state saved back to the stream object', 'end of each stream run function'), ('progress counter', 'struct ti_stream')],
  [('progress', 'bars consumed minus start', 'struct ti_stream in indicators.h')], ['outputs and progress after each call'])
p('P06', 'Streams compute the same values as the batch function',
  'For whole-number periods, the outputs of a stream fed a series equal the outputs of the batch function on that series, up to floating-point rounding.',
  ['inputs', 'histories'], 'every series of positive prices, every accepted option vector with whole-number periods, each streaming indicator',
  'The existing comparison uses one random series and the default options of each indicator.',
  [I, 'utils/ringbuf.hh'], [('incremental update of sums, extrema and averages', 'stream run functions')], [], ['output values'])
p('P07', 'Indicator values follow their mathematical definition',
  'For whole-number periods, each output of an indicator equals the value its published definition gives for the same bars, up to floating-point rounding: moving averages, sums, extrema, deviations, oscillators and the element-wise functions. Where a reference variant exists, it and the optimised function agree.',
  ['inputs', 'configurations'], 'every series, every accepted option vector with whole-number periods',
  'Tests hold a few recorded numbers per indicator for one or two periods; a wrong update that shows only for other periods, ties, flat or falling data passes.',
  [I], [('incremental update formulas', 'main loops')], [], ['output values'])
p('P08', 'Ring buffers behave as the window of the latest values',
  'After any sequence of pushes, a ring buffer of capacity n returns for age k < n the value pushed k steps ago (zero where nothing was pushed yet); its maximum and minimum queries return the position of one of the requested number of most recent values, and that value is their maximum or minimum; the age it reports for a position is the age of the value stored there. The summing buffer likewise returns values by age and its running sum is the sum of the values it holds.',
  ['histories', 'inputs'], 'every capacity, every sequence of pushes and queries',
  'There is no unit test of the buffers; the indicators exercise them at a few capacities.',
  ['utils/ringbuf.hh', 'utils/buffer.h', 'utils/buffer.c'], [('index wrap-around', 'step, operator[], ti_buffer_push'), ('split search', 'find_max/find_min')],
  [('pos/index', 'position of the newest (or next) element', 'utils/ringbuf.hh, utils/buffer.h')], ['returned values'])
p('P09', 'The registry finds every indicator by name and dispatches to its own functions',
  'Looking a name up returns that indicator\'s entry for every registered name and nothing for any other string; each entry\'s input, option and output counts, names and function pointers are those of that indicator. Running, querying or freeing a stream through the generic interface acts on exactly the functions of the indicator that created it.',
  ['inputs', 'configurations'], 'every C string, every registered indicator, every stream',
  'Tests look up a few known names and one unknown name.',
  ['codegen.py', 'indicators.yaml', I], [('sorted table and binary search', 'ti_find_indicator in the generated index'), ('stream index', 'ti_stream_run/get_info/get_progress/free')], [], ['lookup result', 'table entries'])
p('P10', 'Bounded and ordered outputs stay in their documented range',
  'For ordinary bars (low <= open, close <= high, positive volume) oscillators with a documented range stay inside it and bands keep their order: lower <= middle <= upper. Averages of a window lie between the smallest and the largest value of the window, and extremum outputs are themselves values of the window.',
  ['inputs', 'configurations'], 'every well-formed series and every accepted option vector with whole-number periods',
  'Range violations appear only on unusual data (flat windows, ties, extreme moves) that recorded test vectors do not contain.',
  [I], [('normalising divisions and their guards', 'main loops'), ('min/max window maintenance', 'main loops, utils/minmax.h')], [], ['output values'])
p('P11', 'Failed allocations are reported and every resource is released',
  'Whenever an allocation inside a batch or reference call is refused, the call returns the out-of-memory code; no exception ever leaves the library. On every return path, successful or not, everything the call allocated has been released exactly once.',
  ['fault_sequences', 'inputs', 'configurations'], 'every subset of allocations failing, every option vector, every length, each indicator and reference variant',
  'Allocation never fails in the tests and they run without a leak checker.',
  [I, 'utils/buffer.c'], [('null checks and catch blocks', 'allocation sites'), ('free calls and destructors', 'all return paths')], [], ['return code', 'heap'])
p('P12', 'Streams stay memory-safe over their whole life',
  'For any accepted options and any sequence of run calls with any chunk sizes and data, a stream reads only the given inputs, writes only the outputs that its progress announces, and never touches memory outside its own state or performs undefined arithmetic. Construction reports a refused allocation as out of memory and releases everything it had taken; freeing a stream releases all its memory exactly once.',
  ['histories', 'inputs', 'fault_sequences'], 'every option vector, every sequence of chunks, every data value, every refused allocation, each streaming indicator',
  'Tests create each stream once with default options; out-of-window reads, leaks and unreported allocation failures do not show.',
  [I, 'utils/ringbuf.hh'], [('object state established by construction and kept by each run', 'ti_*_stream_new, ti_*_stream_run'), ('release', 'ti_*_stream_free')],
  [('stream object', 'options, constants and running state', 'struct ti_*_stream')], ['memory accesses', 'heap'])
p('P13', 'Calls are independent: no hidden state is kept between them',
  'The result of a call depends only on its arguments (and, for a stream, on that stream\'s own history): no function of the library modifies memory other than its outputs, its own stream and memory it allocated. Interleaving calls and streams in any order therefore never changes a result.',
  ['histories', 'schedules'], 'every sequence or interleaving of calls to any of the functions',
  'Tests run one indicator at a time.',
  [I, 'utils/buffer.c', 'codegen.py'], [('no mutable global or static data', 'all translation units')], [], ['outputs of interleaved calls'])
open('properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
