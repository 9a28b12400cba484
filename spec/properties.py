# What is claimed: the source of properties.jsonl and MANIFEST.json (tools/gen.py).
PROPS, NA = [], []
SYM = "Exhaustive over the stated bounds by symbolic execution + SMT; the harness file states bounds and assumptions, the evidence repeats them. Trusted: clang's IR of the code, the executor (cross-checked by native witness replay), the solvers."


def P(id, title, statement, over, q, why, files, mech, note='', **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                      note=(note + ' ' if note else '') + SYM, **kw))


def N(id, title, statement, over, q, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, reason=reason))


P('P01', 'FixedVector behaves as a bounded sequence',
  'Every FixedVector operation (push_back and resize with their bool results, push_back_for_overwrite, pop_back, insert, erase of an index or a range, clear, indexed access below the size, iteration) leaves the vector equal to the same operation on a plain sequence truncated at the capacity. Operations that do not fit or do not apply are refused without changing any element, and no insert, erase or resize touches storage outside the vector, whatever index or size it is given.',
  ['histories', 'inputs'], 'every operation sequence within the bound, every argument (any 64-bit index and size), every element value',
  'The tests run a handful of fixed sequences; out-of-range indices, full/empty boundaries and multi-byte elements are combinations they do not enumerate.',
  ['util/fixed_vector.hh'], [('bounds checks in insert/erase/resize', 'util/fixed_vector.hh')])
P('P02', 'CircularBuffer and CircularBufferOpt are bounded queues dropping the oldest',
  'For CircularBuffer and CircularBufferOpt, after any sequence of put, get, remove_first and reset, elements come out once each in the order they went in, a put into a full buffer drops exactly the oldest element, and count, empty, full, peek and first agree with the contents. Pre-filling with set_head and fill_buffer gives the documented fixed delay, and nothing outside the storage is read or written.',
  ['histories', 'inputs'], 'every reachable read position and fill, every operation sequence within the bound, every element value',
  'The tests use one or two sizes with a few elements and byte-like values; wrap-around with multi-byte elements is never enumerated.',
  ['util/circular_buffer.hh', 'util/circular_buffer_opt.hh'], [('head/tail arithmetic and full flag', 'util/circular_buffer.hh'), ('power-of-two masks', 'util/circular_buffer_opt.hh')])
P('P03', 'Circular block access wraps correctly at every position and length',
  'Forward and reverse block reads and writes of up to the buffer size through CircularBufferAccess, and CircularBufferBlock::write, access exactly the consecutive elements from the current position, wrapping at the ends of the buffer, and advance the positions by the block length. The wrapped and marker-crossed results say whether the position passed the end or the marker; other elements are unchanged and nothing outside the buffer is accessed.',
  ['inputs', 'histories'], 'every start position, every block length up to the buffer size, every element value',
  'The tests cover chosen positions; blocks that end exactly at, or straddle, the end of the buffer for each element size are not enumerated.',
  ['util/circular_buffer_ext.hh', 'util/circular_buffer_block.hh'], [('wrap handling in read/write', 'util/circular_buffer_ext.hh')])
P('P04', 'CircularStack is a bounded stack that forgets its bottom element',
  'CircularStack pops and shows elements newest first (pop_back, pop_back_or_zero, back); pushing onto a full stack discards the oldest element and nothing else; size, empty and back agree with the contents and a pop from an empty stack yields nothing and changes nothing.',
  ['histories', 'inputs'], 'every fill and rotation of the storage, then every operation sequence within the bound, every element value',
  'The tests sample a few sequences of one capacity.',
  ['util/circular_stack.hh'], [('top index wrap and element count', 'util/circular_stack.hh')])
P('P05', 'InputBuffer and OutputBuffer neither lose, repeat nor invent elements',
  'An InputBuffer holds, in order, the first max_size elements put since its last reset and is full exactly then, later ones being ignored. An OutputBuffer hands out its elements once each in order and default values afterwards.',
  ['histories', 'inputs'], 'every operation sequence within the bound, every element value',
  'Nothing in the test suite covers them beyond, at most, one fixed sequence.',
  ['util/input_output_buffer.hh'], [('position checks in put and get', 'util/input_output_buffer.hh')])
P('P06', 'The lock-free FIFOs are bounded queues from one thread',
  'LockFreeFifoSpsc and LockFreeFifoSpscDyn (with a power-of-two capacity where their counters wrap) accept a put exactly when they are not full, return elements once each in the order put, and report count, room, empty and full consistently, at any counter position including the wrap of the counters. reset empties the queue, remove_first drops the oldest element, pre-filling and read/write positions give the documented delay, and nothing outside the storage is accessed.',
  ['histories', 'inputs'], 'every start position of the free-running counters, every fill, every operation sequence within the bound, every element value',
  'The tests never bring the counters to their wrap and sample few interleavings of put and get.',
  ['util/lockfree_fifo_spsc.hh', 'util/lockfree_fifo_spsc_dyn.hh'], [('free-running head/tail counters', 'util/lockfree_fifo_spsc.hh')])
P('P08', 'DoubleBufferStream sends accepted words once, in order, from stable memory',
  'Every word DoubleBufferStream accepts is handed to the transmit function exactly once and in order, never while an earlier transmission is still in progress, and the memory handed over is not modified until that transmission completes. A word that does not fit is refused without disturbing those already accepted.',
  ['histories', 'inputs'], 'every sequence of append / completion calls within the bound, every word length and content',
  'The tests use single scripted histories; completion arriving between any two appends is not enumerated.',
  ['util/doublebuf_stream.hh'], [('swap on transmission complete', 'util/doublebuf_stream.hh')],
  note='Assumes the transmit function accepts what it is given and single-threaded use (both documented).')
P('P09', 'Compact binary writer, serializer and parser agree on the format',
  'The bytes CompactBinaryWriter produces, the bytes CompactBinarySerializer serializes or streams for the same description, and the size it measures are all the documented encoding: key, size, little-endian data, nested objects with their own size. The parser finds every top-level key at its data with its size, gives back every value written, descends into nested objects, and reports absent keys as absent.',
  ['inputs', 'histories'], 'every program of writes within the bound, every key and data value, for several key and size types',
  'The tests check a few fixed documents byte by byte; key and size widths, empty data and nesting combine to more shapes than samples reach.',
  ['util/compact_binary_writer.hh', 'util/compact_binary_serializer.hh', 'util/compact_binary_parser.hh'], [('size back-patching of objects', 'util/compact_binary_writer.hh'), ('measure / serialize passes', 'util/compact_binary_serializer.hh')],
  note='Within a program all data sizes fit the size type and objects are closed.')
P('P10', 'Compact binary output never leaves its buffer and reports the full size',
  'Writing a description into a buffer of any size, including zero and including objects left open, closed too often or nested deeper than the limit, never touches a byte outside the buffer; what does fit is what an unlimited buffer would hold; and the reported size or overflow is that of the whole description.',
  ['inputs', 'histories'], 'every program within the bound with every buffer size from 0 to beyond the full encoding',
  'The tests try a few buffer sizes; the cut can fall inside any key, size field, datum or back-patched object size.',
  ['util/compact_binary_writer.hh', 'util/compact_binary_serializer.hh'], [('bounds checks on each write and on the back-patch', 'util/compact_binary_writer.hh')])
P('P11', 'CompactBinaryParser survives any bytes and reads them as the format says',
  'For any bytes whatever, the parser accesses only the blob it was given, terminates, and finds a key exactly where a straightforward reading of the format puts it; entries whose size runs past the end of the blob are not returned as data.',
  ['inputs'], 'every blob of every length within the bound, every key, for signed and unsigned size types of 1 to 8 bytes',
  'Malformed input is unbounded in variety; the tests sample well-formed documents and a few truncations.',
  ['util/compact_binary_parser.hh'], [('offset + size arithmetic', 'util/compact_binary_parser.hh')])
P('P12', 'SeqMap stores, overwrites and evicts as documented for any keys',
  'SeqMap lookups return the value most recently inserted or overwritten for a key and nothing for an absent key; insert appends until the map is full and is then refused; overwrite of a full map replaces the oldest entry; remove removes only that key. No operation touches storage outside the map.',
  ['histories', 'inputs'], 'every operation sequence within the bound, every combination of equal and different keys, every value',
  'The tests use fixed keys in one order.',
  ['util/seq_map.hh'], [('slot search and oldest counter', 'util/seq_map.hh')])
P('P13', 'SequentialMap is an ordered map of unique keys bounded by its capacity',
  'SequentialMap keeps the first value inserted for each key, in insertion order, refuses keys beyond its capacity, and finds, counts, indexes, erases and iterates exactly the entries it holds. Access to an absent key never yields a dangling reference or storage outside the map.',
  ['histories', 'inputs'], 'every operation sequence within the bound, every combination of equal and different keys, every value',
  'The tests use fixed keys in one order and never look at a missing key through a const map.',
  ['util/sequential_map.hh'], [('linear search and erase shifting', 'util/sequential_map.hh')])
P('P14', 'Pool hands out distinct objects up to capacity and destroys only live ones',
  'Pool creation succeeds exactly while fewer than the maximum number of objects are live; the object it returns shares storage with no live object and keeps its value until destroyed. Destroying null, a foreign pointer or an object that is not live is refused and changes nothing.',
  ['histories', 'inputs'], 'every create/destroy history within the bound, every choice of entry to destroy, every object value',
  'The tests run a few fixed histories.',
  ['util/pool.hh'], [('free list / used flags', 'util/pool.hh')])
P('P16', 'Allocators return disjoint, big enough, aligned blocks for every request',
  'MonotonicAllocator returns consecutive, non-overlapping blocks inside its arena and refuses a request exactly when the remaining space is too small, whatever the 64-bit size. AlignedAllocator obtains a block that covers all requested objects, has the requested alignment and a size that is a multiple of it, or refuses, for every 64-bit object count.',
  ['inputs', 'histories'], 'every request size over the full 64-bit range, every sequence of up to 4 requests and resets',
  'Tests use a few small sizes; exact fits and sizes near the top of the range are boundary values they do not reach.',
  ['util/monotonic_allocator.hh', 'util/aligned_allocator.hh'], [('free-space check', 'util/monotonic_allocator.hh'), ('rounding up to the alignment', 'util/aligned_allocator.hh')])
P('P17', 'Wear-levelled data survives restarts and power loss at any storage operation',
  'After construction over a block in any state, and after power loss at any storage operation of a write (torn cell writes and interrupted erases included), WearLevel and WearLeveler read back the newest valid data in the block: the value of the last completed write, unless an erase has begun since then; reading returns false exactly when no cell holds valid data. Every write goes to a blank cell above the newest data, the block is erased only when none is left there and at most once per write, and every cell index passed to read and write is inside the block.',
  ['crash_points', 'histories', 'inputs'], 'every initial block content within the bound, every history of writes, reads and restarts, power loss at every storage operation',
  'The tests cover a few histories without interruption; the block state at a crash is a combination no sample enumerates.',
  ['util/wear_level.hh'], [('scan on construction', 'util/wear_level.hh'), ('search for the next writeable cell and erase', 'util/wear_level.hh')])
P('P18', 'Wear levelling reports refused storage operations and keeps earlier data',
  'When the storage refuses a read, a write or an erase, WearLevel and WearLeveler report the failure and never present data the storage did not deliver; a cell that cannot be read hides only its own data. A failed write does not cost the data written before it unless the block was erased for it, at most one erase and one cell write is attempted per write, and the next write after a failure works as usual.',
  ['fault_sequences', 'histories', 'inputs'], 'every initial block content within the bound, every history of writes, reads and restarts with every combination of refused operations and unreadable cells',
  'The tests use storage that never fails.',
  ['util/wear_level.hh'], [('results of read, write and erase', 'util/wear_level.hh')])
P('P19', 'int_to_str gives the exact decimal text of every 32-bit value in any buffer',
  'For every int32_t, int_to_str writes sign, digits and terminator and returns true exactly when they fit in the buffer; otherwise it returns false. int_to_str_chop keeps the sign and the least significant digits that fit, and num_digits is the number of decimal digits. Neither writes outside its buffer, whatever its size.',
  ['inputs'], 'every int32_t value with every buffer size from 0 to more than the longest text',
  'Tests use a few values and sizes; powers of ten, embedded zeros, INT32_MIN and each too-small size are boundaries.',
  ['util/int_to_str.cc', 'util/int_to_str.hh'], [('digit loop', 'util/int_to_str.cc'), ('truncation of leading digits', 'util/int_to_str.cc')])
P('P20', 'print emits exactly the text of each argument, in order',
  'print sends to its output function, once each and in order, the characters of its arguments: the decimal text of every int32_t, the upper-case hexadecimal text (without leading zeros) of every 32-bit Hex value, and exactly the characters of C strings and string views, embedded NUL and unterminated views included.',
  ['inputs'], 'every 32-bit integer and hex value, every text within the bound, every sequence of up to 4 arguments',
  'Nothing in the test suite prints boundary values or unterminated views.',
  ['util/print.hh'], [('print_digit', 'util/print.hh')])
P('P21', 'StaticString holds the longest prefix that fits, always terminated',
  'After any sequence of constructions, copies and clears, from C strings, string views (unterminated and with embedded NULs included) and other static strings, a StaticString<N> holds the longest prefix of its source that fits in N characters, up to the first NUL, terminated inside its storage. length, available, iteration, equality and the conversions agree with that text, and nothing outside source and storage is accessed.',
  ['inputs', 'histories'], 'every source text within the bound, every character value, every sequence of copies and clears, capacities 0 to 8',
  'The tests copy a few literals; unterminated views, exact fits and the empty capacity are boundaries they miss.',
  ['util/static_string.hh'], [('copy loops and the terminator', 'util/static_string.hh')])
P('P22', 'Case-insensitive comparison and whole-word search are exact',
  'equal_ci and less_ci compare texts exactly as their lower-case forms compare, so that less_ci is a strict order agreeing with equal_ci. contains_word finds a word, whatever the case of letters, exactly when it stands in the name between spaces or the ends of the name, whatever near-matches precede it.',
  ['inputs'], 'every pair of texts and every name and word within the bound, every character value',
  'Tests sample words; a partial match followed by a real one, or a match at the very end, is one of many overlaps.',
  ['util/string_compare.hh', 'util/contains_word.hh'], [('search loop', 'util/contains_word.hh')])
P('P23', 'String replacement and tokenizing act on every occurrence, once',
  'ReplaceString::replace_all replaces each non-overlapping occurrence of the search text, left to right, exactly once, never searching its own replacements, and always returns. tokenize_string appends exactly the non-empty runs between delimiters, in order.',
  ['inputs'], 'every text, search text, replacement and delimiter set within the bound, every character value',
  'Tests replace a few literals; overlapping matches, growing and shrinking replacements and empty arguments are not enumerated.',
  ['util/string_util.hh'], [('position after a replacement', 'util/string_util.hh')])
P('P24', 'Version parses any text safely, orders versions and decides compatibility',
  'For any text view, Version takes the numbers before, between and after the dots exactly when they are at most 255 (0 otherwise), takes a dash after the last number as a pre-release, and reads nothing outside the view. Versions are ordered by major, minor and revision and then a pre-release before its release; a host can host exactly versions of the same major and an equal or lower minor number.',
  ['inputs'], 'every text within the bound, numbers of up to 11 digits, every pair of versions',
  'The tests parse a few literals that are terminated and in range.',
  ['util/version_tools.hh'], [('number parsing', 'util/version_tools.hh'), ('three-way comparison', 'util/version_tools.hh')])
P('P25', 'Type-erased callables call their own target and manage captures exactly once',
  'After any sequence of construct, copy, assign, move, clear and destroy, calling a Function, FunctionSized or Callback calls the callable most recently given to that object, with its own copy of the captured data, and converting it to bool tells whether it holds one. Every captured object is destroyed exactly once and is never used outside its lifetime.',
  ['histories', 'inputs'], 'every history within the bound over two objects, captures of 1 to 24 bytes, every captured and argument value',
  'Tests call a few lambdas with trivial captures; lifetime errors show only in particular histories.',
  ['util/callable.hh'], [('construction and destruction of the stored callable', 'util/callable.hh')])
P('P26', 'QuadratureEncoder reports exactly the completed steps in their direction',
  'For every sequence of pin readings, a step is reported exactly when the last four changed readings complete the full cycle of one direction; repeated, bouncing and illegal readings report none. Turning from detent to detent reports exactly one step, in the direction turned.',
  ['histories', 'inputs'], 'every sequence of readings within the bound, normal and inverted decoders',
  'No test exercises the decoder; bouncing sequences are a product no sample covers.',
  ['util/quadrature_encoder.hh'], [('state table / history of readings', 'util/quadrature_encoder.hh')])
P('P27', 'Togglers and debouncers report each edge once and track the state',
  'Toggler and TogglerCompact hold the state of the last registered sample or edge and report each registered rising and falling edge once when asked. TogglerCounter and DebouncerCounter count the samples since the last change or edge, and a Debouncer reports an edge exactly when its last samples match the pattern of that edge.',
  ['histories', 'inputs'], 'every sequence of samples and queries within the bound, several debouncer patterns and the default one',
  'Tests feed a few hand-made sample runs.',
  ['util/debouncer.hh', 'util/debouncer_compact.hh'], [('edge flags', 'util/debouncer.hh'), ('pattern match', 'util/debouncer.hh')])
P('P28', 'Edge, change, Schmitt and hysteresis detectors follow their thresholds exactly',
  'Edge and change detectors report an edge or change exactly when the input makes it, once. A Schmitt trigger goes high above its high threshold, low below its low one, and otherwise stays, for every float; hysteresis_feedback adds its feedback only while on, and hysteresis_gate turns on only above turn_on and off only below turn_off.',
  ['histories', 'inputs'], 'every sequence of inputs within the bound; every float, NaN and infinities included, for the Schmitt triggers and hysteresis_feedback',
  'Tests sample a few ramps; equality with a threshold, NaN and repeated queries are boundary cases.',
  ['util/edge_detector.hh', 'util/change_detector.hh', 'util/schmitt_trigger.hh', 'util/math.hh'], [('threshold comparisons', 'util/schmitt_trigger.hh')])
P('P29', 'Polling runs once per period at any clock value, wrap-around included',
  'PollEvent runs its action exactly once when at least the period has passed since it last ran, and not before, at any clock value and for any clock type. PollChange asks for the state exactly when its period has passed or a poll is forced, and reports each change once.',
  ['histories', 'inputs'], 'every clock value and period, every spacing of 3 to 5 successive polls, clocks of 8 to 64 bits',
  'Clock wrap-around happens after 49 days; the tests never cross it with every relation of period and time.',
  ['util/poll_event.hh', 'util/poll_change.hh'], [('elapsed-time test', 'util/poll_event.hh')],
  note='Successive polls are less than one full turn of the clock apart.')
P('P30', 'Averaging, oversampling, slew and hysteresis filters compute their definition',
  'The moving average is the average of the last Size inputs, the oversamplers give the average of each complete group of inputs and hold it in between, resizing included, the square slew filter steps by the squared distance towards the input, and the hysteresis filter stays inside its dead band and follows at its edge outside. FilteredInterpArray reads each channel once per new frame, moves in equal steps, and arrives exactly at the target.',
  ['histories', 'inputs'], 'every sequence of inputs within the bound (two full windows and more), every integer input of the declared width',
  'The tests feed ramps and constants; intermediate overflow and rounding depend on the history.',
  ['util/filter.hh', 'util/filtered_interp_array.hh'], [('running sum', 'util/filter.hh'), ('accumulate and reset', 'util/filter.hh')])
P('P31', 'Table lookup and interpolation stay inside the table and between neighbours',
  'InterpArray, LookupTable and the table functions of MathTools access only their table for every position, phase and range of the stated grids, wrapping where documented and holding the end values outside the range; the result is the linear interpolation of the neighbouring entries. InterpParam reaches a new value in equal steps over its number of updates.',
  ['inputs', 'histories'], 'every position on the grid, any table entries, every float for index safety of LookupTable, setPitchMultiple and audioFreqToNorm',
  'Tests sample positions; the last cell, exact ends, negative positions and rounding up to the size are corner cases.',
  ['util/interp_array.hh', 'util/lookup_table.hh', 'util/interp_param.hh', 'util/math_tables.hh'], [('index and fraction split', 'util/interp_array.hh'), ('clamping', 'util/lookup_table.hh')])
P('P32', 'Oscillators, phase accumulators, counters and one-shots advance exactly',
  'Each update advances the phase of TriangleOscillator and PhaseAccum by the frequency times full scale over the update rate, wrapping around, and their values are the documented function of the phase; the sine is bounded, has the right sign in each half cycle, and its integer, unipolar and bipolar forms agree. DownCounter stops at zero, and a OneShot pulse is on for exactly the updates covering its width.',
  ['inputs', 'histories'], 'every 32-bit phase and frequency, every history of updates and settings within the bound; periods in ms from 1 to 5000, and listed longer ones',
  'Tests check a few frequencies; phase wrap, the peak of the triangle and sub-second periods are not enumerated.',
  ['util/oscs.hh', 'util/math_tables.cc'], [('phase increment', 'util/oscs.hh')])
P('P33', 'Color arithmetic, conversions and LED animation follow their definitions',
  'Color addition and combine saturate per channel, adjust scales and saturates, and blends are the weighted mean of the channels, rounded down, for byte, 32-bit and float phases and for RGB565 words. RGB565 and HSV conversions keep the channels they can represent, and MixedRgbLed shows the flash color for its duration, then the breathing color over the base color, calibrated.',
  ['inputs', 'histories'], 'every 8-bit channel value, every phase, every RGB565 word, every LED history within the bound',
  'Tests blend a few colors; saturation, borrow between packed channels and long flashes are not enumerated.',
  ['util/colors.hh', 'util/colors_rgb565.hh', 'util/hsv.hh', 'util/rgbled.hh'], [('packed multiply in blend', 'util/colors.hh'), ('update_animation', 'util/rgbled.hh')])
P('P34', 'AudioFrame scales samples of any width exactly and saturates',
  'scaleInput gives the sign-extended sample over full scale, scaleOutput gives the float times full scale towards zero, saturated at the used bits, and a sample of up to 24 bits survives the way to float and back. Unsigned outputs map -1..1 onto the whole range, and signed_saturate and unsigned_saturate keep a value within so many bits.',
  ['inputs'], 'every sample word and every float, 8 signed and 5 unsigned formats; every int32_t and width for saturation',
  'The tests use one format and values inside the range; full scale in every width is a boundary.',
  ['util/audio_frame.hh', 'util/cortex_math.hh'], [('scaling and saturation', 'util/audio_frame.hh'), ('sign extension', 'util/audio_frame.hh')],
  note='Floats are not NaN.')
P('P35', 'MathTools arithmetic helpers equal their mathematical definitions',
  'constrain, min, max, between, abs_diff, diff, plateau, wrap, is_power_of_2, next_power_of_2, log2_floor, Log2, ipow, the byte swaps and the fast-math classification of floats give the mathematically defined result for every value whose result fits. map_value, interpolate and randomNumber map the ends of the input exactly onto the ends of the output, stay within them, and are linear in between within one.',
  ['inputs'], 'every value of the integer types, every float for classification, ranges as stated in the bounds',
  'Compile-time samples cover a handful of values; 64-bit values, negative numbers and ends of ranges are the corners.',
  ['util/math.hh'], [('bit smearing', 'util/math.hh'), ('wrap loops', 'util/math.hh')])
P('P36', 'Rectangle intersection and polygon concavity are exact',
  'RectC reports an intersection in x, in y, or in both exactly when the (closed) rectangles have a common coordinate or point, symmetrically; sizes, edges and centers agree. is_poly_concave is true exactly when the polygon turns both ways, for integer and float points.',
  ['inputs'], 'every coordinate of 31 bits for rectangles; every placement of two points of 3- to 5-gons on the stated grids',
  'The tests check one rectangle pair and two polygons; containment and collinear starts are separate cases.',
  ['util/geometry.hh'], [('interval overlap', 'util/geometry.hh'), ('sign of the cross products', 'util/geometry.hh')])
P('P37', 'Partition places every element once and balances the sums greedily',
  'Each element index (up to the capacity) is in exactly one part, whatever was partitioned before, and the parts are balanced as documented, largest elements first into the smallest sum: taking the smallest element out of any part leaves its sum, initial sum included, no greater than that of any other part.',
  ['inputs'], 'every value of up to 4 or 5 elements, 1 to 3 parts, every initial sum',
  'The tests check two fixed lists; ties, initial sums and reuse are not covered.',
  ['util/partition.hh'], [('sort and min_element', 'util/partition.hh')])
P('P38', 'Parameters and encoder motion report every change exactly once',
  'LatchedParam takes a new value exactly when it is at least the minimum change away and reports the change once; Parameter reports once that it was set to a different value, RefParameter that its value differs from the one last reported. RotaryMotion neither loses nor doubles motion and its position is the sum of all motion.',
  ['histories', 'inputs'], 'every history of 4 or 5 operations, every integer value',
  'Tests follow one script each; the order of set, read and copy is what matters.',
  ['util/parameter.hh', 'util/rotary_motion.hh'], [('changed flags', 'util/parameter.hh')])
P('P39', 'bitfield, ByteBlock, zip and countzip combine exactly what they are given',
  'bitfield and OR give exactly the or of their values; ByteBlock appends each value little-endian, in order. zip, countzip and enumerate visit corresponding elements by reference, count positions from 0, and end with the shortest container.',
  ['inputs', 'histories'], 'every value, every combination of container sizes up to 4, every program of 4 or 5 writes',
  'Tests use equal container sizes and constants.',
  ['util/bitfield.hh', 'util/byte_block.hh', 'util/zip.hh', 'util/countzip.hh', 'util/iterator_helpers.hh'], [('end comparison', 'util/iterator_helpers.hh')])
P('P40', 'Signal statistics, NEON stand-ins and MemTest compute what they name',
  'AnalyzedSignal and PeakMeter hold the lowest and highest value since the start or reset (negative signals included) and AnalyzedSignal the recursive average. Each soft_neon operation computes its lanes as the instruction it stands for, and MemTest passes working memory, writing only inside the block.',
  ['histories', 'inputs'], 'every sequence of updates within the bound, every float for minimum, maximum and lane movement, blocks of up to 6 or 16 words',
  'No test feeds these negative signals or checks lanes.',
  ['util/analyzed_signal.hh', 'util/soft_neon.hh', 'util/mem_test.hh'], [('initial extremes', 'util/analyzed_signal.hh')])
P('P41', 'Calibration recovers the line through its measurements',
  'A Calibrator set from two points maps each measurement onto its target and back and is linear through them, however it was set. VoctCalibrator takes its slope from the latest two different notes and its offset from the latest C0, or from the line while none was measured, ignores None, and forgets everything on reset.',
  ['inputs', 'histories'], 'the stated slopes, points and queries; every history of 4 or 5 recordings within the bound',
  'Two asserts check one calibration; descending points, repeats, missing C0 and reset are histories no test has.',
  ['util/calibrator.hh', 'util/voct_calibrator.hh'], [('calibrate_chan', 'util/calibrator.hh'), ('record_measurement', 'util/voct_calibrator.hh')],
  note='Values on which the float arithmetic is exact.')
P('P07', 'Lock-free FIFOs hand every element from producer to consumer, without races',
  'With one thread putting and one taking, every element a put accepted is taken once, whole and in the order put, for every interleaving and every reordering of memory the C++ memory model allows, and no element is accessed by both threads at the same time. Room or elements a thread has seen stay until it uses them, and neither FIFO holds more than its size. reset() by the consumer only drops elements.',
  ['schedules', 'inputs'], 'every execution the C++ memory model allows (without cycles in program order and reads-from) of two threads with up to 3 or 4 operations each, every element value, counters from the start, anywhere and at the wrap',
  'A test samples a few schedules of one strongly ordered machine; a missing release or acquire shows on others.',
  ['util/lockfree_fifo_spsc.hh', 'util/lockfree_fifo_spsc_dyn.hh'], [('release store of the positions', 'util/lockfree_fifo_spsc.hh'), ('acquire load of the other side', 'util/lockfree_fifo_spsc.hh')],
  note='reset() by the producer while the consumer runs is outside. Executions with cycles in program order and reads-from (which no known compiler and machine produce) are outside.')
P('P15', 'ThreadSafePool gives each entry to one owner at a time, from any thread',
  'create() gives an index no other owner holds, the first free one when no other thread interferes, and nothing exactly when all are in use; destroy() is true for exactly one of those who destroy an entry in use. What one owner wrote is visible to the next, without data races, for every interleaving and every reordering of memory the C++ memory model allows.',
  ['schedules', 'histories'], 'every execution the C++ memory model allows (without cycles in program order and reads-from) of two or three threads with 1 to 3 rounds of create, use and destroy; every single-thread history of 4 or 5 operations',
  'No test uses two threads; two winners of one entry need a particular interleaving.',
  ['util/thread_safe_pool.hh'], [('compare-exchange of the used flag', 'util/thread_safe_pool.hh')],
  note='clear() concurrent with other operations is outside.')
P('P42', 'Readings marked ready by another thread are taken, complete and never lost',
  'When one thread (or interrupt) writes raw readings and marks them ready and another calls FilteredInterpArray::add_new_readings, the taker sees at least the readings that were there when they were marked, each marking is taken at most once, and the readings marked last are always taken by a later call, for every interleaving and every reordering of memory the C++ memory model allows. No data races.',
  ['schedules', 'inputs'], 'every execution the C++ memory model allows (without cycles in program order and reads-from) of two threads with up to 3 or 4 markings and takings, every value of the readings',
  'A lost or stale reading needs a marking between two particular accesses, and on the reordering a strongly ordered machine does not do.',
  ['util/filtered_interp_array.hh'], [('new data flag', 'util/filtered_interp_array.hh')],
  note='Executions with cycles in program order and reads-from are outside.')
P('P43', 'Math tables and the functions that read them approximate what they name',
  'Every entry of the sine, tangent, logarithm and exponential tables is the value of the function. sin, sin01, cos, tan, their close forms, pow2 (2^x), setPitchMultiple (32^x) and audioFreqToNorm (the logarithm of the frequency, 20 Hz to 20 kHz as 0 to 1) are within the error of interpolating, or of not interpolating, between entries.',
  ['inputs'], 'every entry of every table; the functions on the stated grids of arguments',
  'Tests sample a few arguments; one wrong entry of 2048 or a wrong scale for negative arguments goes unseen.',
  ['util/math_tables.cc', 'util/math.hh'], [('table data', 'util/math_tables.cc'), ('argument scaling', 'util/math.hh')],
  note='Reference values come from the math module of Python; tolerances are stated with the bounds.')
for _p in PROPS:
    if _p['id'] in ('P07', 'P15', 'P42'):
        _p['technique'] = 'symbolic execution of the LLVM IR of the real code per thread; schedules and C++ memory orders encoded as constraints and decided by SMT'
P('P44', 'Padding, smallest-integer and overload helpers do what they name',
  'Data in a PaddedAligned starts and ends at multiples of its alignment, shares no aligned block with its neighbours, and is the same object through every accessor. SmallestUnsignedInt and SmallestSignedInt are the narrowest types through which every value of their range survives, and visiting with overloaded calls exactly the function for the alternative held.',
  ['inputs'], 'the instantiations listed in the harness, every value in them',
  'The static_asserts in the header check chosen bounds; no test uses the others.',
  ['util/padded_aligned.hh', 'util/smallest_integer.hh', 'util/overloaded.hh'], [('alignas and padding size', 'util/padded_aligned.hh'), ('width selection', 'util/smallest_integer.hh')])
