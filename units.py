"""Units: which harness entry decides what, under which bounds."""
COMMON_OPTS = []
COMMON_ASSUMPTIONS = ['clock, time zone, file system, sockets, shared memory, C library text functions and locks behave as modelled in harness/env.h',
  'the compiler front end (clang 18 -O0, exceptions lowered to aborts) preserves the meaning of the source; every run also replays solver models on the natively compiled code',
  'record size, ring size and device count are reduced by the macros the library offers for that (FN_LOG_MAX_LOG_SIZE, FN_LOG_MAX_LOG_QUEUE_SIZE, FN_LOG_MAX_DEVICE_SIZE)']
class Unit:
    def __init__(s, name, harness, entry, req=(), covers=(), defines=(), opts=(), topts=None, bounds='', threads=False, thorough_only=False, t=(240, 3600), wit=(2, 6), validate=True, allow_cut=False, weight=1):
        s.name, s.harness, s.entry, s.req, s.covers, s.defines, s._o, s._to, s.bounds, s.threads, s.thorough_only, s._t, s._w, s.validate, s.allow_cut, s.weight = name, harness, entry, list(req), list(covers), list(defines), list(opts), topts, bounds, threads, thorough_only, t, wit, validate, allow_cut, weight
    def time(s, tier): return s._t[0] if tier == 'quick' else s._t[1]
    def wit(s, tier): return s._w[0] if tier == 'quick' else s._w[1]
    def opts(s, tier): return s._o if tier == 'quick' or s._to is None else list(s._to)
PROPS = {}
def prop(pid, units, bounds, outside, assumptions=()): PROPS[pid] = dict(units=units, bounds=bounds, outside=outside, assumptions=list(assumptions))
D = ['dec_len', 'dec_digit', 'dec_exact_len', 'dec_newline', 'dec_one_line']
prop('C10', [Unit('dec_' + t, 'c10.cpp', 'h_' + t, D + (['dec_sign'] if t in ('s64', 'long', 'int', 'short') else []), ['negative'] if t in ('s64', 'long', 'int', 'short') else []) for t in ('s64', 'u64', 'long', 'ulong', 'int', 'uint', 'short', 'ushort', 'uchar')],
  'every value of each integer type the stream accepts, written as the only item of one record of a synchronous channel', 'the truncation of a number in a nearly full record (C09)')
ABLE, PRIO, CAT, CMASK, ID, IMASK = 1, 2, 4, 8, 16, 32
def fl(name, ch, d0, d1, d2=None, **k): return Unit(name, 'c01.cpp', 'h_filter2' if d2 is None else 'h_filter3', ['admitted_iff_filters_accept', 'no_other_output', 'written_to_exactly_the_matching_devices'], ['admitted'], ['CH=%d' % ch, 'D0=%d' % d0, 'D1=%d' % d1] + ([] if d2 is None else ['D2=%d' % d2]), **k)
ALL = ABLE | PRIO | CAT | CMASK | ID | IMASK
prop('C01', [fl('channel_all', ALL & ~ABLE, 0, 0), fl('device_all', 0, ABLE, ALL), fl('channel_device_range', PRIO | CAT, ABLE | PRIO | CAT, ABLE), fl('channel_device_mask', CMASK, ABLE | IMASK, ABLE | CMASK),
  Unit('refuse', 'c01.cpp', 'h_refuse', ['admitted_only_while_running_on_an_existing_channel', 'block_test_agrees', 'refused_record_writes_nothing'], ['admitted']), Unit('input_device', 'c01.cpp', 'h_input_device', ['input_device_does_not_admit', 'input_device_gets_no_record']),
  fl('two_devices', PRIO, ABLE | PRIO | CAT, ABLE | PRIO | ID, thorough_only=True), fl('three_devices', PRIO | CMASK, ABLE | PRIO, ABLE | CMASK, ABLE | CAT, thorough_only=True)],
  'one synchronous channel with 2 (thorough 3) devices; priority -3..9, category any 32-bit value (0..63 when a mask is set), identify and filter bounds within 2^40, masks any 64-bit value', 'a category or identify above 63 together with a non-zero mask')
prop('C02', [fl('dispatch_all_fields', 0, 0, ALL), fl('dispatch_three', 0, ABLE | PRIO, ABLE | CAT, ABLE | ID), fl('dispatch_three_masks', 0, ABLE | CMASK, ABLE | IMASK, ABLE | PRIO | CMASK), fl('dispatch_channel', PRIO | ID, ABLE | PRIO, ABLE | ID),
  fl('dispatch_both_all', 0, ALL, ALL, thorough_only=True), Unit('input_device', 'c01.cpp', 'h_input_device', ['input_device_gets_no_record'])],
  'one synchronous channel with 2 or 3 file devices; priority -3..9, category any 32-bit value (0..63 when a mask is set), identify and filter bounds within 2^40, masks any 64-bit value', 'a category or identify above 63 together with a non-zero mask')
HK = ['hook_called_iff_virtual_device_accepts', 'hook_sees_record', 'hook_content', 'hook_in_calling_thread']
prop('C03', [Unit('virtual_all', 'c01.cpp', 'h_virtual', HK, ['hooked'], ['D1=%d' % ALL]), Unit('virtual_only', 'c01.cpp', 'h_virtual_only', HK, ['hook_without_other_device'], ['D1=%d' % (ABLE | PRIO | CAT)]), Unit('virtual_only_mask', 'c01.cpp', 'h_virtual_only', HK, ['hook_without_other_device'], ['D1=%d' % (ABLE | IMASK | ID)]),
  Unit('no_virtual', 'c01.cpp', 'h_no_virtual', ['no_hook_without_virtual_device', 'no_hook_record_written'])],
  'one synchronous channel, one file device and one virtual device with every filter field symbolic; same value ranges as C01', 'several virtual devices on one channel (the last one wins)')
DL = ['record_intact', 'delivered_once', 'delivered_in_call_order', 'running_logger_accepts', 'all_delivered', 'in_the_file_at_rest']
def th(name, entry, req, defs, p=2, tp=4, covers=('end',), maxlevel=0, **k): ml = ['--max-level', str(maxlevel)] if maxlevel else []; return Unit(name, 'thr.cpp', 'h_' + entry, req, covers, defs, ['--preempt', str(p)] + ml, ['--preempt', str(tp)] + ml, threads=True, bounds='%d (thorough %d) preemptions' % (p, tp), **k)
def th2(name, entry, req, defs, p, tp, covers=('end',), **k): return Unit(name, 'thr2.cpp', 'h_' + entry, req, covers, defs, ['--preempt', str(p)], ['--preempt', str(tp)], threads=True, bounds='two channels with a thread each, %d (thorough %d) preemptions' % (p, tp), **k)
S2 = ['record_intact', 'delivered_once', 'delivered_in_call_order', 'running_logger_accepts', 'stop_succeeds', 'second_stop_refused', 'stop_has_delivered_all', 'nothing_extra']
C2 = ['record_intact', 'delivered_once', 'delivered_in_call_order', 'starts_again', 'survivors_delivered', 'works_after_recovery', 'at_most_one_mark_per_producer', 'half_written_record_is_marked']
SYNC0, SYNC1 = 'T0="sync"', 'T1="sync"'
ND = 'more preemptive context switches than stated per unit (a switch where a thread waits, sleeps or ends is free); more threads or records; weak memory orders (accesses are sequentially consistent)'
prop('C04', [th('two_producers', 'deliver', DL, ['NPROD=2', 'PER=1', 'KEYS'], 3, 4), th('two_producers_two_each', 'deliver', DL, ['NPROD=2', 'PER=2', 'KEYS'], 2, 3), th('three_producers', 'deliver', DL, ['NPROD=3', 'PER=1'], 1, 2), th('one_producer', 'deliver', DL, ['NPROD=1', 'PER0=3'], 9, 20), th('wrap', 'deliver', DL, ['NPROD=2', 'PER=1', 'POS=10'], 2, 4), th('lap', 'deliver', DL, ['NPROD=2', 'PER=1', 'PER0=1', 'FILL=10', 'KEYS', 'LAP'], 2, 2), th2('two_channels', 'stop2', S2, ['MORE'], 0, 1)],
  'one asynchronous channel with one file device (unit two_channels: two with a file each); 1 to 3 producers with 1 to 3 calls each and the real channel thread, a ring of 11 slots starting at position 0 or 10 (unit lap: the ring is filled and one more record logged while another producer stands before its claim), every record holding an arbitrary payload byte; every schedule with up to the number of preemptions stated per unit, switching at any conflicting memory access', ND)
prop('C05', [th('full_%d_%d' % (f, q), 'deliver', DL, ['NPROD=2', 'PER=1', 'FILL=%d' % f, 'POS=%d' % q] + (['KEYS'] if f == 10 else []), 2, 3) for f, q in ((9, 0), (10, 0), (10, 5), (9, 10))] + [th('stays_full', 'deliver', DL, ['NPROD=1', 'PER0=1', 'FILL=10', 'EARLY=40', 'KEYS'], 1, 2), th('full_three', 'deliver', DL, ['NPROD=3', 'PER=1', 'FILL=9', 'POS=3'], 1, 2)],
  'a ring of 11 slots holding 9 or 10 waiting records (its capacity is 10) at positions 0, 3, 5, 10; 2 or 3 producers with one call each and the real channel thread; every schedule with up to the number of preemptions stated per unit', ND + '; a producer that sleeps while the ring is passed round completely')
SD = ['record_intact', 'delivered_once', 'running_logger_accepts', 'all_delivered', 'one_writer_at_a_time', 'delivered_when_the_call_returns', 'in_the_file_when_the_call_returns', 'in_the_file_at_rest']
prop('C06', [th('two_producers', 'deliver', SD, ['ASYNC=0', 'NPROD=2', 'PER=1'], 3, 5), th('two_producers_two_each', 'deliver', SD, ['ASYNC=0', 'NPROD=2', 'PER=2'], 2, 3), th('three_producers', 'deliver', SD, ['ASYNC=0', 'NPROD=3', 'PER=1'], 2, 3), th('full', 'deliver', SD, ['ASYNC=0', 'NPROD=2', 'PER=3', 'PER0=1', 'FILL=8', 'KEYS'], 2, 3), Unit('files', 'c06.cpp', 'h_files', ['record_intact', 'delivered_when_the_call_returns', 'in_the_file_when_the_call_returns', 'stop_closes_the_files'], ['written', 'refused'])],
  'one synchronous channel with one file device; 2 or 3 producers with 1 or 2 calls each (unit files: one producer, four devices of any kinds and filters); every schedule with up to the number of preemptions stated per unit', ND + '; the order of records of producers that are in flight at the same time')
SP = ['stop_has_delivered_all', 'stop_succeeds', 'second_stop_refused']
prop('C07', [th('one_producer', 'stop', SP + ['nothing_extra'], ['NPROD=1', 'PER0=2'], 9, 20), th('two_producers', 'stop', SP + ['nothing_extra'], ['NPROD=2', 'PER=1'], 2, 4), th('restart', 'stop', SP + ['restarts', 'only_the_new_record'], ['NPROD=1', 'PER0=2', 'RESTART'], 9, 20), th('hot_update', 'stop', SP + ['nothing_extra'], ['NPROD=1', 'PER0=1', 'HOT'], 4, 8, ('end', 'hot_updated')), th('hot_update_restart', 'stop', SP + ['restarts', 'only_the_new_record'], ['NPROD=1', 'PER0=1', 'HOT', 'RESTART'], 2, 4, ('end', 'hot_updated')), th('open_call', 'inflight', ['only_the_new_records', 'record_intact', 'stop_succeeds'], ['NPROD=2', 'PER=1'], 2, 3), th('sync_restart', 'stop', SP + ['restarts', 'only_the_new_record'], ['NPROD=2', 'PER=1', 'ASYNC=0', 'RESTART'], 2, 4),
  th2('two_channels', 'stop2', S2, ['PER=1'], 2, 3, weight=2), th2('two_channels_twice', 'stop2', S2, ['PER=2'], 0, 1), th2('two_channels_restart', 'stop2', S2 + ['restarts'], ['RESTART'], 0, 1), th2('sync_and_async', 'stop2', S2, [SYNC0, 'PER=2'], 3, 5), th2('async_and_sync', 'stop2', S2 + ['restarts'], [SYNC1, 'RESTART'], 2, 4)],
  'one channel (asynchronous or synchronous) with one file device, and every pair of such channels; 1 or 2 producers whose calls have returned, then stop, a second stop, and in the restart units init, start, one call and stop; with and without a configuration file that has changed; every schedule with up to the number of preemptions stated per unit', ND + '; log calls still in progress when stop begins')
CR = ['record_intact', 'delivered_once', 'survivors_delivered', 'works_after_recovery', 'half_written_record_is_marked', 'at_most_one_mark_per_producer', 'starts_again', 'all_delivered']
prop('C08', [th('one_producer', 'crash', CR + ['delivered_in_call_order'], ['CRASH', 'NPROD=1', 'PER0=2'], 4, 20, ('end', 'crash', 'no_crash')), th('two_producers', 'crash', CR + ['delivered_in_call_order'], ['CRASH', 'NPROD=2', 'PER=1', 'KEYS'], 2, 3, ('end', 'crash', 'no_crash')), th('buffered', 'crash', CR[:4], ['CRASH', 'BUFFERED', 'NPROD=1', 'PER0=1'], 2, 4, ('end', 'crash')), th('sync', 'crash', CR, ['CRASH', 'NPROD=1', 'PER0=2', 'ASYNC=0'], 4, 20, ('end', 'crash', 'no_crash')), Unit('unfinished_record', 'thr.cpp', 'h_recover', ['marked_record_length', 'half_written_record_is_marked', 'marked_record_terminated', 'next_record_untouched', 'all_delivered'], ['full'], ['CRASH', 'ASYNC=0']),
  th2('two_channels', 'crash2', C2, ['CRASH'], 0, 1, ('end', 'crash', 'no_crash')), th2('sync_and_async', 'crash2', C2, ['CRASH', SYNC0], 1, 3, ('end', 'crash', 'no_crash')), th2('async_and_sync', 'crash2', C2, ['CRASH', SYNC1], 1, 3, ('end', 'crash', 'no_crash'))],
  'one channel with one file device, and pairs of them with at least one asynchronous, and a shared memory key; 1 or 2 producers with 1 or 2 calls and the channel thread; a crash before any conflicting memory access of any thread under every schedule with up to the number of preemptions stated per unit; then a new logger on the same memory that logs one record', ND + '; a crash of the machine (shared memory is lost); a crash during start or during the recovery itself')
G = ['length_stays_inside_the_record', 'earlier_text_untouched', 'neighbour_record_untouched', 'own_header_untouched']
def op(n, req=(), cov=(), **k): return Unit(n, 'c09.cpp', 'h_' + n, G + list(req), list(cov), **k)
TX = ['text_cut_at_the_record_end', 'text_appended_in_order']
prop('C09', [op('cstr', TX, ['cut']), op('buffer', TX, ['cut']), op('null', TX, ['cut']), op('string', TX, ['cut']), op('long_string', TX), op('char', TX, ['cut']), op('bool', TX, ['cut']), op('int'), op('uchar'), op('longlong'), op('ulonglong'), op('pointer'), op('nullptr'), op('float'), op('double'), op('percent'), op('timestamp'), op('align', ['aligned_to_column']), op('align_wide', ['too_wide_alignment_ignored']), op('pair', TX, ['cut']), op('vector'), op('list'), op('deque'), op('map'), op('set'), op('binary', weight=5)] +
  [Unit('publish', 'c09.cpp', 'h_publish', ['record_length', 'record_ends_with_newline_and_nul', 'record_text_kept', 'record_written'], ['cut']), Unit('publish_virtual', 'c09.cpp', 'h_publish_virtual', ['record_length', 'hook_sees_a_c_string', 'record_text_kept', 'record_written']), Unit('format', 'c09.cpp', 'h_format', ['record_length', 'record_ends_with_newline_and_nul', 'record_text_kept']), Unit('refused', 'c09.cpp', 'h_refused', ['refused_is_inert'])],
  'records of 700 bytes (the size is a compile time macro) already holding any number 0..size of bytes, followed by one operation of each kind the stream offers; text lengths listed per operation, numbers of every digit count; the publication of a record of any fill level; the format macro around the record end', 'sequences are covered by induction (each operation starts from any fill level); container elements beyond the first few; the value of numbers (C10 to C12)')

HX = ['digit_count', 'digit_values']
prop('C11', [Unit(n, 'c11.cpp', 'h_' + n, HX, ['zero', 'all_bits']) for n in ('hex0', 'hex2', 'hex8', 'hex16', 'hex_signed', 'bin0', 'bin8', 'bin64', 'bin_signed')] + [Unit('pointer', 'c11.cpp', 'h_pointer', HX + ['null_pointer_text', 'pointer_prefix', 'record_written'], ['null', 'all_bits']), Unit('dump', 'c11.cpp', 'h_dump', ['dump_characters', 'dump_hex', 'record_written'])],
  'every 64-bit value (one case per bit length) for hexadecimal text at minimum widths 0, 2, 8, 16 and binary text at minimum widths 0, 8, 64, signed and unsigned; every pointer value; dumps of 0..3 arbitrary bytes', 'other minimum widths; dumps longer than 3 bytes (their layout, not their safety, which is C09)')
FM = ['float_length', 'integer_part_exact', 'integer_part_length', 'fraction_truncated_to_four_digits', 'fraction_digits', 'record_written']
QE = [(-14, -13), (-10, -10), (-4, -3), (-1, 0), (1, 3), (6, 6), (10, 10), (13, 13), (20, 20), (31, 31), (40, 40), (51, 52), (53, 53)]
prop('C12', [Unit('special', 'c12.cpp', 'h_special', ['zero_text', 'inf_text', 'nan_text', 'record_written'], ['zero', 'subnormal', 'infinite', 'nan']), Unit('library', 'c12.cpp', 'h_far', ['library_text_passed_through', 'library_gets_the_number', 'record_written'], validate=False),
   Unit('small', 'c12.cpp', 'h_small', ['small_layout', 'small_digits', 'small_value_within_a_unit_of_the_last_digit', 'record_written'], ['negative'])] +
  [Unit('double_e%d_%d' % e, 'c12.cpp', 'h_mid', FM, ['negative'] + (['fraction'] if e[0] < 50 else []), ['EL=%d' % e[0], 'EH=%d' % e[1]], weight=2) for e in QE] + [Unit('float_e%d_%d' % e, 'c12.cpp', 'h_midf', FM, ['negative'], ['EL=%d' % e[0], 'EH=%d' % e[1]]) for e in ((-14, -9), (0, 2), (12, 13), (22, 24), (40, 40))] +
  [Unit('double_all_e%d' % e, 'c12.cpp', 'h_mid', FM, [], ['EL=%d' % e, 'EH=%d' % e], thorough_only=True) for e in range(-14, 60)] + [Unit('float_all_e%d' % e, 'c12.cpp', 'h_midf', FM, [], ['EL=%d' % e, 'EH=%d' % e], thorough_only=True) for e in range(-14, 60)] + [Unit('small_40', 'c12.cpp', 'h_small', ['small_layout'], [], ['SMB=40'], thorough_only=True)],
  'doubles and floats with every mantissa and both signs, for the binary exponents listed per unit in the quick tier and all of -14..59 in the thorough tier; (1e-7, 1e-4) with 32 (thorough 40) leading mantissa bits; zeros, subnormals, infinities, NaNs; every other magnitude as a pass-through of the C library text', 'the digits the C library produces for magnitudes below 1e-7 and above 2^60 (gcvt is a contract); low mantissa bits below 1e-4')
MD = ['--merge-fn', 'FNLog::write_dec_unsafe']
TS = ['timestamp_length', 'timestamp_layout', 'year', 'month', 'day', 'hour', 'minute', 'second', 'millisecond', 'all_written']
prop('C13', [Unit(n, 'c13.cpp', 'h_' + n, TS, c, opts=MD) for n, c in (('fixed', ['same_minute', 'backwards']), ('zone', ['same_minute', 'backwards', 'across_the_change']), ('prefix', ['same_minute', 'backwards', 'across_the_change']), ('near', ['same_minute', 'backwards', 'across_the_change']), ('ms', []), ('total', []))] +
  [Unit('threads', 'c13.cpp', 'h_threads', ['own_moment_shown', 'all_written'], ['end'], opts=MD + ['--preempt', '2'], topts=['--preempt', '4'], threads=True, bounds='two threads formatting different moments at once, 2 preemptions'),
   Unit('three', 'c13.cpp', 'h_zone', TS, ['same_minute', 'backwards', 'across_the_change'], ['NM=3', 'ND=3'], opts=MD, thorough_only=True), Unit('year_end', 'c13.cpp', 'h_zone', TS, ['same_minute', 'backwards', 'across_the_change'], ['BASE=env_days(2020,12,30)', 'ND=4'], opts=MD, thorough_only=True)],
  'two (thorough three) moments formatted one after the other by one thread, in any order: any minute of a window of 3 days at the end of February 2020 (thorough also 4 days around a change of year), every second and millisecond; any two zone offsets of full minutes up to 14 hours with one change at any full minute; the same for the time shown by the record prefix; any 32-bit millisecond value; two threads formatting different moments at once, with two (thorough four) preemptions anywhere a word is read or written that more than one thread can reach', 'zone offsets that are not full minutes; dates outside the stated days (the calendar itself is the C library)',
  ['localtime_r answers the drawn moments with their calendar fields'])
prop('C14', [Unit('names', 'c14.cpp', 'h_names', ['line_length', 'line_text', 'line_written'], opts=MD), Unit('thread', 'c14.cpp', 'h_thread', ['line_text', 'line_written']), Unit('parts', 'c14.cpp', 'h_parts', ['line_length', 'line_text', 'line_written'], weight=3, opts=MD), Unit('missing', 'c14.cpp', 'h_missing', ['line_length', 'line_text', 'line_written'], opts=MD), Unit('path', 'c14.cpp', 'h_path', ['line_length', 'line_text', 'line_written'], ['shortened'], opts=MD), Unit('path_14', 'c14.cpp', 'h_path', ['line_length', 'line_text', 'line_written'], ['shortened'], ['PL=14'], opts=MD, thorough_only=True),
  Unit('overlong', 'c14.cpp', 'h_long', ['overlong_line_ends', 'overlong_line_length', 'overlong_line_text', 'overlong_line_fills_the_record', 'line_written'], ['fits', 'cut'], opts=MD)],
  'every thread number; logger names of 14 lengths from 0 to 299 and descriptions of 9 from 0 to 60, cut at their limits, with an arbitrary last character; all 128 combinations of the prefix parts, every priority and values above the highest, every millisecond and microsecond, every line number below 100000, missing and empty file and function names, file names of 1..9 (thorough 14) arbitrary bytes, 16 by 16 lengths of file and function names from 1 to 2990 in a record of 1000 bytes', 'the exact cut of a line that fills its record by more than 960 bytes')
PS = ['--merge-fn', 'FNLog::(Is(Blank|SoftLineBound|LineBound|Number|ValidName|ValidNameFirst)|BitOfIndex)\\(']
DEVL = '"- channel: 0\\n -device: 0\\n  '
def ps(n, k, pre=None, post=None, extra=(), tk=None, cov=('error',), **kw):
    r = [Unit(n, 'c15.cpp', 'h_parse', ['position_stays_in_the_text', 'known_result', 'channel_count_in_range', 'name_lengths_in_range'], cov, ['K=%d' % k] + (['PRE=' + pre] if pre else []) + (['POST=' + post] if post else []) + list(extra), opts=PS, bounds='%d arbitrary bytes' % k, **kw)]
    if tk: r.append(Unit(n + '_%d' % tk, 'c15.cpp', 'h_parse', ['position_stays_in_the_text', 'known_result'], cov, ['K=%d' % tk] + (['PRE=' + pre] if pre else []) + (['POST=' + post] if post else []) + list(extra), opts=PS, bounds='%d arbitrary bytes' % tk, thorough_only=True))
    return r
AE = ('error', 'accepted')
prop('C15', ps('byte_order_mark', 4, '"\\xEF\\xBB\\xBF\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n"', tk=6, cov=AE) + ps('anything', 7, tk=9, cov=AE) + ps('channel_lines', 6, '"- channel: 0\\n"', '"\\n  sync: sync\\n"', tk=7, cov=AE) + ps('device_lines', 6, DEVL + '"', tk=8, cov=AE) + ps('device_first_line', 6, '"- channel: 0\\n -device"', tk=8, cov=AE) + ps('bit_list', 3, DEVL + 'category_wlist: "', tk=4, cov=AE) + ps('bit_list_digits', 3, DEVL + 'identify_blist: 4-"', extra=['DIGIT_BYTES'], tk=4, cov=('accepted',)) +
  ps('address', 6, DEVL + 'udp_addr: "', tk=7, cov=AE) + ps('address_enabled', 6, DEVL + 'disable: false\\n  udp_addr: "', extra=['DIGIT_BYTES'], tk=8, cov=AE) + ps('define', 5, '"- define: "', '"\\n- channel: 0\\n"', tk=6, cov=AE) + ps('var', 6, '"- var: "', '"\\n- channel: 0\\n"', tk=7, cov=AE) + ps('var_use', 7, '"- var: "', '"\\n- channel: ${a}$b\\n"', extra=['VAR_BYTES'], tk=8) +
  ps('key_at_the_end', 6, DEVL + '"', '":"', extra=['NAME_BYTES'], tk=9, cov=AE) + ps('category_key', 5, DEVL + 'category_"', '":"', extra=['NAME_BYTES'], tk=8, cov=AE) + ps('identify_key', 5, DEVL + 'identify_"', '":"', extra=['NAME_BYTES'], tk=8, cov=AE) + ps('number', 5, DEVL + 'category: "', tk=7, cov=AE) + ps('shm_key', 5, '"\\n\\n\\n\\n\\n\\n\\n\\n\\n- shm_key: "', tk=7, cov=AE) + ps('channel_number', 5, '"\\n\\n\\n\\n\\n\\n\\n\\n\\n- channel: "', tk=7, cov=AE) +
  [Unit('long_values', 'c15.cpp', 'h_long', ['position_stays_in_the_text', 'known_result', 'name_lengths_in_range'], ['accepted', 'error', 'long'], opts=PS), Unit('file', 'c15.cpp', 'h_file', ['known_result', 'file_closed'], ['error'], ['K=5'], opts=PS), Unit('file_channel', 'c15.cpp', 'h_file', ['known_result', 'file_closed', 'accepted_text_has_a_channel', 'no_shared_memory_key_unless_configured'], ['error', 'accepted'], ['K=5', 'PRE="- channel: 0\\n"'], opts=PS), Unit('big_file', 'c15.cpp', 'h_bigfile', ['whole_file_is_read', 'file_closed'], ['accepted'], opts=PS)],
  'every text of up to 7 (thorough 9) bytes after blank lines; 3 to 7 arbitrary bytes (thorough more) at each of 16 places inside a configuration, some of them restricted to the bytes that matter there (names, digits, substitution characters); option values of lengths around every limit (0 to 300); files around one and two read buffers', 'longer arbitrary texts; host names in addresses (the resolver always fails)', ['strtoll, atoll, atoi follow the C standard'])
CF = ['all_channels_read', 'all_devices_read', 'hot_update', 'shm_key', 'channel_sync', 'channel_settings', 'device_types', 'device_settings', 'device_file', 'device_path', 'virtual_device', 'accepted']
def c16(n, req=CF, cov=(), **k): return Unit(n, 'c16.cpp', 'h_' + n, req, cov, k.pop('defines', ()), opts=PS, **k)
prop('C16', [c16('number', CF, ['negative'], weight=2), c16('wide'), c16('list'), c16('range', CF, ['range'], weight=2), c16('word'), c16('text', CF, ['text']), c16('names', CF + ['logger_name_length', 'logger_name_text']), c16('shm_key'), c16('address'), c16('numbering', ['channels_numbered_consecutively']), c16('device_numbering', ['devices_numbered_consecutively']), c16('indent', ['option_out_of_place_is_an_error', 'indentation_decides'], ['logger']), c16('misplaced', ['option_out_of_place_is_an_error']), c16('two'),
  Unit('number_all_digits', 'c16.cpp', 'h_number', CF, [], ['NS=7', 'ND=14'], opts=PS, thorough_only=True), Unit('text_8', 'c16.cpp', 'h_text', CF, [], ['TL=8'], opts=PS, thorough_only=True)],
  'two channels with two devices; each documented option of logger, channel and device on every place it may stand, in the plain, quoted and bracketed forms; numbers of 1 to 10 digits with the last four arbitrary (thorough 14 and seven), masks with 19 and 20 digits up to 2^64-1, lists of one and two arbitrary bits, every range of bits, every word in three letter cases, texts of 1..4 (thorough 8) arbitrary characters, addresses with one arbitrary octet and any port, keys up to 7 digits decimal and hexadecimal; two options together in every order; every option at every level where it does not belong', 'misspelt options (the parser knows options by their first letters); numbers beyond the range of their setting; several options on one line', ['strtoll, strtoull, atoll, atoi follow the C standard'])
SU = ['accepted', 'earlier_text_unchanged', 'longer_value_is_an_error']
def c17(n, req, cov=('substituted',), **k): return Unit(n, 'c17.cpp', 'h_' + n, req, cov, k.pop('defines', ()), opts=PS, **k)
prop('C17', [c17('define', SU + ['define_replaced_where_named'], ['substituted', 'too_long'], weight=3), c17('var', SU + ['variable_replaced_where_named'], ['substituted', 'too_long']), c17('list', ['accepted', 'variable_replaced_where_named'], ()), c17('chain', ['accepted', 'definitions_apply_in_order'], weight=3), c17('value', ['accepted', 'option_value_substituted', 'later_text_unchanged'], ()),
  Unit('define_long', 'c17.cpp', 'h_define', SU + ['define_replaced_where_named'], ['substituted', 'too_long'], ['M=6', 'KL=3'], opts=PS, thorough_only=True), Unit('var_long', 'c17.cpp', 'h_var', SU + ['variable_replaced_where_named'], ['substituted', 'too_long'], ['M=7', 'KL=3'], opts=PS, thorough_only=True), Unit('chain_long', 'c17.cpp', 'h_chain', ['accepted', 'definitions_apply_in_order'], ['substituted'], ['M=6'], opts=PS, thorough_only=True)],
  'one definition or variable whose name has 1 or 2 (thorough 3) and whose value 0 to 3 characters, in the plain, quoted and bracketed forms, used in texts of 4 (thorough 7) characters standing before it once and behind it twice; names, values and texts over an alphabet of name characters, digits and separators in which names contain each other and values contain names; two variables on one line with every placement of blanks; two definitions after each other; numbers as option values', 'names and values with other characters; longer names; more than two definitions; a variable name that only touches another one after an earlier substitution')
def c18(n, cov=(), **k): return Unit(n, 'c18.cpp', 'h_' + n, ['file_name', 'record_written'], cov, k.pop('defines', ()), **k)
prop('C18', [c18('file', weight=2), c18('path', weight=2), c18('default'), c18('chars'), c18('program'), c18('program_hang'), Unit('dirs', 'c18.cpp', 'h_dirs', ['file_name', 'record_written', 'missing_directories_made'], ['made']), Unit('long', 'c18.cpp', 'h_long', ['file_name', 'overlong_name_is_refused', 'refusal_is_noted'], ['opened', 'refused'], weight=2),
  *[Unit(n, 'c18.cpp', 'h_' + e, ['file_name', 'record_written'], [], [d], thorough_only=True) for n, e, d in (('file_3', 'file', 'K=3'), ('path_3', 'path', 'K=3'), ('chars_6', 'chars', 'NREC=6'))]],
  'file and path patterns of two (thorough three) pieces, each any of the eight placeholders, the short form %F, parts of placeholders or literal text; four (thorough six) arbitrary characters of a placeholder alphabet around placeholders; the default name of channels 0..1 and devices 0..2; any second of six days at the ends of months and years and any zone offset of full minutes up to 14 hours; program names of 1..5 arbitrary characters; up to four directory levels with any number of them present; names of every length up to and beyond the limit', 'other days (the calendar is the C library); names of more pieces')
RT = ['live_file', 'backups_in_order', 'no_file_changed', 'record_written_once', 'record_whole_in_the_live_file', 'limit_kept', 'size_counter']
prop('C19', [Unit('rotate', 'c19.cpp', 'h_rotate', RT, ['rotated', 'oldest_dropped', 'continued'], ['LONG=1'], weight=2), Unit('long', 'c19.cpp', 'h_long', RT, ['rotated', 'oldest_dropped'], ['LONG=4'], weight=3), Unit('config', 'c19.cpp', 'h_config', RT, ['rotated', 'continued'], ['LONG=1']), Unit('fault', 'c19.cpp', 'h_fault', RT + ['failed_record_not_written'], ['rotated', 'failed'], ['LONG=1']), Unit('many', 'c19.cpp', 'h_many', RT, ['rotated', 'oldest_dropped', 'continued'], ['LONG=1']),
  Unit('rotate_5', 'c19.cpp', 'h_rotate', RT, ['rotated', 'oldest_dropped', 'continued'], ['LONG=1', 'NREC=4', 'RMAX=5'], thorough_only=True), Unit('long_8', 'c19.cpp', 'h_long', RT, ['rotated', 'oldest_dropped'], ['LONG=7'], thorough_only=True)],
  'three (thorough four; on an empty directory four, thorough seven) records of any lengths 2..690 under any limit up to 3000 bytes (set at run time; 2 million from the configuration), 0 to 3 (thorough 5) backups, with and without stuff_up, on a directory that holds any combination of the live file and three backups of any size; 8 to 13 backups with two records; a failure to open the file at any rotation and its end', 'the first record after opening an existing file with stuff_up may exceed the limit; short writes (a full disk), which close the file; other processes changing the files')
RD = ['record_written', 'file_of_the_day', 'new_file_exactly_with_a_new_period', 'opened_with_the_record']
RC = ['same_day', 'next_day', 'earlier_day']
prop('C20', [Unit('daily', 'c20.cpp', 'h_daily', RD, RC), Unit('daily_limit', 'c20.cpp', 'h_daily_limit', RD, RC), Unit('hourly', 'c20.cpp', 'h_hourly', RD + ['file_of_the_hour'], RC, weight=2), Unit('daily_change', 'c20.cpp', 'h_daily_change', RD, RC, ['NO=3'], weight=2), Unit('hourly_change', 'c20.cpp', 'h_hourly_change', RD + ['file_of_the_hour'], RC, weight=3),
  Unit('daily_3', 'c20.cpp', 'h_daily', RD, RC, ['NM=3'], thorough_only=True), Unit('year_end', 'c20.cpp', 'h_daily_change', RD, RC, ['NO=5', 'BASE=env_days(2020,12,30)', 'ND=4'], thorough_only=True), Unit('hourly_5', 'c20.cpp', 'h_hourly_change', RD + ['file_of_the_hour'], RC, ['NO=5'], thorough_only=True)],
  'two (thorough three) records whose moments are any two seconds, in any order, of three days at the end of February 2020 (thorough also around a change of year); any zone offset of full minutes up to 14 hours without a clock change; with a change of half an hour or an hour, forward or back, on any of the days: 3 offsets and 3 hours of the day for daily files, 2 and 2 for hourly files (thorough 5 and 5)', 'clock changes at midnight, and changes that are not at a full hour for hourly files; both options at once (daily wins)', ['localtime_r and mktime follow the zone described; mktime prefers the first of two readings of an ambiguous time'])
HU = ['changed_file_takes_effect']
def c21(n, req, cov=(), **k): return Unit(n, 'c21.cpp', 'h_' + n, req, cov, k.pop('defines', ()), opts=PS, **k)
prop('C21', [c21('apply', HU + ['first_configuration', 'unchanged_file_changes_nothing', 'either_old_or_new', 'record_not_disturbed', 'filters_in_force', 'counters_kept'], ['applied', 'passes'], weight=2), c21('gone', HU + ['unusable_file_changes_nothing', 'filters_in_force', 'counters_kept'], ['passes']), c21('broken', HU + ['broken_file_changes_nothing', 'record_not_disturbed'], ['broken', 'accepted']), c21('devices', ['record_not_disturbed', 'devices_added_never_removed', 'filters_in_force', 'counters_kept']), c21('channels', HU + ['record_not_disturbed', 'channels_kept']), c21('off', HU + ['hot_update_off_changes_nothing']),
  Unit('broken_5', 'c21.cpp', 'h_broken', HU + ['broken_file_changes_nothing', 'record_not_disturbed'], ['broken', 'accepted'], ['K=5'], opts=PS, thorough_only=True)],
  'synchronous channels; the old and the new file hold every numeric setting of channel and device with any two-digit values, both switches and two priorities; any modification times, any distance of 0 to 100 seconds between two records; a file that is missing, empty or cut within its first characters and comes back; three (thorough five) arbitrary bytes at three places of the new file; 1..3 devices before and 0..4 after; two channels before and 1..3 after, updated in any order; hot update switched on or off by either file', 'asynchronous channels (their interplay with stop is in C07); a new file with the modification time of the old one; a new file that switches hot update off reaches only the first channel that reads it; file names and device types are not updated; producers running at the same time as devices are added')
LC = ['succeeds_or_fails_as_documented', 'state_as_documented', 'configuration_as_documented', 'no_effect_of_a_failed_call', 'records_of_a_running_logger_only', 'destroying_closes_the_files']
SF = ['sets_exactly_the_field_named']
def c22(n, req, cov=(), **k): return Unit(n, 'c22.cpp', 'h_' + n, req, cov, k.pop('defines', ()), **k)
prop('C22', [Unit('calls_%d' % i, 'c22.cpp', 'h_calls', LC, ['running', 'not_running'], ['FROM=%d' % i]) for i in range(1, 13)] + [c22('set_channel', SF, ['set']), c22('set_device', SF + ['gets_the_field_named'], ['set']), c22('get', SF + ['gets_the_field_named'], ['get']), c22('batch', SF, ['set']), c22('short', SF, ['set']), c22('push', ['refuses_or_takes'], ['refused', 'taken']), c22('shm', ['logger_starts', 'records_of_a_running_logger_only', 'shared_memory_released_as_attached', 'destroying_closes_the_files'], ['released'])] +
  [Unit('calls5_%d' % i, 'c22.cpp', 'h_calls', LC, ['running', 'not_running'], ['FROM=%d' % i, 'NREC=4'], thorough_only=True) for i in range(1, 13)],
  'every sequence of four (thorough five) calls out of: initialise with two good texts, a wrong text, a text without channels, a missing file; start; stop; the start shorthands with good and wrong text and file; one record with every 32-bit channel number and priority; then one more record and destruction. Get, set, batch and shorthand calls, hold, push and hot update with every 32-bit channel, device, field and slot number and every 64-bit value, on a logger never initialised, stopped or running with 2 channels and 3 devices. Two initialisations with every pair of: no shared memory, key 1, key 2, with and without a run between them', 'asynchronous channels (start and stop with threads are in C07); calls of several threads at once; pushing a slot that another call holds; failures of the shared memory calls', [])
def c23(n, req, cov, **k): return Unit(n, 'c23.cpp', 'h_' + n, req, cov, k.pop('defines', ()), **k)
TR = ['source_text_unchanged', 'source_record_unchanged', 'hook_called_once']
prop('C23', [c23('text', TR + ['transmitted_text_equal', 'one_copy_at_the_target'], ['empty', 'text']), c23('target', TR + ['transmitted_text_equal', 'one_copy_at_the_target'], ['sent', 'no_target']), c23('filters', TR + ['transmitted_text_equal', 'accepted_as_the_target_filters'], ['accepted', 'refused']), c23('direct', ['transmitted_text_equal', 'attributes_kept', 'one_copy_at_the_target', 'source_record_unchanged'], ['sent', 'no_target'])],
  'every text of 0..700 bytes, the size of a record; every 32-bit target number, also two transmissions of one record; every priority trace..fatal; every channel and device filter of the target by ranges below 70 or by any 64-bit masks; a record handed over directly with any attributes on a logger that is running, stopped or never initialised; three synchronous channels', 'asynchronous targets (their delivery is in C04 to C08); records that end with a line break when transmitted; priorities outside trace..fatal in records made by hand; categories and identifiers above 63 with masks')
def c24(n, req, cov=(), **k): return Unit(n, 'c24.cpp', 'h_' + k.pop('entry', n), req, cov, k.pop('defines', ()), **k)
RX = ['received_text_equal', 'received_text_is_terminated', 'received_once', 'at_most_one_record_each', 'stays_within_the_record', 'other_devices_not_disturbed']
prop('C24', [c24('send', ['each_record_sent_once', 'sent_text_equal'], ['empty', 'text']), c24('address', ['each_record_sent_once', 'sent_text_equal', 'to_the_configured_address'], ['sent']), c24('faults', ['each_record_sent_once', 'other_devices_not_disturbed', 'works_again_after_a_failure'], ['opened', 'failed']), c24('restart', ['each_record_sent_once', 'sockets_closed_by_stop', 'logger_starts'])] +
  [c24('receive_%d' % a, RX, [c for c in ('two', 'fewer')], defines=['LO=%d' % a, 'HI=%d' % b], entry='receive', weight=2) for a, b in ((0, 240), (241, 480), (481, 702))] +
  [c24('in_faults', ['received_once', 'socket_closed_when_disabled', 'bound_to_the_configured_address', 'sockets_not_leaked', 'works_again_after_a_failure', 'other_devices_not_disturbed'], ['opened', 'failed']), c24('flood', ['other_devices_not_disturbed', 'received_once'], ['flood']),
   c24('faults_4', ['each_record_sent_once', 'other_devices_not_disturbed', 'works_again_after_a_failure'], ['opened', 'failed'], entry='faults', defines=['NREC=4'], thorough_only=True), c24('in_faults_4', ['received_once', 'socket_closed_when_disabled', 'sockets_not_leaked', 'works_again_after_a_failure'], ['opened', 'failed'], entry='in_faults', defines=['NREC=4'], thorough_only=True)],
  'records of every length 0..700 (the size of a record) and every content; any two different addresses and ports, either device on or off; three (thorough four) records with any pattern of socket and send failures and any waits of 0 to 4 seconds; a stop and start after 0 to 2 records; datagrams of every length 0..702 and content, one after the other, passed on to a file or the screen; three (thorough four) rounds of a receiving device with any pattern of socket, bind and receive failures and switching off; a sender that never stops', 'datagrams of the size of a record or more are cut (their last two bytes become the end of the line); several threads of a synchronous channel with a receiving device (they share one buffer); sending and receiving on one device; a datagram of length 0 ends a round', ['sockets follow env.h: datagrams are neither lost nor doubled by the network'])
def c25(n, req, cov=(), **k): return Unit(n, 'c25.cpp', 'h_' + k.pop('entry', n), req, cov, k.pop('defines', ()), **k)
ST = ['lines_counted', 'bytes_counted', 'losses_counted', 'device_bytes_by_priority_counted', 'records_taken_counted', 'records_processed_counted']
TC = ['records_taken_counted', 'bytes_by_priority_counted', 'records_processed_counted', 'records_written_counted', 'all_delivered']
prop('C25', [c25('counts', ST + ['channel_bytes_by_priority_counted', 'file_size_counted', 'record_written'], ['stopped', 'running'], defines=['NREC=2']), c25('filters', ST[:5], ['taken', 'refused']), c25('priority', ST[:5] + ['channel_bytes_by_priority_counted', 'file_size_counted'], ['taken']), c25('faults', ['lines_counted', 'bytes_counted', 'losses_counted', 'device_bytes_by_priority_counted', 'records_processed_counted', 'file_size_counted', 'record_written_at_most_once'], ['lost', 'written', 'not_sent', 'sent']),
  c25('restart', ST + ['channel_bytes_by_priority_counted', 'file_size_counted', 'counters_kept'], ['started_again', 'configured_again', 'crashed']),
  th('threads', 'deliver', TC, ['COUNTS', 'NPROD=2', 'PER=1', 'KEYS'], 2, 3), th('threads_sync', 'deliver', TC, ['COUNTS', 'ASYNC=0', 'NPROD=2', 'PER=1'], 2, 4), th('threads_sync_full', 'deliver', TC, ['COUNTS', 'ASYNC=0', 'NPROD=2', 'PER=3', 'PER0=1', 'FILL=8', 'KEYS'], 2, 2, weight=3, maxlevel=900),
  c25('counts_3', ST + ['channel_bytes_by_priority_counted', 'file_size_counted', 'record_written'], ['stopped', 'running'], entry='counts', defines=['NREC=3'], thorough_only=True), c25('faults_4', ['lines_counted', 'losses_counted'], ['lost', 'written', 'not_sent', 'sent'], entry='faults', defines=['NREC=4'], thorough_only=True)],
  'two (thorough three) records of every length and priority on two channels with file, screen, UDP, empty and virtual devices, with a stop at the end; two records of every length with a stop and start, a stop and new configuration with the same text, or a crash and attachment of the shared memory in between; one record against any priority filters, a category range and one disabled device; three (thorough four) records with any pattern of failures to open and write the file and to open the socket and send, with waits of 0 to 6 seconds; two threads with an asynchronous and a synchronous channel, also on a nearly full ring, under every schedule with up to the number of preemptions stated per unit', 'the size counter of a file after a short write; waiting, delay and queue length statistics; received datagrams are counted in C24; weak memory orders')
FE = ['line_as_documented', 'one_record_per_call', 'record_carries_its_attributes', 'written_to_the_channel_named']
prop('C26', [Unit('forms', 'c26.cpp', 'h_forms', FE), Unit('filtered', 'c26.cpp', 'h_filtered', ['line_as_documented', 'one_record_per_accepted_call', 'record_carries_its_attributes'], ['accepted', 'refused'], weight=2), Unit('stopped', 'c26.cpp', 'h_stopped', ['nothing_while_stopped'], ['end']), Unit('ready_made', 'c26.cpp', 'h_default', ['documented_file', 'line_as_documented', 'written_once', 'goes_where_documented', 'logger_stops'], ['sync', 'async'], opts=['--preempt', '0'], threads=True, bounds='one record, the channel thread, switches where a thread waits')],
  'all eight ways to make a log call (stream, pack, macro and format, each with and without attributes) at all seven priorities, every category and identify, two channels, texts of one arbitrary character and one digit; every channel priority, category and identify ranges beginning anywhere within 1000; before the start and after the stop; the two ready-made configurations with a record of every priority to each of their channels', 'other format strings (the C library formats them); longer texts (C09)')
CV = ['text_length', 'text_as_documented', 'record_written']
def c27(n, cov=(), **k): return Unit(n, 'c27.cpp', 'h_' + n, CV, cov, **k)
PC = ['float_length', 'integer_part_exact', 'integer_part_length', 'fraction_truncated_to_four_digits', 'fraction_digits', 'record_written', 'percent_sign']
prop('C27', [c27('vector', ['shortened']), c27('list', ['shortened']), c27('deque', ['shortened']), c27('set', ['shortened']), c27('map', ['shortened']), c27('hashed', ['shortened']), c27('pair'), c27('nested', ['shortened']), c27('pairs', ['shortened']), c27('strings', ['shortened']), c27('chain')] +
  [Unit('percent_e%d_%d' % e, 'c12.cpp', 'h_percent', PC, ['shown'], ['EL=%d' % e[0], 'EH=%d' % e[1]], opts=MD) for e in ((-3, -2), (-1, 0), (4, 4))] + [Unit('percent_small', 'c12.cpp', 'h_percent', ['zero_percent_text', 'percent_sign'], ['zero', 'shown'], ['EL=-20', 'EH=-18'], opts=MD)] +
  [Unit('percent_all_e%d' % e, 'c12.cpp', 'h_percent', ['percent_sign'], [], ['EL=%d' % e, 'EH=%d' % e], opts=MD, thorough_only=True) for e in range(-19, 20)] + [Unit(n + '_35', 'c27.cpp', 'h_' + n, CV, ['shortened'], ['MAXN=35'], thorough_only=True) for n in ('vector', 'list', 'deque')],
  'vectors, lists and deques of 0..11 (thorough 35) arbitrary bytes, sets and maps of 0..7, hash containers of 0..6 elements (in one bucket), pairs in four shapes, containers of containers, pairs and strings, several values in one record; percentages of every ratio from 1/8 to 2, 16 to 32 and around the smallest shown one (thorough every binary exponent from -19 to 19)', 'element types other than characters, numbers, booleans, strings, pairs and containers; negative ratios', ['the iteration order is the one of the container'])
