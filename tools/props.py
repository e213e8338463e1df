"""Property texts: id -> (title, statement, over, quantifier text, why tests cannot, files, mechanism, state, observe)"""
S = 'src/include/'
P = {}
def p(i, title, st, over, q, why, files, mech, state=(), obs=()): P[i] = dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=dict(files=[S + f for f in files], mechanism=[dict(name=a, where=S + b) for a, b in mech], state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state], observe_at=list(obs), hook_needed=None))
p('C01', 'A log is admitted exactly when the channel and some device accept it',
  'A log call produces a record exactly when the logger is running, the channel exists, the channel filters (priority, category range and mask, identify range and mask) accept the log, and at least one enabled output device of that channel accepts it by its own filters. A refused call writes nothing to any device. The early test used by the format style macros gives the same answer as the call itself.',
  ['inputs', 'configurations'], 'all priorities (also outside the defined levels), categories, identifies, and all filter values of channel and devices', 'Tests fix a handful of filter settings; the filters are 64-bit ranges and masks that interact with signed/unsigned wrap around, and the answer must be right for every combination.',
  ['fn_channel.h', 'fn_core.h', 'fn_macro.h'], [('BlockInput', 'fn_channel.h'), ('HoldChannel', 'fn_channel.h'), ('LOG_FORMAT', 'fn_macro.h')], obs=['device output'])
p('C02', 'A record goes to exactly the enabled devices whose filters accept it',
  'Every published record is written once to each enabled output device of its channel whose filters accept it, and to no other device. A device configured as an input never receives records.',
  ['inputs', 'configurations'], 'all record attributes and all device filter values, for channels with two and three devices', 'Tests use one device or fixed filters; independence of the devices must hold for every combination of filter values.',
  ['fn_channel.h'], [('DispatchLog', 'fn_channel.h'), ('EnterProcDevice', 'fn_channel.h')], obs=['file writes'])
p('C03', 'The virtual device hook sees exactly the records its device accepts',
  'The registered hook is called once, in the logging thread and before the record is published, for each record that an enabled virtual device of that channel accepts, and it sees the record attributes and NUL terminated text. Without a virtual device on the channel, or with that device disabled, the hook is never called.',
  ['inputs', 'configurations'], 'all record attributes and all filter values of one virtual device next to one file device', 'The tests exercise one accepting virtual device; the filter combinations, disabled devices and channels without one are not sampled.',
  ['fn_channel.h', 'fn_out_virtual_device.h', 'fn_macro.h'], [('EnterProcOutVirtualDevice', 'fn_out_virtual_device.h'), ('PushChannel', 'fn_channel.h')], obs=['hook calls'])
p('C04', 'Asynchronous channels deliver every record once, intact and in order',
  'Every record whose logging call has returned is written to the device exactly once, with exactly the text its producer gave it. Records of one producer appear in the order it logged them, and a record whose call returned before another call began appears first. When the channel thread rests, the text is in the file and not in a buffer of the process. This holds for every interleaving of the producers and the channel thread.',
  ['schedules', 'inputs'], 'every interleaving of the producers with the channel thread, at every access to shared positions and slot marks', 'A stress test samples schedules; lost, duplicated or torn records need a particular interleaving of the lock free ring operations.',
  ['fn_channel.h', 'fn_data.h'], [('HoldChannel', 'fn_channel.h'), ('PushChannel', 'fn_channel.h'), ('EnterProcChannel', 'fn_channel.h')], [('write/hold/read/proc positions', 'ring state', 'fn_data.h'), ('data_mark_', 'slot life cycle', 'fn_data.h')], ['file writes'])
p('C05', 'A full ring blocks producers; no record slot is ever reused too early',
  'When the ring is full, producers wait until the consumer has freed a slot, and then continue: nothing is dropped or overwritten, and everybody finishes. Two producers never fill the same slot at the same time, from whatever position the ring starts.',
  ['schedules', 'histories'], 'every interleaving, started from every ring position including the wrap around and an almost full ring', 'Filling the ring and wrapping around at the same moment as a competing producer is a rare schedule that stress tests do not control.',
  ['fn_channel.h', 'fn_data.h'], [('HoldChannel', 'fn_channel.h'), ('EnterProcChannel', 'fn_channel.h')], [('hold/proc positions', 'ring occupancy', 'fn_data.h')], ['file writes'])
p('C06', 'Synchronous channels have delivered a record when the call returns',
  'On a synchronous channel a record is on all matching devices, for a file flushed out of the process, when the logging call of the only active producer returns. With several producers in flight, every record is delivered exactly once and intact, producers never deadlock, and once all calls have returned nothing is left undelivered.',
  ['schedules', 'inputs'], 'every interleaving of two and three producers', 'Tests only log from one thread on synchronous channels; the hand over between producers sharing the channel lock needs specific interleavings.',
  ['fn_channel.h'], [('EnterProcChannel', 'fn_channel.h'), ('PushChannel', 'fn_channel.h')], [('read position', 'next record to deliver', 'fn_data.h')], ['file writes'])
p('C07', 'Stopping drains every returned log call and never hangs',
  'When stop returns, every record whose logging call returned before the stop began has been delivered, and the channel thread has ended. Stopping never deadlocks, whatever the channel thread is doing, including a hot update. Stopping twice is harmless, and a logger started again delivers only its own new records.',
  ['schedules', 'histories'], 'every interleaving of a stopping thread with the channel thread, with and without a hot update in progress, followed by a restart', 'A lost tail or a deadlock needs stop to land on a particular step of the channel thread.',
  ['fn_core.h', 'fn_channel.h'], [('StopLogger', 'fn_core.h'), ('EnterProcChannel', 'fn_channel.h'), ('CleanChannels', 'fn_core.h'), ('HotUpdateLogger', 'fn_channel.h')], [('channel_state_', 'thread life cycle', 'fn_data.h')], ['file writes', 'return of stop'])
p('C08', 'Records in shared memory survive a crash at any point',
  'With a shared memory key, if the process dies at any instruction, the next process that starts with the same configuration delivers every record whose logging call had returned and that was not yet delivered, once and in order, and marks a record that was only half written. A delivered record is repeated at most once, only for the record being written at the crash. The restarted logger then works normally.',
  ['crash_points', 'schedules'], 'a crash after every shared memory access of producer and channel thread, under every interleaving, followed by a restart', 'No test crashes the process; every instruction between claiming and releasing a slot is a different crash point.',
  ['fn_core.h', 'fn_data.h', 'fn_channel.h'], [('LoadSharedMemory', 'fn_load.h'), ('InitLogger', 'fn_core.h')], [('shared memory block', 'rings surviving the process', 'fn_data.h')], ['file writes after the restart'])
p('C09', 'No log operation leaves its record; text is cut at the record size',
  'Whatever is streamed into a record, of any type, length and at any fill level, text is appended in order and cut at the record size, earlier text stays, and no memory outside the record is touched. The published record is that text followed by one newline and a terminating NUL. Operations on a refused record do nothing.',
  ['inputs', 'programs'], 'one arbitrary stream operation applied to a record holding any number of bytes (induction over sequences of operations)', 'Overruns need a value whose text is longest at exactly the last bytes of a record; tests log short lines.',
  ['fn_stream.h', 'fn_channel.h', 'fn_fmt.h', 'fn_macro.h'], [('LogStream', 'fn_stream.h'), ('PushChannel', 'fn_channel.h')], [('content_len_', 'bytes used', 'fn_data.h')], ['record memory', 'file writes'])
p('C10', 'Integers are logged as their exact decimal text',
  'Every integer of every supported width and signedness appears in the log as its canonical decimal text: a minus sign exactly for negative values, no leading zeros, every digit right.',
  ['inputs'], 'all 2^64 values of 64-bit types and all values of the narrower types', 'The fast digit-pair formatter has a case per magnitude; sampling cannot cover the boundaries of all of them.',
  ['fn_fmt.h', 'fn_stream.h'], [('write_dec_unsafe', 'fn_fmt.h')], obs=['file writes'])
p('C11', 'Hexadecimal, pointer and binary text shows exactly the value',
  'Hexadecimal and binary text of any 64-bit value has exactly the digits of that value, padded with zeros to the requested width. A pointer is shown as 0x and its digits, a null pointer as null. A memory dump shows each byte as its printable character or a dot and as two hexadecimal digits.',
  ['inputs'], 'all 2^64 values at each supported minimum width, all pointers, all contents of short dumps', 'One wrong table entry or shift shows only for particular values.',
  ['fn_fmt.h', 'fn_stream.h'], [('write_hex_unsafe', 'fn_fmt.h'), ('write_bin_unsafe', 'fn_fmt.h'), ('write_binary', 'fn_stream.h')], obs=['file writes'])
p('C12', 'Floating point text is exact in sign, integer part and four digits',
  'A float or double of magnitude 0.0001 to 2^60 is logged with its sign, its exact integer part and its fraction cut to four digits, in at most 29 characters. Below that and down to 1e-7 it is logged with eight decimals, and zeros, infinities and NaN have fixed texts. Every other magnitude shows exactly the text the C library produces for it.',
  ['inputs'], 'all mantissas and signs for each binary exponent', 'Rounding and digit grouping errors show only for particular bit patterns.',
  ['fn_fmt.h', 'fn_stream.h'], [('write_double_unsafe', 'fn_fmt.h')], obs=['file writes'])
p('C13', 'Timestamps show local wall clock time whatever the order of use',
  'A formatted timestamp is the local calendar date and time of its moment, in a fixed layout with milliseconds, whatever moments the same thread formatted before it and also across a change of the time zone offset such as daylight saving.',
  ['inputs', 'histories'], 'any three moments in any order, any zone offset, and an offset change at any moment', 'The formatter caches between calls; a stale cache needs a particular sequence of moments around midnight or an offset change.',
  ['fn_fmt.h', 'fn_stream.h'], [('write_date_unsafe', 'fn_fmt.h')], [('cached date', 'last formatted moment of the thread', 'fn_fmt.h')], ['file writes'])
p('C14', 'The line prefix shows exactly the requested parts of the record',
  'The prefix of a line consists of exactly the requested parts in a fixed order: timestamp, priority, thread, logger-independent names, file and line, function. Each part shows the value that belongs to this record, and the message follows after one blank. Overlong or missing file and function names never spoil the line.',
  ['inputs', 'configurations'], 'every combination of prefix parts, every priority, file names with any number of path components', 'Tests use the default prefix and their own file name.',
  ['fn_stream.h', 'fn_channel.h', 'fn_macro.h'], [('LogStream', 'fn_stream.h')], obs=['file writes'])
p('C15', 'Any configuration text is parsed safely',
  'Parsing terminates for every sequence of bytes, never touches memory outside the text and the configuration, and either reports an error or leaves a configuration whose sizes and identifiers are within their limits. The same holds for a configuration given as a file.',
  ['inputs'], 'every byte sequence up to the stated length, and every completion of valid configuration fragments', 'The hand written lexer has hundreds of byte-level branches; its failures need odd byte combinations that tests do not contain.',
  ['fn_parse.h', 'fn_load.h', 'fn_core.h'], [('ParseLogger', 'fn_parse.h'), ('ParseReserve', 'fn_parse.h')], [('lexer', 'position in the text', 'fn_parse.h')], ['return value', 'configuration'])
p('C16', 'Configuration options mean what the documentation says',
  'Every documented option sets exactly the setting it names, for every value in its range, on the channel or device it belongs to, and leaves all others at their defaults. A line belongs to the channel or device that its indentation puts it under. Channels and devices must be numbered consecutively, and an option that stands where it does not belong is an error.',
  ['inputs', 'configurations'], 'every option of channel and device, with symbolic values and letter case', 'Tests contain one example per option at best; precedence of look-alike option names depends on the parser order.',
  ['fn_parse.h'], [('ParseChannel', 'fn_parse.h'), ('ParseDevice', 'fn_parse.h'), ('ParseLogger', 'fn_parse.h')], obs=['configuration read back'])
p('C17', 'Defines and variables are substituted literally, and only where named',
  'A defined block or variable is replaced by its text wherever its name is used, later text stays unchanged, and substitution always ends.',
  ['inputs', 'programs'], 'all short names and values', 'Names that contain each other, values that contain their own name, and blanks around them are not tested.',
  ['fn_parse.h'], [('ParseReserve', 'fn_parse.h')], obs=['configuration read back'])
p('C18', 'File names are built from path, pattern and record time',
  'The file a record goes to is named by the configured path and pattern with every placeholder replaced by the program name, the process id and the local date and time of the record that opens it; without a pattern the name is made of program, date, process, channel and device.',
  ['inputs', 'configurations'], 'every pattern of placeholders and literal text, any moment', 'Tests use one or two patterns; placeholders that touch or contain each other are not covered.',
  ['fn_out_file_device.h'], [('MakeFileName', 'fn_out_file_device.h')], obs=['names of opened files'])
p('C19', 'Size rotation keeps every line and the newest backups in order',
  'When the file would exceed its size limit it is rotated first: backups are numbered from the newest, exactly the configured number is kept, and the oldest is dropped. No record is lost or split by a rotation.',
  ['inputs', 'histories'], 'all record lengths and limits, over sequences of records and rotations', 'Tests only check that some backup exists.',
  ['fn_out_file_device.h', 'fn_file.h'], [('EnterProcOutFileDevice', 'fn_out_file_device.h'), ('rollback', 'fn_file.h')], obs=['files'])
p('C20', 'Daily and hourly files start at the right moment and hold the right lines',
  'With daily or hourly files a record is written to the file of the day or hour of its own timestamp: a new file starts with the first record of a new day or hour, and not earlier.',
  ['inputs', 'histories'], 'any two moments and any zone offset', 'Tests cannot wait for midnight.',
  ['fn_out_file_device.h'], [('OpenFileDevice', 'fn_out_file_device.h')], obs=['files'])
p('C21', 'Hot update applies a changed configuration and nothing else',
  'With hot update on, a changed configuration file takes effect after it changed: filters, switches, limits and rotation settings of channels and devices follow the new file, and devices it adds are added. An unreadable, broken or incompatible new file leaves the running configuration as it was, and runtime state and records are never disturbed.',
  ['inputs', 'histories', 'configurations'], 'any new filter values, any modification times, broken files', 'Tests never change the file while running.',
  ['fn_channel.h', 'fn_core.h'], [('HotUpdateLogger', 'fn_channel.h')], obs=['configuration read back', 'file writes'])
p('C22', 'Lifecycle and setting calls are safe in any order and with any arguments',
  'Init, start, stop, logging and the get and set calls can be made in any order and with any channel, device and field number: each either does its documented effect or fails without any effect, and none crashes. Starting a running logger fails and leaves it running.',
  ['inputs', 'programs'], 'every sequence of up to four lifecycle calls, every 32-bit channel, device and field number', 'Tests follow the intended order with valid numbers.',
  ['fn_core.h', 'fn_load.h', 'fn_channel.h'], [('InitLogger/StartLogger/StopLogger', 'fn_core.h'), ('SetDeviceConfig', 'fn_core.h')], obs=['return values', 'file writes'])
p('C23', 'A transmitted record reaches the target channel unchanged',
  'Transmitting a record delivers one copy with the same text and priority, and the given category and identify, to the target channel when the filters there accept it, and leaves the source record as it was.',
  ['inputs', 'configurations'], 'all record attributes, text lengths and target filters', 'No test covers transmission.',
  ['fn_channel.h', 'fn_load.h'], [('TransmitChannel', 'fn_channel.h')], obs=['file writes'])
p('C24', 'UDP devices send each record once and receive safely',
  'A UDP output device sends each accepted record exactly once, complete and unchanged, to the configured address. A UDP input device turns every received datagram of any length and content into at most one record that stays within its bounds, and failures of the network leave the logger working.',
  ['inputs', 'fault_sequences'], 'all datagram lengths and contents, all send and socket failures', 'Tests send to a local port and never receive odd datagrams or failures.',
  ['fn_channel.h', 'fn_out_udp_device.h', 'fn_file.h'], [('EnterProcOutUDPDevice', 'fn_out_udp_device.h'), ('EnterProcChannel', 'fn_channel.h')], obs=['sent datagrams', 'file writes'])
p('C25', 'Statistics count exactly what was written',
  'The statistics of every channel and device, in total and per priority, equal what happened: each record taken is counted once when it is held, pushed and processed; each record given to a device that is open counts once as a line with exactly its bytes, records refused by filters count nowhere, and each record that could not be written or sent counts exactly once as lost. The current size of a file equals its counter. The counters go on over a stop and start or a new configuration and, in shared memory, over a crash. This holds with several threads.',
  ['inputs', 'fault_sequences', 'schedules'], 'all record lengths, priorities and filters, any pattern of failures, all interleavings of two producers', 'Tests print the counters and check a few sums after undisturbed runs.',
  ['fn_channel.h', 'fn_out_file_device.h', 'fn_load.h'], [('AtomicIncDeviceLog', 'fn_data.h'), ('EnterProcOutFileDevice', 'fn_out_file_device.h')], obs=['counters'])
p('C26', 'Every form of a log call makes the same record',
  'Stream, pack, macro and format calls of the default logger, with and without attributes, all make the same record: the priority in their name, the channel, category and identify given (or zero), the file, line and function of the call, and the text of their arguments; they make it exactly when the channel accepts it, and do nothing while the logger is not running. The ready-made configurations write everything to the file of the channel, errors also to its error file and records from info to its info file where it has one (debug start: all), and show records from info (debug start: from debug) on the screen.',
  ['inputs', 'configurations'], 'all forms, priorities, categories, identifies and channel filters', 'Tests use a few of the forms and look at none of their records.',
  ['fn_macro.h', 'fn_stream.h', 'fn_core.h'], [('LOG_FORMAT', 'fn_macro.h'), ('LogTemplatePack', 'fn_macro.h'), ('FastStartDefaultLogger', 'fn_macro.h'), ('FastStartDebugLogger', 'fn_macro.h')], obs=['file writes', 'screen', 'hook calls'])
p('C27', 'Compound values show their kind, size and first elements',
  'A container is logged as its kind, its true size and its elements in iteration order, separated by commas: all of them up to five, the first five and an ellipsis beyond; pairs as <first:second>, also nested in each other; booleans as true or false, characters as they are, small unsigned numbers as numbers; a ratio as its percentage cut to four digits. Values written one after the other appear one after the other.',
  ['inputs'], 'all element values and container sizes within the bounds', 'Tests print some containers and never look at the text.',
  ['fn_stream.h', 'fn_fmt.h'], [('write_container', 'fn_stream.h'), ('LogPercent', 'fn_stream.h')], obs=['file writes'])
