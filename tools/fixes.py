"""The defects repaired in /repo: writes known_findings.json"""
import json, os
F = [('C15', '7486fde', 'configuration starting with a UTF-8 BOM: the parser runs past the end of the text'), ('C15', '633222c', 'configuration containing a NUL character: the parser never ends'), ('C15', 'b28a7cb', 'define or var whose value contains its own name: the parser never ends'),
 ('C15', '0641d1c', 'bit list index outside 0..63: undefined shift'), ('C17', 'db2daf4', 'blank after "=" in a var list stays in the value'), ('C15', '32896b0', 'shm_key not set in the configuration: the key is uninitialised memory'), ('C03', '20e240e', 'channel without a virtual device: its records are passed to the hook'),
 ('C03', '01d4526', 'disabled virtual device: the hook is still called'), ('C12', '8572276', 'negative number between -1e-7 and -1e-4: the sign is missing'), ('C11', '6aa90f4', 'hexadecimal and binary text of 0: undefined count of leading zeros; padded binary text: leading bytes not written'),
 ('C13', 'd665de0', 'timestamps after a daylight saving change on the same day are one hour off'), ('C25', '79921e8', 'priority outside trace..fatal: channel statistics indexed out of range'), ('C24', '6201818', 'received udp log shorter than the buffer: text not terminated'), ('C07', '56494b5', 'stop leaves marks in the ring: the next run publishes unfinished records'),
 ('C22', 'b82367e', 'stop, get or set on a logger that was never initialized: null pointer'), ('C22', '5557894', 'batch set with a field outside the table: out of range write'), ('C07', 'fa738fd', 'stop while the channel thread hot updates: deadlock'),
 ('C08', '0f24dfe', 'recovery after a crash marks complete records that wait behind an unfinished one as damaged'),
 ('C14', '844554d', 'file or function name longer than the record: the line prefix is written beyond its end'),
 ('C21', '5064624', 'hot update with a file that lacks the channel, for example an empty file: the running filters are cleared'), ('C16', '57482b5', 'channel option sync: SYNC selects an asynchronous channel'), ('C16', '307ec5d', 'channel identify and identify_extend above 32 bits are cut off'), ('C16', 'b622441', 'masks above 2^63-1 lose their highest bit'), ('C16', '9b9e514', 'device option out_type: null is an error'),
 ('C18', 'ef4c577', 'placeholders inside the program name are replaced again; a program called $PNAME hangs at its first record'),
 ('C20', '70f1d02', 'on days when the clock changes a daily file starts an hour early or late'),
 ('C22', '63740a5', 'initialising with a text without channels (for example empty) fails but destroys the previous configuration'), ('C22', 'd9467d8', 'initialising again with another shm_key: memory is released the wrong way when the logger is destroyed (crash, or segment 0 removed)'), ('C22', '1c2cb9d', 'push or hot update on a logger that was never initialized: null pointer'), ('C22', 'adb0af8', 'negative field numbers in get and set calls: out of range access'), ('C24', 'f7528b9', 'udp devices lose every record for up to two seconds after stop and start'),
 ('C25', '6235d6d', 'records a file device could not write because the file is not open are not counted as lost'), ('C25', '8d75a38', 'the length of a record is read for the statistics after its slot was given to another producer: wrong byte counts'),
 ('C06', '3c8d95c', 'producer of a synchronous channel stalled between checking and moving a ring index while others pass a whole ring: records delivered twice')]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = [dict(property='C08', status='known', unit='buffered', check='survivors_delivered', text='the process dies between writing a record and the flush at the end of the batch: the ring has released the record, but its text is still in the stdio buffer of the dead process and reaches no file (EnterProcChannel in fn_channel.h flushes after the batch or after FN_LOG_FORCE_FLUSH_QUE records; flushing before every release would cost a system call per record, a trade-off the code states, so it is recorded)'), dict(property='C04', status='known', unit='lap', check='all_delivered', text='a producer that stalls between reading the claim position and moving it while the other producers claim exactly one full ring of records: its compare-and-swap succeeds although the ring is full, and undelivered records are lost (HoldChannel in fn_channel.h; repairing it needs position counters wider than the ring, that is another shared memory layout)')]  # findings recorded, not repaired: dict(property=, status='known', unit=, check=, text=)
json.dump([dict(property=p, status='fixed', commit=c, text='fixed: property=%s %s %s' % (p, c, w)) for p, c, w in F] + K, open(V + '/known_findings.json', 'w'), indent=1)
