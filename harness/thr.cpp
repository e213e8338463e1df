#include "common.h"
// Threaded harness: C04 to C08.  Thread 1 runs the main program (start, its own log calls, stop), the channel thread is the real one,
// further producers follow.  Records carry a letter per producer, a digit per call and an arbitrary byte.
#ifndef NPROD
#define NPROD 2   // producers including thread 1
#endif
#ifndef PER
#define PER 1     // log calls per producer
#endif
#ifndef PER0
#define PER0 PER  // log calls of thread 1
#endif
#ifndef FILL
#define FILL 0    // records already waiting in the ring when the threads begin
#endif
#ifdef COUNTS
#define FLEN 5    // length of the records waiting
#else
#define FLEN 4
#endif
#ifndef ASYNC
#define ASYNC 1
#endif
#ifndef POS
#define POS 0
#endif
static const int TOT = 64; typedef unsigned long long U;
static U returned_, delivered, before[TOT], want, ended; static int ndeliv, order_free, in_write, overlap_point, active, calls, ndup, nmark, phase2; // harness bookkeeping: not shared memory of the program
static U lastbit, atcrash; static char sym_; // an arbitrary payload byte
#ifdef BUFFERED
static U onfile; static void on_flush(const char *) { onfile = delivered; }
#endif
static const char MARK[] = "!!!core recover!!!\n";
static void on_write(const char *, const char *p, long len) { // the conditions are joined with & so that nothing branches on merged data
  if (overlap_point) { vf_check(!in_write, "one_writer_at_a_time"); in_write = 1; vf_yield(); in_write = 0; }
#ifdef CRASH
  if (phase2 && len != 4) { long m = sizeof MARK - 1; vf_check(len >= m && vf_eq(p + len - m, MARK, m) && p[len] == 0, "half_written_record_is_marked"); nmark++; return; }
#endif
  unsigned pr = (unsigned char)p[0] - 'a', k = (unsigned char)p[1] - '0'; long e = 4 + (FLEN - 4) * (pr == 3); vf_check((len == e) & (p[e - 1] == '\n') & (p[e] == 0) & (pr < 4) & (k < 16) & (p[2] == sym_), "record_intact");
  unsigned i = (pr * 16 + k) & 63; U bit = 1ULL << i;
#ifdef CRASH
  if (phase2) { U dup = delivered & bit; vf_check(!dup | ((bit == atcrash) & (ndup == 0)), "delivered_once"); ndup += dup != 0; } else
#endif
  vf_check(!(delivered & bit), "delivered_once"); 
  if (ASYNC) vf_check((delivered & before[i]) == before[i], "delivered_in_call_order"); delivered |= bit; lastbit = bit; ndeliv++; }
static void log_call(int p, int k) { int i = p * 16 + k; before[i] = returned_; active++; int a0 = active; calls++; int c0 = calls; { LogStream s = vf_stream(); vf_check(s.log_data_ != nullptr, "running_logger_accepts"); char t[3] = {(char)('a' + p), (char)('0' + k), sym_}; s.write_buffer(t, 3); }
  active--; returned_ |= 1ULL << i; if (!ASYNC) { vf_check((a0 > 1) | (calls != c0) | ((delivered >> i) & 1), "delivered_when_the_call_returns"); vf_check((a0 > 1) | (calls != c0) | !env_unflushed(), "in_the_file_when_the_call_returns"); } }
static const char *CFG = 
#ifdef HOT
  "- hot_update: true\n"
#endif
#ifdef CRASH
  "- shm_key: 0x77\n"
#endif
#if ASYNC
  "- channel: 0\n  sync: async\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"a\"\n";
#else
  "- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"a\"\n";
#endif
static void load(Logger &l) {
#ifdef HOT
  int f = env_text_file("cfg", CFG, (long)strlen(CFG), 100); int r = InitFromYMALFile(l, "cfg"); env_files[f].mtime = 200; env_now += 10; // the file has changed and the next check is due
#else
  int r = InitFromYMAL(l, CFG, "");
#endif
  vf_check(r == 0, "logger_starts"); }
static void init() { env_on_write = on_write;
#ifdef BUFFERED
  env_on_flush = on_flush;
#endif
  load(vf_logger()); SHMLogger *m = vf_logger().shm_; Channel &c = m->channels_[0];
#ifndef COUNTS
  vf_invisible(&c.channel_log_fields_, sizeof c.channel_log_fields_ + sizeof c.device_log_fields_); // counters
#endif
  RingBuffer &b = m->ring_buffers_[0]; const int N = RingBuffer::BUFFER_LEN;
  vf_key(&b.write_idx_, 4); vf_key(&b.hold_idx_, 4); vf_key(&b.read_idx_, 4); vf_key(&b.proc_idx_, 4); for (int i = 0; i < N; i++) { vf_key(&b.buffer_[i].data_mark_, 4); vf_key(&b.buffer_[i].content_len_, 4);
#ifdef KEYS
    vf_key(b.buffer_[i].content_, 4);
#endif
  } vf_key(&c.channel_state_, 4); vf_key(&vf_logger().logger_state_, 4);
  
#ifdef KEYS // deep bounds: fewer, more concrete states
  vf_key(&delivered, 8); vf_key(&returned_, 8); vf_key(before, sizeof before);
#endif
  vf_key(&active, 4); vf_key(&calls, 4); vf_key(&in_write, 4); vf_key(&env_handles[0], sizeof env_handles[0]);
  vf_visible(&c.channel_state_, 4); vf_visible(&vf_logger().logger_state_, 4); // plain words the threads poll
  sym_ = (char)vf_sym("payload", 8); env_threaded = 1;
  b.read_idx_ = POS; b.proc_idx_ = POS; b.write_idx_ = POS; b.hold_idx_ = POS; }
// the ring holds FILL records when the producers begin
static void fill_ring() { RingBuffer &b = vf_logger().shm_->ring_buffers_[0]; const int N = RingBuffer::BUFFER_LEN; vf_atomic(1);
  for (int i = 0; i < FILL; i++) { LogData &d = b.buffer_[(POS + i) % N]; d.channel_id_ = 0; d.priority_ = PRIORITY_INFO; d.content_[0] = 'd'; d.content_[1] = (char)('0' + i); d.content_[2] = sym_; d.content_[3] = d.content_[FLEN - 1] = '\n'; d.content_[FLEN] = 0; d.content_len_ = FLEN; d.timestamp_ = env_now; d.data_mark_ = 2; returned_ |= 1ULL << (48 + i); if (i) before[48 + i] = 1ULL << (48 + i - 1); }
  if (FILL) { b.hold_idx_ = (POS + FILL) % N; b.write_idx_ = (POS + FILL) % N; } vf_atomic(0); }
static void producer(void *a) { int p = (int)(long)a; for (int k = 0; k < PER; k++) log_call(p, k); ended++; }
#ifdef LAP
static void filler(void *) { if (vf_logger().shm_->ring_buffers_[0].hold_idx_ != POS) vf_end(); fill_ring(); log_call(0, 0); }
#endif
static int expected() { return PER0 + (NPROD - 1) * PER + FILL; }
static void begin() { vf_check(StartLogger(vf_logger()) == 0, "starts");
#ifdef LAP // another producer may already stand anywhere before its claim
  vf_thread(producer, (void *)1L, 0); vf_thread(filler, nullptr, 0); return;
#endif
  fill_ring(); for (int p = 1; p < NPROD; p++) vf_thread(producer, (void *)(long)p, 0); }
// C25: what the statistics say when everything is delivered
static void counters() {
#ifdef COUNTS
  Logger &l = vf_logger(); int n = expected(), b = 4 * n + FILL * (FLEN - 4); vf_check(GetChannelLog(l, 0, CHANNEL_LOG_HOLD) == n - FILL && GetChannelLog(l, 0, CHANNEL_LOG_PUSH) == n - FILL, "records_taken_counted"); vf_check(GetChannelLog(l, 0, (ChannelLogEnum)(CHANNEL_LOG_PRIORITY + PRIORITY_INFO)) == 4 * (n - FILL), "bytes_by_priority_counted"); vf_check(GetChannelLog(l, 0, CHANNEL_LOG_PROCESSED) == n && GetChannelLog(l, 0, CHANNEL_LOG_PROCESSED_BYTES) == b, "records_processed_counted");
  vf_check(GetDeviceLog(l, 0, 0, DEVICE_LOG_TOTAL_WRITE_LINE) == n && GetDeviceLog(l, 0, 0, DEVICE_LOG_TOTAL_WRITE_BYTE) == b && GetDeviceLog(l, 0, 0, DEVICE_LOG_TOTAL_LOSE_LINE) == 0 && GetDeviceLog(l, 0, 0, DEVICE_LOG_CUR_FILE_SIZE) == b && GetDeviceLog(l, 0, 0, (DeviceLogEnum)(DEVICE_LOG_PRIORITY + PRIORITY_INFO)) == b, "records_written_counted");
#endif
}
// C04, C05, C06: everything is delivered without stopping
#ifndef EARLY
#define EARLY 0   // so many sleeps of thread 1 end although nothing has changed (a ring that stays full for long)
#endif
static void prog_deliver(void *) { begin(); env_early_wake = EARLY;
#ifdef LAP
  return;
#endif
  for (int k = 0; k < PER0; k++) log_call(0, k); }
ENTRY h_deliver() { init(); overlap_point = !ASYNC; vf_thread(prog_deliver, nullptr, 0); vf_run_threads(); vf_check(ndeliv == expected(), "all_delivered"); vf_check(!env_unflushed(), "in_the_file_at_rest"); counters(); vf_cover("end"); vf_observe("n", ndeliv); }
// C07: stop when all calls have returned, the channel thread being anywhere
static int r1, r2, r3;
static void prog_stop(void *) { begin(); for (int k = 0; k < PER0; k++) log_call(0, k);
#if NPROD > 1
  while (*(volatile U *)&ended < NPROD - 1) vf_wait();
#endif
  r1 = StopLogger(vf_logger()); want = delivered; r2 = StopLogger(vf_logger());
#ifdef RESTART
  load(vf_logger()); r3 = StartLogger(vf_logger()); if (r3 == 0) { log_call(0, 9); r3 = StopLogger(vf_logger()); }
#endif
}
ENTRY h_stop() { init(); vf_visible(&ended, 8); env_thread_daemon = false; vf_thread(prog_stop, nullptr, 0); vf_run_threads(); vf_check((want & returned_ & ~(1ULL << 9)) == (returned_ & ~(1ULL << 9)), "stop_has_delivered_all"); vf_check(r1 == 0, "stop_succeeds"); vf_check(r2 != 0, "second_stop_refused");
#ifdef RESTART
  vf_check(r3 == 0, "restarts"); vf_check(ndeliv == expected() + 1, "only_the_new_record"); 
#else
  vf_check(ndeliv == expected(), "nothing_extra");
#endif
#ifdef HOT
  if (vf_logger().shm_->channels_[0].channel_log_fields_[CHANNEL_LOG_HOTUPDATE_CHANGE] > 0) vf_cover("hot_updated");
#endif
  vf_cover("end"); vf_observe("n", ndeliv); }
// C07: a call is still open when stop begins; the next run must deliver only its own records
static void prog_inflight(void *) { vf_check(StartLogger(vf_logger()) == 0, "starts"); { LogStream open = vf_stream(); open << "open"; { LogStream behind = vf_stream(); behind << "behind"; } phase2 = 1; r1 = StopLogger(vf_logger()); }
  load(vf_logger()); phase2 = 0; returned_ = delivered = 0; ndeliv = 0; begin(); for (int k = 0; k < PER0; k++) log_call(0, k); }
ENTRY h_inflight() { init(); vf_thread(prog_inflight, nullptr, 0); vf_run_threads(); vf_check(r1 == 0, "stop_succeeds"); vf_check(ndeliv == expected(), "only_the_new_records"); vf_cover("end"); vf_observe("n", ndeliv); }
#ifdef CRASH
// C08: a crash at any point, then a new process
static Logger *second;
static void prog_again(void *) { vf_check(StartLogger(*second) == 0, "starts_again"); { LogStream s(*second, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); vf_check(s.log_data_ != nullptr, "running_logger_accepts"); char t[3] = {'c', '9', sym_}; s.write_buffer(t, 3); } }
ENTRY h_crash() { init(); vf_thread(prog_deliver, nullptr, 0); vf_crash_enable(1); vf_run_threads(); int crashed = vf_crash_enable(0);
  if (!crashed) { vf_check(ndeliv == expected(), "all_delivered"); vf_cover("no_crash"); vf_end(); }
  vf_cover("crash"); phase2 = 1;
#ifdef BUFFERED // what was written but not flushed dies with the process
  delivered = onfile;
#endif
  want = returned_; atcrash = lastbit; active = 0; second = new Logger(); load(*second);
  vf_thread(prog_again, nullptr, 0); vf_run_threads();
  vf_check((delivered & want) == want, "survivors_delivered"); vf_check((delivered >> 41) & 1, "works_after_recovery"); vf_check(nmark <= NPROD, "at_most_one_mark_per_producer"); vf_cover("end"); vf_observe("n", ndeliv); }
// C08: recovery of an unfinished record of any length, followed by a complete one
static int nw_; static long flen_; static void on_write2(const char *, const char *p, long len) { long m = sizeof MARK - 1; nw_++;
  if (nw_ == 1) { flen_ = len; vf_check((len >= m) & (len <= LogData::LOG_SIZE - 1), "marked_record_length"); vf_check(vf_eq(p + len - m, MARK, m), "half_written_record_is_marked"); vf_check(p[len] == 0, "marked_record_terminated"); }
  else if (nw_ == 2) vf_check((len == 4) & (p[0] == 'b') & (p[1] == '1') & (p[2] == sym_) & (p[3] == '\n') & (p[4] == 0), "next_record_untouched"); }
ENTRY h_recover() { env_on_write = on_write2; int n = (int)vf_range("length", 0, LogData::LOG_SIZE), mark = (int)vf_range("mark", 0, 1); sym_ = (char)vf_sym("payload", 8); load(vf_logger()); SHMLogger *m = vf_logger().shm_; RingBuffer &b = m->ring_buffers_[0]; vf_check(StartLogger(vf_logger()) == 0, "starts");
  { LogStream o = vf_stream(); LogStream c = vf_stream(); char t[3] = {'b', '1', sym_}; c.write_buffer(t, 3); c.~LogStream(); new (&c) LogStream(vf_logger(), 9, 0, 0, 0, "", 0, 0, "", 0, 0);
    vf_check(o.log_data_ == &b.buffer_[0], "first_slot"); LogData &d = b.buffer_[0]; d.content_len_ = n; d.data_mark_ = mark; for (int i = 0; i < LogData::LOG_SIZE; i++) d.content_[i] = 'x';
    second = new Logger(); load(*second); vf_check(StartLogger(*second) == 0, "starts_again"); { LogStream s(*second, 0, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); vf_check(s.log_data_ != nullptr, "running_logger_accepts"); }
    vf_check(nw_ == 3, "all_delivered"); if (n == LogData::LOG_SIZE) vf_cover("full"); vf_observe("n", (U)flen_); vf_end(); } }
#endif
