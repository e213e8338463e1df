#define FN_LOG_MAX_CHANNEL_SIZE 2
#include "common.h"
// Two channels at once (C04 to C08): each has its own file; thread 1 starts, logs PER records to each channel, and stops; MORE: another producer logs one
// record to channel 1.  A record says channel, number and an arbitrary byte.
#ifndef T0
#define T0 "async"
#endif
#ifndef T1
#define T1 "async"
#endif
#ifndef PER
#define PER 1
#endif
typedef unsigned long long U;
static U delivered[2], returned_[2], want[2], atcrash[2], lastbit[2]; static int phase2, nmark, ndup, ended, r1, r2, r3, done; static char sym_; static const char MARK[] = "!!!core recover!!!\n";
static void on_write(const char *path, const char *p, long len) { int c = path[0] == 'b' || path[2] == 'b';
#ifdef CRASH
  if (phase2 && len != 4) { long m = sizeof MARK - 1; vf_check(len >= m && vf_eq(p + len - m, MARK, m), "half_written_record_is_marked"); nmark++; return; }
#endif
  vf_check((len == 4) & (p[0] == (char)('a' + c)) & (p[2] == sym_) & (p[3] == '\n') & (p[4] == 0), "record_intact"); unsigned k = (unsigned char)p[1] - '0'; vf_check(k < 16, "record_intact"); U bit = 1ULL << (k & 15);
#ifdef CRASH
  if (phase2) { U dup = delivered[c] & bit; vf_check(!dup | ((bit == atcrash[c]) & !(ndup >> c & 1)), "delivered_once"); if (dup) ndup |= 1 << c; } else
#endif
  vf_check(!(delivered[c] & bit), "delivered_once"); vf_check((delivered[c] & 7 & (bit - 1)) == (7 & (bit - 1)) || phase2 || k > 2, "delivered_in_call_order"); delivered[c] |= bit; lastbit[c] = bit; }
static void log_call(Logger &l, int c, int k) { { LogStream s(l, c, PRIORITY_INFO, 0, 0, "", 0, 0, "", 0, LOG_PREFIX_NULL); vf_check(s.log_data_ != nullptr, "running_logger_accepts"); char t[3] = {(char)('a' + c), (char)('0' + k), sym_}; s.write_buffer(t, 3); } returned_[c] |= 1ULL << k; }
static const char *CFG =
#ifdef CRASH
  "- shm_key: 0x77\n"
#endif
  "- channel: 0\n  sync: " T0 "\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"a\"\n- channel: 1\n  sync: " T1 "\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"b\"\n";
static void init() { sym_ = (char)vf_sym("payload", 8); env_on_write = on_write; Logger &l = vf_logger(); vf_check(InitFromYMAL(l, CFG, "") == 0, "logger_starts"); SHMLogger *m = l.shm_; vf_key(&l.logger_state_, 4); vf_visible(&l.logger_state_, 4); vf_key(delivered, 16); vf_key(returned_, 16); vf_key(&ended, 4); vf_key(&nmark, 4); vf_key(&phase2, 4); vf_key(lastbit, 16); vf_key(want, 16); vf_key(&ndup, 4);
  for (int c = 0; c < 2; c++) { Channel &ch = m->channels_[c]; vf_invisible(&ch.channel_log_fields_, sizeof ch.channel_log_fields_ + sizeof ch.device_log_fields_); vf_key(&ch.channel_state_, 4); vf_visible(&ch.channel_state_, 4); RingBuffer &b = m->ring_buffers_[c]; vf_key(&b.write_idx_, 4); vf_key(&b.hold_idx_, 4); vf_key(&b.read_idx_, 4); vf_key(&b.proc_idx_, 4); for (int i = 0; i < RingBuffer::BUFFER_LEN; i++) { vf_key(&b.buffer_[i].data_mark_, 4); vf_key(&b.buffer_[i].content_len_, 4); vf_key(b.buffer_[i].content_, 4); } }
  vf_key(&l.file_handles_, sizeof l.file_handles_); vf_key(env_files, sizeof env_files); vf_key(env_handles, sizeof env_handles); env_threaded = 1; }
static void more(void *) { log_call(vf_logger(), 1, 5); ended = 1; }
static void begin() { vf_check(StartLogger(vf_logger()) == 0, "logger_starts");
#ifdef MORE
  vf_thread(more, nullptr, 0);
#endif
  for (int k = 0; k < PER; k++) for (int c = 0; c < 2; c++) log_call(vf_logger(), c, k); }
static void prog(void *) { begin();
#ifdef MORE
  while (!*(volatile int *)&ended) vf_wait();
#endif
  r1 = StopLogger(vf_logger()); want[0] = delivered[0]; want[1] = delivered[1]; r2 = StopLogger(vf_logger()); done = 1;
#ifdef RESTART
  vf_check(InitFromYMAL(vf_logger(), CFG, "") == 0, "restarts"); r3 = StartLogger(vf_logger()); vf_check(r3 == 0, "restarts"); for (int c = 0; c < 2; c++) log_call(vf_logger(), c, 9); r3 = StopLogger(vf_logger()); vf_check(r3 == 0, "restarts");
#endif
}
ENTRY h_stop2() { init(); vf_visible(&ended, 4); env_thread_daemon = false; vf_thread(prog, nullptr, 0); vf_run_threads(); vf_check(done, "stop_succeeds"); vf_check(r1 == 0, "stop_succeeds"); vf_check(r2 != 0, "second_stop_refused");
  for (int c = 0; c < 2; c++) { U w = returned_[c] & ~(1ULL << 9); vf_check((want[c] & w) == w, "stop_has_delivered_all"); vf_check(delivered[c] == returned_[c], "nothing_extra"); } vf_cover("end"); vf_observe("n", delivered[0] | delivered[1] << 16); }
#ifdef CRASH
static Logger *second; static void run1(void *) { begin(); }
static void again(void *) { vf_check(StartLogger(*second) == 0, "starts_again"); for (int c = 0; c < 2; c++) log_call(*second, c, 9); }
ENTRY h_crash2() { init(); vf_thread(run1, nullptr, 0); vf_crash_enable(1); vf_run_threads(); int crashed = vf_crash_enable(0); if (!crashed) { vf_cover("no_crash"); vf_end(); }
  vf_cover("crash"); phase2 = 1; for (int c = 0; c < 2; c++) { want[c] = returned_[c]; atcrash[c] = lastbit[c]; } second = new Logger(); vf_check(InitFromYMAL(*second, CFG, "") == 0, "starts_again"); vf_thread(again, nullptr, 0); vf_run_threads();
  for (int c = 0; c < 2; c++) { vf_check((delivered[c] & want[c]) == want[c], "survivors_delivered"); vf_check(delivered[c] >> 9 & 1, "works_after_recovery"); } vf_check(nmark <= 1, "at_most_one_mark_per_producer"); vf_cover("end"); vf_observe("n", delivered[0] | delivered[1] << 16); }
#endif
