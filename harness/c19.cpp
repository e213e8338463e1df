#define ENV_FILES 24
#include "common.h"
// C19: rotation by size.  NREC records of arbitrary lengths meet an arbitrary limit; a model of the live file and its backups says where
// every record and every file must be afterwards.
#ifndef NREC
#define NREC 3
#endif
#ifndef RMAX
#define RMAX 3
#endif
#define NB 15
static const char *NAME[NB] = {"a.log", "a.log.1", "a.log.2", "a.log.3", "a.log.4", "a.log.5", "a.log.6", "a.log.7", "a.log.8", "a.log.9", "a.log.10", "a.log.11", "a.log.12", "a.log.13", "a.log.14"};
static int want[NB]; static long want_size[NB]; static int cur_gen; // generation of the file under each name, 0: none
static int gen_of(const char *p) { int i = env_find(p); return i < 0 ? 0 : env_files[i].gen; }
static void present(int i, const char *id, long max) { int f = env_mkfile(NAME[i]); env_files[f].size = vf_range(id, 0, max); want[i] = env_files[f].gen; want_size[i] = env_files[f].size; }
static int R; static bool stuff; static long LIM, cur; static bool open_; static int nrot;
static void rotate(int n) { nrot++; if (!want[0]) return; vf_cover("rotated"); int gap = 1; while (gap <= n && want[gap]) gap++; int to = gap <= n ? gap : n; if (gap > n && want[n]) vf_cover("oldest_dropped"); for (int i = to; i > 0; i--) { want[i] = want[i - 1]; want_size[i] = want_size[i - 1]; } want[0] = 0; want_size[0] = 0; }
static void files() { for (int i = 0; i < NB; i++) { vf_check(gen_of(NAME[i]) == want[i], i == 0 ? "live_file" : "backups_in_order"); if (want[i]) vf_check(env_files[env_find(NAME[i])].size == want_size[i], "no_file_changed"); } }
static long len_[8];
static void record(int i, bool fail = false) { int w = env_nwrites; { LogStream s = vf_stream(); s << (char)('A' + i); s.log_data_->content_len_ = (int)len_[i] - 1; }
  bool over = LIM > 0 && R > 0 && cur + len_[i] > LIM; if (over) { open_ = false; cur = 0; }
  if (!open_) { if ((R > 0 || LIM > 0) && (!stuff || over)) rotate(R > 0 ? R : 1); open_ = true; cur = want_size[0]; if (!want[0]) { want[0] = env_gen; want_size[0] = 0; cur = 0; vf_check(gen_of(NAME[0]) == env_gen, "live_file"); } else vf_cover("continued"); }
  vf_check(env_nwrites == w + 1, "record_written_once"); const EnvWrite &x = env_writes[w]; vf_check(x.gen == want[0] && x.len == len_[i] && x.head[0] == 'A' + i, "record_whole_in_the_live_file"); cur += len_[i]; want_size[0] += len_[i]; files(); vf_check(!(LIM > 0 && R > 0 && cur > LIM) || cur == len_[i] || (stuff && nrot == 0), "limit_kept"); vf_check(GetDeviceLog(vf_logger(), 0, 0, DEVICE_LOG_CUR_FILE_SIZE) == cur, "size_counter"); }
static void start(const char *roll) { static char t[400]; int n = 0; auto add = [&](const char *s) { while (*s) t[n++] = *s++; t[n] = 0; }; add("- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"a\"\n    rollback: "); char d[3] = {(char)('0' + R / 10), (char)('0' + R % 10), 0}; add(R > 9 ? d : d + 1); add("\n"); add(stuff ? "    stuff_up: true\n" : ""); add(roll); vf_start(t); if (LIM >= 0) SetDeviceConfig(vf_logger(), 0, 0, DEVICE_CFG_FILE_LIMIT_SIZE, LIM); }
static void lens(int n) { for (int i = 0; i < n; i++) len_[i] = vf_range("length", 2, 690); }
// any files may be there before; any limit
ENTRY h_rotate() { R = (int)vf_concretize((uint64_t)vf_range("rollback", 0, RMAX)); stuff = vf_concretize((uint64_t)vf_range("stuff_up", 0, 1)) != 0; int have = (int)vf_concretize((uint64_t)vf_range("present", 0, 15)); LIM = vf_range("limit", 0, 3000); lens(NREC); for (int i = 0; i < 4; i++) if (have >> i & 1) present(i, "size", 4000); start(""); for (int i = 0; i < NREC; i++) record(i); }
// long histories on an empty directory
ENTRY h_long() { R = (int)vf_concretize((uint64_t)vf_range("rollback", 1, RMAX)); LIM = vf_range("limit", 1, 2000); lens(LONG); start(""); for (int i = 0; i < LONG; i++) record(i); }
// the limit of the configuration counts in millions of bytes
ENTRY h_config() { R = 1; stuff = true; LIM = 2000000; lens(3); present(0, "size", 3000000); static char t[200] = "    limit_size: 2\n"; long l = LIM; LIM = -1; start(t); LIM = l; for (int i = 0; i < 3; i++) record(i); }
// a file that cannot be opened: nothing but that record is lost, and the next file begins when opening works again
ENTRY h_fault() { R = (int)vf_concretize((uint64_t)vf_range("rollback", 1, 2)); LIM = vf_range("limit", 1, 3000); lens(4); int at = (int)vf_concretize((uint64_t)vf_range("fails_from", 0, 2)); int have = (int)vf_concretize((uint64_t)vf_range("present", 0, 7)); for (int i = 0; i < 3; i++) if (have >> i & 1) present(i, "size", 4000); start(""); for (int i = 0; i < at; i++) record(i);
  env_fopen_fails = true; int w = env_nwrites; bool over = cur + len_[at] > LIM; if (over) { vf_cover("failed"); { LogStream s = vf_stream(); s << 'F'; s.log_data_->content_len_ = (int)len_[at] - 1; } cur = 0; open_ = false; rotate(R); vf_check(env_nwrites == w, "failed_record_not_written"); files(); { LogStream s = vf_stream(); s << 'F'; s.log_data_->content_len_ = (int)len_[at] - 1; } vf_check(env_nwrites == w, "failed_record_not_written"); files(); } env_fopen_fails = false; env_now += 5; record(3); }
// more than nine backups
ENTRY h_many() { R = (int)vf_concretize((uint64_t)vf_range("rollback", 8, 13)); stuff = vf_concretize((uint64_t)vf_range("stuff_up", 0, 1)) != 0; int have = (int)vf_concretize((uint64_t)vf_range("present", 7, 14)); vf_assume(have <= R + 1); LIM = vf_range("limit", 1, 1500); lens(2); for (int i = 0; i < have; i++) { int f = env_mkfile(NAME[i]); env_files[f].size = 10 + i; want[i] = env_files[f].gen; want_size[i] = 10 + i; } start(""); for (int i = 0; i < 2; i++) record(i); }
