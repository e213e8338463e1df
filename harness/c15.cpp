#ifndef FN_LOG_MAX_DEVICE_SIZE
#define FN_LOG_MAX_DEVICE_SIZE 2
#endif
#include "common.h"
// C15: parsing of arbitrary text.  K arbitrary bytes, alone or in the middle of a configuration that reaches each part of the parser.
#ifndef K
#define K 4
#endif
#ifndef PRE
#define PRE "\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n"
#endif
#ifndef POST
#define POST ""
#endif
static char *txt; static long txt_n;
static void make() { long a = (long)strlen(PRE), b = (long)strlen(POST); txt = vf_buf((size_t)(a + K + b + 1)); memcpy(txt, PRE, (size_t)a); vf_sym_bytes(txt + a, K, "t"); memcpy(txt + a + K, POST, (size_t)b + 1); txt_n = a + K + b;
#ifdef NAME_BYTES
  for (int i = 0; i < K; i++) { char c = txt[a + i]; vf_assume(((c >= 'a') & (c <= 'z')) | (c == '_') | ((c >= '0') & (c <= '1'))); }
#endif
#ifdef DIGIT_BYTES
  for (int i = 0; i < K; i++) { char c = txt[a + i]; vf_assume(((c >= '0') & (c <= '9')) | (c == '-') | (c == ',') | (c == '.') | (c == ' ') | (c == ':') | (c == 'x')); }
#endif
#ifdef VAR_BYTES
  for (int i = 0; i < K; i++) { char c = txt[a + i]; vf_assume((c == '$') | (c == '{') | (c == '}') | (c == '=') | (c == ',') | (c == ' ') | (c == 'a') | (c == 'b')); }
#endif
}
static bool has_nul(const char *p, size_t n) { for (size_t i = 0; i < n; i++) if (!p[i]) return true; return false; }
static void check_result(LexState &ls, const std::string &t, int ret) {
  vf_check(ls.current_ >= t.data() && ls.current_ <= t.data() + t.size(), "position_stays_in_the_text");
  vf_check(ret == PEC_NONE || (ret > 0 && ret <= PEC_UNDEFINED_GLOBAL_KEY), "known_result");
  vf_check(ls.channel_size_ >= 0 && ls.channel_size_ <= Logger::MAX_CHANNEL_SIZE, "channel_count_in_range");
  vf_check(ls.name_len_ >= 0 && ls.name_len_ < Logger::MAX_LOGGER_NAME_LEN && ls.desc_len_ >= 0 && ls.desc_len_ < Logger::MAX_LOGGER_DESC_LEN, "name_lengths_in_range");
  if (ret != PEC_NONE) { vf_cover("error"); return; }
  vf_cover("accepted"); vf_check((ls.name_len_ == 0 || has_nul(ls.name_, sizeof ls.name_)) && (ls.desc_len_ == 0 || has_nul(ls.desc_, sizeof ls.desc_)), "names_terminated");
  int cs = (int)vf_concretize((uint64_t)ls.channel_size_);
  for (int i = 0; i < cs; i++) { Channel &c = ls.channels_[i]; vf_check(c.channel_id_ == i, "channel_ids_consecutive"); vf_check(c.channel_type_ == CHANNEL_ASYNC || c.channel_type_ == CHANNEL_SYNC, "channel_type_valid"); vf_check(c.device_size_ >= 0 && c.device_size_ <= Channel::MAX_DEVICE_SIZE, "device_count_in_range");
    vf_check(c.virtual_device_id_ >= -1 && c.virtual_device_id_ < c.device_size_, "virtual_device_in_range"); int ds = (int)vf_concretize((uint64_t)c.device_size_);
    for (int j = 0; j < ds; j++) { Device &d = c.devices_[j]; vf_check(d.device_id_ == j, "device_ids_consecutive"); vf_check((d.out_type_ == DEVICE_OUT_NULL) | (d.out_type_ == DEVICE_OUT_SCREEN) | (d.out_type_ == DEVICE_OUT_FILE) | (d.out_type_ == DEVICE_OUT_UDP) | (d.out_type_ == DEVICE_OUT_VIRTUAL) | (d.out_type_ == DEVICE_OUT_EMPTY), "device_type_valid"); vf_check(has_nul(d.out_file_, sizeof d.out_file_) && has_nul(d.out_path_, sizeof d.out_path_), "path_terminated"); } } }
ENTRY h_parse() { make(); LexState *ls = (LexState *)malloc(sizeof(LexState)); std::string t(txt, (size_t)txt_n); vf_step_limit(400000, "parsing_ends"); int ret = ParseLogger(*ls, t); check_result(*ls, t, ret); vf_observe("ret", (uint64_t)ret); }
// the same through a file, up to the error message
ENTRY h_file() { make(); env_text_file("cfg", txt, txt_n, 5); vf_step_limit(600000, "parsing_ends"); Logger &l = vf_logger(); int ret = InitFromYMALFile(l, "cfg"); vf_check(ret >= 0, "known_result"); if (ret == 0) { vf_cover("accepted"); vf_check(l.shm_ && l.shm_->channel_size_ >= 1 && l.shm_->channel_size_ <= Logger::MAX_CHANNEL_SIZE, "accepted_text_has_a_channel"); vf_check(l.name_len_ >= 0 && l.name_len_ < Logger::MAX_LOGGER_NAME_LEN, "name_lengths_in_range"); bool no_s = true; for (long i = txt_n - K; i < txt_n; i++) no_s &= txt[i] != 's'; if (no_s) vf_check(l.shm_key_ == 0, "no_shared_memory_key_unless_configured"); } else vf_cover("error"); vf_check(env_nopen == env_nclose, "file_closed"); vf_observe("ret", (uint64_t)ret); }
// values of every length around the limits, in each option that keeps text or copies digits
ENTRY h_long() { static const int LEN[] = {0, 1, 2, 38, 39, 40, 41, 47, 48, 49, 50, 51, 60, 197, 198, 199, 200, 201, 248, 249, 250, 251, 300};
  static const char *KEY[] = {"- logger_name: ", "- logger_desc: ", "- shm_key: ", "- channel: 0\n  -device: 0\n    path: ", "- channel: 0\n  -device: 0\n    file: ", "- channel: 0\n  -device: 0\n    udp_addr: 1.2.3.4 ", "- channel: 0\n  -device: 0\n    udp_addr: ", "- channel: 0\n  category: ", "- channel: 0\n  priority: ", "- channel: ", "- channel: 0\n  category_wlist: "};
  int n = LEN[vf_concretize((uint64_t)vf_range("length", 0, 22))], k = (int)vf_concretize((uint64_t)vf_range("key", 0, 10)), e = (int)vf_concretize((uint64_t)vf_range("end", 0, 1)); static const char CS[] = {'7', 'z', '1', ' '}; char c = CS[vf_concretize((uint64_t)vf_range("char", 0, 3))]; size_t a = strlen(KEY[k]); char *b = vf_buf(a + (size_t)n + 40); memcpy(b, KEY[k], a); for (int i = 0; i < n; i++) b[a + (size_t)i] = c; size_t m = a + (size_t)n; if (e) { const char *tail = k < 3 ? "\n- channel: 0\n" : "\n"; memcpy(b + m, tail, strlen(tail)); m += strlen(tail); }
  LexState *ls = (LexState *)malloc(sizeof(LexState)); std::string t(b, m); vf_step_limit(400000, "parsing_ends"); int ret = ParseLogger(*ls, t); check_result(*ls, t, ret); vf_observe("ret", (uint64_t)ret); if (n > 199) vf_cover("long"); }
// a file longer than the read buffer
ENTRY h_bigfile() { int n = BUFSIZ * (int)vf_concretize((uint64_t)vf_range("blocks", 1, 2)) + (int)vf_concretize((uint64_t)vf_range("around", -2, 2)); char *b = vf_buf((size_t)n); for (int i = 0; i < n; i++) b[i] = '\n'; char last = (char)vf_sym("last", 8); memcpy(b + n - 12, "- channel: 0", 12); (void)last; char p = (char)vf_sym("first", 8); b[0] = p; env_text_file("cfg", b, n, 5);
  Logger &l = vf_logger(); int ret = InitFromYMALFile(l, "cfg"); bool ok = (p == ' ') | (p == '\n') | (p == '\r') | (p == '#') | (p == '\t') | (p == '\v') | (p == '\f') | (p == '-'); if (ok && p != '-') { vf_check(ret == 0 && l.shm_ && l.shm_->channel_size_ == 1, "whole_file_is_read"); vf_cover("accepted"); } vf_check(env_nopen == env_nclose, "file_closed"); }
