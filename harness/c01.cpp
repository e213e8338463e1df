#include "common.h"
// C01 admission, C02 dispatch, C03 virtual device hook.
// Oracle: the documented meaning of the filter fields, written over mathematical intervals and bit sets.
struct F { long long able, prio, cat, cext, cmask, id, iext, imask; };
static F chf, df[3]; static int prio; static int cat; static long long ident;
static bool pass(const F &f, int p) {
  bool ok = p >= f.prio;
  ok &= f.cext <= 0 || (cat >= f.cat && (long long)cat - f.cat < f.cext);
  ok &= f.iext <= 0 || (ident >= f.id && ident - f.id < f.iext);
  ok &= f.cmask == 0 || ((f.cmask >> (cat & 63)) & 1);
  ok &= f.imask == 0 || ((f.imask >> (ident & 63)) & 1);
  return ok; }
static const long long LIM = 1LL << 40;
static void draw_log(bool masks) {
  prio = (int)vf_range("prio", -3, 9);
  if (masks) { cat = (int)vf_range("cat", 0, 63); ident = vf_range("id", 0, 63); }
  else { cat = (int)vf_sym("cat", 32); ident = vf_range("id", -LIM, LIM); } }
static F neutral() { F f; f.able = 1; f.prio = 0; f.cat = f.cext = f.cmask = f.id = f.iext = f.imask = 0; return f; }
enum { ABLE = 1, PRIO = 2, CAT = 4, CMASK = 8, ID = 16, IMASK = 32 };
static F draw(int what) { // callers pass names by occurrence
  F f = neutral();
  if (what & ABLE) f.able = vf_range("able", 0, 1);
  if (what & PRIO) f.prio = vf_range("f_prio", 0, 6);
  if (what & CAT) { f.cat = vf_range("f_cat", -LIM, LIM); f.cext = vf_range("f_cext", -LIM, LIM); }
  if (what & CMASK) f.cmask = (long long)vf_sym("f_cmask", 64);
  if (what & ID) { f.id = vf_range("f_id", -LIM, LIM); f.iext = vf_range("f_iext", -LIM, LIM); }
  if (what & IMASK) f.imask = (long long)vf_sym("f_imask", 64);
  return f; }
static void set_channel(const F &f) { Logger &l = vf_logger(); chf = f;
  SetChannelConfig(l, 0, CHANNEL_CFG_PRIORITY, f.prio); SetChannelConfig(l, 0, CHANNEL_CFG_CATEGORY, f.cat); SetChannelConfig(l, 0, CHANNEL_CFG_CATEGORY_EXTEND, f.cext); SetChannelConfig(l, 0, CHANNEL_CFG_CATEGORY_MASK, f.cmask);
  SetChannelConfig(l, 0, CHANNEL_CFG_IDENTIFY, f.id); SetChannelConfig(l, 0, CHANNEL_CFG_IDENTIFY_EXTEND, f.iext); SetChannelConfig(l, 0, CHANNEL_CFG_IDENTIFY_MASK, f.imask); }
static void set_device(int d, const F &f) { Logger &l = vf_logger(); df[d] = f;
  SetDeviceConfig(l, 0, d, DEVICE_CFG_ABLE, f.able); SetDeviceConfig(l, 0, d, DEVICE_CFG_PRIORITY, f.prio); SetDeviceConfig(l, 0, d, DEVICE_CFG_CATEGORY, f.cat); SetDeviceConfig(l, 0, d, DEVICE_CFG_CATEGORY_EXTEND, f.cext); SetDeviceConfig(l, 0, d, DEVICE_CFG_CATEGORY_MASK, f.cmask);
  SetDeviceConfig(l, 0, d, DEVICE_CFG_IDENTIFY, f.id); SetDeviceConfig(l, 0, d, DEVICE_CFG_IDENTIFY_EXTEND, f.iext); SetDeviceConfig(l, 0, d, DEVICE_CFG_IDENTIFY_MASK, f.imask); }
static int got[4], hooked; static bool in_log_call;
static void on_write(const char *path, const char *p, long len) { vf_check(path[0] == 'd' && path[1] >= '0' && path[1] <= '3', "dispatch_known_device"); got[path[1] - '0']++; vf_check(len == 4 && p[0] == 'm' && p[1] == 's' && p[2] == 'g' && p[3] == '\n', "dispatch_content"); vf_check(in_log_call, "sync_delivery_before_return"); }
static void hook(const LogData &l) { hooked++; vf_check(l.channel_id_ == 0 && l.category_ == cat && l.identify_ == ident, "hook_sees_record"); vf_check(l.content_len_ == 3 && l.content_[0] == 'm' && l.content_[1] == 's' && l.content_[2] == 'g' && l.content_[3] == 0, "hook_content"); vf_check(in_log_call, "hook_in_calling_thread"); }
static void log_it() { in_log_call = true; { LogStream s = vf_stream(0, prio, cat, ident); s << "msg"; } in_log_call = false; }
static bool admitted_;
static void log_and_check(int ndev, bool admission_only) {
  bool dev[3], any = false; for (int i = 0; i < ndev; i++) { dev[i] = df[i].able && pass(df[i], prio); any |= dev[i]; }
  bool adm = pass(chf, prio) & any; in_log_call = true; { LogStream s = vf_stream(0, prio, cat, ident); admitted_ = s.log_data_ != nullptr; if (adm) vf_cover("admitted"); else vf_cover("refused"); vf_check(admitted_ == adm, "admitted_iff_filters_accept"); s << "msg"; } in_log_call = false;
  for (int i = 0; i < ndev; i++) { int want = adm & dev[i] ? 1 : 0; if (!admission_only) vf_check(got[i] == want, "written_to_exactly_the_matching_devices"); vf_observe("got", got[i]); } vf_check(env_nwrites == got[0] + got[1] + got[2], "no_other_output"); }
static const char *TWO = "- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"d0\"\n  -device: 1\n    disable: false\n    out_type: file\n    file: \"d1\"\n";
static const char *THREE = "- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"d0\"\n  -device: 1\n    disable: false\n    out_type: file\n    file: \"d1\"\n  -device: 2\n    disable: false\n    out_type: file\n    file: \"d2\"\n";
static const char *VIRT = "- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: file\n    file: \"d0\"\n  -device: 1\n    disable: false\n    out_type: virtual\n";
static void begin(const char *y) { env_on_write = on_write; vf_start(y); }
#ifndef CH
#define CH 0
#endif
#ifndef D0
#define D0 0
#endif
#ifndef D1
#define D1 0
#endif
#ifndef D2
#define D2 0
#endif
#define HASMASK(x) (((x) & (CMASK | IMASK)) != 0)
ENTRY h_filter2() { F c = draw(CH), a = draw(D0), b = draw(D1); draw_log(HASMASK(CH) || HASMASK(D0) || HASMASK(D1)); begin(TWO); set_channel(c); set_device(0, a); set_device(1, b); log_and_check(2, false); }
ENTRY h_filter3() { F c = draw(CH), a = draw(D0), b = draw(D1), d = draw(D2); draw_log(HASMASK(CH | D0 | D1 | D2)); begin(THREE); set_channel(c); set_device(0, a); set_device(1, b); set_device(2, d); log_and_check(3, false); }
// admission through BlockInput (used by the format macros) agrees with admission of a stream; unknown channels and a logger that is not running accept nothing
ENTRY h_refuse() { draw_log(false); int ch = (int)vf_sym("channel", 32); int when = (int)vf_range("when", 0, 2);
  Logger &l = vf_logger(); env_on_write = on_write;
  if (when > 0) { vf_start(TWO); set_channel(neutral()); set_device(0, neutral()); set_device(1, neutral()); } if (when == 2) StopLogger(l);
  bool adm; { LogStream s = vf_stream(ch, prio, cat, ident); adm = s.log_data_ != nullptr; in_log_call = true; s << "msg"; } bool blk = BlockInput(l, ch, prio, cat, ident);
  vf_check(adm == (when == 1 && ch == 0 && prio >= 0), "admitted_only_while_running_on_an_existing_channel"); vf_check(adm == !blk, "block_test_agrees"); vf_check(env_nwrites == (adm ? 2 : 0), "refused_record_writes_nothing"); if (adm) vf_cover("admitted"); }
// a device that only reads (udp input) never receives dispatched records and does not make a record admissible
ENTRY h_input_device() { F a = draw(ABLE | PRIO); draw_log(false); begin(TWO); set_channel(neutral()); set_device(0, a); set_device(1, neutral());
  vf_logger().shm_->channels_[0].devices_[1].in_type_ = DEVICE_IN_UDP; env_socket_fails = true; bool d0 = a.able && prio >= a.prio && prio >= 0; in_log_call = true; bool adm; { LogStream s = vf_stream(0, prio, cat, ident); adm = s.log_data_ != nullptr; s << "msg"; }
  vf_check(adm == d0, "input_device_does_not_admit"); vf_check(got[1] == 0 && got[0] == (d0 ? 1 : 0), "input_device_gets_no_record"); }
ENTRY h_virtual() { F v = draw(D1); draw_log(HASMASK(D1)); begin(VIRT); SetVirtualDevice(hook); set_channel(neutral()); set_device(0, neutral()); set_device(1, v); log_it();
  bool adm = prio >= 0; vf_check(hooked == (adm && v.able && pass(v, prio) ? 1 : 0), "hook_called_iff_virtual_device_accepts"); vf_check(got[0] == (adm ? 1 : 0), "hook_does_not_disturb_the_record"); if (hooked) vf_cover("hooked"); }
ENTRY h_virtual_only() { F v = draw(D1), a = draw(ABLE | PRIO); draw_log(HASMASK(D1)); begin(VIRT); SetVirtualDevice(hook); set_channel(neutral()); set_device(0, a); set_device(1, v); log_it();
  bool dv = v.able && pass(v, prio), d0 = a.able && prio >= a.prio; vf_check(hooked == (prio >= 0 && dv ? 1 : 0), "hook_called_iff_virtual_device_accepts"); vf_check(got[0] == (prio >= 0 && d0 ? 1 : 0), "hook_does_not_disturb_the_record"); if (hooked && !d0) vf_cover("hook_without_other_device"); }
ENTRY h_no_virtual() { draw_log(false); int unset = (int)vf_range("unset", 0, 1); begin(unset ? VIRT : TWO); if (!unset) SetVirtualDevice(hook); set_channel(neutral()); set_device(0, neutral()); set_device(1, neutral()); log_it(); vf_check(hooked == 0, "no_hook_without_virtual_device"); vf_check(got[0] == (prio >= 0 ? 1 : 0), "no_hook_record_written"); }
