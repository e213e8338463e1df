#include "common.h"
// C24: udp output and input devices, with failures of the network.
#ifndef S
#define S FN_LOG_MAX_LOG_SIZE
#endif
static const char *OUT = "- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    out_type: udp\n    udp_addr: 1.2.3.4:5\n  -device: 1\n    disable: false\n    out_type: file\n    file: \"b\"\n  -device: 2\n    disable: false\n    out_type: udp\n    udp_addr: 4.3.2.1:50\n";
static char src[S + 8]; static int slen, sends[2], files; static unsigned ip[2]; static unsigned short port[2];
static void on_send(unsigned i, unsigned short p, const char *t, long len) { int d = (int)vf_concretize((uint64_t)((i != ip[0]) | (p != port[0]))); if (d) vf_check((i == ip[1]) & (p == port[1]), "to_the_configured_address"); sends[d]++; long n = slen < S - 2 ? slen : S - 2; bool ok = len == n + 1; if (ok) { ok = t[n] == '\n'; for (long k = 0; k < n; k++) ok &= t[k] == src[k]; } vf_check(ok, "sent_text_equal"); }
static void on_write(const char *path, const char *, long) { if (path[0] == 'b') files++; }
static void start() { env_on_send = on_send; env_on_write = on_write; vf_start(OUT); Logger &l = vf_logger(); for (int d = 0; d < 2; d++) { SetDeviceConfig(l, 0, d * 2, DEVICE_CFG_UDP_IP, (long long)ip[d]); SetDeviceConfig(l, 0, d * 2, DEVICE_CFG_UDP_PORT, (long long)port[d]); } }
static void addr() { for (int d = 0; d < 2; d++) { ip[d] = (unsigned)vf_range("ip", 0, 4294967295ll); port[d] = (unsigned short)vf_range("port", 0, 65535); } vf_assume((ip[0] != ip[1]) | (port[0] != port[1])); }
static void log() { LogStream s = vf_stream(0); s.write_buffer(src, slen); }
ENTRY h_send() { slen = (int)vf_concretize((uint64_t)vf_range("len", 0, S)); vf_sym_bytes(src, S, "text"); ip[0] = 1; ip[1] = 2; port[0] = 3; port[1] = 4; start(); log(); vf_check(sends[0] == 1 && sends[1] == 1 && files == 1, "each_record_sent_once"); vf_cover(slen == 0 ? "empty" : "text"); }
ENTRY h_address() { addr(); slen = 3; vf_sym_bytes(src, 3, "text"); start(); int a = (int)vf_concretize((uint64_t)vf_range("able", 0, 3)); SetDeviceConfig(vf_logger(), 0, 0, DEVICE_CFG_ABLE, a & 1); SetDeviceConfig(vf_logger(), 0, 2, DEVICE_CFG_ABLE, a >> 1); for (int i = 1; i < 4; i++) { log(); vf_check(sends[0] == i * (a & 1) && sends[1] == i * (a >> 1) && files == i, "each_record_sent_once"); } vf_cover("sent"); }
#ifndef NREC
#define NREC 3
#endif
// the network fails for single records: the others are sent, the other devices are not disturbed
ENTRY h_faults() { slen = 2; vf_sym_bytes(src, 2, "text"); bool so[NREC], se[NREC]; int dt[NREC]; for (int i = 0; i < NREC; i++) { so[i] = vf_concretize((uint64_t)vf_range("socket_fails", 0, 1)) != 0; se[i] = vf_concretize((uint64_t)vf_range("send_fails", 0, 1)) != 0; dt[i] = (int)vf_range("seconds", 0, 4); } ip[0] = 1; ip[1] = 2; port[0] = port[1] = 9; start(); bool open = false; long last = -100; // when the last attempt to open was made, at most
  for (int i = 0; i < NREC; i++) { env_now += dt[i]; env_socket_fails = so[i]; env_send_fails = se[i]; int s = sends[0]; log(); vf_check(files == i + 1, "other_devices_not_disturbed"); int d = sends[0] - s; vf_check(d == 0 || d == 1, "each_record_sent_once"); if (se[i]) vf_check(d == 0, "each_record_sent_once");
    if (open) { if (!se[i]) vf_check(d == 1, "each_record_sent_once"); } else { bool due = i == 0 || env_now - last > 2; if (due) { if (!so[i] && !se[i]) vf_check(d == 1, "each_record_sent_once"); last = env_now; open = !so[i]; if (open) vf_cover("opened"); else vf_cover("failed"); } else if (d) open = true; } }
  vf_check(sends[0] == sends[1], "each_record_sent_once"); env_socket_fails = env_send_fails = false; env_now += 3; int s = sends[0]; log(); vf_check(sends[0] == s + 1 && files == NREC + 1, "works_again_after_a_failure"); }
ENTRY h_restart() { int gap = (int)vf_range("seconds", 0, 4), runs = (int)vf_concretize((uint64_t)vf_range("records", 0, 2)); slen = 2; ip[0] = 1; ip[1] = 2; port[0] = port[1] = 9; start(); for (int i = 0; i < runs; i++) log(); vf_check(sends[0] == runs, "each_record_sent_once"); vf_check(StopLogger(vf_logger()) == 0, "logger_stops"); for (int i = 0; i < 8; i++) vf_check(!env_socks[i].open, "sockets_closed_by_stop"); env_now += gap; vf_check(StartLogger(vf_logger()) == 0, "logger_starts"); log(); vf_check(sends[0] == runs + 1 && sends[1] == runs + 1 && files == runs + 1, "each_record_sent_once"); }
// receiving
static const char *OT[] = {"file\n    file: \"a\"\n", "screen\n", "empty\n"}; static char in_cfg[512]; static int ndg, dgi, got, printed; static int dl[8]; static char *dg[8]; static bool endless, fails;
static int recv_one(char *p, int n) { if (endless) { p[0] = 'x'; return 1; } if (fails || dgi >= ndg) return -1; int i = dgi++; int m = dl[i] < n ? dl[i] : n; for (int k = 0; k < m; k++) p[k] = dg[i][k]; vf_check(n <= S, "stays_within_the_record"); return m; }
static int next_rec() { int i = got; while (i < ndg && dl[i] == 0) i++; return i; }
static void in_write(const char *path, const char *p, long len) { if (path[0] == 'b') { files++; return; } int i = next_rec(); vf_check(i < ndg && i < dgi, "at_most_one_record_each"); if (i >= ndg) return; got = i + 1; bool ok = (len == dl[i]) | ((dl[i] >= S) & (len <= S)); long n = dl[i] < S ? dl[i] : S - 2; if (ok) for (long k = 0; k < n; k++) ok &= p[k] == dg[i][k]; vf_check(ok, "received_text_equal"); }
static void in_print(const char *, const char *t) { int i = next_rec(); vf_check(i < ndg && i < dgi, "at_most_one_record_each"); if (i >= ndg) return; got = i + 1; bool ok = true, nul = false; long n = dl[i] < S ? dl[i] : S - 2; for (long k = 0; k < n; k++) ok &= t[k] == dg[i][k]; vf_check(ok, "received_text_equal"); if (dl[i] < S) nul = t[n] == 0; else nul = t[S - 1] == 0; vf_check(nul, "received_text_is_terminated"); }
static void in_start(int ot) { char *p = in_cfg; auto add = [&](const char *s) { while (*s) *p++ = *s++; }; add("- channel: 0\n  sync: sync\n  -device: 0\n    disable: false\n    in_type: udp\n    udp_addr: 0.0.0.0:7\n    out_type: "); add(OT[ot]); add("  -device: 1\n    disable: false\n    out_type: file\n    file: \"b\"\n"); *p = 0; env_on_write = in_write; env_on_print = in_print; env_screen_capture = true; env_recv = recv_one; vf_start(in_cfg); }
static void tick() { LogStream s = vf_stream(0); s << 'x'; }
#ifndef LO
#define LO 0
#define HI S + 2
#endif
ENTRY h_receive() { int ot = (int)vf_concretize((uint64_t)vf_range("out", 0, 1)); ndg = 2; dl[0] = (int)vf_concretize((uint64_t)vf_range("len", LO, HI)); int k = (int)vf_concretize((uint64_t)vf_range("second", 0, 3)); dl[1] = k == 0 ? 1 : k == 1 ? 0 : k == 2 ? S - 1 : S; for (int i = 0; i < 2; i++) { dg[i] = vf_buf(S + 8); vf_sym_bytes(dg[i], S + 8, "datagram"); }
  if (ot == 1) for (int i = 0; i < 2; i++) for (int j = 0; j < S + 8; j++) if (j >= 1) dg[i][j] = (char)('a' + j % 23); in_start(ot); tick(); tick(); tick(); vf_check(files == 3, "other_devices_not_disturbed"); int want = (dl[0] > 0) + (dl[1] > 0); vf_check(got == (dl[1] > 0 ? 2 : dl[0] > 0 ? 1 : 0), "received_once"); (void)want; vf_check(GetDeviceLog(vf_logger(), 0, 0, DEVICE_LOG_TOTAL_WRITE_LINE) == want, "received_once"); if (want == 2) vf_cover("two"); else vf_cover("fewer"); }
// socket, bind and receive failures; switching the device off and on
ENTRY h_in_faults() { bool so[NREC], bi[NREC], re[NREC], on[NREC]; int dt[NREC]; for (int i = 0; i < NREC; i++) { int f = (int)vf_concretize((uint64_t)vf_range("failure", 0, 4)); so[i] = f == 1; bi[i] = f == 2; re[i] = f == 3; on[i] = f != 4; dt[i] = (int)vf_range("seconds", 0, 4); } in_start(0); bool open = false; long last = -100; ndg = 8; for (int i = 0; i < 8; i++) { dl[i] = 2; dg[i] = vf_buf(2); vf_sym_bytes(dg[i], 2, "datagram"); } ndg = 0;
  for (int i = 0; i < NREC; i++) { env_now += dt[i]; env_socket_fails = so[i]; env_bind_fails = bi[i]; fails = re[i]; SetDeviceConfig(vf_logger(), 0, 0, DEVICE_CFG_ABLE, on[i]); ndg = got + 1; int g = got; tick(); vf_check(files == i + 1, "other_devices_not_disturbed"); vf_check(got == g || got == g + 1, "at_most_one_record_each"); if (re[i] || !on[i]) vf_check(got == g, "at_most_one_record_each"); if (!on[i]) { vf_check(!env_socks[0].open && !env_socks[1].open, "socket_closed_when_disabled"); open = false; } else if (open) { if (!re[i]) vf_check(got == g + 1, "received_once"); } else { bool due = env_now - last > 2; if (due) { last = env_now; open = !so[i] && !bi[i]; if (open && !re[i]) vf_check(got == g + 1, "received_once"); if (open) { vf_cover("opened"); vf_check(env_bind_ip == (unsigned)GetDeviceConfig(vf_logger(), 0, 0, DEVICE_CFG_UDP_IP) && env_bind_port == (unsigned short)GetDeviceConfig(vf_logger(), 0, 0, DEVICE_CFG_UDP_PORT), "bound_to_the_configured_address"); } else vf_cover("failed"); } else if (got > g) open = true; } int ns = 0; for (int k = 0; k < 8; k++) ns += env_socks[k].open; vf_check(ns <= 1, "sockets_not_leaked"); }
  env_socket_fails = env_bind_fails = fails = false; SetDeviceConfig(vf_logger(), 0, 0, DEVICE_CFG_ABLE, 1); env_now += 3; ndg = got + 1; int g = got; tick(); vf_check(got == g + 1 && files == NREC + 1, "works_again_after_a_failure"); }
// a sender that never stops does not hold up the logger
ENTRY h_flood() { endless = true; in_start(2); tick(); tick(); vf_check(files == 2, "other_devices_not_disturbed"); vf_check(GetDeviceLog(vf_logger(), 0, 0, DEVICE_LOG_TOTAL_WRITE_LINE) >= 1, "received_once"); vf_cover("flood"); }
