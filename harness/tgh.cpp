// Test driver: runs jobs described in a text file against the code in /repo.
//   tgh JOBS RESULTS
// A job is a block of "key value" lines ended by an empty line.  Every job runs in child
// processes; two-party jobs run both parties as separate processes joined by a relay in this
// process that can record, re-segment, delay, corrupt and cut the byte streams.
// No oracle lives here: results and recordings are judged by the Python monitors.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <thread>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <openssl/bn.h>
#include <openssl/rand.h>

#include "crypto/BN.h"
#include "crypto/OT.h"
#include "crypto/OT_extension.h"
#include "crypto/aes.h"
#include "crypto/block.h"
#include "garbled_circuit/garbled_circuit.h"
#include "garbled_circuit/garbled_circuit_util.h"
#include "garbled_circuit/garbled_circuit_high_mem.h"
#include "garbled_circuit/garbled_circuit_low_mem.h"
#include "scd/scd.h"
#include "scd/scd_evaluator.h"
#include "scd/v_2_scd.h"
#include "tcpip/tcpip.h"
#include "util/common.h"
#include "util/log.h"
#include "util/util.h"

using std::map;
using std::string;
using std::vector;

typedef map<string, string> Job;

static string S(const Job& j, const string& k, const string& d = "") {
  Job::const_iterator it = j.find(k);
  return it == j.end() ? d : it->second;
}
static long long N(const Job& j, const string& k, long long d = 0) {
  Job::const_iterator it = j.find(k);
  return it == j.end() ? d : strtoll(it->second.c_str(), nullptr, 0);
}
static string Hex(const void* p, size_t n) {
  static const char* H = "0123456789abcdef";
  string r;
  const unsigned char* c = (const unsigned char*) p;
  for (size_t i = 0; i < n; i++) {
    r += H[c[i] >> 4];
    r += H[c[i] & 15];
  }
  return r;
}
static string Hex(const string& s) {
  return Hex(s.data(), s.size());
}
static string UnHex(const string& h) {
  string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    r += (char) strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
// strings with arbitrary content are passed as hex with prefix "x:"
static string SX(const Job& j, const string& k, const string& d = "") {
  string v = S(j, k, d);
  if (v.compare(0, 2, "x:") == 0)
    return UnHex(v.substr(2));
  return v;
}
static vector<string> Split(const string& s, char c) {
  vector<string> r;
  std::stringstream ss(s);
  string t;
  while (std::getline(ss, t, c))
    r.push_back(t);
  return r;
}
static block HexBlock(const string& h) {  // bytes in memory order
  string b = UnHex(h);
  b.resize(16, '\0');
  block v;
  memcpy(&v, b.data(), 16);
  return v;
}
static BIGNUM* HexBN(const string& h) {
  BIGNUM* b = BN_new();
  if (!h.empty())
    BN_hex2bn(&b, h.c_str());
  return b;
}
static string BNHex(const BIGNUM* b) {
  char* c = BN_bn2hex(b);
  string s(c);
  OPENSSL_free(c);
  return s;
}
static double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
struct Rng {  // xorshift64*
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) {
    if (!s) s = 1;
  }
  uint64_t next() {
    s ^= s >> 12;
    s ^= s << 25;
    s ^= s >> 27;
    return s * 2685821657736338717ull;
  }
  uint64_t below(uint64_t n) {
    return n ? next() % n : 0;
  }
};

// ---------------------------------------------------------------- observation points
// A frozen process sees the same clock, process id and CPU time in every run (set in children only).
static bool g_frozen = false;
extern "C" {
time_t time(time_t* t) __THROW {
  struct timespec ts;
  ts.tv_sec = 1700000000;
  if (!g_frozen) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int clock_gettime(clockid_t c, struct timespec* ts) __THROW {
  if (!g_frozen) return (int) syscall(SYS_clock_gettime, c, ts);
  ts->tv_sec = 1700000000;
  ts->tv_nsec = 123456789;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) __THROW {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
clock_t clock(void) __THROW {
  struct timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
pid_t getpid(void) __THROW {
  return g_frozen ? 4242 : (pid_t) syscall(SYS_getpid);
}
}

// The garbler's offset and fixed key as they enter the protocol (linked with --wrap; where the
// function has another signature the hook is silently unused and the monitor says so).
static string g_secrets;
static bool g_metered = false;   // the meter is on: nothing is recorded
#define HM_SIG(n) int n(const GarbledCircuit& gc, BIGNUM* a, BIGNUM* b, BIGNUM* c, BIGNUM* d, \
    uint64_t* cc, const string& mask, int64_t period, OutputMode mode, BIGNUM* o, block R, block key, \
    bool dot, int fd)
#define HM_NAME "_Z15GarbleBNHighMemRK14GarbledCircuitP9bignum_stS3_S3_S3_PmRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEl10OutputModeS3_Dv2_xSE_bi"
#define LM_NAME "_Z14GarbleBNLowMemRK14GarbledCircuitP9bignum_stS3_S3_S3_PmRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEl10OutputModeS3_Dv2_xSE_bi"
HM_SIG(RealHM) __asm__("__real_" HM_NAME) __attribute__((weak));
HM_SIG(RealLM) __asm__("__real_" LM_NAME) __attribute__((weak));
HM_SIG(WrapHM) __asm__("__wrap_" HM_NAME);
HM_SIG(WrapLM) __asm__("__wrap_" LM_NAME);
HM_SIG(WrapHM) {
  if (!g_metered) g_secrets += (g_secrets.empty() ? "" : ",") + Hex(&R, 16) + ":" + Hex(&key, 16);
  return RealHM(gc, a, b, c, d, cc, mask, period, mode, o, R, key, dot, fd);
}
HM_SIG(WrapLM) {
  if (!g_metered) g_secrets += (g_secrets.empty() ? "" : ",") + Hex(&R, 16) + ":" + Hex(&key, 16);
  return RealLM(gc, a, b, c, d, cc, mask, period, mode, o, R, key, dot, fd);
}

// The choices and messages the OT extension feeds into its base transfer (same kind of hook).
static string g_otsel, g_otmsg;
#define OR_NAME "_Z8OTRecvBNPK9bignum_stjiPPS_"
#define OS_NAME "_Z8OTSendBNPKPKPK9bignum_stji"
#define OR_SIG(n) int n(const BIGNUM* sel, uint32_t len, int fd, BIGNUM** m)
#define OS_SIG(n) int n(const BIGNUM* const * const * m, uint32_t len, int fd)
OR_SIG(RealOR) __asm__("__real_" OR_NAME) __attribute__((weak));
OS_SIG(RealOS) __asm__("__real_" OS_NAME) __attribute__((weak));
OR_SIG(WrapOR) __asm__("__wrap_" OR_NAME);
OS_SIG(WrapOS) __asm__("__wrap_" OS_NAME);
OR_SIG(WrapOR) {
  if (!g_metered) g_otsel += (g_otsel.empty() ? "" : ",") + std::to_string(len) + ":" + BNHex(sel);
  return RealOR(sel, len, fd, m);
}
OS_SIG(WrapOS) {
  if (len <= 4096 && !g_metered)
    for (uint32_t i = 0; i < len; i++)
      g_otmsg += (g_otmsg.empty() ? "" : ",") + BNHex(m[i][0]) + "," + BNHex(m[i][1]);
  return RealOS(m, len, fd);
}

// Short and interrupted transfers: with g_shortio set every send/recv/read/write of the code under
// test on a socket may move fewer bytes than asked or be interrupted, as the system may do.
static long g_shortio = 0;
static Rng g_iorng(1);
static unsigned long long g_io_calls = 0, g_io_short = 0, g_io_intr = 0;
extern "C" {
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
static bool IoFault(size_t* n) {
  g_io_calls++;
  if (!g_shortio || *n == 0) return false;
  uint64_t d = g_iorng.below(8);
  if (d == 0) {
    g_io_intr++;
    errno = EINTR;
    return true;
  }
  size_t m = d < 3 ? 1 + g_iorng.below(3) : d < 7 ? 1 + g_iorng.below(g_shortio) : *n;
  if (m < *n) {
    *n = m;
    g_io_short++;
  }
  return false;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
  return IoFault(&n) ? -1 : __real_send(fd, b, n, f);
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
  if (f & MSG_WAITALL) return __real_recv(fd, b, n, f);
  return IoFault(&n) ? -1 : __real_recv(fd, b, n, f);
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  return IoFault(&n) ? -1 : __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  return IoFault(&n) ? -1 : __real_write(fd, b, n);
}
}

// ---------------------------------------------------------------- two-party roles
static void NoSignal(int) {
}

// ---------------------------------------------------------------- memory meter
#ifdef __SANITIZE_ADDRESS__
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);

static long g_live = 0, g_peak = 0;
static void MemOnMalloc(const volatile void*, size_t n) {
  long v = __atomic_add_fetch(&g_live, (long) n, __ATOMIC_RELAXED);
  if (v > g_peak) g_peak = v;
}
static void MemOnFree(const volatile void* p) {
  if (p) __atomic_sub_fetch(&g_live, (long) __sanitizer_get_allocated_size((const void*) p), __ATOMIC_RELAXED);
}
static bool MemStart() { return __sanitizer_install_malloc_and_free_hooks(MemOnMalloc, MemOnFree) != 0; }
static long MemLive() { return g_live; }
static long MemPeak() { return g_peak; }
static void MemMark() { g_peak = g_live; }
#else
static bool MemStart() { return false; }
static long MemLive() { return 0; }
static long MemPeak() { return 0; }
static void MemMark() {}
#endif
static int OpenFds() {
  int n = 0;
  for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1;
  return n;
}

static void PartyGC(const Job& j, bool alice, int fd, FILE* out) {
  string o;
  OutputMode mode = (OutputMode) N(j, alice ? "mode" : "mode_b", N(j, "mode"));
  string scd = S(j, alice ? "scd" : "scd_b", S(j, "scd"));
  string mask = SX(j, alice ? "mask" : "mask_b", SX(j, "mask", "0"));
  string p_init = SX(j, alice ? "p_init" : "p_init_b", SX(j, "p_init", "0"));
  string p_input = SX(j, alice ? "p_input" : "p_input_b", SX(j, "p_input", "0"));
  uint64_t cc = N(j, alice ? "cc" : "cc_b", N(j, "cc", 1));
  int64_t period = N(j, alice ? "period" : "period_b", N(j, "period"));
  bool dot = N(j, alice ? "disable_ot" : "disable_ot_b", N(j, "disable_ot"));
  bool low = N(j, alice ? "low_mem" : "low_mem_b", N(j, "low_mem"));
  if (N(j, "srand", 0))
    SrandSSE((unsigned) N(j, "srand") + (alice ? 0 : N(j, "srand_b_off", 0)));
  else
    SrandSSE((unsigned) (N(j, "seed") * 2 + alice));
  int repeat = (int) N(j, "repeat", 1);
  bool mem = g_metered = N(j, "mem") && MemStart();
  for (int i = 0; i < repeat; i++) {
    int r;
    o = "(unset)";
    long live = MemLive();
    int fds = mem ? OpenFds() : 0;
    MemMark();
    if (alice)
      r = GarbleStr(scd, p_init, p_input, SX(j, "g_init", "0"), SX(j, "g_input", "0"), cc, mask,
                    period, mode, dot, low, &o, fd);
    else
      r = EvaluateStr(scd, p_init, p_input, SX(j, "e_init", "0"), SX(j, "e_input", "0"), cc, mask,
                      period, mode, dot, low, &o, fd);
    if (mem) {
      long peak = MemPeak() - live;
      string().swap(o);
      fprintf(out, "mem %ld %ld %d\n", MemLive() - live, peak, OpenFds() - fds);
      if (r != SUCCESS) {
        fprintf(out, "ret %d\n", r);
        break;
      }
      if (i == repeat - 1) fprintf(out, "ret 0\n");
      continue;
    }
    fprintf(out, "ret%s %d\nout%s %s\n", i ? std::to_string(i).c_str() : "", r,
            i ? std::to_string(i).c_str() : "", Hex(o).c_str());
    if (r != SUCCESS)
      break;
  }
}

// Same protocol below the string interface, with the garbler's offset and key chosen by the job.
static void PartyGCBN(const Job& j, bool alice, int fd, FILE* out) {
  GarbledCircuit gc;
  if (ReadSCD(S(j, "scd"), &gc) == FAILURE) {
    fprintf(out, "ret -1\n");
    return;
  }
  FillFanout(&gc);
  SrandSSE((unsigned) (N(j, "seed") * 2 + alice));
  BIGNUM* p_init = HexBN(S(j, "p_init", "0"));
  BIGNUM* p_input = HexBN(S(j, "p_input", "0"));
  BIGNUM* init = HexBN(S(j, alice ? "g_init" : "e_init", "0"));
  BIGNUM* input = HexBN(S(j, alice ? "g_input" : "e_input", "0"));
  BIGNUM* o = BN_new();
  uint64_t cc = N(j, "cc", 1);
  block R = HexBlock(S(j, "R"));
  *((unsigned char*) &R) |= 1;
  block key = HexBlock(S(j, "key"));
  OutputMode mode = (OutputMode) N(j, "mode");
  bool dot = N(j, "disable_ot");
  int r;
  if (N(j, "low_mem")) {
    r = alice ? GarbleBNLowMem(gc, p_init, p_input, init, input, &cc, S(j, "mask", "0"),
                               N(j, "period"), mode, o, R, key, dot, fd)
              : EvaluateBNLowMem(gc, p_init, p_input, init, input, &cc, S(j, "mask", "0"),
                                 N(j, "period"), mode, o, key, dot, fd);
  } else {
    r = alice ? GarbleBNHighMem(gc, p_init, p_input, init, input, &cc, S(j, "mask", "0"),
                                N(j, "period"), mode, o, R, key, dot, fd)
              : EvaluateBNHighMem(gc, p_init, p_input, init, input, &cc, S(j, "mask", "0"),
                                  N(j, "period"), mode, o, key, dot, fd);
  }
  fprintf(out, "ret %d\ncc %llu\nbn %s\n", r, (unsigned long long) cc, BNHex(o).c_str());
}

// m: pairs "hex:hex,hex:hex"; sel: string of 0/1
static void PartyOT(const Job& j, bool alice, int fd, FILE* out, bool ext) {
  SrandSSE((unsigned) (N(j, "seed") * 2 + alice));
  if (alice) {
    vector<string> m = Split(S(j, "m"), ',');
    uint32_t n = m.size();
    block** msg = new block*[n];
    for (uint32_t i = 0; i < n; i++) {
      vector<string> p = Split(m[i], ':');
      msg[i] = new block[2];
      msg[i][0] = HexBlock(p[0]);
      msg[i][1] = HexBlock(p[1]);
    }
    int r = ext ? OTExtSend(msg, n, fd) : OTSend(msg, n, fd);
    fprintf(out, "ret %d\n", r);
  } else {
    string s = S(j, "sel");
    uint32_t n = s.size();
    bool* sel = new bool[n + 1];
    for (uint32_t i = 0; i < n; i++)
      sel[i] = s[i] == '1';
    block* m = new block[n + 1];
    for (uint32_t i = 0; i <= n; i++)
      memset(&m[i], 0xA5, sizeof(block));
    int r = ext ? OTExtRecv(sel, n, fd, m) : OTRecv(sel, n, fd, m);
    fprintf(out, "ret %d\nmsgs %s\n", r, Hex(m, n * sizeof(block)).c_str());
  }
}

static void PartyOTBN(const Job& j, bool alice, int fd, FILE* out, bool ext) {
  uint32_t bits = N(j, "bits", 128);
  if (alice) {
    vector<string> m = Split(S(j, "m"), ',');
    uint32_t n = m.size();
    BIGNUM*** msg = new BIGNUM**[n];
    for (uint32_t i = 0; i < n; i++) {
      vector<string> p = Split(m[i], ':');
      msg[i] = new BIGNUM*[2];
      msg[i][0] = HexBN(p[0]);
      msg[i][1] = HexBN(p[1]);
    }
    int r = ext ? OTExtSendBN(msg, bits, n, fd) : OTSendBN(msg, n, fd);
    fprintf(out, "ret %d\n", r);
  } else {
    string s = S(j, "sel");
    uint32_t n = s.size();
    BIGNUM* sel = BN_new();
    for (uint32_t i = 0; i < n; i++)
      if (s[i] == '1')
        BN_set_bit(sel, i);
    BIGNUM** m = new BIGNUM*[n + 1];
    for (uint32_t i = 0; i < n; i++)
      m[i] = BN_new();
    int r = ext ? OTExtRecvBN(sel, bits, n, fd, m) : OTRecvBN(sel, n, fd, m);
    fprintf(out, "ret %d\nmsgs ", r);
    if (r == SUCCESS)
      for (uint32_t i = 0; i < n; i++)
        fprintf(out, "%s%s", i ? "," : "", BNHex(m[i]).c_str());
    fprintf(out, "\n");
  }
}

static void PartyBN(const Job& j, bool alice, int fd, FILE* out) {
  vector<string> v = Split(S(j, "vals"), ',');
  int rr = 0;
  if (alice) {
    for (size_t i = 0; i < v.size(); i++) {
      BIGNUM* b = HexBN(v[i]);
      rr |= SendBN(fd, b);
      BN_free(b);
    }
    fprintf(out, "ret %d\n", rr);
  } else {
    string got;
    BIGNUM* b = HexBN(S(j, "pre", "1234567890abcdef1234567890abcdef12"));
    size_t n = N(j, "count", v.size());
    for (size_t i = 0; i < n; i++) {
      int r = RecvBN(fd, b);
      rr |= r;
      if (r != SUCCESS)
        break;
      got += (i ? "," : "") + BNHex(b);
    }
    fprintf(out, "ret %d\nvals %s\n", rr, got.c_str());
  }
}

// Bytes of stream k at position p are a fixed pseudo-random function.
static unsigned char StreamByte(uint64_t k, uint64_t p) {
  uint64_t x = (p + 1) * 0x9E3779B97F4A7C15ull ^ k * 0xBF58476D1CE4E5B9ull;
  x ^= x >> 29;
  x *= 0x94D049BB133111EBull;
  x ^= x >> 32;
  return (unsigned char) x;
}
// plan: "s<len>" / "r<len>" comma separated, executed in order
static void PartyTCP(const Job& j, bool alice, int fd, FILE* out) {
  vector<string> plan = Split(S(j, alice ? "plan_a" : "plan_b"), ',');
  if (N(j, "itimer_us")) {  // interrupting signals whose handler is installed with SA_RESTART
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = NoSignal;
    sa.sa_flags = N(j, "sa_restart", 1) ? SA_RESTART : 0;
    sigaction(SIGALRM, &sa, nullptr);
    struct itimerval it;
    it.it_interval.tv_sec = 0;
    it.it_interval.tv_usec = N(j, "itimer_us");
    it.it_value = it.it_interval;
    setitimer(ITIMER_REAL, &it, nullptr);
  }
  uint64_t sp = 0, rp = 0, bad = 0, guard = 0;
  int rr = 0, done = 0;
  for (size_t i = 0; i < plan.size(); i++) {
    int len = atoi(plan[i].c_str() + 1);
    vector<unsigned char> buf(len + 32, 0xEE);
    unsigned char* b = &buf[16];
    int r;
    char op = plan[i][0];
    if (op == 's') {
      for (int k = 0; k < len; k++)
        b[k] = StreamByte(alice ? 1 : 2, sp + k);
      r = SendData(fd, b, len);
      if (r == SUCCESS)
        sp += len;
      for (int k = 0; k < len; k++)  // what is sent is not changed by sending it
        if (b[k] != StreamByte(alice ? 1 : 2, sp - (r == SUCCESS ? len : 0) + k)) guard++;
    } else {
      // 'x<len>/<n>': receive while another thread sends n bytes
      std::thread th;
      int sr = SUCCESS;
      size_t sl = plan[i].find('/');
      long sn = op == 'x' && sl != string::npos ? atol(plan[i].c_str() + sl + 1) : 0;
      vector<unsigned char> sb(sn + 1);
      if (op == 'x') {
        for (long k = 0; k < sn; k++) sb[k] = StreamByte(alice ? 1 : 2, sp + k);
        th = std::thread([&]() { sr = SendData(fd, &sb[0], (int) sn); });
      }
      r = RecvData(fd, b, len);
      if (r == SUCCESS) {
        for (int k = 0; k < len; k++)
          if (b[k] != StreamByte(alice ? 2 : 1, rp + k))
            bad++;
        rp += len;
      }
      if (op == 'x') {
        th.join();
        if (sr == SUCCESS) sp += sn;
        else r = sr;
      }
      for (int k = 0; k < 16; k++)
        if (buf[k] != 0xEE || buf[16 + len + k] != 0xEE)
          guard++;
    }
    if (r != SUCCESS) {
      rr = r;
      break;
    }
    done++;
  }
  fprintf(out, "ret %d\ndone %d\nsent %llu\nrecvd %llu\nbad %llu\nguard %llu\n", rr, done,
          (unsigned long long) sp, (unsigned long long) rp, (unsigned long long) bad,
          (unsigned long long) guard);
}

// A scripted peer: sends the bytes of a file, reads whatever comes, then closes.
static void PartyScript(const Job& j, bool alice, int fd, FILE* out) {
  string f = S(j, "script");
  std::ifstream in(f.c_str(), std::ios::binary);
  string data((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  fcntl(fd, F_SETFL, O_NONBLOCK);
  size_t pos = 0;
  unsigned long long got = 0;
  long long linger = N(j, "linger", 0);  // keep the connection open, saying nothing more
  bool wr_open = true;
  for (;;) {
    if (wr_open && pos >= data.size() && !linger) {
      shutdown(fd, SHUT_WR);
      wr_open = false;
    }
    struct pollfd p;
    p.fd = fd;
    p.events = POLLIN | ((pos < data.size()) ? POLLOUT : 0);
    if (poll(&p, 1, 10000) <= 0)
      break;
    if (p.revents & POLLOUT) {
      ssize_t k = send(fd, data.data() + pos, std::min<size_t>(data.size() - pos, 65536), MSG_NOSIGNAL);
      if (k < 0 && errno != EAGAIN) break;
      if (k > 0) pos += k;
    }
    if (p.revents & (POLLIN | POLLHUP)) {
      char b[65536];
      ssize_t k = read(fd, b, sizeof b);
      if (k == 0 || (k < 0 && errno != EAGAIN)) break;
      if (k > 0) got += k;
    }
  }
  fprintf(out, "ret 0\nscript_sent %llu\nscript_got %llu\n", (unsigned long long) pos, got);
}

static void Party(const Job& j, bool alice, int fd, FILE* out);

// The repository's own server and client code over the loopback network, connection after connection.
static void PartyNet(const Job& j, bool alice, int sync, FILE* out) {
  int port = (int) N(j, "port"), conns = (int) N(j, "conns", 1);
  string host = S(j, "host", "127.0.0.1"), way = S(j, "way", "init");
  Job k = j;
  k["net"] = "";
  bool split = way == "split";  // one listening socket, several clients
  if (alice && split) {
    int r = ServerOpenSocket(port);
    fprintf(out, "open %d\n", r);
    if (r != SUCCESS) return;
  }
  for (int i = 0; i < conns; i++) {
    int fd;
    if (alice) {
      fd = split ? ServerWaitForClient() : ServerInit(port);
    } else {
      double dl = Now() + 20;
      do {
        fd = ClientInit(host.c_str(), port);
        if (fd == FAILURE) usleep(2000);
      } while (fd == FAILURE && Now() < dl);
    }
    fprintf(out, "conn %d\n", fd == FAILURE ? 0 : 1);
    fflush(out);
    if (fd == FAILURE) return;
    Party(k, alice, fd, out);
    fflush(out);
    if (alice) {
      // the peer closes first, unless the server is to leave a connection in TIME_WAIT behind
      char c;
      if (!N(j, "srvfirst", 0) && read(fd, &c, 1) > 0) fprintf(out, "extra 1\n");
      if (split) close(fd);
      else fprintf(out, "close %d\n", ServerClose(fd));
      if (i + 1 < conns && write(sync, "n", 1) != 1) return;  // ready for the next connection
    } else {
      char c;
      if (N(j, "srvfirst", 0) && read(fd, &c, 1) > 0) fprintf(out, "extra 1\n");
      fprintf(out, "close %d\n", ClientClose(fd));
      if (i + 1 < conns && read(sync, &c, 1) != 1) return;
    }
  }
}

static void Party(const Job& j, bool alice, int fd, FILE* out) {
  if (S(j, "net") == "tcp") {
    PartyNet(j, alice, fd, out);
    return;
  }
  string k = S(j, alice ? "role_a" : "role_b", S(j, "kind"));
  g_frozen = N(j, "freeze", 0);
  g_shortio = k == "script" ? 0 : N(j, "shortio", 0);
  g_iorng = Rng(N(j, "proxy_seed", 7) * 2 + alice);
  if (k == "gc") PartyGC(j, alice, fd, out);
  else if (k == "gcbn") PartyGCBN(j, alice, fd, out);
  else if (k == "ot") PartyOT(j, alice, fd, out, false);
  else if (k == "otext") PartyOT(j, alice, fd, out, true);
  else if (k == "otbn") PartyOTBN(j, alice, fd, out, false);
  else if (k == "otextbn") PartyOTBN(j, alice, fd, out, true);
  else if (k == "bn2p") PartyBN(j, alice, fd, out);
  else if (k == "tcp") PartyTCP(j, alice, fd, out);
  else if (k == "script") PartyScript(j, alice, fd, out);
  else fprintf(out, "badkind 1\n");
  g_frozen = false;
  g_shortio = 0;
  fprintf(out, "io %llu %llu %llu\n", g_io_calls, g_io_short, g_io_intr);
  if (!g_secrets.empty()) fprintf(out, "secrets %s\n", g_secrets.c_str());
  if (!g_otsel.empty()) fprintf(out, "otsel %s\n", g_otsel.c_str());
  if (!g_otmsg.empty()) fprintf(out, "otmsg %s\n", g_otmsg.c_str());
}

// ---------------------------------------------------------------- single-process jobs
static void J_gate(const Job& j, FILE* out) {
  // exhaustive over types and operand relations, for `rounds` random label choices
  static const int types[] = {ANDGATE, ANDNGATE, NANDGATE, NANDNGATE, ORGATE, ORNGATE, NORGATE,
                              NORNGATE, XORGATE, XNORGATE, NOTGATE};
  Rng g(N(j, "seed"));
  long rounds = N(j, "rounds", 10);
  auto rb = [&]() {
    uint64_t v[2] = {g.next(), g.next()};
    block b;
    memcpy(&b, v, 16);
    return b;
  };
  // operand kinds: 0 const0, 1 const1, 2 secret; relation of two secrets: 0 unrelated, 1 same, 2 inverse
  for (long r = 0; r < rounds; r++) {
    AES_KEY key;
    block gk = rb();
    AESSetEncryptKey((unsigned char*) &gk, 128, &key);
    block R = rb();
    *((unsigned char*) &R) |= 1;
    uint64_t gid = g.below(3) == 0 ? g.below(4) : g.below(1u << 30);
    uint64_t cid = g.below(3) == 0 ? g.below(4) : g.next() >> g.below(60);
    for (int type : types)
      for (int k0 = 0; k0 < 3; k0++)
        for (int k1 = 0; k1 < 3; k1++)
          for (int rel = 0; rel < ((k0 == 2 && k1 == 2) ? 3 : 1); rel++)
            for (int inv = 0; inv < 4; inv++) {  // evaluator-side inversion flags of the operands
              if (type == NOTGATE && (k1 != 2 || rel != 0)) continue;
              BlockPair a, b;
              a.label0 = rb();
              a.label1 = XorBlock(a.label0, R);
              b.label0 = rb();
              b.label1 = XorBlock(b.label0, R);
              if (rel == 1) b = a;
              if (rel == 2) {
                b.label0 = a.label1;
                b.label1 = a.label0;
              }
              short va = k0 == 2 ? SECRET : k0, vb = k1 == 2 ? SECRET : k1;
              if (k0 != 2) a.label0 = a.label1 = ZeroBlock();
              if (k1 != 2) b.label0 = b.label1 = ZeroBlock();
              GarbledTable tab[3];
              memset(tab, 0x5A, sizeof tab);
              tab[0].gid = tab[1].gid = tab[2].gid = 0xFFFFFFFFu;
              uint64_t ti = 0;
              BlockPair ol;
              short ov = 77;
              GarbleGate(a, va, b, vb, type, cid, gid, tab, &ti, R, key, &ol, &ov);
              for (int x = 0; x < 2; x++)
                for (int y = 0; y < 2; y++) {
                  if (k0 != 2 && x != k0) continue;
                  if (k1 != 2 && y != k1 && type != NOTGATE) continue;
                  if (rel == 1 && x != y) continue;
                  if (rel == 2 && x == y) continue;
                  block la = x ? a.label1 : a.label0, lb = y ? b.label1 : b.label0;
                  // evaluator flags: related operands must carry consistent flags
                  short ea = (k0 == 2) ? ((inv & 1) ? SECRET_INV : SECRET) : k0;
                  short eb = (k1 == 2) ? ((inv & 2) ? SECRET_INV : SECRET) : k1;
                  if (rel == 1) eb = ea;
                  if (rel == 2) {
                    eb = ea == SECRET ? SECRET_INV : SECRET;
                    lb = la;  // inverted wire: evaluator holds the same label
                  }
                  uint64_t ei = 0;
                  block eo;
                  memset(&eo, 0x77, sizeof eo);
                  short eov = 99;
                  EvalGate(la, ea, lb, eb, type, cid, gid, tab, &ei, key, &eo, &eov);
                  fprintf(out, "g %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n", type, k0, k1, rel,
                          inv, x, y, (int) ov, (int) ti, (int) (eov < 0 ? -1 : eov), (int) ei,
                          memcmp(&eo, &ol.label0, 16) == 0, memcmp(&eo, &ol.label1, 16) == 0,
                          (int) (ti == 0 || tab[0].gid == (uint32_t) gid),
                          (int) (ov >= 0 || memcmp(&ol.label0, &ol.label1, 16) != 0), (int) eov);
                }
            }
  }
}

static string DumpCircuit(const GarbledCircuit& c) {
  std::stringstream o;
  o << c.p_init_size << " " << c.g_init_size << " " << c.e_init_size << " " << c.p_input_size << " "
    << c.g_input_size << " " << c.e_input_size << " " << c.dff_size << " " << c.output_size << " "
    << (int64_t) c.terminate_id << " " << c.gate_size << "|";
  for (uint64_t i = 0; i < c.gate_size; i++)
    o << c.garbledGates[i].input0 << "," << c.garbledGates[i].input1 << "," << c.garbledGates[i].type
      << "," << c.garbledGates[i].output << " ";
  o << "|";
  for (uint64_t i = 0; i < c.output_size; i++) o << c.outputs[i] << " ";
  o << "|";
  for (uint64_t i = 0; i < c.dff_size; i++) o << c.D[i] << "," << c.I[i] << " ";
  return o.str();
}

static void J_readscd(const Job& j, FILE* out) {
  GarbledCircuit c;
  memset((void*) &c, 0xAB, sizeof c);  // nothing may rely on what was there before
  int r = ReadSCD(S(j, "scd"), &c);
  fprintf(out, "ret %d\n", r);
  if (r == SUCCESS) {
    if (N(j, "dump", 1)) fprintf(out, "dump %s\n", DumpCircuit(c).c_str());
    if (N(j, "fanout", 0)) {
      int f = FillFanout(&c);
      fprintf(out, "fanret %d\nfanout ", f);
      for (uint64_t i = 0; i < c.gate_size; i++) fprintf(out, "%d ", c.garbledGates[i].fanout);
      fprintf(out, "\n");
    }
    RemoveGarbledCircuit(&c);
    fprintf(out, "removed 1\n");
  }
}

// writes a circuit with WriteSCD from a description in the job
static void J_writescd(const Job& j, FILE* out) {
  ReadCircuit c;
  vector<string> h = Split(S(j, "header"), ' ');
  c.p_init_size = atoll(h[0].c_str());
  c.g_init_size = atoll(h[1].c_str());
  c.e_init_size = atoll(h[2].c_str());
  c.p_input_size = atoll(h[3].c_str());
  c.g_input_size = atoll(h[4].c_str());
  c.e_input_size = atoll(h[5].c_str());
  c.dff_size = atoll(h[6].c_str());
  c.output_size = atoll(h[7].c_str());
  c.terminate_id = atoll(h[8].c_str());
  c.gate_size = atoll(h[9].c_str());
  vector<string> gs = Split(S(j, "gates"), ' ');
  uint64_t lo = c.get_init_input_size() + c.dff_size;
  // gate k of the schedule is stored at position perm[k] of the list
  vector<string> perm = Split(S(j, "perm"), ' ');
  c.gate_list.resize(c.gate_size);
  for (uint64_t i = 0; i < c.gate_size; i++) {
    vector<string> f = Split(gs[i], ',');
    ReadGate g;
    g.input[0] = atoll(f[0].c_str());
    g.input[1] = atoll(f[1].c_str());
    g.type = atoi(f[2].c_str());
    g.output = lo + i;
    uint64_t p = atoll(perm[i].c_str());
    c.gate_list[p] = g;
    c.task_schedule.push_back(p);
  }
  for (const string& o : Split(S(j, "outputs"), ' ')) c.output_list.push_back((uint64_t) atoll(o.c_str()));
  for (const string& d : Split(S(j, "dffs"), ' ')) {
    vector<string> f = Split(d, ',');
    ReadGate g;
    g.input[0] = atoll(f[0].c_str());
    g.input[1] = atoll(f[1].c_str());
    g.type = DFFGATE;
    g.output = 0;
    c.dff_list.push_back(g);
  }
  int r = WriteSCD(c, S(j, "scd"));
  fprintf(out, "ret %d\n", r);
}

static void J_v2scd(const Job& j, FILE* out, bool bris) {
  int r = bris ? Bris2SCD(S(j, "in"), S(j, "map"), S(j, "scd"))
               : Verilog2SCD(S(j, "in"), S(j, "map"), S(j, "scd"));
  fprintf(out, "ret %d\n", r);
  if (S(j, "scd2") != "") {
    r = bris ? Bris2SCD(S(j, "in"), S(j, "map2"), S(j, "scd2"))
             : Verilog2SCD(S(j, "in"), S(j, "map2"), S(j, "scd2"));
    fprintf(out, "ret2 %d\n", r);
  }
}

static void J_plain(const Job& j, FILE* out) {
  string o = "(unset)";
  int r = EvalauatePlaintextStr(S(j, "scd"), SX(j, "p_init", "0"), SX(j, "g_init", "0"),
                                SX(j, "e_init", "0"), SX(j, "p_input", "0"), SX(j, "g_input", "0"),
                                SX(j, "e_input", "0"), N(j, "cc", 1), N(j, "period"),
                                (OutputMode) N(j, "mode"), &o);
  fprintf(out, "ret %d\nout %s\n", r, Hex(o).c_str());
}

// the hash of the OT extension, where there is one of this name
int HashBN(BIGNUM* r, uint32_t bits, uint32_t tweak, const BIGNUM* v) __attribute__((weak));

static void J_bnops(const Job& j, FILE* out) {
  // ops: "op:args;op:args"
  for (const string& o : Split(S(j, "ops"), ';')) {
    vector<string> f = Split(o, ':');
    if (f[0] == "xor") {
      BIGNUM *a = HexBN(f[2]), *b = HexBN(f[3]), *r = HexBN(f[4]);
      int ret = BN_xor(r, atoi(f[1].c_str()), a, b);
      fprintf(out, "r %d %s\n", ret, BNHex(r).c_str());
      BN_free(a); BN_free(b); BN_free(r);
    } else if (f[0] == "inv") {
      BIGNUM* a = HexBN(f[2]);
      int ret = BN_invert(a, atoi(f[1].c_str()));
      fprintf(out, "r %d %s\n", ret, BNHex(a).c_str());
      BN_free(a);
    } else if (f[0] == "ones") {
      BIGNUM* a = HexBN(f[2]);
      int ret = BN_full_one(a, atoi(f[1].c_str()));
      fprintf(out, "r %d %s\n", ret, BNHex(a).c_str());
      BN_free(a);
    } else if (f[0] == "b2n") {
      BIGNUM* a = HexBN("ff");
      BlockToBN(a, HexBlock(f[1]));
      block b;
      memset(&b, 0x3C, sizeof b);
      BNToBlock(a, &b);
      fprintf(out, "r %s %s\n", BNHex(a).c_str(), Hex(&b, 16).c_str());
      BN_free(a);
    } else if (f[0] == "n2b") {
      BIGNUM* a = HexBN(f[1]);
      block b;
      memset(&b, 0x3C, sizeof b);
      BNToBlock(a, &b);
      fprintf(out, "r %s\n", Hex(&b, 16).c_str());
      BN_free(a);
    } else if (f[0] == "sw") {  // transpose list of numbers of given bit length, twice
      uint32_t bl = atoi(f[1].c_str());
      vector<string> v = Split(f[2], ',');
      BIGNUM** a = new BIGNUM*[v.size()];
      for (size_t i = 0; i < v.size(); i++) a[i] = HexBN(v[i]);
      BIGNUM **w, **z;
      int r1 = SwitchRowColumnBN(a, v.size(), bl, &w);
      fprintf(out, "r %d ", r1);
      for (uint32_t i = 0; i < bl; i++) fprintf(out, "%s%s", i ? "," : "", BNHex(w[i]).c_str());
      int r2 = SwitchRowColumnBN(w, bl, v.size(), &z);
      fprintf(out, " %d ", r2);
      for (size_t i = 0; i < v.size(); i++) fprintf(out, "%s%s", i ? "," : "", BNHex(z[i]).c_str());
      fprintf(out, "\n");
    } else if (f[0] == "hash") {
      HashInit();
      BIGNUM *v = HexBN(f[3]), *r = BN_new();
      int ret = HashBN ? HashBN(r, atoi(f[1].c_str()), atoi(f[2].c_str()), v) : -7;
      fprintf(out, "r %d %s\n", ret, BNHex(r).c_str());
      BN_free(v); BN_free(r);
    } else if (f[0] == "swp") {  // pairs
      uint32_t bl = atoi(f[1].c_str());
      vector<string> v = Split(f[2], ','), v1 = Split(f[3], ',');
      BIGNUM*** a = new BIGNUM**[v.size()];
      for (size_t i = 0; i < v.size(); i++) {
        a[i] = new BIGNUM*[2];
        a[i][0] = HexBN(v[i]);
        a[i][1] = HexBN(v1[i]);
      }
      BIGNUM*** w;
      int r1 = SwitchRowColumnBNPair(a, v.size(), bl, &w);
      fprintf(out, "r %d ", r1);
      for (int k = 0; k < 2; k++) {
        for (uint32_t i = 0; i < bl; i++) fprintf(out, "%s%s", i ? "," : "", BNHex(w[i][k]).c_str());
        fprintf(out, k ? "\n" : " ");
      }
    }
  }
}

static void J_aes(const Job& j, FILE* out) {
  // cases: key:blocks(hex of n*16 bytes)
  for (const string& c : Split(S(j, "cases"), ';')) {
    vector<string> f = Split(c, ':');
    string key = UnHex(f[0]), data = UnHex(f.size() > 1 ? f[1] : "");
    size_t n = data.size() / 16;
    AES_KEY k, dk, fk;
    memset(&k, 0xCD, sizeof k);
    memset(&dk, 0xCD, sizeof dk);
    memset(&fk, 0xCD, sizeof fk);
    int bits = (int) key.size() * 8;
    // an unaligned copy of the key as well: key bytes come from arbitrary memory
    AESSetEncryptKey((unsigned char*) &key[0], bits, &k);
    AESSetDecryptKey((unsigned char*) &key[0], bits, &dk);
    AESSetDecryptKeyFast(&fk, &k);
    block* b = new block[n + 2];
    memset(b, 0xEE, 16 * (n + 2));
    memcpy(b + 1, data.data(), data.size());
    AESEcbEncryptBlks(b + 1, (unsigned) n, &k);
    string many = Hex(b + 1, n * 16);
    // back again, and one by one (into another block, in place)
    block* d = new block[n + 1];
    memcpy((void*) d, (void*) (b + 1), 16 * n);
    AESEcbDecryptBlks(d, (unsigned) n, &dk);
    string back = Hex(d, n * 16), one, oneback;
    AESEcbDecryptBlks(b + 1, (unsigned) n, &fk);
    string fast = Hex(b + 1, n * 16);
    for (size_t i = 0; i < n; i++) {
      alignas(16) unsigned char in[16], o[16], q[16];
      memcpy(in, data.data() + 16 * i, 16);
      AESEncrypt(in, o, &k);
      string whole = Hex(in, 16);
      AESDecrypt(o, q, &dk);
      one += Hex(o, 16);
      oneback += Hex(q, 16);
      AESEncrypt(q, q, &k);
      AESDecrypt(q, q, &fk);
      if (memcmp(q, in, 16) || whole != Hex(data.data() + 16 * i, 16)) oneback = "in-place";
    }
    delete[] d;
    int guard = 0;
    for (int i = 0; i < 16; i++)
      guard += ((unsigned char*) b)[i] != 0xEE || ((unsigned char*) (b + n + 1))[i] != 0xEE;
    fprintf(out, "r %s|%s|%s|%s|%s|%d\n", many.c_str(), one.c_str(), back.c_str(), fast.c_str(), oneback.c_str(), guard);
    delete[] b;
  }
}

static void J_util(const Job& j, FILE* out) {
  for (const string& o : Split(S(j, "ops"), ';')) {
    vector<string> f = Split(o, ':');
    const string& op = f[0];
    if (op == "hex2bin") fprintf(out, "r %s\n", hex2bin(f.size() > 1 ? f[1] : "").c_str());
    else if (op == "bin2hex") fprintf(out, "r %s\n", bin2hex(f.size() > 1 ? f[1] : "").c_str());
    else if (op == "dec2bin") fprintf(out, "r %s\n", dec2bin((int64_t) strtoull(f[1].c_str(), 0, 0), atoi(f[2].c_str())).c_str());
    else if (op == "bin2dec") fprintf(out, "r %lld\n", (long long) bin2dec(f[1], f[2] == "1"));
    else if (op == "twos") fprintf(out, "r %s\n", towsComplement(f[1]).c_str());
    else if (op == "fmtin") {
      vector<uint64_t> v;
      vector<uint16_t> w;
      for (const string& s : Split(f[1], ',')) v.push_back(strtoull(s.c_str(), 0, 0));
      for (const string& s : Split(f[2], ',')) w.push_back(atoi(s.c_str()));
      fprintf(out, "r %s\n", formatGCInputString(v, w).c_str());
    } else if (op == "parseout") {
      vector<uint16_t> w;
      for (const string& s : Split(f[2], ',')) w.push_back(atoi(s.c_str()));
      vector<int64_t> v(w.size(), 424242);
      parseGCOutputString(v, f[1], w, atoi(f[3].c_str()));
      fprintf(out, "r ");
      for (size_t i = 0; i < v.size(); i++) fprintf(out, "%s%lld", i ? "," : "", (long long) v[i]);
      fprintf(out, "\n");
    } else if (op == "mask")
      fprintf(out, "r %s\n", formatGCOutputMask(atoi(f[1].c_str()), atoi(f[2].c_str()), f[3] == "1").c_str());
    else if (op == "s2b") {
      block b;
      memset(&b, 0x99, sizeof b);
      int r = Str2Block(UnHex(f.size() > 1 ? f[1] : ""), &b);
      fprintf(out, "r %d %s\n", r, Hex(&b, 16).c_str());
    } else if (op == "toh") fprintf(out, "r %s\n", to_string_hex(strtoull(f[1].c_str(), 0, 0), atoi(f[2].c_str())).c_str());
    else if (op == "icmp") fprintf(out, "r %d\n", (int) icompare(UnHex(f[1]), UnHex(f.size() > 2 ? f[2] : "")));
    else if (op == "rfile") fprintf(out, "r %s\n", Hex(ReadFileOrPassHex(UnHex(f[1]))).c_str());
    else if (op == "gop") fprintf(out, "r %d\n", (int) GateOperator(atoi(f[1].c_str()), f[2] == "1", f[3] == "1"));
    else if (op == "t2v") fprintf(out, "r %d\n", (int) Type2V(atoi(f[1].c_str())));
    fflush(out);
  }
}

static void J_outstr(const Job& j, FILE* out) {
  GarbledCircuit c;
  memset((void*) &c, 0, sizeof c);
  c.output_size = N(j, "osize");
  BIGNUM* b = HexBN(S(j, "bn", "0"));
  string o;
  int r = N(j, "low") ? OutputBN2StrLowMem(c, b, N(j, "cc"), (OutputMode) N(j, "mode"), &o)
                      : OutputBN2StrHighMem(c, b, N(j, "cc"), (OutputMode) N(j, "mode"), &o);
  fprintf(out, "ret %d\nout %s\n", r, Hex(o).c_str());
}

static void J_rand(const Job& j, FILE* out) {
  // `n` random blocks after seeding
  g_frozen = N(j, "freeze", 0);
  SrandSSE((unsigned) N(j, "srand"));
  long n = N(j, "n", 4);
  fprintf(out, "blocks ");
  for (long i = 0; i < n; i++) {
    block b = RandomBlock();
    fprintf(out, "%s%s", i ? "," : "", Hex(&b, 16).c_str());
  }
  fprintf(out, "\n");
}

static void J_netops(const Job& j, FILE* out) {
  int port = (int) N(j, "port");
  for (const string& o : Split(S(j, "ops"), ';')) {
    int r = -2;
    if (o == "client") r = ClientInit("127.0.0.1", port);       // nobody listens there
    else if (o == "badhost") r = ClientInit("no.such.host.invalid", port);
    else if (o == "server") r = ServerOpenSocket(port);
    else if (o == "send") r = SendData(-1, &port, 4);
    else if (o == "recv") r = RecvData(-1, &port, 4);
    else if (o == "send0") r = SendData(-1, &port, 0);
    else if (o == "recv0") r = RecvData(-1, &port, 0);
    fprintf(out, "r %s %d\n", o.c_str(), r == FAILURE ? -1 : r == SUCCESS ? 0 : 1);
  }
}

static void Single(const Job& j, FILE* out) {
  string k = S(j, "kind");
  if (k == "gate") J_gate(j, out);
  else if (k == "readscd") J_readscd(j, out);
  else if (k == "writescd") J_writescd(j, out);
  else if (k == "v2scd") J_v2scd(j, out, false);
  else if (k == "bris") J_v2scd(j, out, true);
  else if (k == "plain") J_plain(j, out);
  else if (k == "bnops") J_bnops(j, out);
  else if (k == "aes") J_aes(j, out);
  else if (k == "util") J_util(j, out);
  else if (k == "outstr") J_outstr(j, out);
  else if (k == "rand") J_rand(j, out);
  else if (k == "netops") J_netops(j, out);
  else fprintf(out, "badkind 1\n");
}

// ---------------------------------------------------------------- process control
struct Child {
  pid_t pid;
  FILE* out;
  FILE* err;
  bool alive;
  int status;
  bool killed;
};

static int g_null = -1;

template<class F>
static void Spawn(Child* c, F body) {
  c->out = tmpfile();
  c->err = tmpfile();
  c->alive = true;
  c->killed = false;
  c->status = 0;
  fflush(nullptr);
  c->pid = fork();
  if (c->pid < 0) {
    perror("fork");
    exit(3);
  }
  if (c->pid == 0) {
    dup2(g_null, 0);
    dup2(g_null, 1);
    dup2(fileno(c->err), 2);
    body(c->out);
    fprintf(c->out, "finished 1\n");
    fflush(c->out);
    std::cout.flush();
    std::cerr.flush();
    _exit(0);
  }
}

static void Reap(Child* c) {
  if (!c->alive) return;
  int st;
  if (waitpid(c->pid, &st, WNOHANG) == c->pid) {
    c->alive = false;
    c->status = st;
  }
}

static bool CpuState(pid_t pid, char* state, unsigned long long* ticks) {
  char p[64];
  snprintf(p, sizeof p, "/proc/%d/stat", (int) pid);
  FILE* f = fopen(p, "r");
  if (!f) return false;
  char buf[2048];
  size_t n = fread(buf, 1, sizeof buf - 1, f);
  fclose(f);
  buf[n] = 0;
  char* q = strrchr(buf, ')');
  if (!q) return false;
  unsigned long ut = 0, st = 0;
  if (sscanf(q + 2, "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", state, &ut, &st) != 3) return false;
  *ticks = ut + st;
  return true;
}

static void Report(FILE* res, const string& role, Child* c) {
  rewind(c->out);
  char* line = nullptr;
  size_t cap = 0;
  while (getline(&line, &cap, c->out) > 0) fprintf(res, "%s.%s", role.c_str(), line);
  free(line);
  string st;
  if (c->killed) st = "killed";
  else if (WIFEXITED(c->status)) st = "exit:" + std::to_string(WEXITSTATUS(c->status));
  else st = "signal:" + std::to_string(WTERMSIG(c->status));
  fprintf(res, "%s.status %s\n", role.c_str(), st.c_str());
  rewind(c->err);
  string e;
  char buf[4096];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, c->err)) > 0 && e.size() < (1u << 20)) e.append(buf, n);
  size_t a = e.find("AddressSanitizer"), b = e.find("runtime error:");
  size_t pos = std::min(a, b);
  string snip;
  if (pos != string::npos) {
    size_t s = pos > 300 ? pos - 300 : 0;
    snip = e.substr(s, 5000);
    fprintf(res, "%s.san 1\n", role.c_str());
  } else {
    snip = e.size() > 1500 ? e.substr(e.size() - 1500) : e;
  }
  fprintf(res, "%s.err %s\n", role.c_str(), Hex(snip).c_str());
  fclose(c->out);
  fclose(c->err);
}

// seconds this process has spent on jobs that stalled or ran into their limit
static double g_wasted;

static void Run1(const Job& j, FILE* res) {
  Child c;
  Spawn(&c, [&](FILE* o) { Single(j, o); });
  double start = Now(), dl = start + N(j, "timeout", 60);
  while (c.alive) {
    Reap(&c);
    if (!c.alive) break;
    if (Now() > dl) {
      kill(c.pid, SIGKILL);
      c.killed = true;
      waitpid(c.pid, &c.status, 0);
      c.alive = false;
      fprintf(res, "timeout 1\n");
      g_wasted += Now() - start;
      break;
    }
    usleep(300);
  }
  Report(res, "S", &c);
}

struct Dir {
  int in, out;
  string buf;
  unsigned long long fwd;
  bool eof, shut;
};

static void Run2(const Job& j, FILE* res) {
  int sa[2], sb[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sa) || socketpair(AF_UNIX, SOCK_STREAM, 0, sb)) {
    perror("socketpair");
    exit(3);
  }
  Child A, B;
  Spawn(&A, [&](FILE* o) {
    close(sa[0]); close(sb[0]); close(sb[1]);
    Party(j, true, sa[1], o);
  });
  Spawn(&B, [&](FILE* o) {
    close(sb[0]); close(sa[0]); close(sa[1]);
    Party(j, false, sb[1], o);
  });
  close(sa[1]);
  close(sb[1]);
  fcntl(sa[0], F_SETFL, O_NONBLOCK);
  fcntl(sb[0], F_SETFL, O_NONBLOCK);
  Dir d[2];
  d[0].in = sa[0]; d[0].out = sb[0];
  d[1].in = sb[0]; d[1].out = sa[0];
  for (int i = 0; i < 2; i++) {
    d[i].fwd = 0;
    d[i].eof = d[i].shut = false;
  }
  FILE* rec = nullptr;
  if (S(j, "rec") != "") rec = fopen(S(j, "rec").c_str(), "wb");
  long long cut_dir = N(j, "cut_dir", -1), cut_at = N(j, "cut_at", -1);
  bool cut = false;
  size_t seg = N(j, "seg", 0);
  long delay = N(j, "delay_us", 0);
  int delay_den = (int) N(j, "delay_den", 8);
  Rng g(N(j, "proxy_seed", 7));
  struct Corr { int dir; unsigned long long off; string data; bool xr; };
  vector<Corr> corr;
  for (const string& c : Split(S(j, "corrupt"), ',')) {  // dir:offset:hex (xor) or dir:offset:=hex (set)
    vector<string> f = Split(c, ':');
    Corr k;
    k.dir = atoi(f[0].c_str());
    k.off = strtoull(f[1].c_str(), 0, 10);
    k.xr = f[2][0] != '=';
    k.data = UnHex(k.xr ? f[2] : f[2].substr(1));
    corr.push_back(k);
  }
  double start = Now(), dl = start + N(j, "timeout", 60), last = start;
  double stall_s = N(j, "stall_ms", 4000) / 1000.0;
  bool stalled = false, timeout = false;
  unsigned long long t0[2] = {0, 0};
  double mark = 0;
  unsigned long long events = 0;
  while (true) {
    Reap(&A);
    Reap(&B);
    if (!A.alive && !B.alive) {
      // drain what is still in flight so that the recording is complete
      if (rec && !cut) {
        for (int i = 0; i < 2; i++) {
          char b[65536];
          ssize_t n;
          while ((n = read(d[i].in, b, sizeof b)) > 0) {
            unsigned char dd = i;
            uint32_t len = n;
            fwrite(&dd, 1, 1, rec); fwrite(&len, 4, 1, rec); fwrite(b, 1, n, rec);
            d[i].fwd += n;
          }
        }
      }
      break;
    }
    double now = Now();
    if (now > dl) {
      timeout = true;
      break;
    }
    struct pollfd p[2];
    for (int i = 0; i < 2; i++) {
      p[i].fd = cut ? -1 : (i == 0 ? sa[0] : sb[0]);
      p[i].events = 0;
      if (!d[i].eof && d[i].buf.size() < (1u << 20)) p[i].events |= POLLIN;
      if (!d[1 - i].buf.empty()) p[i].events |= POLLOUT;
      if (!p[i].events && d[i].eof) p[i].fd = -1;
    }
    int pr = poll(p, 2, (cut || (d[0].eof && d[1].eof)) ? 2 : 100);
    bool progress = false;
    for (int i = 0; i < 2 && !cut && pr > 0; i++) {
      if (d[i].eof) continue;
      if (p[i].revents & (POLLIN | POLLHUP | POLLERR)) {
        char b[65536];
        ssize_t n = read(d[i].in, b, sizeof b);
        if (n > 0) {
          d[i].buf.append(b, n);
          progress = true;
        } else if (n == 0 || (errno != EAGAIN && errno != EINTR)) {
          d[i].eof = true;
          progress = true;
        }
      }
    }
    for (int i = 0; i < 2 && !cut; i++) {
      while (!d[i].buf.empty()) {
        size_t n = d[i].buf.size();
        if (seg) n = std::min<size_t>(n, 1 + g.below(seg));
        if (cut_dir == i && (long long) d[i].fwd + (long long) n > cut_at) n = cut_at - d[i].fwd;
        if (n) {
          string chunk = d[i].buf.substr(0, n);
          for (Corr& c : corr)
            if (c.dir == i)
              for (size_t k = 0; k < c.data.size(); k++) {
                unsigned long long o = c.off + k;
                if (o >= d[i].fwd && o < d[i].fwd + n) {
                  if (c.xr) chunk[o - d[i].fwd] ^= c.data[k];
                  else chunk[o - d[i].fwd] = c.data[k];
                }
              }
          if (delay && g.below(delay_den) == 0) usleep(1 + g.below(delay));
          ssize_t w = send(d[i].out, chunk.data(), n, MSG_NOSIGNAL | MSG_DONTWAIT);
          if (w < 0) {
            if (errno == EAGAIN || errno == EINTR) break;
            // receiver is gone: the sender finds its connection closed
            d[i].buf.clear();
            d[i].eof = d[i].shut = true;
            shutdown(d[i].in, SHUT_RD);
            progress = true;
            break;
          }
          if (rec) {
            unsigned char dd = i;
            uint32_t len = w;
            fwrite(&dd, 1, 1, rec); fwrite(&len, 4, 1, rec); fwrite(chunk.data(), 1, w, rec);
          }
          events++;
          d[i].fwd += w;
          d[i].buf.erase(0, w);
          progress = true;
        }
        if (cut_dir == i && (long long) d[i].fwd >= cut_at) {
          cut = true;
          break;
        }
        if (seg) break;  // give the other direction a chance between segments
      }
      if (cut_dir == i && cut_at == 0) cut = true;
      if (cut) break;
      if (d[i].eof && d[i].buf.empty() && !d[i].shut) {
        shutdown(d[i].out, SHUT_WR);
        d[i].shut = true;
        progress = true;
      }
    }
    if (cut && sa[0] >= 0) {
      close(sa[0]);
      close(sb[0]);
      sa[0] = sb[0] = -1;
      progress = true;
    }
    if (progress) {
      last = now;
      mark = 0;
    } else if (now - last > stall_s / 2) {
      // nothing moves: is everybody alive asleep without using CPU?
      char st[2] = {'S', 'S'};
      unsigned long long tk[2] = {0, 0};
      Child* cs[2] = {&A, &B};
      bool ok = true;
      for (int i = 0; i < 2; i++)
        if (cs[i]->alive && (!CpuState(cs[i]->pid, &st[i], &tk[i]) || st[i] != 'S')) ok = false;
      if (!ok || (mark > 0 && (tk[0] != t0[0] || tk[1] != t0[1]))) mark = 0;
      else if (mark == 0) {
        mark = now;
        t0[0] = tk[0];
        t0[1] = tk[1];
      } else if (now - mark > stall_s) {
        stalled = true;
        break;
      }
    }
  }
  Child* cs[2] = {&A, &B};
  for (int i = 0; i < 2; i++)
    if (cs[i]->alive) {
      kill(cs[i]->pid, SIGKILL);
      waitpid(cs[i]->pid, &cs[i]->status, 0);
      cs[i]->alive = false;
      cs[i]->killed = true;
    }
  if (sa[0] >= 0) {
    close(sa[0]);
    close(sb[0]);
  }
  if (rec) fclose(rec);
  Report(res, "A", &A);
  Report(res, "B", &B);
  fprintf(res, "ab %llu\nba %llu\nevents %llu\nwall_ms %d\n", d[0].fwd, d[1].fwd, events,
          (int) ((Now() - start) * 1000));
  if (stalled || timeout) g_wasted += Now() - start;
  if (stalled) fprintf(res, "stalled 1\n");
  if (timeout) fprintf(res, "timeout 1\n");
  if (cut) fprintf(res, "cut 1\n");
}

int main(int argc, char** argv) {
  if (argc < 3) {
    fprintf(stderr, "usage: tgh JOBS RESULTS\n");
    return 2;
  }
  static char a0[] = "tgh", a1[] = "--log2std";
  char* av[] = {a0, a1, nullptr};
  LogInitial(2, av);
  HashInit();
  g_null = open("/dev/null", O_RDWR);
  signal(SIGPIPE, SIG_DFL);
  std::ifstream in(argv[1]);
  FILE* res = fopen(argv[2], "w");
  if (!in || !res) {
    fprintf(stderr, "cannot open files\n");
    return 2;
  }
  string line;
  Job j;
  auto run = [&]() {
    if (j.empty()) return;
    if (g_wasted > 60) {  // enough of them: the rest is left out, and the caller told
      fprintf(res, "@ %s\nskipped 1\nend 1\n", S(j, "id").c_str());
      j.clear();
      return;
    }
    fprintf(res, "@ %s\n", S(j, "id").c_str());
    string k = S(j, "kind");
    static const char* two[] = {"gc", "gcbn", "ot", "otext", "otbn", "otextbn", "bn2p", "tcp", "pair"};
    bool is2 = false;
    for (const char* t : two) is2 |= k == t;
    if (is2) Run2(j, res);
    else Run1(j, res);
    fprintf(res, "end 1\n");
    fflush(res);
    j.clear();
  };
  while (std::getline(in, line)) {
    if (line.empty()) {
      run();
      continue;
    }
    size_t sp = line.find(' ');
    if (sp == string::npos) j[line] = "";
    else j[line.substr(0, sp)] = line.substr(sp + 1);
  }
  run();
  fclose(res);
  return 0;
}
