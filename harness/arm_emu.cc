// Runs a processor program image (one 32-bit hex word per line, loaded at 0) on an interpreter of
// the ARM subset the programs use.  Usage: arm_emu <image> <stack words> <max instructions>
// stdin: vectors "<64 words g> <64 words e>" in hex; stdout per vector:
//   "<64 words o> ; <instructions> <deepest stack word>"   or   "fault <what> pc=<pc> n=<instructions>"
// A fault is an access outside the program's memories (code/data, g, e, o, stack), a store to g or e,
// an undefined instruction, or running longer than the limit.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
typedef uint32_t u32;
typedef uint64_t u64;
struct Fault { std::string s; };
static std::vector<u32> image;
static u32 stackw = 64;
struct Cpu {
  std::vector<u32> ram, g, e, o, st;
  u32 r[16]; bool N, Z, C, V; u64 n; u32 low;
  u32 *at(u32 a, bool w) {
    u32 i = (a & 0xffffff) >> 2;
    u32 top = a >> 24;
    if (a >= 0x04000000 && a < 0x04000100) { }
    if (top == 0 && i < ram.size()) return &ram[i];
    if (top == 1 && i < 64) { if (w) throw Fault{"store-to-g"}; return &g[i]; }
    if (top == 2 && i < 64) { if (w) throw Fault{"store-to-e"}; return &e[i]; }
    if (top == 3 && i < 64) return &o[i];
    // the stack grows down from 0x04000100
    int64_t off = (int64_t) a - (0x04000100 - (int64_t) 4 * stackw);
    if (off >= 0 && off < (int64_t) 4 * stackw) {
      u32 d = (u32) ((0x04000100 - a + 3) / 4);
      if (d > low) low = d;
      return &st[off >> 2];
    }
    char b[64]; snprintf(b, sizeof b, "%s-%08x", w ? "store" : "load", a);
    throw Fault{b};
  }
  u32 ld(u32 a) { if (a & 3) throw Fault{"unaligned-load"}; return *at(a, false); }
  void sw(u32 a, u32 v) { if (a & 3) throw Fault{"unaligned-store"}; *at(a, true) = v; }
  u32 ldb(u32 a) { return (*at(a, false) >> (8 * (a & 3))) & 255; }
  void sb(u32 a, u32 v) { u32 *p = at(a, true); u32 s = 8 * (a & 3); *p = (*p & ~(255u << s)) | ((v & 255) << s); }
  u32 ldh(u32 a) { if (a & 1) throw Fault{"unaligned-load"}; return (*at(a, false) >> (8 * (a & 2))) & 65535; }
  void sh(u32 a, u32 v) { if (a & 1) throw Fault{"unaligned-store"}; u32 *p = at(a, true); u32 s = 8 * (a & 2); *p = (*p & ~(65535u << s)) | ((v & 65535) << s); }
  u32 reg(int i, u32 pc, u32 add = 8) { return i == 15 ? pc + add : r[i]; }
  u32 shifter(u32 in, u32 pc, bool &c) {
    if (in & (1 << 25)) {
      u32 rot = ((in >> 8) & 15) * 2, v = in & 255;
      if (rot) { v = (v >> rot) | (v << (32 - rot)); c = v >> 31; } else c = C;
      return v;
    }
    int rm = in & 15, ty = (in >> 5) & 3;
    if (in & 16) {
      u32 s = reg((in >> 8) & 15, pc) & 255, v = reg(rm, pc, 12);
      if (s == 0) { c = C; return v; }
      switch (ty) {
        case 0: if (s < 32) { c = (v >> (32 - s)) & 1; return v << s; } c = s == 32 ? v & 1 : 0; return 0;
        case 1: if (s < 32) { c = (v >> (s - 1)) & 1; return v >> s; } c = s == 32 ? v >> 31 : 0; return 0;
        case 2: if (s < 32) { c = (v >> (s - 1)) & 1; return (u32) ((int32_t) v >> s); } c = v >> 31; return c ? ~0u : 0;
        default: s &= 31; if (!s) { c = v >> 31; return v; } c = (v >> (s - 1)) & 1; return (v >> s) | (v << (32 - s));
      }
    }
    u32 s = (in >> 7) & 31, v = reg(rm, pc);
    switch (ty) {
      case 0: if (!s) { c = C; return v; } c = (v >> (32 - s)) & 1; return v << s;
      case 1: if (!s) { c = v >> 31; return 0; } c = (v >> (s - 1)) & 1; return v >> s;
      case 2: if (!s) { c = v >> 31; return c ? ~0u : 0; } c = (v >> (s - 1)) & 1; return (u32) ((int32_t) v >> s);
      default: if (!s) { c = v & 1; return ((u32) C << 31) | (v >> 1); } c = (v >> (s - 1)) & 1; return (v >> s) | (v << (32 - s));
    }
  }
  u32 add(u32 a, u32 b, u32 ci, bool s) {
    u64 t = (u64) a + b + ci; u32 x = (u32) t;
    if (s) { C = t >> 32; V = (~(a ^ b) & (a ^ x)) >> 31; }
    return x;
  }
  bool cond(u32 k) {
    switch (k) {
      case 0: return Z; case 1: return !Z; case 2: return C; case 3: return !C; case 4: return N; case 5: return !N;
      case 6: return V; case 7: return !V; case 8: return C && !Z; case 9: return !C || Z; case 10: return N == V;
      case 11: return N != V; case 12: return !Z && N == V; case 13: return Z || N != V; case 14: return true; default: throw Fault{"nv-condition"};
    }
  }
  void run(u64 limit) {
    u32 pc = 0; n = 0;
    for (;;) {
      if (n++ > limit) throw Fault{"too-long"};
      if (pc >> 2 >= ram.size() || (pc & 3)) throw Fault{"bad-pc"};
      u32 in = ram[pc >> 2], next = pc + 4;
      r[15] = pc;
      if (!cond(in >> 28)) { pc = next; continue; }
      if ((in & 0x0e000000) == 0x0a000000) {
        u32 t = pc + 8 + (u32) ((int32_t) (in << 8) >> 6);
        if (in & (1 << 24)) r[14] = next;
        if (t == pc) return;
        pc = t; continue;
      }
      if ((in & 0x0fc000f0) == 0x00000090) {                     // mul, mla
        u32 v = r[in & 15] * r[(in >> 8) & 15];
        if (in & (1 << 21)) v += r[(in >> 12) & 15];
        r[(in >> 16) & 15] = v;
        if (in & (1 << 20)) { N = v >> 31; Z = !v; }
        pc = next; continue;
      }
      if ((in & 0x0f8000f0) == 0x00800090) {                     // long multiplies
        int lo = (in >> 12) & 15, hi = (in >> 16) & 15; u32 a = r[in & 15], b = r[(in >> 8) & 15];
        u64 v = in & (1 << 22) ? (u64) ((int64_t) (int32_t) a * (int32_t) b) : (u64) a * b;
        if (in & (1 << 21)) v += ((u64) r[hi] << 32) | r[lo];
        r[lo] = (u32) v; r[hi] = v >> 32;
        if (in & (1 << 20)) { N = v >> 63; Z = !v; }
        pc = next; continue;
      }
      if ((in & 0x0e000090) == 0x00000090 && (in & 0x60)) {      // halfwords, signed bytes
        int rn = (in >> 16) & 15, rd = (in >> 12) & 15;
        u32 off = in & (1 << 22) ? ((in >> 4) & 0xf0) | (in & 15) : r[in & 15], b = reg(rn, pc);
        u32 a = in & (1 << 23) ? b + off : b - off, ad = in & (1 << 24) ? a : b;
        u32 k = (in >> 5) & 3, v = 0; bool load = in & (1 << 20);
        if (load) v = k == 1 ? ldh(ad) : k == 2 ? (u32) (int32_t) (int8_t) ldb(ad) : (u32) (int32_t) (int16_t) ldh(ad);
        else if (k == 1) sh(ad, reg(rd, pc, 12)); else throw Fault{"undefined"};
        if (!(in & (1 << 24)) || (in & (1 << 21))) r[rn] = a;
        if (load) { if (rd == 15) throw Fault{"undefined"}; r[rd] = v; }
        pc = next; continue;
      }
      if ((in & 0x0c000000) == 0) {
        u32 op = (in >> 21) & 15; bool s = in & (1 << 20), c;
        if (!s && op >= 8 && op <= 11) throw Fault{"undefined"};
        bool rs = !(in & (1 << 25)) && (in & 16);
        u32 b = shifter(in, pc, c), a = reg((in >> 16) & 15, pc, rs ? 12 : 8), x = 0; int rd = (in >> 12) & 15;
        bool logic = false, wr = true;
        switch (op) {
          case 0: x = a & b; logic = true; break;
          case 1: x = a ^ b; logic = true; break;
          case 2: x = add(a, ~b, 1, s); break;
          case 3: x = add(b, ~a, 1, s); break;
          case 4: x = add(a, b, 0, s); break;
          case 5: x = add(a, b, C, s); break;
          case 6: x = add(a, ~b, C, s); break;
          case 7: x = add(b, ~a, C, s); break;
          case 8: x = a & b; logic = true; wr = false; break;
          case 9: x = a ^ b; logic = true; wr = false; break;
          case 10: x = add(a, ~b, 1, s); wr = false; break;
          case 11: x = add(a, b, 0, s); wr = false; break;
          case 12: x = a | b; logic = true; break;
          case 13: x = b; logic = true; break;
          case 14: x = a & ~b; logic = true; break;
          default: x = ~b; logic = true; break;
        }
        if (s) { N = x >> 31; Z = !x; if (logic) C = c; }
        if (wr) { if (rd == 15) next = x & ~3u; else r[rd] = x; }
        pc = next; continue;
      }
      if ((in & 0x0c000000) == 0x04000000) {
        int rn = (in >> 16) & 15, rd = (in >> 12) & 15; u32 off; bool c;
        if (in & (1 << 25)) { if (in & 16) throw Fault{"undefined"}; off = shifter(in & ~(1u << 25), pc, c); } else off = in & 0xfff;
        u32 b = reg(rn, pc), a = in & (1 << 23) ? b + off : b - off, ad = in & (1 << 24) ? a : b, v = 0;
        bool load = in & (1 << 20), byte = in & (1 << 22);
        if (load) v = byte ? ldb(ad) : ld(ad);
        else if (byte) sb(ad, reg(rd, pc, 12)); else sw(ad, reg(rd, pc, 12));
        if (!(in & (1 << 24)) || (in & (1 << 21))) { if (rn == 15) throw Fault{"undefined"}; r[rn] = a; }
        if (load) { if (rd == 15) next = v & ~3u; else r[rd] = v; }
        pc = next; continue;
      }
      if ((in & 0x0e000000) == 0x08000000) {
        int rn = (in >> 16) & 15; u32 list = in & 0xffff; int k = __builtin_popcount(list);
        u32 b = r[rn], a, end; bool up = in & (1 << 23), pre = in & (1 << 24), load = in & (1 << 20);
        if (in & (1 << 22)) throw Fault{"undefined"};
        if (up) { a = pre ? b + 4 : b; end = b + 4 * k; } else { a = pre ? b - 4 * k : b - 4 * k + 4; end = b - 4 * k; }
        bool wbk = in & (1 << 21);
        if (wbk && load) r[rn] = end;
        for (int i = 0; i < 16; i++) if (list >> i & 1) {
          if (load) { u32 v = ld(a); if (i == 15) next = v & ~3u; else r[i] = v; }
          else sw(a, reg(i, pc, 12));
          a += 4;
        }
        if (wbk && !load) r[rn] = end;
        pc = next; continue;
      }
      throw Fault{"undefined"};
    }
  }
};
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  if (!f || argc < 4) return 2;
  unsigned x;
  while (fscanf(f, "%x", &x) == 1) image.push_back(x);
  fclose(f);
  stackw = atoi(argv[2]);
  u64 limit = strtoull(argv[3], 0, 10);
  for (;;) {
    Cpu c;
    c.ram = image; c.g.resize(64); c.e.resize(64); c.o.assign(64, 0); c.st.assign(stackw, 0xdeadbeef);
    memset(c.r, 0x5a, sizeof c.r); c.N = c.Z = c.C = c.V = false; c.low = 0; c.n = 0;
    for (int i = 0; i < 64; i++) { if (scanf("%x", &x) != 1) return 0; c.g[i] = x; }
    for (int i = 0; i < 64; i++) { if (scanf("%x", &x) != 1) return 1; c.e[i] = x; }
    try {
      c.run(limit);
      for (int i = 0; i < 64; i++) printf("%x ", c.o[i]);
      printf("; %llu %u\n", (unsigned long long) c.n, c.low);
    } catch (Fault &q) { printf("fault %s pc=%x n=%llu\n", q.s.c_str(), c.r[15], (unsigned long long) c.n); }
  }
}
