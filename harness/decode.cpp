#include "img.h"
// What a file says its pixels are, worked out from the bytes of the file by decoders of our own, against what the library loads.
struct B { ILubyte *p; int n;
  void b(int v) { p[n++] = (ILubyte)v; } void l2(int v) { b(v); b(v >> 8); } void l4(unsigned v) { l2(v); l2(v >> 16); } void m2(int v) { b(v >> 8); b(v); } void m4(unsigned v) { m2(v >> 16); m2(v); }
  void z(int k) { while (k--) b(0); } void s(const char *t) { while (*t) b(*t++); } void seq(int k, int a, int st) { for (int i = 0; i < k; i++) b(a + i * st); } void at4(int o, unsigned v) { int k = n; n = o; l4(v); n = k; } };
static ILubyte vbuf[8192];
#include "tmpl.h"
typedef const ILubyte *P;
static P F; static int V, len; static bool broken;
// The colour a pixel has: c[0..3] = r g b a, each N/D within T; bits: 8, 16 or 32 (bit pattern of a float); low: bits at the bottom that the format leaves open
struct Want { long n[4]; int d[4], t[4], low[4]; int bits, idx; bool alpha, rgb, any, kept; };
static Want W;
static int l2(P p) { return p[0] | p[1] << 8; } static unsigned l4(P p) { return l2(p) | (unsigned)l2(p + 2) << 16; } static int m2(P p) { return p[0] << 8 | p[1]; } static unsigned m4(P p) { return (unsigned)m2(p) << 16 | m2(p + 2); }
static void put(int c, long n, int d = 1, int t = 0, int low = 0) { W.n[c] = n; W.d[c] = d; W.t[c] = t; W.low[c] = low; }
static void rgb(long r, long g, long b) { put(0, r); put(1, g); put(2, b); } static void grey(long v) { rgb(v, v, v); } static void alpha(long a) { put(3, a); W.alpha = true; } static void bgr(P p) { rgb(p[2], p[1], p[0]); }
static void p555(int v) { put(0, (v >> 10 & 31) << 3, 1, 0, 3); put(1, (v >> 5 & 31) << 3, 1, 0, 3); put(2, (v & 31) << 3, 1, 0, 3); }
static void p565(int v) { put(0, (v >> 11 & 31) << 3, 1, 0, 3); put(1, (v >> 5 & 63) << 2, 1, 0, 2); put(2, (v & 31) << 3, 1, 0, 3); }
static int ex(int v, int n) { int k = v << (8 - n); for (; n < 8; n *= 2) k |= k >> n; return k; }
// ---- TGA
static void tga(int x, int y) {
  int idl = F[0], it = F[2], bp = F[16], cmb = F[7], w = l2(F + 12), h = l2(F + 14); int row = F[17] & 0x20 ? y : h - 1 - y, k = row * w + x, pb = (bp + 1) / 8; P pal = F + 18 + idl, d = pal + l2(F + 5) * ((cmb + 7) / 8), e = F + len;
  P q; if (it > 8) { for (;;) { if (d >= e) { W.any = true; return; } int n = (*d & 127) + 1; bool run = *d >> 7; d++; if (k < n) { q = run ? d : d + k * pb; break; } d += run ? pb : n * pb; k -= n; } } else q = d + k * pb;
  if (q + pb > e) { W.any = true; return; }
  if (cmb) { int i = *q; if (i >= l2(F + 5)) { W.any = true; return; } if (cmb == 16) p555(l2(pal + i * 2)); else { bgr(pal + i * (cmb / 8)); if (cmb == 32) alpha(pal[i * 4 + 3]); } }
  else if (bp == 8) grey(*q); else if (bp <= 16) p555(l2(q)); else { bgr(q); if (bp == 32) alpha(q[3]); }
}
// ---- BMP
static void bmp(int x, int y) {
  int off = l4(F + 10), hs = l4(F + 14), os2 = hs == 12, w = os2 ? l2(F + 18) : l4(F + 18), h = os2 ? l2(F + 20) : (int)l4(F + 22), bp = os2 ? l2(F + 24) : l2(F + 28), cp = os2 ? 0 : l4(F + 30); P pal = F + 14 + hs, d = F + off, e = F + len; int row = h < 0 ? y : h - 1 - y, es = os2 ? 3 : 4; if (h < 0) h = -h;
  int i = -1;
  if (cp == 1 || cp == 2) { int cx = 0, cy = 0; i = 0; bool set = false;
    while (d + 1 < e) { int c = d[0], v = d[1]; d += 2;
      if (c) { for (int k = 0; k < c; k++) { int p = cp == 1 ? v : k & 1 ? v & 15 : v >> 4; if (cx == x && cy == row) { i = p; set = true; } cx++; } if (cx > w) { W.any = true; return; } }
      else if (v == 0) { cx = 0; cy++; } else if (v == 1) break; else if (v == 2) { if (d + 1 >= e) break; cx += d[0]; cy += d[1]; d += 2; } else { int by = cp == 1 ? v : (v + 1) / 2; if (d + by > e) { W.any = true; return; } for (int k = 0; k < v; k++) { int p = cp == 1 ? d[k] : k & 1 ? d[k / 2] & 15 : d[k / 2] >> 4; if (cx == x && cy == row) { i = p; set = true; } cx++; } if (cx > w) { W.any = true; return; } d += by + (by & 1); } }
    if (!set) { W.any = true; return; } }
  else { P r = d + row * ((w * bp + 31) / 32 * 4); if (bp == 8) i = r[x]; else if (bp == 4) i = x & 1 ? r[x / 2] & 15 : r[x / 2] >> 4; else if (bp == 1) i = r[x / 8] >> (7 - x % 8) & 1; else if (bp == 24) bgr(r + x * 3); else if (bp == 16) { if (V == 19) { int v = l2(r + x * 2); put(0, (v >> 8 & 15) << 4, 1, 0, 4); put(1, (v >> 4 & 15) << 4, 1, 0, 4); put(2, (v & 15) << 4, 1, 0, 4); } else if (cp == 3 && V != 15) p565(l2(r + x * 2)); else p555(l2(r + x * 2)); } else if (V == 14) rgb(r[x * 4], r[x * 4 + 1], r[x * 4 + 2]); else bgr(r + x * 4); }
  if (i >= 0) { int cols = os2 || !l4(F + 46) ? 1 << bp : l4(F + 46); if (i >= cols) { W.any = true; return; } bgr(pal + i * es); }
}
// ---- PCX
static void pcx(P G, P e, int x, int y) {
  int bp = G[3], pl = G[65], bps = l2(G + 66); P d = G + 128; static ILubyte line[64], cur[64]; int n = bps * pl, ht = l2(G + 10) - l2(G + 6) + 1;
  for (int r = 0; r < ht; r++) { for (int k = 0; k < n;) { if (d >= e) { W.any = true; return; } int c = *d++; if (c >= 0xC0) { int m = c & 63; if (d >= e || k + m > n) { W.any = true; return; } c = *d++; while (m--) cur[k++] = c; } else cur[k++] = c; } if (r == y) memcpy(line, cur, n); }
  if (d != e - (V == 0 ? 769 : 0) && V <= 5) { W.any = true; return; }
  if (bp == 1) { int i = 0; for (int p = 0; p < pl; p++) i |= (line[p * bps + x / 8] >> (7 - x % 8) & 1) << p; if (pl == 1) grey(i ? 255 : 0); else { P c = G + 16 + i * 3; rgb(c[0], c[1], c[2]); } return; }
  if (pl == 1) { if (V == 5) { grey(line[x]); return; } P pal = e - 768; rgb(pal[line[x] * 3], pal[line[x] * 3 + 1], pal[line[x] * 3 + 2]); return; }
  rgb(line[x], line[bps + x], line[2 * bps + x]); if (pl == 4) alpha(line[3 * bps + x]);
}
static void cut(int x, int y) {
  P d = F + 6, e = F + len; for (int r = 0;; r++) { if (d + 2 > e) { W.any = true; return; } d += 2; int cx = 0; bool got = false; int v = 0; for (;;) { if (d >= e) { if (cx != l2(F)) { W.any = true; return; } break; } int c = *d++; if (c == 0) break; int n = c & 127; bool run = c >> 7; for (int k = 0; k < n; k++) { if (d + (run ? 0 : k) >= e) { W.any = true; return; } if (cx == x) { v = run ? d[0] : d[k]; got = true; } cx++; } d += run ? 1 : n; } if (cx != l2(F)) { W.any = true; return; } if (r == y) { if (!got) W.any = true; else grey(v); return; } }
}
static void sgi(int x, int y) {
  int bc = F[3], w = m2(F + 6), h = m2(F + 8), ch = m2(F + 10), row = h - 1 - y; if (bc == 2) W.bits = 16; P e = F + len;
  for (int c = 0; c < ch; c++) { long v = 0;
    if (!F[2]) { P q = F + 512 + ((c * h + row) * w + x) * bc; v = bc == 1 ? q[0] : m2(q); }
    else { P t = F + 512 + (c * h + row) * 4; P d = F + (m2(t) << 16 | m2(t + 2)); int cx = 0; bool got = false; while (!got) { if (d + bc > e) { W.any = true; return; } int k = bc == 1 ? d[0] : m2(d); d += bc; int n = k & 127; if (!n) { W.any = true; return; } bool lit = k & 128; if (x < cx + n) { P q = lit ? d + (x - cx) * bc : d; if (q + bc > e) { W.any = true; return; } v = bc == 1 ? q[0] : m2(q); got = true; } cx += n; if (cx > w) { W.any = true; return; } d += lit ? n * bc : bc; } }
    if (ch == 1) grey(v); else if (c < 3) put(c, v); else alpha(v); }
}
static void pnm(int x, int y) {
  int k = F[1] - '0', at = 2, num[4], nn = k == 1 || k == 4 ? 2 : 3; if (k == 7) { static const short hd[2] = {60, 0}; int d = V == 8 ? 3 : 2, bc = V == 8 ? 1 : 2; P q = F + len - (V == 8 ? 6 : 4) + (y + x) * d * bc; (void)hd; W.bits = bc * 8; if (d == 3) rgb(q[0], q[1], q[2]); else { grey(m2(q)); alpha(m2(q + 2)); } return; }
  auto skip = [&]() { for (;;) { if (F[at] == '#') while (F[at] != '\n') at++; else if (F[at] == ' ' || F[at] == '\n' || F[at] == '\t' || F[at] == '\r') at++; else break; } };
  for (int i = 0; i < nn; i++) { skip(); int v = 0; while (F[at] >= '0' && F[at] <= '9') v = v * 10 + F[at++] - '0'; num[i] = v; }
  int w = num[0], mx = nn == 3 ? num[2] : 1, ch = k == 3 || k == 6 ? 3 : 1; if (mx > 255) W.bits = 16; long s[3];
  if (k >= 4) { at++; int bc = mx > 255 ? 2 : 1; if (k == 4) { int bit = F[at + y * ((w + 7) / 8) + x / 8] >> (7 - x % 8) & 1; grey(bit ? 0 : 255); return; } for (int c = 0; c < ch; c++) { P q = F + at + ((y * w + x) * ch + c) * bc; s[c] = bc == 1 ? q[0] : m2(q); } }
  else for (int i = 0; i < (y * w + x + 1) * ch; i++) { skip(); long v = 0; if (k == 1) { v = F[at++] == '1' ? 0 : 255; } else while (at < len && F[at] >= '0' && F[at] <= '9') v = v * 10 + F[at++] - '0'; s[i % ch] = v; }
  for (int i = 0; i < ch; i++) if (s[i] > mx && k != 1) { W.any = true; return; }
  if (ch == 1) grey(s[0]); else rgb(s[0], s[1], s[2]);
}
// ---- GIF: every picture over those before it
static short gidx[64]; static bool gbad;      // the codes of a picture, decoded
static void lzw(P &d, int n) {
  P e = F + len; int mcs = *d++, size = mcs + 1, clear = 1 << mcs, next = clear + 2, prev = -1, out = 0; static ILubyte suf[256], st[256]; static short pre[256]; unsigned acc = 0; int nb = 0, left = 0; bool fresh = true; gbad = false;
  for (int i = 0; i < 64; i++) gidx[i] = -1;
  for (;;) { while (nb < size) { if (!left) { if (d >= e) { gbad = true; return; } left = *d++; if (!left) { gbad = out < n; return; } } if (d >= e) { gbad = true; return; } acc |= (unsigned)*d++ << nb; left--; nb += 8; }
    int c = acc & ((1 << size) - 1); acc >>= size; nb -= size; c = (int)vp_concretize(c); if (fresh && c != clear) { gbad = true; return; } fresh = false; // (the standard has them begin with a clear code)
    if (c == clear) { size = mcs + 1; next = clear + 2; prev = -1; continue; } if (c == clear + 1) { gbad = out < n; break; }
    if (prev < 0) { if (c >= clear) { gbad = true; return; } if (out < n) gidx[out] = c; out++; prev = c; continue; }
    if (c > next || next >= 250) { gbad = true; return; } int k = c == next ? prev : c, sp = 0; while (k > clear + 1) { st[sp++] = suf[k]; k = pre[k]; } st[sp++] = k; int first = k;
    while (sp) { int v = st[--sp]; if (out < n) gidx[out] = v; out++; } if (c == next) { if (out < n) gidx[out] = first; out++; }
    pre[next] = prev; suf[next] = first; next++; if (next == 1 << size && size < 12) size++; prev = c; if (out >= n) { break; } }
  d += left; while (d < e && *d) d += *d + 1; if (d < e) d++;
}
static void gif(int img, int x, int y) {
  P d = F + 13, gp = d; if (F[10] & 0x80) d += 3 << ((F[10] & 7) + 1); int tr = -1, disp = 0, at = 0, idx = -1, now = -1; bool seen = false, vis = false; P col = 0;
  for (int f = 0; f <= img;) { if (*d == 0x21) { if (d[1] == 0xF9) { tr = d[3] & 1 ? d[6] : -1; disp = d[3] >> 2 & 7; d += 8; } else { d += 2; while (*d) d += *d + 1; d++; } continue; }
    if (*d != 0x2C) { W.any = true; return; } int ox = l2(d + 1), oy = l2(d + 3), w = l2(d + 5), h = l2(d + 7), fl = d[9]; d += 10; P pal = gp; int cols = 2 << (F[10] & 7); if (fl & 0x80) { pal = d; cols = 2 << (fl & 7); d += 3 * cols; }
    lzw(d, w * h); if (gbad) { W.any = true; return; } if (f && disp >= 2) { seen = false; vis = false; }
    if (x >= ox && x < ox + w && y >= oy && y < oy + h) { int r = y - oy; if (fl & 0x40) { int k = 0, at = 0; for (int ps = 0; ps < 4; ps++) { static const ILubyte st[4] = {0, 4, 2, 1}, stp[4] = {8, 8, 4, 2}; for (int q = st[ps]; q < h; q += stp[ps], k++) if (q == r) at = k; } r = at; }
      int i = gidx[r * w + x - ox]; if (i < 0 || i >= cols) { W.any = true; return; } if (i == tr) { if (!f || disp != 1) { seen = true; vis = false; at = f; } } else { seen = true; vis = true; col = pal + i * 3; at = f; idx = i; } } now = tr;
    tr = -1; disp = 0; f++; }
  if (!seen) { W.any = true; return; } W.kept = at < img && (!vis || idx == now); if (vis) { rgb(col[0], col[1], col[2]); alpha(255); } else { W.rgb = false; alpha(0); }
}
static void ico(int img, int x, int y) {
  P e = F + 6 + 16 * img, h = F + l4(e + 12); int w = l4(h + 4), ht = l4(h + 8) / 2, bp = l2(h + 14), cu = l4(h + 32), cols = bp > 8 ? 0 : bp == 8 ? 256 : cu ? cu : 1 << bp; P pal = h + 40, d = pal + cols * 4, an = d + (w * bp + 31) / 32 * 4 * ht; int r = ht - 1 - y; P q = d + r * ((w * bp + 31) / 32 * 4); int i = -1;
  if (bp == 1) i = q[x / 8] >> (7 - x % 8) & 1; else if (bp == 4) i = x & 1 ? q[x / 2] & 15 : q[x / 2] >> 4; else if (bp == 8) i = q[x]; if (i >= 0) { if (i >= cols) { W.any = true; return; } bgr(pal + i * 4); } else bgr(q + x * (bp / 8));
  if (bp == 32) alpha(q[x * 4 + 3]); else alpha(an[r * ((w + 31) / 32 * 4) + x / 8] >> (7 - x % 8) & 1 ? 0 : 255);
}
static long psdval(P d, int rle, int ch, int h, int w, int bc, int c, int x, int y) {
  if (!rle) { P q = d + ((c * h + y) * w + x) * bc; return bc == 1 ? q[0] : m2(q); }
  P q = d + ch * h * 2; int row = c * h + y; long v = 0;
  for (int i = 0; i < ch * h; i++) { P e = q + m2(d + i * 2); int cx = 0; while (q < e) { int n = (signed char)*q++; if (n == -128) continue; int m = n >= 0 ? n + 1 : 1 - n; if (q + (n >= 0 ? m : 1) > e || cx + m > w) { W.any = true; return 0; } if (i == row && x >= cx && x < cx + m) v = n >= 0 ? q[x - cx] : *q; cx += m; q += n >= 0 ? m : 1; } if (cx != w) { W.any = true; return 0; } }
  return v;
}
static void psd(int x, int y) {
  int ch = m2(F + 12), h = m2(F + 16), w = m2(F + 20), bc = m2(F + 22) / 8, md = m2(F + 24); P d = F + 26, pal = d + 4; d += 4 + (m2(d) << 16 | m2(d + 2)); d += 4 + m2(d + 2); d += 4 + m2(d + 2); int rle = m2(d); d += 2; if (bc == 2) W.bits = 16; long c[5]; for (int i = 0; i < ch && i < 5; i++) c[i] = psdval(d, rle, ch, h, w, bc, i, x, y); if (W.any) return;
  if (md == 1) grey(c[0]); else if (md == 2) { int n = m2(F + 28) / 3; if (c[0] >= n) { W.any = true; return; } rgb(pal[c[0]], pal[n + c[0]], pal[2 * n + c[0]]); } else if (md == 3) { rgb(c[0], c[1], c[2]); if (ch == 4) alpha(c[3]); }
  else { for (int i = 0; i < 3; i++) put(i, c[i] * c[3], bc == 1 ? 255 : 65535, 2); if (ch == 5) alpha(c[4]); }
}
// ---- DDS
static void dxtcol(P b, int k, bool one, long o[3], int &den, bool &clear) {
  int c0 = l2(b), c1 = l2(b + 2), i = b[4 + k / 4] >> (k % 4 * 2) & 3; int a[3] = {ex(c0 >> 11, 5), ex(c0 >> 5 & 63, 6), ex(c0 & 31, 5)}, d[3] = {ex(c1 >> 11, 5), ex(c1 >> 5 & 63, 6), ex(c1 & 31, 5)}; clear = false; bool four = !one || c0 > c1;
  den = four ? 3 : 2; int wa = four ? (i == 0 ? 3 : i == 1 ? 0 : i == 2 ? 2 : 1) : (i == 0 ? 2 : i == 1 ? 0 : 1); if (!four && i == 3) clear = true; for (int c = 0; c < 3; c++) o[c] = a[c] * wa + d[c] * (den - wa);
}
static void dxtval(P b, int k, long &n, int &den) { // eight-value blocks: alpha of DXT5, ATI1, ATI2
  int a0 = b[0], a1 = b[1], bit = k * 3, i = (b[2 + bit / 8] | (bit / 8 < 5 ? b[3 + bit / 8] << 8 : 0)) >> (bit % 8) & 7; bool eight = a0 > a1; den = eight ? 7 : 5;
  if (i == 0) n = (long)a0 * den; else if (i == 1) n = (long)a1 * den; else if (!eight && i >= 6) n = i == 6 ? 0 : 255L * den; else n = (long)a0 * (den + 1 - i) + (long)a1 * (i - 1);
}
static uint32_t half2(int h) { uint32_t s = (uint32_t)(h >> 15) << 31; int e = h >> 10 & 31, m = h & 1023; if (e == 31) return s | 0x7F800000u | (uint32_t)m << 13; if (e) return s | (uint32_t)(e + 112) << 23 | (uint32_t)m << 13; if (!m) return s; int k = 0; while (!(m & 1024)) { m <<= 1; k++; } return s | (uint32_t)(113 - k) << 23 | (uint32_t)(m & 1023) << 13; }
static int premul; // DXT2 and DXT4
static void dds(int face, int mip, int z, int x, int y) {
  static const ILubyte bsz[8] = {8, 16, 16, 16, 16, 8, 16, 16}; static const ILubyte fl[7] = {2, 4, 8, 4, 8, 16, 8}; int w = l4(F + 16), h = l4(F + 12), dep = l4(F + 24), mips = l4(F + 28); if (!dep) dep = 1; if (!mips) mips = 1; int t = V == 26 || V == 29 ? 0 : V == 32 ? 18 : V; int px = t >= 17 && t < 24 ? fl[t - 17] : l4(F + 88) / 8; P d = F + (V == 24 || V == 25 ? 148 : 128); if (V == 24 || V == 25) px = 4;
  auto size = [&](int m) { int a = w >> m, b = h >> m, c = dep >> m; if (!a) a = 1; if (!b) b = 1; if (!c) c = 1; return (t < 8 ? (a + 3) / 4 * ((b + 3) / 4) * bsz[t] : a * b * px) * c; };
  for (int f = 0; f < face; f++) for (int m = 0; m < mips; m++) d += size(m); for (int m = 0; m < mip; m++) d += size(m);
  int a = w >> mip, b = h >> mip; if (!a) a = 1; if (!b) b = 1; long o[3]; int den; bool clear;
  if (t < 8) { d += (z * ((b + 3) / 4) * ((a + 3) / 4) + y / 4 * ((a + 3) / 4) + x / 4) * bsz[t]; int k = y % 4 * 4 + x % 4; long n;
    if (t == 0) { dxtcol(d, k, true, o, den, clear); if (clear) W.rgb = false; for (int c = 0; c < 3; c++) put(c, o[c], den, 1); alpha(clear ? 0 : 255); }
    else if (t == 5) { dxtval(d, k, n, den); for (int c = 0; c < 3; c++) put(c, n, den, 1); }
    else if (t == 6) { dxtval(d, k, n, den); put(1, n, den, 1); dxtval(d + 8, k, n, den); put(0, n, den, 1); put(2, 0, 1, 255); }
    else { dxtcol(d + 8, k, false, o, den, clear); for (int c = 0; c < 3; c++) put(c, o[c], den, 1); if (t == 7) { dxtval(d, k, n, den); put(0, n, den, 1); } else if (t <= 2) { alpha((d[k / 2] >> (k % 2 * 4) & 15) * 17); } else { dxtval(d, k, n, den); alpha(0); put(3, n, den, 1); } premul = t == 1 || t == 3; }
    return; }
  if (V == 25) { P q = d + y * 12 + x * 4; bgr(q); alpha(q[3]); return; }
  P q = d + ((z * b + y) * a + x) * px;
  if (V == 24) { rgb(q[0], q[1], q[2]); alpha(q[3]); return; }
  if (t == 23) { W.bits = 16; rgb(l2(q), l2(q + 2), l2(q + 4)); alpha(l2(q + 6)); return; }
  if (t >= 17) if (t < 23) { W.bits = 32; long one = 0x3F800000; if (t == 17) rgb(half2(l2(q)), one, one); else if (t == 18) rgb(half2(l2(q)), half2(l2(q + 2)), one); else if (t == 19) { rgb(half2(l2(q)), half2(l2(q + 2)), half2(l2(q + 4))); alpha(half2(l2(q + 6))); } else if (t == 20) rgb(l4(q), one, one); else if (t == 21) rgb(l4(q), l4(q + 4), one); else { rgb(l4(q), l4(q + 4), l4(q + 8)); alpha(l4(q + 12)); } return; }
  unsigned v = 0; for (int i = 0; i < px; i++) v |= (unsigned)q[i] << (8 * i);
  if (V == 15) { W.bits = 16; grey(v); return; } if (V == 14) { grey(v); return; } if (V == 16) { grey(v & 255); alpha(v >> 8); return; }
  if (V == 13 || V == 34) { W.bits = 16; int lo = v & 1023, hi = v >> 20 & 1023; put(V == 13 ? 2 : 0, (long)lo << 6, 1, 0, 6); /* as D3DX writes the masks: red and blue exchanged */ put(1, (long)(v >> 10 & 1023) << 6, 1, 0, 6); put(V == 13 ? 0 : 2, (long)hi << 6, 1, 0, 6); alpha((long)(v >> 30) * 0x5555); return; }
  if (V == 33) { rgb(v & 255, v & 255, v & 255); return; }
  if (V == 10) { rgb(ex(v >> 11, 5), ex(v >> 5 & 63, 6), ex(v & 31, 5)); return; } if (V == 11 || V == 31) { rgb(ex(v >> 10 & 31, 5), ex(v >> 5 & 31, 5), ex(v & 31, 5)); alpha(v >> 15 ? 255 : 0); return; } if (V == 12) { rgb((v >> 8 & 15) * 17, (v >> 4 & 15) * 17, (v & 15) * 17); alpha((v >> 12) * 17); return; }
  bgr(q); if (px == 4 && V != 33) alpha(q[3]);
}
// ---- the simpler formats
static void none() { W.any = true; }
static void sun(int x, int y) {
  int w = m4(F + 4), dp = m4(F + 12), ty = m4(F + 20), ml = m4(F + 28), row = (w * dp + 15) / 16 * 2; P map = F + 32, d = map + ml, e = F + len; int k = y * row + (dp == 1 ? x / 8 : x * dp / 8), n = dp < 16 ? 1 : dp / 8; ILubyte px[4] = {0, 0, 0, 0};
  if (ty != 2) for (int i = 0; i < n; i++) { if (d + k + i >= e) return none(); px[i] = d[k + i]; }
  else for (int at = 0, got = 0; got < n;) { if (d >= e) return none(); int v = *d++, c = 1; if (v == 0x80) { if (d >= e) return none(); c = *d++; if (c) { if (d >= e) return none(); v = *d++; } else v = 0x80; c++; } for (int i = 0; i < n; i++) if (at <= k + i && k + i < at + c) { px[i] = v; got = i + 1; } at += c; }
  if (dp == 1) { int b = px[0] >> (7 - x % 8) & 1; if (ml) rgb(map[b], map[2 + b], map[4 + b]); else grey(b ? 0 : 255); }      // a set bit is black where there is no map
  else if (dp == 8) { if (!m4(F + 24)) grey(px[0]); else { int c = ml / 3; if (px[0] >= c) return none(); rgb(map[px[0]], map[c + px[0]], map[2 * c + px[0]]); } }
  else { P q = dp == 32 ? px + 1 : px; if (ty == 3) rgb(q[0], q[1], q[2]); else bgr(q); }
}
static void wbmp(int x, int y) { P d = F + 2; int w = 0; do w = w << 7 | (*d & 127); while (*d++ & 0x80); while (*d++ & 0x80) {} grey(d[y * ((w + 7) / 8) + x / 8] >> (7 - x % 8) & 1 ? 255 : 0); }
static void pix(int x, int y) { int k = y * m2(F) + x, all = m2(F) * m2(F + 2); P d = F + 10, q = 0; for (; all > 0; d += 4) { if (d + 4 > F + len) return none(); if (d[0] > all) return none(); if (!q && k < d[0]) q = d + 1; if (!q) k -= d[0]; all -= d[0]; } bgr(q); }
static void pic(int x, int y) {
  int w = m2(F + 92), h = m2(F + 94), nc = 0; P d = F + 104, e = F + len, ch[4]; do { ch[nc++] = d; d += 4; } while (d[-4]); ILubyte px[4] = {0, 0, 0, 0};
  for (int r = 0; r < h; r++) for (int c = 0; c < nc; c++) { int to[4], n = 0, m = ch[c][3]; for (int i = 0; i < 4; i++) if (m >> (7 - i) & 1) to[n++] = i; if (m & 0x10) W.alpha = true;
    for (int at = 0; at < w;) { int k, rep = 0; if (ch[c][2] == 0) k = w; else { if (d >= e) return none(); k = *d++; if (ch[c][2] == 1) rep = 1; else if (k >= 128) { rep = 1; if (k == 128) { if (d + 2 > e) return none(); k = m2(d); d += 2; } else k -= 127; } else k++; }
      if (at + k > w) return none(); int by = (rep ? 1 : k) * n; if (d + by > e) return none(); if (r == y && at <= x && x < at + k) for (int i = 0; i < n; i++) px[to[i]] = d[(rep ? 0 : x - at) * n + i]; d += by; at += k; } }
  rgb(px[0], px[1], px[2]); if (W.alpha) alpha(px[3]);
}
static long rgbe(int m, int e) { if (e == 0) return 0; uint32_t b = (uint32_t)(e - 1) << 23; float s, v; memcpy(&s, &b, 4); v = m / 256.0f * s; memcpy(&b, &v, 4); return b; }
static void hdr(int x, int y) {
  P d = F, e = F + len; while (d[0] != '\n' || d[1] != '\n') d++; int h = d[5] - '0', w = 0; for (d += 10; *d != '\n'; d++) w = w * 10 + *d - '0'; d++; W.bits = 32; ILubyte px[4] = {0, 0, 0, 0}, last[4] = {0, 0, 0, 0};
  for (int r = 0; r < h; r++) { if (d + 4 > e) return none();
    if (d[0] == 2 && d[1] == 2) { if (m2(d + 2) != w) return none(); d += 4; for (int c = 0; c < 4; c++) for (int at = 0; at < w;) { if (d >= e) return none(); int k = *d++, rep = k > 128; if (rep) k -= 128; if (!k || at + k > w || d + (rep ? 1 : k) > e) return none(); if (r == y && at <= x && x < at + k) px[c] = d[rep ? 0 : x - at]; d += rep ? 1 : k; at += k; } }
    else for (int at = 0, sh = 0; at < w; d += 4) { if (d + 4 > e) return none(); int k = 1; if (d[0] == 1 && d[1] == 1 && d[2] == 1) { k = d[3] << sh; sh += 8; if (!at || at + k > w || sh > 16) return none(); } else { memcpy(last, d, 4); sh = 0; } if (r == y && at <= x && x < at + k) memcpy(px, last, 4); at += k; } }
  if (px[3] == 1) return none(); for (int c = 0; c < 3; c++) put(c, rgbe(px[c], px[3]), 1, 65536);
}
static void lif(int x, int y) { int w = l4(F + 16), h = l4(F + 20); P q = F + 44 + w * h + (F[44 + y * w + x] + 1 & 255) * 4; rgb(q[0], q[1], q[2]); alpha(q[3]); }
static void wal(int mip, int x, int y) { W.idx = F[l4(F + 40 + 4 * mip) + y * (l4(F + 32) >> mip) + x]; }
static void rawf(int z, int x, int y) { int w = l4(F), h = l4(F + 4), ch = F[12], bc = F[13]; P q = F + 14 + ((z * h + y) * w + x) * ch * bc; W.bits = bc * 8; long v[4]; for (int c = 0; c < ch; c++) v[c] = bc == 1 ? q[c] : bc == 2 ? l2(q + 2 * c) : (long)l4(q + 4 * c); if (ch < 3) grey(v[0]); else rgb(v[0], v[1], v[2]); if (ch == 2 || ch == 4) alpha(v[ch - 1]); }
static void pxr(int x, int y) { int n = F[424] == 8 ? 1 : F[424] == 14 ? 3 : 4; P q = F + 1024 + (y * l2(F + 418) + x) * n; if (n == 1) grey(*q); else rgb(q[0], q[1], q[2]); if (n == 4) alpha(q[3]); }
static void doom(int x, int y) { P d = F + l4(F + 8 + 4 * x), e = F + len; W.idx = 247; for (;;) { if (d >= e) return none(); int top = *d++; if (top == 255) return; if (d >= e) return none(); int n = *d; d += 2; if (d + n + 1 > e) return none(); if (top <= y && y < top + n) W.idx = d[y - top]; d += n + 1; } }
static void mdl(int img, int x, int y) { P t = F + 192 + 80 * img; int w = l4(t + 68), h = l4(t + 72); P d = F + l4(t + 76), pal = d + w * h; int i = d[(h - 1 - y) * w + x]; rgb(pal[i * 3], pal[i * 3 + 1], pal[i * 3 + 2]); }
static void want(int type, int img, int mip, int face, int z, int x, int y) {
  memset(&W, 0, sizeof W); W.bits = 8; W.rgb = true; premul = 0; W.idx = -1; for (int c = 0; c < 4; c++) W.d[c] = 1;
  switch (type) { case IL_TGA: tga(x, y); break; case IL_BMP: bmp(x, y); break; case IL_PCX: pcx(F, F + len, x, y); break; case IL_DCX: { int o = l4(F + 4 + 4 * img); int sv = V; if (V == 6) V = 1 + img; pcx(F + o, V == 1 && sv == 6 ? F + l4(F + 8) : F + len, x, y); V = sv; break; } case IL_CUT: cut(x, y); break; case IL_SGI: sgi(x, y); break; case IL_PNM: pnm(x, y); break; case IL_GIF: gif(img, x, y); break; case IL_ICO: ico(img, x, y); break; case IL_PSD: psd(x, y); break; case IL_DDS: dds(face, mip, z, x, y); break;
    case IL_SUN: sun(x, y); break; case IL_WBMP: wbmp(x, y); break; case IL_PIX: pix(x, y); break; case IL_PIC: pic(x, y); break; case IL_HDR: hdr(x, y); break; case IL_LIF: lif(x, y); break; case IL_WAL: wal(mip, x, y); break; case IL_FTX: { P q = F + 12 + (y * l4(F) + x) * 4; rgb(q[0], q[1], q[2]); alpha(q[3]); break; } case IL_PXR: pxr(x, y); break; case IL_RAW: rawf(z, x, y); break; case IL_DOOM: doom(x, y); break; case IL_DOOM_FLAT: W.idx = F[y * 64 + x]; break; case IL_MDL: mdl(img, x, y); break; case IL_TEXTURE: F += 48; dds(face, mip, z, x, y); F -= 48; break; }
}
static long chan(const ILubyte *p, int i, int bits) { return bits == 8 ? p[i] : bits == 16 ? l2(p + 2 * i) : (long)l4(p + 4 * i); }
static void compare(int type, int img, int mip, int face, int only) {
  int w = ilGetInteger(IL_IMAGE_WIDTH), h = ilGetInteger(IL_IMAGE_HEIGHT), dep = ilGetInteger(IL_IMAGE_DEPTH), f = ilGetInteger(IL_IMAGE_FORMAT), t = ilGetInteger(IL_IMAGE_TYPE), pt = ilGetInteger(IL_PALETTE_TYPE), pb = f == IL_COLOUR_INDEX ? vhPalBpp(pt) : 0, bpp = vhChan(f), bits = vhBpc(t) * 8; ILubyte *d = ilGetData(), *pal = f == IL_COLOUR_INDEX ? ilGetPalette() : 0; bool up = ilGetInteger(IL_IMAGE_ORIGIN) == IL_ORIGIN_UPPER_LEFT; long max = bits == 8 ? 255 : bits == 16 ? 65535 : 0x3F800000;
  int org = vp_param("org", 0), fm = vp_param("fm", 0); vp_assert(!org || ilGetInteger(IL_IMAGE_ORIGIN) == org, "pictures are loaded with the origin asked for"); vp_assert(!fm || f == fm, "pictures are loaded in the format asked for"); vp_assert(!vp_param("cp", 0) || f != IL_COLOUR_INDEX, "palettes are converted where that is asked for");
  for (int z = 0; z < dep; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int k = (z * h + y) * w + x; if (only >= 0 && k != only) continue; want(type, img, mip, face, z, x, y); if (W.any) { broken = true; vp_assert(vp_param("ok", 1) == 0 || !vp_param("full", 0), "(the example is complete)"); continue; }
    const ILubyte *p = d + ((size_t)(z * h + (up ? y : h - 1 - y)) * w + x) * bpp * (bits / 8); long got[4];
    if (f == IL_COLOUR_INDEX) { unsigned i = *p; vp_assert(i < (unsigned)ilGetInteger(IL_PALETTE_NUM_COLS), "the pixels are within the palette"); const ILubyte *q = pal + i * pb; for (int c = 0; c < 3; c++) got[c] = palc(pt, q, c); got[3] = pt == IL_PAL_RGBA32 || pt == IL_PAL_BGRA32 ? q[3] : max; }
    else { for (int c = 0; c < 3; c++) got[c] = chan(p, vhColAt(f, c), bits); int aa = vhAlphaAt(f); got[3] = aa >= 0 ? chan(p, aa, bits) : max; }
    if (W.idx >= 0) { if (!fm && !vp_param("cp", 0)) vp_assert(f == IL_COLOUR_INDEX && ilGetInteger(IL_PALETTE_NUM_COLS) == 256 && *p == W.idx, "the pixels are those of the file"); continue; }
    vp_assert(W.bits == bits, "the pixels have the depth of the file");
    if (premul) { long a = got[3]; vp_assert(a * W.d[3] - W.n[3] <= W.d[3] && W.n[3] - a * W.d[3] <= W.d[3], "the pixels are those of the file"); if (a) for (int c = 0; c < 3; c++) { long l = got[c] * a * W.d[c], r = 255 * W.n[c]; vp_assert((got[c] == 255 && W.n[c] + W.d[c] >= a * W.d[c]) || (l - r <= W.d[c] * (255 + a) && r - l <= W.d[c] * (255 + a)), "the pixels are those of the file"); } continue; }
    bool aa = f == IL_COLOUR_INDEX ? pt == IL_PAL_RGBA32 || pt == IL_PAL_BGRA32 : vhAlphaAt(f) >= 0; for (int c = W.rgb ? 0 : 3; c < (W.alpha && (aa || !(fm || vp_param("cp", 0))) ? 4 : 3); c++) { long g = W.low[c] ? got[c] >> W.low[c] << W.low[c] : got[c], df = g * W.d[c] - W.n[c]; long tt = (long)W.t[c] * W.d[c]; if (W.kept) vp_assert(df <= tt && -df <= tt, "pixels kept from the picture before stay as they were"); else vp_assert(df <= tt && -df <= tt, "the pixels are those of the file"); } }
}
H(h_decode) {
  vhInit(); int type = vp_param("type", IL_TGA); V = vp_param("var", 0); len = tmpl(type, V); ILubyte *f = (ILubyte*)malloc(len); memcpy(f, vbuf, len); F = f;
  for (int i = 0; i < 4; i++) { static const char *const po[4] = {"p0", "p1", "p2", "p3"}, *const pv[4] = {"v0", "v1", "v2", "v3"}; int k = vp_param(po[i], -1); if (k >= 0 && k < len) f[k] = (ILubyte)vp_param(pv[i], 0); }
  int a = vp_param("a", 0), b = vp_param("b", 0), c = vp_param("c", 0), d = vp_param("d", 0); if (b > len) b = len; if (d > len) d = len; if (a < b) vp_symbolic(f + a, b - a, "a"); if (c < d) vp_symbolic(f + c, d - c, "c");
  if (vp_param("dig", 0)) for (int i = a; i < b; i++) vp_assume(f[i] >= '0' && f[i] <= '9'); if (vp_param("sep", 0)) for (int i = a; i < b; i++) vp_assume(f[i] == ' ' || f[i] == '\t' || f[i] == '\n'); if (vp_param("bin", 0)) for (int i = a; i < b; i++) vp_assume(f[i] == '0' || f[i] == '1');
  if (vp_param("fast", 0)) ilHint(IL_MEM_SPEED_HINT, IL_FASTEST);
  int org = vp_param("org", 0), fm = vp_param("fm", 0), cp = vp_param("cp", 0); if (org) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(org); } if (fm) { ilEnable(IL_FORMAT_SET); ilFormatFunc(fm); } if (cp) ilEnable(IL_CONV_PAL);
  ILuint name = vhNew(); vhErr(); ILboolean ok = ilLoadL(type, f, len); if (!ok) { vp_assert(!vp_param("ok", 1), "the file can be loaded"); vp_reach("refused"); return; }
  int only = vp_param("only", -1), images = ilGetInteger(IL_NUM_IMAGES), faces = 0;
  for (int i = 0; i <= images; i++) { ilBindImage(name); if (i) vp_assert(ilActiveImage(i), "every picture can be reached"); if (vp_param("img", -1) < 0 || vp_param("img", -1) == i) compare(type, i, 0, 0, only); }
  if (type == IL_DDS) { ilBindImage(name); faces = ilGetInteger(IL_NUM_FACES); for (int fc = 0; fc <= faces; fc++) { ilBindImage(name); if (fc) vp_assert(ilActiveFace(fc), "every face can be reached"); int mips = ilGetInteger(IL_NUM_MIPMAPS); if (fc) compare(type, 0, 0, fc, only); for (int m = 1; m <= mips; m++) { ilBindImage(name); if (fc) ilActiveFace(fc); vp_assert(ilActiveMipmap(m), "every mipmap can be reached"); compare(type, 0, m, fc, only); } }
    static const ILubyte nf[3] = {5, 1, 0}, nm[36] = {[26] = 2, [27] = 1, [30] = 1, [31] = 1, [32] = 1}; ilBindImage(name); vp_assert(faces == nf[V == 29 ? 0 : V == 30 ? 1 : 2], "every face is loaded"); vp_assert(ilGetInteger(IL_NUM_MIPMAPS) == nm[V], "every mipmap is loaded"); }
  if (type == IL_WAL) { vp_assert(ilGetInteger(IL_NUM_MIPMAPS) == 3, "every mipmap is loaded"); for (int m = 1; m < 4; m++) { ilBindImage(name); vp_assert(ilActiveMipmap(m), "every mipmap can be reached"); compare(type, 0, m, 0, only); } } if (type == IL_MDL) vp_assert(images == 1, "every picture is loaded");
  static const ILubyte gf[6] = {0, 0, 1, 2, 0, 0}; ilBindImage(name); if (type == IL_GIF && vp_param("ok", 1)) vp_assert(images == gf[V], "every picture is loaded"); if (type == IL_ICO) vp_assert(images == (V == 5), "every picture is loaded"); if (type == IL_DCX) vp_assert(images == (V == 6), "every picture is loaded");
  vp_assert(vhErr() == IL_NO_ERROR || broken, "loading a sound file reports no error"); vp_reach("end");
}
