#include "img.h"
// Palette files and raw data files, held in memory and reached through the registered reading and writing functions.
static ILubyte wf[4000]; static int wlen, wpos, opens, closes, on, op, oopen, oclose; static long olimit; static ILubyte ob[4000];
static ILHANDLE ILAPIENTRY wopn(ILconst_string) { opens++; wpos = 0; return &wpos; }
static void ILAPIENTRY wcls(ILHANDLE) { closes++; }
static ILboolean ILAPIENTRY weof(ILHANDLE) { return wpos >= wlen; }
static ILint ILAPIENTRY wgt(ILHANDLE) { return wpos < wlen ? wf[wpos++] : -1; }
static ILint ILAPIENTRY wrd(void *p, ILuint s, ILuint n, ILHANDLE) { if (!s || !n) return 0; ILuint left = wlen - wpos, k = n > left / s ? left : n * s; for (ILuint i = 0; i < k; i++) ((ILubyte*)p)[i] = wf[wpos + i]; wpos += k; return k / s; }
static ILint ILAPIENTRY wsk(ILHANDLE, ILint o, ILint m) { long long q = (m == IL_SEEK_SET ? 0 : m == IL_SEEK_CUR ? wpos : wlen) + (long long)o; if (q < 0 || q > wlen) return 1; wpos = (int)q; return 0; }
static ILint ILAPIENTRY wtl(ILHANDLE) { return wpos; }
static ILHANDLE ILAPIENTRY oo(ILconst_string) { oopen++; on = op = 0; return &on; }
static void ILAPIENTRY oc(ILHANDLE) { oclose++; }
static ILint ILAPIENTRY opc(ILubyte c, ILHANDLE) { if (op >= olimit) return -1; ob[op++] = c; if (op > on) on = op; return c; }
static ILint ILAPIENTRY osk(ILHANDLE, ILint o, ILint m) { long long q = (m == IL_SEEK_SET ? 0 : m == IL_SEEK_CUR ? op : on) + (long long)o; if (q < 0 || q > (int)sizeof ob) return 1; op = (int)q; return 0; }
static ILint ILAPIENTRY otl(ILHANDLE) { return op; }
static ILint ILAPIENTRY owr(const void *p, ILuint s, ILuint n, ILHANDLE) { ILuint i; for (i = 0; i < n; i++) { if (op + (long)s > olimit) break; for (ILuint j = 0; j < s; j++) ob[op + j] = ((const ILubyte*)p)[i * s + j]; op += s; if (op > on) on = op; } return i; }
static void files(void) { ilSetRead(wopn, wcls, weof, wgt, wrd, wsk, wtl); ilSetWrite(oo, oc, opc, osk, otl, owr); ilEnable(IL_FILE_OVERWRITE); olimit = sizeof ob; if (vp_param("fast", 0)) ilHint(IL_MEM_SPEED_HINT, IL_FASTEST); }
static void put(const char *t) { while (*t) wf[wlen++] = *t++; }
static int dec(ILubyte *d, unsigned v) { int k = 0; if (v >= 100) d[k++] = '0' + v / 100; if (v >= 10) d[k++] = '0' + v / 10 % 10; d[k++] = '0' + v % 10; return k; }
static void number(unsigned v, const char *after) { wlen += dec(wf + wlen, v); put(after); }
enum { JASC, HALO, COL, COLH, ACT, PLT };
static const char *const NM[] = {"p.pal", "p.PAL", "d/p.col", "p.Col", "p.act", "a.b.plt"};
// A palette file of n colours whose values are pal, in one of the ways it may be written.
static void build(int kind, int n, const ILubyte *pal) {
  const char *nl = vp_param("crlf", 0) ? "\r\n" : "\n", *sp = vp_param("crlf", 0) ? "\t " : " "; wlen = 0;
  if (kind == JASC) { put("JASC-PAL"); put(nl); put("0100"); put(nl); number(n, nl); for (int i = 0; i < n; i++) { number(pal[i * 3], sp); number(pal[i * 3 + 1], sp); number(pal[i * 3 + 2], i == n - 1 && vp_param("cut", 0) ? "" : nl); } return; }
  if (kind == HALO) { static const ILubyte h[40] = {'A', 'H', 0xE3, 0, 0, 1, 10, 0}; memcpy(wf, h, 40); wf[12] = (ILubyte)(n - 1); wf[14] = wf[16] = wf[18] = 255; wlen = 40; for (int i = 0; i < n * 3; i++) { wf[wlen++] = pal[i]; wf[wlen++] = 0; } return; }
  if (kind == COLH) { static const ILubyte h[8] = {0x08, 0x03, 0, 0, 0x23, 0xB1, 0, 0}; memcpy(wf, h, 8); wlen = 8; }
  if (kind == PLT) { wf[0] = (ILubyte)(n * 3); wf[1] = (ILubyte)(n * 3 >> 8); wf[2] = wf[3] = 0; wlen = 4; }
  for (int i = 0; i < n * 3; i++) wf[wlen++] = pal[i];
}
static VImg m; static ILubyte *dat;
static void mk(void) { vhNew(); vhParamImg(m); vhMake(m, "pix", false); dat = (ILubyte*)malloc(m.n); memcpy(dat, m.pix, m.n); vhErr(); }
static void closed(void) { vp_assert(opens == closes && oopen == oclose, "every file that is opened is closed"); }
static void samePix(void) { vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == m.w && ilGetInteger(IL_IMAGE_HEIGHT) == m.h && ilGetInteger(IL_IMAGE_DEPTH) == m.d && ilGetInteger(IL_IMAGE_FORMAT) == m.f && ilGetInteger(IL_IMAGE_TYPE) == m.t && (ILenum)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "the picture keeps its shape"); vp_assert(vp_same(ilGetData(), dat, m.n), "the picture keeps its pixels"); }
static void samePal(void) { int n = ilGetInteger(IL_PALETTE_NUM_COLS); vp_assert(n == m.pn, "the palette keeps its size"); if (n) { vp_assert(ilGetInteger(IL_PALETTE_TYPE) == m.pt, "the palette keeps its type"); vp_assert(vp_same(ilGetPalette(), m.pal, (size_t)n * vhPalBpp(m.pt)), "the palette keeps its colours"); } }
static void isPal(const ILubyte *pal, int n) { vp_assert(ilGetInteger(IL_PALETTE_TYPE) == IL_PAL_RGB24 && ilGetInteger(IL_PALETTE_NUM_COLS) == n, "the palette has the colours of the file"); vp_assert(vp_same(ilGetPalette(), pal, (size_t)n * 3), "the colours are those of the file"); }
static void end(void) { closed(); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end"); }
// a palette is saved as text and loaded again
H(h_save) {
  vhInit(); files(); mk(); int at = vp_param("at", 0), full = vp_param("full", 0); m.pn = vp_param("cols", 3); int pb = m.pn * vhPalBpp(m.pt); m.pal = (ILubyte*)malloc(pb); for (int i = 0; i < pb; i++) m.pal[i] = (ILubyte)(i * 29 + 3); vp_symbolic(m.pal + at, 1, "colour"); ilRegisterPal(m.pal, pb, m.pt); vhErr();
  unsigned long live = vhLive; if (full) { uint16_t l; vp_symbolic(&l, 2, "limit"); vp_assume(l >= full - 1 && l < full + 20); olimit = (long)vp_concretize(l); }
  bool ok = ilSavePal(vp_param("up", 0) ? "p.PAL" : "p.pal") != 0; ILuint e = vhErr(); vp_assert(vhLive == live, "saving takes no memory"); samePix(); samePal(); closed(); vp_assert((e == IL_NO_ERROR) == ok, "a palette that is not saved is reported");
  static ILubyte pal[768]; memset(pal, 0, 768); for (int i = 0; i < m.pn; i++) for (int c = 0; c < 3; c++) pal[i * 3 + c] = palc(m.pt, m.pal + i * vhPalBpp(m.pt), c); build(JASC, 256, pal);
  if (full) { vp_assert(on <= olimit, "no byte is written past the end"); vp_assert(ok == (olimit >= wlen), "a file that cannot be written is reported"); end(); return; }
  vp_assert(ok, "a palette can be saved"); vp_assert(on == wlen, "the file has the length of the palette"); vp_assert(vp_same(ob, wf, wlen), "the file has the colours of the palette"); memcpy(wf, ob, on);
  ILuint b = vhNew(); ok = ilLoadPal("p.pal") != 0; e = vhErr(); vp_assert(ok && e == IL_NO_ERROR, "a saved palette can be loaded"); isPal(pal, 256); vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == b, "the same image is bound"); end();
}
// a palette file replaces the palette, and nothing else
H(h_load) {
  vhInit(); files(); mk(); int kind = vp_param("kind", JASC), n = kind == COL || kind == COLH || kind == ACT ? 256 : vp_param("n", 3), at = vp_param("at", 0), cnt = vp_param("cnt", kind == JASC ? 1 : 4); static ILubyte pal[768]; for (int i = 0; i < 768; i++) pal[i] = (ILubyte)(i * 29 + 3); vp_symbolic(pal + at, cnt, "colour"); build(kind, n, pal); for (int i = 0; i < vp_param("more", 0); i++) wf[wlen++] = 7;
  unsigned long live = vhLive; bool had = m.pn != 0; bool ok = ilLoadPal(NM[kind]) != 0; ILuint e = vhErr(); vp_assert(ok && e == IL_NO_ERROR, "a palette can be loaded"); isPal(pal, n); samePix(); vp_assert(vhLive == live + !had, "loading takes no memory but that of the palette"); end();
}
// the text of a palette: words of arbitrary digits
H(h_text) {
  vhInit(); files(); mk(); static ILubyte pal[6]; for (int i = 0; i < 6; i++) pal[i] = (ILubyte)(i * 41 + 3); int which = vp_param("which", 3), len = vp_param("len", 3); unsigned v = 0; wlen = 0; put("JASC-PAL\n0100\n"); if (which < 0) { uint8_t d[4]; vp_symbolic(d, len, "count"); for (int i = 0; i < len; i++) { vp_assume(d[i] < 10); wf[wlen++] = '0' + d[i]; v = v * 10 + d[i]; } put("\n"); for (int i = 0; i < 6; i++) number(pal[i], " ");
    bool ok = ilLoadPal("p.pal") != 0; ILuint e = vhErr(); vp_assert(ok == (v == 1 || v == 2), "as many colours are needed as there are said to be"); vp_assert((e == IL_NO_ERROR) == ok, "a file that is refused is reported"); if (ok) isPal(pal, v); else samePal(); samePix(); end(); return; }
  put("2\n"); for (int i = 0; i < 6; i++) if (i == which) { uint8_t d[4]; vp_symbolic(d, len, "digits"); for (int k = 0; k < len; k++) { vp_assume(d[k] < 10); wf[wlen++] = '0' + d[k]; v = v * 10 + d[k]; } put(" "); } else number(pal[i], " ");
  bool ok = ilLoadPal("p.pal") != 0; ILuint e = vhErr(); vp_assert(ok == (v < 256), "a colour is a number up to 255"); vp_assert((e == IL_NO_ERROR) == ok, "a file that is refused is reported"); pal[which] = (ILubyte)v; if (ok) isPal(pal, 2); else samePal(); samePix(); end();
}
// arbitrary bytes in, or a part of, a palette file
H(h_bytes) {
  vhInit(); files(); mk(); vhCap = 4096; int kind = vp_param("kind", JASC), n = kind == COL || kind == COLH || kind == ACT ? 256 : vp_param("n", 3), at = vp_param("at", 0), cnt = vp_param("cnt", 2), cut = vp_param("cut2", 0); static ILubyte pal[768]; for (int i = 0; i < 768; i++) pal[i] = (ILubyte)(i * 29 + 3); build(kind, n, pal); int full = wlen; if (cnt) vp_symbolic(wf + at, cnt, "b"); if (cut) { uint16_t l; vp_symbolic(&l, 2, "len"); vp_assume(l < wlen && l >= cut - 1 && l < cut + 47); wlen = (int)vp_concretize(l); }
  unsigned long live = vhLive; bool had = m.pn != 0; bool ok = ilLoadPal(NM[kind]) != 0; ILuint e = vhErr(); vp_assert((e == IL_NO_ERROR) == ok, "a file that is refused is reported, one that is loaded is not"); samePix(); closed(); if (cut && !cnt && wlen < full - (kind == JASC ? 4 : 0) && !(kind == COLH && wlen == 768)) vp_assert(!ok, "a part of a file is refused");
  if (!ok) { samePal(); vp_assert(vhLive == live, "refusing a file takes no memory"); } else { int k = ilGetInteger(IL_PALETTE_NUM_COLS); vp_assert(k >= 1 && k <= 256 && ilGetInteger(IL_PALETTE_TYPE) == IL_PAL_RGB24, "a palette has 1 to 256 colours"); ILubyte *p = ilGetPalette(); unsigned s = 0; for (int i = 0; i < k * 3; i++) s += p[i]; vp_assert(s <= 768 * 255u, "the palette can be read"); vp_assert(vhLive == live + !had, "loading takes no memory but that of the palette"); }
  vhCap = VH_CAP; end();
}
// raw data
H(h_data) { // way 0 memory 1 file 2 name
  vhInit(); files(); mk(); int W = vp_param("W", 2), Hh = vp_param("Hh", 2), D = vp_param("D", 1), bpp = vp_param("bpp", 3), way = vp_param("way", 0), pre = way == 1 ? 3 : 0, need = W * Hh * D * bpp, lack = vp_param("lack", 0); ILubyte *b = (ILubyte*)malloc(need + 1); vp_symbolic(b, need + 1, "data"); wlen = pre + need + 1 - lack; memset(wf, 0x5A, pre); memcpy(wf + pre, b, need + 1 - lack);
  ILuint a = vhNew(); vhErr(); wpos = pre; bool ok = way == 0 ? ilLoadDataL(wf + pre, need + 1 - lack, W, Hh, D, (ILubyte)bpp) : way == 1 ? ilLoadDataF(&wpos, W, Hh, D, (ILubyte)bpp) : ilLoadData("p.any", W, Hh, D, (ILubyte)bpp); ILuint e = vhErr(); bool want = lack < 2 && (bpp == 1 || bpp == 3 || bpp == 4) && need > 0;
  vp_assert(ok == want, "data are loaded when there are enough"); vp_assert((e == IL_NO_ERROR) == ok, "data that are refused are reported"); closed(); vp_assert(opens == (way == 2) && (way != 1 || wpos == pre), "the file is where it was"); vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == a, "the same image is bound");
  if (ok) { vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == W && ilGetInteger(IL_IMAGE_HEIGHT) == Hh && ilGetInteger(IL_IMAGE_DEPTH) == D && ilGetInteger(IL_IMAGE_CHANNELS) == bpp && ilGetInteger(IL_IMAGE_TYPE) == IL_UNSIGNED_BYTE && ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == need, "the picture has the shape asked for"); vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == (bpp == 1 ? IL_LUMINANCE : bpp == 3 ? IL_RGB : IL_RGBA), "the format follows from the number of channels"); vp_assert(ilGetInteger(IL_IMAGE_ORIGIN) == IL_ORIGIN_UPPER_LEFT, "the first row is the upper one"); vp_assert(vp_same(ilGetData(), b, need), "the pixels are the data"); }
  end();
}
H(h_dump) {
  vhInit(); files(); vhNew(); vhParamImg(m); vhMake(m, "pix"); dat = (ILubyte*)malloc(m.n); memcpy(dat, m.pix, m.n); vhErr(); int full = vp_param("full", 0); unsigned long live = vhLive; if (full) { uint8_t l; vp_symbolic(&l, 1, "limit"); vp_assume(l <= m.n); olimit = (long)vp_concretize(l); } bool over = vp_param("over", 1) != 0; if (!over) ilDisable(IL_FILE_OVERWRITE);
  bool ok = ilSaveData(over ? "p.any" : vp_param("there", 0) ? "/" : "p.any") != 0; ILuint e = vhErr(); vp_assert((e == IL_NO_ERROR) == ok, "data that are not saved are reported"); samePix(); samePal(); closed(); vp_assert(vhLive == live, "saving takes no memory");
  if (!over && vp_param("there", 0)) vp_assert(!ok && oopen == 0, "a file that exists is not touched"); else { vp_assert(oopen == 1, "the file is opened once"); vp_assert(ok == (olimit >= (long)m.n), "a file that cannot be written is reported"); if (ok) { vp_assert(on == (int)m.n, "the file has the size of the data"); vp_assert(vp_same(ob, dat, m.n), "the file has the data"); } } end();
}
// the pixels get the nearest colours of a palette file
H(h_apply) {
  vhInit(); files(); vhNew(); vhParamImg(m); m.bpp = vhChan(m.f); m.n = (size_t)m.w * m.h * m.d * m.bpp; m.pix = (ILubyte*)malloc(m.n); for (size_t i = 0; i < m.n; i++) m.pix[i] = (ILubyte)(i * 37 + 11); bool ci = m.f == IL_COLOUR_INDEX; int pp = vp_param("pp", 0), qp = vp_param("qp", 0), n = vp_param("n", 3); if (pp >= 0 && !ci) vp_symbolic(m.pix + pp, 1, "pixel");
  ilTexImage(m.w, m.h, m.d, (ILubyte)m.bpp, m.f, m.t, m.pix); static ILubyte own[16]; if (ci) { for (size_t i = 0; i < m.n; i++) { m.pix[i] = (ILubyte)(i % 3); } memcpy(ilGetData(), m.pix, m.n); int pb = 3 * vhPalBpp(m.pt); for (int i = 0; i < pb; i++) own[i] = (ILubyte)(i * 53 + 9); if (pp >= 0) vp_symbolic(own + pp, 1, "colour"); ilRegisterPal(own, pb, m.pt); } ilRegisterOrigin(vhOrigin(m.org)); vhErr();
  static ILubyte pal[768]; for (int i = 0; i < n * 3; i++) pal[i] = (ILubyte)(i * 71 + 20); if (qp >= 0) vp_symbolic(pal + qp, 1, "entry"); int kind = vp_param("kind", PLT); build(kind, n, pal); if (vp_param("bad", 0)) wlen -= 4; dat = m.pix;
  unsigned long live = vhLive; ILuint cur = ilGetInteger(IL_CUR_IMAGE); bool ok = ilApplyPal(NM[kind]) != 0; ILuint e = vhErr(); closed(); vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == cur, "the same image is bound"); vp_assert((e == IL_NO_ERROR) == ok, "a palette that cannot be applied is reported");
  bool can = m.f != IL_ALPHA && m.t == IL_UNSIGNED_BYTE && !vp_param("bad", 0); vp_assert(ok == can, "a palette can be applied to pictures of bytes with colours");
  if (!ok) { samePix(); vp_assert(vhLive == live, "refusing takes no memory"); end(); return; }
  vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == m.w && ilGetInteger(IL_IMAGE_HEIGHT) == m.h && ilGetInteger(IL_IMAGE_DEPTH) == m.d && ilGetInteger(IL_IMAGE_FORMAT) == IL_COLOUR_INDEX && ilGetInteger(IL_IMAGE_TYPE) == IL_UNSIGNED_BYTE && ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == m.w * m.h * m.d, "the picture gets indexed colours"); vp_assert((ILenum)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "the rows keep their order"); isPal(pal, n); vp_assert(vhLive == live + !ci, "no memory is taken but that of the palette");
  const ILubyte *r = ilGetData(); for (int i = 0; i < m.w * m.h * m.d; i++) { int c[3]; for (int k = 0; k < 3; k++) c[k] = ci ? palc(m.pt, own + m.pix[i] * vhPalBpp(m.pt), k) : m.pix[i * m.bpp + vhColAt(m.f, k)]; ILubyte x = r[i]; vp_assert(x < n, "an index is one of the palette"); int j = (int)vp_concretize(x); int d0 = 0; for (int k = 0; k < 3; k++) { int d = c[k] - pal[j * 3 + k]; d0 += d * d; } for (int q = 0; q < n; q++) { int d1 = 0; for (int k = 0; k < 3; k++) { int d = c[k] - pal[q * 3 + k]; d1 += d * d; } vp_assert(d0 <= d1, "no colour is nearer"); } }
  end();
}
