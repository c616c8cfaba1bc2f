#include "img.h"
// Blocks of pixels: ilSetPixels / ilCopyPixels against the plain definition of a block copy.
static const ILubyte *at(const VImg &m, const ILubyte *p, int x, int y, int z) { return p + (((size_t)z * m.h + y) * m.w + x) * m.bpp * m.bpc; }
static int off(const char *nm, int lo, int hi) { signed char v; vp_symbolic(&v, 1, nm); vp_assume(v >= lo && v <= hi); return (int)(long long)vp_concretize((uint64_t)(int64_t)v); }
static void kept(const VImg &m, unsigned live) {
  vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == m.w && ilGetInteger(IL_IMAGE_HEIGHT) == m.h && ilGetInteger(IL_IMAGE_DEPTH) == m.d && ilGetInteger(IL_IMAGE_FORMAT) == m.f && ilGetInteger(IL_IMAGE_TYPE) == m.t, "the shape of the image is kept");
  vp_assert((unsigned)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "its origin is kept"); vp_assert(vhLive == live, "no memory is lost");
}
// copy: dense=1 takes all offsets/sizes of the stated range by forking
H(h_copy) {
  vhInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix"); vhErr(); int R = vp_param("r", 1), os = vp_param("os", 0), PB;
  if (os) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(vhOrigin(os == 1 ? m.org : !m.org)); }
  int xo = off("xo", 0, m.w + R), yo = off("yo", 0, m.h + R), zo = off("zo", 0, m.d + R), w = off("w", 1, m.w + R), h = off("h", 1, m.h + R), d = off("d", 1, m.d + R);
  PB = m.bpp * m.bpc; size_t n = (size_t)w * h * d * PB; ILubyte *out = (ILubyte*)malloc(n); memset(out, 0xC7, n); unsigned live = vhLive;
  ILuint r = ilCopyPixels(xo, yo, zo, w, h, d, m.f, m.t, out); vp_assert(r == n, "the number of bytes of the block is returned");
  vp_observe("r", r); vp_observe_buf("out", out, n); bool fl = os == 2;
  for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    const ILubyte *q = out + (((size_t)z * h + y) * w + x) * PB; int sx = xo + x, sy = yo + y, sz = zo + z;
    if (sx < m.w && sy < m.h && sz < m.d) vp_assert(vp_same(q, at(m, m.pix, sx, fl ? m.h - 1 - sy : sy, sz), PB), "every pixel of the block is the pixel of the image at that place");
    else for (int c = 0; c < PB; c++) vp_assert((q[c] == 0xC7) | (q[c] == 0), "the part of the block outside of the image is left alone");
  }
  vp_assert(vp_same(ilGetData(), m.pix, m.n), "the image is unchanged"); kept(m, live); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); vp_reach("end");
}
// copying with conversion is converting and copying
H(h_copyc) {
  vhInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); int df = vp_param("df", IL_RGBA), dt = vp_param("dt", IL_UNSIGNED_BYTE);
  if (m.f == IL_COLOUR_INDEX) for (size_t i = 0; i < m.n; i++) vp_assume(m.pix[i] < m.pn);
  vhErr(); int xo = off("xo", 0, m.w), w = off("w", 1, m.w + 1), yo = off("yo", 0, 1), h = off("h", 1, m.h), d = m.d; int PB = vhChan(df) * vhBpc(dt);
  size_t n = (size_t)w * h * d * PB; ILubyte *out = (ILubyte*)malloc(n), *ref = (ILubyte*)calloc(1, n); unsigned live = vhLive;
  ILuint r = ilCopyPixels(xo, yo, 0, w, h, d, df, dt, out); vp_assert(r == n, "the number of bytes of the block is returned"); kept(m, live); vp_assert(vp_same(ilGetData(), m.pix, m.n), "the image is unchanged");
  vp_check_init(out, n, "the copied block does not depend on uninitialised memory");
  vp_assert(ilConvertImage(df, dt), "the image can be converted"); ilCopyPixels(xo, yo, 0, w, h, d, df, dt, ref);
  for (int z = 0; z < d; z++) for (int y = 0; y < h && y + yo < m.h; y++) for (int x = 0; x < w && x + xo < m.w; x++) { size_t o = (((size_t)z * h + y) * w + x) * PB; vp_assert(vp_same(out + o, ref + o, PB), "copying with conversion equals converting and copying"); }
  (void)a; vp_reach("end");
}
H(h_set) {
  vhInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix"); vhErr(); int R = vp_param("r", 1), os = vp_param("os", 0), PB = m.bpp * m.bpc;
  if (os) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(vhOrigin(os == 1 ? m.org : !m.org)); }
  int xo = off("xo", -m.w - R, m.w + R), yo = off("yo", -m.h - R, m.h + R), zo = off("zo", -m.d - R, m.d + R), w = off("w", 1, m.w + R), h = off("h", 1, m.h + R), d = off("d", 1, m.d + R);
  size_t n = (size_t)w * h * d * PB; ILubyte *blk = (ILubyte*)malloc(n); vp_symbolic(blk, n, "blk"); ILubyte *b0 = (ILubyte*)malloc(n); memcpy(b0, blk, n); unsigned live = vhLive;
  ilSetPixels(xo, yo, zo, w, h, d, m.f, m.t, blk); kept(m, live); ILubyte *g = ilGetData(); bool fl = os == 2;
  for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
    int ly = fl ? m.h - 1 - y : y, bx = x - xo, by = ly - yo, bz = z - zo; const ILubyte *q = at(m, g, x, y, z);
    if (bx >= 0 && bx < w && by >= 0 && by < h && bz >= 0 && bz < d) vp_assert(vp_same(q, blk + (((size_t)bz * h + by) * w + bx) * PB, PB), "every pixel of the image under the block is set from it");
    else vp_assert(vp_same(q, at(m, m.pix, x, y, z), PB), "every other pixel is unchanged");
  }
  vp_assert(vp_same(blk, b0, n), "the block is unchanged"); vp_observe_buf("img", g, m.n); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); vp_reach("end");
}
// setting with conversion: the block becomes what converting an image with these pixels gives
H(h_setc) {
  vhInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); int sf = vp_param("sf", IL_RGBA), st = vp_param("st", IL_UNSIGNED_BYTE);
  int xo = off("xo", -1, m.w), w = off("w", 1, 2), h = 2, PB = vhChan(sf) * vhBpc(st), DB = m.bpp * m.bpc; size_t n = (size_t)w * h * PB; ILubyte *blk = (ILubyte*)malloc(n); vp_symbolic(blk, n, "blk");
  vhNew(); vp_assert(ilTexImage(w, h, 1, vhChan(sf), sf, st, blk), "an image of this shape can be created"); ilConvertImage(m.f, m.t); ILubyte *cv = ilGetData(); ilBindImage(a); vhErr(); unsigned live = vhLive;
  ilSetPixels(xo, 0, 0, w, h, 1, sf, st, blk); kept(m, live); ILubyte *g = ilGetData();
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { int bx = x - xo; const ILubyte *q = at(m, g, x, y, 0);
    if (bx >= 0 && bx < w && y < h) vp_assert(vp_same(q, cv + ((size_t)y * w + bx) * DB, DB), "setting with conversion equals converting the block and setting it"); else vp_assert(vp_same(q, at(m, m.pix, x, y, 0), DB), "every other pixel is unchanged"); }
  vp_reach("end");
}
// offsets and sizes far out of range: any 32-bit offset
H(h_far) {
  vhInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix", false); vhErr(); int set = vp_param("set", 0), PB = m.bpp * m.bpc, ax = vp_param("ax", 0);
  ILuint o[3] = {0, 0, 0}; vp_symbolic(&o[ax], 4, "off"); ILuint s[3] = {1, 1, 1}; s[ax] = 3; s[(ax + 1) % 3] = vp_param("s2", 1); int D[3] = { m.w, m.h, m.d };
  size_t n = (size_t)s[0] * s[1] * s[2] * PB; ILubyte *blk = (ILubyte*)malloc(n); memset(blk, 0x5A, n); unsigned live = vhLive;
  if (set) { ilSetPixels(o[0], o[1], o[2], s[0], s[1], s[2], m.f, m.t, blk); }
  else ilCopyPixels(o[0], o[1], o[2], s[0], s[1], s[2], m.f, m.t, blk);
  kept(m, live);
  if (set) { if ((ILint)o[ax] <= -3 || (ILint)o[ax] >= D[ax]) vp_assert(vp_same(ilGetData(), m.pix, m.n), "a block wholly outside of the image changes nothing"); }
  else if (o[ax] >= (ILuint)D[ax]) for (size_t i = 0; i < n; i++) vp_assert((blk[i] == 0x5A) | (blk[i] == 0), "a block wholly outside of the image copies nothing");
  vp_reach("end");
}
H(h_bad) {   // refused calls leave everything alone
  vhInit(); VImg m; vhParamImg(m); ILubyte b[16]; memset(b, 9, 16);
  vp_assert(ilCopyPixels(0, 0, 0, 1, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, 0) == 0, "no image or no buffer: nothing copied");
  vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; int which = off("which", 0, 4);
  if (which == 0) { vp_assert(ilCopyPixels(0, 0, 0, 1, 1, 1, m.f, m.t, NULL) == 0, "copying needs a buffer"); vp_assert(vhErr() != IL_NO_ERROR, "an error is reported"); }
  if (which == 1) { ilSetPixels(0, 0, 0, 1, 1, 1, m.f, m.t, NULL); vp_assert(vhErr() != IL_NO_ERROR, "an error is reported"); }
  if (which == 2) { vp_assert(ilCopyPixels(0, 0, 0, 1, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, b) == 0, "indexes cannot be made from pixels"); vp_assert(vhErr() != IL_NO_ERROR, "an error is reported"); }
  if (which == 3) { ilSetPixels(0, 0, 0, 1, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, b); vp_assert(vhErr() != IL_NO_ERROR, "an error is reported"); }
  if (which == 4) vp_assert(ilCopyPixels(0, 0, 0, 0, 1, 1, m.f, m.t, b) == 0, "an empty block copies nothing");
  kept(m, live); vp_assert(vp_same(ilGetData(), m.pix, m.n), "the image is unchanged"); for (int i = 0; i < 16; i++) vp_assert(b[i] == 9, "the buffer is unchanged"); vp_reach("end");
}
