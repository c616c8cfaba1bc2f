#include "img.h"
// Saving into memory: the caller's buffer, the size query, and the image being saved.
static void opts() {
  ilSetInteger(IL_TGA_RLE, vp_param("rle", 0)); ilSetInteger(IL_SGI_RLE, vp_param("rle", 0)); ilSetInteger(IL_BMP_RLE, vp_param("rle", 0));
  ilHint(IL_COMPRESSION_HINT, vp_param("comp", 0) ? IL_USE_COMPRESSION : IL_NO_COMPRESSION);
  if (vp_param("dxt", 0)) ilSetInteger(IL_DXTC_FORMAT, vp_param("dxt", 0));
}
static void same_image(const VImg &m, const ILubyte *pix, ILuint name, ILubyte *data) {
  vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == name, "the bound image stays bound");
  vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == m.w && ilGetInteger(IL_IMAGE_HEIGHT) == m.h && ilGetInteger(IL_IMAGE_DEPTH) == m.d, "its dimensions are unchanged");
  vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == m.f && ilGetInteger(IL_IMAGE_TYPE) == m.t && ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == (int)m.n, "its format is unchanged");
  vp_assert((unsigned)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "its origin is unchanged");
  ILubyte *d = ilGetData(); vp_assert(d && vp_same(d, pix, m.n), "its pixels are unchanged");
  if (m.pn) { int pb = vhPalBpp(m.pt); vp_assert(ilGetInteger(IL_PALETTE_TYPE) == m.pt && ilGetInteger(IL_PALETTE_NUM_COLS) == m.pn && vp_same(ilGetPalette(), m.pal, (size_t)m.pn * pb), "its palette is unchanged"); }
}
H(h_save) {
  vhInit(); int type = vp_param("type", IL_TGA);
  VImg m; vhParamImg(m); ILuint name = vhNew(); vhMake(m, "pix", vp_param("sym", 1)); opts(); vhErr();
  ILubyte *big = (ILubyte*)malloc(8192); memset(big, 0xEE, 8192); unsigned long live = vhLive;
  ILuint n = ilSaveL(type, big, 8192); vp_assert(n > 0 && n <= 8192, "the image can be saved"); vp_observe("n", n);
  for (ILuint i = n; i < n + 64; i++) vp_assert(big[i] == 0xEE, "nothing is written past the reported size");
  same_image(m, m.pix, name, 0);
  vp_assert(vhLive == live || vp_param("noleak", 1) == 0, "saving releases the memory it took"); vp_assert(vhErr() == IL_NO_ERROR, "saving reports no error");
  vp_check_init(big, n, "the saved bytes do not depend on uninitialised memory");
  ILuint q = ilSaveL(type, NULL, 0); vp_observe("q", q); vp_assert(q >= n, "the size query never asks for less than saving needs");
  same_image(m, m.pix, name, 0);
  if (vp_param("exact", 1)) vp_assert(q == n, "the size query gives the size saving needs");
  vp_assert(vhLive == live || vp_param("noleak", 1) == 0, "the size query releases the memory it took");
  ILubyte *ex = (ILubyte*)malloc(n); ILuint n2 = ilSaveL(type, ex, n); vp_assert(n2 == n, "a buffer of the right size is enough"); vp_assert(vp_same(ex, big, n), "saving twice gives the same bytes");
  vp_assert(vhErr() == IL_NO_ERROR, "saving into a buffer of the right size reports no error");
  vp_reach("end");
}
H(h_small) {   // a buffer that is too small is never overrun
  vhInit(); int type = vp_param("type", IL_TGA);
  VImg m; vhParamImg(m); ILuint name = vhNew(); vhMake(m, "pix", vp_param("sym", 0)); opts(); vhErr();
  ILubyte *big = (ILubyte*)malloc(8192); ILuint n = ilSaveL(type, big, 8192); vp_assume(n > 1);
  ILuint s; vp_symbolic(&s, 4, "s"); vp_assume(s < n); vp_assume(s < 64 || s > n - 40 || s % 16 == 0); s = (ILuint)vp_concretize(s); vp_observe("s", s);
  ILubyte *b = (ILubyte*)malloc(s); ILuint r = ilSaveL(type, b, s); vp_observe("r", r);
  vp_assert(r == 0 && vhErr() != IL_NO_ERROR, "a buffer that is too small is reported"); same_image(m, m.pix, name, 0);
  vp_reach("end");
}
