#include "img.h"
// Scaling, mipmaps and quarter turns.
static const ILubyte *at(const VImg &m, const ILubyte *p, int x, int y, int z) { return p + (((size_t)z * m.h + y) * m.w + x) * m.bpp * m.bpc; }
static void shape(const VImg &m, int w, int h, int d, unsigned live, ILuint name, const char *what) {
  vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == w && ilGetInteger(IL_IMAGE_HEIGHT) == h && ilGetInteger(IL_IMAGE_DEPTH) == d, what);
  vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == m.f && ilGetInteger(IL_IMAGE_TYPE) == m.t && ilGetInteger(IL_IMAGE_CHANNELS) == m.bpp, "format and type are kept");
  vp_assert((unsigned)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "the origin is kept"); vp_assert((size_t)ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == (size_t)w * h * d * m.bpp * m.bpc, "the size of the data agrees with the shape");
  vp_assert(vhLive == live, "no memory is lost"); vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == name, "the same image is bound");
}
static ILubyte csh(const VImg &m, const ILubyte *d, int c) { return palc(m.pt, m.pal + *d * vhPalBpp(m.pt), c); }
// the pixel q of the current image has the colour of pixel s of the original
static void same(const VImg &m, const ILubyte *q, const ILubyte *s, const char *what) {
  if (m.f != IL_COLOUR_INDEX) { vp_assert(vp_same(q, s, m.bpp * m.bpc), what); return; }
  int pt = ilGetInteger(IL_PALETTE_TYPE); const ILubyte *p = ilGetPalette(); for (int c = 0; c < 3; c++) vp_assert(palc(pt, p + *q * vhPalBpp(pt), c) == csh(m, s, c), what);
}
static void mk(VImg &m) { vhParamImg(m); vhNew(); vhMake(m, "pix"); if (m.f == IL_COLOUR_INDEX) for (size_t i = 0; i < m.n; i++) { vp_assume(m.pix[i] < m.pn); } }
H(h_near) {
  vhInit(); iluInit(); VImg m; mk(m); ILuint a = ilGetInteger(IL_CUR_IMAGE); vhErr(); unsigned live = vhLive; int w = vp_param("W", 1), h = vp_param("H", 1), d = vp_param("D", 1);
  vp_assert(iluScale(w, h, d), "an image can be scaled"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); w += !w, h += !h, d += !d; shape(m, w, h, d, live, a, "the image has the requested dimensions");
  if (m.f == IL_COLOUR_INDEX) vp_assert(ilGetInteger(IL_PALETTE_TYPE) == m.pt, "the type of the palette is kept");
  ILubyte *q = ilGetData(); vp_check_init(q, (size_t)w * h * d * m.bpp * m.bpc, "the scaled picture does not depend on uninitialised memory");
  for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) same(m, q + (((size_t)z * h + y) * w + x) * m.bpp * m.bpc, at(m, m.pix, x * m.w / w, y * m.h / h, z * m.d / d), "every pixel is the nearest pixel of the original");
  vp_reach("end");
}
// the other filters: shape, no memory trouble, and the values of every channel stay in the range of its values in the original
H(h_filter) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); vhNew(); int sy = vp_param("sym", 1); vhMake(m, "pix", false); ILubyte *dd = ilGetData();
  if (m.t == IL_UNSIGNED_BYTE) { for (size_t i = 0; i < m.n; i++) m.pix[i] = 40 + i % 3; ILubyte v[2]; vp_symbolic(v, sy, "v"); m.pix[0] = v[0]; if (sy > 1) m.pix[m.n - 1] = v[1]; } memcpy(dd, m.pix, m.n);
  ILuint a = ilGetInteger(IL_CUR_IMAGE); vhErr(); unsigned live = vhLive; int w = vp_param("W", 1), h = vp_param("H", 1), d = vp_param("D", 1); iluImageParameter(ILU_FILTER, vp_param("filter", ILU_LINEAR));
  vp_assert(iluScale(w, h, d), "an image can be scaled"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); shape(m, w, h, d, live, a, "the image has the requested dimensions");
  ILubyte *q = ilGetData(); vp_check_init(q, (size_t)w * h * d * m.bpp * m.bpc, "the scaled picture does not depend on uninitialised memory");
  int over = vp_param("over", 0); if (m.t == IL_UNSIGNED_BYTE && !over) for (int c = 0; c < m.bpp; c++) { ILubyte lo = 255, hi = 0; for (size_t i = c; i < m.n; i += m.bpp) { lo = m.pix[i] < lo ? m.pix[i] : lo; hi = m.pix[i] > hi ? m.pix[i] : hi; }
    for (int i = c; i < w * h * d * m.bpp; i += m.bpp) { int x = q[i]; vp_assert((x + 1 >= lo) & (x <= hi + 1), "scaling makes up no values outside of the range of the original"); } }
  vp_reach("end");
}
H(h_const) { // a picture of one colour stays that
  vhInit(); iluInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix", false); ILubyte v[4]; vp_symbolic(v, m.bpp, "v"); for (size_t i = 0; i < m.n; i++) m.pix[i] = v[i % m.bpp]; memcpy(ilGetData(), m.pix, m.n); vhErr();
  int w = vp_param("W", 1), h = vp_param("H", 1); iluImageParameter(ILU_FILTER, vp_param("filter", ILU_LINEAR)); vp_assert(iluScale(w, h, 1), "an image can be scaled"); ILubyte *q = ilGetData();
  for (int i = 0; i < w * h * m.bpp; i++) { int x = q[i], y = v[i % m.bpp]; vp_assert((x >= y - 1) & (x <= y + 1), "a picture of one colour keeps it"); } vp_reach("end");
}
H(h_mip) {
  vhInit(); iluInit(); VImg m; mk(m); ILuint a = ilGetInteger(IL_CUR_IMAGE); vhErr(); int rep = vp_param("rep", 0);
  vp_assert(iluBuildMipmaps(), "mipmaps can be built"); unsigned live = vhLive; if (rep) { vp_assert(iluBuildMipmaps(), "mipmaps can be built again"); vp_assert(vhLive == live, "building again loses no memory"); }
  shape(m, m.w, m.h, m.d, vhLive, a, "the image itself is kept"); vp_assert(vp_same(ilGetData(), m.pix, m.n), "the pixels of the image itself are kept");
  int n = 0; for (int w = m.w, h = m.h, d = m.d; w > 1 || h > 1 || d > 1; n++) { w = w > 1 ? w / 2 : 1; h = h > 1 ? h / 2 : 1; d = d > 1 ? d / 2 : 1; }
  vp_assert(ilGetInteger(IL_NUM_MIPMAPS) == n, "there is a mipmap for every halving of the dimensions"); int pw = m.w, ph = m.h, pd = m.d; ILubyte *prev = m.pix;
  for (int i = 1; i <= n; i++) { ilBindImage(a); vp_assert(ilActiveMipmap(i), "every mipmap can be made current"); int w = pw > 1 ? pw / 2 : 1, h = ph > 1 ? ph / 2 : 1, d = pd > 1 ? pd / 2 : 1; ILubyte *q = ilGetData();
    vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == w && ilGetInteger(IL_IMAGE_HEIGHT) == h && ilGetInteger(IL_IMAGE_DEPTH) == d, "each mipmap has half the dimensions of the one before"); int PB = m.bpp * m.bpc;
    if (m.f != IL_COLOUR_INDEX) { vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == m.f && ilGetInteger(IL_IMAGE_TYPE) == m.t, "mipmaps have the format and type of the image"); vp_assert((unsigned)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "mipmaps have the origin of the image");
      for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) vp_assert(vp_same(q + (((size_t)z * h + y) * w + x) * PB, prev + (((size_t)(z * pd / d) * ph + y * ph / h) * pw + x * pw / w) * PB, PB), "every pixel of a mipmap is the nearest pixel of the one before"); }
    pw = w, ph = h, pd = d, prev = q; }
  ilBindImage(a); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
H(h_turn) {
  vhInit(); iluInit(); VImg m; mk(m); ILuint a = ilGetInteger(IL_CUR_IMAGE); vhErr(); unsigned live = vhLive; int q4 = vp_param("q", 1), neg = vp_param("neg", 0); int w = q4 & 1 ? m.h : m.w, h = q4 & 1 ? m.w : m.h;
  vp_assert(iluRotate(neg ? q4 * 90.0f - 360.0f : q4 * 90.0f), "an image can be turned"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); shape(m, w, h, 1, live, a, "a turned image has the dimensions of the turned rectangle"); ILubyte *q = ilGetData();
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { int nx = q4 == 0 ? x : q4 == 1 ? m.h - 1 - y : q4 == 2 ? m.w - 1 - x : y, ny = q4 == 0 ? y : q4 == 1 ? x : q4 == 2 ? m.h - 1 - y : m.w - 1 - x; same(m, q + ((size_t)ny * w + nx) * m.bpp * m.bpc, at(m, m.pix, x, y, 0), "every pixel is turned to its place"); }
  vp_reach("end");
}
// indexed pictures go through a quantizer: concrete pixels, shape and memory only
H(h_ci) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix", false); ILubyte *p = ilGetData(); for (size_t i = 0; i < m.n; i++) p[i] = m.pix[i] = (ILubyte)(i % m.pn); ILuint a = ilGetInteger(IL_CUR_IMAGE); vhErr(); int w = vp_param("W", 2), h = vp_param("H", 2), d = m.d; iluImageParameter(ILU_FILTER, vp_param("filter", ILU_NEAREST));
  ILubyte v; vp_symbolic(&v, 1, "v"); vp_assume(v < m.pn); p[0] = m.pix[0] = vp_concretize(v);
  if (vp_param("mip", 0)) { vp_assert(iluBuildMipmaps(), "mipmaps can be built"); vp_assert(vp_same(ilGetData(), m.pix, m.n) && vp_same(ilGetPalette(), m.pal, (size_t)m.pn * vhPalBpp(m.pt)), "the image itself is kept"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end"); return; }
  if (vp_param("turn", 0)) { vp_assert(iluRotate(90.0f), "an image can be turned"); w = m.h, h = m.w, d = 1; } else vp_assert(iluScale(w, h, d), "an image can be scaled");
  vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); m.w = w, m.h = h; shape(m, w, h, d, vhLive, a, "the image has the requested dimensions"); if (!vp_param("turn", 0)) vp_assert(ilGetInteger(IL_PALETTE_TYPE) == m.pt, "the type of the palette is kept");
  ILubyte *q = ilGetData(); int n = ilGetInteger(IL_PALETTE_NUM_COLS); vp_check_init(q, (size_t)w * h * d, "the picture does not depend on uninitialised memory"); for (int i = 0; i < w * h * d; i++) vp_assert(q[i] < n, "every index has a colour"); vp_check_init(ilGetPalette(), (size_t)n * vhPalBpp(ilGetInteger(IL_PALETTE_TYPE)), "the palette does not depend on uninitialised memory");
  ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
