#include "img.h"
// Geometry: flipping, mirroring, cropping, enlarging the canvas against their plain definitions.
static const ILubyte *at(const VImg &m, const ILubyte *p, int x, int y, int z) { return p + (((size_t)z * m.h + y) * m.w + x) * m.bpp * m.bpc; }
static int off(const char *nm, int lo, int hi) { signed char v; vp_symbolic(&v, 1, nm); vp_assume(v >= lo && v <= hi); return (int)(long long)vp_concretize((uint64_t)(int64_t)v); }
static void shape(const VImg &m, int w, int h, int d, unsigned live, ILuint name, const char *what) {
  vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == w && ilGetInteger(IL_IMAGE_HEIGHT) == h && ilGetInteger(IL_IMAGE_DEPTH) == d, what);
  vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == m.f && ilGetInteger(IL_IMAGE_TYPE) == m.t && ilGetInteger(IL_IMAGE_CHANNELS) == m.bpp, "format and type are kept");
  vp_assert((unsigned)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "the origin is kept"); vp_assert((size_t)ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == (size_t)w * h * d * m.bpp * m.bpc, "the size of the data agrees with the shape");
  vp_assert(vhLive == live, "no memory is lost"); vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == name, "the same image is bound");
  if (m.f == IL_COLOUR_INDEX && m.pn) { size_t pb = (size_t)m.pn * vhPalBpp(m.pt); vp_assert(ilGetInteger(IL_PALETTE_TYPE) == m.pt && ilGetInteger(IL_PALETTE_NUM_COLS) == m.pn, "the palette is kept"); vp_assert(vp_same(ilGetPalette(), m.pal, pb), "the palette colours are kept"); }
}
H(h_flip) { // k 0 flip, 1 mirror, 2 both twice
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; int k = vp_param("k", 0), PB = m.bpp * m.bpc;
  if (k == 0) vp_assert(iluFlipImage(), "an image can be flipped"); else if (k == 1) vp_assert(iluMirror(), "an image can be mirrored");
  else { vp_assert(iluFlipImage() && iluMirror() && iluFlipImage() && iluMirror(), "an image can be flipped and mirrored"); }
  shape(m, m.w, m.h, m.d, live, a, "the dimensions are kept"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); ILubyte *d = ilGetData(); vp_observe_buf("d", d, m.n);
  for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) vp_assert(vp_same(at(m, d, x, y, z), at(m, m.pix, k == 1 ? m.w - 1 - x : x, k == 0 ? m.h - 1 - y : y, z), PB), "every pixel is at its mirrored place");
  vp_reach("end");
}
H(h_crop) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; int PB = m.bpp * m.bpc;
  int os = vp_param("os", 0); if (os) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(vhOrigin(!m.org)); }
  int xo = off("xo", 0, m.w), yo = off("yo", 0, m.h), zo = m.d > 1 ? off("zo", 0, m.d) : 0, w = off("w", 1, m.w + 1), h = off("h", 1, m.h + 1), d = m.d > 1 ? off("d", 1, m.d + 1) : 1;
  ILboolean ok = iluCrop(xo, yo, zo, w, h, d); bool in = xo + w <= m.w && yo + h <= m.h && zo + d <= m.d;
  vp_assert((ok != 0) == in, "a block of the image can be cut out, any other is refused");
  vp_assert((vhErr() == IL_NO_ERROR) == in, "an error is reported if and only if the request is refused"); ILubyte *q = ilGetData();
  if (in) { shape(m, w, h, d, live, a, "the image has the dimensions of the block"); vp_observe_buf("q", q, (size_t)w * h * d * PB);
    for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) vp_assert(vp_same(q + (((size_t)z * h + y) * w + x) * PB, at(m, m.pix, xo + x, yo + y, zo + z), PB), "every pixel is the pixel of the block at that place"); vp_reach("cut"); }
  else { shape(m, m.w, m.h, m.d, live, a, "a refused request changes nothing"); vp_assert(vp_same(q, m.pix, m.n), "a refused request changes no pixel"); vp_reach("refused"); }
}
H(h_cropfar) { // any 32 bit request that is not inside
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; ILuint v[6]; vp_symbolic(v, sizeof v, "req"); int ax = vp_param("ax", 0);
  ILuint D[3] = { (ILuint)m.w, (ILuint)m.h, (ILuint)m.d }; for (int i = 0; i < 3; i++) if (i != ax) { v[i] = 0; v[3 + i] = D[i]; }
  vp_assume(v[3 + ax] > 0); vp_assume((v[3 + ax] > D[ax]) | (v[ax] > D[ax] - v[3 + ax])); if (ax == 2 && m.d == 1) { vp_assume(v[2] > 1); }
  vp_assert(!iluCrop(v[0], v[1], v[2], v[3], v[4], v[5]), "a block that is not inside of the image is refused"); vp_assert(vhErr() != IL_NO_ERROR, "an error is reported");
  shape(m, m.w, m.h, m.d, live, a, "a refused request changes nothing"); vp_assert(vp_same(ilGetData(), m.pix, m.n), "a refused request changes no pixel"); vp_reach("end");
}
H(h_canvas) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); int PB = m.bpp * m.bpc, place = vp_param("place", ILU_CENTER); ILubyte bg[32];
  ilClearColour(1.0f, 0.25f, 0.5f, 0.75f); vhNew(); if (m.f != IL_COLOUR_INDEX) { ilTexImage(1, 1, 1, vhChan(m.f), m.f, m.t, NULL); ilClearImage(); memcpy(bg, ilGetData(), vhChan(m.f) * vhBpc(m.t)); PB = 0; }
  ILuint a = vhNew(); vhMake(m, "pix"); PB = m.bpp * m.bpc; vhErr(); unsigned live = vhLive; iluImageParameter(ILU_PLACEMENT, place);
  int w = off("w", m.w - 1, m.w + 2), h = off("h", m.h - 1, m.h + 2), d = off("d", m.d - 1, m.d + 1); vp_assume(d > 0);
  int os = vp_param("os", 0); if (os) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(vhOrigin(!m.org)); }
  ILboolean ok = iluEnlargeCanvas(w, h, d); bool in = w >= m.w && h >= m.h && d >= m.d; vp_assert((ok != 0) == in, "the canvas can be enlarged, not shrunk"); vp_assert((vhErr() == IL_NO_ERROR) == in, "an error is reported if and only if the request is refused");
  ILubyte *q = ilGetData();
  if (!in) { shape(m, m.w, m.h, m.d, live, a, "a refused request changes nothing"); vp_assert(vp_same(q, m.pix, m.n), "a refused request changes no pixel"); vp_reach("refused"); return; }
  shape(m, w, h, d, live, a, "the image has the dimensions of the canvas"); vp_observe_buf("q", q, (size_t)w * h * d * PB);
  bool right = place == ILU_LOWER_RIGHT || place == ILU_UPPER_RIGHT, up = place == ILU_UPPER_LEFT || place == ILU_UPPER_RIGHT; int ax, ay;
  if (place == ILU_CENTER) ax = (w - m.w) / 2, ay = (h - m.h) / 2; else { ax = right ? w - m.w : 0; ay = (vhOrigin(m.org) == IL_ORIGIN_UPPER_LEFT) == up ? 0 : h - m.h; }
  for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { ILubyte *c = q + (((size_t)z * h + y) * w + x) * PB; int sx = x - ax, sy = y - ay;
    if (sx >= 0 && sx < m.w && sy >= 0 && sy < m.h && z < m.d) vp_assert(vp_same(c, at(m, m.pix, sx, sy, z), PB), "the old picture lies at its place on the canvas");
    else if (m.f == IL_COLOUR_INDEX) vp_assert(*c < (m.pn ? m.pn : 1), "the new pixels have colours of the palette"); else vp_assert(vp_same(c, bg, PB), "the new pixels have the clear colour"); }
  vp_reach("cut");
}
