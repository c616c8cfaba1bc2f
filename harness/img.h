// Builds images through the public API and compares images.
#pragma once
#include "vh.h"
static inline int vhPalBpp(int pt) { return pt == IL_PAL_RGB24 || pt == IL_PAL_BGR24 ? 3 : 4; }
struct VImg { int w, h, d, f, t, org, bpp, bpc; size_t n; ILubyte *pix; int pt, pn; ILubyte *pal; };
static unsigned vhOrigin(int o) { return o ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT; }
// Makes a new bound image of the given shape whose pixel bytes (and palette) are given / symbolic.
static void vhMake(VImg &m, const char *nm, bool sym = true) {
  m.bpp = vhChan(m.f); m.bpc = vhBpc(m.t); m.n = (size_t)m.w * m.h * m.d * m.bpp * m.bpc;
  m.pix = (ILubyte*)malloc(m.n ? m.n : 1);
  int few = vp_param("few", 0);   // long images: symbolic only around the start, the 127/128 boundary and the end, the rest one symbolic value
  if (int one = vp_param("one", 0)) { for (size_t i = 0; i < m.n; i++) m.pix[i] = (ILubyte)(i * 37 + 5); vp_symbolic(m.pix + one - 1, 1, "one"); }
  else if (sym && few) { ILubyte v; vp_symbolic(&v, 1, "fill"); memset(m.pix, v, m.n); for (int i = 0; i < few; i++) { if (i * 40 + 3 < (int)m.n) vp_symbolic(m.pix + i * 40 + 3, 1, "pa"); vp_symbolic(m.pix + m.n - 1 - i, 1, "pe"); } }
  else if (sym) vp_symbolic(m.pix, m.n, nm); else for (size_t i = 0; i < m.n; i++) m.pix[i] = (ILubyte)(i * 37 + 11);
  ILboolean ok = ilTexImage(m.w, m.h, m.d, m.bpp, m.f, m.t, m.pix); vp_assert(ok, "an image of this shape can be created");
  if (m.f == IL_COLOUR_INDEX && m.pn) {
    size_t pb = (size_t)m.pn * vhPalBpp(m.pt); m.pal = (ILubyte*)malloc(pb);
    if (sym) vp_symbolic(m.pal, pb, "pal"); else for (size_t i = 0; i < pb; i++) m.pal[i] = (ILubyte)(i * 29 + 3);
    ilRegisterPal(m.pal, (ILuint)pb, m.pt);
  }
  ilRegisterOrigin(vhOrigin(m.org));
}
static void vhParamImg(VImg &m) {
  m.w = vp_param("w", 2); m.h = vp_param("h", 2); m.d = vp_param("d", 1); m.f = vp_param("f", IL_RGB); m.t = vp_param("t", IL_UNSIGNED_BYTE);
  m.org = vp_param("o", 0); m.pt = vp_param("pt", IL_PAL_RGB24); m.pn = vp_param("pn", 0); m.pal = 0; m.pix = 0;
}
static ILubyte palc(int pt, const ILubyte *e, int c) { // channel c (0 r, 1 g, 2 b, 3 a)
  bool bgr = pt == IL_PAL_BGR24 || pt == IL_PAL_BGR32 || pt == IL_PAL_BGRA32;
  return e[c == 3 ? 3 : bgr ? 2 - c : c];
}
// where colour channel c (0 r, 1 g, 2 b) / alpha lives in a pixel of a true colour format
static inline int vhColAt(int f, int c) { return f == IL_BGR || f == IL_BGRA ? 2 - c : f == IL_RGB || f == IL_RGBA ? c : 0; }
static inline int vhAlphaAt(int f) { return f == IL_RGBA || f == IL_BGRA ? 3 : f == IL_LUMINANCE_ALPHA ? 1 : f == IL_ALPHA ? 0 : -1; }
