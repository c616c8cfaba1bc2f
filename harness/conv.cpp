#include "img.h"
// Format, type and palette conversion of the bound image.
static const float LF[3] = { 0.212671f, 0.715160f, 0.072169f };
static unsigned long long maxv(int t) { return t == IL_UNSIGNED_BYTE ? 0xff : t == IL_UNSIGNED_SHORT ? 0xffff : 0xffffffffu; }
static bool flt(int t) { return t == IL_FLOAT || t == IL_DOUBLE; }
static unsigned long long geti(int t, const ILubyte *p) { if (vhBpc(t) == 1) return *p; if (vhBpc(t) == 2) { ILushort v; memcpy(&v, p, 2); return v; } ILuint v; memcpy(&v, p, 4); return v; }
static double getf(int t, const ILubyte *p) { if (t == IL_FLOAT) { ILfloat v; memcpy(&v, p, 4); return v; } ILdouble v; memcpy(&v, p, 8); return v; }
static void solid(int t, ILubyte *o) { if (t == IL_FLOAT) { float v = 1; memcpy(o, &v, 4); } else if (t == IL_DOUBLE) { double v = 1; memcpy(o, &v, 8); } else memset(o, 0xff, vhBpc(t)); }
static bool isgrey(int f) { return f == IL_LUMINANCE || f == IL_LUMINANCE_ALPHA; }
static bool iscol(int f) { return f == IL_RGB || f == IL_RGBA || f == IL_BGR || f == IL_BGRA; }
static void shape(const VImg &m, int f, int t) {
  size_t n = (size_t)m.w * m.h * m.d * vhChan(f) * vhBpc(t);
  vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == f && ilGetInteger(IL_IMAGE_TYPE) == t, "the image has the requested format and type");
  vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == m.w && ilGetInteger(IL_IMAGE_HEIGHT) == m.h && ilGetInteger(IL_IMAGE_DEPTH) == m.d, "conversion keeps the dimensions");
  vp_assert(ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == (int)n && ilGetInteger(IL_IMAGE_CHANNELS) == vhChan(f) && ilGetInteger(IL_IMAGE_BPC) == vhBpc(t), "the sizes fit the format and type");
  vp_assert(ilGetInteger(IL_IMAGE_PLANESIZE) == (int)(n / m.d), "the plane size fits the format and type");
  vp_assert((unsigned)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "conversion keeps the origin");
  vp_assert(ilGetData() != 0 && vp_ptr_valid(ilGetData(), n), "the pixel data is as large as reported");
  if (f != IL_COLOUR_INDEX) vp_assert(ilGetInteger(IL_PALETTE_TYPE) == IL_PAL_NONE || ilGetInteger(IL_PALETTE_NUM_COLS) == 0, "an image that is not indexed has no palette");
}
// the pixel p of format f,type t as expected from source pixel s of format sf (same type)
static void expectpix(int t, int sf, const ILubyte *s, int f, const ILubyte *p) {
  int b = vhBpc(t); ILubyte one[8]; solid(t, one);
  if (iscol(f) && iscol(sf)) for (int c = 0; c < 3; c++) vp_assert(vp_same(p + vhColAt(f, c) * b, s + vhColAt(sf, c) * b, b), "colours keep their values");
  if (iscol(f) && isgrey(sf)) for (int c = 0; c < 3; c++) vp_assert(vp_same(p + c * b, s, b), "grey goes to all three colours");
  if (isgrey(f) && isgrey(sf)) vp_assert(vp_same(p, s, b), "grey keeps its value");
  if (isgrey(f) && iscol(sf)) {
    if (!flt(t)) {
      float r = 0; for (int c = 0; c < 3; c++) r += geti(t, s + vhColAt(sf, c) * b) * LF[c];
      float r2 = 0; for (int c = 2; c >= 0; c--) r2 += geti(t, s + vhColAt(sf, c) * b) * LF[c];
      unsigned long long v = geti(t, p), e = (unsigned long long)r, e2 = (unsigned long long)r2, tol = b == 1 ? 1 : b == 2 ? 2 : 1024;
      vp_assert((v == e) | (v == e2) | ((v + tol >= e) & (v <= e + tol)), "grey is the weighted sum of the colours");
    } else {
      double r = 0, r2 = 0; float q = 0, q2 = 0;
      for (int c = 0; c < 3; c++) { double v = getf(t, s + vhColAt(sf, c) * b); r += v * LF[c]; q += (float)v * LF[c]; }
      for (int c = 2; c >= 0; c--) { double v = getf(t, s + vhColAt(sf, c) * b); r2 += v * LF[c]; q2 += (float)v * LF[c]; }
      double v = getf(t, p); if (t == IL_FLOAT) vp_assert((v == q) | (v == q2) | ((v >= r - 0.001) & (v <= r + 0.001)), "grey is the weighted sum of the colours");
      else vp_assert((v == r) | (v == r2) | ((v >= r - 0.0001) & (v <= r + 0.0001)), "grey is the weighted sum of the colours");
    }
  }
  if (vhAlphaAt(f) >= 0 && f != IL_ALPHA) {
    if (vhAlphaAt(sf) >= 0) vp_assert(vp_same(p + vhAlphaAt(f) * b, s + vhAlphaAt(sf) * b, b), "alpha keeps its value");
    else vp_assert(vp_same(p + vhAlphaAt(f) * b, one, b), "added alpha is opaque");
  }
  if (f == IL_ALPHA && vhAlphaAt(sf) >= 0) vp_assert(vp_same(p, s + vhAlphaAt(sf) * b, b), "the alpha channel is what is kept");
}
static ILubyte *copyOf(const VImg &m) { ILubyte *s = (ILubyte*)malloc(m.n); memcpy(s, m.pix, m.n); return s; }
// few=1: luminance of colours: only two channels of a pixel are symbolic (every pair occurs), so that floating point is decided over the whole domain
static void lumin(VImg &m) {
  int b = m.bpc; m.n = (size_t)m.w * m.h * m.d * m.bpp * b;
}
H(h_fmt) {   // format conversion, same type
  vhInit(); VImg m; vhParamImg(m); int df = vp_param("df", IL_RGBA); vhNew(); m.bpp = vhChan(m.f); m.bpc = vhBpc(m.t);
  int b = m.bpc; m.n = (size_t)m.w * m.h * m.d * m.bpp * b;
  vhMake(m, "pix", vp_param("lum", 0) == 0);
  if (vp_param("lum", 0)) {   // colour to grey: each pixel has one symbolic colour byte pair, the rest concrete extremes
    ILubyte *px = (ILubyte*)malloc(m.n); memset(px, 0, m.n); int np = m.w * m.h * m.d;
    for (int i = 0; i < np; i++) for (int c = 0; c < m.bpp; c++) {
      ILubyte *q = px + (i * m.bpp + c) * b; int a = vhAlphaAt(m.f);
      if (c == a) { vp_symbolic(q, b, "alpha"); continue; }
      if (flt(m.t)) { float v = (i + c) % 3 ? 0.25f * c : 1.0f; double w = v; if (m.t == IL_FLOAT) memcpy(q, &v, 4); else memcpy(q, &w, 8); continue; }
      bool sy = b == 1 ? (i % 3 != c) : b == 2 ? (i % 3 == c) : false;
      if (sy) vp_symbolic(q, b, "c"); else if (b == 4) { ILuint v = i == 0 ? 0xFFFFFFFFu : (i + c) % 3 ? 0x01000000u * c : 0xF0000000u; memcpy(q, &v, 4); } else memset(q, i / 3 % 2 ? 0xff : 0, b);
    }
    memcpy(m.pix, px, m.n); memcpy(ilGetData(), px, m.n);
  }
  ILubyte *src = copyOf(m); vhErr(); unsigned long live = vhLive;
  ILboolean ok = ilConvertImage(df, m.t); vp_assert(ok, "the conversion is possible"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); if (!ok) return;
  shape(m, df, m.t); ILubyte *d = ilGetData(); int np = m.w * m.h * m.d;
  for (int i = 0; i < np; i++) expectpix(m.t, m.f, src + (size_t)i * m.bpp * b, df, d + (size_t)i * vhChan(df) * b);
  vp_check_init(d, (size_t)np * vhChan(df) * b, "converted pixels do not depend on uninitialised memory");
  if (!flt(m.t)) vp_observe_buf("out", d, (size_t)np * vhChan(df) * b);
  vp_assert(vhLive == live, "conversion keeps one block of pixel data"); vp_reach("end");
}
static void exptype(int st, int dt, const ILubyte *s, const ILubyte *p) {
  int sb = vhBpc(st), db = vhBpc(dt);
  if (!flt(st) && !flt(dt)) {
    unsigned long long v = geti(st, s), o = geti(dt, p), e = v;
    if (db > sb) { e = 0; for (int i = 0; i < db / sb; i++) e = e << (8 * sb) | v; } else if (db < sb) e = v >> (8 * (sb - db));
    vp_assert(o == e, "integer samples are widened by repeating and narrowed by keeping the high bits");
  } else if (flt(dt) && !flt(st)) {
    double v = (double)geti(st, s), mx = (double)maxv(st), o = getf(dt, p);
    if (dt == IL_FLOAT) { float e = (float)geti(st, s) / (float)maxv(st); vp_assert((o == e) | ((o >= v / mx - 1e-6) & (o <= v / mx + 1e-6)), "integer samples become fractions of the largest value"); }
    else { double e = v / mx; vp_assert((o == e) | ((o >= e - 1e-9) & (o <= e + 1e-9)), "integer samples become fractions of the largest value"); }
  } else if (flt(st) && flt(dt)) {
    double v = getf(st, s), o = getf(dt, p); vp_assert((o == v) | (o == (double)(float)v) | (v != v), "floating point samples keep their value");
  } else {
    double v = getf(st, s), o = (double)geti(dt, p), mx = (double)maxv(dt);
    double c = v < 0 ? 0 : v > 1 ? 1 : v; double e = c * mx, tol = dt == IL_UNSIGNED_INT ? 512 : 1.0001;
    vp_assert((o >= e - tol) & (o <= e + tol) & (v > 0 || o == 0) & (v < 1 || o == mx || (dt == IL_UNSIGNED_INT && o >= mx - 512)), "fractions are clamped and scaled to the integer range");
  }
}
H(h_type) {   // type conversion, same format
  vhInit(); VImg m; vhParamImg(m); int dt = vp_param("dt", IL_UNSIGNED_SHORT); vhNew(); vhMake(m, "pix", !flt(m.t));
  if (flt(m.t)) { // k/512 for every k in -128..1151 of one symbolic short; exactly representable
    int nc = (int)(m.n / m.bpc); ILubyte *px = (ILubyte*)malloc(m.n);
    for (int i = 0; i < nc; i++) { ILshort k; vp_symbolic(&k, 2, "k"); double v = k / 512.0; float fv = (float)v; if (m.t == IL_FLOAT) memcpy(px + 4 * i, &fv, 4); else memcpy(px + 8 * i, &v, 8); }
    memcpy(m.pix, px, m.n); memcpy(ilGetData(), px, m.n);
  }
  if (m.t == IL_HALF) for (size_t i = 0; i < m.n; i += 2) { ILushort v; memcpy(&v, m.pix + i, 2); vp_assume((v & 0x7fff) <= 0x7c00 && v != 0x8000); }   // no NaN, no negative zero
  if (vp_param("half", 0)) { int nc = (int)(m.n / 4); for (int i = 0; i < nc; i++) { ILushort k; vp_symbolic(&k, 2, "k"); ILuint v = i % 2 ? (ILuint)k << 16 | k : (ILuint)k << 16 | 0x8001; memcpy(m.pix + 4 * i, &v, 4); } memcpy(ilGetData(), m.pix, m.n); }
  ILubyte *src = copyOf(m); vhErr(); unsigned long live = vhLive;
  ILboolean ok = ilConvertImage(m.f, dt); vp_assert(ok, "the conversion is possible"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); if (!ok) return;
  shape(m, m.f, dt); ILubyte *d = ilGetData(); int nc = m.w * m.h * m.d * m.bpp;
  vp_check_init(d, (size_t)nc * vhBpc(dt), "converted pixels do not depend on uninitialised memory");
  bool sg = m.t == IL_BYTE || m.t == IL_SHORT || m.t == IL_INT, dsg = dt == IL_BYTE || dt == IL_SHORT || dt == IL_INT, half = m.t == IL_HALF || dt == IL_HALF;
  if (!half && ((sg == dsg && !flt(dt)) || !sg && !dsg)) for (int i = 0; i < nc; i++) exptype(m.t, dt, src + (size_t)i * m.bpc, d + (size_t)i * vhBpc(dt));
  if (vp_param("back", 0)) { ok = ilConvertImage(m.f, m.t); vp_assert(ok && vp_same(ilGetData(), src, m.n), "widening and narrowing back gives the same samples"); }
  vp_assert(vhLive == live, "conversion keeps one block of pixel data"); vp_reach("end");
}
H(h_both) {   // format and type at once is the same as one after the other
  vhInit(); VImg m; vhParamImg(m); int df = vp_param("df", IL_RGBA), dt = vp_param("dt", IL_UNSIGNED_SHORT); ILuint a = vhNew(); vhMake(m, "pix", true);
  ILubyte *src = copyOf(m); ILuint b = vhNew(); ilTexImage(m.w, m.h, m.d, m.bpp, m.f, m.t, src); ilRegisterOrigin(vhOrigin(m.org)); vhErr();
  vp_assert(ilConvertImage(df, dt), "the conversion is possible"); shape(m, df, dt); size_t n = (size_t)m.w * m.h * m.d * vhChan(df) * vhBpc(dt); vp_check_init(ilGetData(), n, "converted pixels do not depend on uninitialised memory");
  ilBindImage(a); vp_assert(ilConvertImage(m.f, dt) && ilConvertImage(df, dt), "the conversion is possible"); ILubyte *p = ilGetData(); ilBindImage(b);
  vp_assert(vp_same(ilGetData(), p, n), "converting format and type together equals converting them in turn"); vp_reach("end");
}
H(h_pal) {   // indexed image to true colour
  vhInit(); VImg m; vhParamImg(m); m.f = IL_COLOUR_INDEX; int df = vp_param("df", IL_RGB), dt = vp_param("dt", IL_UNSIGNED_BYTE), oor = vp_param("oor", 0); vhNew(); vhMake(m, "pix");
  if (vp_param("conc", 0)) {   // concrete indexes, two symbolic channels per entry: floating point over the whole domain
    for (size_t i = 0; i < m.n; i++) m.pix[i] = (ILubyte)(i % m.pn); memcpy(ilGetData(), m.pix, m.n); int pb = vhPalBpp(m.pt);
    for (int k = 0; k < m.pn; k++) m.pal[k * pb + k % 3] = k & 1 ? 255 : 0; ilRegisterPal(m.pal, m.pn * pb, m.pt);
  }
  if (!oor) for (size_t i = 0; i < m.n; i++) vp_assume(m.pix[i] < m.pn);
  ILubyte *src = copyOf(m); vhErr(); unsigned long live = vhLive;
  ILboolean ok = ilConvertImage(df, dt); vp_assert(ok || oor, "the conversion is possible"); if (!ok) return; vp_assert(vhErr() == IL_NO_ERROR, "no error is reported");
  shape(m, df, dt); ILubyte *d = ilGetData(); int b = vhBpc(dt), np = (int)m.n, pb = vhPalBpp(m.pt);
  vp_check_init(d, (size_t)np * vhChan(df) * b, "converted pixels do not depend on uninitialised memory");
  if (!oor) for (int i = 0; i < np; i++) {
    ILubyte e[8] = {0,0,0,0,0,0,0,0}; ILubyte idx = src[i]; bool pa = m.pt == IL_PAL_RGBA32 || m.pt == IL_PAL_BGRA32;
    for (int k = 0; k < m.pn; k++) if (1) { ILubyte sel = (ILubyte)-(idx == k); for (int c = 0; c < 3; c++) e[c] |= palc(m.pt, m.pal + k * pb, c) & sel; e[3] |= (pa ? m.pal[k * pb + 3] : 255) & sel; }
    ILubyte q[32]; int nc = vhChan(df);
    if (iscol(df)) { for (int c = 0; c < 3; c++) q[vhColAt(df, c)] = e[c]; if (nc == 4) q[3] = e[3]; }
    else if (df == IL_ALPHA) q[0] = e[3];
    if (isgrey(df)) { if (vp_param("lum", 1)) {
        float r = 0; for (int c = 0; c < 3; c++) r += e[c] * LF[c]; float r2 = 0; for (int c = 2; c >= 0; c--) r2 += e[c] * LF[c]; ILubyte v = d[i * nc], x = (ILubyte)r, y = (ILubyte)r2;
        vp_assert((v == x) | (v == y) | ((v + 1 >= x) & (v <= x + 1)), "grey is the weighted sum of the palette colour"); }
      if (nc == 2) vp_assert(d[i * 2 + 1] == e[3], "alpha is that of the palette"); }
    else for (int c = 0; c < nc; c++) { if (dt == IL_UNSIGNED_BYTE) vp_assert(d[i * nc + c] == q[c], "every pixel is its palette colour"); else exptype(IL_UNSIGNED_BYTE, dt, q + c, d + (size_t)(i * nc + c) * b); }
  }
  vp_assert(vhLive <= live, "conversion keeps no extra memory"); vp_reach("end");
}
H(h_cpal) {   // palette conversion
  vhInit(); VImg m; vhParamImg(m); m.f = IL_COLOUR_INDEX; int dp = vp_param("dp", IL_PAL_RGB24); vhNew(); vhMake(m, "pix"); ILubyte *pal = (ILubyte*)malloc(m.pn * 4); memcpy(pal, m.pal, m.pn * vhPalBpp(m.pt)); vhErr(); unsigned long live = vhLive;
  vp_assert(ilConvertPal(dp), "palettes can be converted"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); shape(m, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
  vp_assert(ilGetInteger(IL_PALETTE_TYPE) == dp && ilGetInteger(IL_PALETTE_NUM_COLS) == m.pn && ilGetInteger(IL_PALETTE_BPP) == vhPalBpp(dp), "the palette has the type asked for and as many colours as before");
  ILubyte *p = ilGetPalette(); int pb = vhPalBpp(m.pt), db = vhPalBpp(dp); vp_check_init(p, m.pn * db, "converted palettes do not depend on uninitialised memory");
  bool pa = m.pt == IL_PAL_RGBA32 || m.pt == IL_PAL_BGRA32, da = dp == IL_PAL_RGBA32 || dp == IL_PAL_BGRA32;
  for (int k = 0; k < m.pn; k++) { for (int c = 0; c < 3; c++) vp_assert(palc(dp, p + k * db, c) == palc(m.pt, pal + k * pb, c), "palette colours keep their values"); if (da) vp_assert(p[k * db + 3] == (pa ? pal[k * pb + 3] : 255), "palette alpha is kept, or opaque when there was none"); }
  vp_assert(vp_same(ilGetData(), m.pix, m.n), "the indexes are unchanged"); vp_assert(vhLive == live, "no memory is lost"); vp_observe_buf("pal", p, m.pn * db); vp_reach("end");
}
H(h_toci) {   // grey to indexed
  vhInit(); VImg m; vhParamImg(m); m.f = IL_LUMINANCE; m.t = IL_UNSIGNED_BYTE; vhNew(); vhMake(m, "pix"); ILubyte *src = copyOf(m); vhErr();
  vp_assert(ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE), "grey images can be indexed"); shape(m, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); ILubyte *d = ilGetData(), *p = ilGetPalette(); int pt = ilGetInteger(IL_PALETTE_TYPE), n = ilGetInteger(IL_PALETTE_NUM_COLS), pb = vhPalBpp(pt);
  vp_assert(pt != IL_PAL_NONE && p && n > 0, "there is a palette");
  for (size_t i = 0; i < m.n; i++) { vp_assert(d[i] < n, "indexes are inside the palette"); for (int c = 0; c < 3; c++) vp_assert(palc(pt, p + d[i] * pb, c) == src[i], "the palette colour of every pixel is its grey"); }
  vp_reach("end");
}
