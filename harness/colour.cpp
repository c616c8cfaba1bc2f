#include "img.h"
// Colour operations of ILU against their plain definitions; filters: what they must keep.
static void shape(const VImg &m, unsigned live, ILuint name, int f) {
  vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == m.w && ilGetInteger(IL_IMAGE_HEIGHT) == m.h && ilGetInteger(IL_IMAGE_DEPTH) == m.d, "the dimensions are kept");
  vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == f && ilGetInteger(IL_IMAGE_TYPE) == m.t && ilGetInteger(IL_IMAGE_CHANNELS) == m.bpp, "format and type are kept");
  vp_assert((unsigned)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "the origin is kept"); vp_assert((size_t)ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == (size_t)m.w * m.h * m.d * m.bpp * m.bpc, "the size of the data agrees with the shape");
  vp_assert(vhLive == live, "no memory is lost"); vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == name, "the same image is bound");
}
static unsigned long long smp(const ILubyte *p, int t) { unsigned long long v = 0; memcpy(&v, p, vhBpc(t)); return v; }
static double fl(const ILubyte *p, int t) { if (t == IL_FLOAT) { float f; memcpy(&f, p, 4); return f; } double d; memcpy(&d, p, 8); return d; }
static void putf(ILubyte *p, int t, double v) { if (t == IL_FLOAT) { float f = (float)v; memcpy(p, &f, 4); } else memcpy(p, &v, 8); }
H(h_neg) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix", m.t != IL_FLOAT && m.t != IL_DOUBLE); bool f = m.t == IL_FLOAT || m.t == IL_DOUBLE; ILubyte *d = ilGetData();
  if (f) { for (size_t i = 0; i < m.n; i += m.bpc) { ILubyte k; vp_symbolic(&k, 1, "k"); putf(m.pix + i, m.t, k / 128.0); } memcpy(d, m.pix, m.n); }
  vhErr(); unsigned live = vhLive; vp_assert(iluNegative(), "an image can be negated"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); shape(m, live, a, m.f); d = ilGetData(); int al = vhAlphaAt(m.f);
  if (m.f == IL_COLOUR_INDEX) { vp_assert(vp_same(d, m.pix, m.n), "the indexes are kept"); vp_assert(ilGetInteger(IL_PALETTE_TYPE) == m.pt && ilGetInteger(IL_PALETTE_NUM_COLS) == m.pn, "the palette is kept"); int pb = vhPalBpp(m.pt); ILubyte *p = ilGetPalette();
    for (int i = 0; i < m.pn; i++) for (int c = 0; c < 3; c++) vp_assert(palc(m.pt, p + i * pb, c) == 255 - palc(m.pt, m.pal + i * pb, c), "every colour of the palette is inverted"); }
  else for (size_t i = 0; i < m.n; i += m.bpc) { if ((int)(i / m.bpc % m.bpp) == al) continue; if (f) { double x = fl(d + i, m.t), y = fl(m.pix + i, m.t); vp_assert((x == 1.0 - y) | (x == (double)(1.0f - (float)y)), "every colour sample is inverted"); } else { unsigned long long mx = m.bpc == 4 ? 0xFFFFFFFFu : m.bpc == 2 ? 0xFFFF : 0xFF; vp_assert(smp(d + i, m.t) == mx - smp(m.pix + i, m.t), "every colour sample is inverted"); } }
  if (!f) { vp_assert(iluNegative(), "an image can be negated"); vp_assert(vp_same(ilGetData(), m.pix, m.n), "negating twice restores the picture"); if (m.pn) vp_assert(vp_same(ilGetPalette(), m.pal, (size_t)m.pn * vhPalBpp(m.pt)), "negating twice restores the palette"); }
  vp_reach("end");
}
H(h_swap) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; ILboolean ok = iluSwapColours(); int al = vhAlphaAt(m.f);
  if (m.f == IL_LUMINANCE || m.f == IL_LUMINANCE_ALPHA || m.f == IL_ALPHA) { vp_assert(!ok && vhErr() != IL_NO_ERROR, "grey images are refused"); shape(m, live, a, m.f); vp_assert(vp_same(ilGetData(), m.pix, m.n), "a refused request changes no pixel"); vp_reach("end"); return; }
  vp_assert(ok && vhErr() == IL_NO_ERROR, "the colours can be swapped"); int nf = m.f == IL_RGB ? IL_BGR : m.f == IL_BGR ? IL_RGB : m.f == IL_RGBA ? IL_BGRA : m.f == IL_BGRA ? IL_RGBA : m.f; shape(m, live, a, nf); ILubyte *d = ilGetData();
  if (m.f == IL_COLOUR_INDEX) { vp_assert(vp_same(d, m.pix, m.n), "the indexes are kept"); int pt = ilGetInteger(IL_PALETTE_TYPE); vp_assert(pt != m.pt && vhPalBpp(pt) == vhPalBpp(m.pt), "the palette has the other channel order"); vp_assert(ilGetInteger(IL_PALETTE_NUM_COLS) == m.pn, "the palette keeps its size"); ILubyte *p = ilGetPalette(); int pb = vhPalBpp(pt);
    for (int i = 0; i < m.pn; i++) for (int c = 0; c < 3; c++) { vp_assert(palc(pt, p + i * pb, c) == palc(m.pt, m.pal + i * pb, c), "the colours of the palette are kept"); vp_assert(p[i * pb + c] == m.pal[i * pb + 2 - c], "the channels are swapped"); } }
  else for (size_t i = 0; i < m.n; i += m.bpp * m.bpc) { for (int c = 0; c < 3; c++) vp_assert(vp_same(d + i + c * m.bpc, m.pix + i + (2 - c) * m.bpc, m.bpc), "the channels are swapped"); if (al >= 0) vp_assert(vp_same(d + i + al * m.bpc, m.pix + i + al * m.bpc, m.bpc), "alpha is kept"); }
  vp_reach("end");
}
static int clampb(int v) { return v < 0 ? 0 : v > 255 ? 255 : v; }
H(h_scale) { // iluScaleColours / iluScaleAlpha by k/16 per channel
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; int alpha = vp_param("alpha", 0), k[3]; k[0] = vp_param("r", 8), k[1] = vp_param("g", 24), k[2] = vp_param("b", 16);
  int bad = alpha ? vhAlphaAt(m.f) < 3 && !(m.f == IL_COLOUR_INDEX && (m.pt == IL_PAL_RGBA32 || m.pt == IL_PAL_BGRA32)) : m.f == IL_ALPHA; if (m.bpc > 1) bad = 1;
  ILboolean ok = alpha ? iluScaleAlpha(k[0] / 16.0f) : iluScaleColours(k[0] / 16.0f, k[1] / 16.0f, k[2] / 16.0f); shape(m, live, a, m.f); ILubyte *d = ilGetData(); int al = vhAlphaAt(m.f);
  if (bad) { vp_assert(!ok && vhErr() != IL_NO_ERROR, "an image without such samples is refused"); vp_assert(vp_same(d, m.pix, m.n), "a refused request changes no pixel"); vp_reach("end"); return; }
  vp_assert(ok && vhErr() == IL_NO_ERROR, "byte images can be scaled"); ILubyte *q = d, *s = m.pix; int bpp = m.bpp, f = m.f; size_t n = m.n;
  if (f == IL_COLOUR_INDEX) { vp_assert(vp_same(d, m.pix, m.n), "the indexes are kept"); q = ilGetPalette(); s = m.pal; bpp = vhPalBpp(m.pt); n = (size_t)m.pn * bpp; vp_assert(ilGetInteger(IL_PALETTE_TYPE) == m.pt && ilGetInteger(IL_PALETTE_NUM_COLS) == m.pn, "the palette is kept"); }
  for (size_t i = 0; i < n; i++) { int c = i % bpp, ch; if (f == IL_COLOUR_INDEX) { bool bgr = m.pt == IL_PAL_BGR24 || m.pt == IL_PAL_BGR32 || m.pt == IL_PAL_BGRA32; ch = c == 3 ? 3 : bgr ? 2 - c : c; } else ch = c == al ? 3 : f == IL_LUMINANCE || f == IL_LUMINANCE_ALPHA ? 0 : f == IL_BGR || f == IL_BGRA ? 2 - c : c;
    if (alpha ? ch == 3 : ch < 3) { int v = s[i] * k[alpha ? 0 : ch]; vp_assert(q[i] == clampb(v < 0 ? 0 : v / 16), alpha ? "alpha is multiplied and clamped" : "every colour is multiplied by its factor and clamped"); } else vp_assert(q[i] == s[i], "the other samples are kept"); }
  vp_reach("end");
}
H(h_contrast) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; int k = vp_param("k", 16); vp_assert(iluContrast(k / 16.0f), "the contrast of an image can be changed"); shape(m, live, a, m.f); ILubyte *d = ilGetData(), *s = m.pix; size_t n = m.n;
  if (m.f == IL_COLOUR_INDEX) { vp_assert(vp_same(d, m.pix, m.n), "the indexes are kept"); d = ilGetPalette(); s = m.pal; n = (size_t)m.pn * vhPalBpp(m.pt); }
  for (size_t i = 0; i < n; i++) { int v = (16 - k) * 127 + k * s[i]; vp_assert(d[i] == clampb(v < 0 ? 0 : v / 16), "every sample moves away from the middle by the factor, and is clamped"); } vp_reach("end");
}
H(h_sat) { // iluSaturate1f(s/16)
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; int s = vp_param("s", 16); ILboolean ok = iluSaturate1f(s / 16.0f); shape(m, live, a, m.f); ILubyte *d = ilGetData(); bool col = vhColAt(m.f, 0) != vhColAt(m.f, 2);
  if (!col || m.bpc > 1) { vp_assert(!ok && vhErr() != IL_NO_ERROR, "images without colour bytes are refused"); vp_assert(vp_same(d, m.pix, m.n), "a refused request changes no pixel"); vp_reach("end"); return; }
  vp_assert(ok && vhErr() == IL_NO_ERROR, "colour images can be saturated");
  for (size_t i = 0; i < m.n; i += m.bpp) { ILubyte *p = m.pix + i; int al = vhAlphaAt(m.f), c0[3]; for (int c = 0; c < 3; c++) c0[c] = p[vhColAt(m.f, c)]; int g = 3086 * c0[0] + 6094 * c0[1] + 820 * c0[2];
    for (int c = 0; c < 3; c++) { int v = (16 - s) * g + s * c0[c] * 10000, lo = v - 160000, hi = v + 160000, o = d[i + vhColAt(m.f, c)]; vp_assert((o * 160000 <= (hi < 0 ? 0 : hi)) & (o == 255 || o * 160000 >= lo), "every colour moves away from its grey by the factor, and is clamped"); }
    if (al >= 0) vp_assert(d[i + al] == p[al], "alpha is kept"); }
  vp_reach("end");
}
H(h_gamma) { // gamma g/16
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix", m.t != IL_FLOAT && m.t != IL_DOUBLE); vhErr(); unsigned live = vhLive; int g = vp_param("g", 16); ILboolean ok = iluGammaCorrect(g / 16.0f); shape(m, live, a, m.f); ILubyte *d = ilGetData(), *s = m.pix; size_t n = m.n; int t = m.t;
  if (g <= 0 || t == IL_FLOAT || t == IL_DOUBLE) { vp_assert(!ok && vhErr() != IL_NO_ERROR, "a factor that is not positive, or floating point samples, are refused"); vp_assert(vp_same(d, m.pix, m.n), "a refused request changes no pixel"); vp_reach("end"); return; }
  vp_assert(ok && vhErr() == IL_NO_ERROR, "images can be gamma corrected"); if (m.f == IL_COLOUR_INDEX) { vp_assert(vp_same(d, m.pix, m.n), "the indexes are kept"); d = ilGetPalette(); s = m.pal; n = (size_t)m.pn * vhPalBpp(m.pt); }
  unsigned long long mx = m.bpc == 4 ? 0xFFFFFFFFu : m.bpc == 2 ? 0xFFFF : 0xFF; int sh = 8 * m.bpc - 8; for (size_t i = 0; i < n; i += m.bpc) { unsigned long long x = smp(s + i, t), y = smp(d + i, t);
    vp_assert((x != 0) | (y == 0), "black stays black"); vp_assert((x != mx) | (y == mx), "the largest value stays the largest value"); if (g == 16) vp_assert(y >> sh == x >> sh, "a factor of one changes nothing"); if (g > 16) vp_assert(y >> sh >= x >> sh, "a factor above one makes nothing darker"); if (g < 16) vp_assert(y >> sh <= x >> sh, "a factor below one makes nothing brighter");
    if (i >= (size_t)m.bpc) { unsigned long long x2 = smp(s + i - m.bpc, t), y2 = smp(d + i - m.bpc, t); vp_assert((x < x2) | (y >= y2), "the order of the values is kept"); } }
  vp_reach("end");
}
H(h_replace) { // tol: tolerance in 1/255
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix", false); ILubyte *d = ilGetData(); int nb = m.bpp < 2 ? 1 : 2; ILubyte s[2]; vp_symbolic(s, nb, "s"); for (size_t i = 0; i < m.n; i++) m.pix[i] = i < (size_t)nb ? s[i] : i >= m.n - m.bpp ? (ILubyte)(m.bpp == 4 && i % 4 == 3 ? 9 : 100) : (ILubyte)(100 + i * 7); int far = vp_param("far", 0); if (far) for (size_t i = nb; i < m.n; i++) m.pix[i] = (ILubyte)(i * 83); memcpy(d, m.pix, m.n);
  if (far) ilClearColour(1.0f, 0.0f, 1.0f, 1.0f); else ilClearColour(100 / 255.0f, 100 / 255.0f, 107 / 255.0f, 1.0f); vhErr(); unsigned live = vhLive; int tol = vp_param("tol", 10); vp_assert(iluReplaceColour(1, 2, 3, tol / 255.0f + (tol ? 0.001f : 0)), "colours can be replaced"); shape(m, live, a, m.f); d = ilGetData(); int cc[3] = {far ? 255 : 100, far ? 0 : 100, far ? 255 : 107}, rc[3] = {1, 2, 3};
  for (size_t i = 0; i < m.n; i += m.bpp) { int d2 = 0; for (int c = 0; c < 3; c++) { int x = m.pix[i + vhColAt(m.f, c)] - cc[c]; d2 += x * x; } bool hit = d2 < (tol + 1) * (tol + 1); if (!tol) hit = false; for (int c = 0; c < 3; c++) { int o = vhColAt(m.f, c); vp_assert(d[i + o] == (hit ? rc[c] : m.pix[i + o]), "exactly the pixels whose colour is within the tolerance of the clear colour are replaced"); } int al = vhAlphaAt(m.f); if (al >= 0) vp_assert(d[i + al] == m.pix[i + al], "alpha is kept"); }
  vp_reach("end");
}
// filters with neutral parameters change nothing; with others they keep the shape, stay in memory, and leave no sample undefined
static ILint ident[9] = {0,0,0,0,1,0,0,0,0}, mat[9] = {1,2,3,4,-5,6,7,8,9};
static ILboolean op(int k, int neutral) {
  switch (k) {
    case 0: return iluPixelize(neutral ? 1 : 2); case 1: return iluEdgeDetectP(); case 2: return iluEdgeDetectS(); case 3: return iluBlurAvg(neutral ? 0 : 1); case 4: return iluBlurGaussian(neutral ? 0 : 2); case 5: return iluEmboss(); case 6: return iluEdgeDetectE();
    case 7: return iluSharpen(neutral ? 1.0f : 1.5f, 1); case 8: return iluConvolution(neutral ? ident : mat, neutral ? 1 : 3, neutral ? 0 : 2); case 9: return iluNoisify(neutral ? 0.0f : 0.5f); case 10: return iluGammaCorrect(1.5f); case 11: return iluContrast(neutral ? 1.0f : 1.5f);
    case 12: return iluSaturate1f(neutral ? 1.0f : 0.5f); case 13: return iluSepia(); case 14: return iluWave(neutral ? 0.0f : 30.0f); case 15: return iluEqualize(); case 16: return iluEqualize2(); case 17: return iluAlienify(); case 18: return iluScaleColours(neutral ? 1.0f : 1.5f, neutral ? 1.0f : 0.5f, 1.0f); case 19: return iluScaleAlpha(neutral ? 1.0f : 0.5f);
    case 20: return iluNegative(); case 21: return iluReplaceColour(1, 2, 3, neutral ? 0.0f : 0.3f); }
  return IL_FALSE;
}
H(h_filter) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); int neutral = vp_param("neutral", 0), k = vp_param("k", 0), sy = vp_param("sym", 1); vhMake(m, "pix", false); ILubyte *d = ilGetData();
  if (m.t == IL_FLOAT || m.t == IL_DOUBLE) for (size_t i = 0; i < m.n; i += m.bpc) putf(m.pix + i, m.t, (i % 16) / 15.0); ILubyte s[2]; vp_symbolic(s, 2, "s"); if (m.f == IL_COLOUR_INDEX) { for (size_t i = 0; i < m.n; i++) m.pix[i] = i % m.pn; if (m.pn) vp_assume(s[0] < m.pn); } if (sy && m.bpc < 4) m.pix[0] = s[0]; memcpy(d, m.pix, m.n);
  vhErr(); unsigned live = vhLive; ILboolean ok = op(k, neutral); int f = ilGetInteger(IL_IMAGE_FORMAT); vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == a, "the same image is bound"); if (m.f == IL_COLOUR_INDEX && f != m.f) { vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == m.w && ilGetInteger(IL_IMAGE_HEIGHT) == m.h && ilGetInteger(IL_IMAGE_DEPTH) == m.d, "the dimensions are kept"); vp_reach("end"); return; }
  shape(m, live, a, m.f); d = ilGetData(); vp_check_init(d, m.n, "the picture does not depend on uninitialised memory"); if (neutral && ok && m.f != IL_COLOUR_INDEX) vp_assert(vp_same(d, m.pix, m.n), "neutral parameters change nothing"); if (!ok) vp_assert(vp_same(d, m.pix, m.n), "a refused filter changes nothing");
  ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
// convolutions: k 0 iluConvolution, 1 average, 2 Gaussian, 3 emboss, 4 emboss edge, 5 Prewitt, 6 Sobel, 7 sharpen by 24/16. nine: expect the last weight at the lower right
static const int MX[8][9] = {{2,0,-1,3,5,-2,1,0,0},{1,1,1,1,1,1,1,1,1},{1,2,1,2,4,2,1,2,1},{-1,0,1,-1,0,1,-1,0,1},{-1,0,1,-1,0,1,-1,0,1},{1,1,1,0,0,0,-1,-1,-1},{1,2,1,0,0,0,-1,-2,-1},{0,0,0,0,1,0,0,0,0}};
static const int MV[2][9] = {{1,0,-1,1,0,-1,1,0,-1},{1,0,-1,2,0,-2,1,0,-1}};
static int cv9(const ILubyte *p, int w, int h, int bpp, int x, int y, int c, const int *k, int sc, int bi, int nine) {
  int s = 0; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) { int X = x + (i == 2 && j == 2 && !nine ? 0 : i) - 1, Y = y + j - 1; Y = Y < 0 ? 0 : Y >= h ? h - 1 : Y; s += k[j * 3 + i] * p[(Y * w + X) * bpp + c]; }
  s += bi * sc; if (s < 0) s = -s; return clampb(s / (sc < 0 ? -sc : sc));
}
H(h_conv) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; int k = vp_param("k", 0), nine = vp_param("nine", 0), sc = vp_param("sc", 1), bi = vp_param("bi", 0); int M[9]; for (int i = 0; i < 9; i++) M[i] = MX[k][i]; if (!k && nine) M[8] = 1; if (!k && vp_param("last", 0)) M[8] = 4;
  ILboolean ok; switch (k) { case 0: ok = iluConvolution(M, sc, bi); break; case 1: ok = iluBlurAvg(1); sc = 9; bi = 1; break; case 2: ok = iluBlurGaussian(1); sc = 16; bi = 1; break; case 3: ok = iluEmboss(); bi = 128; break; case 4: ok = iluEdgeDetectE(); break; case 5: ok = iluEdgeDetectP(); break; case 6: ok = iluEdgeDetectS(); break; default: ok = iluSharpen(1.5f, 1); }
  vp_assert(ok && vhErr() == IL_NO_ERROR, "byte images can be filtered"); shape(m, live, a, m.f); ILubyte *d = ilGetData();
  for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { bool ex = x == 0 || x == m.w - 1, ey = y == 0 || y == m.h - 1; if (ex && !ey) continue; ILubyte *p = m.pix + (size_t)z * m.w * m.h * m.bpp, *q = d + (size_t)z * m.w * m.h * m.bpp;
    for (int c = 0; c < m.bpp; c++) { int o = q[(y * m.w + x) * m.bpp + c], in = p[(y * m.w + x) * m.bpp + c]; bool cor = ex && ey; if (cor && k < 5) { vp_assert(o == in, "the corners are kept"); continue; }
      if (k < 5) vp_assert(o == cv9(p, m.w, m.h, m.bpp, x, y, c, M, sc, bi, nine), "every sample is the weighted sum of its neighbourhood");
      else if (k < 7) { int H = cor ? in : cv9(p, m.w, m.h, m.bpp, x, y, c, M, 1, 0, 0), V = cor ? in : cv9(p, m.w, m.h, m.bpp, x, y, c, MV[k - 5], 1, 0, 0), s = H * H + V * V; vp_assert((o * o <= s) & ((o == 255) | ((o + 1) * (o + 1) > s)), "every sample is the length of the gradient, clamped"); }
      else { int B = cor ? in : cv9(p, m.w, m.h, m.bpp, x, y, c, MX[2], 16, 1, 0), v = 3 * in - B; vp_assert(o == clampb(v < 0 ? 0 : v / 2), "every sample moves away from the blurred picture"); } } }
  vp_reach("end");
}
H(h_pix) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); bool f = m.t == IL_FLOAT || m.t == IL_DOUBLE; int ps = vp_param("ps", 2); vhMake(m, "pix", !f); ILubyte *d = ilGetData(); if (f) { for (size_t i = 0; i < m.n; i += m.bpc) putf(m.pix + i, m.t, (i * 5 % 16) / 16.0); memcpy(d, m.pix, m.n); }
  vhErr(); unsigned live = vhLive; vp_assert(iluPixelize(ps), "an image can be pixelized"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); shape(m, live, a, m.f); d = ilGetData(); if (!ps) ps = 1; bool sg = m.t == IL_BYTE || m.t == IL_SHORT || m.t == IL_INT; int sb = 64 - 8 * m.bpc;
  for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) for (int c = 0; c < m.bpp; c++) { int Z = z - z % ps, Y = y - y % ps, X = x - x % ps, n = 0; long long s = 0; double fs = 0;
    for (int k = Z; k < Z + ps && k < m.d; k++) for (int j = Y; j < Y + ps && j < m.h; j++) for (int i = X; i < X + ps && i < m.w; i++) { ILubyte *p = m.pix + (((size_t)k * m.h + j) * m.w + i) * m.bpp * m.bpc + c * m.bpc; n++; if (f) fs += fl(p, m.t); else { long long v = (long long)smp(p, m.t); if (sg) v = (v << sb) >> sb; s += v; } }
    ILubyte *o = d + (((size_t)z * m.h + y) * m.w + x) * m.bpp * m.bpc + c * m.bpc; if (f) { double e = fl(o, m.t) - fs / n; vp_assert((e < 1e-6) & (e > -1e-6), "every block has the average of its samples"); } else { long long v = (long long)smp(o, m.t); if (sg) v = (v << sb) >> sb; vp_assert(v == s / n, "every block has the average of its samples"); } }
  vp_reach("end");
}
extern "C" double sin(double);
H(h_wave) { // angle g/4
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; float g = vp_param("g", 5) / 4.0f; vp_assert(iluWave(g), "an image can be waved"); shape(m, live, a, m.f); ILubyte *d = ilGetData(); int PB = m.bpp * m.bpc; const double DC = 0.0174532925199432957692;
  for (int z = 0; z < m.d; z++) for (unsigned y = 0; y < (unsigned)m.h; y++) { int dl = (int)(30 * sin((10 * g + y) * DC) + 15 * sin((7 * g + 3 * y) * DC)); dl %= m.w; if (dl < 0) dl += m.w; for (int x = 0; x < m.w; x++) vp_assert(vp_same(d + (((size_t)z * m.h + y) * m.w + (x + dl) % m.w) * PB, m.pix + (((size_t)z * m.h + y) * m.w + x) * PB, PB), "every row is turned by its place in the wave"); }
  vp_reach("end");
}
H(h_eq) { // grey images: equalizing keeps the order of the values
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; vp_assert(iluEqualize(), "a byte image can be equalized"); shape(m, live, a, m.f); ILubyte *d = ilGetData();
  for (size_t i = 0; i < m.n; i++) for (size_t j = 0; j < i; j++) { vp_assert((m.pix[i] != m.pix[j]) | (d[i] == d[j]), "equal pixels stay equal"); vp_assert((m.pix[i] <= m.pix[j]) | (d[i] >= d[j]), "the order of the values is kept"); } vp_reach("end");
}
// regions: nothing outside of the region changes; points that are not inside of the image select nothing
static ILpointi RP[3][4] = {{{1,1},{3,1},{3,3},{1,3}}, {{0,0},{3,0},{3,3},{0,3}}, {{2,0},{3,2},{2,3},{0,2}}};
H(h_region) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix", false); ILubyte *d = ilGetData(); int k = vp_param("k", 20), r = vp_param("r", 0), fv = vp_param("fv", 0); if (m.bpc < 4) { vp_symbolic(m.pix, 1, "s"); } memcpy(d, m.pix, m.n); vhErr(); unsigned live = vhLive; ILpointi P[4]; memcpy(P, RP[r], sizeof P);
  if (vp_param("any", 0)) for (int i = 0; i < 2; i++) { ILubyte v[2]; vp_symbolic(v, 2, "v"); P[i].x = (int)vp_concretize(v[0] % 6) - 1; P[i].y = (int)vp_concretize(v[1] % 6) - 1; }
  int x0 = 99, x1 = -1, y0 = 99, y1 = -1; for (int i = 0; i < 4; i++) { if (P[i].x < x0) x0 = P[i].x; if (P[i].x > x1) x1 = P[i].x; if (P[i].y < y0) y0 = P[i].y; if (P[i].y > y1) y1 = P[i].y; } bool in = x0 >= 0 && y0 >= 0 && x1 < m.w && y1 < m.h;
  if (fv) { ILpointf F[4]; for (int i = 0; i < 4; i++) { F[i].x = (P[i].x + 0.5f) / m.w; F[i].y = (P[i].y + 0.5f) / m.h; } iluRegionfv(F, 4); } else iluRegioniv(P, 4);
  for (int rep = 0; rep < 2; rep++) { ILboolean ok = op(k, 0); vp_assert(ok, "an image with a region can be filtered"); d = ilGetData(); size_t PB = m.bpp * m.bpc;
    for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) { size_t o = (((size_t)z * m.h + y) * m.w + x) * PB; if (in && (x < x0 || x > x1 || y < y0 || y > y1)) vp_assert(vp_same(d + o, m.pix + o, PB), "nothing outside of the region changes"); if (in && r != 2 && !vp_param("any", 0) && k == 20 && !rep && x >= x0 && x < x1 && y >= y0 && y < y1) vp_assert((d[o] ^ m.pix[o]) == 255, "everything inside of the region changes"); }
    if (!rep) { if (vp_param("other", 0)) { iluRegionfv(NULL, 0); iluRegioniv(P, 4); } else iluRegioniv(P, 4); } }
  iluRegioniv(NULL, 0); iluRegionfv(NULL, 0); vp_assert(vhLive == live, "regions lose no memory"); iluRegioniv(P, 2); vp_assert(vhErr() != IL_NO_ERROR, "a region of two points is refused"); memcpy(m.pix, ilGetData(), m.n); vp_assert(iluNegative(), "an image can be negated"); vp_assert((ilGetData()[m.n - 1] ^ m.pix[m.n - 1]) == 255 && (ilGetData()[0] ^ m.pix[0]) == 255, "without a region the whole image changes"); shape(m, live, a, m.f); vp_reach("end");
}
H(h_lang) {
  vhInit(); iluInit(); static const char *W[8] = {"no error", 0, "geen fout", 0, 0, "Kein Fehler", "pas d'erreur", "niente errore"}; vp_assert(!strcmp(iluErrorString(IL_NO_ERROR), "no error"), "messages are English at first"); unsigned short l, e; vp_symbolic(&l, 2, "l"); vp_symbolic(&e, 2, "e"); vhErr(); ILboolean ok = iluSetLanguage(l);
  vp_assert((ok != 0) == (l >= ILU_ENGLISH && l <= ILU_ITALIAN), "exactly the documented languages are known"); vp_assert((vhErr() != IL_NO_ERROR) == !ok, "an unknown language is an error"); l = ok ? (unsigned short)vp_concretize(l) : ILU_ENGLISH; const char *n = iluErrorString(IL_NO_ERROR); if (W[l - ILU_ENGLISH]) vp_assert(!strcmp(n, W[l - ILU_ENGLISH]), "the messages are in the language asked for");
  e = (unsigned short)vp_concretize(e >= 0x500 && e <= 0x600 ? e : 0x700); const char *s = iluErrorString(e); vp_assert(s != NULL && s[0] != 0, "every error has a message"); if ((e >= IL_INVALID_ENUM && e <= IL_FILE_READ_ERROR) || (e >= IL_LIB_GIF_ERROR && e <= IL_LIB_EXR_ERROR) || e == IL_UNKNOWN_ERROR) vp_assert(strcmp(s, n) != 0, "an error does not read as success"); vp_assert(vhErr() == IL_NO_ERROR, "asking for a message is no error"); vp_reach("end");
}
H(h_ilustate) {
  vhInit(); iluInit(); unsigned short p, v; vp_symbolic(&p, 2, "p"); vp_symbolic(&v, 2, "v"); vhErr(); vp_assert(iluGetInteger(ILU_FILTER) == ILU_NEAREST && iluGetInteger(ILU_PLACEMENT) == ILU_CENTER && iluGetInteger(ILU_VERSION_NUM) == ILU_VERSION, "the settings have their documented defaults"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); iluImageParameter(p, v); bool f = p == ILU_FILTER && v >= ILU_NEAREST && v <= ILU_SCALE_MITCHELL, q = p == ILU_PLACEMENT && v >= ILU_LOWER_LEFT && v <= ILU_CENTER;
  vp_assert((vhErr() == IL_NO_ERROR) == (f || q), "exactly the documented settings are accepted"); vp_assert(iluGetInteger(ILU_FILTER) == (f ? v : ILU_NEAREST), "the filter is remembered, and only changed by a valid request"); vp_assert(iluGetInteger(ILU_PLACEMENT) == (q ? v : ILU_CENTER), "the placement is remembered, and only changed by a valid request");
  vp_assert(iluGetString(ILU_VENDOR) && iluGetString(ILU_VERSION_NUM), "vendor and version have names"); vhErr(); ILint x = 5; iluGetIntegerv(p, &x); if (p != ILU_FILTER && p != ILU_PLACEMENT && p != ILU_VERSION_NUM) vp_assert(x == 5 && vhErr() != IL_NO_ERROR, "an unknown question is an error"); vp_reach("end");
}
// analysis
H(h_count) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); int PB = m.bpp * m.bpc, n = 0; vhErr(); unsigned live = vhLive; for (size_t i = 0; i < m.n; i += PB) { int dup = 0; for (size_t j = 0; j < i; j += PB) dup |= vp_same(m.pix + i, m.pix + j, PB); n += !dup; }
  ILuint r = iluColoursUsed(); vp_assert(r == (ILuint)n, "the number of different colours is counted"); shape(m, live, a, m.f); vp_assert(vp_same(ilGetData(), m.pix, m.n), "counting changes nothing"); vp_reach("end");
}
H(h_cmp) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); VImg n; vhParamImg(n); n.w = vp_param("w2", m.w); n.h = vp_param("h2", m.h); n.d = vp_param("d2", m.d); n.f = vp_param("f2", m.f); n.t = vp_param("t2", m.t); n.org = vp_param("o2", m.org); n.pt = vp_param("pt2", m.pt); ILuint b = vhNew(); vhMake(n, "pix2");
  bool shp = m.w == n.w && m.h == n.h && m.d == n.d && m.f == n.f && m.t == n.t && m.org == n.org; int eq = shp && vp_same(m.pix, n.pix, m.n); if (eq && m.f == IL_COLOUR_INDEX) eq = m.pt == n.pt && vp_same(m.pal, n.pal, (size_t)m.pn * vhPalBpp(m.pt));
  ilBindImage(a); vhErr(); unsigned live = vhLive; ILboolean r = iluCompareImage(b); vp_assert((r != 0) == (eq != 0), "images compare equal exactly if shape, pixels and palette agree"); shape(m, live, a, m.f); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); vp_assert(iluCompareImage(a), "an image equals itself");
  vp_assert(!iluCompareImage(77) && vhErr() != IL_NO_ERROR, "comparing with an unknown name is an error"); shape(m, live, a, m.f); vp_assert(vp_same(ilGetData(), m.pix, m.n), "comparing changes nothing"); ilBindImage(b); vp_assert(vp_same(ilGetData(), n.pix, n.n), "comparing changes nothing");
  if (vp_param("sub", 0)) { ilBindImage(a); vp_assert(ilCreateSubImage(IL_SUB_NEXT, 1) == 1, "a sub-image can be made"); ilActiveImage(1); ILubyte one = 7; vp_assert(ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, &one), "the sub-image can be filled"); vp_assert(!iluCompareImage(b), "a sub-image is compared itself"); vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == 1 && ilGetInteger(IL_ACTIVE_IMAGE) == 1, "the sub-image stays the current image"); }
  vp_reach("end");
}
H(h_info) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); ILuint a = vhNew(); vhMake(m, "pix"); int nx = vp_param("next", 0); for (int i = 0; i < nx; i++) { ilBindImage(a); ilCreateSubImage(IL_SUB_NEXT, 1); } ilBindImage(a); vhErr(); ILinfo x; memset(&x, 0xAA, sizeof x); iluGetImageInfo(&x);
  vp_assert(x.Id == a && x.Data == ilGetData() && (int)x.Width == m.w && (int)x.Height == m.h && (int)x.Depth == m.d && x.Bpp == m.bpp && x.SizeOfData == m.n && (int)x.Format == m.f && (int)x.Type == m.t && x.Origin == vhOrigin(m.org), "the information describes the image");
  vp_assert((int)x.PalSize == (m.pn ? m.pn * vhPalBpp(m.pt) : 0) && x.Palette == (m.pn ? ilGetPalette() : NULL), "the information describes the palette"); vp_assert(x.NumMips == 0 && x.NumLayers == 0, "the numbers of sub-images are given"); vp_reach("end");
}
