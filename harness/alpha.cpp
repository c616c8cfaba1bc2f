#include "img.h"
static bool flt(int t) { return t == IL_FLOAT || t == IL_DOUBLE; }
static void one(int t, ILubyte *o) { memset(o, 0xff, 8); if (t == IL_FLOAT) { float v = 1; memcpy(o, &v, 4); } if (t == IL_DOUBLE) { double v = 1; memcpy(o, &v, 8); } if (t == IL_HALF) { ILushort v = 0x3C00; memcpy(o, &v, 2); } }
// the alpha channel as an array, with or without a change of type
H(h_get) {
  vhInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix"); int t = vp_param("at", m.t); vhErr(); int np = m.w * m.h * m.d, b = vhBpc(t), aa = vhAlphaAt(m.f); unsigned live = vhLive;
  ILubyte *a = ilGetAlpha(t); vp_assert(a != 0, "the alpha channel can be had"); vp_assert(vhLive == live + 1, "only the returned block is allocated"); vp_assert(vp_ptr_valid(a, (size_t)np * b), "the block holds a sample for every pixel");
  vp_check_init(a, (size_t)np * b, "every alpha sample is set"); vp_observe_buf("a", a, (size_t)np * b);
  for (int i = 0; i < np; i++) {
    if (aa < 0) { ILubyte o[8]; one(t, o); vp_assert(vp_same(a + i * b, o, b), "an image without alpha is opaque"); }
    else { const ILubyte *s = m.pix + ((size_t)i * m.bpp + aa) * m.bpc; if (t == m.t) vp_assert(vp_same(a + i * b, s, b), "every alpha sample is that of its pixel"); else if (t == IL_UNSIGNED_SHORT && m.t == IL_UNSIGNED_BYTE) vp_assert(a[2 * i] == *s && a[2 * i + 1] == *s, "every alpha sample is that of its pixel, converted"); else if (t == IL_UNSIGNED_BYTE && m.t == IL_UNSIGNED_SHORT) vp_assert(a[i] == s[1], "every alpha sample is that of its pixel, converted"); }
  }
  vp_assert(vp_same(ilGetData(), m.pix, m.n) && ilGetInteger(IL_IMAGE_TYPE) == m.t && ilGetInteger(IL_IMAGE_FORMAT) == m.f, "the image is unchanged"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); vp_reach("end");
}
// setting alpha: the colours stay, every pixel gets the alpha
H(h_set) {
  vhInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix"); int mod = vp_param("mod", 0); vhErr(); unsigned live = vhLive;
  ILushort k; vp_symbolic(&k, 2, "k"); double v = ((ILshort)k) / 16384.0;   // -2..2, every step of 1/16384
  if (mod) ilModAlpha(v); else vp_assert(ilSetAlpha(v), "alpha can be set");
  vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); int f = ilGetInteger(IL_IMAGE_FORMAT), aa = vhAlphaAt(f), n = vhChan(f), np = m.w * m.h * m.d, b = m.bpc;
  vp_assert(aa >= 0, "the image has alpha now"); vp_assert(f == m.f || vhAlphaAt(m.f) < 0, "an image that has alpha keeps its format"); vp_assert((n > 2) == (m.f != IL_LUMINANCE && m.f != IL_LUMINANCE_ALPHA && m.f != IL_ALPHA), "colour stays colour and grey stays grey");
  vp_assert(ilGetInteger(IL_IMAGE_TYPE) == m.t && ilGetInteger(IL_IMAGE_WIDTH) == m.w && ilGetInteger(IL_IMAGE_HEIGHT) == m.h && ilGetInteger(IL_IMAGE_DEPTH) == m.d && (unsigned)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "type, origin and dimensions stay"); vp_assert(vhLive <= live, "no memory is lost");
  ILubyte *d = ilGetData(); double c = v < 0 ? 0 : v > 1 ? 1 : v;
  for (int i = 0; i < np; i++) {
    ILubyte *q = d + (size_t)i * n * b; const ILubyte *s = m.pix + (size_t)i * m.bpp * b;
    if (m.f == IL_COLOUR_INDEX) { int pb = vhPalBpp(m.pt); if (m.pix[i] < m.pn) for (int x = 0; x < 3; x++) vp_assert(q[vhColAt(f, x)] == palc(m.pt, m.pal + m.pix[i] * pb, x), "the colours stay"); }
    else if (n > 2) for (int x = 0; x < 3; x++) vp_assert(vp_same(q + vhColAt(f, x) * b, s + vhColAt(m.f, x) * b, b), "the colours stay"); else if (n == 2) vp_assert(vp_same(q, s, b), "the grey stays");
    ILubyte *a = q + aa * b;
    if (i && !flt(m.t)) { vp_assert(vp_same(a, d + aa * b, b), "every pixel gets the same alpha"); continue; }
    if (m.t == IL_UNSIGNED_BYTE) vp_assert(*a == (ILubyte)(c * 255 + .5), "the alpha is the value asked for, clamped to 0..1");
    if (m.t == IL_UNSIGNED_SHORT) { ILushort g; memcpy(&g, a, 2); vp_assert(g == (ILushort)(c * 65535 + .5), "the alpha is the value asked for, clamped to 0..1"); }
    if (m.t == IL_UNSIGNED_INT) { ILuint g; memcpy(&g, a, 4); double e = c * 4294967295.0; vp_assert(g >= e - 2 && g <= e + 2, "the alpha is the value asked for, clamped to 0..1"); }
    if (m.t == IL_FLOAT) { ILfloat g; memcpy(&g, a, 4); vp_assert(g == (ILfloat)c, "the alpha is the value asked for, clamped to 0..1"); }
    if (m.t == IL_DOUBLE) { ILdouble g; memcpy(&g, a, 8); vp_assert(g == c, "the alpha is the value asked for, clamped to 0..1"); }
  }
  vp_reach("end");
}
H(h_ntsc) {
  vhInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix"); vhErr(); unsigned live = vhLive; ILboolean ok = ilClampNTSC(); ILubyte *d = ilGetData(); vp_assert(ok == (m.t == IL_UNSIGNED_BYTE), "byte images can be clamped");
  if (!ok) vp_assert(vp_same(d, m.pix, m.n), "other images stay as they are");
  else for (size_t i = 0; i < m.n; i++) vp_assert(d[i] == (m.pix[i] < 16 ? 16 : m.pix[i] > 235 ? 235 : m.pix[i]), "every sample is brought into 16..235");
  vp_assert(vhLive == live, "no memory is lost"); vp_reach("end");
}
// inverting alpha changes nothing but alpha
H(h_inv) {
  vhInit(); iluInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix", !flt(m.t)); 
  if (flt(m.t)) { for (size_t i = 0; i < m.n / m.bpc; i++) { ILushort k; vp_symbolic(&k, 2, "k"); double v = k / 65536.0; float g = (float)v; if (m.t == IL_FLOAT) memcpy(m.pix + i * 4, &g, 4); else memcpy(m.pix + i * 8, &v, 8); } memcpy(ilGetData(), m.pix, m.n); }
  vhErr(); unsigned live = vhLive; int aa = vhAlphaAt(m.f); bool can = aa > 0;
  ILboolean ok = iluInvertAlpha(); vp_assert(ok == can, "images with colour and alpha can have it inverted"); vp_assert((vhErr() == IL_NO_ERROR) == can, "the error says whether it worked"); ILubyte *d = ilGetData(); int np = m.w * m.h * m.d;
  if (!ok) vp_assert(vp_same(d, m.pix, m.n), "a refused call changes nothing");
  else for (int i = 0; i < np; i++) for (int c = 0; c < m.bpp; c++) { size_t o = ((size_t)i * m.bpp + c) * m.bpc;
    if (c != aa) { vp_assert(vp_same(d + o, m.pix + o, m.bpc), "the colours stay"); continue; }
    if (m.t == IL_FLOAT) { float x, y; memcpy(&x, m.pix + o, 4); memcpy(&y, d + o, 4); vp_assert(y == 1.0f - x, "alpha is inverted for every pixel"); }
    else if (m.t == IL_DOUBLE) { double x, y; memcpy(&x, m.pix + o, 8); memcpy(&y, d + o, 8); vp_assert(y == 1.0 - x, "alpha is inverted for every pixel"); }
    else for (int k = 0; k < m.bpc; k++) vp_assert(d[o + k] == (ILubyte)~m.pix[o + k], "alpha is inverted for every pixel"); }
  vp_assert(vhLive == live, "no memory is lost"); vp_reach("end");
}
