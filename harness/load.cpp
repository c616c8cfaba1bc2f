#include "img.h"
// Loading arbitrary bytes: a small valid file of every format, of which the case makes windows symbolic or cuts the end off.
struct B { ILubyte *p; int n;
  void b(int v) { p[n++] = (ILubyte)v; } void l2(int v) { b(v); b(v >> 8); } void l4(unsigned v) { l2(v); l2(v >> 16); } void m2(int v) { b(v >> 8); b(v); } void m4(unsigned v) { m2(v >> 16); m2(v); }
  void z(int k) { while (k--) b(0); } void s(const char *t) { while (*t) b(*t++); } void seq(int k, int a, int st) { for (int i = 0; i < k; i++) b(a + i * st); } void at4(int o, unsigned v) { int k = n; n = o; l4(v); n = k; } };
static ILubyte vbuf[8192];
#include "tmpl.h"
static ILubyte *vfile; static int vlen, vpos;
// what a caller may rely on after a load, whether it worked or not
static void after(ILboolean ok, ILuint name) {
  ILuint e = vhErr(); if (!ok) vp_assert(e != IL_NO_ERROR, "a file that is not loaded is reported as an error");
  vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == name, "the same image is bound"); int images = ilGetInteger(IL_NUM_IMAGES); if (images > 3) images = 3;
  for (int i = 0; i <= images; i++) { ilBindImage(name); if (i && !ilActiveImage(i)) continue; for (int mip = 0; mip < 4; mip++) { if (mip == 1 && !ilActiveMipmap(1)) { vhErr(); continue; } if (mip >= 2) { ilBindImage(name); if ((i && !ilActiveImage(i)) || !ilActiveFace(mip - 1)) break; }
    int w = ilGetInteger(IL_IMAGE_WIDTH), h = ilGetInteger(IL_IMAGE_HEIGHT), d = ilGetInteger(IL_IMAGE_DEPTH), f = ilGetInteger(IL_IMAGE_FORMAT), t = ilGetInteger(IL_IMAGE_TYPE), bpp = ilGetInteger(IL_IMAGE_CHANNELS); ILubyte *p = ilGetData(); unsigned n = ilGetInteger(IL_IMAGE_SIZE_OF_DATA);
    if (ok) { vp_assert(w > 0 && h > 0 && d > 0, "a loaded image has pixels"); vp_assert(p != NULL, "a loaded image has data"); }
    vp_assert((unsigned)w * h * d * bpp * vhBpc(t) == n, "the size of the data agrees with the shape"); if (n) { vp_assert(vhChan(f) == bpp, "the channels agree with the format"); vp_assert(vp_ptr_valid(p, n), "the image has all of its data"); }
    if (ok) vp_check_init(p, n, "no pixel depends on uninitialised memory");
    if (f == IL_COLOUR_INDEX && n) { int pt = ilGetInteger(IL_PALETTE_TYPE), pn = ilGetInteger(IL_PALETTE_NUM_COLS); if (ok) { vp_assert(pt >= IL_PAL_RGB24 && pt <= IL_PAL_BGRA32 && pn > 0, "an indexed image has a palette"); } if (pn) { ILubyte *q = ilGetPalette(); vp_assert(vp_ptr_valid(q, (size_t)pn * vhPalBpp(pt)), "the palette has all of its data"); if (ok) vp_check_init(q, (size_t)pn * vhPalBpp(pt), "no colour depends on uninitialised memory"); } } } }
  ilBindImage(name); vhErr(); if (vp_param("conv", 0)) ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE); vhCap = VH_CAP; ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory");
}
static void prep(void) {
  vlen = tmpl(vp_param("type", IL_TGA), vp_param("var", 0)); int len = vp_param("len", vlen) + vp_param("cut", 0); if (len < 1) len = 1; if (len > (int)sizeof vbuf) len = sizeof vbuf; vlen = len; vfile = (ILubyte*)malloc(vlen); memcpy(vfile, vbuf, vlen);
  for (int i = 0; i < 4; i++) { static const char *const po[4] = {"p0", "p1", "p2", "p3"}, *const pv[4] = {"v0", "v1", "v2", "v3"}; int k = vp_param(po[i], -1); if (k >= 0 && k < vlen) vfile[k] = (ILubyte)vp_param(pv[i], 0); }
  if (vp_param("trunc", 0)) { uint16_t l; vp_symbolic(&l, 2, "len"); vp_assume(l >= 1 && l <= vlen); vlen = (int)vp_concretize(l); vfile = (ILubyte*)malloc(vlen); memcpy(vfile, vbuf, vlen); }
  int a = vp_param("a", 0), b = vp_param("b", 0), c = vp_param("c", 0), d = vp_param("d", 0), e = vp_param("e", 0), f = vp_param("f", 0); if (b > vlen) b = vlen; if (d > vlen) d = vlen; if (f > vlen) f = vlen; if (a < b) vp_symbolic(vfile + a, b - a, "a"); if (c < d) vp_symbolic(vfile + c, d - c, "c"); if (e < f) vp_symbolic(vfile + e, f - e, "e");
  if (vp_param("each", 0)) for (int i = a; i < b; i++) vfile[i] = (ILubyte)vp_concretize(vfile[i]);      // value by value
  int np = vp_param("nopng", -1); if (np >= 0) vp_assume((vfile[np] & 0xDF) != 'P');      // icons within which libpng would be called are left out
}
static ILHANDLE ILAPIENTRY fopn(ILconst_string) { vpos = 0; return &vpos; }
static void ILAPIENTRY fcls(ILHANDLE) {}
static ILboolean ILAPIENTRY feof_(ILHANDLE) { return vpos >= vlen; }
static ILint ILAPIENTRY fgt(ILHANDLE) { return vpos < vlen ? vfile[vpos++] : -1; }
static ILint ILAPIENTRY frd(void *p, ILuint s, ILuint n, ILHANDLE) { if (!s || !n) return 0; ILuint left = vlen - vpos, k = n > left / s ? left : n * s; for (ILuint i = 0; i < k; i++) ((ILubyte*)p)[i] = vfile[vpos + i]; vpos += k; return k / s; }
static ILint ILAPIENTRY fsk(ILHANDLE, ILint o, ILint m) { long long q = (m == IL_SEEK_SET ? 0 : m == IL_SEEK_CUR ? vpos : vlen) + (long long)o; if (q < 0 || q > vlen) return 1; vpos = (int)q; return 0; }
static ILint ILAPIENTRY ftl(ILHANDLE) { return vpos; }
H(h_load) {
  vhInit(); prep(); vp_step_limit(vp_param("lim", 2000000)); ILuint a = vhNew(); vhErr(); vhCap = vp_param("cap", 4096); ILenum ty = vp_param("type", IL_TGA);
  if (vp_param("fast", 0)) ilHint(IL_MEM_SPEED_HINT, IL_FASTEST); ILboolean ok;
  if (vp_param("io", 0)) { ilSetRead(fopn, fcls, feof_, fgt, frd, fsk, ftl); vpos = 0; ok = ilLoadF(ty, &vpos); vp_assert(vpos == 0, "the position of the file is kept"); } else ok = ilLoadL(ty, vfile, vlen);
  if (vp_param("ok", 0)) vp_assert(ok, "the example of this format can be loaded");
  after(ok, a); vp_reach("end");
}
