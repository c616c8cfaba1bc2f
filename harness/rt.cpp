#include "img.h"
// save -> load -> same picture, for formats that store pixels losslessly
H(h_rt) {
  vhInit();
  int type = vp_param("type", IL_TGA), fi = vp_param("via", 0);
  VImg m; vhParamImg(m);
  vhNew(); vhMake(m, "pix");
  ilSetInteger(IL_TGA_RLE, vp_param("rle", 0)); ilSetInteger(IL_SGI_RLE, vp_param("rle", 0)); ilSetInteger(IL_BMP_RLE, vp_param("rle", 0));
  ilHint(IL_COMPRESSION_HINT, vp_param("comp", 0) ? IL_USE_COMPRESSION : IL_NO_COMPRESSION);
  ilSetInteger(IL_DXTC_FORMAT, IL_DXT_NO_COMP);
  ILubyte *out = (ILubyte*)malloc(4096); vhErr();
  ILuint n = ilSaveL(type, out, 4096);
  vp_assert(n > 0 && n <= 4096, "the image can be saved"); vp_assert(vhErr() == IL_NO_ERROR, "saving reports no error");
  vp_observe("n", n); vp_observe_buf("out", out, n);
  vhNew(); ILboolean ok = ilLoadL(type, out, n); vp_assert(ok, "the saved image can be loaded back");
  vp_assert(vhErr() == IL_NO_ERROR, "loading reports no error");
  vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == m.w && ilGetInteger(IL_IMAGE_HEIGHT) == m.h && ilGetInteger(IL_IMAGE_DEPTH) == m.d, "dimensions survive");
  int org = ilGetInteger(IL_IMAGE_ORIGIN);
  vp_observe("fmt", ilGetInteger(IL_IMAGE_FORMAT)); vp_observe("org", org);
  bool flip = !vp_param("noflip", 0) && (unsigned)org != vhOrigin(m.org);
  if (m.f == IL_LUMINANCE && type == IL_PCX) { vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == IL_COLOUR_INDEX, "shades of grey come back paletted"); ILubyte *d = ilGetData(), *p = ilGetPalette();
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) for (int c = 0; c < 3; c++) vp_assert(palc(ilGetInteger(IL_PALETTE_TYPE), p + d[(flip ? m.h - 1 - y : y) * m.w + x] * vhPalBpp(ilGetInteger(IL_PALETTE_TYPE)), c) == m.pix[y * m.w + x], "shades survive");
  } else if (m.f == IL_COLOUR_INDEX) {
    vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == IL_COLOUR_INDEX, "a paletted image comes back paletted");
    ILubyte *d = ilGetData(), *p = ilGetPalette(); int pt = ilGetInteger(IL_PALETTE_TYPE), pn = ilGetInteger(IL_PALETTE_NUM_COLS), pb = vhPalBpp(pt);
    vp_assert(pn >= m.pn, "all palette entries survive");
    for (int y = 0; y < m.h; y++) { int sy = flip ? m.h - 1 - y : y; vp_assert(vp_same(d + y * m.w, m.pix + sy * m.w, m.w), "indices survive"); }
    for (int i = 0; i < m.pn; i++) for (int c = 0; c < 3; c++) vp_assert(palc(pt, p + i * pb, c) == palc(m.pt, m.pal + i * vhPalBpp(m.pt), c), "palette colours survive");
  } else {
    int lf = ilGetInteger(IL_IMAGE_FORMAT), lt = ilGetInteger(IL_IMAGE_TYPE), la = vhAlphaAt(lf), sa = vhAlphaAt(m.f), lb = vhChan(lf); ILubyte *d = ilGetData();
    vp_assert(lt == m.t, "the sample type survives"); vp_assert(lf != IL_COLOUR_INDEX, "a true colour image comes back as true colour");
    if (vp_param("alpha", 1)) vp_assert((la >= 0) == (sa >= 0), "the presence of alpha survives");
    for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
      int sy = flip ? m.h - 1 - y : y; ILubyte *a = d + ((size_t)(z * m.h + y) * m.w + x) * lb * m.bpc, *b = m.pix + ((size_t)(z * m.h + sy) * m.w + x) * m.bpp * m.bpc;
      for (int c = 0; c < 3; c++) vp_assert(vp_same(a + vhColAt(lf, c) * m.bpc, b + vhColAt(m.f, c) * m.bpc, m.bpc), "colours survive");
      if (la >= 0 && sa >= 0) vp_assert(vp_same(a + la * m.bpc, b + sa * m.bpc, m.bpc), "alpha survives");
    }
  }
  vp_reach("end");
}
