#include "img.h"
// Clearing, storage and copies of images, blits.
static int byt(const char *nm, int lo, int hi) { signed char v; vp_symbolic(&v, 1, nm); vp_assume(v >= lo); vp_assume(v <= hi); return (int)(long long)vp_concretize((uint64_t)(int64_t)v); }
static void shape(const VImg &m, const char *) {
  vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == m.w && ilGetInteger(IL_IMAGE_HEIGHT) == m.h && ilGetInteger(IL_IMAGE_DEPTH) == m.d && ilGetInteger(IL_IMAGE_FORMAT) == m.f && ilGetInteger(IL_IMAGE_TYPE) == m.t && (unsigned)ilGetInteger(IL_IMAGE_ORIGIN) == vhOrigin(m.org), "the shape of the image is as it should be");
  vp_assert(ilGetInteger(IL_IMAGE_CHANNELS) == m.bpp && ilGetInteger(IL_IMAGE_BYTES_PER_PIXEL) == m.bpp * m.bpc && ilGetInteger(IL_IMAGE_BPC) == m.bpc && ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == (ILint)m.n && ilGetInteger(IL_IMAGE_PLANESIZE) == (ILint)m.n / m.d, "the sizes reported agree with the shape");
  if (m.f == IL_COLOUR_INDEX && m.pn) { vp_assert(ilGetInteger(IL_PALETTE_TYPE) == m.pt && ilGetInteger(IL_PALETTE_NUM_COLS) == m.pn && ilGetInteger(IL_PALETTE_BPP) == vhPalBpp(m.pt), "the palette is as it should be"); vp_assert(vp_same(ilGetPalette(), m.pal, m.pn * vhPalBpp(m.pt)), "the palette keeps its colours"); }
}
// ---- C08 ----
static double clampd(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
static double sample(ILenum t, const ILubyte *p) { switch (t) { case IL_UNSIGNED_BYTE: return *p / 255.; case IL_UNSIGNED_SHORT: { ILushort v; memcpy(&v, p, 2); return v / 65535.; } case IL_UNSIGNED_INT: { ILuint v; memcpy(&v, p, 4); return v / 4294967295.; } case IL_FLOAT: { ILfloat v; memcpy(&v, p, 4); return v; } } ILdouble v; memcpy(&v, p, 8); return v; }
static double tol(ILenum t) { return t == IL_UNSIGNED_BYTE ? 1.01 / 255 : t == IL_UNSIGNED_SHORT ? 1.01 / 65535 : 1e-6; }
H(h_clear) {
  vhInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix"); int ch = vp_param("ch", 0); ILfloat c[4] = { 0.25f, 0.5f, 0.75f, 0.125f }; ILshort s; vp_symbolic(&s, 2, "value"); c[ch & 3] = s / 16384.0f; if (ch == 4) c[0] = c[1] = c[2] = s / 16384.0f;
  vhErr(); unsigned live = vhLive; int np = m.w * m.h * m.d; ilClearColour(c[0], c[1], c[2], c[3]); vp_assert(ilClearImage(), "the image can be cleared"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); vp_assert(vhLive == live + (m.f == IL_COLOUR_INDEX && !m.pn), "no memory is lost"); ILubyte *d = ilGetData(); vp_check_init(d, m.n, "the cleared image does not depend on uninitialised memory");
  if (m.f == IL_COLOUR_INDEX) { vp_assert(ilGetInteger(IL_PALETTE_NUM_COLS) >= 1, "a cleared indexed image has its colour in the palette"); ILubyte *p = ilGetPalette(); int pt = ilGetInteger(IL_PALETTE_TYPE); for (int i = 0; i < np; i++) { vp_assert(d[i] == d[0], "every pixel is cleared"); } for (int x = 0; x < (vhPalBpp(pt) == 4 ? 4 : 3); x++) { double e = clampd(c[x]), g = palc(pt, p + d[0] * vhPalBpp(pt), x) / 255.; vp_assert((g >= e - tol(IL_UNSIGNED_BYTE)) & (g <= e + tol(IL_UNSIGNED_BYTE)), "the pixel has the clear colour"); } vp_reach("end"); return; }
  shape(m, "");
  for (int i = 1; i < np; i++) vp_assert(vp_same(d + (size_t)i * m.bpp * m.bpc, d, m.bpp * m.bpc), "every pixel is cleared");
  for (int x = 0; x < 4; x++) { int at = x < 3 ? vhColAt(m.f, x) : vhAlphaAt(m.f); if (at < 0 || (x < 3 && m.f == IL_ALPHA)) continue; double e = clampd(c[x]), t = tol(m.t); if (x < 3 && (m.f == IL_LUMINANCE || m.f == IL_LUMINANCE_ALPHA)) { e = clampd(c[0]) * .212671 + clampd(c[1]) * .71516 + clampd(c[2]) * .072169; t = t < 1e-3 ? 1e-3 : t; } double g = sample(m.t, d + at * m.bpc); vp_assert((g >= e - t) & (g <= e + t), "the pixel has the clear colour, clamped to 0..1"); }
  vp_reach("end");
}
// ---- C09 ----
H(h_tex) {   // every small shape
  vhInit(); vhNew(); vhErr(); static const ILenum T[] = { IL_UNSIGNED_BYTE, IL_BYTE, IL_UNSIGNED_SHORT, IL_SHORT, IL_UNSIGNED_INT, IL_INT, IL_FLOAT, IL_DOUBLE, IL_HALF, 0x7777 }; ILenum t = T[byt("type", 0, 9)]; int w = byt("w", 0, 3), h = byt("h", 0, 2), d = byt("d", 0, 2), bpp = byt("bpp", 1, 4); unsigned live = vhLive;
  VImg m; m.w = w ? w : 1; m.h = h ? h : 1; m.d = d ? d : 1; m.bpp = bpp; m.bpc = vhBpc(t); m.t = t; m.f = bpp == 1 ? IL_LUMINANCE : bpp == 2 ? IL_LUMINANCE_ALPHA : bpp == 3 ? IL_RGB : IL_RGBA; m.org = 0; m.n = (size_t)m.w * m.h * m.d * m.bpp * m.bpc; m.pn = 0; ILubyte *p = (ILubyte*)malloc(m.n ? m.n : 1); vp_symbolic(p, m.n, "pix");
  ILboolean ok = ilTexImage(w, h, d, bpp, m.f, t, p); vp_assert((ok != 0) == (t != 0x7777), "every shape of known type can be made"); vp_assert((vhErr() == IL_NO_ERROR) == (ok != 0), "an error is reported exactly otherwise"); vp_assert(vhLive == live, "no memory is lost");
  if (ok) { shape(m, ""); vp_assert(vp_same(ilGetData(), p, m.n), "the pixels are those given"); ILubyte *q = (ILubyte*)malloc(m.n); vp_symbolic(q, m.n, "set"); vp_assert(ilSetData(q) && vp_same(ilGetData(), q, m.n), "setting the data replaces all of it"); vp_assert(!ilSetData(NULL) && vhErr() != IL_NO_ERROR && vp_same(ilGetData(), q, m.n), "no data is refused"); shape(m, ""); }
  else { vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == 1 && ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == 1 && ilGetData() && vp_ptr_valid(ilGetData(), 1), "a refused shape leaves the image as it was"); }
  vp_reach("end");
}
H(h_texbig) { // any 32-bit size along one axis: never a buffer smaller than the image
  vhInit(); vhNew(); ILubyte v = 0; vp_symbolic(&v, 1, "v"); ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, &v); vhErr(); ILuint s[3] = { (ILuint)vp_param("a", 1), (ILuint)vp_param("b", 1), (ILuint)vp_param("b", 1) }; int ax = vp_param("ax", 0); ILuint x; vp_symbolic(&x, 4, "size"); s[2] = s[0]; s[0] = s[ax]; s[ax] = x; if (ax != 2 && vp_param("a", 1) == 1) s[2] = 1; int bpp = vp_param("bpp", 4); ILenum t = vp_param("t", IL_UNSIGNED_BYTE);
  vhCap = 4096; int sf = vp_param("surface", 0); ILboolean ok = sf ? ilTexImageSurface(s[0], s[1], s[2], bpp, bpp == 4 ? IL_RGBA : IL_RGB, t, NULL) : ilTexImage(s[0], s[1], s[2], bpp, bpp == 4 ? IL_RGBA : IL_RGB, t, NULL); vp_assert((vhErr() == IL_NO_ERROR) == (ok != 0), "an error is reported exactly when the image cannot be made");
  unsigned long long row = (unsigned long long)(ILuint)ilGetInteger(IL_IMAGE_WIDTH) * ilGetInteger(IL_IMAGE_BYTES_PER_PIXEL), hh = (ILuint)ilGetInteger(IL_IMAGE_HEIGHT), dd = (ILuint)ilGetInteger(IL_IMAGE_DEPTH); ILuint sz = ilGetInteger(IL_IMAGE_SIZE_OF_DATA);
  if (ok) { vp_assert(hh <= 0xffffffffull && row <= 0xffffffffull && hh * row <= 0xffffffffull && hh * row * dd == sz, "the size of the data is that of the shape"); vp_assert(sz <= 4096, "the image fits"); vp_assert((ILuint)ilGetInteger(IL_IMAGE_WIDTH) == (s[0] ? s[0] : 1) && hh == (s[1] ? s[1] : 1) && dd == (s[2] ? s[2] : 1), "the shape is the one asked for"); }
  else vp_assert(ilGetData() == 0 ? sz == 0 : (sz == 1 && row == 1 && ilGetData()[0] == v), "a failure leaves the image as it was or empty");
  ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
static ILuint mk(VImg &m) { ILuint n = vhNew(); vhMake(m, "pix"); ilSetInteger(IL_IMAGE_DURATION, 77); ilSetInteger(IL_IMAGE_OFFX, 5); ilSetInteger(IL_IMAGE_OFFY, -6); return n; }
static void attrs() { vp_assert(ilGetInteger(IL_IMAGE_DURATION) == 77 && ilGetInteger(IL_IMAGE_OFFX) == 5 && ilGetInteger(IL_IMAGE_OFFY) == -6, "duration and offsets go along"); }
H(h_clone) {
  vhInit(); VImg m; vhParamImg(m); ILuint a = mk(m); vhErr(); ILuint c = ilCloneCurImage(); vp_assert(c != 0 && c != a && ilIsImage(c), "a clone has its own name"); vp_assert(ilGetInteger(IL_CUR_IMAGE) == (ILint)a, "cloning keeps the image bound"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); shape(m, ""); vp_assert(vp_same(ilGetData(), m.pix, m.n), "the image is unchanged"); ILubyte *d = ilGetData();
  ilBindImage(c); shape(m, ""); attrs(); vp_assert(ilGetData() != d && vp_same(ilGetData(), m.pix, m.n), "a clone has the same pixels"); memset(ilGetData(), 0, m.n); if (m.f == IL_COLOUR_INDEX) memset(ilGetPalette(), 0, m.pn * vhPalBpp(m.pt)); ilBindImage(a); shape(m, ""); vp_assert(vp_same(ilGetData(), m.pix, m.n), "changing a clone leaves the image alone"); ilDeleteImage(c); shape(m, ""); vp_assert(vp_same(ilGetData(), m.pix, m.n), "deleting a clone leaves the image alone"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
H(h_copyimg) {
  vhInit(); VImg m; vhParamImg(m); ILuint a = mk(m), b = vhNew(); VImg o; o.w = 1; o.h = 2; o.d = 1; o.f = vp_param("of", IL_RGB); o.t = IL_UNSIGNED_BYTE; o.org = !m.org; o.pn = o.f == IL_COLOUR_INDEX ? 2 : 0; o.pt = IL_PAL_RGB24; vhMake(o, "old"); vhErr(); unsigned live = vhLive;
  int which = byt("which", 0, 3); ILuint src = which == 0 ? a : which == 1 ? b : which == 2 ? 999 : 55; ILboolean ok = ilCopyImage(src); vp_assert((ok != 0) == (which < 2), "images that exist can be copied"); vp_assert(ilGetInteger(IL_CUR_IMAGE) == (ILint)b, "copying keeps the image bound"); vp_assert((vhErr() == IL_NO_ERROR) == (ok != 0), "an error is reported exactly otherwise");
  if (which == 0) { shape(m, ""); attrs(); vp_assert(vp_same(ilGetData(), m.pix, m.n), "the copy has the same pixels"); memset(ilGetData(), 0, m.n); } else { shape(o, ""); vp_assert(vp_same(ilGetData(), o.pix, o.n), "the image stays as it was"); vp_assert(vhLive == live, "no memory is lost"); }
  ilBindImage(a); shape(m, ""); attrs(); vp_assert(vp_same(ilGetData(), m.pix, m.n), "the source is unchanged"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
H(h_nomem) { // every allocation may fail
  vhInit(); VImg m; vhParamImg(m); ILuint a = mk(m), b = vhNew(); VImg o; o.w = 1; o.h = 2; o.d = 1; o.f = IL_COLOUR_INDEX; o.t = IL_UNSIGNED_BYTE; o.org = !m.org; o.pn = 2; o.pt = IL_PAL_RGB24; vhMake(o, "old"); vhErr(); int op = byt("op", 0, 3), f = byt("fail", 0, 5); unsigned long c0 = vhAllocs; vhFailAt = vhAllocs + f; ILboolean ok = 0; ILuint cl = 0; ILubyte px[8]; memset(px, 7, 8);
  if (op == 0) ok = ilCopyImage(a); else if (op == 1) { ilBindImage(a); cl = ilCloneCurImage(); ok = cl != 0; ilBindImage(b); } else if (op == 2) ok = ilTexImage(2, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); else { ok = ilConvertImage(IL_RGBA, IL_UNSIGNED_SHORT); }
  bool failed = (long)vhAllocs > vhFailAt; vhFailAt = -1; (void)c0; vp_assert(ok || failed, "with enough memory it succeeds"); vp_assert(vhErr() != IL_NO_ERROR || ok, "running out of memory is reported by an error"); vp_assert(ilGetInteger(IL_CUR_IMAGE) == (ILint)b, "the bound image stays");
  ILuint sz = ilGetInteger(IL_IMAGE_SIZE_OF_DATA); vp_assert(sz == 0 || vp_ptr_valid(ilGetData(), sz), "the image has as much data as it says"); vp_assert((ILuint)(ilGetInteger(IL_IMAGE_WIDTH) * ilGetInteger(IL_IMAGE_HEIGHT) * ilGetInteger(IL_IMAGE_DEPTH) * ilGetInteger(IL_IMAGE_BYTES_PER_PIXEL)) == sz, "the sizes reported agree with the shape"); int pn = ilGetInteger(IL_PALETTE_NUM_COLS); vp_assert(pn == 0 || vp_ptr_valid(ilGetPalette(), (size_t)pn * ilGetInteger(IL_PALETTE_BPP)), "the palette has as many colours as it says");
  if (ok) { ILboolean full = 1; if (op == 0) { shape(m, ""); full = vp_same(ilGetData(), m.pix, m.n); } else if (op == 1) { ilBindImage(cl); shape(m, ""); full = vp_same(ilGetData(), m.pix, m.n); ilBindImage(b); } else if (op == 2) full = ilGetInteger(IL_IMAGE_WIDTH) == 2 && ilGetInteger(IL_IMAGE_HEIGHT) == 1 && vp_same(ilGetData(), px, 6); else full = ilGetInteger(IL_IMAGE_FORMAT) == IL_RGBA && ilGetInteger(IL_IMAGE_TYPE) == IL_UNSIGNED_SHORT; vp_assert(full, "what is reported as done is done"); }
  if (op == 1 || (op == 3 && !ok)) { shape(o, ""); vp_assert(vp_same(ilGetData(), o.pix, o.n), "the image stays as it was"); }
  ilBindImage(a); shape(m, ""); vp_assert(vp_same(ilGetData(), m.pix, m.n), "the other image is unchanged"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
H(h_regpal) {
  vhInit(); VImg m; m.w = 2; m.h = 1; m.d = 1; m.f = IL_COLOUR_INDEX; m.t = IL_UNSIGNED_BYTE; m.org = 1; m.pn = vp_param("pn", 2); m.pt = vp_param("pt", IL_PAL_RGB24); vhNew(); vhMake(m, "pix"); vhErr(); shape(m, ""); unsigned live = vhLive; ilRegisterPal(NULL, 6, IL_PAL_RGB24); vp_assert(vhErr() == IL_INVALID_PARAM, "no palette is refused"); shape(m, ""); vp_assert(vhLive == live, "no memory is lost");
  static const int BT[6][2] = { { IL_PAL_RGB24, IL_RGB }, { IL_PAL_RGB32, IL_RGBA }, { IL_PAL_RGBA32, IL_RGBA }, { IL_PAL_BGR24, IL_BGR }, { IL_PAL_BGR32, IL_BGRA }, { IL_PAL_BGRA32, IL_BGRA } }; for (int i = 0; i < 6; i++) if (BT[i][0] == m.pt) vp_assert(ilGetInteger(IL_PALETTE_BASE_TYPE) == BT[i][1], "the base type of the palette is the format of its colours");
  m.pn = 4; m.pt = vp_param("pt2", IL_PAL_BGRA32); size_t n = 4 * vhPalBpp(m.pt); m.pal = (ILubyte*)malloc(n); vp_symbolic(m.pal, n, "pal2"); ilRegisterPal(m.pal, (ILuint)n, m.pt); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); shape(m, ""); vp_assert(vhLive == live, "no memory is lost"); vp_assert(vp_same(ilGetData(), m.pix, m.n), "the indexes are unchanged"); vhFailAt = vhAllocs; ilRegisterPal(m.pix, 1, IL_PAL_RGB24); vhFailAt = -1; vhErr(); shape(m, ""); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
H(h_none) {  // without a bound image calls are refused
  vhInit(); ilShutDown(); vhErr(); ILubyte b[4] = { 1, 2, 3, 4 }; int w = byt("call", 0, 9); ILint r = 0;
  switch (w) { case 0: r = ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, b); break; case 1: r = ilSetData(b); break; case 2: r = ilGetData() != 0; break; case 3: r = ilGetPalette() != 0; break; case 4: r = ilClearImage(); break; case 5: r = ilCloneCurImage(); break; case 6: r = ilCopyImage(1); break; case 7: r = ilBlit(1, 0, 0, 0, 0, 0, 0, 1, 1, 1); break; case 8: r = ilOverlayImage(1, 0, 0, 0); break; case 9: ilRegisterPal(b, 3, IL_PAL_RGB24); break; }
  vp_assert(r == 0, "without an image there is nothing to work on"); vp_assert(vhErr() == IL_ILLEGAL_OPERATION, "an error is reported"); vp_assert(vhLive == 0, "no memory is lost"); vp_reach("end");
}
// ---- C11 ----
static const ILubyte *px(const VImg &m, const ILubyte *p, int x, int y, int z) { int yy = m.org ? y : m.h - 1 - y; return p + (((size_t)z * m.h + yy) * m.w + x) * m.bpp * m.bpc; }   // y counted from the top
H(h_blit) {
  vhInit(); VImg s; vhParamImg(s); s.w = vp_param("sw", 2); s.h = vp_param("sh", 2); s.d = vp_param("sd", 1); s.org = vp_param("so", 0); ILuint a = vhNew(); vhMake(s, "src"); VImg m; vhParamImg(m); ILuint b = a; bool self = vp_param("self", 0), ov = vp_param("ov", 0); if (self) m = s; else { b = vhNew(); vhMake(m, "dst"); } ilDisable(IL_BLIT_BLEND); vhErr(); unsigned live = vhLive; int R = vp_param("r", 1), ax = vp_param("ax", 7);
  int xo = 0, yo = 0, zo = 0, sx = 0, sy = 0, sz = 0, w = s.w, h = s.h, d = s.d;
  if (ax & 1) { xo = byt("xo", -s.w - R, m.w + R); if (!ov) { sx = byt("sx", 0, s.w + R); w = byt("w", 0, s.w + R); } } if (ax & 2) { yo = byt("yo", -s.h - R, m.h + R); if (!ov) { sy = byt("sy", 0, s.h + R); h = byt("h", 0, s.h + R); } } if (ax & 4) { zo = byt("zo", -s.d - R, m.d + R); if (!ov) { sz = byt("sz", 0, s.d + R); d = byt("d", 0, s.d + R); } }
  ILboolean ok = ov ? ilOverlayImage(a, xo, yo, zo) : ilBlit(a, xo, yo, zo, sx, sy, sz, w, h, d); vp_assert(ok, "the image can be blitted"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); vp_assert(ilGetInteger(IL_CUR_IMAGE) == (ILint)b, "the bound image stays"); vp_assert(vhLive == live, "no memory is lost"); shape(m, ""); ILubyte *g = ilGetData(); int PB = m.bpp * m.bpc;
  for (int z = 0; z < m.d; z++) for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
    int bx = x - xo, by = y - yo, bz = z - zo; bool in = bx >= 0 && bx < w && by >= 0 && by < h && bz >= 0 && bz < d && bx + sx < s.w && by + sy < s.h && bz + sz < s.d; const ILubyte *e = in ? px(s, s.pix, bx + sx, by + sy, bz + sz) : px(m, m.pix, x, y, z);
    vp_assert(vp_same(px(m, g, x, y, z), e, PB), in ? "every pixel under the block is the pixel of the source" : "every other pixel is unchanged"); }
  if (!self) { ilBindImage(a); shape(s, ""); vp_assert(vp_same(ilGetData(), s.pix, s.n), "the source is unchanged"); } vp_reach("end");
}
H(h_blitfar) { // any 32-bit place and size
  vhInit(); VImg s; vhParamImg(s); s.w = 2; s.h = 2; s.d = 2; ILuint a = vhNew(); vhMake(s, "src"); VImg m; vhParamImg(m); ILuint b = vhNew(); vhMake(m, "dst"); if (!vp_param("blend", 0)) ilDisable(IL_BLIT_BLEND); vhErr(); unsigned live = vhLive; ILint o[3] = { 0, 0, 0 }; ILuint so[3] = { 0, 0, 0 }, sz[3] = { 1, 1, 1 }; int ax = vp_param("ax", 0), wh = vp_param("wh", 0); ILuint v; vp_symbolic(&v, 4, "v"); if (wh == 0) { o[ax] = v; sz[ax] = 2; } else if (wh == 1) { so[ax] = v; sz[ax] = 2; } else if (wh == 2) sz[ax] = v; else { o[ax] = v; sz[ax] = 0xffffffff; }
  vp_assert(ilBlit(a, o[0], o[1], o[2], so[0], so[1], so[2], sz[0], sz[1], sz[2]), "the image can be blitted"); vp_assert(vhLive == live && ilGetInteger(IL_CUR_IMAGE) == (ILint)b, "the bound image stays, no memory is lost"); shape(m, ""); if (wh != 2 && ((ILint)v >= 3 || (wh == 0 && (ILint)v < -2) || (wh == 1 && v > 2) || (wh == 3 && (ILint)v < -2))) vp_assert(vp_same(ilGetData(), m.pix, m.n), "a block wholly outside changes nothing"); vp_reach("end");
}
H(h_blitc) { // conversion: as blitting the converted source
  vhInit(); VImg s; vhParamImg(s); s.f = vp_param("sf", IL_RGB); s.t = vp_param("st", IL_UNSIGNED_BYTE); s.w = 2; s.h = 1; s.pn = s.f == IL_COLOUR_INDEX ? 3 : 0; ILuint a = vhNew(); vhMake(s, "src"); if (s.pn) for (int i = 0; i < 2; i++) vp_assume(s.pix[i] < s.pn); ILuint cv = ilCloneCurImage(); VImg m; vhParamImg(m); ILuint b = vhNew(); vhMake(m, "dst"); ILuint b2 = ilCloneCurImage(); ilDisable(IL_BLIT_BLEND); vhErr();
  vp_assert(ilBlit(a, 1, 0, 0, 0, 0, 0, 2, 1, 1), "the image can be blitted"); shape(m, ""); ILubyte *g = ilGetData(); ilBindImage(cv); vp_assert(ilConvertImage(m.f, m.t), "the source can be converted"); ilBindImage(b2); vp_assert(ilBlit(cv, 1, 0, 0, 0, 0, 0, 2, 1, 1), "the image can be blitted"); vp_assert(vp_same(ilGetData(), g, m.n), "blitting converts as converting the source first"); vp_check_init(g, m.n, "the result does not depend on uninitialised memory"); ilBindImage(a); shape(s, ""); vp_assert(vp_same(ilGetData(), s.pix, s.n), "the source is unchanged"); (void)b; vp_reach("end");
}
static double get(ILenum t, const ILubyte *p) { switch (t) { case IL_UNSIGNED_BYTE: return *p; case IL_UNSIGNED_SHORT: { ILushort v; memcpy(&v, p, 2); return v; } case IL_UNSIGNED_INT: { ILuint v; memcpy(&v, p, 4); return v; } case IL_FLOAT: { float v; memcpy(&v, p, 4); return v; } } double v; memcpy(&v, p, 8); return v; }
static double maxOf(ILenum t) { return t == IL_UNSIGNED_BYTE ? 255. : t == IL_UNSIGNED_SHORT ? 65535. : t == IL_UNSIGNED_INT ? 4294967295. : 1.; }
static void put(ILenum t, ILubyte *p, ILubyte v) { switch (t) { case IL_UNSIGNED_BYTE: *p = v; return; case IL_UNSIGNED_SHORT: { ILushort x = v * 257; memcpy(p, &x, 2); return; } case IL_UNSIGNED_INT: { ILuint x = v * 0x1010101u; memcpy(p, &x, 4); return; } case IL_FLOAT: { float x = v / 256.f; memcpy(p, &x, 4); return; } } double x = v / 256.; memcpy(p, &x, 8); }
H(h_blend) { // every alpha: none keeps the destination, solid gives the source, the rest is in between, within rounding
  vhInit(); VImg s; vhParamImg(s); s.w = 1; s.h = 1; s.d = 1; s.f = vp_param("sf", IL_RGBA); s.org = vp_param("so", 0); ILuint a = vhNew(); vhMake(s, "src", false); ILubyte al, v; vp_symbolic(&al, 1, "alpha"); vp_symbolic(&v, 1, "value"); int which = vp_param("which", 0), c = vp_param("ch", 0), nc = s.bpp - 1; for (int i = 0; i < nc; i++) put(s.t, s.pix + i * s.bpc, i * 60 + 20); put(s.t, s.pix + nc * s.bpc, al); if (!which) put(s.t, s.pix + vhColAt(s.f, c) * s.bpc, v); ilSetData(s.pix);
  VImg m; vhParamImg(m); ILuint b = vhNew(); vhMake(m, "dst", false); for (int i = 0; i < m.w * m.h * m.d * m.bpp; i++) put(m.t, m.pix + i * m.bpc, (i * 37 + 90) & 255); int X = m.w - 1, Y = m.h - 1; ILubyte *q = (ILubyte*)px(m, m.pix, X, Y, 0); if (which) put(m.t, q + vhColAt(m.f, c) * m.bpc, v); ilSetData(m.pix); vhErr(); unsigned live = vhLive;
  vp_assert(ilOverlayImage(a, X, Y, 0), "the image can be blitted"); vp_assert(vhErr() == IL_NO_ERROR && ilGetInteger(IL_CUR_IMAGE) == (ILint)b && vhLive == live, "no error, the bound image stays, no memory is lost"); shape(m, ""); ILubyte *g = ilGetData(); const ILubyte *r = px(m, g, X, Y, 0); int da = vhAlphaAt(m.f); bool same = m.bpp <= 2 ? s.bpp <= 2 : s.bpp > 2;
  for (int i = 0; i < m.w * m.h * m.d; i++) { const ILubyte *e = m.pix + (size_t)i * m.bpp * m.bpc; if (e != q) vp_assert(vp_same(g + (e - m.pix), e, m.bpp * m.bpc), "every other pixel is unchanged"); }
  if (da >= 0) vp_assert(vp_same(r + da * m.bpc, q + da * m.bpc, m.bpc), "the alpha of the destination stays");
  if (!same) { vp_reach("end"); return; }
  for (int k = 0; k < (m.bpp > 2 ? 3 : 1); k++) { double S = get(s.t, s.pix + (s.bpp > 2 ? vhColAt(s.f, k) : 0) * s.bpc), D = get(m.t, q + vhColAt(m.f, k) * m.bpc), G = get(m.t, r + vhColAt(m.f, k) * m.bpc), T = m.t == IL_FLOAT || m.t == IL_DOUBLE ? 1e-6 : m.t == IL_UNSIGNED_INT ? 2. : 1.; double f = s.t == IL_FLOAT || s.t == IL_DOUBLE ? al / 256. : al / 255.;
    if (s.t == IL_FLOAT || s.t == IL_DOUBLE) { vp_assert((al != 0) | (G >= D - T && G <= D + T), "no alpha keeps the destination"); } else { vp_assert((al != 255) | (G == S), "solid alpha gives the source"); vp_assert((al != 0) | (G == D), "no alpha keeps the destination"); }
    double e = D + (S - D) * f; vp_assert((G >= e - T) & (G <= e + T), "the pixel is the source over the destination"); }
  vp_reach("end");
}
H(h_blitbad) {
  vhInit(); VImg m; vhParamImg(m); ILuint b = vhNew(); vhMake(m, "dst"); vhErr(); unsigned live = vhLive; int w = byt("case", 0, 3), f = byt("fail", 0, 3); ILuint src = w == 0 ? 500 : w == 1 ? 0x70000000 : b; ILboolean ok; vhFailAt = w >= 2 ? (long)(vhAllocs + f) : -1; if (w & 1) ok = ilOverlayImage(src, 0, 0, 0); else ok = ilBlit(src, 0, 0, 0, 0, 0, 0, 1, 1, 1); bool failed = w < 2 || (long)vhAllocs > vhFailAt; vhFailAt = -1; if (w < 2) vp_assert(!ok, "an image that does not exist cannot be blitted"); vp_assert(ok || failed, "with enough memory it succeeds"); vp_assert(ok || vhErr() != IL_NO_ERROR, "an error is reported when it fails"); if (ok) { shape(m, ""); vp_assert(vp_same(ilGetData(), m.pix, m.n), "an image blitted on itself stays as it was"); }
  vp_assert(vhLive == live, "no memory is lost"); vp_assert(ilGetInteger(IL_CUR_IMAGE) == (ILint)b, "the bound image stays"); if (!ok) { vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == m.w && vp_ptr_valid(ilGetData(), m.n), "the image keeps its shape"); } ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
