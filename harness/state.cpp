#include "img.h"
// States: what is set is what is read; pushing and popping; strings; errors.
extern "C" void ilSetError(ILenum);
static const ILenum INTS[] = { IL_COMPRESS_MODE, IL_FORMAT_MODE, IL_INTERLACE_MODE, IL_KEEP_DXTC_DATA, IL_ORIGIN_MODE, IL_MAX_QUANT_INDICES, IL_NEU_QUANT_SAMPLE, IL_QUANTIZATION_MODE, IL_TYPE_MODE, IL_BMP_RLE, IL_DXTC_FORMAT, IL_JPG_QUALITY, IL_JPG_SAVE_FORMAT, IL_PCD_PICNUM,
  IL_PNG_ALPHA_INDEX, IL_PNG_INTERLACE, IL_SGI_RLE, IL_TGA_CREATE_STAMP, IL_TGA_RLE, IL_VTF_COMP, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_FILE_MODE, IL_FORMAT_SET, IL_ORIGIN_SET, IL_TYPE_SET, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS };
enum { NI = sizeof INTS / sizeof *INTS };
static const ILenum ABLE[] = { IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_SAVE_INTERLACED, IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS };
enum { NA = sizeof ABLE / sizeof *ABLE };
static void snap(ILint *s) { for (int i = 0; i < NI; i++) s[i] = ilGetInteger(INTS[i]); }
static bool fmtOk(ILint v) { return (v == IL_RGB) | (v == IL_RGBA) | (v == IL_BGR) | (v == IL_BGRA) | (v == IL_LUMINANCE) | (v == IL_LUMINANCE_ALPHA); }
static bool typeOk(ILint v) { return (v == IL_BYTE) | (v == IL_UNSIGNED_BYTE) | (v == IL_SHORT) | (v == IL_UNSIGNED_SHORT) | (v == IL_INT) | (v == IL_UNSIGNED_INT) | (v == IL_FLOAT) | (v == IL_DOUBLE); }
static bool orgOk(ILint v) { return (v == IL_ORIGIN_LOWER_LEFT) | (v == IL_ORIGIN_UPPER_LEFT); }
static bool allowed(ILenum m, ILint v) {
  switch (m) {
    case IL_FORMAT_MODE: return fmtOk(v); case IL_TYPE_MODE: return typeOk(v); case IL_ORIGIN_MODE: return orgOk(v);
    case IL_KEEP_DXTC_DATA: case IL_BMP_RLE: case IL_PNG_INTERLACE: case IL_SGI_RLE: case IL_TGA_CREATE_STAMP: case IL_TGA_RLE: return (v == 0) | (v == 1);
    case IL_MAX_QUANT_INDICES: return (v >= 2) & (v <= 256); case IL_NEU_QUANT_SAMPLE: return (v >= 1) & (v <= 30); case IL_QUANTIZATION_MODE: return (v == IL_WU_QUANT) | (v == IL_NEU_QUANT);
    case IL_DXTC_FORMAT: return ((v >= IL_DXT1) & (v <= IL_DXT5)) | (v == IL_3DC) | (v == IL_RXGB) | (v == IL_ATI1N) | (v == IL_DXT1A); case IL_JPG_SAVE_FORMAT: return (v == IL_JFIF) | (v == IL_EXIF);
    case IL_JPG_QUALITY: return (v >= 0) & (v <= 99); case IL_PCD_PICNUM: return (v >= 0) & (v <= 2); case IL_PNG_ALPHA_INDEX: return (v >= -1) & (v <= 255);
    case IL_VTF_COMP: return (v == IL_DXT1) | (v == IL_DXT3) | (v == IL_DXT5) | (v == IL_DXT1A) | (v == IL_DXT_NO_COMP);
    case IL_IMAGE_DURATION: case IL_IMAGE_OFFX: case IL_IMAGE_OFFY: case IL_IMAGE_CUBEFLAGS: return true;
  }
  return false;
}
// any 32-bit value
H(h_int) {
  vhInit(); vhNew(); vhErr(); ILenum m = vp_param("m", 0); int fn = vp_param("fn", 0); ILint a[NI], b[NI], v, old = ilGetInteger(m); snap(a); vp_symbolic(&v, 4, "v"); unsigned live = vhLive; ILboolean r = 2;
  if (fn == 1) r = ilFormatFunc(v); else if (fn == 2) r = ilTypeFunc(v); else if (fn == 3) r = ilOriginFunc(v); else if (fn == 4) r = ilCompressFunc(v); else ilSetInteger(m, v);
  bool ok = fn == 4 ? (v == IL_COMPRESS_NONE) | (v == IL_COMPRESS_RLE) | (v == IL_COMPRESS_ZLIB) : allowed(m, v); ILenum e = vhErr(); ILint got = ilGetInteger(m), gv = -77; ilGetIntegerv(m, &gv);
  vp_assert(got == (ok ? v : old), "a value in the range of the state is taken, any other leaves it"); vp_assert(gv == got, "both queries agree"); vp_assert((e == IL_NO_ERROR) == ok, "an error is reported exactly for values out of range");
  if (r != 2) vp_assert((r != 0) == ok, "the result says whether the value was taken");
  snap(b); for (int i = 0; i < NI; i++) if (INTS[i] != m) vp_assert(a[i] == b[i], "the other states keep their values"); vp_assert(vhErr() == IL_NO_ERROR, "queries report no error"); vp_assert(vhLive == live, "no memory is lost"); vp_observe("got", got); vp_reach("end");
}
// enabling and disabling: any two modes
H(h_able) {
  vhInit(); vhErr(); ILubyte on[NA]; for (int i = 0; i < NA; i++) on[i] = ilIsEnabled(ABLE[i]);
  for (int k = 0; k < 2; k++) {
    ILubyte i, f; vp_symbolic(&i, 1, "mode"); vp_symbolic(&f, 1, "flag"); vp_assume(i < NA); i = (ILubyte)vp_concretize(i); bool en = f & 1;
    if (vp_param("any", 0)) { ILenum m; vp_symbolic(&m, 4, "m"); for (int j = 0; j < NA; j++) vp_assume(m != ABLE[j]); vp_assert(!(en ? ilEnable(m) : ilDisable(m)), "an unknown mode is refused"); vp_assert(vhErr() == IL_INVALID_ENUM, "an error is reported"); vp_assert(!ilIsEnabled(m), "an unknown mode is not enabled"); vhErr(); }
    else { vp_assert(en ? ilEnable(ABLE[i]) : ilDisable(ABLE[i]), "the mode can be switched"); on[i] = en; vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); }
    for (int j = 0; j < NA; j++) { vp_assert(ilIsEnabled(ABLE[j]) == on[j], "exactly the modes switched on are on"); vp_assert(ilIsDisabled(ABLE[j]) == !on[j], "disabled is not enabled"); ILenum q = ABLE[j] == IL_FILE_OVERWRITE ? IL_FILE_MODE : ABLE[j] == IL_SAVE_INTERLACED ? IL_INTERLACE_MODE : ABLE[j]; vp_assert(ilGetInteger(q) == on[j] && ilGetBoolean(q) == on[j], "the queries agree"); }
    vp_assert(vhErr() == IL_NO_ERROR, "queries report no error");
  }
  vp_reach("end");
}
static ILuint bitOf(ILenum m) {
  switch (m) { case IL_ORIGIN_MODE: case IL_ORIGIN_SET: return IL_ORIGIN_BIT; case IL_FORMAT_MODE: case IL_FORMAT_SET: return IL_FORMAT_BIT; case IL_TYPE_MODE: case IL_TYPE_SET: return IL_TYPE_BIT; case IL_FILE_MODE: return IL_FILE_BIT; case IL_CONV_PAL: return IL_PAL_BIT; case IL_DEFAULT_ON_FAIL: return IL_LOADFAIL_BIT; case IL_COMPRESS_MODE: return IL_COMPRESS_BIT;
    case IL_TGA_CREATE_STAMP: case IL_JPG_QUALITY: case IL_PNG_INTERLACE: case IL_TGA_RLE: case IL_BMP_RLE: case IL_SGI_RLE: case IL_JPG_SAVE_FORMAT: case IL_DXTC_FORMAT: case IL_PCD_PICNUM: case IL_PNG_ALPHA_INDEX: case IL_VTF_COMP: case IL_JPG_PROGRESSIVE: return IL_FORMAT_SPECIFIC_BIT; }
  return 0;
}
static void alter(int k) {   // other values for all states
  static const ILenum B[] = { IL_KEEP_DXTC_DATA, IL_BMP_RLE, IL_PNG_INTERLACE, IL_SGI_RLE, IL_TGA_CREATE_STAMP, IL_TGA_RLE };
  for (int i = 0; i < 6; i++) ilSetInteger(B[i], !ilGetInteger(B[i]));
  for (int i = 0; i < NA; i++) (k + i) & 1 ? ilEnable(ABLE[i]) : ilDisable(ABLE[i]);
  ilFormatFunc(k & 1 ? IL_RGB : IL_LUMINANCE); ilTypeFunc(k & 1 ? IL_FLOAT : IL_SHORT); ilOriginFunc(k & 1 ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT); ilCompressFunc(k & 1 ? IL_COMPRESS_RLE : IL_COMPRESS_NONE);
  ILubyte q; vp_symbolic(&q, 1, "q"); vp_assume(q <= 99); ilSetInteger(IL_JPG_QUALITY, q); ILubyte x; vp_symbolic(&x, 1, "x"); ilSetInteger(IL_PNG_ALPHA_INDEX, x); vp_assume(x >= 2); ilSetInteger(IL_MAX_QUANT_INDICES, x);
  ilSetInteger(IL_NEU_QUANT_SAMPLE, 3 + k); ilSetInteger(IL_QUANTIZATION_MODE, k & 1 ? IL_NEU_QUANT : IL_WU_QUANT); ilSetInteger(IL_DXTC_FORMAT, k & 1 ? IL_DXT3 : IL_DXT5); ilSetInteger(IL_JPG_SAVE_FORMAT, k & 1 ? IL_EXIF : IL_JFIF); ilSetInteger(IL_PCD_PICNUM, k % 3); ilSetInteger(IL_VTF_COMP, k & 1 ? IL_DXT1 : IL_DXT3);
  char s[3] = { 'a', (char)('0' + k), 0 }; ilSetString(IL_TGA_ID_STRING, s); ilSetString(IL_PNG_TITLE_STRING, s); ilSetString(IL_TIF_AUTHNAME_STRING, s); ilSetString(IL_CHEAD_HEADER_STRING, s);
}
static bool str(ILenum m, int k) { const char *s = (const char*)ilGetString(m); return k < 0 ? s == 0 : s && s[0] == 'a' && s[1] == '0' + k && s[2] == 0; }
static void strs(int k) { vp_assert(str(IL_TGA_ID_STRING, k) && str(IL_PNG_TITLE_STRING, k) && str(IL_TIF_AUTHNAME_STRING, k) && str(IL_CHEAD_HEADER_STRING, k), "the strings are those of this level"); vp_assert(ilGetString(IL_PNG_DESCRIPTION_STRING) == 0 && ilGetString(IL_TGA_AUTHNAME_STRING) == 0, "strings never set stay empty"); }
H(h_push) {   // nested pushes with any bits; popping restores exactly
  vhInit(); vhErr(); int n = vp_param("n", 2), a0 = vp_param("alter", 1); ILint s[6][NI], t[NI], d[NI]; int st[6]; snap(d); if (a0) alter(0); st[0] = a0 ? 0 : -1; vp_assert(vhErr() == IL_NO_ERROR, "no error is reported");
  for (int k = 0; k < n; k++) {
    snap(s[k]); ILuint bits; vp_symbolic(&bits, 4, "bits"); ilSetError(0x55AA); ilPushAttrib(bits); snap(t); vp_assert(ilGetError() == 0x55AA, "pushing keeps the pending errors and reports none"); vp_assert(vhErr() == IL_NO_ERROR, "no other error");
    for (int i = 0; i < NI; i++) { ILuint b = bitOf(INTS[i]); if (b && (bits & b)) vp_assert(t[i] == s[k][i], "pushed states keep their values"); else vp_assert((t[i] == s[k][i]) | (t[i] == d[i]), "other states keep their values or get their defaults"); }
    if (bits & IL_FORMAT_SPECIFIC_BIT) strs(st[k]);
    st[k + 1] = k + 1; alter(k + 1); strs(k + 1); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported");
  }
  for (int k = n - 1; k >= 0; k--) { ilPopAttrib(); snap(t); for (int i = 0; i < NI; i++) vp_assert(t[i] == s[k][i], "popping restores every state"); strs(st[k]); vp_assert(vhErr() == IL_NO_ERROR, "popping what was pushed reports no error"); }
  ilPopAttrib(); vp_assert(vhErr() == IL_STACK_UNDERFLOW, "popping too often is reported"); snap(t); for (int i = 0; i < NI; i++) vp_assert(t[i] == s[0][i], "popping too often changes nothing"); vp_reach("end");
}
H(h_depth) {  // overflow of the state stack
  vhInit(); vhErr(); int n = 0; ILubyte v[80]; for (; n < 80; n++) { vp_symbolic(&v[n], 1, "v"); vp_assume(v[n] <= 99); ilSetInteger(IL_JPG_QUALITY, v[n]); ilPushAttrib(IL_ALL_ATTRIB_BITS); ILenum e = vhErr(); if (e != IL_NO_ERROR) { vp_assert(e == IL_STACK_OVERFLOW, "pushing too often is reported"); break; } vp_assert(ilGetInteger(IL_JPG_QUALITY) == v[n], "pushed states keep their values"); }
  vp_assert(n >= 16 && n < 80, "the stack has a limit"); vp_assert(ilGetInteger(IL_JPG_QUALITY) == v[n], "pushing too often changes nothing");
  for (int k = n - 1; k >= 0; k--) { ilPopAttrib(); vp_assert(ilGetInteger(IL_JPG_QUALITY) == v[k], "popping restores every state"); } ilPopAttrib(); vp_assert(vhErr() == IL_STACK_UNDERFLOW, "popping too often is reported"); vp_reach("end");
}
static const ILenum STRS[] = { IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING };
H(h_str) {   // strings are copied and independent
  vhInit(); vhErr(); unsigned live = vhLive; ILubyte i, j; vp_symbolic(&i, 1, "i"); vp_symbolic(&j, 1, "j"); vp_assume(i < 11); vp_assume(j < 11); i = (ILubyte)vp_concretize(i); j = (ILubyte)vp_concretize(j); int n = vp_param("n", 5); char *a = (char*)malloc(n + 1), *b = (char*)malloc(2);
  vp_symbolic(a, n, "a"); a[n] = 0; for (int k = 0; k < n; k++) vp_assume(a[k] != 0); vp_symbolic(b, 1, "b"); vp_assume(b[0] != 0); b[1] = 0; char *a0 = (char*)malloc(n + 1); memcpy(a0, a, n + 1); char b0 = b[0];
  ilSetString(STRS[i], a); memset(a, 'z', n); free(a); ilSetString(STRS[j], b); b[0] = 'q'; ilSetString(STRS[i], NULL); vp_assert(vhErr() == IL_INVALID_PARAM, "no string is refused");
  for (int k = 0; k < 11; k++) { const char *s = (const char*)ilGetString(STRS[k]); if (k == j) vp_assert(s && s[0] == b0 && s[1] == 0, "the string is what was set last"); else if (k == i) vp_assert(s && vp_same(s, a0, n + 1), "the string is what was set last"); else vp_assert(s == 0, "the other strings are untouched"); }
  vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); vp_assert(vhLive == live + (i == j ? 1 : 2), "strings come from the caller's allocator and the replaced ones are freed"); vp_reach("end");
}
H(h_tgaid) { // strings of any length go into a TGA, clipped, and the file can be read back
  vhInit(); VImg m; vhParamImg(m); vhNew(); vhMake(m, "pix"); int n = vp_param("n", 5); char *a = (char*)malloc(n + 1); memset(a, 'x', n); a[n] = 0; if (n) { vp_symbolic(a, 1, "c"); vp_assume(a[0] != 0); } ilSetString(vp_param("s", IL_TGA_ID_STRING), a); vhErr(); unsigned live = vhLive;
  ILuint q = ilSaveL(IL_TGA, NULL, 0); vp_assert(q > 18, "the size can be queried"); ILubyte *buf = (ILubyte*)malloc(q); ILuint r = ilSaveL(IL_TGA, buf, q); vp_assert(r == q, "the file has the size queried"); vp_assert(vhLive == live, "no memory is lost"); vp_check_init(buf, q, "the file does not depend on uninitialised memory");
  vhNew(); vp_assert(ilLoadL(IL_TGA, buf, q), "the file can be loaded"); vp_assert(vp_same(ilGetData(), m.pix, m.n), "the pixels are those saved"); vp_reach("end");
}
// ---- errors ----
H(h_errs) {   // n errors, last 32 come back newest first
  vhInit(); vhErr(); int n = vp_param("n", 5); ILenum e[80]; for (int i = 0; i < n; i++) { vp_symbolic(&e[i], 2, "e"); e[i] &= 0xffff; ilSetError(e[i]); }
  int k = n < 32 ? n : 32; for (int i = 0; i < k; i++) vp_assert(ilGetError() == e[n - 1 - i], "errors come back newest first, the newest 32 of them"); for (int i = 0; i < 2; i++) vp_assert(ilGetError() == IL_NO_ERROR, "then there is no error"); vp_reach("end");
}
H(h_ehist) {  // any interleaving of errors and queries
  vhInit(); vhErr(); int n = vp_param("n", 6), pre = vp_param("pre", 0); ILenum st[80]; int p = 0; for (int i = 0; i < pre; i++) { st[p] = 0x600 + i; ilSetError(st[p++]); }
  for (int i = 0; i < n; i++) { ILubyte o; vp_symbolic(&o, 1, "op"); if (o & 1) { ILenum c = 0; vp_symbolic(&c, 2, "code"); if (p == 32) { for (int k = 1; k < 32; k++) st[k - 1] = st[k]; p--; } st[p++] = c; ilSetError(c); } else { ILenum g = ilGetError(); vp_assert(g == (p ? st[p - 1] : IL_NO_ERROR), "a query takes the newest error"); if (p) p--; } }
  while (p) { ILenum g = ilGetError(); vp_assert(g == st[--p], "the rest comes back newest first"); } vp_assert(ilGetError() == IL_NO_ERROR, "then there is no error"); vp_reach("end");
}
H(h_ecall) { // refused calls report an error of the documented kind, calls that work none
  vhInit(); vhErr(); ILubyte w; vp_symbolic(&w, 1, "call"); vp_assume(w < 12); w = (ILubyte)vp_concretize(w); ILuint n[2]; ILenum e = IL_NO_ERROR;
  switch (w) {
    case 0: ilGetIntegerv(IL_VERSION_NUM, NULL); e = IL_INVALID_PARAM; break; case 1: ilEnable(0x7777); e = IL_INVALID_ENUM; break; case 2: ilGenImages(0, n); e = IL_INVALID_VALUE; break; case 3: ilPopAttrib(); e = IL_STACK_UNDERFLOW; break;
    case 4: ilGetString(0x7777); e = IL_INVALID_ENUM; break; case 5: ilHint(0x7777, IL_FASTEST); e = IL_INVALID_ENUM; break; case 6: ilHint(IL_MEM_SPEED_HINT, 0x7777); e = IL_INVALID_ENUM; break; case 7: ilGetBooleanv(IL_ORIGIN_SET, NULL); e = IL_INVALID_PARAM; break;
    case 8: ilSetString(0x7777, "a"); e = IL_INVALID_ENUM; break; case 9: ilSetInteger(0x7777, 1); e = IL_INVALID_ENUM; break; case 10: ilGetInteger(0x7777); e = IL_INVALID_ENUM; break; case 11: ilHint(IL_COMPRESSION_HINT, IL_DONT_CARE); break;
  }
  vp_assert(ilGetError() == e, "the error is of the right kind"); vp_assert(ilGetError() == IL_NO_ERROR, "and the only one"); vp_reach("end");
}
