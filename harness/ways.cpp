#include "load.cpp"
// The same bytes give the same picture, whichever way they are given: memory, open file (at any offset), file name, extension or contents.
static ILubyte *wf; static int wlen, wpos, opens, closes; static ILconst_string wname;
static ILHANDLE ILAPIENTRY wopn(ILconst_string f) { opens++; wname = f; wpos = 0; return &wpos; }
static void ILAPIENTRY wcls(ILHANDLE) { closes++; }
static ILboolean ILAPIENTRY weof(ILHANDLE) { return wpos >= wlen; }
static ILint ILAPIENTRY wgt(ILHANDLE) { return wpos < wlen ? wf[wpos++] : -1; }
static ILint ILAPIENTRY wrd(void *p, ILuint s, ILuint n, ILHANDLE) { if (!s || !n) return 0; ILuint left = wlen - wpos, k = n > left / s ? left : n * s; for (ILuint i = 0; i < k; i++) ((ILubyte*)p)[i] = wf[wpos + i]; wpos += k; return k / s; }
static ILint ILAPIENTRY wsk(ILHANDLE, ILint o, ILint m) { long long q = (m == IL_SEEK_SET ? 0 : m == IL_SEEK_CUR ? wpos : wlen) + (long long)o; if (q < 0 || q > wlen) return 1; wpos = (int)q; return 0; }
static ILint ILAPIENTRY wtl(ILHANDLE) { return wpos; }
struct Ext { const char *e; ILenum t; }; static const Ext EX[] = {{"tga", IL_TGA}, {"vda", IL_TGA}, {"icb", IL_TGA}, {"vst", IL_TGA}, {"jpg", IL_JPG}, {"jpeg", IL_JPG}, {"jpe", IL_JPG}, {"dds", IL_DDS}, {"png", IL_PNG}, {"bmp", IL_BMP}, {"dib", IL_BMP}, {"gif", IL_GIF}, {"cut", IL_CUT}, {"hdr", IL_HDR}, {"ico", IL_ICO}, {"cur", IL_ICO}, {"mng", IL_MNG}, {"pcx", IL_PCX}, {"dcx", IL_DCX}, {"pic", IL_PIC}, {"pix", IL_PIX}, {"pbm", IL_PNM}, {"pgm", IL_PNM}, {"pnm", IL_PNM}, {"ppm", IL_PNM}, {"psd", IL_PSD}, {"psp", IL_PSP}, {"pxr", IL_PXR}, {"sgi", IL_SGI}, {"bw", IL_SGI}, {"rgb", IL_SGI}, {"rgba", IL_SGI}, {"sun", IL_SUN}, {"ras", IL_SUN}, {"im8", IL_SUN}, {"tif", IL_TIF}, {"tiff", IL_TIF}, {"vtf", IL_VTF}, {"wal", IL_WAL}, {"wbmp", IL_WBMP}, {"xpm", IL_XPM}, {"ilbm", IL_ILBM}, {"lbm", IL_ILBM}, {"iff", IL_IFF}, {"ftx", IL_FTX}, {"lif", IL_LIF}, {"mdl", IL_MDL}, {"tpl", IL_TPL}, {"ktx", IL_KTX}, {"dpx", IL_DPX}, {"fits", IL_FITS}, {"fit", IL_FITS}, {"rot", IL_ROT}, {"texture", IL_TEXTURE}, {"iwi", IL_IWI}, {"icns", IL_ICNS}, {"blp", IL_BLP}, {"mp3", IL_MP3}, {"dicom", IL_DICOM}, {"dcm", IL_DICOM}, {"txt", IL_TYPE_UNKNOWN}, {"tgaa", IL_TYPE_UNKNOWN}, {"tg", IL_TYPE_UNKNOWN}, {"", IL_TYPE_UNKNOWN}};
static const char *extOf(int ty) { static char nm[16]; if (ty == IL_BMP) return "p.BMP"; if (ty == IL_CUT) return "p.Cut"; if (ty == IL_PNM) return "p.ppm"; for (unsigned i = 0; i < sizeof EX / sizeof *EX; i++) if ((int)EX[i].t == ty) { nm[0] = 'p'; nm[1] = '.'; int k = 0; for (; EX[i].e[k]; k++) nm[2 + k] = EX[i].e[k]; nm[2 + k] = 0; return nm; } return "p.zzz"; }
static const ILenum Q[] = {IL_IMAGE_WIDTH, IL_IMAGE_HEIGHT, IL_IMAGE_DEPTH, IL_IMAGE_FORMAT, IL_IMAGE_TYPE, IL_IMAGE_CHANNELS, IL_IMAGE_SIZE_OF_DATA, IL_IMAGE_ORIGIN, IL_PALETTE_TYPE, IL_PALETTE_NUM_COLS, IL_NUM_IMAGES, IL_NUM_MIPMAPS, IL_NUM_LAYERS, IL_NUM_FACES, IL_IMAGE_DURATION, IL_IMAGE_OFFX, IL_IMAGE_OFFY, IL_IMAGE_CUBEFLAGS};
static void same(ILuint a, ILuint b) {
  ilBindImage(a); int n = ilGetInteger(IL_NUM_IMAGES); if (n > 3) n = 3;
  for (int i = 0; i <= n; i++) { int v[2][sizeof Q / sizeof *Q]; ILubyte *p[2], *q[2]; for (int k = 0; k < 2; k++) { ilBindImage(k ? b : a); if (i) ilActiveImage(i); for (unsigned j = 0; j < sizeof Q / sizeof *Q; j++) v[k][j] = ilGetInteger(Q[j]); p[k] = ilGetData(); q[k] = v[k][9] ? ilGetPalette() : 0; }
    for (unsigned j = 0; j < sizeof Q / sizeof *Q; j++) vp_assert(v[0][j] == v[1][j], "the picture has the same shape and attributes"); vp_assert(!p[0] == !p[1] && vp_same(p[0], p[1], p[0] ? v[0][6] : 0), "the picture has the same pixels"); vp_assert(!q[0] == !q[1] && vp_same(q[0], q[1], q[0] ? (size_t)v[0][9] * vhPalBpp(v[0][8]) : 0), "the picture has the same palette"); }
}
H(h_ways) { // way 0 file 1 file with bytes in front 2 name 3 extension 4 contents (name) 5 contents (file) 6 contents (memory); fast: read ahead
  vhInit(); prep(); vp_step_limit(vp_param("lim", 4000000)); vhCap = vp_param("cap", 4096); ILenum ty = vp_param("type", IL_TGA); int way = vp_param("way", 0), pre = way == 1 ? vp_param("pre", 3) : 0;
  ILuint a = vhNew(); vhErr(); ILboolean ok = ilLoadL(ty, vfile, vlen); ILuint e = vhErr(); ILenum dt = way >= 4 ? ilDetermineTypeL(vfile, vlen) : 0; vhErr();
  if (way >= 4 && dt != ty) { ilShutDown(); vp_reach("end"); return; }
  wlen = vlen + pre; wf = (ILubyte*)malloc(wlen); for (int i = 0; i < pre; i++) wf[i] = 0xEE; for (int i = 0; i < vlen; i++) wf[pre + i] = vfile[i];
  ilSetRead(wopn, wcls, weof, wgt, wrd, wsk, wtl); if (vp_param("fast", 0)) ilHint(IL_MEM_SPEED_HINT, IL_FASTEST);
  ILuint b = vhNew(); vhErr(); ILboolean ok2; wpos = pre;
  if (way == 2) ok2 = ilLoad(ty, "p"); else if (way == 3) ok2 = ilLoadImage(extOf(ty)); else if (way == 4) ok2 = ilLoadImage("q.zzz"); else if (way == 5) ok2 = ilLoadF(IL_TYPE_UNKNOWN, &wpos); else if (way == 6) ok2 = ilLoadL(IL_TYPE_UNKNOWN, vfile, vlen); else ok2 = ilLoadF(ty, &wpos);
  ILuint e2 = vhErr(); vp_assert(!ok == !ok2, "the same bytes are accepted or refused"); if (ok ? e == IL_NO_ERROR : true) vp_assert((e2 == IL_NO_ERROR) == !!ok2, "a picture that is loaded gives no error, one that is not gives one");
  if (way < 2 || way == 5) vp_assert(wpos == pre, "the position of the file is kept"); vp_assert(opens == closes && (way < 2 || way > 4 ? opens == 0 : opens > 0), "a file that is opened is closed"); vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == b, "the same image is bound");
  if (ok && ok2) same(a, b); vhCap = VH_CAP; ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
// two pictures one after the other in one open file
H(h_seq) {
  vhInit(); prep(); vhCap = vp_param("cap", 4096); ILenum ty = vp_param("type", IL_TGA); ILuint a = vhNew(); vhErr(); ILboolean ok = ilLoadL(ty, vfile, vlen); vhErr(); wlen = vlen + 300; wf = (ILubyte*)malloc(wlen); memset(wf, 0, wlen); for (int i = 0; i < vlen; i++) wf[150 + i] = vfile[i];
  ilSetRead(wopn, wcls, weof, wgt, wrd, wsk, wtl); if (vp_param("fast", 0)) ilHint(IL_MEM_SPEED_HINT, IL_FASTEST);
  uint8_t o[2]; vp_symbolic(o, 2, "order"); vp_assume(o[0] < 3 && o[1] < 2); ILuint b = vhNew();
  if (o[0] == 1) { wpos = 0; ilLoadF(ty, &wpos); } else if (o[0] == 2) { ilLoadL(ty, vfile, vlen / 2); } if (o[1]) { wpos = 150; ilIsValidF(ty, &wpos); } vhErr();
  wpos = 150; ILboolean ok2 = ilLoadF(ty, &wpos); vp_assert(ok == ok2, "what was read before does not matter"); vp_assert(wpos == 150, "the position of the file is kept"); if (ok && ok2) same(a, b); vp_assert(opens == closes, "a file that is opened is closed"); vhCap = VH_CAP; ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
// recognising types: n arbitrary bytes (or those of an example), asked in three ways
static const ILenum TY[] = {IL_TGA, IL_JPG, IL_DDS, IL_PNG, IL_BMP, IL_GIF, IL_HDR, IL_ICNS, IL_ILBM, IL_IWI, IL_LIF, IL_MDL, IL_PCX, IL_PIC, IL_PNM, IL_PSD, IL_PSP, IL_SGI, IL_SUN, IL_TIF, IL_VTF, IL_XPM, IL_BLP, IL_MP3, IL_TPL, IL_SCITEX, IL_KTX, IL_DCX, IL_DICOM, IL_DPX, IL_FITS};
static const ILenum LATE[] = {IL_VTF, IL_XPM, IL_TGA};
H(h_kind) {
  vhInit(); int n = vp_param("n", 16), t = vp_param("tpl", 0); if (t) { prep(); } else { vlen = n; vfile = (ILubyte*)malloc(n); memset(vfile, vp_param("fill", 0), n); int s = vp_param("sym", n), at = vp_param("at", 0); vp_symbolic(vfile + at, s, "b"); }
  wf = vfile; wlen = vlen; ilSetRead(wopn, wcls, weof, wgt, wrd, wsk, wtl); ILuint a = vhNew(); ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 0); vhErr(); unsigned long live = vhLive;
  int one = vp_param("ty", 0); 
  if (one) { int m = ilIsValidL(one, vfile, vlen); vhErr(); wpos = 0; int f = ilIsValidF(one, &wpos); vhErr(); vp_assert(!m == !f, "the same bytes are valid in memory and in a file"); vp_assert(wpos == 0, "the position of the file is kept"); int g = ilIsValid(one, extOf(one)); vhErr(); if (vp_param("named", 1)) vp_assert(!m == !g, "the same bytes are valid in a named file"); vp_assert(opens == closes, "a file that is opened is closed"); }
  else {
    ILenum m = ilDetermineTypeL(vfile, vlen); vhErr(); wpos = 0; ILenum f = ilDetermineTypeF(&wpos); vhErr(); vp_assert(m == f, "a file is recognised as in memory"); vp_assert(wpos == 0, "the position of the file is kept"); ILenum g = ilDetermineType("q"); vhErr(); vp_assert(m == g, "a named file is recognised as in memory"); vp_assert(opens == 1 && closes == 1, "the file is opened and closed once");
    if (m != IL_TYPE_UNKNOWN) vp_assert(ilIsValidL(m, vfile, vlen), "a file is valid for the type it is recognised as"); else if (vp_param("all", 1)) for (unsigned i = 0; i < sizeof LATE / sizeof *LATE; i++) vp_assert(!ilIsValidL(LATE[i], vfile, vlen), "a file that is not recognised is of no type"); if (t) vp_assert(m == vp_param("want", vp_param("type", 0)), "an example of the type is recognised"); }
  vp_assert(vhLive == live && (ILuint)ilGetInteger(IL_CUR_IMAGE) == a && ilGetInteger(IL_IMAGE_WIDTH) == 1, "asking changes nothing"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
// extensions in any case
H(h_ext) {
  vhInit(); unsigned i = vp_param("i", 0), N = sizeof EX / sizeof *EX; vp_assert(i < N, "case"); char nm[24]; int k = 0; static const char *const dir[3] = {"", "d.bmp/", "a.png.b"}; const char *d = dir[vp_param("dir", 0)]; while (*d) nm[k++] = *d++; nm[k++] = '.'; const char *e = EX[i].e; int el = (int)strlen(e); uint8_t up[8]; vp_symbolic(up, el ? el : 1, "upper");
  for (int j = 0; j < el; j++) { vp_assume(up[j] < 2); nm[k + j] = e[j] >= 'a' && up[j] ? (char)(e[j] - 32) : e[j]; } nm[k + el] = 0; vhErr();
  vp_assert(ilTypeFromExt(nm) == EX[i].t, "the extension gives the type"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); nm[k - 1] = '_'; if (!vp_param("dir", 0)) vp_assert(ilTypeFromExt(nm) == IL_TYPE_UNKNOWN, "a name without a period has no extension"); ilShutDown(); vp_reach("end");
}
// saving
static ILubyte ob[9000]; static int on, op, oopen, oclose, orefuse; static long olimit;
static ILHANDLE ILAPIENTRY oo(ILconst_string) { oopen++; if (orefuse) return 0; return &on; }
static void ILAPIENTRY oc(ILHANDLE) { oclose++; }
static ILint ILAPIENTRY opc(ILubyte c, ILHANDLE) { if (op >= olimit) return -1; ob[op++] = c; if (op > on) on = op; return c; }
static ILint ILAPIENTRY osk(ILHANDLE, ILint o, ILint m) { long long q = (m == IL_SEEK_SET ? 0 : m == IL_SEEK_CUR ? op : on) + (long long)o; if (q < 0 || q > (int)sizeof ob) return 1; op = (int)q; return 0; }
static ILint ILAPIENTRY otl(ILHANDLE) { return op; }
static ILint ILAPIENTRY owr(const void *p, ILuint s, ILuint n, ILHANDLE) { ILuint i; for (i = 0; i < n; i++) { if (op + (long)s > olimit) break; for (ILuint j = 0; j < s; j++) ob[op + j] = ((const ILubyte*)p)[i * s + j]; op += s; if (op > on) on = op; } return i; }
H(h_saves) { // way 0 file 1 file further on 2 name 3 extension; full: the disk is full after some bytes
  vhInit(); VImg m; vhNew(); vhParamImg(m); vhMake(m, "pix"); vhErr(); ILenum ty = vp_param("type", IL_TGA); int way = vp_param("way", 0), pre = way == 1 ? 5 : 0; olimit = sizeof ob; ilEnable(IL_FILE_OVERWRITE); ilSetInteger(IL_TGA_CREATE_STAMP, 0); ilSetInteger(IL_TGA_RLE, vp_param("rle", 0)); ilSetInteger(IL_SGI_RLE, vp_param("rle", 0));
  unsigned long live = vhLive; static ILubyte lump[4096]; memset(lump, 0xA5, sizeof lump); ILuint n = ilSaveL(ty, lump, sizeof lump); ILuint e = vhErr(); vp_assert(vhLive == live, "saving takes no memory"); ilSetWrite(oo, oc, opc, osk, otl, owr); on = op = pre; for (int i = 0; i < pre; i++) ob[i] = 0xEE;
  if (vp_param("full", 0)) { uint16_t l; vp_symbolic(&l, 2, "limit"); vp_assume(l < n); olimit = (long)vp_concretize(l); }
  bool ok; if (way < 2) ok = ilSaveF(ty, &on) != 0; else if (way == 2) ok = ilSave(ty, "p.x") != 0; else ok = ilSaveImage(extOf(ty)) != 0; ILuint e2 = vhErr();
  if (vp_param("full", 0)) { vp_assert(on <= olimit, "no byte is written past the end"); if (vp_param("strict", 1)) vp_assert(!ok && e2 != IL_NO_ERROR, "a file that cannot be written is reported"); }
  else { vp_assert((n != 0) == ok, "a picture can be saved to a file when it can be saved to memory"); vp_assert((e == IL_NO_ERROR) == (e2 == IL_NO_ERROR), "errors are reported alike"); if (ok) { vp_assert(on - pre == (int)n, "the file has as many bytes as the memory"); vp_assert(vp_same(ob + pre, lump, n), "the same bytes are written"); } }
  for (int i = 0; i < pre; i++) vp_assert(ob[i] == 0xEE, "what the file had before is kept"); vp_assert(oopen == oclose && oopen == (way >= 2), "a file that is opened is closed, once"); vp_assert(vhLive == live, "saving takes no memory"); vp_assert(vp_same(ilGetData(), m.pix, m.n), "the picture is unchanged"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
// names: a file that exists is only written over when that was asked for, a file that cannot be opened is reported
H(h_keep) {
  vhInit(); VImg m; vhNew(); vhParamImg(m); vhMake(m, "pix"); vhErr(); ILenum ty = vp_param("type", IL_TGA); olimit = sizeof ob; ilSetInteger(IL_TGA_CREATE_STAMP, 0); ilSetWrite(oo, oc, opc, osk, otl, owr); uint8_t o[3]; vp_symbolic(o, 3, "opt"); vp_assume(o[0] < 2 && o[1] < 2 && o[2] < 2);
  unsigned long live = vhLive; if (o[0]) ilEnable(IL_FILE_OVERWRITE); else ilDisable(IL_FILE_OVERWRITE); orefuse = o[2]; int on0 = on; bool ok = ilSave(ty, o[1] ? "/" : "p.x") != 0; ILuint e = vhErr(); bool want = !o[2] && (o[0] || !o[1]);
  vp_assert(ok == want, "a file is written exactly when it can be opened and may be written over"); vp_assert((e == IL_NO_ERROR) == ok, "a refusal is reported"); if (!o[0] && o[1]) vp_assert(e == IL_FILE_ALREADY_EXISTS && oopen == 0, "a file that exists is not touched"); else vp_assert(oopen == 1, "the file is opened once"); vp_assert(oclose == (ok ? 1 : 0), "a file that is opened is closed, once"); if (!ok) vp_assert(on == on0, "nothing is written");
  vp_assert(vhLive == live, "saving takes no memory"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
