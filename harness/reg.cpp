#include "img.h"
// Registered handlers over histories of registering, removing, loading and saving.
static int calls[4], opens; static ILconst_string lastName; static ILenum retv; static char fh;
static ILenum ILAPIENTRY H0(ILconst_string f) { calls[0]++; lastName = f; return retv; }
static ILenum ILAPIENTRY H1(ILconst_string f) { calls[1]++; lastName = f; return retv; }
static ILHANDLE ILAPIENTRY op_(ILconst_string) { opens++; return NULL; }
static void ILAPIENTRY cl_(ILHANDLE) {} static ILboolean ILAPIENTRY eo_(ILHANDLE) { return 1; } static ILint ILAPIENTRY gc_(ILHANDLE) { return -1; } static ILint ILAPIENTRY rd_(void*, ILuint, ILuint, ILHANDLE) { return 0; } static ILint ILAPIENTRY sk_(ILHANDLE, ILint, ILint) { return 0; } static ILint ILAPIENTRY tl_(ILHANDLE) { return 0; }
static ILint ILAPIENTRY pc_(ILubyte, ILHANDLE) { return 0; } static ILint ILAPIENTRY wr_(const void*, ILuint, ILuint n, ILHANDLE) { return n; }
static const char *const EXT[6] = {"abc", "ABC", "tga", "Tga", "ab", "abcd"}; static const int KEY[6] = {0, 0, 1, 1, 2, 3};
static const char *const NAME[8] = {"p.abc", "q.x/r.aBc", "p.tga", "a.abc.TGA", "p.ab", "abc", "p.", "p.abcd"}; static const int NKEY[8] = {0, 0, 1, 1, 2, -1, -1, 3};
H(h_reg) { // save: the other direction; n: operations; oom: one allocation fails
  vhInit(); ilSetRead(op_, cl_, eo_, gc_, rd_, sk_, tl_); ilSetWrite(op_, cl_, pc_, sk_, tl_, wr_); ILuint a = vhNew(); ILubyte px[3] = {1, 2, 3}; ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); vhErr(); unsigned long live0 = vhLive;
  int save = vp_param("save", 0), n = vp_param("n", 4), reg[4] = {-1, -1, -1, -1}, cnt = 0;
  if (vp_param("oom", 0)) { uint8_t k; vp_symbolic(&k, 1, "fail"); vp_assume(k < 4); vhFailAt = (long)vhAllocs + (long)vp_concretize(k); }
  for (int i = 0; i < n; i++) {
    uint8_t o[3]; vp_symbolic(o, 3, "op"); vp_assume(o[0] < 3); vp_assume(o[1] < (o[0] == 2 ? 8 : 6)); int op = (int)vp_concretize(o[0]), e = (int)vp_concretize(o[1]); unsigned long before = vhLive; long al = vhAllocs;
    if (op == 0) { vp_assume(o[2] < 2); int h = (int)vp_concretize(o[2]); ILboolean ok = save ? ilRegisterSave(EXT[e], h ? H1 : H0) : ilRegisterLoad(EXT[e], h ? H1 : H0); bool fail = vhFailAt >= al && vhFailAt < (long)vhAllocs; bool have = reg[KEY[e]] >= 0;
      vp_assert((ok != 0) == (have || !fail), "an extension can be registered unless memory runs out"); if (!have && ok) { reg[KEY[e]] = h; cnt++; } if (have || !ok) vp_assert(vhLive == before, "nothing is kept of a registration that adds nothing"); }
    else if (op == 1) { bool have = reg[KEY[e]] >= 0; ILboolean ok = save ? ilRemoveSave(EXT[e]) : ilRemoveLoad(EXT[e]); vp_assert((ok != 0) == have, "exactly the registered extensions can be removed"); if (have) cnt--; reg[KEY[e]] = -1; if (have) vp_assert(vhLive < before, "removing frees the registration"); }
    else { ILenum r = o[2] == 0 ? IL_NO_ERROR : o[2] == 1 ? 0 : IL_INVALID_VALUE; vp_assume(o[2] < 3); retv = r; calls[0] = calls[1] = opens = 0; lastName = 0; vhErr(); ILboolean ok = save ? ilSaveImage(NAME[e]) : ilLoadImage(NAME[e]); int k = NKEY[e], h = k < 0 ? -1 : reg[k]; if (save && k == 1) h = -1; bool good = r != IL_INVALID_VALUE;
      if (h >= 0) { vp_assert(calls[h] == 1 && calls[1 - h] == 0, "exactly the registered handler is called, once"); vp_assert(lastName && !strcmp(lastName, NAME[e]), "the handler gets the name of the file"); vp_assert((ok != 0) == good, "the verdict of the handler is the result"); vp_assert((vhErr() == IL_NO_ERROR) == good, "a handler's error is reported"); if (good) vp_assert(opens == 0, "a file that was handled is not opened"); }
      else { vp_assert(!calls[0] && !calls[1], "handlers of other extensions, and removed ones, are not called"); vp_assert(!ok && vhErr() != IL_NO_ERROR, "a file that cannot be opened, or of no known type, is an error"); }
      vp_assert(vhLive == before, "loading and saving by a handler take no memory"); }
    vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == a && vp_same(ilGetData(), px, 3), "the bound image is kept");
  }
  vp_assert((vhLive == live0) == (cnt == 0), "memory is held exactly while handlers are registered"); vhFailAt = -1;
  for (int i = 0; i < 6; i++) { if (save) ilRemoveSave(EXT[i]); else ilRemoveLoad(EXT[i]); } ilShutDown(); vp_assert(vhLive == 0, "removing the registrations and shutting down frees all memory"); vp_reach("end");
}
// a handler that builds the picture itself, through iluLoadImage
static ILubyte gp[12]; static int gfail;
static ILenum ILAPIENTRY HB(ILconst_string f) { calls[0]++; if (!ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, gp)) return IL_OUT_OF_MEMORY; ilRegisterOrigin(IL_ORIGIN_UPPER_LEFT); (void)f; return gfail ? (ILenum)IL_INVALID_FILE_HEADER : (ILenum)IL_NO_ERROR; }
H(h_iluload) {
  vhInit(); iluInit(); ilSetRead(op_, cl_, eo_, gc_, rd_, sk_, tl_); vp_symbolic(gp, 12, "gp"); gfail = vp_param("fail", 0); ILuint a = vhNew(); ILubyte px[3]; vp_symbolic(px, 3, "px"); ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); ilRegisterLoad("zz", HB); ilDeleteImage(ilGenImage()); vhErr(); unsigned long live = vhLive;
  ILuint b = iluLoadImage(vp_param("other", 0) ? "p.yy" : "p.zz");
  if (gfail || vp_param("other", 0)) { vp_assert(b == 0, "a file that cannot be loaded gives no image"); vp_assert(vhErr() != IL_NO_ERROR, "the error is reported"); vp_assert(vhLive == live, "nothing is left of the image"); vp_assert(ilIsImage(a), "the other images live on"); }
  else { vp_assert(b != 0 && b != a && ilIsImage(b), "a new image is made"); vp_assert((ILuint)ilGetInteger(IL_CUR_IMAGE) == b, "the new image is bound"); vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == 2 && vp_same(ilGetData(), gp, 12), "it has the loaded picture"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); ilDeleteImage(b); vp_assert(!ilIsImage(b) && vhLive == live, "deleting it frees it"); }
  ilBindImage(a); vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == 1 && vp_same(ilGetData(), px, 3), "the image that was bound is untouched"); ilRemoveLoad("zz"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
// profiles, palettes and numbers reported by handlers
H(h_regnum) { // k 0 mips 1 images 2 layers 3 faces
  vhInit(); ILuint a = vhNew(); ILubyte px[3]; vp_symbolic(px, 3, "px"); ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); vhErr(); unsigned long live = vhLive; uint8_t n[2]; vp_symbolic(n, 2, "n"); vp_assume(n[0] < 4 && n[1] < 4); int k = vp_param("k", 0); static const ILenum Q[4] = {IL_NUM_MIPMAPS, IL_NUM_IMAGES, IL_NUM_LAYERS, IL_NUM_FACES};
  for (int i = 0; i < 2; i++) { int c = (int)vp_concretize(n[i]); ILboolean ok = k == 0 ? ilRegisterMipNum(c) : k == 1 ? ilRegisterNumImages(c) : k == 2 ? ilRegisterNumFaces(c) : ilRegisterNumFaces(c); vp_assert(ok, "sub-images can be announced"); ilBindImage(a); if (k < 2) vp_assert(ilGetInteger(Q[k]) == c, "the announced number of sub-images exists"); if (c == 0) vp_assert(vhLive == live, "announcing none frees them"); vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == 1 && vp_same(ilGetData(), px, 3), "the picture is kept"); }
  vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
H(h_prof) {
  vhInit(); ILuint a = vhNew(); ILubyte px[3] = {1, 2, 3}, p1[5], p2[3]; vp_symbolic(p1, 5, "p1"); vp_symbolic(p2, 3, "p2"); ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); vhErr();
  for (int v = 0; v < 2; v++) { ilSetDuration(5 + v); vp_assert(ilGetInteger(IL_IMAGE_DURATION) == 5 + v, "the duration is remembered"); }
  ILuint b = vhNew(); ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); vp_assert(ilGetInteger(IL_IMAGE_DURATION) == 0, "another image has its own duration"); ilBindImage(a); vp_assert(ilGetInteger(IL_IMAGE_DURATION) == 6, "each image keeps its duration");
  ilBindImage(b); ILubyte dat[3]; vp_symbolic(dat, 3, "dat"); vp_assert(ilSetData(dat), "pixels can be handed over"); vp_assert(vp_same(ilGetData(), dat, 3), "the image has the pixels handed over"); ilBindImage(a); vp_assert(vp_same(ilGetData(), px, 3), "other images keep theirs"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees all memory"); vp_reach("end");
}
