#include "img.h"
// Image names: histories of generating, binding, deleting, shutting down. Sub-images.
enum { NN = 8 };
static ILubyte byt(const char *nm, int lo, int hi) { ILubyte v; vp_symbolic(&v, 1, nm); vp_assume(v >= lo); vp_assume(v <= hi); return (ILubyte)vp_concretize(v); }
static ILubyte ex[NN]; static ILubyte tag[NN]; static int cur; static bool ended;
static void mark(int n) { ILubyte d = 0; vp_symbolic(&d, 1, "tag"); vp_assert(ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, &d), "the bound image can be given pixels"); tag[n] = d; }
static void chk(bool deep) {
  vp_assert(ilGetInteger(IL_CUR_IMAGE) == cur, "the bound name is the one bound last, or the default image when that is gone");
  for (int i = 0; i < NN; i++) vp_assert(ilIsImage(i) == (i ? ex[i] : 0), "exactly the names generated or bound and not deleted are images");
  if (deep) { for (int i = 2; i < NN; i++) if (ex[i]) { ilBindImage(i); vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == 1 && ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == 1 && ilGetData() && ilGetData()[0] == tag[i], "every image keeps its pixels"); } ilBindImage(cur); }
  vp_assert(vhErr() == IL_NO_ERROR, "no error is reported");
}
static void start() { for (int i = 0; i < NN; i++) ex[i] = ilIsImage(i); cur = ilGetInteger(IL_CUR_IMAGE); for (int i = 2; i < NN; i++) vp_assert(!ex[i], "at first there are no images"); }
H(h_hist) {
  vhInit(); vhErr(); start(); int K = vp_param("n", 3), M = vp_param("names", 3); ILubyte first[NN]; memcpy(first, ex, NN);
  for (int k = 0; k < K; k++) {
    int op = byt("op", 0, 5);
    if (op == 0) { ILuint n = ilGenImage(); vp_assert(n >= 1, "a name is given out"); if (n >= NN) { vp_cut("more names"); return; } vp_assert(!ex[n], "a new name is not in use"); ex[n] = 1; vp_assert(ilGetInteger(IL_CUR_IMAGE) == cur, "generating binds nothing"); ilBindImage(n); mark(n); ilBindImage(cur); }
    else if (op == 1) { ILuint n[3] = { 99, 99, 99 }; ilGenImages(2, n); for (int i = 0; i < 2; i++) { if (n[i] >= NN) { vp_assert(n[i] != 99, "every name is given out"); vp_cut("more names"); return; } vp_assert(n[i] >= 1 && !ex[n[i]], "a new name is not in use"); ex[n[i]] = 1; ilBindImage(n[i]); mark(n[i]); } ilBindImage(cur); vp_assert(n[2] == 99, "no more names than asked for are stored"); }
    else if (op == 2) { int n = byt("name", 0, M + 1); ilBindImage(n); cur = n; if (!ex[n] && n) { ex[n] = 1; mark(n); } }
    else if (op == 3) { int n = byt("name", 0, M + 1); ilDeleteImage(n); if (n && ex[n]) { ex[n] = 0; if (cur == n) cur = 0; } }
    else if (op == 4) { ILuint n[2]; n[0] = byt("name", 1, M + 1); n[1] = byt("name", 2, M + 1); ilDeleteImages(2, n); for (int i = 0; i < 2; i++) if (ex[n[i]]) { ex[n[i]] = 0; if (cur == (int)n[i]) cur = 0; } }
    else { ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); for (int i = 0; i < NN; i++) vp_assert(!ilIsImage(i), "after shutting down there are no images"); vp_assert(ilGetData() == 0, "nothing is bound"); vhErr(); ilInit(); memset(ex, 0, NN); vhErr(); start(); vp_assert(vp_same(ex, first, NN), "starting again is like the first start"); }
    chk(k == K - 1);
  }
  ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
H(h_far) {   // high names, any in a range, beyond the first allocations of the name table
  vhInit(); vhErr(); ILuint a = vhNew(); ILubyte d = 0; vp_symbolic(&d, 1, "d"); ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, &d); ILushort n; vp_symbolic(&n, 2, "name"); int lo = vp_param("lo", 1020), hi = vp_param("hi", 1030); vp_assume(n >= lo); vp_assume(n <= hi); n = (ILushort)vp_concretize(n);
  vp_assert(!ilIsImage(n), "a name never used is no image"); ilDeleteImage(n); ilBindImage(n); vp_assert(ilGetInteger(IL_CUR_IMAGE) == n && ilIsImage(n), "binding a new name makes an image"); vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == 1 && ilGetData(), "the image can be used");
  for (int k = -3; k < 4; k++) if (k) vp_assert(!ilIsImage(n + k) || n + k <= (int)a, "only that name"); ILuint g = ilGenImage(); vp_assert(g != n && g != a && g >= 2 && ilIsImage(g), "a new name is not in use"); ilBindImage(a); vp_assert(ilGetData()[0] == d, "every image keeps its pixels"); ilDeleteImage(n); vp_assert(!ilIsImage(n) && ilIsImage(a) && ilIsImage(g), "only the name deleted is gone");
  ILuint h = ilGenImage(); vp_assert(h != a && h != g && ilIsImage(h), "a new name is not in use"); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
H(h_nomem) { // a failing allocation leaves the names consistent
  vhInit(); vhErr(); ILuint a = vhNew(); ILubyte d = 0; vp_symbolic(&d, 1, "d"); ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, &d); int op = byt("op", 0, 2); ILubyte f = byt("fail", 0, 4); vhFailAt = vhAllocs + f; ILuint n[3] = {0, 0, 0};
  if (op == 0) ilGenImages(2, n); else if (op == 1) { ilDeleteImage(a); } else ilBindImage(1500);
  vhFailAt = -1; vhErr(); for (int i = 0; i < 2; i++) if (n[i] && ilIsImage(n[i])) { ilBindImage(n[i]); vp_assert(ilGetData() != 0 || ilGetInteger(IL_IMAGE_SIZE_OF_DATA) == 0, "an image has the data it says"); }
  if (op != 1) { vp_assert(ilIsImage(a), "the other images stay"); ilBindImage(a); vp_assert(ilGetData()[0] == d, "every image keeps its pixels"); } else vp_assert(!ilIsImage(a), "the name is gone"); ILuint g = ilGenImage(); vp_assert(g && ilIsImage(g) && g != a - (op == 1 ? a : 0), "names can be had again"); ilBindImage(g); vp_assert(ilGetData() != 0, "the image can be used");
  ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
// ---- sub-images ----
static const ILenum SUB[3] = { IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER }, NUM[3] = { IL_NUM_IMAGES, IL_NUM_MIPMAPS, IL_NUM_LAYERS }, ACT[3] = { IL_ACTIVE_IMAGE, IL_ACTIVE_MIPMAP, IL_ACTIVE_LAYER };
static ILboolean act(int t, ILuint n) { return t == 0 ? ilActiveImage(n) : t == 1 ? ilActiveMipmap(n) : ilActiveLayer(n); }
static ILboolean other(int k, ILuint n) { return k == 0 ? ilActiveFace(n) : 0; }
H(h_sub) {   // kinds together
  vhInit(); ILuint b = vhNew(); ILubyte base = 0; vp_symbolic(&base, 1, "base"); ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, &base); vhErr(); ILubyte d[3][4]; int cnt[3] = { 0, 0, 0 };
  for (int t = 0; t < 3; t++) { cnt[t] = byt("count", 0, 2); vp_assert(ilCreateSubImage(SUB[t], cnt[t]) == (ILuint)cnt[t], "as many sub-images as asked for are made"); vp_assert(ilGetData()[0] == base && ilGetInteger(ACT[t]) == 0, "making sub-images keeps the image bound"); }
  vp_assert(vhErr() == IL_NO_ERROR, "no error is reported");
  for (int t = 0; t < 3; t++) { ilBindImage(b); vp_assert(ilGetInteger(NUM[t]) == cnt[t], "the number of sub-images is as made"); for (int i = 1; i <= cnt[t]; i++) { ilBindImage(b); vp_assert(act(t, i), "every sub-image can be made active"); vp_symbolic(&d[t][i], 1, "sub"); ilSetData(&d[t][i]); } ilBindImage(b); vp_assert(!act(t, cnt[t] + 1), "no more sub-images than made"); vhErr(); }
  for (int t = 0; t < 3; t++) for (int i = 1; i <= cnt[t]; i++) { ilBindImage(b); act(t, i); vp_assert(ilGetData()[0] == d[t][i], "every sub-image keeps its pixels"); }
  ilBindImage(b); vp_assert(ilGetData()[0] == base, "the image keeps its pixels"); ilDeleteImage(b); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
H(h_sub2) {   // each kind alone, filled in place; any order of activation
  vhInit(); ILuint b = vhNew(); ILubyte base = 0; vp_symbolic(&base, 1, "base"); ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, &base); vhErr(); unsigned live = vhLive; int t = vp_param("k", 0), N = vp_param("n", 3); ILubyte d[8] = { base };
  int again = vp_param("again", 0), steps = vp_param("steps", 2); if (again) ilCreateSubImage(SUB[t], again);
  vp_assert(ilCreateSubImage(SUB[t], N) == (ILuint)N && ilGetInteger(NUM[t]) == N, "as many sub-images as asked for are made, replacing earlier ones"); vp_assert(ilGetInteger(NUM[(t + 1) % 3]) == 0 && ilGetInteger(NUM[(t + 2) % 3]) == 0 && ilGetInteger(IL_NUM_FACES) == 0, "no sub-images of other kinds");
  for (int i = 1; i <= N; i++) { ilBindImage(b); vp_assert(act(t, i), "every sub-image can be made active"); vp_assert(ilGetInteger(IL_IMAGE_WIDTH) == 1 && ilGetInteger(IL_IMAGE_HEIGHT) == 1 && ilGetData(), "a new sub-image is a 1x1 image"); vp_symbolic(&d[i], 1, "sub"); ilSetData(&d[i]); vp_assert(ilGetInteger(NUM[t]) == N - i, "a sub-image counts those after it"); }
  ilBindImage(b); int at = 0;
  for (int k = 0; k < steps; k++) { int n = byt("which", 0, N + 1), kind = byt("kind", 1, 4); if (kind == 2) { kind = 0; } if (kind == 0) { ilBindImage(b); at = 0; } int tt = kind == 3 ? (t + 1) % 3 : t; ILboolean r = kind == 4 ? other(0, n) : act(tt, n); bool ok = kind >= 3 ? n == 0 : at + n <= N; vp_assert((r != 0) == ok, "exactly the sub-images that are there can be made active"); vp_assert((vhErr() == IL_NO_ERROR) == ok, "an error is reported exactly otherwise"); if (ok) at += kind >= 3 ? 0 : n; vp_assert(ilGetData()[0] == d[at], "the active image is the one asked for, or the one before when that failed"); vp_assert(ilGetInteger(ACT[t]) == at, "the number of the active image is reported"); vp_assert(ilGetInteger(IL_CUR_IMAGE) == (ILint)b, "the bound name stays"); }
  ilBindImage(b); vp_assert(ilGetData()[0] == base && ilGetInteger(ACT[t]) == 0, "binding the name again goes back to the image itself"); (void)live;
  vp_assert(ilCreateSubImage(SUB[t], 0) == 0, "none are made when none are asked for"); vp_assert(ilCreateSubImage(0x7777, 1) == 0 && vhErr() == IL_INVALID_ENUM, "an unknown kind is refused"); int del = (N + again) & 1; if (del) ilDeleteImage(b); else { ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, &base); vp_assert(ilGetInteger(NUM[t]) == 0, "giving the image new pixels drops its sub-images"); }
  vp_assert(vhLive <= live, "no memory is lost"); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
H(h_subset) { // properties of one sub-image are its own; functions that work on the current image keep the others
  vhInit(); ILuint b = vhNew(); int t = vp_param("k", 0); VImg m; vhParamImg(m); vhMake(m, "pix"); ilCreateSubImage(SUB[t], 2); act(t, 1); ILubyte p[12]; vp_symbolic(p, 12, "sub"); if (t != 0 || 1) { ilTexImageSurface(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, p); } vhErr();
  ILint du, ox, oy; vp_symbolic(&du, 4, "du"); vp_symbolic(&ox, 4, "ox"); vp_symbolic(&oy, 4, "oy"); ilSetInteger(IL_IMAGE_DURATION, du); ilSetInteger(IL_IMAGE_OFFX, ox); ilSetInteger(IL_IMAGE_OFFY, oy); vp_assert(vhErr() == IL_NO_ERROR, "no error is reported"); vp_assert(ilGetInteger(NUM[t]) == 1, "a new surface keeps the sub-images after it");
  vp_assert(ilConvertImage(IL_RGBA, IL_UNSIGNED_SHORT), "the sub-image can be converted"); vp_assert(ilGetInteger(IL_CUR_IMAGE) == (ILint)b, "the bound name stays"); vp_assert(ilGetInteger(ACT[t]) == 1, "the sub-image stays active"); vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == IL_RGBA && ilGetInteger(IL_IMAGE_TYPE) == IL_UNSIGNED_SHORT, "the sub-image is converted");
  vp_assert(ilGetInteger(IL_IMAGE_DURATION) == du && ilGetInteger(IL_IMAGE_OFFX) == ox && ilGetInteger(IL_IMAGE_OFFY) == oy, "what was set for the sub-image stays"); ilBindImage(b); vp_assert(ilGetInteger(IL_IMAGE_DURATION) == 0 && ilGetInteger(IL_IMAGE_OFFX) == 0 && ilGetInteger(IL_IMAGE_OFFY) == 0, "nothing was set for the image itself");
  vp_assert(ilGetInteger(IL_IMAGE_FORMAT) == m.f && ilGetInteger(IL_IMAGE_TYPE) == m.t && ilGetInteger(IL_IMAGE_WIDTH) == m.w && vp_same(ilGetData(), m.pix, m.n), "the image itself is unchanged"); act(t, 1); ILushort *q = (ILushort*)ilGetData(); vp_assert(vp_ptr_valid(q, 32), "the sub-image has its pixels"); for (int i = 0; i < 4; i++) { for (int c = 0; c < 3; c++) vp_assert(q[i * 4 + c] == p[i * 3 + c] * 257, "the pixels of the sub-image are its own, converted"); vp_assert(q[i * 4 + 3] == 65535, "the pixels of the sub-image are its own, converted"); }
  ilDeleteImage(b); ilShutDown(); vp_assert(vhLive == 0, "shutting down frees everything"); vp_reach("end");
}
