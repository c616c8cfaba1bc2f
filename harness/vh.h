// Shared harness helpers: only DevIL's public API is used, so that internal refactorings do not matter.
#pragma once
#include <stdlib.h>
#include <string.h>
#include <IL/il.h>
#include <IL/ilu.h>
#include "vp.h"
#ifndef VH_CAP
#define VH_CAP 65536
#endif
static unsigned long vhLive, vhAllocs; static unsigned long vhCap = VH_CAP; static long vhFailAt = -1;
static void *ILAPIENTRY vhAlloc(const ILsizei n) { if (n > vhCap) return NULL; if (vhFailAt >= 0 && (long)vhAllocs == vhFailAt) { vhAllocs++; return NULL; } vhAllocs++; void *p = malloc(n); if (p) { vp_fresh(p, n); vhLive++; } return p; }
static void ILAPIENTRY vhFree(const void *p) { if (p) { vhLive--; free((void*)p); } }
static void vhInit(void) { ilSetMemory(vhAlloc, vhFree); ilInit(); }
static ILuint vhErr(void) { ILuint e = ilGetError(), l = e; for (int i = 0; i < 40 && l != IL_NO_ERROR; i++) l = ilGetError(); return e; }
static ILuint vhNew(void) { ILuint n = ilGenImage(); ilBindImage(n); return n; }
static int vhBpc(ILenum t) { switch (t) { case IL_BYTE: case IL_UNSIGNED_BYTE: return 1; case IL_SHORT: case IL_UNSIGNED_SHORT: case IL_HALF: return 2; case IL_INT: case IL_UNSIGNED_INT: case IL_FLOAT: return 4; case IL_DOUBLE: return 8; } return 0; }
static int vhChan(ILenum f) { switch (f) { case IL_COLOUR_INDEX: case IL_ALPHA: case IL_LUMINANCE: return 1; case IL_LUMINANCE_ALPHA: return 2; case IL_RGB: case IL_BGR: return 3; case IL_RGBA: case IL_BGRA: return 4; } return 0; }
#define H(name) extern "C" void name(void)
