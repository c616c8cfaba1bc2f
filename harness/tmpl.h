// Small valid files.
static int tmpl(int type, int v) {
  B o = {vbuf, 0}; memset(vbuf, 0, sizeof vbuf);
  switch (type) {
  case IL_TGA: { // 0 bgr24 1 rle24 2 ci8 pal24 3 ci8 rle pal32 4 grey 5 rle16 6 pal16 7 bgra32 8 rle grey 9 rle32 10 16 bit 11 15 bit
    static const ILubyte it[12] = {2, 10, 1, 9, 3, 10, 1, 2, 11, 10, 2, 2}, bp[12] = {24, 24, 8, 8, 8, 16, 8, 32, 8, 32, 16, 15}, cm[12] = {0, 0, 24, 32, 0, 0, 16, 0, 0, 0, 0, 0}; int idl = 1;
    o.b(idl); o.b(cm[v] != 0); o.b(it[v]); o.l2(0); o.l2(cm[v] ? 3 : 0); o.b(cm[v]); o.l2(0); o.l2(0); o.l2(3); o.l2(2); o.b(bp[v]); o.b(0x20); o.b('x'); o.seq(cm[v] / 8 * (cm[v] ? 3 : 0), 10, 20); int px = (bp[v] + 1) / 8;
    if (it[v] > 8) { o.b(0x82); o.seq(px, 0, 1); o.b(2); o.seq(3 * px, 0, px == 1 ? 1 : 7); } else for (int i = 0; i < 6 * px; i++) o.b(px == 1 && cm[v] ? i % 3 : i * 9); return o.n; }
  case IL_BMP: { // 0 24 1 8 2 4 3 1 4 16 5 32 bitfields 6 rle8 7 rle4 8 os2/8 9 os2/24 10 os2/1 11 os2/4 12 16 bitfields 13 32 14 32 bitfields in another order 15 bitfields 555 16 all 256 colours and a gap 17 rle8 with a step and an odd literal run 18 rle4 likewise 19 bitfields 4444 20 1 bit 32 wide 21 4 bit 8 wide 22 1 bit 25 wide 23 4 bit 7 wide 24 16 bit 2 wide 25 8 bit 4 wide 26 24 bit 4 wide
    static const ILubyte bp[27] = {24, 8, 4, 1, 16, 32, 8, 4, 8, 24, 1, 4, 16, 32, 32, 16, 8, 8, 4, 16, 1, 4, 1, 4, 16, 8, 24}, cp[27] = {0, 0, 0, 0, 0, 3, 1, 2, 0, 0, 0, 0, 3, 0, 3, 3, 0, 1, 2, 3}, ws[27] = {3, 3, 3, 9, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 32, 8, 25, 7, 2, 4, 4}; int w = ws[v], h = 2; o.s("BM"); o.l4(200); o.l4(0); int os2 = v >= 8 && v < 12, cols = v == 1 || v == 6 || v == 2 || v == 7 ? 3 : v == 3 ? 2 : v == 16 ? 256 : v == 17 || v == 18 ? 4 : v == 20 || v == 22 ? 2 : v == 21 || v == 23 ? 16 : v == 25 ? 5 : 0; if (v >= 17 && v <= 18) { w = 5; h = 3; } if (os2) cols = bp[v] > 8 ? 0 : 1 << bp[v];
    o.l4(os2 ? 26 + cols * 3 : 54 + cols * 4 + (cp[v] == 3 ? 12 : 0) + (v == 16 ? 6 : 0)); o.l4(os2 ? 12 : 40); if (os2) { o.l2(w); o.l2(h); o.l2(1); o.l2(bp[v]); o.seq(cols * 3, 5, 3); } else { o.l4(w); o.l4(h); o.l2(1); o.l2(bp[v]); o.l4(cp[v]); o.l4(0); o.l4(0); o.l4(0); o.l4(v == 16 ? 0 : cols); o.l4(0); o.seq(cols * 4, 5, 3); if (v == 16) o.z(6); if (cp[v] == 3) { if (v == 14) { o.l4(0xFF); o.l4(0xFF00); o.l4(0xFF0000); } else if (v == 15) { o.l4(0x7C00); o.l4(0x3E0); o.l4(0x1F); } else if (v == 19) { o.l4(0xF00); o.l4(0xF0); o.l4(0xF); } else if (v == 5) { o.l4(0xFF0000); o.l4(0xFF00); o.l4(0xFF); } else { o.l4(0xF800); o.l4(0x7E0); o.l4(0x1F); } } }
    if (v == 17) { o.b(0); o.b(3); o.b(1); o.b(2); o.b(3); o.b(0); o.b(2); o.b(1); o.b(0); o.b(0); o.b(3); o.b(2); o.b(0); o.b(2); o.b(1); o.b(1); o.b(1); o.b(3); o.b(0); o.b(1); } else if (v == 18) { o.b(0); o.b(3); o.b(0x12); o.b(0x30); o.b(2); o.b(0x13); o.b(0); o.b(0); o.b(3); o.b(0x21); o.b(0); o.b(2); o.b(1); o.b(1); o.b(1); o.b(0x30); o.b(0); o.b(1); } else if (v == 6) { o.b(2); o.b(1); o.b(0); o.b(0); o.b(0); o.b(3); o.b(0); o.b(1); o.b(2); o.b(0); o.b(0); o.b(1); } else if (v == 7) { o.b(3); o.b(0x12); o.b(0); o.b(0); o.b(0); o.b(3); o.b(0x12); o.b(0x10); o.b(0); o.b(1); } else for (int y = 0; y < h; y++) { int row = (w * bp[v] + 7) / 8; if (bp[v] == 4 && v < 20) { o.b(0x12); o.b(0x20); } else if (bp[v] == 8) o.seq(row, 0, 1); else o.seq(row, 17 * y, 40); o.z((4 - row % 4) % 4); }
    return o.n; }
  case IL_PCX: case IL_DCX: { // 0 8 bit palette 1 rgb 2 1 bit 3 4 planes 4 rgba 5 grey; DCX: 6 = 1 and 2
    if (type == IL_DCX) { o.l4(987654321); o.l4(v == 6 ? 16 : 12); if (v == 6) o.l4(16 + 128 + 18); o.l4(0); }
    for (int part = 0; part < (v == 6 ? 2 : 1); part++) { int u = v == 6 ? 1 + part : v, pl = u == 1 ? 3 : u == 3 || u == 4 ? 4 : 1, bp = u == 2 || u == 3 ? 1 : 8, w = bp == 1 ? 11 : 3, bps = bp == 1 ? 2 : 4;
      o.b(10); o.b(5); o.b(1); o.b(bp); o.l2(0); o.l2(0); o.l2(w - 1); o.l2(1); o.l2(0); o.l2(0); o.seq(48, 3, 5); o.b(0); o.b(pl); o.l2(bps); o.l2(1); o.z(58);
      for (int y = 0; y < 2; y++) { int n = bps * pl; if (u == 1) { o.b(0xC0 + 4); o.b(17); o.b(1); o.b(2); o.b(0xC3); o.b(0xEE); o.b(9); o.b(0xC2); o.b(7); } else { o.b(0xC0 + n - 1); o.b(2 + y); o.b(0x15); } }
      if (u == 0) { o.b(12); o.seq(768, 1, 7); } }
    return o.n; }
  case IL_CUT: { o.l2(4); o.l2(2); o.l4(0); o.b(0x83); o.b(7); o.b(1); o.b(9); o.b(0); o.l2(6); o.b(2); o.b(5); o.b(6); o.b(0x82); o.b(3); return o.n; }
  case IL_SGI: { // 0 rgb 1 rle grey 2 grey16 3 rle 16 rgb 4 rgba 5 rgb 16 6 rle rgb 7 rle rgba 16 8 rle rgba
    static const ILubyte ch[9] = {3, 1, 1, 3, 4, 3, 3, 4, 4}, bc[9] = {1, 1, 2, 2, 1, 2, 1, 2, 1}; int rle = v == 1 || v == 3 || v >= 6, w = 3, h = 2; o.m2(474); o.b(rle); o.b(bc[v]); o.m2(ch[v] == 1 ? 2 : 3); o.m2(w); o.m2(h); o.m2(ch[v]); o.m4(0); o.m4(255); o.m4(0); o.z(80); o.m4(0); o.z(404);
    if (!rle) o.seq(w * h * ch[v] * bc[v], 5, 9); else { int rows = h * ch[v], len = bc[v] == 1 ? 4 : 8; for (int i = 0; i < rows; i++) o.m4(512 + 8 * rows + len * i); for (int i = 0; i < rows; i++) o.m4(len); for (int i = 0; i < rows; i++) if (bc[v] == 1) { o.b(0x81); o.b(40 * i); o.b(2); o.b(i + 3); } else { o.m2(2); o.m2(300 * i); o.m2(0x81); o.m2(i); } }
    return o.n; }
  case IL_PNM: { // 0..5 P1..P6 6 P2 16 bit 7 P6 16 bit 8.. PAM
    static const char *const t[12] = {"P1\n# c\n3 2\n101 0 1 1\n", "P2\n3 2\n200\n1 20 200\n#x\n4 5 6\n", "P3\n1 2\n255\n1 2 3 40 50 60\n", "P4\n3 2\n", "P5\n3 2\n255\n", "P6\n1 2\n255\n", "P2 3 1 60000\n1 256 59999\n", "P6\n1 2\n65535\n", "P7\nWIDTH 1\nHEIGHT 2\nDEPTH 3\nMAXVAL 255\nTUPLTYPE RGB\nENDHDR\n", "P7\nWIDTH 1\nHEIGHT 1\nDEPTH 2\nMAXVAL 65535\nTUPLTYPE GRAYSCALE_ALPHA\nENDHDR\n", "P5\n# c\n3\t2\n#d\n255\n", "P4 #e\n3\n#f\n2\n"}; static const ILubyte dn[12] = {0, 0, 0, 2, 6, 6, 0, 12, 6, 4, 6, 2};
    o.s(t[v]); o.seq(dn[v], 0x41, 0x23); return o.n; }
  case IL_GIF: { // 0 one picture 1 interlaced, own palette, transparent 2 two pictures, the second smaller, transparent and over the first 3 three pictures with palettes of their own 4 one pixel 5 true run-length codes
    static const ILubyte W[6] = {3, 2, 4, 2, 1, 5}, Hh[6] = {2, 5, 3, 2, 1, 2}; o.s(v ? "GIF89a" : "GIF87a"); o.l2(W[v]); o.l2(Hh[v]); o.b(v == 1 ? 0x11 : 0x81); o.b(v == 2 ? 1 : 0); o.b(0); if (v != 1) o.seq(12, 10, 7); int frames = v == 2 ? 2 : v == 3 ? 3 : 1;
    if (v == 3) { o.b(0x21); o.b(0xFE); o.b(2); o.s("hi"); o.b(0); }
    for (int f = 0; f < frames; f++) { int ox = v == 2 && f ? 1 : 0, oy = ox, w = W[v] - 2 * ox, h = Hh[v] - oy; if (v == 1 || v == 2 || v == 3) { o.b(0x21); o.b(0xF9); o.b(4); o.b(v == 3 ? f << 2 : 5); o.l2(7 + f); o.b(2); o.b(0); } int loc = v == 1 || (v == 3 && f); o.b(0x2C); o.l2(ox); o.l2(oy); o.l2(w); o.l2(h); o.b((loc ? 0x80 : 0) | (v == 1 ? 0x40 : 0)); if (loc) o.seq(6, 90 + f, 11);
      o.b(2); unsigned acc = 0; int nb = 0, at = o.n; o.b(0); auto put = [&](int c) { acc |= c << nb; nb += 3; while (nb >= 8) { o.b(acc & 255); acc >>= 8; nb -= 8; } };
      if (v == 5) { put(4); put(1); put(6); put(2); } else for (int i = 0; i < w * h; i++) { if (i % 2 == 0) put(4); put((i * 3 + f + (v == 1 ? i / 2 : 0)) & (loc ? 1 : 3)); }
      if (v == 5) { static const ILubyte c4[6] = {7, 0, 3, 1, 5, 0}; for (int i = 0; i < 5; i++) { acc |= c4[i] << nb; nb += 4; while (nb >= 8) { o.b(acc & 255); acc >>= 8; nb -= 8; } } if (nb > 0) o.b(acc & 255); } else { put(5); if (nb) o.b(acc & 255); }
      vbuf[at] = o.n - at - 1; o.b(0); }
    o.b(0x3B); return o.n; }
  case IL_ICO: { // 0 1 bit 1 4 bit 2 8 bit 3 24 bit 4 32 bit 5 a 24 bit and a 1 bit icon 6 1 bit 32 wide 7 8 bit 33 wide 8 4 bit 8 wide 9 24 bit 4 wide
    int n = v == 5 ? 2 : 1; o.l2(0); o.l2(1); o.l2(n); int at[2];
    for (int i = 0; i < n; i++) { o.b(3); o.b(2); o.b(0); o.b(0); o.l2(1); o.l2(24); at[i] = o.n; o.l4(0); o.l4(0); }
    for (int i = 0; i < n; i++) { static const ILubyte bp[10] = {1, 4, 8, 24, 32, 24, 1, 8, 4, 24}, ws[10] = {9, 3, 3, 3, 3, 3, 32, 33, 8, 4}; int b = i ? 1 : bp[v], w = i ? 9 : ws[v], h = 2, from = o.n, row = (w * b + 31) / 32 * 4; o.at4(at[i] + 4, o.n); o.l4(40); o.l4(w); o.l4(2 * h); o.l2(1); o.l2(b); o.l4(0); o.l4(0); o.l4(0); o.l4(0); o.l4(b == 4 && v != 8 ? 3 : 0); o.l4(0);
      o.seq(b == 1 ? 8 : b == 4 ? v == 8 ? 64 : 12 : b == 8 ? 1024 : 0, 7 + i, 13); for (int y = 0; y < h; y++) o.seq(row, b == 4 ? 1 : 17 * y, b == 4 ? 16 : 29); for (int y = 0; y < h; y++) { o.b(0x41 + y); o.z(2); o.b(v >= 6 ? 0x5A : 0); if (w > 32) { o.b(0x80 * y); o.z(3); } } o.at4(at[i], o.n - from); }
    return o.n; }
  case IL_PSD: { // 0 rgb 1 rgba rle 2 grey 16 3 indexed 4 cmyk 5 cmyk + alpha rle 6 grey + mask rle, resources 7 rgb 16 with 5 channels 8 cmyk 16 9 indexed rle
    static const ILubyte ch[10] = {3, 4, 1, 1, 4, 5, 2, 5, 4, 1}, dp[10] = {8, 8, 16, 8, 8, 8, 8, 16, 16, 8}, md[10] = {3, 3, 1, 2, 4, 4, 1, 3, 4, 2}, rl[10] = {0, 1, 0, 0, 0, 1, 1, 0, 0, 1}; int w = v == 1 || v == 5 ? 4 : 2, h = 2;
    o.s("8BPS"); o.m2(1); o.z(6); o.m2(ch[v]); o.m4(h); o.m4(w); o.m2(dp[v]); o.m2(md[v]); int cols = md[v] == 2 ? v == 9 ? 2 : 256 : 0; o.m4(cols * 3); o.seq(cols * 3, 5, 7);
    if (v == 6) { o.m4(34); o.s("8BIM"); o.m2(0x3ED); o.b(3); o.s("abc"); o.m4(2); o.s("xy"); o.s("8BIM"); o.m2(0x40F); o.z(2); o.m4(5); o.s("icc!!"); o.b(0); } else o.m4(0);
    o.m4(v == 0 ? 2 : 0); if (v == 0) o.z(2); o.m2(rl[v]); if (!rl[v]) o.seq(w * h * ch[v] * dp[v] / 8, 21, 37); else { for (int i = 0; i < ch[v] * h; i++) o.m2(w == 4 ? 5 : 2); for (int i = 0; i < ch[v] * h; i++) if (w == 4) { o.b(0xFF); o.b(i * 25); o.b(1); o.b(i + 3); o.b(90 + i); } else { o.b(0xFF); o.b(i & 1); } }
    return o.n; }
  case IL_DDS: { // 0 DXT1 1 DXT2 2 DXT3 3 DXT4 4 DXT5 5 ATI1 6 ATI2 7 RXGB 8 rgb24 9 argb32 10 565 11 1555 12 4444 13 2101010 14 grey8 15 grey16 16 grey alpha 17 R16F 18 G16R16F 19 A16..F 20 R32F 21 G32R32F 22 A32..F 23 A16B16G16R16 24 DX10 rgba 25 DX10 bgra with padded rows 26 mipmaps DXT1 27 mipmaps rgb24 28 volume 29 cube map DXT1 30 cube map, two faces with mipmaps 31 volume with mipmaps, no linear size 32 mipmaps float 33 A8L8-like rgb mask-less 34 a2b10g10r10
    static const char *const cc[36] = {"DXT1", "DXT2", "DXT3", "DXT4", "DXT5", "ATI1", "ATI2", "RXGB", 0, 0, 0, 0, 0, 0, 0, 0, 0, "o", "p", "q", "r", "s", "t", "$", "DX10", "DX10", "DXT1", 0, 0, "DXT1", 0, 0, "p", 0, 0};
    static const ILubyte ws[36] = {5, 2, 4, 2, 3, 5, 2, 4, 2, 2, 3, 2, 2, 2, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 4, 2, 2, 2, 2, 2, 2, 2, 2}, hs[36] = {3, 2, 4, 2, 5, 2, 2, 4, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 1, 1, 2, 1, 1, 1, 2, 2, 4, 2, 1, 2, 2, 2, 2, 1, 1}, bits[36] = {0, 0, 0, 0, 0, 0, 0, 0, 24, 32, 16, 16, 16, 32, 8, 16, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 24, 24, 0, 32, 16, 0, 32, 32};
    static const ILubyte len[36] = {16, 16, 16, 16, 32, 16, 16, 16, 12, 16, 12, 8, 8, 8, 6, 8, 8, 8, 8, 16, 16, 16, 32, 16, 16, 24, 24, 15, 12, 48, 40, 18, 20, 8, 8};
    unsigned fl = 0x1007, f2 = cc[v] ? 4 : v == 14 || v == 15 ? 0x20000 : v == 16 ? 0x20001 : v == 8 || v == 10 || v == 27 || v == 28 || v == 33 ? 0x40 : 0x41, c1 = 0x1000, c2 = 0, mips = 0, dep = 0, lin = len[v], R = 0xFF, G = 0, B = 0, A = 0;
    if (bits[v] >= 24) { R = 0xFF0000; G = 0xFF00; B = 0xFF; A = bits[v] == 32 ? 0xFF000000 : 0; } if (v == 10) { R = 0xF800; G = 0x7E0; B = 0x1F; } if (v == 11 || v == 31) { R = 0x7C00; G = 0x3E0; B = 0x1F; A = 0x8000; } if (v == 12) { R = 0xF00; G = 0xF0; B = 0xF; A = 0xF000; } if (v == 13) { R = 0x3FF; G = 0xFFC00; B = 0x3FF00000; A = 0xC0000000; } if (v == 34) { B = 0x3FF; G = 0xFFC00; R = 0x3FF00000; A = 0xC0000000; } if (v == 15) R = 0xFFFF; if (v == 16) A = 0xFF00; if (v == 33) R = G = B = 0xFF;
    fl |= v == 25 ? 8 : 0x80000; if (v == 25) lin = 12; if (v == 26) { mips = 3; lin = 8; } if (v == 27) { mips = 2; lin = 12; } if (v == 28) { dep = 2; c2 = 0x200000; } if (v == 29) { c1 |= 8; c2 = 0xFE00; lin = 8; } if (v == 30) { c1 |= 8; c2 = 0x200 | 0x800 | 0x4000; mips = 2; lin = 16; } if (v == 31) { dep = 2; c2 = 0x200000; mips = 2; lin = 0; fl &= ~0x80000; } if (v == 32) { mips = 2; lin = 16; }
    if (mips) { fl |= 0x20000; c1 |= 0x400008; }
    o.s("DDS "); o.l4(124); o.l4(fl); o.l4(hs[v]); o.l4(ws[v]); o.l4(lin); o.l4(dep); o.l4(mips); o.z(44); o.l4(32); o.l4(f2); if (cc[v]) { int k = o.n; o.s(cc[v]); o.z(k + 4 - o.n); } else o.z(4); o.l4(bits[v]); o.l4(R); o.l4(G); o.l4(B); o.l4(A); o.l4(c1); o.l4(c2); o.z(12);
    if (v == 24 || v == 25) { o.l4(v == 24 ? 28 : 87); o.l4(3); o.l4(0); o.l4(1); o.l4(0); }
    o.seq(len[v], 37, 59); return o.n; }
  case IL_SUN: { // 0 grey 1 palette 2 24 bit 3 24 bit rgb 4 32 bit 5 32 bit rgb 6 1 bit 7 1 bit with a map 8 rle grey 9 rle 24 bit, a run through the padding 10 rle palette 11 rle 24 bit, rows of even length
    static const ILubyte dp[12] = {8, 8, 24, 24, 32, 32, 1, 1, 8, 24, 8, 24}, ty[12] = {1, 0, 1, 3, 1, 3, 1, 0, 2, 2, 2, 2}, ml[12] = {0, 9, 0, 0, 0, 0, 0, 6, 0, 0, 9, 3}, ws[12] = {3, 3, 3, 1, 2, 2, 9, 17, 3, 1, 3, 2}; int w = ws[v], h = 2, row = (w * dp[v] + 15) / 16 * 2;
    o.m4(0x59A66A95); o.m4(w); o.m4(h); o.m4(dp[v]); o.m4(row * h); o.m4(ty[v]); o.m4(ml[v] && dp[v] < 24); o.m4(ml[v]); o.seq(ml[v], 5, 11);
    if (v == 8) { o.b(0x80); o.b(2); o.b(9); o.b(0x80); o.b(0); o.b(7); o.b(0x80); o.b(1); o.b(33); o.b(1); } else if (v == 9) { o.b(0x80); o.b(4); o.b(50); o.b(6); o.b(0x80); o.b(0); o.b(3); } else if (v == 10) { o.b(1); o.b(0x80); o.b(3); o.b(2); o.b(0x80); o.b(2); o.b(0); } else if (v == 11) { o.b(0x80); o.b(6); o.b(60); o.seq(5, 21, 9); } else if (dp[v] == 8 && ml[v]) { o.seq(6, 0, 1); o.p[o.n - 3] = 0; o.p[o.n - 2] = 1; o.p[o.n - 1] = 2; o.b(0); o.b(0); } else o.seq(row * h, 23, 37);
    return o.n; }
  case IL_WBMP: { o.b(0); o.b(0); if (v == 1) o.b(0x80); o.b(v == 1 ? 3 : 9); o.b(v == 2 ? 1 : 2); o.seq(v == 1 ? 2 : v == 2 ? 2 : 4, 0x5A, 0x33); return o.n; } // 0 nine wide 1 width of two bytes 2 one row
  case IL_PIX: { o.m2(3); o.m2(2); o.m2(0); o.m2(2); o.m2(24); o.b(4); o.seq(3, 9, 40); o.b(1); o.seq(3, 60, 30); o.b(1); o.seq(3, 7, 9); return o.n; }
  case IL_PIC: { // 0 rgb mixed 1 rgb runs 2 raw rgb and alpha runs 3 rgb mixed with a long run 4 each channel by itself
    o.m4(0x5380F634); o.m4(0x3F800000); o.z(80); o.s("PICT"); o.m2(3); o.m2(2); o.m4(0x3F800000); o.m2(3); o.m2(0); auto ch = [&](int more, int ty, int c) { o.b(more); o.b(8); o.b(ty); o.b(c); };
    if (v == 2) { ch(1, 0, 0xE0); ch(0, 1, 0x10); } else if (v == 4) { ch(1, 2, 0x80); ch(1, 2, 0x40); ch(1, 1, 0x20); ch(0, 0, 0x10); } else ch(0, v == 1 ? 1 : 2, 0xE0);
    for (int y = 0; y < 2; y++) { int a = 20 + 90 * y; if (v == 0) { o.b(129); o.seq(3, a, 7); o.b(0); o.seq(3, a + 40, 5); } else if (v == 1) { o.b(1); o.seq(3, a, 7); o.b(2); o.seq(3, a + 30, 9); } else if (v == 2) { o.seq(9, a, 6); o.b(2); o.b(a + 1); o.b(1); o.b(a + 2); } else if (v == 3) { o.b(128); o.m2(3); o.seq(3, a, 11); } else { o.b(2); o.seq(3, a, 3); o.b(130); o.b(a + 50); o.b(3); o.b(a + 60); o.seq(3, a + 70, 2); } }
    return o.n; }
  case IL_HDR: { // 0 plain 1 runs by channel 2 old runs 3 another signature 4 several old runs 5 an old run with a long count
    if (v > 3) { o.s(v == 4 ? "#?RADIANCE\nA\n\n-Y 1 +X 6\n" : "#?RADIANCE\nA\n\n-Y 1 +X 301\n"); if (v == 4) for (int i = 0; i < 3; i++) { o.seq(3, 30 + 50 * i, 9); o.b(127 + i); o.seq(3, 1, 0); o.b(1); } else { o.seq(3, 70, 50); o.b(128); o.seq(3, 1, 0); o.b(43); o.seq(3, 1, 0); o.b(1); o.seq(3, 9, 50); o.b(130); } return o.n; }
    o.s(v == 3 ? "#?RGBE\nX=1\n\n-Y 1 +X 2\n" : v == 0 ? "#?RADIANCE\nA\n\n-Y 2 +X 2\n" : "#?RADIANCE\nA\n\n-Y 1 +X 5\n");
    if (v == 1) { o.m2(0x0202); o.m2(5); for (int c = 0; c < 4; c++) { o.b(131); o.b(60 + 23 * c); o.b(2); o.b(90 + 10 * c); o.b(100 + 9 * c); } } else if (v == 2) { o.seq(3, 40, 30); o.b(128); o.b(1); o.b(1); o.b(1); o.b(3); o.seq(3, 90, 40); o.b(129); } else for (int i = 0; i < (v == 3 ? 2 : 4); i++) { o.seq(3, 30 + i * 20, 45); o.b(126 + i); }
    return o.n; }
  case IL_LIF: { o.s("Willy 7"); o.b(0); o.l4(260); o.l4(50); o.l4(2); o.l4(2); o.l4(0); o.l4(0); o.l4(0); o.l4(0); o.l4(0); o.b(3); o.b(255); o.b(0); o.b(7); o.seq(1024, 1, 7); return o.n; }
  case IL_WAL: { o.s("wall"); o.z(28); o.l4(8); o.l4(8); o.l4(100); o.l4(164); o.l4(180); o.l4(184); o.z(32); o.z(12); o.seq(85, 3, 5); return o.n; }
  case IL_FTX: { o.l4(2); o.l4(2); o.l4(0); o.seq(16, 9, 15); return o.n; }
  case IL_PXR: { o.z(416); o.l2(2); o.l2(3); o.z(4); o.b(v == 0 ? 8 : v == 1 ? 0x0E : 0x0F); o.z(599); o.seq(6 * (v == 0 ? 1 : v == 1 ? 3 : 4), 4, 9); return o.n; }
  case IL_RAW: { static const ILubyte ch[4] = {3, 1, 4, 2}, bc[4] = {1, 2, 4, 1}; o.l4(2); o.l4(2); o.l4(v == 1 ? 2 : 1); o.b(ch[v]); o.b(bc[v]); o.seq(4 * (v == 1 ? 2 : 1) * ch[v] * bc[v], 3, 11); return o.n; } // 0 rgb 1 grey 16 volume 2 rgba 32 3 grey and alpha
  case IL_DOOM: { o.l2(3); o.l2(3); o.l2(0); o.l2(0); o.l4(20); o.l4(29); o.l4(40); o.b(0); o.b(3); o.b(0); o.seq(3, 5, 60); o.b(0); o.b(255); o.b(7); o.b(1); o.b(1); o.b(0); o.b(9); o.b(0); o.b(2); o.b(1); o.b(0); o.b(247); o.b(0); o.b(255); o.b(255); return o.n; }
  case IL_DOOM_FLAT: { for (int i = 0; i < 4096; i++) o.b(i * 7); return o.n; }
  case IL_MDL: { o.l4(0x54534449); o.l4(10); o.z(172); o.l4(2); o.l4(192); o.l4(352); for (int i = 0; i < 2; i++) { o.s("tex"); o.z(61); o.l4(0); o.l4(i ? 1 : 3); o.l4(2); o.l4(i ? 352 + 774 : 352); } for (int i = 0; i < 2; i++) { o.seq(i ? 2 : 6, 1 + i, 50); o.seq(768, 3 + i, 7); } return o.n; }
  case IL_TEXTURE: { int n = tmpl(IL_DDS, v); memmove(vbuf + 48, vbuf, n); memset(vbuf, 0x11, 48); return n + 48; }
  }
  return o.n;
}
