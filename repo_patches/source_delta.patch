From ecec7f48a4aac54571365dfd75b88b4d2b961fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 01/79] fix: take the start position of a lump save after the
 lump is installed (TGA, TIFF)

---
 DevIL/src-IL/src/il_targa.cpp | 3 ++-
 DevIL/src-IL/src/il_tiff.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 8cb0e06..46202db 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -580,8 +580,9 @@ ILuint ilSaveTargaF(ILHANDLE File)
 //! Writes a Targa to a memory "lump"
 ILuint ilSaveTargaL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTargaInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 4d9d117..d4253ba 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -914,8 +914,9 @@ ILuint ilSaveTiffF(ILHANDLE File)
 //! Writes a Tiff to a memory "lump"
 ILuint ilSaveTiffL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTiffInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
-- 
2.43.0


From d9331f542de757512348624d116affae2c74b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 02/79] fix: RLE same-value packet no longer drops a byte of
 the line, BMP markers go to the output

---
 DevIL/src-IL/src/il_rle.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_rle.cpp b/DevIL/src-IL/src/il_rle.cpp
index c572631..0a71aff 100644
--- a/DevIL/src-IL/src/il_rle.cpp
+++ b/DevIL/src-IL/src/il_rle.cpp
@@ -101,7 +101,6 @@ ILboolean ilRleCompressLine(ILubyte *p, ILuint n, ILubyte bpp,
 			n -= SameCount;
 			RLEBufSize += bpp + 1;
 			p += (SameCount - 1) * bpp;
-			*q++ = *p++;
 			switch(bpp) {
 				case 4:	*q++ = *p++;
 				case 3: *q++ = *p++;
@@ -145,8 +144,8 @@ ILuint ilRleCompress(ILubyte *Data, ILuint Width, ILuint Height, ILuint Depth, I
 	}
 	
 	if( CompressMode == IL_BMPCOMP ) { // add end of image
-		*(Data+DestW) = 0x00; DestW++;
-		*(Data+DestW) = 0x01; DestW++;
+		*(Dest+DestW) = 0x00; DestW++;
+		*(Dest+DestW) = 0x01; DestW++;
 	}
 
 	return DestW;
-- 
2.43.0


From 997f47502d5e5985268fd8c26189cda3b22826f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 03/79] fix: TGA saver no longer marks flipped (lower left)
 data as upper left

---
 DevIL/src-IL/src/il_targa.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 46202db..27a0f69 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -742,8 +742,7 @@ ILboolean iSaveTargaInternal()
 	Temp = 0;
 	if (iCurImage->Bpp > 3)
 		Temp = 8;
-	if (TempImage->Origin == IL_ORIGIN_UPPER_LEFT)
-		Temp |= 0x20; //set 5th bit
+	// Bits 5-4 stay clear (lower left), since TempData has been flipped to that origin above.
 	iwrite(&Temp, sizeof(ILubyte), 1);
 	iwrite(ID, sizeof(char), IDLen);
 	ifree(ID);
-- 
2.43.0


From 7a75b3bf0feb30cc1436e42d47a3a2adb202ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 04/79] fix: PSD loader starts alpha at solid for uncompressed
 data, swaps 16-bit alpha, rounds

---
 DevIL/src-IL/src/il_psd.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index bd3e953..0bf82de 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -31,11 +31,11 @@ static float ushort_to_float(ILushort val)
 
 static ILubyte float_to_ubyte(float val)
 {
-	return (ILubyte)(val * 255.0f);
+	return (ILubyte)(val * 255.0f + 0.5f);
 }
 static ILushort float_to_ushort(float val)
 {
-	return (ILushort)(val * 65535.0f);
+	return (ILushort)(val * 65535.0f + 0.5f);
 }
 
 
@@ -671,6 +671,14 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 					}
 				}
 			}
+			// Initialize the alpha channel to solid
+			if (Head->Channels >= 4) {
+				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
+					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp) {
+						iCurImage->Data[y + x + 3] = 255;
+					}
+				}
+			}
 			// Accumulate any remaining channels into a single alpha channel
 			//@TODO: This needs to be changed for greyscale images.
 			for (; c < Head->Channels; c++) {
@@ -706,6 +714,12 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 				}
 				iCurImage->Bps *= 2;
 			}
+			// Initialize the alpha channel to solid
+			if (Head->Channels >= 4) {
+				for (i = 3; i < iCurImage->SizeOfData / 2; i += iCurImage->Bpp) {
+					((ILushort*)iCurImage->Data)[i] = 65535;
+				}
+			}
 			// Accumulate any remaining channels into a single alpha channel
 			//@TODO: This needs to be changed for greyscale images.
 			for (; c < Head->Channels; c++) {
@@ -717,6 +731,9 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 				iCurImage->Bps /= 2;
 				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
 					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
+					 #ifndef WORDS_BIGENDIAN
+						iSwapUShort(ShortPtr+i);
+					 #endif
 						float curVal = ushort_to_float(((ILushort*)iCurImage->Data)[y + x + 3]);
 						float newVal = ushort_to_float(ShortPtr[i]);
 						((ILushort*)iCurImage->Data)[y + x + 3] = float_to_ushort(curVal * newVal);
-- 
2.43.0


From 07a6001efbd190e59e47bbfccc012f47711b272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 05/79] fix: SGI 16-bit images keep their shape; RLE save
 counts all the data written

---
 DevIL/src-IL/src/il_sgi.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 3f07f65..85a688b 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -391,8 +391,8 @@ ILboolean iReadNonRleSgi(iSgiHeader *Head)
 	}
 
 	for (c = 0; c < iCurImage->Bpp; c++) {
-		for (i = c; i < iCurImage->SizeOfData; i += iCurImage->Bpp) {
-			if (iread(iCurImage->Data + i, 1, 1) != 1) {
+		for (i = c * iCurImage->Bpc; i < iCurImage->SizeOfData; i += iCurImage->Bpp * iCurImage->Bpc) {
+			if (iread(iCurImage->Data + i, iCurImage->Bpc, 1) != 1) {
 				if (Cache)
 					iUnCache();
 				return IL_FALSE;
@@ -403,6 +403,11 @@ ILboolean iReadNonRleSgi(iSgiHeader *Head)
 	if (Cache)
 		iUnCache();
 
+	#ifdef __LITTLE_ENDIAN__
+	if (iCurImage->Bpc == 2)
+		sgiSwitchData(iCurImage->Data, iCurImage->SizeOfData);
+	#endif
+
 	return IL_TRUE;
 }
 
@@ -442,7 +447,7 @@ void sgiSwitchData(ILubyte *Data, ILuint SizeOfData)
 // Just an internal convenience function for reading SGI files
 ILboolean iNewSgi(iSgiHeader *Head)
 {
-	if (!ilTexImage(Head->XSize, Head->YSize, Head->Bpc, (ILubyte)Head->ZSize, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Head->XSize, Head->YSize, 1, (ILubyte)Head->ZSize, 0, Head->Bpc == 2 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
@@ -674,8 +679,11 @@ ILboolean iSaveSgiInternal()
 
 	if (!Compress) {
 		for (c = 0; c < Temp->Bpp; c++) {
-			for (i = c; i < Temp->SizeOfData; i += Temp->Bpp) {
-				iputc(TempData[i]);  // Have to save each colour plane separately.
+			for (i = c * Temp->Bpc; i < Temp->SizeOfData; i += Temp->Bpp * Temp->Bpc) {
+				if (Temp->Bpc == 2)
+					SaveBigUShort(*(ILushort*)(TempData + i));
+				else
+					iputc(TempData[i]);  // Have to save each colour plane separately.
 			}
 		}
 	}
@@ -749,6 +757,9 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 	iwrite(StartTable, sizeof(ILuint), h * numChannels);
 	iwrite(LenTable, sizeof(ILuint), h * numChannels);
 
+	// Go back to the end of the file, so that the data counts as written.
+	iseekw(DataOff, IL_SEEK_SET);
+
 	ifree(ScanLine);
 	ifree(CompLine);
 	ifree(StartTable);
-- 
2.43.0


From 7129ecccef62250e31fe4d8fe37f77e9418c2ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 06/79] fix: lump writes return the number of items; VTF saver
 writes the oriented data

---
 DevIL/src-IL/src/il_files.cpp | 4 ++--
 DevIL/src-IL/src/il_vtf.cpp   | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 54726c3..ce41c6f 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -706,7 +706,7 @@ ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 			if (WriteLumpPos + i >= WriteLumpSize) {  // Should we use > instead?
 				ilSetError(IL_FILE_WRITE_ERROR);
 				WriteLumpPos += i;
-				return i;
+				return i / Size;
 			}
 		}
 
@@ -715,7 +715,7 @@ ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 
 	WriteLumpPos += SizeBytes;
 	
-	return SizeBytes;
+	return Number;
 }
 
 
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index af7c0ba..7e824f2 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -905,8 +905,13 @@ ILboolean iSaveVtfInternal()
 
 	if (Compression == IL_DXT_NO_COMP) {
 		// We just write the image data directly.
-		if (iwrite(TempImage->Data, TempImage->SizeOfData, 1) != 1)
+		if (iwrite(TempData, TempImage->SizeOfData, 1) != 1) {
+			if (TempData != TempImage->Data)
+				ifree(TempData);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
+		}
 	}
 	else {  // Do DXT compression here and write.
 		// We have to find out how much we are writing first.
-- 
2.43.0


From 788060d1cab117ee87751e7960d8e729b8505a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 07/79] fix: PSD saver frees the converted palette

---
 DevIL/src-IL/src/il_psd.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index 0bf82de..198d255 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -1049,6 +1049,7 @@ ILboolean iSavePsdInternal()
 		}
 
 		ifree(TempPal->Palette);
+		ifree(TempPal);
 	}
 	else {
 		SaveBigInt(0);  // No colour mode data.
-- 
2.43.0


From bc253bd532fb364958bbcd2a1049d3c165b82edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 08/79] fix: size query for TGA counts what the saver writes
 (extension area, RLE, palettes); VTF can be queried

---
 DevIL/src-IL/src/il_size.cpp  | 10 +++++---
 DevIL/src-IL/src/il_targa.cpp | 46 -----------------------------------
 2 files changed, 7 insertions(+), 49 deletions(-)

diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 3cc8857..103a0ec 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -13,7 +13,6 @@
 #include "il_internal.h"
 
 
-ILuint iTargaSize(void);
 
 
 ILuint CurPos;  // Fake "file" pointer.
@@ -158,8 +157,7 @@ ILuint ilDetermineSize(ILenum Type)
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			//ilSaveTargaL(NULL, 0);
-			return iTargaSize();
+			ilSaveTargaL(NULL, 0);
 			break;
 		#endif//IL_NO_TGA
 
@@ -169,6 +167,12 @@ ILuint ilDetermineSize(ILenum Type)
 			break;
 		#endif//IL_NO_TIF
 
+		#ifndef IL_NO_VTF
+		case IL_VTF:
+			ilSaveVtfL(NULL, 0);
+			break;
+		#endif//IL_NO_VTF
+
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
 			ilSaveWbmpL(NULL, 0);
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 27a0f69..f9a25e4 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -838,52 +838,6 @@ ILboolean iSaveTargaInternal()
 }
 
 
-// Only to be called by ilDetermineSize.  Returns the buffer size needed to save the
-//  current image as a Targa file.
-ILuint iTargaSize(void)
-{
-	ILuint	Size, Bpp;
-	ILubyte	IDLen = 0;
-	const char	*ID = iGetString(IL_TGA_ID_STRING);
-	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
-	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
-
-	//@TODO: Support color indexed images.
-	if (iGetInt(IL_TGA_RLE) == IL_TRUE || iCurImage->Format == IL_COLOUR_INDEX) {
-		// Use the slower method, since we are using compression.  We do a "fake" write.
-		ilSaveTargaL(NULL, 0);
-	}
-
-	if (ID)
-		IDLen = (ILubyte)ilCharStrLen(ID);
-
-	Size = 18 + IDLen;  // Header + ID
-
-	// Bpp may not be iCurImage->Bpp.
-	switch (iCurImage->Format)
-	{
-		case IL_BGR:
-		case IL_RGB:
-			Bpp = 3;
-			break;
-		case IL_BGRA:
-		case IL_RGBA:
-			Bpp = 4;
-			break;
-		case IL_LUMINANCE:
-			Bpp = 1;
-			break;
-		default:  //@TODO: Do not know what to do with the others yet.
-			return 0;
-	}
-
-	Size += iCurImage->Width * iCurImage->Height * Bpp;
-	Size += 532;  // Size of the extension area
-
-	return Size;
-}
-
-
 /*// Makes a neat string to go into the id field of the .tga
 void iMakeString(char *Str)
 {
-- 
2.43.0


From 454304987d078eff30c97a71d1ea5ea973875ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 09/79] fix: alpha and grey conversions: buffer sizes, BGR
 weights, white 32-bit samples

---
 DevIL/src-IL/src/il_convbuff.cpp | 60 ++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 3ed07a2..4141a54 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -32,6 +32,12 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat);
 							return IL_FALSE; \
 						}
 
+// The weighted sum can round to more than the largest value.
+static ILuint iLumToUint(ILdouble Lum)
+{
+	return Lum >= UINT_MAX ? UINT_MAX : (ILuint)Lum;
+}
+
 ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILenum DestFormat, ILenum SrcType, ILenum DestType, ILpal *SrcPal, void *Buffer)
 {
 	//static const	ILfloat LumFactor[3] = { 0.299f, 0.587f, 0.114f };  // Used for conversion to luminance
@@ -324,7 +330,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultf);
 							}
 							break;
 						case IL_FLOAT:
@@ -384,7 +390,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = iLumToUint(Resultf);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -414,7 +420,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest);
+					memset(NewData, 0, NumPix * BpcDest / 3);
 					break;
 
 				default:
@@ -628,7 +634,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -688,7 +694,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -969,7 +975,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -1004,7 +1010,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[2-c];
 								}
 								NewData[i*2] = (ILubyte)Resultf;
 								NewData[i*2+1] = UCHAR_MAX;
@@ -1016,7 +1022,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[2-c];
 								}
 								((ILushort*)(NewData))[i*2] = (ILushort)Resultf;
 								((ILushort*)(NewData))[i*2+1] = USHRT_MAX;
@@ -1027,9 +1033,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[2-c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = iLumToUint(Resultf);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -1037,7 +1043,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[2-c];
 								}
 								((ILfloat*)(NewData))[i*2] = Resultf;
 								((ILfloat*)(NewData))[i*2+1] = 1.0f;
@@ -1047,7 +1053,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[2-c];
 								}
 								((ILdouble*)(NewData))[i*2] = Resultd;
 								((ILdouble*)(NewData))[i*2+1] = 1.0;
@@ -1273,7 +1279,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -1308,7 +1314,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[2-c];
 								}
 								NewData[i] = (ILubyte)Resultf;
 								NewData[i+1] = ((ILubyte*)(Data))[i * 2 + 3];
@@ -1320,7 +1326,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[2-c];
 								}
 								((ILushort*)(NewData))[i] = (ILushort)Resultf;
 								((ILushort*)(NewData))[i+1] = ((ILushort*)(Data))[i * 2 + 3];
@@ -1331,9 +1337,9 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[2-c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = iLumToUint(Resultd);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -1341,7 +1347,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[2-c];
 								}
 								((ILfloat*)(NewData))[i] = (ILfloat)Resultd;
 								((ILfloat*)(NewData))[i+1] = ((ILfloat*)(Data))[i * 2 + 3];
@@ -1351,7 +1357,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[2-c];
 								}
 								((ILdouble*)(NewData))[i] = Resultd;
 								((ILdouble*)(NewData))[i+1] = ((ILdouble*)(Data))[i * 2 + 3];
@@ -1744,30 +1750,30 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_BYTE:
 						case IL_BYTE:
 							for (i = 0; i < Size; i++) {
-								NewData[i] = ((ILubyte*)(Data))[i * 2 + 3];
+								NewData[i] = ((ILubyte*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
 						case IL_SHORT:
 						case IL_HALF:
 							for (i = 0; i < Size; i++) {
-								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 3];
+								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 3];
+								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_FLOAT:
 							for (i = 0; i < Size; i++) {
-								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 3];
+								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_DOUBLE:
 							for (i = 0; i < Size; i++) {
-								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 3];
+								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 1];
 							}
 							break;
 					}
@@ -2123,7 +2129,7 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					for (i = 0; i < Size; i++) {
 						#if CLAMP_FLOATS
 							tempFloat = IL_CLAMP(((ILfloat*)Buffer)[i]);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+							IntPtr[i] = (ILuint)((ILdouble)tempFloat * UINT_MAX);
 						#else
 							IntPtr[i] = (ILuint)( ((ILfloat*)Buffer)[i] * UINT_MAX);
 						#endif
@@ -2134,10 +2140,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 						#if CLAMP_FLOATS
 							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
 							tempFloat = IL_CLAMP(tempFloat);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+							IntPtr[i] = (ILuint)((ILdouble)tempFloat * UINT_MAX);
 						#else
 						*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-						IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+						IntPtr[i] = (ILuint)((ILdouble)tempFloat * UINT_MAX);
 						#endif
 					}
 					break;
-- 
2.43.0


From 83e98242f85a8d7fc9648ade96349ba6d5b0fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 10/79] fix: converting indexed images: 32-bit and BGR
 palettes, alpha, depth, indices past the palette

---
 DevIL/src-IL/src/il_convert.cpp | 155 +++++++-------------------------
 1 file changed, 33 insertions(+), 122 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index ef7aa63..19b798d 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -19,11 +19,11 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 {
 	static const ILfloat LumFactor[3] = { 0.212671f, 0.715160f, 0.072169f };  // http://www.inforamp.net/~poynton/ and libpng's libpng.txt - Used for conversion to luminance.
 	ILimage		*NewImage = NULL, *CurImage = NULL;
-	ILuint		i, j, k, c, Size, LumBpp = 1;
+	ILuint		i, j, k, c, Size, NumCols, LumBpp = 1;
 	ILfloat		Resultf;
 	ILubyte		*Temp = NULL;
 	ILboolean	Converted;
-	ILboolean	HasAlpha;
+	ILboolean	HasAlpha, IsBgr;
 
 	NewImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 	if (NewImage == NULL) {
@@ -38,140 +38,50 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		return NULL;
 	}
 
-	if (DestFormat == IL_LUMINANCE || DestFormat == IL_LUMINANCE_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
+	NumCols = Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType);
+
+	if (DestFormat == IL_LUMINANCE || DestFormat == IL_LUMINANCE_ALPHA || DestFormat == IL_ALPHA) {
 		if (DestFormat == IL_LUMINANCE_ALPHA)
 			LumBpp = 2;
+		HasAlpha = (Image->Pal.PalType == IL_PAL_RGBA32 || Image->Pal.PalType == IL_PAL_BGRA32);
+		IsBgr = (Image->Pal.PalType == IL_PAL_BGR24 || Image->Pal.PalType == IL_PAL_BGR32 || Image->Pal.PalType == IL_PAL_BGRA32);
 
-		switch (iCurImage->Pal.PalType)
-		{
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_RGBA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
-					Resultf = 0.0f;
-					for (c = 0; c < Size; c++) {
-						Resultf += Image->Pal.Palette[i + c] * LumFactor[c];
-					}
-					Temp[k] = (ILubyte)Resultf;
-					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
-							Temp[k+1] = Image->Pal.Palette[i + 3];
-						else
-							Temp[k+1] = 0xff;
-					}
-				}
-
-				break;
-
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-			case IL_PAL_BGRA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
-					Resultf = 0.0f;  j = 2;
-					for (c = 0; c < Size; c++, j--) {
-						Resultf += Image->Pal.Palette[i + c] * LumFactor[j];
-					}
-					Temp[k] = (ILubyte)Resultf;
-					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
-							Temp[k+1] = Image->Pal.Palette[i + 3];
-						else
-							Temp[k+1] = 0xff;
-					}
-				}
-
-				break;
-		}
-
-		NewImage->Pal.Palette = NULL;
-		NewImage->Pal.PalSize = 0;
-		NewImage->Pal.PalType = IL_PAL_NONE;
-		NewImage->Format = DestFormat;
-		NewImage->Bpp = LumBpp;
-		NewImage->Bps = NewImage->Width * LumBpp;
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
-		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
-		if (NewImage->Data == NULL)
+		// What every palette entry is converted to
+		Temp = (ILubyte*)ialloc(LumBpp * NumCols);
+		if (Temp == NULL)
 			goto alloc_error;
 
-		if (LumBpp == 2) {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
-			}
-		}
-		else {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i] = Temp[Image->Data[i]];
-			}
-		}
-
-		ifree(Temp);
-
-		return NewImage;
-	}
-	else if (DestFormat == IL_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
-
-		switch (iCurImage->Pal.PalType)
-		{
-			// Opaque, so all the values are 0xFF.
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-				HasAlpha = IL_FALSE;
-				break;
-
-			case IL_PAL_BGRA32:
-			case IL_PAL_RGBA32:
-				HasAlpha = IL_TRUE;
-				Temp = (ILubyte*)ialloc(1 * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += 1) {
-					Temp[k] = Image->Pal.Palette[i + 3];
+		Size = ilGetBppPal(Image->Pal.PalType);
+		for (i = 0, j = 0, k = 0; i < NumCols; i++, j += Size, k += LumBpp) {
+			if (DestFormat != IL_ALPHA) {
+				Resultf = 0.0f;
+				for (c = 0; c < 3; c++) {
+					Resultf += Image->Pal.Palette[j + c] * LumFactor[IsBgr ? 2 - c : c];
 				}
-
-				break;
+				Temp[k] = (ILubyte)Resultf;
+			}
+			if (DestFormat != IL_LUMINANCE)  // Alpha is the last byte; opaque if the palette has none.
+				Temp[k + LumBpp - 1] = HasAlpha ? Image->Pal.Palette[j + 3] : 0xff;
 		}
 
+		ifree(NewImage->Pal.Palette);
 		NewImage->Pal.Palette = NULL;
 		NewImage->Pal.PalSize = 0;
 		NewImage->Pal.PalType = IL_PAL_NONE;
 		NewImage->Format = DestFormat;
 		NewImage->Bpp = LumBpp;
-		NewImage->Bps = NewImage->Width * 1;  // Alpha is only one byte.
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->Bps = NewImage->Width * LumBpp;
+		NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
+		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
 		if (NewImage->Data == NULL)
 			goto alloc_error;
 
-		if (HasAlpha) {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
-			}
-		}
-		else {  // No alpha, opaque.
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i] = 0xFF;
-			}
+		for (i = 0; i < Image->SizeOfData; i++) {
+			// Indices past the end of the palette use the first entry.
+			k = Image->Data[i] < NumCols ? Image->Data[i] : 0;
+			for (c = 0; c < LumBpp; c++)
+				NewImage->Data[i * LumBpp + c] = Temp[k * LumBpp + c];
 		}
 
 		ifree(Temp);
@@ -242,8 +152,10 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 
 	Size = ilGetBppPal(NewImage->Pal.PalType);
 	for (i = 0; i < Image->SizeOfData; i++) {
+		// Indices past the end of the palette use the first entry.
+		k = Image->Data[i] < NumCols ? Image->Data[i] : 0;
 		for (c = 0; c < NewImage->Bpp; c++) {
-			NewImage->Data[i * NewImage->Bpp + c] = NewImage->Pal.Palette[Image->Data[i] * Size + c];
+			NewImage->Data[i * NewImage->Bpp + c] = NewImage->Pal.Palette[k * Size + c];
 		}
 	}
 
@@ -302,13 +214,12 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 
 		NewData = (ILubyte*)ilConvertBuffer(NewImage->SizeOfData, NewImage->Format, DestFormat, NewImage->Type, DestType, NULL, NewImage->Data);
 		if (NewData == NULL) {
-			ifree(NewImage);  // ilCloseImage not needed.
+			ilCloseImage(NewImage);
 			return NULL;
 		}
 		ifree(NewImage->Data);
 		NewImage->Data = NewData;
 
-		ilCopyImageAttr(NewImage, Image);
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
-- 
2.43.0


From e31d0af107058c3525a15c8a4e066ba8fcf84542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 11/79] fix: conversion between signed and unsigned samples of
 one size

---
 DevIL/src-IL/src/il_convbuff.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 4141a54..1cf32f7 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -2008,6 +2008,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 			BytePtr = (ILubyte*)NewData;
 			switch (SrcType)
 			{
+				case IL_UNSIGNED_BYTE:
+				case IL_BYTE:
+					memcpy(NewData, Buffer, SizeOfData);  // Signed and unsigned share their bit pattern.
+					break;
 				case IL_UNSIGNED_SHORT:
 				case IL_SHORT:
 					for (i = 0; i < Size; i++) {
@@ -2060,6 +2064,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 			ShortPtr = (ILushort*)NewData;
 			switch (SrcType)
 			{
+				case IL_UNSIGNED_SHORT:
+				case IL_SHORT:
+					memcpy(NewData, Buffer, SizeOfData);  // Signed and unsigned share their bit pattern.
+					break;
 				case IL_UNSIGNED_BYTE:
 				case IL_BYTE:
 					for (i = 0; i < Size; i++) {
@@ -2112,6 +2120,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 			IntPtr = (ILuint*)NewData;
 			switch (SrcType)
 			{
+				case IL_UNSIGNED_INT:
+				case IL_INT:
+					memcpy(NewData, Buffer, SizeOfData);  // Signed and unsigned share their bit pattern.
+					break;
 				case IL_UNSIGNED_BYTE:
 				case IL_BYTE:
 					for (i = 0; i < Size; i++) {
-- 
2.43.0


From 4304c1dda3ffb0e3b6b858da4d7469b01e08034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 12/79] fix: clipping of pixel blocks, planes and origins in
 ilCopyPixels/ilSetPixels, indexed sources

---
 DevIL/src-IL/src/il_convbuff.cpp | 11 +++-
 DevIL/src-IL/src/il_manip.cpp    | 90 ++++++++++++++++----------------
 2 files changed, 54 insertions(+), 47 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 1cf32f7..fe287fe 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -53,7 +53,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 	void		*Data = NULL;
 	ILimage		*PalImage = NULL, *TempImage = NULL;
 
-	if (SizeOfData == 0 || Buffer == NULL) {
+	if (SizeOfData == 0 || Buffer == NULL || (SrcFormat == IL_COLOUR_INDEX && DestFormat != IL_COLOUR_INDEX && SrcPal == NULL)) {
 		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
@@ -103,6 +103,8 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 			PalImage->Pal.Palette = NULL;
 			PalImage->Data = NULL;
 			ilCloseImage(PalImage);
+			if (Data != Buffer)
+				ifree(Data);
 			return NULL;
 		}
 
@@ -117,6 +119,13 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		// Clean up here.
 		ilCloseImage(PalImage);
 		ilCloseImage(TempImage);
+		if (Data != Buffer)
+			ifree(Data);
+		if (DestType != IL_UNSIGNED_BYTE) {  // The palette has byte colours.
+			Data = iSwitchTypes(NumPix * ilGetBppFormat(DestFormat), IL_UNSIGNED_BYTE, DestType, NewData);
+			ifree(NewData);
+			NewData = (ILubyte*)Data;
+		}
 		return NewData;
 	}
 	
diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 79acc99..f2b241e 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -393,7 +393,10 @@ ILboolean ilCopyPixels1D(ILuint XOff, ILuint Width, void *Data)
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width) {
+	if (XOff >= iCurImage->Width) {
+		NewBps = 0;
+	}
+	else if (iCurImage->Width - XOff < Width) {
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	}
 	else {
@@ -430,12 +433,16 @@ ILboolean ilCopyPixels2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height,
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width)
+	if (XOff >= iCurImage->Width)
+		NewBps = 0;
+	else if (iCurImage->Width - XOff < Width)
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	else
 		NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
+	if (YOff >= iCurImage->Height)
+		NewHeight = 0;
+	else if (iCurImage->Height - YOff < Height)
 		NewHeight = iCurImage->Height - YOff;
 	else
 		NewHeight = Height;
@@ -475,23 +482,29 @@ ILboolean ilCopyPixels3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, IL
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width)
+	if (XOff >= iCurImage->Width)
+		NewBps = 0;
+	else if (iCurImage->Width - XOff < Width)
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	else
 		NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
+	if (YOff >= iCurImage->Height)
+		NewH = 0;
+	else if (iCurImage->Height - YOff < Height)
 		NewH = iCurImage->Height - YOff;
 	else
 		NewH = Height;
 
-	if (iCurImage->Depth < ZOff + Depth)
+	if (ZOff >= iCurImage->Depth)
+		NewD = 0;
+	else if (iCurImage->Depth - ZOff < Depth)
 		NewD = iCurImage->Depth - ZOff;
 	else
 		NewD = Depth;
 
 	DataBps = Width * PixBpp;
-	NewSizePlane = NewBps * NewH;
+	NewSizePlane = DataBps * Height;
 
 	NewXOff = XOff * PixBpp;
 
@@ -538,18 +551,18 @@ ILuint ILAPIENTRY ilCopyPixels(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Wid
 		TempBuff = (ILubyte*)Data;
 	}
 	else {
-		TempBuff = (ILubyte*)ialloc(SrcSize);
+		TempBuff = (ILubyte*)icalloc(1, SrcSize);  // Parts outside of the image stay zero.
 		if (TempBuff == NULL) {
 			return 0;
 		}
 	}
 
-	if (YOff + Height <= 1) {
+	if (YOff == 0 && Height == 1 && ZOff == 0 && Depth == 1) {
 		if (!ilCopyPixels1D(XOff, Width, TempBuff)) {
 			goto failed;
 		}
 	}
-	else if (ZOff + Depth <= 1) {
+	else if (ZOff == 0 && Depth == 1) {
 		if (!ilCopyPixels2D(XOff, YOff, Width, Height, TempBuff)) {
 			goto failed;
 		}
@@ -584,6 +597,16 @@ failed:
 }
 
 
+// How many of the Length elements of a block, the first Skip of which lie before the image, fall inside of it.
+static ILint iClipSpan(ILint Off, ILuint Skip, ILuint Length, ILuint Limit)
+{
+	if (Skip >= Length || (ILuint)Off >= Limit)
+		return 0;
+	Length -= Skip;
+	return (ILint)(Length < Limit - (ILuint)Off ? Length : Limit - (ILuint)Off);
+}
+
+
 ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 {
 	ILuint	c, SkipX = 0, PixBpp;
@@ -605,14 +628,7 @@ ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 		XOff = 0;
 	}
 
-	if (iCurImage->Width < XOff + Width) {
-		NewWidth = iCurImage->Width - XOff;
-	}
-	else {
-		NewWidth = Width;
-	}
-
-	NewWidth -= SkipX;
+	NewWidth = iClipSpan(XOff, SkipX, Width, iCurImage->Width);
 
 	for (x = 0; x < NewWidth; x++) {
 		for (c = 0; c < PixBpp; c++) {
@@ -621,6 +637,7 @@ ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 	}
 
 	if (TempData != iCurImage->Data) {
+		iFlipBuffer(TempData, iCurImage->Depth, iCurImage->Bps, iCurImage->Height);  // Keep the image's own origin.
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
 	}
@@ -654,19 +671,10 @@ ILboolean ilSetPixels2D(ILint XOff, ILint YOff, ILuint Width, ILuint Height, voi
 		YOff = 0;
 	}
 
-	if (iCurImage->Width < XOff + Width)
-		NewWidth = iCurImage->Width - XOff;
-	else
-		NewWidth = Width;
+	NewWidth = iClipSpan(XOff, SkipX, Width, iCurImage->Width);
 	NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
-		NewHeight = iCurImage->Height - YOff;
-	else
-		NewHeight = Height;
-
-	NewWidth -= SkipX;
-	NewHeight -= SkipY;
+	NewHeight = iClipSpan(YOff, SkipY, Height, iCurImage->Height);
 
 	for (y = 0; y < NewHeight; y++) {
 		for (x = 0; x < NewWidth; x++) {
@@ -678,6 +686,7 @@ ILboolean ilSetPixels2D(ILint XOff, ILint YOff, ILuint Width, ILuint Height, voi
 	}
 
 	if (TempData != iCurImage->Data) {
+		iFlipBuffer(TempData, iCurImage->Depth, iCurImage->Bps, iCurImage->Height);  // Keep the image's own origin.
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
 	}
@@ -715,26 +724,14 @@ ILboolean ilSetPixels3D(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint
 		ZOff = 0;
 	}
 
-	if (iCurImage->Width < XOff + Width)
-		NewW = iCurImage->Width - XOff;
-	else
-		NewW = Width;
+	NewW = iClipSpan(XOff, SkipX, Width, iCurImage->Width);
 	NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
-		NewH = iCurImage->Height - YOff;
-	else
-		NewH = Height;
+	NewH = iClipSpan(YOff, SkipY, Height, iCurImage->Height);
 
-	if (iCurImage->Depth < ZOff + Depth)
-		NewD = iCurImage->Depth - ZOff;
-	else
-		NewD = Depth;
+	NewD = iClipSpan(ZOff, SkipZ, Depth, iCurImage->Depth);
 	NewSizePlane = NewBps * Height;
 
-	NewW -= SkipX;
-	NewH -= SkipY;
-	NewD -= SkipZ;
 
 	for (z = 0; z < NewD; z++) {
 		for (y = 0; y < NewH; y++) {
@@ -748,6 +745,7 @@ ILboolean ilSetPixels3D(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint
 	}
 
 	if (TempData != iCurImage->Data) {
+		iFlipBuffer(TempData, iCurImage->Depth, iCurImage->Bps, iCurImage->Height);  // Keep the image's own origin.
 		ifree(iCurImage->Data);
 		iCurImage->Data = TempData;
 	}
@@ -778,10 +776,10 @@ void ILAPIENTRY ilSetPixels(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, IL
 			return;
 	}
 
-	if (YOff + Height <= 1) {
+	if (YOff == 0 && Height == 1 && ZOff == 0 && Depth == 1) {
 		ilSetPixels1D(XOff, Width, Converted);
 	}
-	else if (ZOff + Depth <= 1) {
+	else if (ZOff == 0 && Depth == 1) {
 		ilSetPixels2D(XOff, YOff, Width, Height, Converted);
 	}
 	else {
-- 
2.43.0


From 8c6f80742186739ef520ab1cd8d587fb55171ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 13/79] fix: alpha channel of float images, types without
 alpha, 32-bit alpha; inverting alpha reaches every pixel

---
 DevIL/src-IL/src/il_manip.cpp   | 32 +++++++++++++++++++++++++++++++-
 DevIL/src-ILU/src/ilu_manip.cpp | 10 +++++-----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index f2b241e..75e3b2b 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -904,6 +904,17 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		case IL_LUMINANCE:
 		case IL_COLOUR_INDEX:  // @TODO: Make IL_COLOUR_INDEX separate.
 			memset(Alpha, 0xFF, Size / TempImage->Bpp * Bpc);
+			// The same image is opaque whatever the type.
+			if (Type == IL_FLOAT || Type == IL_DOUBLE || Type == IL_HALF) {
+				for (i = 0; i < Size / TempImage->Bpp; i++) {
+					if (Type == IL_FLOAT)
+						((ILfloat*)Alpha)[i] = 1.0f;
+					else if (Type == IL_DOUBLE)
+						((ILdouble*)Alpha)[i] = 1.0;
+					else
+						((ILushort*)Alpha)[i] = 0x3C00;
+				}
+			}
 			if (TempImage != iCurImage)
 				ilCloseImage(TempImage);
 			return Alpha;
@@ -912,6 +923,8 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 	// If our format is alpha, just return a copy.
 	if (TempImage->Format == IL_ALPHA) {
 		memcpy(Alpha, TempImage->Data, TempImage->SizeOfData);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		return Alpha;
 	}
 		
@@ -930,6 +943,7 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
+		case IL_HALF:
 			AlphaShort = (ILushort*)Alpha;
 			for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
 				AlphaShort[j] = ((ILushort*)TempImage->Data)[i];
@@ -990,6 +1004,7 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 			break;
 		case IL_ALPHA:
 			AlphaOff = 1;
+			break;
 		case IL_COLOUR_INDEX: //@TODO use palette with alpha
 			ret = ilConvertImage(IL_RGBA, Image->Type);
 			AlphaOff = 4;
@@ -1019,7 +1034,7 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 		}
 		case IL_INT:
 		case IL_UNSIGNED_INT: {
-			const ILushort alpha = (ILushort)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
+			const ILuint alpha = (ILuint)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
 			for (i = AlphaOff-1; i < Size; i += AlphaOff)
 				((ILuint*)Image->Data)[i] = alpha;
 			break;
@@ -1079,7 +1094,22 @@ void ILAPIENTRY ilModAlpha(ILdouble AlphaValue)
                 ret = ilConvertImage(IL_RGBA,iCurImage->Type);
                 AlphaOff = 4;
                 break;
+            case IL_RGBA:
+            case IL_BGRA:
+                ret = IL_TRUE;
+                AlphaOff = 4;
+                break;
+            case IL_LUMINANCE_ALPHA:
+                ret = IL_TRUE;
+                AlphaOff = 2;
+                break;
+            case IL_ALPHA:
+                ret = IL_TRUE;
+                AlphaOff = 1;
+                break;
     }    
+
+    AlphaValue = IL_CLAMP(AlphaValue);
     Size = iCurImage->Width * iCurImage->Height * iCurImage->Depth * iCurImage->Bpp;
     
     if (!ret)
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 856b8c1..630a8cf 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -296,33 +296,33 @@ ILboolean ILAPIENTRY iluInvertAlpha() {
 		case IL_BYTE:
 		case IL_UNSIGNED_BYTE:
 			Data += (Bpp - 1);
-			for( i = Bpp - 1; i < NumPix; i++, Data += Bpp )
+			for( i = 0; i < NumPix; i++, Data += Bpp )
 				*(Data) = ~*(Data);
 			break;
 
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
 			ShortPtr = ((ILushort*)Data) + Bpp-1;	
-			for (i = Bpp - 1; i < NumPix; i++, ShortPtr += Bpp)
+			for (i = 0; i < NumPix; i++, ShortPtr += Bpp)
 				*(ShortPtr) = ~*(ShortPtr);
 			break;
 
 		case IL_INT:
 		case IL_UNSIGNED_INT:
 			IntPtr = ((ILuint*)Data) + Bpp-1;
-			for (i = Bpp - 1; i < NumPix; i++, IntPtr += Bpp)
+			for (i = 0; i < NumPix; i++, IntPtr += Bpp)
 				*(IntPtr) = ~*(IntPtr);
 			break;
 
 		case IL_FLOAT:
 			FltPtr = ((ILfloat*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, FltPtr += Bpp)
+			for (i = 0; i < NumPix; i++, FltPtr += Bpp)
 				*(FltPtr) = 1.0f - *(FltPtr);
 			break;
 
 		case IL_DOUBLE:
 			DblPtr = ((ILdouble*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, DblPtr += Bpp)
+			for (i = 0; i < NumPix; i++, DblPtr += Bpp)
 				*(DblPtr) = 1.0f - *(DblPtr);
 			break;
 	}
-- 
2.43.0


From 5cb36dd507e6bebaad60909ba21c7e1868b4ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 14/79] fix: image sizes that do not fit and bad types are
 refused before the image is freed

---
 DevIL/src-IL/src/il_devil.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c9eeb5d..bce2f07 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -16,13 +16,24 @@
 #include <limits.h>
 
 
-ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
+// Checks that an image of this type and size can be represented.
+static ILboolean iValidImageSize(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Type)
 {
 	ILubyte BpcType = ilGetBpcType(Type);
-	if (BpcType == 0) {
+	if (BpcType == 0 || (ILdouble)IL_MAX(Width, 1) * IL_MAX(Height, 1) * IL_MAX(Depth, 1) * Bpp * BpcType > UINT_MAX) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
+	return IL_TRUE;
+}
+
+
+ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
+{
+	ILubyte BpcType = ilGetBpcType(Type);
+	if (!iValidImageSize(Width, Height, Depth, Bpp, Type)) {
+		return IL_FALSE;
+	}
 
 	memset(Image, 0, sizeof(ILimage));
 
@@ -47,6 +58,9 @@ ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Heig
 
 	Image->Data = (ILubyte*)ialloc(Image->SizeOfData);
 	if (Image->Data == NULL) {
+		// Leave an empty image.
+		Image->Width = Image->Height = Image->Depth = 0;
+		Image->Bps = Image->SizeOfPlane = Image->SizeOfData = 0;
 		return IL_FALSE;
 	}
 
@@ -74,9 +88,6 @@ ILAPI ILimage* ILAPIENTRY ilNewImage(ILuint Width, ILuint Height, ILuint Depth,
 	}
 
 	if (!ilInitImage(Image, Width, Height, Depth, Bpp, ilGetFormatBpp(Bpp), ilGetTypeBpc(Bpc), NULL)) {
-		if (Image->Data != NULL) {
-			ifree(Image->Data);
-		}
 		ifree(Image);
 		return NULL;
 	}
@@ -100,9 +111,6 @@ ILAPI ILimage* ILAPIENTRY ilNewImageFull(ILuint Width, ILuint Height, ILuint Dep
 	}
 
 	if (!ilInitImage(Image, Width, Height, Depth, Bpp, Format, Type, Data)) {
-		if (Image->Data != NULL) {
-			ifree(Image->Data);
-		}
 		ifree(Image);
 		return NULL;
 	}
@@ -136,6 +144,9 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
+	if (!iValidImageSize(Width, Height, Depth, Bpp, Type)) {
+		return IL_FALSE;
+	}
 
 	////
 
@@ -199,6 +210,9 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
+	if (!iValidImageSize(Width, Height, Depth, Bpp, Type)) {
+		return IL_FALSE;
+	}
 
 	////
 
-- 
2.43.0


From 55b6a537810461713856ef90a66d560b0e859413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 15/79] fix: clear colour of BGR, grey, 32-bit and indexed
 images

---
 DevIL/src-IL/src/il_devil.cpp | 63 +++++++++++++++++------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index bce2f07..2d96289 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -388,7 +388,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					BytePtr[2] = (ILubyte)(ClearRed * UCHAR_MAX);
 					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
 					BytePtr[0] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
 					
 				case IL_BGRA:
@@ -399,12 +398,13 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
+					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
 					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
 					BytePtr[1] = (ILubyte)(ClearAlpha * UCHAR_MAX);
+					break;
 					
 				case IL_COLOUR_INDEX:
 					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
@@ -438,7 +438,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					ShortPtr[2] = (ILushort)(ClearRed * USHRT_MAX);
 					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
 					ShortPtr[0] = (ILushort)(ClearBlue * USHRT_MAX);
-					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
 					
 				case IL_BGRA:
@@ -449,7 +448,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
+					ShortPtr[0] = (ILushort)(ClearLum * USHRT_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
@@ -473,43 +472,42 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 			switch (Format)
 			{
 				case IL_RGB:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
+					IntPtr[0] = (ILuint)(ClearRed * (ILdouble)UINT_MAX);
+					IntPtr[1] = (ILuint)(ClearGreen * (ILdouble)UINT_MAX);
+					IntPtr[2] = (ILuint)(ClearBlue * (ILdouble)UINT_MAX);
 					break;
 					
 				case IL_RGBA:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)(ClearRed * (ILdouble)UINT_MAX);
+					IntPtr[1] = (ILuint)(ClearGreen * (ILdouble)UINT_MAX);
+					IntPtr[2] = (ILuint)(ClearBlue * (ILdouble)UINT_MAX);
+					IntPtr[3] = (ILuint)(ClearAlpha * (ILdouble)UINT_MAX);
 					break;
 					
 				case IL_BGR:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[2] = (ILuint)(ClearRed * (ILdouble)UINT_MAX);
+					IntPtr[1] = (ILuint)(ClearGreen * (ILdouble)UINT_MAX);
+					IntPtr[0] = (ILuint)(ClearBlue * (ILdouble)UINT_MAX);
 					break;
 					
 				case IL_BGRA:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[2] = (ILuint)(ClearRed * (ILdouble)UINT_MAX);
+					IntPtr[1] = (ILuint)(ClearGreen * (ILdouble)UINT_MAX);
+					IntPtr[0] = (ILuint)(ClearBlue * (ILdouble)UINT_MAX);
+					IntPtr[3] = (ILuint)(ClearAlpha * (ILdouble)UINT_MAX);
 					break;
 					
 				case IL_LUMINANCE:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)(ClearLum * (ILdouble)UINT_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
-					IntPtr[0] = (ILuint)(ClearLum * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)(ClearLum * (ILdouble)UINT_MAX);
+					IntPtr[1] = (ILuint)(ClearAlpha * (ILdouble)UINT_MAX);
 					break;
 					
 				case IL_COLOUR_INDEX:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)(ClearAlpha * (ILdouble)UINT_MAX);
 					break;
 					
 				default:
@@ -539,7 +537,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					FloatPtr[2] = ClearRed;
 					FloatPtr[1] = ClearGreen;
 					FloatPtr[0] = ClearBlue;
-					FloatPtr[3] = ClearAlpha;
 					break;
 					
 				case IL_BGRA:
@@ -550,12 +547,12 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					FloatPtr[0] = ClearAlpha;
+					FloatPtr[0] = ClearLum;
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
 					FloatPtr[0] = ClearLum;
-					FloatPtr[0] = ClearAlpha;
+					FloatPtr[1] = ClearAlpha;
 					break;
 					
 				case IL_COLOUR_INDEX:
@@ -589,7 +586,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					DblPtr[2] = ClearRed;
 					DblPtr[1] = ClearGreen;
 					DblPtr[0] = ClearBlue;
-					DblPtr[3] = ClearAlpha;
 					break;
 					
 				case IL_BGRA:
@@ -600,7 +596,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					DblPtr[0] = ClearAlpha;
+					DblPtr[0] = ClearLum;
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
@@ -706,21 +702,24 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 	}
 	else {
 		imemclear(Image->Data, Image->SizeOfData);
+		ilGetClear(Colours, IL_RGBA, IL_UNSIGNED_BYTE);  // The one colour of the palette
 		
 		if (Image->Pal.Palette)
 			ifree(Image->Pal.Palette);
 		Image->Pal.Palette = (ILubyte*)ialloc(4);
 		if (Image->Pal.Palette == NULL) {
+			Image->Pal.PalType = IL_PAL_NONE;
+			Image->Pal.PalSize = 0;
 			return IL_FALSE;
 		}
 		
 		Image->Pal.PalType = IL_PAL_RGBA32;
 		Image->Pal.PalSize = 4;
 		
-		Image->Pal.Palette[0] = Colours[0] * UCHAR_MAX;
-		Image->Pal.Palette[1] = Colours[1] * UCHAR_MAX;
-		Image->Pal.Palette[2] = Colours[2] * UCHAR_MAX;
-		Image->Pal.Palette[3] = Colours[3] * UCHAR_MAX;
+		Image->Pal.Palette[0] = Colours[0];
+		Image->Pal.Palette[1] = Colours[1];
+		Image->Pal.Palette[2] = Colours[2];
+		Image->Pal.Palette[3] = Colours[3];
 	}
 	
 	return IL_TRUE;
-- 
2.43.0


From b4caa005f9a91df730e6d2b1f7cb980be535bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 16/79] fix: blits are clipped, take every sample type and
 restore the bound image

---
 DevIL/src-IL/src/il_devil.cpp | 183 ++++++++++++++++++----------------
 1 file changed, 97 insertions(+), 86 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 2d96289..32525b6 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -731,15 +731,43 @@ ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, I
 {
 	ILuint	Width, Height, Depth;
 	ILuint	Dest;
+	ILimage	*DestImage = iCurImage;
 	
+	if (DestImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+	if (Source != 0 && !ilIsImage(Source)) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	Dest = ilGetCurName();
 	ilBindImage(Source);
 	Width = iCurImage->Width;  Height = iCurImage->Height;  Depth = iCurImage->Depth;
 	ilBindImage(Dest);
+	iCurImage = DestImage;  // Could be a sub-image.
 
 	return ilBlit(Source, XCoord, YCoord, ZCoord, 0, 0, 0, Width, Height, Depth);
 }
 
+
+// Limits one dimension of a block to the part that is inside of both images, moving its start if needed.
+static void iClipBlit(ILint *DestPos, ILuint DestSize, ILuint *SrcPos, ILuint SrcSize, ILuint *Size)
+{
+	ILuint Skip = *DestPos < 0 ? 0 - (ILuint)*DestPos : 0;
+
+	if (*SrcPos >= SrcSize || Skip >= *Size || Skip >= SrcSize - *SrcPos || *DestPos >= (ILint)DestSize) {
+		*Size = 0;
+		return;
+	}
+	*DestPos += Skip;
+	*SrcPos  += Skip;
+	*Size    -= Skip;
+	*Size = IL_MIN(*Size, IL_MIN(SrcSize - *SrcPos, DestSize - *DestPos));
+}
+
+
 //@NEXT DestX,DestY,DestZ must be set to ILuint
 ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint DestZ, 
                                            ILuint SrcX,  ILuint SrcY,   ILuint SrcZ,
@@ -747,13 +775,11 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 {
 	ILuint 		x, y, z, ConvBps, ConvSizePlane;
 	ILimage 	*Dest,*Src;
-	ILubyte 	*Converted;
+	ILubyte 	*Converted, *Alpha = NULL;
 	ILuint		DestName = ilGetCurName();
-	ILuint		c;
-	ILuint		StartX, StartY, StartZ;
+	ILuint		c, PixBpp, NumCol;
 	ILboolean	DestFlipped = IL_FALSE;
 	ILubyte 	*SrcTemp;
-	ILfloat		Back;
 
 	// Check if the desiination image really exists
 	if (DestName == 0 || iCurImage == NULL) {
@@ -762,6 +788,12 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	}
 	Dest = iCurImage;
 	
+	// Check if the source image really exists
+	if (Source != 0 && !ilIsImage(Source)) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	// set the destination image to upper left origin
 	if (Dest->Origin == IL_ORIGIN_LOWER_LEFT) {  // Dest
 		DestFlipped = IL_TRUE;
@@ -769,123 +801,102 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	}
 	//DestOrigin = Dest->Origin;
 	ilBindImage(Source);
-	
-	// Check if the source image really exists
-	if (iCurImage == NULL) {
-		ilSetError(IL_INVALID_PARAM);
-		return IL_FALSE;
-	}
-	
 	Src = iCurImage;
 	
-	//@TODO test if coordinates are inside the images (hard limit for source)
-	
 	// set the source image to upper left origin
 	if (Src->Origin == IL_ORIGIN_LOWER_LEFT)
-	{
-		SrcTemp = iGetFlipped(iCurImage);
-		if (SrcTemp == NULL)
-		{
-			ilBindImage(DestName);
-			if (DestFlipped)
-				ilFlipImage();
-			return IL_FALSE;
-		}
-	}
+		SrcTemp = iGetFlipped(Src);
 	else
-	{
-		SrcTemp = iCurImage->Data;
-	}
+		SrcTemp = Src->Data;
 	
 	// convert source image to match the destination image type and format
-	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, SrcTemp);
-	if (Converted == NULL)
+	Converted = NULL;
+	if (SrcTemp != NULL)
+		Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, &Src->Pal, SrcTemp);
+
+	// In case of Alpha channel, the data is blended.
+	if (Converted != NULL && ilIsEnabled(IL_BLIT_BLEND) &&
+		(Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA)) {
+		Alpha = ilGetAlpha(IL_DOUBLE);
+		if (Alpha == NULL) {
+			ifree(Converted);
+			Converted = NULL;
+		}
+		else if (SrcTemp != Src->Data) {
+			iFlipBuffer(Alpha, Src->Depth, Src->Width * sizeof(ILdouble), Src->Height);
+		}
+	}
+
+	if (SrcTemp != Src->Data)
+		ifree(SrcTemp);
+
+	ilBindImage(DestName);
+	iCurImage = Dest;  // Could be a sub-image.
+
+	if (Converted == NULL) {
+		if (DestFlipped)
+			ilFlipImage();
 		return IL_FALSE;
+	}
 	
-	ConvBps 	  = Dest->Bpp * Src->Width;
-	ConvSizePlane = ConvBps   * Src->Height;
-	
-	//@NEXT in next version this would have to be removed since Dest* will be unsigned
-	StartX = DestX >= 0 ? 0 : -DestX;
-	StartY = DestY >= 0 ? 0 : -DestY;
-	StartZ = DestZ >= 0 ? 0 : -DestZ;
+	PixBpp        = Dest->Bpp * Dest->Bpc;
+	ConvBps 	  = PixBpp  * Src->Width;
+	ConvSizePlane = ConvBps * Src->Height;
+	// Keeps the original alpha when blending.
+	NumCol = Dest->Bpp;
+	if (Dest->Format == IL_RGBA || Dest->Format == IL_BGRA || Dest->Format == IL_LUMINANCE_ALPHA)
+		NumCol = Dest->Bpp - 1;
 	
-	// Limit the copy of data inside of the destination image
-	if (Width  + DestX > Dest->Width)  Width  = Dest->Width  - DestX;
-	if (Height + DestY > Dest->Height) Height = Dest->Height - DestY;
-	if (Depth  + DestZ > Dest->Depth)  Depth  = Dest->Depth  - DestZ;
+	// Limit the copy of data inside of both images
+	iClipBlit(&DestX, Dest->Width,  &SrcX, Src->Width,  &Width);
+	iClipBlit(&DestY, Dest->Height, &SrcY, Src->Height, &Height);
+	iClipBlit(&DestZ, Dest->Depth,  &SrcZ, Src->Depth,  &Depth);
 	
-	//@TODO: non funziona con rgba
-	if (Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA) {
-		const ILuint bpp_without_alpha = Dest->Bpp - 1;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					const ILuint  SrcIndex  = (z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp;
-					const ILuint  DestIndex = (z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp;
-					const ILuint  AlphaIdx = SrcIndex + bpp_without_alpha;
-					ILfloat Front = 0;
-					
+	for (z = 0; z < Depth; z++) {
+		for (y = 0; y < Height; y++) {
+			for (x = 0; x < Width; x++) {
+				ILubyte *SrcPix  = Converted + (z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*PixBpp;
+				ILubyte *DestPix = Dest->Data + (z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*PixBpp;
+				ILdouble Front, Back;
+
+				if (Alpha == NULL) {
+					memcpy(DestPix, SrcPix, PixBpp);
+					continue;
+				}
+
+				Front = ((ILdouble*)Alpha)[((z+SrcZ)*Src->Height + y+SrcY)*Src->Width + x+SrcX];
+				Back = 1.0 - Front;
+				for (c = 0; c < NumCol; c++) {
 					switch (Dest->Type)
 					{
 						case IL_BYTE:
 						case IL_UNSIGNED_BYTE:
-							Front = Converted[AlphaIdx]/((float)IL_MAX_UNSIGNED_BYTE);
+							DestPix[c] = (ILubyte)(SrcPix[c] * Front + DestPix[c] * Back + 0.5);
 							break;
 						case IL_SHORT:
 						case IL_UNSIGNED_SHORT:
-							Front = ((ILshort*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_SHORT);
+							((ILushort*)DestPix)[c] = (ILushort)(((ILushort*)SrcPix)[c] * Front + ((ILushort*)DestPix)[c] * Back + 0.5);
 							break;
 						case IL_INT:
 						case IL_UNSIGNED_INT:
-							Front = ((ILint*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_INT);
+							((ILuint*)DestPix)[c] = (ILuint)(((ILuint*)SrcPix)[c] * Front + ((ILuint*)DestPix)[c] * Back + 0.5);
 							break;
 						case IL_FLOAT:
-							Front = ((ILfloat*)Converted)[AlphaIdx];
+							((ILfloat*)DestPix)[c] = (ILfloat)(((ILfloat*)SrcPix)[c] * Front + ((ILfloat*)DestPix)[c] * Back);
 							break;
 						case IL_DOUBLE:
-							Front = (ILfloat)(((ILdouble*)Converted)[AlphaIdx]);
+							((ILdouble*)DestPix)[c] = ((ILdouble*)SrcPix)[c] * Front + ((ILdouble*)DestPix)[c] * Back;
 							break;
 					}
-					Back = 1.0f - Front;
-					// In case of Alpha channel, the data is blended. Keeps the original alpha.
-					if (ilIsEnabled(IL_BLIT_BLEND)) {
-						for (c = 0; c < bpp_without_alpha; c++)
-						{
-							Dest->Data[DestIndex + c] = 
-								(ILubyte)(Converted[SrcIndex + c] * Front
-											+ Dest->Data[DestIndex + c] * Back);
-						}
-					}
-					else {
-						for (c = 0; c < Dest->Bpp; c++)
-						{
-							Dest->Data[DestIndex + c] = (ILubyte)(Converted[SrcIndex + c]);
-						}
-					}
-				}
-			}
-		}
-	} else {
-		for( z = 0; z < Depth; z++ ) {
-			for( y = 0; y < Height; y++ ) {
-				for( x = 0; x < Width; x++ ) {
-					for( c = 0; c < Dest->Bpp; c++ ) {
-						Dest->Data[(z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp + c] =
-						 Converted[(z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp + c];
-					}
 				}
 			}
 		}
 	}
 	
-	if (SrcTemp != iCurImage->Data)
-		ifree(SrcTemp);
-	
-	ilBindImage(DestName);
 	if (DestFlipped)
 		ilFlipImage();
 	
+	ifree(Alpha);
 	ifree(Converted);
 	
 	return IL_TRUE;
-- 
2.43.0


From 8283a03b09e9a47aad186ae6c5baad12b70262ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 17/79] fix: copying and cloning images: the image itself,
 names that do not exist, failures, current name

---
 DevIL/src-IL/src/il_devil.cpp | 39 ++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 32525b6..f581c6e 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1018,6 +1018,12 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 		Dest->DxtcSize = 0;
 	}
 	
+	if (Dest->AnimList) {
+		ifree(Dest->AnimList);
+		Dest->AnimList = NULL;
+		Dest->AnimSize = 0;
+	}
+	
 	if (Src->AnimList && Src->AnimSize) {
 		Dest->AnimList = (ILuint*)ialloc(Src->AnimSize * sizeof(ILuint));
 		if (Dest->AnimList == NULL) {
@@ -1078,13 +1084,22 @@ ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 		return IL_FALSE;
 	}
 	
+	if (Src != 0 && !ilIsImage(Src)) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	
 	ilBindImage(Src);
 	SrcImage = iCurImage;
 	ilBindImage(DestName);
-	ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data);
-	ilCopyImageAttr(DestImage, SrcImage);
-	
-	return IL_TRUE;
+	iCurImage = DestImage;  // Could be a sub-image.
+	if (SrcImage == DestImage)
+		return IL_TRUE;
+	if (SrcImage == NULL)
+		return IL_FALSE;
+	if (!ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data))
+		return IL_FALSE;
+	return ilCopyImageAttr(DestImage, SrcImage);
 }
 
 
@@ -1103,8 +1118,10 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 		return NULL;
 	}
 	
-	if (ilCopyImageAttr(Dest, Src) == IL_FALSE)
+	if (ilCopyImageAttr(Dest, Src) == IL_FALSE) {
+		ilCloseImage(Dest);
 		return NULL;
+	}
 	
 	memcpy(Dest->Data, Src->Data, Src->SizeOfData);
 	
@@ -1114,7 +1131,7 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 
 ILuint ILAPIENTRY ilCloneCurImage()
 {
-	ILuint Id;
+	ILuint Id = 0, CurName;
 	ILimage *CurImage;
 	
 	if (iCurImage == NULL) {
@@ -1127,11 +1144,17 @@ ILuint ILAPIENTRY ilCloneCurImage()
 		return 0;
 	
 	CurImage = iCurImage;
+	CurName = ilGetCurName();
 	
 	ilBindImage(Id);
-	ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data);
-	ilCopyImageAttr(iCurImage, CurImage);
+	if (iCurImage == NULL ||
+		!ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data) ||
+		!ilCopyImageAttr(iCurImage, CurImage)) {
+		ilDeleteImages(1, &Id);
+		Id = 0;
+	}
 	
+	ilBindImage(CurName);
 	iCurImage = CurImage;
 	
 	return Id;
-- 
2.43.0


From 632f2fde33db7cb8e0f1b2205fe5355c3854d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 18/79] fix: names given out are not in use, failing to enlarge
 the stack keeps it, shutting down unbinds

---
 DevIL/src-IL/src/il_stack.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 286e898..9a32def 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -61,6 +61,12 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 			return;
 
 	do {
+		// A name that was bound again after it was deleted is in use.
+		while (FreeNames != NULL && ImageStack[FreeNames->Name] != NULL) {
+			TempFree = (iFree*)FreeNames->Next;
+			ifree(FreeNames);
+			FreeNames = TempFree;
+		}
 		if (FreeNames != NULL) {  // If any have been deleted, then reuse their image names.
                         TempFree = (iFree*)FreeNames->Next;
                         Images[Index] = FreeNames->Name;
@@ -83,7 +89,7 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 
 ILuint ILAPIENTRY ilGenImage()
 {
-    ILuint i;
+    ILuint i = 0;
     ilGenImages(1,&i);
     return i;
 }
@@ -592,9 +598,15 @@ ILboolean iEnlargeStack()
 		OnExit = IL_TRUE;
 	}
 
-	if (!(ImageStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*)))) {
+	ILimage **NewStack;
+	if ((StackSize + I_STACK_INCREMENT) > (ILuint)-1 / sizeof(ILimage*)) {
+		ilSetError(IL_OUT_OF_MEMORY);
+		return IL_FALSE;
+	}
+	if (!(NewStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*)))) {
 		return IL_FALSE;
 	}
+	ImageStack = NewStack;
 	StackSize += I_STACK_INCREMENT;
 	return IL_TRUE;
 }
@@ -666,6 +678,8 @@ void ILAPIENTRY ilShutDown()
 	ImageStack = NULL;
 	LastUsed = 0;
 	StackSize = 0;
+	iCurImage = NULL;
+	CurName = 0;
 	IsInit = IL_FALSE;
 	return;
 }
-- 
2.43.0


From 3ee8a98c78999074a872d909c981f0ba2033566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 19/79] fix: sub-images are chained by their own kind, closing
 an image clears its faces

---
 DevIL/src-IL/src/il_stack.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 9a32def..c01df2b 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -228,7 +228,7 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 
 	if (Image->Faces != NULL) {
 		ilCloseImage(Image->Faces);
-		Image->Mipmaps = NULL;
+		Image->Faces = NULL;
 	}
 
 	if (Image->Mipmaps != NULL) {
@@ -506,9 +506,16 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 		return 0;
 	}
 
+	// Each kind of sub-image is chained by its own kind.
 	for (Count = 1; Count < Num; Count++) {
-		SubImage->Next = ilNewImage(1, 1, 1, 1, 1);
-		SubImage = SubImage->Next;
+		ILimage *NewImage = ilNewImage(1, 1, 1, 1, 1);
+		if (Type == IL_SUB_MIPMAP)
+			SubImage->Mipmaps = NewImage;
+		else if (Type == IL_SUB_LAYER)
+			SubImage->Layers = NewImage;
+		else
+			SubImage->Next = NewImage;
+		SubImage = NewImage;
 		if (SubImage == NULL)
 			return Count;
 	}
-- 
2.43.0


From 03ff380b2fae810dfeaf5207521ec6985ddcb996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 20/79] fix: clipping a format string reads and writes only the
 string

---
 DevIL/src-IL/src/il_states.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 752624b..b242c7f 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -164,7 +164,9 @@ char *iClipString(char *String, ILuint MaxLen)
 		return NULL;
 	}
 
-	memcpy(Clipped, String, MaxLen * sizeof(char) /*sizeof(ILchar)*/);
+	if (Length > MaxLen)
+		Length = MaxLen;
+	memcpy(Clipped, String, Length * sizeof(char) /*sizeof(ILchar)*/);
 	Clipped[Length] = 0;
 
 	return Clipped;
-- 
2.43.0


From 862bbefa56d80eba7953185e8a54c789a58a5982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:12 +0000
Subject: [PATCH 21/79] fix: ranges of integer states, cube flags, active face
 and palette base type queries

---
 DevIL/src-IL/src/il_states.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index b242c7f..4adcf27 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -466,6 +466,7 @@ void ILAPIENTRY ilGetIntegerv(ILenum Mode, ILint *Param)
 		case IL_ACTIVE_IMAGE:
 		case IL_ACTIVE_MIPMAP:
 		case IL_ACTIVE_LAYER:
+		case IL_ACTIVE_FACE:
 			*Param = iGetActiveNum(Mode);
 			break;
 
@@ -656,16 +657,22 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
              {
                   case IL_PAL_RGB24:
                       *Param = IL_RGB;
+                      break;
                   case IL_PAL_RGB32:
                       *Param = IL_RGBA; // Not sure
+                      break;
                   case IL_PAL_RGBA32:
                       *Param = IL_RGBA;
+                      break;
                   case IL_PAL_BGR24:
                       *Param = IL_BGR;
+                      break;
                   case IL_PAL_BGR32:
                       *Param = IL_BGRA; // Not sure
+                      break;
                   case IL_PAL_BGRA32:
                       *Param = IL_BGRA;
+                      break;
              }
              break;
         default:
@@ -1093,7 +1100,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 				break;
 			}
 			iCurImage->CubeFlags = Param;
-			break;
+			return;
  
 		// Format specific values
 		case IL_BMP_RLE:
@@ -1103,7 +1110,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_DXTC_FORMAT:
-			if (Param >= IL_DXT1 || Param <= IL_DXT5 || Param == IL_DXT1A) {
+			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || Param == IL_3DC || Param == IL_RXGB || Param == IL_ATI1N || Param == IL_DXT1A) {
 				ilStates[ilCurrentPos].ilDxtcFormat = Param;
 				return;
 			}
@@ -1127,13 +1134,13 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_PCD_PICNUM:
-			if (Param >= 0 || Param <= 2) {
+			if (Param >= 0 && Param <= 2) {
 				ilStates[ilCurrentPos].ilPcdPicNum = Param;
 				return;
 			}
 			break;
 		case IL_PNG_ALPHA_INDEX:
-			if (Param >= -1 || Param <= 255) {
+			if (Param >= -1 && Param <= 255) {
 				ilStates[ilCurrentPos].ilPngAlphaIndex=Param;
 				return;
 			}
-- 
2.43.0


From 48da33fd5bea49fecabcc7e44260e134207dc791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 22/79] fix: a full error stack drops the oldest error, not the
 newest but one

---
 DevIL/src-IL/src/il_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 08796f6..159c7df 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -29,7 +29,7 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
-		for (i = 0; i < IL_ERROR_STACK_SIZE - 2; i++) {
+		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
 			ilErrorNum[i] = ilErrorNum[i+1];
 		}
 		ilErrorPlace = IL_ERROR_STACK_SIZE - 1;
-- 
2.43.0


From 59fd3b381f3c7297ecf41b3394f93d52b5579eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 23/79] fix: strings of the states use DevIL's allocator,
 pushing states without strings, hints and errors survive a push

---
 DevIL/src-IL/src/il_states.cpp | 155 +++++++++++++++------------------
 1 file changed, 68 insertions(+), 87 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 4adcf27..649dace 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -40,6 +40,35 @@ char* _ilSaveExt		= (char*)"" IL_BMP_EXT IL_CHEAD_EXT IL_DDS_EXT IL_EXR_EXT
 									IL_WBMP_EXT;
 
 
+// Returns a copy of the string that can be freed with ifree, or NULL for NULL.
+static char *iDupString(const char *String)
+{
+	char	*Copy;
+	ILuint	Length;
+
+	if (String == NULL)
+		return NULL;
+
+	Length = ilCharStrLen(String);
+	Copy = (char*)ialloc(Length + 1);
+	if (Copy != NULL)
+		memcpy(Copy, String, Length + 1);
+
+	return Copy;
+}
+
+
+// Replaces a string of the states by a copy of String.
+static void iReplaceString(char **State, const char *String)
+{
+	char *Copy = iDupString(String);
+
+	if (*State)
+		ifree(*State);
+	*State = Copy;
+}
+
+
 //! Set all states to their defaults.
 void ilDefaultStates()
 {
@@ -70,19 +99,19 @@ void ilDefaultStates()
 	ilStates[ilCurrentPos].ilPngAlphaIndex = -1;
 	ilStates[ilCurrentPos].ilVtfCompression = IL_DXT_NO_COMP;
 
-	ilStates[ilCurrentPos].ilTgaId = NULL;
-	ilStates[ilCurrentPos].ilTgaAuthName = NULL;
-	ilStates[ilCurrentPos].ilTgaAuthComment = NULL;
-	ilStates[ilCurrentPos].ilPngAuthName = NULL;
-	ilStates[ilCurrentPos].ilPngTitle = NULL;
-	ilStates[ilCurrentPos].ilPngDescription = NULL;
+	iReplaceString(&ilStates[ilCurrentPos].ilTgaId, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthName, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthComment, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilPngAuthName, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilPngTitle, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilPngDescription, NULL);
 
 	//2003-09-01: added tiff strings
-	ilStates[ilCurrentPos].ilTifDescription = NULL;
-	ilStates[ilCurrentPos].ilTifHostComputer = NULL;
-	ilStates[ilCurrentPos].ilTifDocumentName = NULL;
-	ilStates[ilCurrentPos].ilTifAuthName = NULL;
-	ilStates[ilCurrentPos].ilCHeader = NULL;
+	iReplaceString(&ilStates[ilCurrentPos].ilTifDescription, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTifHostComputer, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTifDocumentName, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilTifAuthName, NULL);
+	iReplaceString(&ilStates[ilCurrentPos].ilCHeader, NULL);
 
 	ilStates[ilCurrentPos].ilQuantMode = IL_WU_QUANT;
 	ilStates[ilCurrentPos].ilNeuSample = 15;
@@ -95,10 +124,13 @@ void ilDefaultStates()
 
 
 
-	ilHints.MemVsSpeedHint = IL_FASTEST;
-	ilHints.CompressHint = IL_USE_COMPRESSION;
+	// Hints and errors are not part of the states that are pushed.
+	if (ilCurrentPos == 0) {
+		ilHints.MemVsSpeedHint = IL_FASTEST;
+		ilHints.CompressHint = IL_USE_COMPRESSION;
 
-	while (ilGetError() != IL_NO_ERROR);
+		while (ilGetError() != IL_NO_ERROR);
+	}
 
 	return;
 }
@@ -827,46 +859,17 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		ilStates[ilCurrentPos].ilPngAlphaIndex = ilStates[ilCurrentPos-1].ilPngAlphaIndex;
 
 		// Strings
-		if (ilStates[ilCurrentPos].ilTgaId)
-			ifree(ilStates[ilCurrentPos].ilTgaId);
-		if (ilStates[ilCurrentPos].ilTgaAuthName)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-		if (ilStates[ilCurrentPos].ilTgaAuthComment)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-		if (ilStates[ilCurrentPos].ilPngAuthName)
-			ifree(ilStates[ilCurrentPos].ilPngAuthName);
-		if (ilStates[ilCurrentPos].ilPngTitle)
-			ifree(ilStates[ilCurrentPos].ilPngTitle);
-		if (ilStates[ilCurrentPos].ilPngDescription)
-			ifree(ilStates[ilCurrentPos].ilPngDescription);
-
-		//2003-09-01: added tif strings
-		if (ilStates[ilCurrentPos].ilTifDescription)
-			ifree(ilStates[ilCurrentPos].ilTifDescription);
-		if (ilStates[ilCurrentPos].ilTifHostComputer)
-			ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-		if (ilStates[ilCurrentPos].ilTifDocumentName)
-			ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-		if (ilStates[ilCurrentPos].ilTifAuthName)
-			ifree(ilStates[ilCurrentPos].ilTifAuthName);
-
-		if (ilStates[ilCurrentPos].ilCHeader)
-			ifree(ilStates[ilCurrentPos].ilCHeader);
-
-		ilStates[ilCurrentPos].ilTgaId = strdup(ilStates[ilCurrentPos-1].ilTgaId);
-		ilStates[ilCurrentPos].ilTgaAuthName = strdup(ilStates[ilCurrentPos-1].ilTgaAuthName);
-		ilStates[ilCurrentPos].ilTgaAuthComment = strdup(ilStates[ilCurrentPos-1].ilTgaAuthComment);
-		ilStates[ilCurrentPos].ilPngAuthName = strdup(ilStates[ilCurrentPos-1].ilPngAuthName);
-		ilStates[ilCurrentPos].ilPngTitle = strdup(ilStates[ilCurrentPos-1].ilPngTitle);
-		ilStates[ilCurrentPos].ilPngDescription = strdup(ilStates[ilCurrentPos-1].ilPngDescription);
-
-		//2003-09-01: added tif strings
-		ilStates[ilCurrentPos].ilTifDescription = strdup(ilStates[ilCurrentPos-1].ilTifDescription);
-		ilStates[ilCurrentPos].ilTifHostComputer = strdup(ilStates[ilCurrentPos-1].ilTifHostComputer);
-		ilStates[ilCurrentPos].ilTifDocumentName = strdup(ilStates[ilCurrentPos-1].ilTifDocumentName);
-		ilStates[ilCurrentPos].ilTifAuthName = strdup(ilStates[ilCurrentPos-1].ilTifAuthName);
-
-		ilStates[ilCurrentPos].ilCHeader = strdup(ilStates[ilCurrentPos-1].ilCHeader);
+		iReplaceString(&ilStates[ilCurrentPos].ilTgaId, ilStates[ilCurrentPos-1].ilTgaId);
+		iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthName, ilStates[ilCurrentPos-1].ilTgaAuthName);
+		iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthComment, ilStates[ilCurrentPos-1].ilTgaAuthComment);
+		iReplaceString(&ilStates[ilCurrentPos].ilPngAuthName, ilStates[ilCurrentPos-1].ilPngAuthName);
+		iReplaceString(&ilStates[ilCurrentPos].ilPngTitle, ilStates[ilCurrentPos-1].ilPngTitle);
+		iReplaceString(&ilStates[ilCurrentPos].ilPngDescription, ilStates[ilCurrentPos-1].ilPngDescription);
+		iReplaceString(&ilStates[ilCurrentPos].ilTifDescription, ilStates[ilCurrentPos-1].ilTifDescription);
+		iReplaceString(&ilStates[ilCurrentPos].ilTifHostComputer, ilStates[ilCurrentPos-1].ilTifHostComputer);
+		iReplaceString(&ilStates[ilCurrentPos].ilTifDocumentName, ilStates[ilCurrentPos-1].ilTifDocumentName);
+		iReplaceString(&ilStates[ilCurrentPos].ilTifAuthName, ilStates[ilCurrentPos-1].ilTifAuthName);
+		iReplaceString(&ilStates[ilCurrentPos].ilCHeader, ilStates[ilCurrentPos-1].ilCHeader);
 	}
 
 	return;
@@ -967,62 +970,40 @@ void ILAPIENTRY ilSetString(ILenum Mode, const char *String)
 	switch (Mode)
 	{
 		case IL_TGA_ID_STRING:
-			if (ilStates[ilCurrentPos].ilTgaId)
-				ifree(ilStates[ilCurrentPos].ilTgaId);
-			ilStates[ilCurrentPos].ilTgaId = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTgaId, String);
 			break;
 		case IL_TGA_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilTgaAuthName)
-				ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-			ilStates[ilCurrentPos].ilTgaAuthName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthName, String);
 			break;
 		case IL_TGA_AUTHCOMMENT_STRING:
-			if (ilStates[ilCurrentPos].ilTgaAuthComment)
-				ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-			ilStates[ilCurrentPos].ilTgaAuthComment = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTgaAuthComment, String);
 			break;
 		case IL_PNG_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilPngAuthName)
-				ifree(ilStates[ilCurrentPos].ilPngAuthName);
-			ilStates[ilCurrentPos].ilPngAuthName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilPngAuthName, String);
 			break;
 		case IL_PNG_TITLE_STRING:
-			if (ilStates[ilCurrentPos].ilPngTitle)
-				ifree(ilStates[ilCurrentPos].ilPngTitle);
-			ilStates[ilCurrentPos].ilPngTitle = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilPngTitle, String);
 			break;
 		case IL_PNG_DESCRIPTION_STRING:
-			if (ilStates[ilCurrentPos].ilPngDescription)
-				ifree(ilStates[ilCurrentPos].ilPngDescription);
-			ilStates[ilCurrentPos].ilPngDescription = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilPngDescription, String);
 			break;
 
 		//2003-09-01: added tif strings
 		case IL_TIF_DESCRIPTION_STRING:
-			if (ilStates[ilCurrentPos].ilTifDescription)
-				ifree(ilStates[ilCurrentPos].ilTifDescription);
-			ilStates[ilCurrentPos].ilTifDescription = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifDescription, String);
 			break;
 		case IL_TIF_HOSTCOMPUTER_STRING:
-			if (ilStates[ilCurrentPos].ilTifHostComputer)
-				ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-			ilStates[ilCurrentPos].ilTifHostComputer = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifHostComputer, String);
 			break;
 		case IL_TIF_DOCUMENTNAME_STRING:
-						if (ilStates[ilCurrentPos].ilTifDocumentName)
-				ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-			ilStates[ilCurrentPos].ilTifDocumentName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifDocumentName, String);
 			break;
 		case IL_TIF_AUTHNAME_STRING:
-			if (ilStates[ilCurrentPos].ilTifAuthName)
-				ifree(ilStates[ilCurrentPos].ilTifAuthName);
-			ilStates[ilCurrentPos].ilTifAuthName = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilTifAuthName, String);
 			break;
 
 		case IL_CHEAD_HEADER_STRING:
-			if (ilStates[ilCurrentPos].ilCHeader)
-				ifree(ilStates[ilCurrentPos].ilCHeader);
-			ilStates[ilCurrentPos].ilCHeader = strdup(String);
+			iReplaceString(&ilStates[ilCurrentPos].ilCHeader, String);
 			break;
 
 		default:
-- 
2.43.0


From 14d90daed684bd1758cd1b654191802078ebf279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 24/79] fix: pushing the format specific states keeps the VTF
 and progressive JPEG settings

---
 DevIL/src-IL/src/il_states.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 649dace..04e0864 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -853,6 +853,8 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		ilStates[ilCurrentPos].ilBmpRle = ilStates[ilCurrentPos-1].ilBmpRle;
 		ilStates[ilCurrentPos].ilSgiRle = ilStates[ilCurrentPos-1].ilSgiRle;
 		ilStates[ilCurrentPos].ilJpgFormat = ilStates[ilCurrentPos-1].ilJpgFormat;
+		ilStates[ilCurrentPos].ilJpgProgressive = ilStates[ilCurrentPos-1].ilJpgProgressive;
+		ilStates[ilCurrentPos].ilVtfCompression = ilStates[ilCurrentPos-1].ilVtfCompression;
 		ilStates[ilCurrentPos].ilDxtcFormat = ilStates[ilCurrentPos-1].ilDxtcFormat;
 		ilStates[ilCurrentPos].ilPcdPicNum = ilStates[ilCurrentPos-1].ilPcdPicNum;
 
-- 
2.43.0


From aa81c4199864ceb64e518ecc49b691e22ec3f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 25/79] fix: clearing an alpha image; image sizes are checked
 with integers

---
 DevIL/src-IL/src/il_devil.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index f581c6e..eb0f639 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -20,7 +20,13 @@
 static ILboolean iValidImageSize(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Type)
 {
 	ILubyte BpcType = ilGetBpcType(Type);
-	if (BpcType == 0 || (ILdouble)IL_MAX(Width, 1) * IL_MAX(Height, 1) * IL_MAX(Depth, 1) * Bpp * BpcType > UINT_MAX) {
+	unsigned long long Size = (unsigned long long)IL_MAX(Width, 1) * Bpp * BpcType;
+
+	if (Size <= UINT_MAX)
+		Size *= IL_MAX(Height, 1);
+	if (Size <= UINT_MAX)
+		Size *= IL_MAX(Depth, 1);
+	if (BpcType == 0 || Size > UINT_MAX) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
@@ -406,6 +412,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					BytePtr[1] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
@@ -456,6 +463,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					ShortPtr[1] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
@@ -506,6 +514,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					IntPtr[1] = (ILuint)(ClearAlpha * (ILdouble)UINT_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					IntPtr[0] = (ILuint)(ClearAlpha * (ILdouble)UINT_MAX);
 					break;
@@ -555,6 +564,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					FloatPtr[1] = ClearAlpha;
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					FloatPtr[0] = ClearAlpha;
 					break;
@@ -604,6 +614,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					DblPtr[1] = ClearAlpha;
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					DblPtr[0] = ClearAlpha;
 					break;
-- 
2.43.0


From b64432b289fb90e7c3274f5b563ebb38643c826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 26/79] fix: registering a handler twice, failing to copy its
 extension

---
 DevIL/src-IL/src/il_register.cpp | 36 +++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 274674b..043ad23 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -27,19 +27,24 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 	iFormatL *TempNode, *NewNode;
 
 	TempNode = LoadProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	while (TempNode != NULL) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		if (TempNode->Next == NULL)
+			break;
+		TempNode = TempNode->Next;
 	}
 
 	NewNode = (iFormatL*)ialloc(sizeof(iFormatL));
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 
 	if (LoadProcs == NULL) {
 		LoadProcs = NewNode;
@@ -48,7 +53,6 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 		TempNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
 	NewNode->Load = Load;
 	NewNode->Next = NULL;
 
@@ -61,19 +65,24 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 	iFormatS *TempNode, *NewNode;
 
 	TempNode = SaveProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	while (TempNode != NULL) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		if (TempNode->Next == NULL)
+			break;
+		TempNode = TempNode->Next;
 	}
 
 	NewNode = (iFormatS*)ialloc(sizeof(iFormatL));
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 
 	if (SaveProcs == NULL) {
 		SaveProcs = NewNode;
@@ -82,7 +91,6 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 		TempNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
 	NewNode->Save = Save;
 	NewNode->Next = NULL;
 
-- 
2.43.0


From c4899e60035830639ec7e1b7a3694465e6708517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 27/79] fix: registered mipmaps are chained as mipmaps, failing
 to make sub-images keeps the image consistent

---
 DevIL/src-IL/src/il_register.cpp | 36 +++++++++++---------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 043ad23..25a56ff 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -275,7 +275,7 @@ void ILAPIENTRY ilRegisterFormat(ILenum Format)
 
 ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Faces);  // Close any current mipmaps.
@@ -294,12 +294,8 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 		Next->Faces = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Faces == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Faces;
-			while (Prev) {
-				Next = Prev->Faces;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Faces);
+			iCurImage->Faces = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Faces;
@@ -312,7 +308,7 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Mipmaps);  // Close any current mipmaps.
@@ -328,18 +324,14 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 	Num--;
 
 	while (Num) {
-		Next->Next = ilNewImage(1, 1, 1, 1, 1);
-		if (Next->Next == NULL) {
+		Next->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
+		if (Next->Mipmaps == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Mipmaps;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Mipmaps);
+			iCurImage->Mipmaps = NULL;
 			return IL_FALSE;
 		}
-		Next = Next->Next;
+		Next = Next->Mipmaps;
 		Num--;
 	}
 
@@ -349,7 +341,7 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Next);  // Close any current "next" images.
@@ -368,12 +360,8 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 		Next->Next = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Next == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Next;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Next);
+			iCurImage->Next = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Next;
-- 
2.43.0


From 5a094428cba576e2daaf7c56847242d8f63f050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 28/79] fix: registering a palette without data or image keeps
 the palette

---
 DevIL/src-IL/src/il_register.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 25a56ff..04ac1ca 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -396,22 +396,26 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 
 void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 {
-	if (!iCurImage->Pal.Palette || !iCurImage->Pal.PalSize || iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-	}
+	ILubyte *Palette;
 
-	iCurImage->Pal.PalSize = Size;
-	iCurImage->Pal.PalType = Type;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Size);
-	if (iCurImage->Pal.Palette == NULL)
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return;
-
-	if (Pal != NULL) {
-		memcpy(iCurImage->Pal.Palette, Pal, Size);
 	}
-	else {
+	if (Pal == NULL) {
 		ilSetError(IL_INVALID_PARAM);
+		return;
 	}
+
+	Palette = (ILubyte*)ialloc(Size);
+	if (Palette == NULL)
+		return;
+	memcpy(Palette, Pal, Size);
+
+	ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = Palette;
+	iCurImage->Pal.PalSize = Size;
+	iCurImage->Pal.PalType = Type;
 	
 	return;
 }
-- 
2.43.0


From 41d9bf8195996deb2440c439299b99464fccebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 29/79] fix: swapping rows needs no memory, so flipping cannot
 fail half-way

---
 DevIL/src-IL/src/il_utility.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_utility.cpp b/DevIL/src-IL/src/il_utility.cpp
index e52480d..0c180df 100644
--- a/DevIL/src-IL/src/il_utility.cpp
+++ b/DevIL/src-IL/src/il_utility.cpp
@@ -148,11 +148,10 @@ ILAPI ILuint ILAPIENTRY ilNextPower2(ILuint n)
 ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 {
 	const ILuint block_size = 4096;
+	ILubyte block[block_size];
 	const ILuint blocks = size/block_size;
 	ILuint i;
 
-	ILubyte *block = (ILubyte*)ialloc(block_size);
-	if(block == NULL) return;
 	for( i = 0; i < blocks; i++ ) {
 		memcpy(block,s1,block_size);
 		memcpy(s1,s2,block_size);
@@ -166,6 +165,5 @@ ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 		memcpy(s1,s2,i);
 		memcpy(s2,block,i);
 	}
-	ifree(block);
 	return;
 }
-- 
2.43.0


From 23f2ac4974434355b2b34c52b5bbfb46aa134964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 30/79] fix: converting without enough memory fails cleanly

---
 DevIL/src-IL/src/il_convbuff.cpp |  7 ++++++-
 DevIL/src-IL/src/il_convert.cpp  | 35 ++++++++++++++++++++------------
 DevIL/src-IL/src/il_pal.cpp      | 12 ++++-------
 3 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index fe287fe..70ddb89 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -68,6 +68,8 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 	if (DestFormat == SrcFormat) {
 		NewData = (ILubyte*)ialloc(NumPix * BpcDest);
 		if (NewData == NULL) {
+			if (Data != Buffer)
+				ifree(Data);
 			return IL_FALSE;
 		}
 		memcpy(NewData, Data, NumPix * BpcDest);
@@ -81,8 +83,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 	if (SrcFormat == IL_COLOUR_INDEX) {
 		// We create a temporary palette image so that we can send it to iConvertPalette.
 		PalImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
-		if (PalImage == NULL)
+		if (PalImage == NULL) {
+			if (Data != Buffer)
+				ifree(Data);
 			return NULL;
+		}
 		// Populate the temporary palette image.
 		PalImage->Pal.Palette = SrcPal->Palette;
 		PalImage->Pal.PalSize = SrcPal->PalSize;
diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 19b798d..eccf20e 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -30,7 +30,10 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		return IL_FALSE;
 	}
 
-	ilCopyImageAttr(NewImage, Image);
+	if (!ilCopyImageAttr(NewImage, Image)) {
+		ilCloseImage(NewImage);
+		return NULL;
+	}
 
 	if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE || Image->Bpp != 1) {
 		ilCloseImage(NewImage);
@@ -135,20 +138,19 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 			return NewImage;
 
 		default:
+			ilSetCurImage(CurImage);
 			ilCloseImage(NewImage);
 			ilSetError(IL_INVALID_CONVERSION);
 			return NULL;
 	}
 
-	// Resize to new bpp
-	ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1);
-
 	// ilConvertPal already sets the error message - no need to confuse the user.
-	if (!Converted) {
-		ilSetCurImage(CurImage);
-		ilCloseImage(NewImage);
-		return NULL;
-	}
+	if (!Converted)
+		goto alloc_error;
+
+	// Resize to new bpp
+	if (!ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1))
+		goto alloc_error;
 
 	Size = ilGetBppPal(NewImage->Pal.PalType);
 	for (i = 0; i < Image->SizeOfData; i++) {
@@ -170,10 +172,10 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 
 alloc_error:
 	ifree(Temp);
+	if (CurImage != NULL)
+		ilSetCurImage(CurImage);
 	if (NewImage)
 		ilCloseImage(NewImage);
-	if (CurImage != iCurImage)
-		ilSetCurImage(CurImage);
 	return NULL;
 }
 
@@ -246,7 +248,10 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 			return NULL;
 		}
 
-		ilCopyImageAttr(NewImage, Image);
+		if (!ilCopyImageAttr(NewImage, Image)) {
+			ilCloseImage(NewImage);
+			return NULL;
+		}
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
@@ -259,6 +264,10 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 			NewImage->Pal.PalSize = 768;
 			NewImage->Pal.PalType = IL_PAL_RGB24;
 			NewImage->Pal.Palette = (ILubyte*)ialloc(768);
+			if (NewImage->Pal.Palette == NULL) {
+				ilCloseImage(NewImage);
+				return NULL;
+			}
 			for (i = 0; i < 256; i++) {
 				NewImage->Pal.Palette[i * 3] = i;
 				NewImage->Pal.Palette[i * 3 + 1] = i;
@@ -274,7 +283,7 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 		else {
 			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, DestFormat, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
-				ifree(NewImage);  // ilCloseImage not needed.
+				ilCloseImage(NewImage);
 				return NULL;
 			}
 		}
diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index fd4a510..bede3c8 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -697,6 +697,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				default:
+					ifree(NewPal);
 					ilSetError(IL_INVALID_PARAM);
 					return NULL;
 			}
@@ -819,6 +820,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				default:
+					ifree(NewPal);
 					ilSetError(IL_INVALID_PARAM);
 					return NULL;
 			}
@@ -826,6 +828,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 
 		default:
+			ifree(NewPal);
 			ilSetError(IL_INVALID_PARAM);
 			return NULL;
 	}
@@ -858,14 +861,7 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 	ifree(iCurImage->Pal.Palette);
 	iCurImage->Pal.PalSize = Pal->PalSize;
 	iCurImage->Pal.PalType = Pal->PalType;
-
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		return IL_FALSE;
-	}
-	memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
-
-	ifree(Pal->Palette);
+	iCurImage->Pal.Palette = Pal->Palette;
 	ifree(Pal);
 	
 	return IL_TRUE;
-- 
2.43.0


From 2838a4909e8fa6decbad527c280341d902df3e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 31/79] fix: iluCrop and iluEnlargeCanvas move whole samples,
 stay inside of the image and keep the palette

iluCrop ignored the offsets when it checked the request, so blocks sticking
out were read from behind the image; it cut only the first plane when ZOff
was 0, took the size of the block for its end otherwise and forgot the size
of a sample.  iluEnlargeCanvas shifted by samples instead of bytes and went
on without memory.  Both lost the palette of indexed images.
---
 DevIL/src-ILU/src/ilu_manip.cpp | 112 ++++++++++++--------------------
 1 file changed, 41 insertions(+), 71 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 630a8cf..e278be3 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -5,58 +5,29 @@
 #include <limits.h>
 
 
-ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
-	ILuint	x, y, c, OldBps;
-	ILubyte	*Data;
-	ILenum	Origin;
-
-	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
-		return IL_FALSE;
-	}
+// Gives the current image new (undefined) pixels of other dimensions.  Unlike with ilTexImage, the palette and the origin are kept.
+static ILboolean iNewCanvas(ILuint Width, ILuint Height, ILuint Depth)
+{
+	ILpal	Pal = iluCurImage->Pal;
+	ILenum	Origin = iluCurImage->Origin;
 
-	OldBps = iluCurImage->Bps;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, 1, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width, Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		free(Data);
+	iluCurImage->Pal.Palette = NULL;
+	if (!ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
+		ifree(iluCurImage->Pal.Palette);
+		iluCurImage->Pal = Pal;
 		return IL_FALSE;
 	}
+	iluCurImage->Pal = Pal;
 	iluCurImage->Origin = Origin;
-
-	// @TODO:  Optimize!  (Especially XOff * iluCurImage->Bpp...get rid of it!)
-	for (y = 0; y < iluCurImage->Height; y++) {
-		for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-			for (c = 0; c < iluCurImage->Bpp; c++) {
-				iluCurImage->Data[y * iluCurImage->Bps + x + c] = 
-					Data[(y + YOff) * OldBps + x + XOff * iluCurImage->Bpp + c];
-			}
-		}
-	}
-
-	ifree(Data);
-
 	return IL_TRUE;
 }
 
 
-ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
+//! Keeps the block of Width x Height x Depth pixels that starts at (XOff, YOff, ZOff) and drops the rest.
+ILboolean ILAPIENTRY iluCrop(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILuint	x, y, z, c, OldBps, OldPlane;
+	ILuint	y, z, PixSize, OldBps, OldPlane;
 	ILubyte	*Data;
-	ILenum	Origin;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -64,8 +35,16 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 		return IL_FALSE;
 	}
 
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height || Depth > iluCurImage->Depth) {
+	// Images with only one plane do not care about the z direction.
+	if (iluCurImage->Depth == 1 && ZOff <= 1) {
+		ZOff = 0;
+		Depth = 1;
+	}
+
+	if (Width == 0 || Height == 0 || Depth == 0 ||
+		Width > iluCurImage->Width || XOff > iluCurImage->Width - Width ||
+		Height > iluCurImage->Height || YOff > iluCurImage->Height - Height ||
+		Depth > iluCurImage->Depth || ZOff > iluCurImage->Depth - Depth) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -74,24 +53,20 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 	if (Data == NULL) {
 		return IL_FALSE;
 	}
+	memcpy(Data, iluCurImage->Data, iluCurImage->SizeOfData);
 
+	PixSize = iluCurImage->Bpp * iluCurImage->Bpc;
 	OldBps = iluCurImage->Bps;
 	OldPlane = iluCurImage->SizeOfPlane;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width - XOff, Height - YOff, Depth - ZOff, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
+	if (!iNewCanvas(Width, Height, Depth)) {
 		ifree(Data);
+		return IL_FALSE;
 	}
-	iluCurImage->Origin = Origin;
 
-	for (z = 0; z < iluCurImage->Depth; z++) {
-		for (y = 0; y < iluCurImage->Height; y++) {
-			for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					iluCurImage->Data[z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps + x + c] = 
-						Data[(z + ZOff) * OldPlane + (y + YOff) * OldBps + (x + XOff) + c];
-				}
-			}
+	for (z = 0; z < Depth; z++) {
+		for (y = 0; y < Height; y++) {
+			memcpy(iluCurImage->Data + z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps,
+				Data + (z + ZOff) * OldPlane + (y + YOff) * OldBps + XOff * PixSize, iluCurImage->Bps);
 		}
 	}
 
@@ -101,20 +76,11 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 }
 
 
-ILboolean ILAPIENTRY iluCrop(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
-{
-	if (ZOff <= 1)
-		return iluCrop2D(XOff, YOff, Width, Height);
-	return iluCrop3D(XOff, YOff, ZOff, Width, Height, Depth);
-}
-
-
 //! Enlarges the canvas
 ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 {
 	ILubyte	*Data/*, Clear[4]*/;
 	ILuint	x, y, z, OldBps, OldH, OldD, OldPlane, AddX, AddY;
-	ILenum	Origin;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -185,7 +151,7 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 		}
 	}
 
-	AddX *= iluCurImage->Bpp;
+	AddX *= iluCurImage->Bpp * iluCurImage->Bpc;
 
 	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
 	if (Data == NULL) {
@@ -197,13 +163,17 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 	OldBps   = iluCurImage->Bps;
 	OldH     = iluCurImage->Height;
 	OldD     = iluCurImage->Depth;
-	Origin   = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, OldD, iluCurImage->Format, iluCurImage->Type, Data);
+	memcpy(Data, iluCurImage->Data, iluCurImage->SizeOfData);
 
-	ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
-	iluCurImage->Origin = Origin;
+	if (!iNewCanvas(Width, Height, Depth)) {
+		ifree(Data);
+		return IL_FALSE;
+	}
 
-	ilClearImage();
+	if (iluCurImage->Format == IL_COLOUR_INDEX)
+		memset(iluCurImage->Data, 0, iluCurImage->SizeOfData);  // Clearing would replace the palette.
+	else
+		ilClearImage();
 	/*ilGetClear(Clear);
 	if (iluCurImage->Bpp == 1) {
 		memset(iluCurImage->Data, Clear[3], iluCurImage->SizeOfData);
-- 
2.43.0


From 795aa37eedb5b35df7664b4e0b98151a03e65be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 32/79] fix: scaling stays inside of the image, handles every
 sample type and picks exactly the nearest pixels

---
 DevIL/src-ILU/src/ilu_scale.cpp   | 141 +-------
 DevIL/src-ILU/src/ilu_scale2d.cpp | 528 +++++++-----------------------
 DevIL/src-ILU/src/ilu_scale3d.cpp | 182 +---------
 3 files changed, 152 insertions(+), 699 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index b6efaf8..79dfc10 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -23,12 +23,15 @@ ILboolean ILAPIENTRY iluEnlargeImage(ILfloat XDim, ILfloat YDim, ILfloat ZDim)
 	}
 
 	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	return iluScale((ILuint)(iluCurImage->Width * XDim), (ILuint)(iluCurImage->Height * YDim),
 					(ILuint)(iluCurImage->Depth * ZDim));
 }
 
 
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width);
 ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
 ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
 
@@ -74,7 +77,7 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 				// Not supported yet.
 				if (iluCurImage->Type != IL_UNSIGNED_BYTE ||
 					iluCurImage->Format == IL_COLOUR_INDEX ||
-					iluCurImage->Depth > 1) {
+					iluCurImage->Depth > 1 || Depth > 1) {
 						ilSetError(ILU_ILLEGAL_OPERATION);
 						return IL_FALSE;
 				}
@@ -144,7 +147,11 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 	if (Format == IL_COLOUR_INDEX) {
 		ilSetCurImage(Image);
 		PalType = Image->Pal.PalType;
-		ToScale = iConvertImage(iluCurImage, ilGetPalBaseType(Image->Pal.PalType), iluCurImage->Type);
+		ToScale = iConvertImage(Image, ilGetPalBaseType(Image->Pal.PalType), Image->Type);
+		if (ToScale == NULL) {
+			ilSetCurImage(CurImage);
+			return NULL;
+		}
 	}
 	else {
 		ToScale = Image;
@@ -152,6 +159,12 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 
 	// So we don't replicate this 3 times (one in each iluScalexD_() function.
 	Scaled = (ILimage*)icalloc(1, sizeof(ILimage));
+	if (Scaled == NULL) {
+		if (ToScale != Image)
+			ilCloseImage(ToScale);
+		ilSetCurImage(CurImage);
+		return NULL;
+	}
 	if (ilCopyImageAttr(Scaled, ToScale) == IL_FALSE) {
 		ilCloseImage(Scaled);
 		if (ToScale != Image)
@@ -167,9 +180,6 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 		return NULL;
 	}
 	
-	if (Height <= 1 && Image->Height <= 1) {
-		iluScale1D_(ToScale, Scaled, Width);
-	}
 	if (Depth <= 1 && Image->Depth <= 1) {
 		iluScale2D_(ToScale, Scaled, Width, Height);
 	}
@@ -186,122 +196,3 @@ ILAPI ILimage* ILAPIENTRY iluScale_(ILimage *Image, ILuint Width, ILuint Height,
 
 	return Scaled;
 }
-
-
-ILimage *iluScale1D_(ILimage *Image, ILimage *Scaled, ILuint Width)
-{
-	ILuint		x1, x2;
-	ILuint		NewX1, NewX2, NewX3, x, c;
-	ILdouble	ScaleX, t1, t2, f;
-	ILushort	*ShortPtr, *SShortPtr;
-	ILuint		*IntPtr, *SIntPtr;
-
-	if (Image == NULL) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	ScaleX = (ILdouble)Width / Image->Width;
-
-	ShortPtr = (ILushort*)Image->Data;
-	SShortPtr = (ILushort*)Scaled->Data;
-	IntPtr = (ILuint*)Image->Data;
-	SIntPtr = (ILuint*)Scaled->Data;
-
-	if (iluFilter == ILU_NEAREST) {
-		switch (Image->Bpc)
-		{
-			case 1:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Scaled->Data[NewX1 + c] = Image->Data[NewX2 + c];
-					}
-				}
-				break;
-			case 2:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[NewX1 + c] = ShortPtr[NewX2 + c];
-					}
-				}
-				break;
-			case 4:
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[NewX1 + c] = IntPtr[NewX2 + c];
-					}
-				}
-				break;
-		}
-	}
-	else {  // IL_LINEAR or IL_BILINEAR
-		switch (Image->Bpc)
-		{
-			case 1:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = Image->Data[NewX1 + c];
-						x2 = Image->Data[NewX2 + c];
-
-						Scaled->Data[NewX3 + c] = (ILubyte)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 2:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = ShortPtr[NewX1 + c];
-						x2 = ShortPtr[NewX2 + c];
-
-						SShortPtr[NewX3 + c] = (ILushort)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-			case 4:
-				NewX3 = 0;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t2 = t1 * Width - (ILuint)(t1 * Width);
-					f = (1.0 - cos(t2 * IL_PI)) * .5;
-					NewX1 = ((ILuint)(t1 * Width / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t1 * Width / ScaleX) + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = IntPtr[NewX1 + c];
-						x2 = IntPtr[NewX2 + c];
-
-						SIntPtr[NewX3 + c] = (ILuint)(x1 * (1.0 - f) + x2 * f);
-					}
-
-					NewX3 += Scaled->Bpp;
-				}
-				break;
-		}
-	}
-
-	return Scaled;
-}
diff --git a/DevIL/src-ILU/src/ilu_scale2d.cpp b/DevIL/src-ILU/src/ilu_scale2d.cpp
index 98a5158..4152e8b 100644
--- a/DevIL/src-ILU/src/ilu_scale2d.cpp
+++ b/DevIL/src-ILU/src/ilu_scale2d.cpp
@@ -22,15 +22,11 @@ ILimage *iluScale2DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint H
 ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
 ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height);
 
-static ILuint	x1, x2;
-static ILuint	NewY1, NewY2, NewX1, NewX2, Size, x, y, c;
-static ILdouble	ScaleX, ScaleY, t1, t2, t3, t4, f, ft, NewX;
-static ILdouble	Table[2][4];  // Assumes we don't have larger than 32-bit images.
-static ILuint	ImgBps, SclBps;
-static ILushort	*ShortPtr, *SShortPtr;
-static ILuint	*IntPtr, *SIntPtr;
-static ILfloat	*FloatPtr, *SFloatPtr;
-
+// The pixel of the source row (or column) that covers pixel Pos of the scaled one.
+static inline ILuint SourcePos(ILuint Pos, ILuint SrcSize, ILuint DestSize)
+{
+	return (ILuint)((unsigned long long)Pos * SrcSize / DestSize);
+}
 
 
 ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
@@ -40,9 +36,6 @@ ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 		return IL_FALSE;
 	}
 
-	ScaleX = (ILfloat)Width / Image->Width;
-	ScaleY = (ILfloat)Height / Image->Height;
-
 	if (iluFilter == ILU_NEAREST)
 		return iluScale2DNear_(Image, Scaled, Width, Height);
 	else if (iluFilter == ILU_LINEAR)
@@ -54,141 +47,77 @@ ILimage *iluScale2D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 
 ILimage *iluScale2DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
+	ILuint	x, y, PixSize = Image->Bpp * Image->Bpc;
+	ILubyte	*Row;
+
+	for (y = 0; y < Height; y++) {
+		Row = Image->Data + SourcePos(y, Image->Height, Height) * Image->Bps;
+		for (x = 0; x < Width; x++) {
+			memcpy(Scaled->Data + y * Scaled->Bps + x * PixSize,
+				Row + SourcePos(x, Image->Width, Width) * PixSize, PixSize);
+		}
+	}
 
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Scaled->Data[NewY1 + NewX1 + c] = Image->Data[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
+	return Scaled;
+}
 
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[NewY1 + NewX1 + c] = ShortPtr[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
-			}
-			break;
 
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = y * SclBps;
-				NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX1 = x * Scaled->Bpp;
-					NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[NewY1 + NewX1 + c] = IntPtr[NewY2 + NewX2 + c];
-						x1 = 0;
-					}
-				}
+template <class T>
+static void Scale2DLinear(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
+{
+	ILuint		x, y, c, NewX1, NewX2;
+	ILdouble	f;
+	T			*Row, *Dest;
+
+	for (y = 0; y < Height; y++) {
+		Row = (T*)(Image->Data + SourcePos(y, Image->Height, Height) * Image->Bps);
+		Dest = (T*)(Scaled->Data + y * Scaled->Bps);
+		for (x = 0; x < Width; x++) {
+			NewX1 = SourcePos(x, Image->Width, Width);
+			// Past the right edge there is nothing to interpolate with.
+			NewX2 = NewX1 < Image->Width - 1 ? NewX1 + 1 : NewX1;
+			f = (ILdouble)((unsigned long long)x * Image->Width % Width) / Width;
+			f = (1.0 - cos(f * IL_PI)) * .5;
+
+			for (c = 0; c < Scaled->Bpp; c++) {
+				Dest[x * Scaled->Bpp + c] = (T)((1.0 - f) * Row[NewX1 * Image->Bpp + c] +
+					f * Row[NewX2 * Image->Bpp + c]);
 			}
-			break;
+		}
 	}
-
-	return Scaled;
 }
 
 
 ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-
-	switch (Image->Bpc)
+	switch (Image->Type)
 	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = Image->Data[NewY1 + NewX1 + c];
-						x2 = Image->Data[NewY1 + NewX2 + c];
-						Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-					}
-				}
-			}
+		case IL_BYTE:
+			Scale2DLinear<ILbyte>(Image, Scaled, Width, Height);
 			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = ShortPtr[NewY1 + NewX1 + c];
-						x2 = ShortPtr[NewY1 + NewX2 + c];
-						SShortPtr[Size + c] = (ILushort)((1.0 - f) * x1 + f * x2);
-					}
-				}
-			}
+		case IL_UNSIGNED_BYTE:
+			Scale2DLinear<ILubyte>(Image, Scaled, Width, Height);
 			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					ft = t2 * IL_PI;
-					f = (1.0 - cos(ft)) * .5;
-					NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-					NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						x1 = IntPtr[NewY1 + NewX1 + c];
-						x2 = IntPtr[NewY1 + NewX2 + c];
-						SIntPtr[Size + c] = (ILuint)((1.0 - f) * x1 + f * x2);
-					}
-				}
-			}
+		case IL_SHORT:
+			Scale2DLinear<ILshort>(Image, Scaled, Width, Height);
+			break;
+		case IL_UNSIGNED_SHORT:
+			Scale2DLinear<ILushort>(Image, Scaled, Width, Height);
+			break;
+		case IL_INT:
+			Scale2DLinear<ILint>(Image, Scaled, Width, Height);
+			break;
+		case IL_UNSIGNED_INT:
+			Scale2DLinear<ILuint>(Image, Scaled, Width, Height);
+			break;
+		case IL_FLOAT:
+			Scale2DLinear<ILfloat>(Image, Scaled, Width, Height);
+			break;
+		case IL_DOUBLE:
+			Scale2DLinear<ILdouble>(Image, Scaled, Width, Height);
 			break;
+		default:  // Nothing that can be interpolated, e.g. IL_HALF
+			return iluScale2DNear_(Image, Scaled, Width, Height);
 	}
 
 	return Scaled;
@@ -197,282 +126,77 @@ ILimage *iluScale2DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint
 
 // Rewrote using an algorithm described by Paul Nettle at
 //  http://www.gamedev.net/reference/articles/article669.asp.
-ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
+template <class T>
+static void Scale2DBilinear(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
 {
-	ILfloat	ul, ll, ur, lr;
-	ILfloat	FracX, FracY;
-	ILfloat	SrcX, SrcY;
-	ILuint	iSrcX, iSrcY, iSrcXPlus1, iSrcYPlus1, ulOff, llOff, urOff, lrOff;
+	ILdouble	ul, ll, ur, lr;
+	ILdouble	FracX, FracY;
+	ILuint		x, y, c, iSrcX, iSrcY, iSrcXPlus1, iSrcYPlus1;
+	T			*Row, *RowPlus1, *Dest;
+
+	for (y = 0; y < Height; y++) {
+		// Calculate where we want to choose pixels from in our source image:
+		//  the integer part and the fractional part.
+		iSrcY = SourcePos(y, Image->Height, Height);
+		FracY = (ILdouble)((unsigned long long)y * Image->Height % Height) / Height;
+		// We do not want to go past the last line in the image, so this takes care of that.
+		iSrcYPlus1 = iSrcY < Image->Height - 1 ? iSrcY + 1 : iSrcY;
+		Row = (T*)(Image->Data + iSrcY * Image->Bps);
+		RowPlus1 = (T*)(Image->Data + iSrcYPlus1 * Image->Bps);
+		Dest = (T*)(Scaled->Data + y * Scaled->Bps);
+
+		for (x = 0; x < Width; x++) {
+			iSrcX = SourcePos(x, Image->Width, Width);
+			FracX = (ILdouble)((unsigned long long)x * Image->Width % Width) / Width;
+			// Neither do we want to go past the right edge of the image.
+			iSrcXPlus1 = iSrcX < Image->Width - 1 ? iSrcX + 1 : iSrcX;
+
+			// Find out how much we want each of the four pixels contributing to the final values.
+			ul = (1.0 - FracX) * (1.0 - FracY);
+			ll = (1.0 - FracX) * FracY;
+			ur = FracX * (1.0 - FracY);
+			lr = FracX * FracY;
+
+			for (c = 0; c < Scaled->Bpp; c++) {
+				Dest[x * Scaled->Bpp + c] = (T)(
+					ul * Row[iSrcX * Image->Bpp + c] + ll * RowPlus1[iSrcX * Image->Bpp + c] +
+					ur * Row[iSrcXPlus1 * Image->Bpp + c] + lr * RowPlus1[iSrcXPlus1 * Image->Bpp + c]);
+			}
+		}
+	}
+}
 
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
 
-	switch (Image->Bpc)
+ILimage *iluScale2DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height)
+{
+	switch (Image->Type)
 	{
-		case 1:
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					// Calculate where we want to choose pixels from in our source image.
-					SrcX = (ILfloat)x / (ILfloat)ScaleX;
-					SrcY = (ILfloat)y / (ILfloat)ScaleY;
-					// Integer part of SrcX and SrcY
-					iSrcX = (ILuint)floor(SrcX);
-					iSrcY = (ILuint)floor(SrcY);
-					// Fractional part of SrcX and SrcY
-					FracX = SrcX - (ILfloat)(iSrcX);
-					FracY = SrcY - (ILfloat)(iSrcY);
-
-					// We do not want to go past the right edge of the image or past the last line in the image,
-					//  so this takes care of that.  Normally, iSrcXPlus1 is iSrcX + 1, but if this is past the
-					//  right side, we have to bring it back to iSrcX.  The same goes for iSrcYPlus1.
-					if (iSrcX < Image->Width - 1)
-						iSrcXPlus1 = iSrcX + 1;
-					else 
-						iSrcXPlus1 = iSrcX;
-					if (iSrcY < Image->Height - 1)
-						iSrcYPlus1 = iSrcY + 1;
-					else
-						iSrcYPlus1 = iSrcY;
-
-					// Find out how much we want each of the four pixels contributing to the final values.
-					ul = (1.0f - FracX) * (1.0f - FracY);
-					ll = (1.0f - FracX) * FracY;
-					ur = FracX * (1.0f - FracY);
-					lr = FracX * FracY;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						// We just calculate the offsets for each pixel here...
-						ulOff = iSrcY * Image->Bps + iSrcX * Image->Bpp + c;
-						llOff = iSrcYPlus1 * Image->Bps + iSrcX * Image->Bpp + c;
-						urOff = iSrcY * Image->Bps + iSrcXPlus1 * Image->Bpp + c;
-						lrOff = iSrcYPlus1 * Image->Bps + iSrcXPlus1 * Image->Bpp + c;
-
-						// ...and then we do the actual interpolation here.
-						Scaled->Data[y * Scaled->Bps + x * Scaled->Bpp + c] = (ILubyte)(
-							ul * Image->Data[ulOff] + ll * Image->Data[llOff] + ur * Image->Data[urOff] + lr * Image->Data[lrOff]);
-					}
-				}
-			}
+		case IL_BYTE:
+			Scale2DBilinear<ILbyte>(Image, Scaled, Width, Height);
 			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			Height--;  // Only use regular Height once in the following loop.
-			for (y = 0; y < Height; y++) {
-				NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-				NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					t2 = t4 - (ILuint)(t4);
-					t3 = (1.0 - t2);
-					t4 = t1 * NewX;
-					NewX1 = (ILuint)(t4) * Image->Bpp;
-					NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-						Table[0][c] = t3 * ShortPtr[NewY1 + NewX1 + c] +
-							t2 * ShortPtr[NewY1 + NewX2 + c];
-
-						Table[1][c] = t3 * ShortPtr[NewY2 + NewX1 + c] +
-							t2 * ShortPtr[NewY2 + NewX2 + c];
-					}
-
-					// Linearly interpolate between the table values.
-					t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-					t3 = (1.0 - t1);
-					Size = y * SclBps + x * Scaled->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SShortPtr[Size + c] =
-							(ILushort)(t3 * Table[0][c] + t1 * Table[1][c]);
-					}
-				}
-			}
-
-			// Calculate the last row.
-			NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-			for (x = 0; x < Width; x++) {
-				NewX = Width / ScaleX;
-				t1 = x / (ILdouble)Width;
-				t4 = t1 * Width;
-				ft = (t4 - (ILuint)(t4)) * IL_PI;
-				f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-				NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-				NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-				Size = Height * SclBps + x * Image->Bpp;
-				for (c = 0; c < Scaled->Bpp; c++) {
-					SShortPtr[Size + c] = (ILushort)((1.0 - f) * ShortPtr[NewY1 + NewX1 + c] +
-						f * ShortPtr[NewY1 + NewX2 + c]);
-				}
-			}
+		case IL_UNSIGNED_BYTE:
+			Scale2DBilinear<ILubyte>(Image, Scaled, Width, Height);
 			break;
-
-		case 4:
-			if (Image->Type != IL_FLOAT) {
-				IntPtr = (ILuint*)Image->Data;
-				SIntPtr = (ILuint*)Scaled->Data;
-				Height--;  // Only use regular Height once in the following loop.
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX = Width / ScaleX;
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						t3 = (1.0 - t2);
-						t4 = t1 * NewX;
-						NewX1 = (ILuint)(t4) * Image->Bpp;
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-							Table[0][c] = t3 * IntPtr[NewY1 + NewX1 + c] +
-								t2 * IntPtr[NewY1 + NewX2 + c];
-
-							Table[1][c] = t3 * IntPtr[NewY2 + NewX1 + c] +
-								t2 * IntPtr[NewY2 + NewX2 + c];
-						}
-
-						// Linearly interpolate between the table values.
-						t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-						t3 = (1.0 - t1);
-						Size = y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SIntPtr[Size + c] =
-								(ILuint)(t3 * Table[0][c] + t1 * Table[1][c]);
-						}
-					}
-				}
-
-				// Calculate the last row.
-				NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-				for (x = 0; x < Width; x++) {
-					NewX = Width / ScaleX;
-					t1 = x / (ILdouble)Width;
-					t4 = t1 * Width;
-					ft = (t4 - (ILuint)(t4)) * IL_PI;
-					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-					Size = Height * SclBps + x * Image->Bpp;
-					for (c = 0; c < Scaled->Bpp; c++) {
-						SIntPtr[Size + c] = (ILuint)((1.0 - f) * IntPtr[NewY1 + NewX1 + c] +
-							f * IntPtr[NewY1 + NewX2 + c]);
-					}
-				}
-
-			}
-
-			else {  // IL_FLOAT
-				FloatPtr = (ILfloat*)Image->Data;
-				SFloatPtr = (ILfloat*)Scaled->Data;
-				Height--;  // Only use regular Height once in the following loop.
-
-				for (y = 0; y < Height; y++) {
-
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-
-					NewY2 = (ILuint)((y+1) / ScaleY) * ImgBps;
-
-					for (x = 0; x < Width; x++) {
-
-						NewX = Width / ScaleX;
-
-						t1 = x / (ILdouble)Width;
-
-						t4 = t1 * Width;
-
-						t2 = t4 - (ILuint)(t4);
-
-						t3 = (1.0 - t2);
-
-						t4 = t1 * NewX;
-
-						NewX1 = (ILuint)(t4) * Image->Bpp;
-
-						NewX2 = (ILuint)(t4 + 1) * Image->Bpp;
-
-
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-
-							Table[0][c] = t3 * FloatPtr[NewY1 + NewX1 + c] +
-
-								t2 * FloatPtr[NewY1 + NewX2 + c];
-
-
-
-							Table[1][c] = t3 * FloatPtr[NewY2 + NewX1 + c] +
-
-								t2 * FloatPtr[NewY2 + NewX2 + c];
-
-						}
-
-
-
-						// Linearly interpolate between the table values.
-
-						t1 = y / (ILdouble)(Height + 1);  // Height+1 is the real height now.
-
-						t3 = (1.0 - t1);
-
-						Size = y * SclBps + x * Scaled->Bpp;
-
-						for (c = 0; c < Scaled->Bpp; c++) {
-
-							SFloatPtr[Size + c] =
-
-								(ILfloat)(t3 * Table[0][c] + t1 * Table[1][c]);
-
-						}
-
-					}
-
-				}
-
-
-
-				// Calculate the last row.
-
-				NewY1 = (ILuint)(Height / ScaleY) * ImgBps;
-
-				for (x = 0; x < Width; x++) {
-
-					NewX = Width / ScaleX;
-
-					t1 = x / (ILdouble)Width;
-
-					t4 = t1 * Width;
-
-					ft = (t4 - (ILuint)(t4)) * IL_PI;
-
-					f = (1.0 - cos(ft)) * .5;  // Cosine interpolation
-
-					NewX1 = (ILuint)(t1 * NewX) * Image->Bpp;
-
-					NewX2 = (ILuint)(t1 * NewX + 1) * Image->Bpp;
-
-
-
-					Size = Height * SclBps + x * Image->Bpp;
-
-					for (c = 0; c < Scaled->Bpp; c++) {
-
-						SFloatPtr[Size + c] = (ILfloat)((1.0 - f) * FloatPtr[NewY1 + NewX1 + c] +
-
-							f * FloatPtr[NewY1 + NewX2 + c]);
-
-					}
-
-				}
-
-			}
-
+		case IL_SHORT:
+			Scale2DBilinear<ILshort>(Image, Scaled, Width, Height);
+			break;
+		case IL_UNSIGNED_SHORT:
+			Scale2DBilinear<ILushort>(Image, Scaled, Width, Height);
+			break;
+		case IL_INT:
+			Scale2DBilinear<ILint>(Image, Scaled, Width, Height);
+			break;
+		case IL_UNSIGNED_INT:
+			Scale2DBilinear<ILuint>(Image, Scaled, Width, Height);
+			break;
+		case IL_FLOAT:
+			Scale2DBilinear<ILfloat>(Image, Scaled, Width, Height);
+			break;
+		case IL_DOUBLE:
+			Scale2DBilinear<ILdouble>(Image, Scaled, Width, Height);
 			break;
+		default:  // Nothing that can be interpolated, e.g. IL_HALF
+			return iluScale2DNear_(Image, Scaled, Width, Height);
 	}
 
 	return Scaled;
diff --git a/DevIL/src-ILU/src/ilu_scale3d.cpp b/DevIL/src-ILU/src/ilu_scale3d.cpp
index 00b08e0..c6bf3b2 100644
--- a/DevIL/src-ILU/src/ilu_scale3d.cpp
+++ b/DevIL/src-ILU/src/ilu_scale3d.cpp
@@ -19,16 +19,6 @@
 
 
 ILimage *iluScale3DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-ILimage *iluScale3DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-ILimage *iluScale3DBilinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth);
-
-static ILuint		Size, NewX1, NewX2, NewY1, NewY2, NewZ1, NewZ2, x, y, z, c;
-static ILdouble	ScaleX, ScaleY, ScaleZ, x1, x2, t1, t2, t4, f, ft;
-//ILdouble	Table[2][2][4];  // Assumes we don't have larger than 32-bit images.
-static ILuint		ImgBps, SclBps, ImgPlane, SclPlane;
-static ILushort	*ShortPtr, *SShortPtr;
-static ILuint		*IntPtr, *SIntPtr;
-
 
 ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
 {
@@ -37,10 +27,6 @@ ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 		return IL_FALSE;
 	}
 
-	ScaleX = (ILfloat)Width / Image->Width;
-	ScaleY = (ILfloat)Height / Image->Height;
-	ScaleZ = (ILfloat)Depth / Image->Depth;
-
 	//if (iluFilter == ILU_NEAREST)
 		return iluScale3DNear_(Image, Scaled, Width, Height, Depth);
 	//else if (iluFilter == ILU_LINEAR)
@@ -53,166 +39,18 @@ ILimage *iluScale3D_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Heigh
 
 ILimage *iluScale3DNear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
 {
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-	ImgPlane = Image->SizeOfPlane / Image->Bpc;
-	SclPlane = Scaled->SizeOfPlane / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							Scaled->Data[NewZ1 + NewY1 + NewX1 + c] =
-								Image->Data[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
-			}
-			break;
-
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SShortPtr[NewZ1 + NewY1 + NewX1 + c] =
-								ShortPtr[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
-			}
-			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = z * SclPlane;
-				NewZ2 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = y * SclBps;
-					NewY2 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						NewX1 = x * Scaled->Bpp;
-						NewX2 = (ILuint)(x / ScaleX) * Image->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							SIntPtr[NewZ1 + NewY1 + NewX1 + c] =
-								IntPtr[NewZ2 + NewY2 + NewX2 + c];
-						}
-					}
-				}
-			}
-			break;
-	}
-
-	return Scaled;
-}
-
-
-ILimage *iluScale3DLinear_(ILimage *Image, ILimage *Scaled, ILuint Width, ILuint Height, ILuint Depth)
-{
-	ImgBps = Image->Bps / Image->Bpc;
-	SclBps = Scaled->Bps / Scaled->Bpc;
-	ImgPlane = Image->SizeOfPlane / Image->Bpc;
-	SclPlane = Scaled->SizeOfPlane / Scaled->Bpc;
-
-	switch (Image->Bpc)
-	{
-		case 1:
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						ft = t2 * IL_PI;
-						f = (1.0 - cos(ft)) * .5;
-						NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-						NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-						Size = z * SclPlane + y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							x1 = Image->Data[NewZ1 + NewY1 + NewX1 + c];
-							x2 = Image->Data[NewZ1 + NewY1 + NewX2 + c];
-							Scaled->Data[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-						}
-					}
-				}
-			}
-			break;
+	ILuint	x, y, z, PixSize = Image->Bpp * Image->Bpc;
+	ILubyte	*Plane, *Row;
 
-		case 2:
-			ShortPtr = (ILushort*)Image->Data;
-			SShortPtr = (ILushort*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						ft = t2 * IL_PI;
-						f = (1.0 - cos(ft)) * .5;
-						NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-						NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-						Size = z * SclPlane + y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							x1 = ShortPtr[NewZ1 + NewY1 + NewX1 + c];
-							x2 = ShortPtr[NewZ1 + NewY1 + NewX2 + c];
-							SShortPtr[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-						}
-					}
-				}
-			}
-			break;
-
-		case 4:
-			IntPtr = (ILuint*)Image->Data;
-			SIntPtr = (ILuint*)Scaled->Data;
-			for (z = 0; z < Depth; z++) {
-				NewZ1 = (ILuint)(z / ScaleZ) * ImgPlane;
-				for (y = 0; y < Height; y++) {
-					NewY1 = (ILuint)(y / ScaleY) * ImgBps;
-					for (x = 0; x < Width; x++) {
-						t1 = x / (ILdouble)Width;
-						t4 = t1 * Width;
-						t2 = t4 - (ILuint)(t4);
-						ft = t2 * IL_PI;
-						f = (1.0 - cos(ft)) * .5;
-						NewX1 = ((ILuint)(t4 / ScaleX)) * Image->Bpp;
-						NewX2 = ((ILuint)(t4 / ScaleX) + 1) * Image->Bpp;
-
-						Size = z * SclPlane + y * SclBps + x * Scaled->Bpp;
-						for (c = 0; c < Scaled->Bpp; c++) {
-							x1 = IntPtr[NewZ1 + NewY1 + NewX1 + c];
-							x2 = IntPtr[NewZ1 + NewY1 + NewX2 + c];
-							SIntPtr[Size + c] = (ILubyte)((1.0 - f) * x1 + f * x2);
-						}
-					}
-				}
+	for (z = 0; z < Depth; z++) {
+		Plane = Image->Data + (ILuint)((unsigned long long)z * Image->Depth / Depth) * Image->SizeOfPlane;
+		for (y = 0; y < Height; y++) {
+			Row = Plane + (ILuint)((unsigned long long)y * Image->Height / Height) * Image->Bps;
+			for (x = 0; x < Width; x++) {
+				memcpy(Scaled->Data + z * Scaled->SizeOfPlane + y * Scaled->Bps + x * PixSize,
+					Row + (ILuint)((unsigned long long)x * Image->Width / Width) * PixSize, PixSize);
 			}
-			break;
+		}
 	}
 
 	return Scaled;
-- 
2.43.0


From e6f5ef11e944e769024b07b80a17325ea49a76d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 33/79] fix: filtered scaling frees its images when it fails

---
 DevIL/src-ILU/src/ilu_filter_rcg.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter_rcg.cpp b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
index 269408a..90e80db 100644
--- a/DevIL/src-ILU/src/ilu_filter_rcg.cpp
+++ b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
@@ -308,7 +308,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 	/* create intermediate column to hold horizontal dst column zoom */
 	tmp = (ILubyte*)ialloc(src->Height * sizeof(ILubyte));
 	if (tmp == NULL) {
-		return 0;
+		return -1;
 	}
 
 	xscale = (double) dst->Width / (double) src->Width;
@@ -332,10 +332,8 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 			contribY[i].n = 0;
 			contribY[i].p = (CONTRIB*)icalloc((int) (width * 2 + 1),
 					sizeof(CONTRIB));
-			if(contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
+			if (contribY[i].p == NULL) {
+				goto __zoom_cleanup;
 			}
 			center = (double) i / yscale;
 			left = ceil(center - width);
@@ -355,9 +353,7 @@ int zoom( ILimage *dst, ILimage *src, double (*filterf)(double), double fwidth)
 			contribY[i].p = (CONTRIB*)icalloc((int) (fwidth * 2 + 1),
 					sizeof(CONTRIB));
 			if (contribY[i].p == NULL) {
-				ifree(tmp);
-				ifree(contribY);
-				return -1;
+				goto __zoom_cleanup;
 			}
 			center = (double) i / yscale;
 			left = ceil(center - fwidth);
@@ -433,8 +429,10 @@ __zoom_cleanup:
 	ifree(tmp);
 
 	// Free the memory allocated for vertical filter weights
-	for (i = 0; i < (ILint)dst->Height; ++i)
-		ifree(contribY[i].p);
+	for (i = 0; i < (ILint)dst->Height; ++i) {
+		if (contribY[i].p != NULL)
+			ifree(contribY[i].p);
+	}
 	ifree(contribY);
 
 	return nRet;
@@ -473,15 +471,21 @@ ILuint iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter)
 	}
 
 	Dest = ilNewImage(Width, Height, 1, iluCurImage->Bpp, 1);
+	if (Dest == NULL)
+		return IL_FALSE;
 	Dest->Origin = iluCurImage->Origin;
 	Dest->Duration = iluCurImage->Duration;
 	for (c = 0; c < (ILuint)iluCurImage->Bpp; c++) {
 		if (zoom(Dest, iluCurImage, f, s) != 0) {
+			ilCloseImage(Dest);
 			return IL_FALSE;
 		}
 	}
 
-	ilTexImage(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, Dest->Data);
+	if (!ilTexImage(Width, Height, 1, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, Dest->Data)) {
+		ilCloseImage(Dest);
+		return IL_FALSE;
+	}
 	iluCurImage->Origin = Dest->Origin;
 	iluCurImage->Duration = Dest->Duration;
 	ilCloseImage(Dest);
-- 
2.43.0


From 7390ae937368f7eb1cf953a194fb037a080f35ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 34/79] fix: rotating by quarter turns puts every pixel of
 every plane at its place, and failures are reported

---
 DevIL/src-ILU/src/ilu_rotate.cpp | 324 ++++++++-----------------------
 1 file changed, 81 insertions(+), 243 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index c688622..149afe4 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -26,39 +26,48 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 		return IL_FALSE;
 	}
 
+	CurImage = iluCurImage;
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		PalType = iluCurImage->Pal.PalType;
-		CurImage = iluCurImage;
 		iluCurImage = iConvertImage(iluCurImage, ilGetPalBaseType(CurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (iluCurImage == NULL) {
+			ilSetCurImage(CurImage);
+			return IL_FALSE;
+		}
 	}
 
 	Temp = iluRotate_(iluCurImage, Angle);
-	if (Temp != NULL) {
-		if (PalType != 0) {
-			ilCloseImage(iluCurImage);
+	if (PalType != 0) {
+		ilCloseImage(iluCurImage);
+		iluCurImage = CurImage;
+		if (Temp != NULL) {
 			Temp1 = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 			ilCloseImage(Temp);
 			Temp = Temp1;
-			ilSetCurImage(CurImage);
-		}
-		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
-		if (PalType != 0) {
-			iluCurImage = ilGetCurImage();
-			iluCurImage->Pal.PalSize = Temp->Pal.PalSize;
-			iluCurImage->Pal.PalType = Temp->Pal.PalType;
-			iluCurImage->Pal.Palette = (ILubyte*)ialloc(Temp->Pal.PalSize);
-			if (iluCurImage->Pal.Palette == NULL) {
-				ilCloseImage(Temp);
-				return IL_FALSE;
-			}
-			memcpy(iluCurImage->Pal.Palette, Temp->Pal.Palette, Temp->Pal.PalSize);
 		}
+		ilSetCurImage(CurImage);
+	}
+	if (Temp == NULL)
+		return IL_FALSE;
 
-		iluCurImage->Origin = Temp->Origin;
+	if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
 		ilCloseImage(Temp);
-		return IL_TRUE;
+		return IL_FALSE;
 	}
-	return IL_FALSE;
+	if (PalType != 0) {
+		iluCurImage->Pal.Palette = (ILubyte*)ialloc(Temp->Pal.PalSize);
+		if (iluCurImage->Pal.Palette == NULL) {
+			ilCloseImage(Temp);
+			return IL_FALSE;
+		}
+		iluCurImage->Pal.PalSize = Temp->Pal.PalSize;
+		iluCurImage->Pal.PalType = Temp->Pal.PalType;
+		memcpy(iluCurImage->Pal.Palette, Temp->Pal.Palette, Temp->Pal.PalSize);
+	}
+
+	iluCurImage->Origin = Temp->Origin;
+	ilCloseImage(Temp);
+	return IL_TRUE;
 }
 
 
@@ -86,15 +95,13 @@ ILboolean ILAPIENTRY iluRotate3D(ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 {
 	ILimage		*Rotated = NULL;
-	ILint		x, y, c;
+	ILint		x, y, NewX, NewY, Width, Height;
+	ILuint		z, PixSize;
 	ILdouble	Cos, Sin;
-	ILuint		RotOffset, ImgOffset;
 	ILint		MinX, MinY, MaxX, MaxY;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILdouble	*DblPtr;
 	ILdouble	Point1x, Point1y, Point2x, Point2y, Point3x, Point3y;
 	ILint		SrcX, SrcY;
+	ILubyte		*Src, *Dest;
 
 	// Multiples of 90 are special.
 	Angle = (ILfloat)fmod((ILdouble)Angle, 360.0);
@@ -115,6 +122,16 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 	MinY = (ILint)IL_MIN(0, IL_MIN(Point1y, IL_MIN(Point2y, Point3y)));
 	MaxX = (ILint)IL_MAX(Point1x, IL_MAX(Point2x, Point3x));
 	MaxY = (ILint)IL_MAX(Point1y, IL_MAX(Point2y, Point3y));
+	Width = (ILint)ceil(fabs((ILdouble)MaxX) - MinX);
+	Height = (ILint)ceil(fabs((ILdouble)MaxY) - MinY);
+	if (Angle == 0.0 || Angle == 180.0) {
+		Width = Image->Width;
+		Height = Image->Height;
+	}
+	else if (Angle == 90.0 || Angle == 270.0) {
+		Width = Image->Height;
+		Height = Image->Width;
+	}
 
 	Rotated = (ILimage*)icalloc(1, sizeof(ILimage));
 	if (Rotated == NULL)
@@ -124,238 +141,59 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 		return NULL;
 	}
 
-	if (ilResizeImage(Rotated, (ILuint)ceil(fabs(MaxX) - MinX), (ILuint)ceil(fabs(MaxY) - MinY), 1, Image->Bpp, Image->Bpc) == IL_FALSE) {
+	if (ilResizeImage(Rotated, Width, Height, Image->Depth, Image->Bpp, Image->Bpc) == IL_FALSE) {
 		ilCloseImage(Rotated);
-		return IL_FALSE;
+		return NULL;
 	}
 
-	ilClearImage_(Rotated);
-
-	ShortPtr = (ILushort*)iluCurImage->Data;
-	IntPtr = (ILuint*)iluCurImage->Data;
-	DblPtr = (ILdouble*)iluCurImage->Data;
+	PixSize = Image->Bpp * Image->Bpc;
 
 	//if (iluFilter == ILU_NEAREST) {
-	switch (iluCurImage->Bpc)
-	{
-		case 1:  // Byte-based (most images)
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
+	if (Angle == 0.0 || Angle == 90.0 || Angle == 180.0 || Angle == 270.0) {
+		for (z = 0; z < Image->Depth; z++) {
+			Src = Image->Data + z * Image->SizeOfPlane;
+			Dest = Rotated->Data + z * Rotated->SizeOfPlane;
+			for (y = 0; y < (ILint)Image->Height; y++) {
 				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								Rotated->Data[RotOffset + c] = Image->Data[ImgOffset + c];
-							}
-						}
+					if (Angle == 90.0) {
+						NewX = Image->Height - 1 - y;
+						NewY = x;
 					}
-				}
-			}
-			break;
-
-		case 2:  // Short-based
-			Image->Bps /= 2;   // Makes it easier to just
-			Rotated->Bps /= 2; //   cast to short.
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILushort*)(Rotated->Data))[RotOffset + c] = ShortPtr[ImgOffset + c];
-							}
-						}
+					else if (Angle == 180.0) {
+						NewX = Image->Width - 1 - x;
+						NewY = Image->Height - 1 - y;
 					}
-				}
-			}
-			Image->Bps *= 2;
-			Rotated->Bps *= 2;
-			break;
-
-		case 4:  // Floats or 32-bit integers
-			Image->Bps /= 4;
-			Rotated->Bps /= 4;
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
-				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILuint*)(Rotated->Data))[RotOffset + c] = IntPtr[ImgOffset + c];
-							}
-						}
+					else if (Angle == 270.0) {
+						NewX = y;
+						NewY = Image->Width - 1 - x;
 					}
+					else {
+						NewX = x;
+						NewY = y;
+					}
+					memcpy(Dest + NewY * Rotated->Bps + NewX * PixSize, Src + y * Image->Bps + x * PixSize, PixSize);
 				}
 			}
-			Image->Bps *= 4;
-			Rotated->Bps *= 4;
-			break;
-
-		case 8:  // Double or 64-bit integers
-			Image->Bps /= 8;
-			Rotated->Bps /= 8;
-
-			if (Angle == 90.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = x * Rotated->Bps + (Image->Width - 1 - y) * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 180.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) { 
-					for (y = 0; y < (ILint)Image->Height; y++) { 
-						RotOffset = (Image->Height - 1 - y) * Rotated->Bps + x * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else if (Angle == 270.0) {
-				for (x = 0; x < (ILint)Image->Width; x++) {
-					for (y = 0; y < (ILint)Image->Height; y++) {
-						RotOffset = (Image->Height - 1 - x) * Rotated->Bps + y * Rotated->Bpp;
-						ImgOffset = y * Image->Bps + x * Image->Bpp;
-						for (c = 0; c < Rotated->Bpp; c++) {
-							((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-						}
-					} 
-				} 
-			}
-			else {
+		}
+	}
+	else {
+		// Not every pixel gets a value below.
+		if (!ilClearImage_(Rotated)) {
+			ilCloseImage(Rotated);
+			return NULL;
+		}
+		for (z = 0; z < Image->Depth; z++) {
+			Src = Image->Data + z * Image->SizeOfPlane;
+			Dest = Rotated->Data + z * Rotated->SizeOfPlane;
+			for (y = 0; y < (ILint)Rotated->Height; y++) {
 				for (x = 0; x < (ILint)Rotated->Width; x++) {
-					for (y = 0; y < (ILint)Rotated->Height; y++) {
-						SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
-						SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
-						if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height) {
-							RotOffset = y * Rotated->Bps + x * Rotated->Bpp;
-							ImgOffset = (ILuint)SrcY * Image->Bps + (ILuint)SrcX * Image->Bpp;
-							for (c = 0; c < Rotated->Bpp; c++) {
-								((ILdouble*)(Rotated->Data))[RotOffset + c] = DblPtr[ImgOffset + c];
-							}
-						}
-					}
+					SrcX = (ILint)((x + MinX) * Cos + (y + MinY) * Sin);
+					SrcY = (ILint)((y + MinY) * Cos - (x + MinX) * Sin);
+					if (SrcX >= 0 && SrcX < (ILint)Image->Width && SrcY >= 0 && SrcY < (ILint)Image->Height)
+						memcpy(Dest + y * Rotated->Bps + x * PixSize, Src + SrcY * Image->Bps + SrcX * PixSize, PixSize);
 				}
 			}
-			Image->Bps *= 8;
-			Rotated->Bps *= 8;
-			break;
+		}
 	}
 
 	return Rotated;
-- 
2.43.0


From 79cd7e34e8a7e94036c4afef8697f247fe39ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 35/79] fix: quantizing leaves no stack contents in unused
 palette entries

---
 DevIL/src-IL/src/il_quantizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 0e00572..a8f4ac4 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -594,7 +594,9 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		ifree(tag);
 		ifree(Qadd);
 
-		for (k = 0; k < NumCols; k++) {
+		// The entries that are not used are black.
+		memset(Palette, 0, 3 * num_alloced_colors);
+		for (k = 0; (ILint)k < K; k++) {
 			Palette[k * 3]     = lut_b[k];
 			Palette[k * 3 + 1] = lut_g[k];
 			Palette[k * 3 + 2] = lut_r[k];
-- 
2.43.0


From d0a750ceeeb5faabae779cf0354c3c3f9312c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 36/79] fix: reads past the end of a lump or cached file fail
 cleanly, positions of embedded files are relative, doubles are swapped

---
 DevIL/src-IL/src/il_endian.cpp |  26 ++++----
 DevIL/src-IL/src/il_files.cpp  | 114 +++++++++++++++++----------------
 2 files changed, 71 insertions(+), 69 deletions(-)

diff --git a/DevIL/src-IL/src/il_endian.cpp b/DevIL/src-IL/src/il_endian.cpp
index 60a42f1..7e16bcf 100644
--- a/DevIL/src-IL/src/il_endian.cpp
+++ b/DevIL/src-IL/src/il_endian.cpp
@@ -74,7 +74,7 @@ void iSwapDouble(ILdouble *d) {
 		: "r"  (t[0]), "r"  (t[1]));
 	#else
 	ILubyte t,*b = (ILubyte*)d;
-	#define dswap(x,y) t=b[x];b[x]=b[y];b[y]=b[x];
+	#define dswap(x,y) t=b[x];b[x]=b[y];b[y]=t;
 	dswap(0,7);
 	dswap(1,6);
 	dswap(2,5);
@@ -85,7 +85,7 @@ void iSwapDouble(ILdouble *d) {
 
 
 ILushort GetLittleUShort() {
-	ILushort s;
+	ILushort s = 0;
 	iread(&s, sizeof(ILushort), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapUShort(&s);
@@ -94,7 +94,7 @@ ILushort GetLittleUShort() {
 }
 
 ILshort GetLittleShort() {
-	ILshort s;
+	ILshort s = 0;
 	iread(&s, sizeof(ILshort), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapShort(&s);
@@ -103,7 +103,7 @@ ILshort GetLittleShort() {
 }
 
 ILuint GetLittleUInt() {
-	ILuint i;
+	ILuint i = 0;
 	iread(&i, sizeof(ILuint), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapUInt(&i);
@@ -112,7 +112,7 @@ ILuint GetLittleUInt() {
 }
 
 ILint GetLittleInt() {
-	ILint i;
+	ILint i = 0;
 	iread(&i, sizeof(ILint), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapInt(&i);
@@ -121,7 +121,7 @@ ILint GetLittleInt() {
 }
 
 ILfloat GetLittleFloat() {
-	ILfloat f;
+	ILfloat f = 0;
 	iread(&f, sizeof(ILfloat), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapFloat(&f);
@@ -130,7 +130,7 @@ ILfloat GetLittleFloat() {
 }
 
 ILdouble GetLittleDouble() {
-	ILdouble d;
+	ILdouble d = 0;
 	iread(&d, sizeof(ILdouble), 1);
 #ifdef __BIG_ENDIAN__
 	iSwapDouble(&d);
@@ -139,7 +139,7 @@ ILdouble GetLittleDouble() {
 }
 
 ILushort GetBigUShort() {
-	ILushort s;
+	ILushort s = 0;
 	iread(&s, sizeof(ILushort), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapUShort(&s);
@@ -148,7 +148,7 @@ ILushort GetBigUShort() {
 }
 
 ILshort GetBigShort() {
-	ILshort s;
+	ILshort s = 0;
 	iread(&s, sizeof(ILshort), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapShort(&s);
@@ -157,7 +157,7 @@ ILshort GetBigShort() {
 }
 
 ILuint GetBigUInt() {
-	ILuint i;
+	ILuint i = 0;
 	iread(&i, sizeof(ILuint), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapUInt(&i);
@@ -166,7 +166,7 @@ ILuint GetBigUInt() {
 }
 
 ILint GetBigInt() {
-	ILint i;
+	ILint i = 0;
 	iread(&i, sizeof(ILint), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapInt(&i);
@@ -175,7 +175,7 @@ ILint GetBigInt() {
 }
 
 ILfloat GetBigFloat() {
-	ILfloat f;
+	ILfloat f = 0;
 	iread(&f, sizeof(ILfloat), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapFloat(&f);
@@ -184,7 +184,7 @@ ILfloat GetBigFloat() {
 }
 
 ILdouble GetBigDouble() {
-	ILdouble d;
+	ILdouble d = 0;
 	iread(&d, sizeof(ILdouble), 1);
 #ifdef __LITTLE_ENDIAN__
 	iSwapDouble(&d);
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index ce41c6f..4a0ff15 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -14,6 +14,7 @@
 #define __FILES_C
 #include "il_internal.h"
 #include <stdarg.h>
+#include <limits.h>
 
 
 // All specific to the next set of functions
@@ -57,7 +58,7 @@ void		(ILAPIENTRY *iclosewCopy)(ILHANDLE);
 
 ILboolean	UseCache = IL_FALSE;
 ILubyte		*Cache = NULL;
-ILuint		CacheSize, CachePos, CacheStartPos, CacheBytesRead;
+ILuint		CacheSize, CacheMax, CachePos, CacheStartPos, CacheBytesRead;
 
 // "Fake" size functions
 //  Definitions are in il_size.c.
@@ -301,22 +302,34 @@ void ILAPIENTRY ilSetWrite(fOpenRProc Open, fCloseRProc Close, fPutcProc Putc, f
 }
 
 
+// Forgets everything that has been cached of the last file.
+static void iDropCache(void)
+{
+	if (Cache)
+		ifree(Cache);
+	Cache = NULL;
+	UseCache = IL_FALSE;
+}
+
+
 // Tells DevIL that we're reading from a file, not a lump
 void iSetInputFile(ILHANDLE File)
 {
+	iDropCache();
 	ieof  = iEofFile;
 	igetc = iGetcFile;
 	iread = iReadFile;
 	iseek = iSeekRFile;
 	itell = iTellRFile;
 	FileRead = File;
-	ReadFileStart = itell();
+	ReadFileStart = TellRProc(FileRead);
 }
 
 
 // Tells DevIL that we're reading from a lump, not a file
 void iSetInputLump(const void *Lump, ILuint Size)
 {
+	iDropCache();
 	ieof  = iEofLump;
 	igetc = iGetcLump;
 	iread = iReadLump;
@@ -418,6 +431,8 @@ void ipad(ILuint NumZeros)
 
 ILboolean ILAPIENTRY iEofFile(void)
 {
+	if (UseCache && CachePos < CacheSize)
+		return IL_FALSE;
 	return EofProc((FILE*)FileRead);
 }
 
@@ -436,7 +451,12 @@ ILint ILAPIENTRY iGetcFile(void)
 		return GetcProc(FileRead);
 	}
 	if (CachePos >= CacheSize) {
-		iPreCache(CacheSize);
+		if (!iPreCache(CacheMax))
+			return GetcProc(FileRead);
+		if (CacheSize == 0) {
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_EOF;
+		}
 	}
 
 	CacheBytesRead++;
@@ -449,7 +469,6 @@ ILint ILAPIENTRY iGetcLump(void)
 	// If ReadLumpSize is 0, don't even check to see if we've gone past the bounds.
 	if (ReadLumpSize > 0) {
 		if (ReadLumpPos + 1 > ReadLumpSize) {
-			ReadLumpPos--;
 			ilSetError(IL_FILE_READ_ERROR);
 			return IL_EOF;
 		}
@@ -472,39 +491,22 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 		return NumRead;
 	}
 
-	/*if (Cache == NULL || CacheSize == 0) {  // Shouldn't happen, but we check anyway.
-		return ReadProc(Buffer, Size, Number, FileRead);
-	}*/
-
-	if (BuffSize < CacheSize - CachePos) {
-		memcpy(Buffer, Cache + CachePos, BuffSize);
-		CachePos += BuffSize;
-		CacheBytesRead += BuffSize;
-		if (Size != 0)
-			BuffSize /= Size;
-		return BuffSize;
-	}
-	else {
-		while (TotalBytes < BuffSize) {
-			// If loop through more than once, after first, CachePos is 0.
-			if (TotalBytes + CacheSize - CachePos > BuffSize)
-				BytesCopied = BuffSize - TotalBytes;
-			else
-				BytesCopied = CacheSize - CachePos;
-
-			memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
-			TotalBytes += BytesCopied;
-			CachePos += BytesCopied;
-			if (TotalBytes < BuffSize) {
-				iPreCache(CacheSize);
+	while (TotalBytes < BuffSize) {
+		if (CachePos >= CacheSize) {
+			if (!iPreCache(CacheMax)) {  // Goes on without the cache.
+				TotalBytes += ReadProc((ILubyte*)Buffer + TotalBytes, 1, BuffSize - TotalBytes, FileRead);
+				break;
 			}
+			if (CacheSize == 0)  // The end of the file
+				break;
 		}
+		BytesCopied = IL_MIN(BuffSize - TotalBytes, CacheSize - CachePos);
+		memcpy((ILubyte*)Buffer + TotalBytes, Cache + CachePos, BytesCopied);
+		TotalBytes += BytesCopied;
+		CachePos += BytesCopied;
+		CacheBytesRead = CachePos;
 	}
 
-	// DW: Changed on 12-27-2008.  Was causing the position to go too far if the
-	//     cache was smaller than the buffer.
-	//CacheBytesRead += TotalBytes;
-	CacheBytesRead = CachePos;
 	if (Size != 0)
 		TotalBytes /= Size;
 	if (TotalBytes != Number)
@@ -515,19 +517,19 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 
 ILuint ILAPIENTRY iReadLump(void *Buffer, const ILuint Size, const ILuint Number)
 {
-	ILuint i, ByteSize = IL_MIN( Size*Number, ReadLumpSize-ReadLumpPos);
+	ILuint i, ByteSize, Left;
+
+	if (ReadLumpSize == 0)  // The size is not known.
+		Left = UINT_MAX - ReadLumpPos;
+	else
+		Left = ReadLumpPos < ReadLumpSize ? ReadLumpSize - ReadLumpPos : 0;
+	if (Size != 0 && Number > Left / Size)
+		ByteSize = Left;
+	else
+		ByteSize = Size * Number;
 
-	for (i = 0; i < ByteSize; i++) {
+	for (i = 0; i < ByteSize; i++)
 		*((ILubyte*)Buffer + i) = *((ILubyte*)ReadLump + ReadLumpPos + i);
-		if (ReadLumpSize > 0) {  // ReadLumpSize is too large to care about apparently
-			if (ReadLumpPos + i > ReadLumpSize) {
-				ReadLumpPos += i;
-				if (i != Number)
-					ilSetError(IL_FILE_READ_ERROR);
-				return i;
-			}
-		}
-	}
 
 	ReadLumpPos += i;
 	if (Size != 0)
@@ -546,9 +548,7 @@ ILboolean iPreCache(ILuint Size)
 		return IL_TRUE;
 	}
 
-	if (Cache) {
-		ifree(Cache);
-	}
+	iDropCache();
 
 	if (Size == 0) {
 		Size = 1;
@@ -559,15 +559,12 @@ ILboolean iPreCache(ILuint Size)
 		return IL_FALSE;
 	}
 
-	UseCache = IL_FALSE;
 	CacheStartPos = itell();
+	CacheMax = Size;
 	CacheSize = iread(Cache, 1, Size);
 	if (CacheSize != Size)
 		ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
 
-	//2003-09-09: uncommented the following line to prevent
-	//an infinite loop in ilPreCache()
-	CacheSize = Size;
 	CachePos = 0;
 	UseCache = IL_TRUE;
 	CacheBytesRead = 0;
@@ -603,6 +600,8 @@ void iUnCache()
 
 ILint ILAPIENTRY iSeekRFile(ILint Offset, ILuint Mode)
 {
+	if (UseCache)  // The file itself is further than what has been given out.
+		iUnCache();
 	if (Mode == IL_SEEK_SET)
 		Offset += ReadFileStart;  // This allows us to use IL_SEEK_SET in the middle of a file.
 	return SeekRProc(FileRead, Offset, Mode);
@@ -615,7 +614,7 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)ReadLumpSize)
+			if (Offset < 0 || (ILuint)Offset > ReadLumpSize)
 				return 1;
 			ReadLumpPos = Offset;
 			break;
@@ -630,7 +629,7 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 			if (Offset > 0)
 				return 1;
 			// Should we use >= instead?
-			if (abs(Offset) > (ILint)ReadLumpSize)  // If ReadLumpSize == 0, too bad
+			if (0 - (ILuint)Offset > ReadLumpSize)  // If ReadLumpSize == 0, too bad
 				return 1;
 			ReadLumpPos = ReadLumpSize + Offset;
 			break;
@@ -645,7 +644,10 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 
 ILuint ILAPIENTRY iTellRFile(void)
 {
-	return TellRProc(FileRead);
+	// Positions are counted from where the file was when it was handed to us, as iseek does.
+	if (UseCache)
+		return CacheStartPos + CacheBytesRead;
+	return TellRProc(FileRead) - ReadFileStart;
 }
 
 
@@ -733,7 +735,7 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)WriteLumpSize)
+			if (Offset < 0 || (ILuint)Offset > WriteLumpSize)
 				return 1;
 			WriteLumpPos = Offset;
 			break;
@@ -748,7 +750,7 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 			if (Offset > 0)
 				return 1;
 			// Should we use >= instead?
-			if (abs(Offset) > (ILint)WriteLumpSize)  // If WriteLumpSize == 0, too bad
+			if (0 - (ILuint)Offset > WriteLumpSize)  // If WriteLumpSize == 0, too bad
 				return 1;
 			WriteLumpPos = WriteLumpSize + Offset;
 			break;
-- 
2.43.0


From 730e069fd9714cc90fff29316f706335645adfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 37/79] fix: damaged Targa files are refused instead of giving
 images with a wrong format, size or palette

---
 DevIL/src-IL/src/il_targa.cpp | 147 +++++++++++++++++-----------------
 1 file changed, 75 insertions(+), 72 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index f9a25e4..ee159d6 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -219,6 +219,9 @@ ILboolean iLoadTargaInternal()
 			return IL_FALSE;
 	}
 	
+	if (!bTarga)
+		return IL_FALSE;
+	
 	// @JASON Extra Code to manipulate the image depending on
 	// the Image Descriptor's origin bits.
 	iOrigin = Header.ImageDesc & IMAGEDESC_ORIGIN_MASK;
@@ -248,65 +251,90 @@ ILboolean iLoadTargaInternal()
 }
 
 
+// Skips the image ID and a colour map that is of no use.
+static ILboolean iSkipTgaInfo(TARGAHEAD *Header)
+{
+	char	ID[255];
+	ILubyte	Entry[4];
+	ILuint	i, EntSize = (Header->ColMapEntSize + 7) >> 3;
+
+	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
+		return IL_FALSE;
+	if (Header->ColMapPresent && EntSize > 0 && EntSize <= 4) {
+		for (i = 0; i < (ILushort)Header->ColMapLen; i++) {
+			if (iread(Entry, 1, EntSize) != EntSize)
+				return IL_FALSE;
+		}
+	}
+
+	return IL_TRUE;
+}
+
+
 ILboolean iReadColMapTga(TARGAHEAD *Header)
 {
 	char		ID[255];
-	ILuint		i;
+	ILuint		i, PalSize;
+	ILenum		PalType;
 	ILushort	Pixel;
+	ILubyte		*Palette;
 	
 	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
 		return IL_FALSE;
 	
-	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize)
-		ifree(iCurImage->Pal.Palette);
-	
-	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalSize = Header->ColMapLen * (Header->ColMapEntSize >> 3);
-	
 	switch (Header->ColMapEntSize)
 	{
+		case 15:
 		case 16:
-			iCurImage->Pal.PalType = IL_PAL_BGRA32;
-			iCurImage->Pal.PalSize = Header->ColMapLen * 4;
+		case 32:
+			PalType = IL_PAL_BGRA32;
+			PalSize = (ILushort)Header->ColMapLen * 4;
 			break;
 		case 24:
-			iCurImage->Pal.PalType = IL_PAL_BGR24;
-			break;
-		case 32:
-			iCurImage->Pal.PalType = IL_PAL_BGRA32;
+			PalType = IL_PAL_BGR24;
+			PalSize = (ILushort)Header->ColMapLen * 3;
 			break;
 		default:
-			// Should *never* reach here
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
+	// Only indexes of 8 bits into an existing palette are supported.
+	if (Header->Bpp != 8 || PalSize == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
+	if (!ilTexImage(Header->Width, Header->Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
+		return IL_FALSE;
+	}
 	
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
+	Palette = (ILubyte*)ialloc(PalSize);
+	if (Palette == NULL) {
 		return IL_FALSE;
 	}
+	iCurImage->Pal.Palette = Palette;
+	iCurImage->Pal.PalSize = PalSize;
+	iCurImage->Pal.PalType = PalType;
 	
 	// Do we need to do something with FirstEntry?	Like maybe:
 	//	iread(Image->Pal + Targa->FirstEntry, 1, Image->Pal.PalSize);  ??
-	if (Header->ColMapEntSize != 16)
+	if (Header->ColMapEntSize > 16)
 	{
-		if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
+		if (iread(Palette, 1, PalSize) != PalSize)
 			return IL_FALSE;
 	}
 	else {
 		// 16 bit palette, so we have to break it up.
-		for (i = 0; i < iCurImage->Pal.PalSize; i += 4)
+		for (i = 0; i < PalSize; i += 4)
 		{
-			Pixel = GetBigUShort();
-			if (ieof())
+			if (iread(&Pixel, 2, 1) != 1)
 				return IL_FALSE;
-			iCurImage->Pal.Palette[3] = (Pixel & 0x8000) >> 12;
-			iCurImage->Pal.Palette[0] = (Pixel & 0xFC00) >> 7;
-			iCurImage->Pal.Palette[1] = (Pixel & 0x03E0) >> 2;
-			iCurImage->Pal.Palette[2] = (Pixel & 0x001F) << 3;
+			UShort(&Pixel);
+			Palette[i]   = (Pixel & 0x001F) << 3;
+			Palette[i+1] = (Pixel & 0x03E0) >> 2;
+			Palette[i+2] = (Pixel & 0x7C00) >> 7;
+			// Without attribute bits, everything is opaque.
+			Palette[i+3] = (Header->ImageDesc & 0x0F) && !(Pixel & 0x8000) ? 0 : 255;
 		}
 	}
 	
@@ -331,60 +359,34 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 
 ILboolean iReadUnmapTga(TARGAHEAD *Header)
 {
-	ILubyte Bpp;
-	char	ID[255];
+	ILenum	Format;
+	ILubyte	Bpp = (ILubyte)(Header->Bpp >> 3);
 	
-	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
+	if (!iSkipTgaInfo(Header))
 		return IL_FALSE;
 	
-	/*if (Header->Bpp == 16)
-		Bpp = 3;
-	else*/
-	Bpp = (ILubyte)(Header->Bpp >> 3);
-	
-	if (!ilTexImage(Header->Width, Header->Height, 1, Bpp, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}
-	
-	switch (iCurImage->Bpp)
+	switch (Bpp)
 	{
 		case 1:
-			iCurImage->Format = IL_COLOUR_INDEX;  // wtf?  How is this possible?
+			Format = IL_LUMINANCE;  // There is no palette.
 			break;
-		case 2:  // 16-bit is not supported directly!
-				 //iCurImage->Format = IL_RGB5_A1;
-			/*iCurImage->Format = IL_RGBA;
-			iCurImage->Type = IL_UNSIGNED_SHORT_5_5_5_1_EXT;*/
-			//iCurImage->Type = IL_UNSIGNED_SHORT_5_6_5_REV;
-			
-			// Remove?
-			//ilCloseImage(iCurImage);
-			//ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			//return IL_FALSE;
-			
-			/*iCurImage->Bpp = 4;
-			iCurImage->Format = IL_BGRA;
-			iCurImage->Type = IL_UNSIGNED_SHORT_1_5_5_5_REV;*/
-			
-			iCurImage->Format = IL_BGR;
-			
+		case 2:  // 16-bit is not supported directly: it is read as pairs of bytes and expanded to 24-bit below.
+			Format = IL_LUMINANCE_ALPHA;
 			break;
 		case 3:
-			iCurImage->Format = IL_BGR;
+			Format = IL_BGR;
 			break;
 		case 4:
-			iCurImage->Format = IL_BGRA;
+			Format = IL_BGRA;
 			break;
 		default:
 			ilSetError(IL_INVALID_VALUE);
 			return IL_FALSE;
 	}
 	
-	
-	// @TODO:  Determine this:
-	// We assume that no palette is present, but it's possible...
-	//	Should we mess with it or not?
-	
+	if (!ilTexImage(Header->Width, Header->Height, 1, Bpp, Format, IL_UNSIGNED_BYTE, NULL)) {
+		return IL_FALSE;
+	}
 	
 	if (Header->ImageType == TGA_UNMAP_COMP) {
 		if (!iUncompressTgaData(iCurImage)) {
@@ -410,15 +412,16 @@ ILboolean iReadUnmapTga(TARGAHEAD *Header)
 
 ILboolean iReadBwTga(TARGAHEAD *Header)
 {
-	char ID[255];
-	
-	if (iread(ID, 1, Header->IDLen) != Header->IDLen)
+	if (!iSkipTgaInfo(Header))
 		return IL_FALSE;
 	
-	// We assume that no palette is present, but it's possible...
-	//	Should we mess with it or not?
+	// Grey values, perhaps with alpha
+	if (Header->Bpp != 8 && Header->Bpp != 16) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 	
-	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), Header->Bpp == 8 ? IL_LUMINANCE : IL_LUMINANCE_ALPHA, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	
-- 
2.43.0


From a5a0700544ba8b16cbfb4f035865559d8878fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 38/79] fix: damaged BMP files are refused instead of giving
 undefined pixels or palettes

---
 DevIL/src-IL/src/il_bmp.cpp | 205 ++++++++++++++----------------------
 1 file changed, 81 insertions(+), 124 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 0ba5ef0..5ef1621 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -15,6 +15,7 @@
 #include "il_internal.h"
 #ifndef IL_NO_BMP
 #include "il_bmp.h"
+#include <limits.h>
 #include "il_endian.h"
 #include <stdio.h>
 void GetShiftFromMask(const ILuint Mask, ILuint * CONST_RESTRICT ShiftLeft, ILuint * CONST_RESTRICT ShiftRight);
@@ -119,13 +120,12 @@ ILboolean iIsValidBmp()
 	ILboolean	IsValid;
 
 	iGetBmpHead(&Head);
-	iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);  // Go ahead and restore to previous state
+	iseek(0, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	IsValid = iCheckBmp(&Head);
 	if (!IsValid) {
-		iGetOS2Head(&Os2Head);
-		iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);
-		IsValid = iCheckOS2(&Os2Head);
+		IsValid = iGetOS2Head(&Os2Head) && iCheckOS2(&Os2Head);
+		iseek(0, IL_SEEK_SET);
 	}
 	return IsValid;
 }
@@ -137,7 +137,9 @@ ILboolean iCheckBmp (const BMPHEAD * CONST_RESTRICT Header)
 	//if ((Header->bfType != ('B'|('M'<<8))) || ((Header->biSize != 0x28) && (Header->biSize != 0x0C)))
 	if ((Header->bfType != ('B'|('M'<<8))) || (Header->biSize != 0x28))
 		return IL_FALSE;
-	if (Header->biHeight == 0 || Header->biWidth < 1)
+	if (Header->biHeight == 0 || Header->biHeight == INT_MIN || Header->biWidth < 1)
+		return IL_FALSE;
+	if (Header->biBitCount <= 8 && (Header->biClrUsed < 0 || Header->biClrUsed > 256))
 		return IL_FALSE;
 	if (Header->biPlanes > 1)  // Not sure...
 		return IL_FALSE;
@@ -224,9 +226,8 @@ ILboolean iLoadBitmapInternal()
 
 	iGetBmpHead(&Header);
 	if (!iCheckBmp(&Header)) {
-		iseek(-(ILint)sizeof(BMPHEAD), IL_SEEK_CUR);
-		iGetOS2Head(&Os2Head);
-		if (!iCheckOS2(&Os2Head)) {
+		iseek(0, IL_SEEK_SET);
+		if (!iGetOS2Head(&Os2Head) || !iCheckOS2(&Os2Head)) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
@@ -260,10 +261,40 @@ ILboolean iLoadBitmapInternal()
 			return IL_FALSE;
 	}
 
-	if (!ilFixImage())
+	if (!bBitmap)
 		return IL_FALSE;
 
-	return bBitmap;
+	return ilFixImage();
+}
+
+
+// Gives the current image a palette of NumCols colours, of which the file has the first NumRead,
+//	and goes to the pixels.
+static ILboolean iReadBmpPal(BMPHEAD *Header, ILuint NumCols, ILuint NumRead)
+{
+	ILubyte	*Palette;
+
+	if (NumCols > 0) {
+		Palette = (ILubyte*)icalloc(NumCols, 4);
+		if (Palette == NULL)
+			return IL_FALSE;
+		iCurImage->Pal.Palette = Palette;
+		iCurImage->Pal.PalSize = NumCols * 4;
+		iCurImage->Pal.PalType = IL_PAL_BGR32;
+
+		iseek(sizeof(BMPHEAD), IL_SEEK_SET);
+		NumRead = IL_MIN(NumRead, NumCols);
+		if (iread(Palette, 4, NumRead) != NumRead)
+			return IL_FALSE;
+	}
+
+	// Seek to the data from the "beginning" of the file
+	if (iseek(Header->bfDataOff, IL_SEEK_SET) != 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
+	return IL_TRUE;
 }
 
 
@@ -287,77 +318,34 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 		Bpp = 3;
 
 	// Update the current image with the new dimensions
-	if (!ilTexImage(Header->biWidth, abs(Header->biHeight), 1, Bpp, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Header->biWidth, abs(Header->biHeight), 1, Bpp, Bpp == 1 ? IL_COLOUR_INDEX : IL_BGR, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
-	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
+	// If the image height is negative, then the image is flipped
+	//	(Normal is IL_ORIGIN_LOWER_LEFT)
+	iCurImage->Origin = Header->biHeight < 0 ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
+
+	// Read the palette
 	switch (Header->biBitCount)
 	{
 		case 1:
-			//iCurImage->Format = IL_LUMINANCE;
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Pal.PalType = IL_PAL_BGR32;
-			iCurImage->Pal.PalSize = 2 * 4;
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (iCurImage->Pal.Palette == NULL) {
-				return IL_FALSE;
-			}
+			Read = 2;
 			break;
-
 		case 4:
+			Read = 16;
+			break;
 		case 8:
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Pal.PalType = IL_PAL_BGR32;
-			
 			// if there are 256 colors biClrUsed is 0
-			iCurImage->Pal.PalSize = Header->biClrUsed ? 
-					Header->biClrUsed * 4 : 256 * 4;
-			
-			if (Header->biBitCount == 4)  // biClrUsed is 0 for 4-bit bitmaps
-				iCurImage->Pal.PalSize = 16 * 4;
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (iCurImage->Pal.Palette == NULL) {
-				return IL_FALSE;
-			}
+			Read = Header->biClrUsed ? Header->biClrUsed : 256;
 			break;
-
-		case 16:
-		case 24:
-		case 32:
-			iCurImage->Format = IL_BGR;
-			break;
-
 		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			return IL_FALSE;
-	}
-
-	// A height of 0 is illegal
-	if (Header->biHeight == 0) {
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		if (iCurImage->Pal.Palette)
-			ifree(iCurImage->Pal.Palette);
-		return IL_FALSE;
-	}
-
-	// If the image height is negative, then the image is flipped
-	//	(Normal is IL_ORIGIN_LOWER_LEFT)
-	if (Header->biHeight < 0) {
-		iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	}
-	else {
-		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
+			Read = 0;
+			break;
 	}
-
-	// Read the palette
-	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
-	if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
+	if (!iReadBmpPal(Header, Read, Header->biClrUsed ? Header->biClrUsed : Read))
 		return IL_FALSE;
 
-	// Seek to the data from the "beginning" of the file
-	iseek(Header->bfDataOff, IL_SEEK_SET);
-
 	// We have to handle 1 and 4-bit images separately, because we have to expand them.
 	switch (Header->biBitCount)
 	{
@@ -433,9 +421,8 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 			if (Header->biCompression == 3) //bitfields
 			{
 				iseek(Header->bfDataOff - 12, IL_SEEK_SET); //seek to bitfield data
-				iread(&rMask, 4, 1);
-				iread(&gMask, 4, 1);
-				iread(&bMask, 4, 1);
+				if (iread(&rMask, 4, 1) != 1 || iread(&gMask, 4, 1) != 1 || iread(&bMask, 4, 1) != 1)
+					return IL_FALSE;
 				UInt(&rMask);
 				UInt(&gMask);
 				UInt(&bMask);
@@ -509,9 +496,8 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 			if (Header->biCompression == 3) //bitfields
 			{
 				iseek(Header->bfDataOff - 12, IL_SEEK_SET); //seek to bitfield data
-				iread(&rMask, 4, 1);
-				iread(&gMask, 4, 1);
-				iread(&bMask, 4, 1);
+				if (iread(&rMask, 4, 1) != 1 || iread(&gMask, 4, 1) != 1 || iread(&bMask, 4, 1) != 1)
+					return IL_FALSE;
 				UInt(&rMask);
 				UInt(&gMask);
 				UInt(&bMask);
@@ -555,36 +541,17 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 	size_t	offset = 0, count, endOfLine = Header->biWidth;
 
 	// Update the current image with the new dimensions
-	if (!ilTexImage(Header->biWidth, abs(Header->biHeight), 1, 1, 0, IL_UNSIGNED_BYTE, NULL))
-		return IL_FALSE;
-
-	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
-
-	// A height of 0 is illegal
-	if (Header->biHeight == 0)
-		return IL_FALSE;
-
-	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalType = IL_PAL_BGR32;
-	iCurImage->Pal.PalSize = Header->biClrUsed * 4;  // 256 * 4 for most images
-	if (iCurImage->Pal.PalSize == 0)
-		iCurImage->Pal.PalSize = 256 * 4;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
+	if (!ilTexImage(Header->biWidth, abs(Header->biHeight), 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
+	imemclear(iCurImage->Data, iCurImage->SizeOfData);  // Pixels can be left out.
 
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
 	iCurImage->Origin = Header->biHeight < 0 ?
 		 IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
-	
-	// Read the palette
-	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1)
-		return IL_FALSE;
 
-	// Seek to the data from the "beginning" of the file
-	iseek(Header->bfDataOff, IL_SEEK_SET);
+	if (!iReadBmpPal(Header, Header->biClrUsed ? Header->biClrUsed : 256, Header->biClrUsed ? Header->biClrUsed : 256))
+		return IL_FALSE;
 
     while (offset < iCurImage->SizeOfData) {
 		if (iread(Bytes, sizeof(Bytes), 1) != 1)
@@ -610,7 +577,7 @@ ILboolean ilReadRLE8Bmp(BMPHEAD *Header)
 					if (iread(iCurImage->Data + offset, (ILuint)count, 1) != 1)
 						return IL_FALSE;
 					offset += count;
-					if ((count & 1) == 1)  // Must be on a word boundary
+					if ((Bytes[1] & 1) == 1 && offset < iCurImage->SizeOfData)  // Must be on a word boundary
 						if (iread(Bytes, 1, 1) != 1)
 							return IL_FALSE;
 					break;
@@ -635,37 +602,18 @@ ILboolean ilReadRLE4Bmp(BMPHEAD *Header)
     size_t	offset = 0, count, endOfLine = Header->biWidth;
 
 	// Update the current image with the new dimensions
-	if (!ilTexImage(Header->biWidth, abs(Header->biHeight), 1, 1, 0, IL_UNSIGNED_BYTE, NULL))
-		return IL_FALSE;
-	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
-
-	// A height of 0 is illegal
-	if (Header->biHeight == 0) {
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return IL_FALSE;
-	}
-
-	iCurImage->Format = IL_COLOUR_INDEX;
-	iCurImage->Pal.PalType = IL_PAL_BGR32;
-	iCurImage->Pal.PalSize = 16 * 4; //Header->biClrUsed * 4;  // 16 * 4 for most images
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL)
+	if (!ilTexImage(Header->biWidth, abs(Header->biHeight), 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
+	imemclear(iCurImage->Data, iCurImage->SizeOfData);  // Pixels can be left out.
 
 	// If the image height is negative, then the image is flipped
 	//	(Normal is IL_ORIGIN_LOWER_LEFT)
 	iCurImage->Origin = Header->biHeight < 0 ?
 		 IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
 
-	// Read the palette
-	iseek(sizeof(BMPHEAD), IL_SEEK_SET);
-
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1)
+	if (!iReadBmpPal(Header, 16, Header->biClrUsed ? Header->biClrUsed : 16))
 		return IL_FALSE;
 
-	// Seek to the data from the "beginning" of the file
-	iseek(Header->bfDataOff, IL_SEEK_SET);
-
 	while (offset < iCurImage->SizeOfData) {
       int align;
 		if (iread(&Bytes[0], sizeof(Bytes), 1) != 1)
@@ -745,7 +693,10 @@ ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 			return IL_FALSE;
 
 		PadSize = ((32 - (iCurImage->Width % 32)) / 8) % 4;  // Has to truncate.
-		iseek(Header->DataOff, IL_SEEK_SET);
+		if (iseek(Header->DataOff, IL_SEEK_SET) != 0) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < iCurImage->Height; j++) {
 			Read = 0;
@@ -784,7 +735,10 @@ ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 			return IL_FALSE;
 
 		PadSize = ((8 - (iCurImage->Width % 8)) / 2) % 4;  // Has to truncate
-		iseek(Header->DataOff, IL_SEEK_SET);
+		if (iseek(Header->DataOff, IL_SEEK_SET) != 0) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < iCurImage->Height; j++) {
 			for (i = 0; i < iCurImage->Width; i++) {
@@ -822,7 +776,10 @@ ILboolean iGetOS2Bmp(OS2_HEAD *Header)
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-	iseek(Header->DataOff, IL_SEEK_SET);
+	if (iseek(Header->DataOff, IL_SEEK_SET) != 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 
 	PadSize = (4 - (iCurImage->Bps % 4)) % 4;
 	if (PadSize == 0) {
@@ -947,7 +904,7 @@ ILboolean iSaveBitmapInternal()
 	//BITMAPINFOHEADER, so that the written header refers to
 	//TempImage instead of the original image
 	
-	// @TODO LUMINANCE converted to BGR insteaf of beign saved to luminance
+	// 	TODO LUMINANCE converted to BGR insteaf of beign saved to luminance
 	if (iCurImage->Format != IL_BGR && iCurImage->Format != IL_BGRA && iCurImage->Format != IL_COLOUR_INDEX) {
 		if (iCurImage->Format == IL_RGBA) {
 			TempImage = iConvertImage(iCurImage, IL_BGRA, IL_UNSIGNED_BYTE);
@@ -978,7 +935,7 @@ ILboolean iSaveBitmapInternal()
 	SaveLittleUInt(iCurImage->Width);
 
 	// Removed because some image viewers don't like the negative height.
-	// even if it is standard. @TODO should be enabled or disabled
+	// even if it is standard. 	TODO should be enabled or disabled
 	// usually enabled.
 	/*if (iCurImage->Origin == IL_ORIGIN_UPPER_LEFT)
 		SaveLittleInt(-(ILint)iCurImage->Height);
@@ -1007,7 +964,7 @@ ILboolean iSaveBitmapInternal()
 
 	
 	if( compress_rle8 == IL_TRUE ) {
-		//@TODO compress and save
+		//	TODO compress and save
 		ILubyte *Dest = (ILubyte*)ialloc((long)((double)TempImage->SizeOfPlane*130/127));
 		FileSize = ilRleCompress(TempImage->Data,TempImage->Width,TempImage->Height,
 						TempImage->Depth,TempImage->Bpp,Dest,IL_BMPCOMP,NULL);
-- 
2.43.0


From 68ffa3d5bf95194c16e2edd8dec33ebfee1710dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 39/79] fix: damaged PCX, DCX and CUT files are refused; DCX
 pages are read by the PCX loader; PCX saving writes consistent files

---
 DevIL/src-IL/include/il_dcx.h |  28 ---
 DevIL/src-IL/include/il_pcx.h |   1 +
 DevIL/src-IL/src/il_cut.cpp   |  33 ++-
 DevIL/src-IL/src/il_dcx.cpp   | 377 +++-------------------------------
 DevIL/src-IL/src/il_pcx.cpp   | 104 +++++-----
 5 files changed, 113 insertions(+), 430 deletions(-)

diff --git a/DevIL/src-IL/include/il_dcx.h b/DevIL/src-IL/include/il_dcx.h
index c8522b7..f6926b1 100644
--- a/DevIL/src-IL/include/il_dcx.h
+++ b/DevIL/src-IL/include/il_dcx.h
@@ -17,36 +17,8 @@
 #include "il_internal.h"
 
 
-#ifdef _WIN32
-#pragma pack(push, packed_struct, 1)
-#endif
-typedef struct DCXHEAD
-{
-	ILubyte		Manufacturer;
-	ILubyte		Version;
-	ILubyte		Encoding;
-	ILubyte		Bpp;
-	ILushort	Xmin, Ymin, Xmax, Ymax;
-	ILushort	HDpi;
-	ILushort	VDpi;
-	ILubyte		ColMap[48];
-	ILubyte		Reserved;
-	ILubyte		NumPlanes;
-	ILushort	Bps;
-	ILushort	PaletteInfo;
-	ILushort	HScreenSize;
-	ILushort	VScreenSize;
-	ILubyte		Filler[54];
-} IL_PACKSTRUCT DCXHEAD;
-#ifdef _WIN32
-#pragma pack(pop, packed_struct)
-#endif
-
 // For checking and reading
 ILboolean iIsValidDcx(void);
-ILboolean iCheckDcx(DCXHEAD *Header);
 ILboolean iLoadDcxInternal(void);
-ILimage*  iUncompressDcx(DCXHEAD *Header);
-ILimage*  iUncompressDcxSmall(DCXHEAD *Header);
 
 #endif//PCX_H
diff --git a/DevIL/src-IL/include/il_pcx.h b/DevIL/src-IL/include/il_pcx.h
index 3b161c3..768824d 100644
--- a/DevIL/src-IL/include/il_pcx.h
+++ b/DevIL/src-IL/include/il_pcx.h
@@ -44,6 +44,7 @@ typedef struct PCXHEAD
 
 // For checking and reading
 ILboolean iIsValidPcx(void);
+ILboolean iGetPcxHead(PCXHEAD *Head);
 ILboolean iCheckPcx(PCXHEAD *Header);
 ILboolean iLoadPcxInternal(void);
 ILboolean iSavePcxInternal(void);
diff --git a/DevIL/src-IL/src/il_cut.cpp b/DevIL/src-IL/src/il_cut.cpp
index b5e9e91..80b07f1 100644
--- a/DevIL/src-IL/src/il_cut.cpp
+++ b/DevIL/src-IL/src/il_cut.cpp
@@ -82,7 +82,7 @@ ILboolean iLoadCutInternal()
 {
 	CUT_HEAD	Header;
 	ILuint		Size, i = 0, j;
-	ILubyte		Count, Run;
+	ILint		Count, Run;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -93,7 +93,7 @@ ILboolean iLoadCutInternal()
 	Header.Height = GetLittleShort();
 	Header.Dummy = GetLittleInt();
 
-	if (Header.Width == 0 || Header.Height == 0) {
+	if (Header.Width <= 0 || Header.Height <= 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -103,10 +103,22 @@ ILboolean iLoadCutInternal()
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
+	// The real palette is in a file of its own, so start with shades of grey.
+	iCurImage->Pal.Palette = (ILubyte*)ialloc(256 * 3);
+	if (iCurImage->Pal.Palette == NULL)
+		return IL_FALSE;
+	iCurImage->Pal.PalSize = 256 * 3;
+	iCurImage->Pal.PalType = IL_PAL_RGB24;
+	for (i = 0; i < 256 * 3; i++)
+		iCurImage->Pal.Palette[i] = (ILubyte)(i / 3);
+
 	Size = Header.Width * Header.Height;
+	i = 0;
 
 	while (i < Size) {
 		Count = igetc();
+		if (Count == IL_EOF)
+			return IL_FALSE;
 		if (Count == 0) { // end of row
 			igetc();  // Not supposed to be here, but
 			igetc();  //  PSP is putting these two bytes here...WHY?!
@@ -115,23 +127,24 @@ ILboolean iLoadCutInternal()
 		if (Count & BIT_7) {  // rle-compressed
 			ClearBits(Count, BIT_7);
 			Run = igetc();
-			for (j = 0; j < Count; j++) {
-				iCurImage->Data[i++] = Run;
+			if (Run == IL_EOF)
+				return IL_FALSE;
+			for (j = 0; j < (ILuint)Count && i < Size; j++) {
+				iCurImage->Data[i++] = (ILubyte)Run;
 			}
 		}
 		else {  // run of pixels
-			for (j = 0; j < Count; j++) {
-				iCurImage->Data[i++] = igetc();
+			for (j = 0; j < (ILuint)Count && i < Size; j++) {
+				Run = igetc();
+				if (Run == IL_EOF)
+					return IL_FALSE;
+				iCurImage->Data[i++] = (ILubyte)Run;
 			}
 		}
 	}
 
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;  // Not sure
 
-	/*iCurImage->Pal.Palette = SharedPal.Palette;
-	iCurImage->Pal.PalSize = SharedPal.PalSize;
-	iCurImage->Pal.PalType = SharedPal.PalType;*/
-
 	return ilFixImage();
 }
 
diff --git a/DevIL/src-IL/src/il_dcx.cpp b/DevIL/src-IL/src/il_dcx.cpp
index efe1314..8a61063 100644
--- a/DevIL/src-IL/src/il_dcx.cpp
+++ b/DevIL/src-IL/src/il_dcx.cpp
@@ -13,6 +13,7 @@
 
 #include "il_internal.h"
 #ifndef IL_NO_DCX
+#include "il_pcx.h"
 #include "il_dcx.h"
 
 
@@ -63,70 +64,17 @@ ILboolean ilIsValidDcxL(const void *Lump, ILuint Size)
 }
 
 
-// Internal function obtain the .dcx header from the current file.
-ILboolean iGetDcxHead(DCXHEAD *Head)
-{
-	Head->Xmin = GetLittleUShort();
-	Head->Ymin = GetLittleUShort();
-	Head->Xmax = GetLittleUShort();
-	Head->Ymax = GetLittleUShort();
-	Head->HDpi = GetLittleUShort();
-	Head->VDpi = GetLittleUShort();
-	Head->Bps = GetLittleUShort();
-	Head->PaletteInfo = GetLittleUShort();
-	Head->HScreenSize = GetLittleUShort();
-	Head->VScreenSize = GetLittleUShort();
-
-	return IL_TRUE;
-}
-
-
 // Internal function to get the header and check it.
 ILboolean iIsValidDcx()
 {
-	ILuint Signature;
+	ILuint	FirstPos = itell(), Signature = GetLittleUInt();
 
-	if (iread(&Signature, 1, 4) != 4)
-		return IL_FALSE;
-	iseek(-4, IL_SEEK_CUR);
+	iseek(FirstPos, IL_SEEK_SET);
 
 	return (Signature == 987654321);
 }
 
 
-// Internal function used to check if the HEADER is a valid .dcx header.
-// Should we also do a check on Header->Bpp?
-ILboolean iCheckDcx(DCXHEAD *Header)
-{
-	ILuint	Test, i;
-
-	// There are other versions, but I am not supporting them as of yet.
-	//	Got rid of the Reserved check, because I've seen some .dcx files with invalid values in it.
-	if (Header->Manufacturer != 10 || Header->Version != 5 || Header->Encoding != 1/* || Header->Reserved != 0*/)
-		return IL_FALSE;
-
-	// See if the padding size is correct
-	Test = Header->Xmax - Header->Xmin + 1;
-	/*if (Header->Bpp >= 8) {
-		if (Test & 1) {
-			if (Header->Bps != Test + 1)
-				return IL_FALSE;
-		}
-		else {
-			if (Header->Bps != Test)  // No padding
-				return IL_FALSE;
-		}
-	}*/
-
-	for (i = 0; i < 54; i++) {
-		if (Header->Filler[i] != 0)
-			return IL_FALSE;
-	}
-
-	return IL_TRUE;
-}
-
-
 //! Reads a .dcx file
 ILboolean ilLoadDcx(ILconst_string FileName)
 {
@@ -171,315 +119,58 @@ ILboolean ilLoadDcxL(const void *Lump, ILuint Size) {
 // Internal function used to load the .dcx.
 ILboolean iLoadDcxInternal()
 {
-	DCXHEAD	Header;
-	ILuint	Signature, i, Entries[1024], Num = 0;
-	ILimage	*Image, *Base;
+	PCXHEAD	Header;
+	ILuint	i, Entries[1024], Num;
+	ILimage	*Base = iCurImage, *Image;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (!iIsValidDcx())
+	if (!iIsValidDcx()) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
-	iread(&Signature, 1, 4);
+	}
+	GetLittleUInt();  // Skip the signature.
 
-	do {
+	// The list of at most 1023 pages ends with a 0.
+	for (Num = 0; Num < 1024; Num++) {
 		if (iread(&Entries[Num], 1, 4) != 4)
 			return IL_FALSE;
-		Num++;
-	} while (Entries[Num-1] != 0);
-
-	for (i = 0; i < Num; i++) {
-		iseek(Entries[i], IL_SEEK_SET);
-		iGetDcxHead(&Header);
-		/*if (!iCheckDcx(&Header)) {
-			ilSetError(IL_INVALID_FILE_HEADER);
-			return IL_FALSE;
-		}*/
-
-		Image = iUncompressDcx(&Header);
-		if (Image == NULL)
-			return IL_FALSE;
-
-		if (i == 0) {
-			ilTexImage(Image->Width, Image->Height, 1, Image->Bpp, Image->Format, Image->Type, Image->Data);
-			Base = iCurImage;
-			Base->Origin = IL_ORIGIN_UPPER_LEFT;
-			ilCloseImage(Image);
-		}
-		else {
-			iCurImage->Next = Image;
-			iCurImage = iCurImage->Next;
-		}
-	}
-
-	return ilFixImage();
-}
-
-
-// Internal function to uncompress the .dcx (all .dcx files are rle compressed)
-ILimage *iUncompressDcx(DCXHEAD *Header)
-{
-	ILubyte		ByteHead, Colour, *ScanLine = NULL /* Only one plane */;
-	ILuint		c, i, x, y;//, Read = 0;
-	ILimage		*Image = NULL;
-
-	if (Header->Bpp < 8) {
-		/*ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;*/
-		return iUncompressDcxSmall(Header);
-	}
-
-	Image = ilNewImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 1);
-	if (Image == NULL)
-		return NULL;
-	/*if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
-	}*/
-	Image->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	ScanLine = (ILubyte*)ialloc(Header->Bps);
-	if (ScanLine == NULL)
-		goto dcx_error;
-
-	switch (Image->Bpp)
-	{
-		case 1:
-			Image->Format = IL_COLOUR_INDEX;
-			Image->Pal.PalType = IL_PAL_RGB24;
-			Image->Pal.PalSize = 256 * 3; // Need to find out for sure...
-			Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
-			if (Image->Pal.Palette == NULL)
-				goto dcx_error;
-			break;
-		//case 2:  // No 16-bit images in the dcx format!
-		case 3:
-			Image->Format = IL_RGB;
-			Image->Pal.Palette = NULL;
-			Image->Pal.PalSize = 0;
-			Image->Pal.PalType = IL_PAL_NONE;
-			break;
-		case 4:
-			Image->Format = IL_RGBA;
-			Image->Pal.Palette = NULL;
-			Image->Pal.PalSize = 0;
-			Image->Pal.PalType = IL_PAL_NONE;
+		UInt(&Entries[Num]);
+		if (Entries[Num] == 0)
 			break;
-
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			goto dcx_error;
-	}
-
-
-		/*StartPos = itell();
-		Compressed = (ILubyte*)ialloc(Image->SizeOfData * 4 / 3);
-		iread(Compressed, 1, Image->SizeOfData * 4 / 3);
-
-		for (y = 0; y < Image->Height; y++) {
-			for (c = 0; c < Image->Bpp; c++) {
-				x = 0;
-				while (x < Header->Bps) {
-					ByteHead = Compressed[Read++];
-					if ((ByteHead & 0xC0) == 0xC0) {
-						ByteHead &= 0x3F;
-						Colour = Compressed[Read++];
-						for (i = 0; i < ByteHead; i++) {
-							ScanLine[x++] = Colour;
-						}
-					}
-					else {
-						ScanLine[x++] = ByteHead;
-					}
-				}
-
-				for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes ;)
-					Image->Data[y * Image->Bps + x * Image->Bpp + c] = ScanLine[x];
-				}
-			}
-		}
-
-		ifree(Compressed);
-		iseek(StartPos + Read, IL_SEEK_SET);*/
-
-	//changed 2003-09-01
-	if (iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
-		iPreCache(iCurImage->SizeOfData);
-
-	//TODO: because the .pcx-code was broken this
-	//code is probably broken, too
-	for (y = 0; y < Image->Height; y++) {
-		for (c = 0; c < Image->Bpp; c++) {
-			x = 0;
-			while (x < Header->Bps) {
-				if (iread(&ByteHead, 1, 1) != 1) {
-					iUnCache();
-					goto dcx_error;
-				}
-				if ((ByteHead & 0xC0) == 0xC0) {
-					ByteHead &= 0x3F;
-					if (iread(&Colour, 1, 1) != 1) {
-						iUnCache();
-						goto dcx_error;
-					}
-					for (i = 0; i < ByteHead; i++) {
-						ScanLine[x++] = Colour;
-					}
-				}
-				else {
-					ScanLine[x++] = ByteHead;
-				}
-			}
-
-			for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes ;)
-				Image->Data[y * Image->Bps + x * Image->Bpp + c] = ScanLine[x];
-			}
-		}
-	}
-
-	iUnCache();
-
-
-	ifree(ScanLine);
-
-	// Read in the palette
-	if (Image->Bpp == 1) {
-		ByteHead = igetc();	// the value 12, because it signals there's a palette for some reason...
-							//	We should do a check to make certain it's 12...
-		if (ByteHead != 12)
-			iseek(-1, IL_SEEK_CUR);
-		if (iread(Image->Pal.Palette, 1, Image->Pal.PalSize) != Image->Pal.PalSize) {
-			ilCloseImage(Image);
-			return NULL;
-		}
 	}
-
-	return Image;
-
-dcx_error:
-	ifree(ScanLine);
-	ilCloseImage(Image);
-	return NULL;
-}
-
-
-ILimage *iUncompressDcxSmall(DCXHEAD *Header)
-{
-	ILuint	i = 0, j, k, c, d, x, y, Bps;
-	ILubyte	HeadByte, Colour, Data = 0, *ScanLine = NULL;
-	ILimage	*Image;
-
-	Image = ilNewImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 1);
-	if (Image == NULL)
-		return NULL;
-
-	/*if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (Num == 0 || Num == 1024) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
-	}*/
-	Image->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	switch (Header->NumPlanes)
-	{
-		case 1:
-			Image->Format = IL_LUMINANCE;
-			break;
-		case 4:
-			Image->Format = IL_COLOUR_INDEX;
-			break;
-		default:
-			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			ilCloseImage(Image);
-			return NULL;
 	}
 
-	if (Header->NumPlanes == 1) {
-		for (j = 0; j < Image->Height; j++) {
-			i = 0;
-			while (i < Image->Width) {
-				if (iread(&HeadByte, 1, 1) != 1)
-					goto file_read_error;
-				if (HeadByte >= 192) {
-					HeadByte -= 192;
-					if (iread(&Data, 1, 1) != 1)
-						goto file_read_error;
-
-					for (c = 0; c < HeadByte; c++) {
-						k = 128;
-						for (d = 0; d < 8 && i < Image->Width; d++) {
-							Image->Data[j * Image->Width + i++] = (!!(Data & k) == 1 ? 255 : 0);
-							k >>= 1;
-						}
-					}
-				}
-				else {
-					k = 128;
-					for (c = 0; c < 8 && i < Image->Width; c++) {
-						Image->Data[j * Image->Width + i++] = (!!(HeadByte & k) == 1 ? 255 : 0);
-						k >>= 1;
-					}
-				}
-			}
-			if (Data != 0)
-				igetc();  // Skip pad byte if last byte not a 0
-		}
-	}
-	else {   // 4-bit images
-		Bps = Header->Bps * Header->NumPlanes * 2;
-		Image->Pal.Palette = (ILubyte*)ialloc(16 * 3);  // Size of palette always (48 bytes).
-		Image->Pal.PalSize = 16 * 3;
-		Image->Pal.PalType = IL_PAL_RGB24;
-		ScanLine = (ILubyte*)ialloc(Bps);
-		if (Image->Pal.Palette == NULL || ScanLine == NULL) {
-			ifree(ScanLine);
-			ilCloseImage(Image);
-			return NULL;
+	// Every page is a complete .pcx file.
+	for (i = 0; i < Num; i++) {
+		if (iseek(Entries[i], IL_SEEK_SET) != 0 || !iGetPcxHead(&Header) || !iCheckPcx(&Header)) {
+			ilSetError(IL_INVALID_FILE_HEADER);
+			goto dcx_error;
 		}
 
-		memcpy(Image->Pal.Palette, Header->ColMap, 16 * 3);
-		imemclear(Image->Data, Image->SizeOfData);  // Since we do a += later.
-
-		for (y = 0; y < Image->Height; y++) {
-			for (c = 0; c < Header->NumPlanes; c++) {
-				x = 0;
-				while (x < Bps) {
-					if (iread(&HeadByte, 1, 1) != 1)
-						goto file_read_error;
-					if ((HeadByte & 0xC0) == 0xC0) {
-						HeadByte &= 0x3F;
-						if (iread(&Colour, 1, 1) != 1)
-							goto file_read_error;
-						for (i = 0; i < HeadByte; i++) {
-							k = 128;
-							for (j = 0; j < 8; j++) {
-								ScanLine[x++] = !!(Colour & k);
-								k >>= 1;
-							}
-						}
-					}
-					else {
-						k = 128;
-						for (j = 0; j < 8; j++) {
-							ScanLine[x++] = !!(HeadByte & k);
-							k >>= 1;
-						}
-					}
-				}
-
-				for (x = 0; x < Image->Width; x++) {  // 'Cleverly' ignores the pad bytes. ;)
-					Image->Data[y * Image->Width + x] += ScanLine[x] << c;
-				}
-			}
+		if (i > 0) {
+			Image = ilNewImage(1, 1, 1, 1, 1);
+			if (Image == NULL)
+				goto dcx_error;
+			iCurImage->Next = Image;
+			iCurImage = Image;
 		}
-		ifree(ScanLine);
+		if (!iUncompressPcx(&Header))
+			goto dcx_error;
 	}
 
-	return Image;
+	iCurImage = Base;
+	return ilFixImage();
 
-file_read_error:
-	ifree(ScanLine);
-	ilCloseImage(Image);
-	return NULL;
+dcx_error:
+	iCurImage = Base;
+	return IL_FALSE;
 }
 
 #endif//IL_NO_DCX
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 1ab0210..848fbda 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -66,6 +66,7 @@ ILboolean ilIsValidPcxL(const void *Lump, ILuint Size)
 // Internal function obtain the .pcx header from the current file.
 ILboolean iGetPcxHead(PCXHEAD *Head)
 {
+	memset(Head, 0, sizeof(PCXHEAD));
 	Head->Manufacturer = igetc();
 	Head->Version = igetc();
 	Head->Encoding = igetc();
@@ -76,14 +77,16 @@ ILboolean iGetPcxHead(PCXHEAD *Head)
 	Head->Ymax = GetLittleUShort();
 	Head->HDpi = GetLittleUShort();
 	Head->VDpi = GetLittleUShort();
-	iread(Head->ColMap, 1, 48);
+	if (iread(Head->ColMap, 1, 48) != 48)
+		return IL_FALSE;
 	Head->Reserved = igetc();
 	Head->NumPlanes = igetc();
 	Head->Bps = GetLittleUShort();
 	Head->PaletteInfo = GetLittleUShort();
 	Head->HScreenSize = GetLittleUShort();
 	Head->VScreenSize = GetLittleUShort();
-	iread(Head->Filler, 1, 54);
+	if (iread(Head->Filler, 1, 54) != 54)
+		return IL_FALSE;
 
 	return IL_TRUE;
 }
@@ -94,9 +97,11 @@ ILboolean iIsValidPcx()
 {
 	PCXHEAD Head;
 
+	ILuint	FirstPos = itell();
+
 	if (!iGetPcxHead(&Head))
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(PCXHEAD), IL_SEEK_CUR);
+	iseek(FirstPos, IL_SEEK_SET);
 
 	return iCheckPcx(&Head);
 }
@@ -115,7 +120,10 @@ ILboolean iCheckPcx(PCXHEAD *Header)
 	// Try to support all pcx versions, as they only differ in allowed formats...
 	// Let's hope it works.
 	if(Header->Version != 5 && Header->Version != 0 && Header->Version != 2 &&
-		 Header->VDpi != 3 && Header->VDpi != 4)
+		 Header->Version != 3 && Header->Version != 4)
+		return IL_FALSE;
+
+	if (Header->Xmax < Header->Xmin || Header->Ymax < Header->Ymin)
 		return IL_FALSE;
 
 	// See if the padding size is correct
@@ -130,6 +138,8 @@ ILboolean iCheckPcx(PCXHEAD *Header)
 				return IL_FALSE;
 		}
 	}
+	else if ((ILuint)Header->Bps * 8 < Test)  // A line has at least one bit per pixel.
+		return IL_FALSE;
 
 	/* for (i = 0; i < 54; i++) { useless check
 		if (Header->Filler[i] != 0)
@@ -221,12 +231,17 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 	ILubyte	ByteHead, Colour, *ScanLine /* For all planes */;
 	ILuint ScanLineSize;
 	ILuint	c, i, x, y;
+	ILubyte	*Palette;
 
 	if (Header->Bpp < 8) {
 		/*ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;*/
 		return iUncompressSmall(Header);
 	}
+	if (Header->Bpp != 8 || (Header->NumPlanes != 1 && Header->NumPlanes != 3 && Header->NumPlanes != 4)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 
 	if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, Header->NumPlanes, 0, IL_UNSIGNED_BYTE, NULL))
 		return IL_FALSE;
@@ -235,13 +250,7 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 	switch (iCurImage->Bpp)
 	{
 		case 1:
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Pal.PalType = IL_PAL_RGB24;
-			iCurImage->Pal.PalSize = 256 * 3;  // Need to find out for sure...
-			iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (iCurImage->Pal.Palette == NULL) {
-				return IL_FALSE;
-			}
+			iCurImage->Format = IL_LUMINANCE;  // Changed below if there is a palette.
 			break;
 		//case 2:  // No 16-bit images in the pcx format!
 		case 3:
@@ -321,17 +330,23 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 		x = itell();
 		if (iread(&ByteHead, 1, 1) == 0) {  // If true, assume that we have a luminance image.
 			ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
-			iCurImage->Format = IL_LUMINANCE;
-			if (iCurImage->Pal.Palette)
-				ifree(iCurImage->Pal.Palette);
-			iCurImage->Pal.PalSize = 0;
-			iCurImage->Pal.PalType = IL_PAL_NONE;
 		}
 		else {
 			if (ByteHead != 12)  // Some Quake2 .pcx files don't have this byte for some reason.
 				iseek(-1, IL_SEEK_CUR);
-			if (iread(iCurImage->Pal.Palette, 1, iCurImage->Pal.PalSize) != iCurImage->Pal.PalSize)
+			Palette = (ILubyte*)ialloc(256 * 3);
+			if (Palette == NULL) {
+				ifree(ScanLine);
+				return IL_FALSE;
+			}
+			if (iread(Palette, 1, 256 * 3) != 256 * 3) {
+				ifree(Palette);
 				goto file_read_error;
+			}
+			iCurImage->Format = IL_COLOUR_INDEX;
+			iCurImage->Pal.PalType = IL_PAL_RGB24;
+			iCurImage->Pal.PalSize = 256 * 3;
+			iCurImage->Pal.Palette = Palette;
 		}
 	}
 
@@ -350,9 +365,14 @@ file_read_error:
 
 ILboolean iUncompressSmall(PCXHEAD *Header)
 {
-	ILuint	i = 0, j, k, c, d, x, y, Bps;
+	ILuint	i = 0, j, k, c, d, x, y, Bps, BitsPerLine = (ILuint)Header->Bps * 8;
 	ILubyte	HeadByte, Colour, Data = 0, *ScanLine;
 
+	if (Header->Bpp != 1 || (Header->NumPlanes != 1 && Header->NumPlanes != 4)) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(Header->Xmax - Header->Xmin + 1, Header->Ymax - Header->Ymin + 1, 1, 1, 0, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
@@ -373,42 +393,25 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 
 	if (Header->NumPlanes == 1 && Header->Bpp == 1) {
 		for (j = 0; j < iCurImage->Height; j++) {
-			i = 0; //number of written pixels
-			while (i < iCurImage->Width) {
+			i = 0; //number of read bits, including those that pad the line
+			while (i < BitsPerLine) {
 				if (iread(&HeadByte, 1, 1) != 1)
 					return IL_FALSE;
+				Data = HeadByte;
+				k = 1;
 				if (HeadByte >= 192) {
-					HeadByte -= 192;
+					k = HeadByte - 192;
 					if (iread(&Data, 1, 1) != 1)
 						return IL_FALSE;
-
-					for (c = 0; c < HeadByte; c++) {
-						k = 128;
-						for (d = 0; d < 8 && i < iCurImage->Width; d++) {
-							iCurImage->Data[j * iCurImage->Width + i++] = ((Data & k) != 0 ? 255 : 0);
-							k >>= 1;
-						}
-					}
 				}
-				else {
-					k = 128;
-					for (c = 0; c < 8 && i < iCurImage->Width; c++) {
-						iCurImage->Data[j * iCurImage->Width + i++] = ((HeadByte & k) != 0 ? 255 : 0);
-						k >>= 1;
+
+				for (c = 0; c < k && i < BitsPerLine; c++) {
+					for (d = 0; d < 8; d++, i++) {
+						if (i < iCurImage->Width)
+							iCurImage->Data[j * iCurImage->Width + i] = ((Data & (128 >> d)) != 0 ? 255 : 0);
 					}
 				}
 			}
-
-			//if(Data != 0)
-			//changed 2003-09-01:
-			//There has to be an even number of bytes per line in a pcx.
-			//One byte can hold up to 8 bits, so Width/8 bytes
-			//are needed to hold a 1 bit per pixel image line.
-			//If Width/8 is even no padding is needed,
-			//one pad byte has to be read otherwise.
-			//(let's hope the above is true ;-))
-			if(!((iCurImage->Width >> 3) & 0x1))
-				igetc();	// Skip pad byte
 		}
 	}
 	else if (Header->NumPlanes == 4 && Header->Bpp == 1){   // 4-bit images
@@ -420,6 +423,7 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 		if (iCurImage->Pal.Palette == NULL || ScanLine == NULL) {
 			ifree(ScanLine);
 			ifree(iCurImage->Pal.Palette);
+			iCurImage->Pal.Palette = NULL;
 			return IL_FALSE;
 		}
 		memcpy(iCurImage->Pal.Palette, Header->ColMap, 16 * 3);
@@ -559,6 +563,7 @@ ILboolean iSavePcxInternal()
 			break;
 
 		case IL_BGRA:
+		case IL_LUMINANCE_ALPHA:
 			TempImage = iConvertImage(iCurImage, IL_RGBA, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
 				return IL_FALSE;
@@ -603,7 +608,7 @@ ILboolean iSavePcxInternal()
 	}
 	iputc(0x0);  // Reserved - always 0
 
-	iputc(iCurImage->Bpp);  // Number of planes - only 1 is supported right now
+	iputc(TempImage->Bpp);  // Number of planes - only 1 is supported right now
 
 	SaveLittleUShort((ILushort)(iCurImage->Width & 1 ? iCurImage->Width + 1 : iCurImage->Width));  // Bps
 	SaveLittleUShort(0x1);  // Palette type - ignored?
@@ -633,7 +638,7 @@ ILboolean iSavePcxInternal()
 		else {
 			TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
 			if (TempPal == NULL) {
-				if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
+				if (TempData != TempImage->Data)
 					ifree(TempData);
 				if (TempImage != iCurImage)
 					ilCloseImage(TempImage);
@@ -647,12 +652,13 @@ ILboolean iSavePcxInternal()
 	}
 
 	// If the palette is not all 256 colours, we have to pad it.
-	PalSize = 768 - iCurImage->Pal.PalSize;
+	PalSize = TempImage->Format == IL_COLOUR_INDEX ? TempImage->Pal.PalSize / ilGetBppPal(TempImage->Pal.PalType) * 3 : 0;
+	PalSize = PalSize < 768 ? 768 - PalSize : 0;
 	for (i = 0; i < PalSize; i++) {
 		iputc(0x0);
 	}
 
-	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT)
+	if (TempData != TempImage->Data)
 		ifree(TempData);
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
-- 
2.43.0


From 36036e8fd75c6a398a1f08636c5aa393037598ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 40/79] fix: SGI 16-bit run-length data is read, damaged files
 are refused, signed types and stale names no longer break saving

---
 DevIL/src-IL/src/il_sgi.cpp | 91 +++++++++++++------------------------
 1 file changed, 31 insertions(+), 60 deletions(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 85a688b..7cf67f7 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -15,7 +15,6 @@
 #include "il_sgi.h"
 #include <limits.h>
 
-static char *FName = NULL;
 
 /*----------------------------------------------------------------------------*/
 
@@ -30,7 +29,6 @@ ILboolean ilIsValidSgi(ILconst_string FileName)
 		return bSgi;
 	}
 
-	FName = (char*)FileName;
 
 	SgiFile = iopenr(FileName);
 	if (SgiFile == NULL) {
@@ -65,7 +63,6 @@ ILboolean ilIsValidSgiF(ILHANDLE File)
 //! Checks if Lump is a valid .sgi lump.
 ILboolean ilIsValidSgiL(const void *Lump, ILuint Size)
 {
-	FName = NULL;
 	iSetInputLump(Lump, Size);
 	return iIsValidSgi();
 }
@@ -85,9 +82,11 @@ ILboolean iGetSgiHead(iSgiHeader *Header)
 	Header->PixMin = GetBigInt();
 	Header->PixMax = GetBigInt();
 	Header->Dummy1 = GetBigInt();
-	iread(Header->Name, 1, 80);
+	if (iread(Header->Name, 1, 80) != 80)
+		return IL_FALSE;
 	Header->ColMap = GetBigInt();
-	iread(Header->Dummy, 1, 404);
+	if (iread(Header->Dummy, 1, 404) != 404)
+		return IL_FALSE;
 
 	return IL_TRUE;
 }
@@ -98,10 +97,11 @@ ILboolean iGetSgiHead(iSgiHeader *Header)
 ILboolean iIsValidSgi()
 {
 	iSgiHeader	Head;
+	ILuint		FirstPos = itell();
 
 	if (!iGetSgiHead(&Head))
 		return IL_FALSE;
-	iseek(-(ILint)sizeof(iSgiHeader), IL_SEEK_CUR);  // Go ahead and restore to previous state
+	iseek(FirstPos, IL_SEEK_SET);  // Go ahead and restore to previous state
 
 	return iCheckSgi(&Head);
 }
@@ -115,9 +115,9 @@ ILboolean iCheckSgi(iSgiHeader *Header)
 		return IL_FALSE;
 	if (Header->Storage != SGI_RLE && Header->Storage != SGI_VERBATIM)
 		return IL_FALSE;
-	if (Header->Bpc == 0 || Header->Dim == 0)
+	if ((Header->Bpc != 1 && Header->Bpc != 2) || Header->Dim == 0)
 		return IL_FALSE;
-	if (Header->XSize == 0 || Header->YSize == 0 || Header->ZSize == 0)
+	if (Header->XSize == 0 || Header->YSize == 0 || Header->ZSize == 0 || Header->ZSize > 4)
 		return IL_FALSE;
 
 	return IL_TRUE;
@@ -261,7 +261,10 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 			RleLen = LenTable[ixHeight + ixPlane * Head->YSize];
 			
 			// Seeks to the offset table position
-			iseek(RleOff, IL_SEEK_SET);
+			if (iseek(RleOff, IL_SEEK_SET) != 0) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto cleanup_error;
+			}
 			if (iGetScanLine((TempData[ixPlane]) + (ixHeight * Head->XSize * Head->Bpc),
 				Head, RleLen) != Head->XSize * Head->Bpc) {
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -282,9 +285,9 @@ ILboolean iReadRleSgi(iSgiHeader *Head)
 	for (ixPixel = 0; ixPixel < iCurImage->SizeOfData;
 		ixPixel += Head->ZSize * Head->Bpc, ChanInt += Head->Bpc) {
 		for (ixPlane = 0; (ILint)ixPlane < Head->ZSize * Head->Bpc;	ixPlane += Head->Bpc) {
-			iCurImage->Data[ixPixel + ixPlane] = TempData[ixPlane][ChanInt];
+			iCurImage->Data[ixPixel + ixPlane] = TempData[ixPlane / Head->Bpc][ChanInt];
 			if (Head->Bpc == 2)
-				iCurImage->Data[ixPixel + ixPlane + 1] = TempData[ixPlane][ChanInt + 1];
+				iCurImage->Data[ixPixel + ixPlane + 1] = TempData[ixPlane / Head->Bpc][ChanInt + 1];
 		}
 	}
 
@@ -320,50 +323,33 @@ cleanup_error:
 
 ILint iGetScanLine(ILubyte *ScanLine, iSgiHeader *Head, ILuint Length)
 {
-	ILushort Pixel, Count;  // For current pixel
-	ILuint	 BppRead = 0, CurPos = 0, Bps = Head->XSize * Head->Bpc;
+	ILubyte	 Pixel[2];  // For current pixel, big endian
+	ILuint	 Count, BppRead = 0, CurPos = 0, Bps = Head->XSize * Head->Bpc, i;
 
 	while (BppRead < Length && CurPos < Bps)
 	{
-		Pixel = 0;
-		if (iread(&Pixel, Head->Bpc, 1) != 1)
+		if (iread(Pixel, Head->Bpc, 1) != 1)
 			return -1;
-		
-#ifndef __LITTLE_ENDIAN__
-		iSwapUShort(&Pixel);
-#endif
 
-		if (!(Count = (Pixel & 0x7f)))  // If 0, line ends
+		Count = Pixel[Head->Bpc - 1] & 0x7f;
+		if (Count == 0)  // If 0, line ends
 			return CurPos;
-		if (Pixel & 0x80) {  // If top bit set, then it is a "run"
+		if (CurPos + Count * Head->Bpc > Bps)  // More pixels than fit in the line
+			return -1;
+		if (Pixel[Head->Bpc - 1] & 0x80) {  // If top bit set, then it is a literal "run"
 			if (iread(ScanLine, Head->Bpc, Count) != Count)
 				return -1;
 			BppRead += Head->Bpc * Count + Head->Bpc;
 			ScanLine += Head->Bpc * Count;
-			CurPos += Head->Bpc * Count;
 		}
 		else {
-			if (iread(&Pixel, Head->Bpc, 1) != 1)
+			if (iread(Pixel, Head->Bpc, 1) != 1)
 				return -1;
-#ifndef __LITTLE_ENDIAN__
-			iSwapUShort(&Pixel);
-#endif
-			if (Head->Bpc == 1) {
-				while (Count--) {
-					*ScanLine = (ILubyte)Pixel;
-					ScanLine++;
-					CurPos++;
-				}
-			}
-			else {
-				while (Count--) {
-					*(ILushort*)ScanLine = Pixel;
-					ScanLine += 2;
-					CurPos += 2;
-				}
-			}
+			for (i = 0; i < Count * Head->Bpc; i++)
+				*ScanLine++ = Pixel[i % Head->Bpc];
 			BppRead += Head->Bpc + Head->Bpc;
 		}
+		CurPos += Count * Head->Bpc;
 	}
 
 	return CurPos;
@@ -593,22 +579,18 @@ ILboolean iSaveSgiInternal()
 	}
 	
 	//compression of images with 2 bytes per channel doesn't work yet
-	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
-
 	if (Temp == NULL)
 		return IL_FALSE;
 
+	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
+
 	SaveBigUShort(SGI_MAGICNUM);  // 'Magic' number
 	if (Compress)
 		iputc(1);
 	else
 		iputc(0);
 
-	if (Temp->Type == IL_UNSIGNED_BYTE)
-		iputc(1);
-	else if (Temp->Type == IL_UNSIGNED_SHORT)
-		iputc(2);
-	// Need to error here if not one of the two...
+	iputc(Temp->Bpc);
 
 	if (Temp->Format == IL_LUMINANCE || Temp->Format == IL_COLOUR_INDEX)
 		SaveBigUShort(2);
@@ -641,19 +623,8 @@ ILboolean iSaveSgiInternal()
 
 	SaveBigInt(0);  // Dummy value
 
-	if (FName) {
-		c = ilCharStrLen(FName);
-		c = c < 79 ? 79 : c;
-		iwrite(FName, 1, c);
-		c = 80 - c;
-		for (i = 0; i < c; i++) {
-			iputc(0);
-		}
-	}
-	else {
-		for (i = 0; i < 80; i++) {
-			iputc(0);
-		}
+	for (i = 0; i < 80; i++) {  // No name
+		iputc(0);
 	}
 
 	SaveBigUInt(0);  // Colormap
-- 
2.43.0


From 59896dc386989d90f3460151c756f3bea5deb835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 41/79] fix: PNM loading keeps within its buffers and the
 image, reads 16-bit samples; ASCII saving writes 16-bit samples

---
 DevIL/src-IL/src/il_pnm.cpp | 201 +++++++++++++++++++-----------------
 1 file changed, 104 insertions(+), 97 deletions(-)

diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index dc87cc9..88f7768 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -28,9 +28,10 @@ using namespace std;
 #define MAX_BUFFER 180  
 
 //@TODO: Get rid of these globals
-static ILbyte LineBuffer[MAX_BUFFER];
 static ILbyte SmallBuff[MAX_BUFFER];
 
+static ILuint iWordToNumber(void);
+
 // Can't read direct bits from a lump yet
 ILboolean IsLump = IL_FALSE;
 
@@ -91,9 +92,10 @@ ILboolean iIsValidPnm()
 {
 	char	Head[2];
 	ILint	Read;
+	ILuint	FirstPos = itell();
 
 	Read = iread(Head, 1, 2);
-	iseek(-Read, IL_SEEK_CUR);  // Go ahead and restore to previous state
+	iseek(FirstPos, IL_SEEK_SET);  // Go ahead and restore to previous state
 	if (Read != 2)
 		return IL_FALSE;
 
@@ -222,7 +224,7 @@ ILboolean iLoadPnmInternal()
 	// Retrieve the width and height
 	if (iGetWord(IL_FALSE) == IL_FALSE)
 		return IL_FALSE;
-	Info.Width = atoi((const char*)SmallBuff);
+	Info.Width = iWordToNumber();
 	if (Info.Width == 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
@@ -230,7 +232,7 @@ ILboolean iLoadPnmInternal()
 
 	if (iGetWord(IL_FALSE) == IL_FALSE)
 		return IL_FALSE;
-	Info.Height = atoi((const char*)SmallBuff);
+	Info.Height = iWordToNumber();
 	if (Info.Height == 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
@@ -241,7 +243,8 @@ ILboolean iLoadPnmInternal()
 	{
 		if (iGetWord(IL_TRUE) == IL_FALSE)
 			return IL_FALSE;
-		if ((Info.MaxColour = atoi((const char*)SmallBuff)) == 0)
+		Info.MaxColour = iWordToNumber();
+		if (Info.MaxColour == 0 || Info.MaxColour > USHRT_MAX)
 		{
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
@@ -255,14 +258,7 @@ ILboolean iLoadPnmInternal()
 	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
 		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
 	{
-		if (Info.Type == IL_PGM_ASCII)
-		{
-			Info.Bpp = Info.MaxColour < 256 ? 1 : 2;
-		}
-		else
-		{
-			Info.Bpp = 1;
-		}
+		Info.Bpp = 1;
 	}
 	else
 	{
@@ -291,7 +287,6 @@ ILboolean iLoadPnmInternal()
 
 	if (PmImage == NULL)
 	{
-	    iCurImage->Format = ilGetFormatBpp(iCurImage->Bpp);
 	    ilSetError(IL_FILE_READ_ERROR);
 	    return IL_FALSE;
 	}
@@ -302,8 +297,6 @@ ILboolean iLoadPnmInternal()
 		PbmMaximize(PmImage);
 	}
 
-	if (Info.MaxColour > 255)
-		PmImage->Type = IL_UNSIGNED_SHORT;
 	PmImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	if (Info.Type == IL_PBM_ASCII || Info.Type == IL_PBM_BINARY ||
 		Info.Type == IL_PGM_ASCII || Info.Type == IL_PGM_BINARY)
@@ -319,69 +312,56 @@ ILboolean iLoadPnmInternal()
 
 
 
-ILimage *ilReadAsciiPpm(PPMINFO *Info)
+// Reads the next number of an ASCII file, skipping whitespace and comments.
+//	Returns -1 if there is none.
+static ILint iGetPnmNumber(ILboolean OneDigit)
 {
-	ILint	LineInc = 0, SmallInc = 0, DataInc = 0, Size;
-//	ILint	BytesRead = 0;
-
-	if (Info->MaxColour > 255)
-		Info->Bpp *= 2;
+	ILint	Char, Number;
 
-	Size = Info->Width * Info->Height * Info->Bpp;
+	do {
+		Char = igetc();
+		if (Char == '#') {  // Comment
+			while ((Char = igetc()) != IL_EOF && Char != '\n');
+		}
+	} while (Char == ' ' || (Char >= '\t' && Char <= '\r'));
 
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
-		return IL_FALSE;
+	if (Char < '0' || Char > '9')
+		return -1;
+	Number = Char - '0';
+	while (!OneDigit && (Char = igetc()) >= '0' && Char <= '9') {
+		Number = Number * 10 + Char - '0';
+		if (Number > USHRT_MAX)
+			Number = USHRT_MAX;
 	}
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-	if (Info->MaxColour > 255)
-		iCurImage->Type = IL_UNSIGNED_SHORT;
-
-	while (DataInc < Size) {  // && !feof(File)) {
-		LineInc = 0;
 
-		if (iFgets((char *)LineBuffer, MAX_BUFFER) == NULL) {
-			//ilSetError(IL_ILLEGAL_FILE_VALUE);
-			//return NULL;
-			//return iCurImage;
-			break;
-		}
-		if (LineBuffer[0] == '#') {  // Comment
-			continue;
-		}
+	return Number;
+}
 
-		while ((LineBuffer[LineInc] != NUL) && (LineBuffer[LineInc] != '\n')) {
 
-			SmallInc = 0;
-			while (!isalnum(LineBuffer[LineInc])) {  // Skip any whitespace
-				LineInc++;
-			}
-			while (isalnum(LineBuffer[LineInc])) {
-				SmallBuff[SmallInc] = LineBuffer[LineInc];
-				SmallInc++;
-				LineInc++;
-			}
-			SmallBuff[SmallInc] = NUL;
-			iCurImage->Data[DataInc] = atoi((const char*)SmallBuff);  // Convert from string to colour
-
-			// PSP likes to put whitespace at the end of lines...figures. =/
-			while (!isalnum(LineBuffer[LineInc]) && LineBuffer[LineInc] != NUL) {  // Skip any whitespace
-				LineInc++;
-			}
+ILimage *ilReadAsciiPpm(PPMINFO *Info)
+{
+	ILuint	i, NumSamples;
+	ILint	Sample;
+	ILenum	Type = Info->MaxColour > 255 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE;
 
-			// We should set some kind of state flag that enables this
-			//Image->Data[DataInc] *= (ILubyte)(255 / Info->MaxColour);  // Scales to 0-255		
-			if (Info->MaxColour > 255)
-				DataInc++;
-			DataInc++;
-		}
+	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), ilGetFormatBpp(Info->Bpp), Type, NULL)) {
+		return IL_FALSE;
 	}
+	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	// If we read less than what we should have...
-	if (DataInc < Size) {
-		//ilCloseImage(iCurImage);
-		//ilSetCurImage(NULL);
-		ilSetError(IL_ILLEGAL_FILE_VALUE);
-		return NULL;
+	NumSamples = iCurImage->SizeOfData / iCurImage->Bpc;
+	for (i = 0; i < NumSamples; i++) {
+		// The digits of a bitmap need no whitespace between them.
+		Sample = iGetPnmNumber(Info->Type == IL_PBM_ASCII);
+		if (Sample < 0) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return NULL;
+		}
+		// We should set some kind of state flag that enables scaling to the whole range
+		if (Type == IL_UNSIGNED_SHORT)
+			((ILushort*)iCurImage->Data)[i] = (ILushort)Sample;
+		else
+			iCurImage->Data[i] = (ILubyte)Sample;
 	}
 
 	return iCurImage;
@@ -390,13 +370,13 @@ ILimage *ilReadAsciiPpm(PPMINFO *Info)
 
 ILimage *ilReadBinaryPpm(PPMINFO *Info)
 {
-	ILuint Size;
-
-	Size = Info->Width * Info->Height * Info->Bpp;
+	ILuint	Size, i;
+	ILenum	Type = Info->MaxColour > 255 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE;
 
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), ilGetFormatBpp(Info->Bpp), Type, NULL)) {
 		return IL_FALSE;
 	}
+	Size = iCurImage->SizeOfData;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	/* 4/3/2007 Dario Meloni
@@ -410,18 +390,22 @@ ILimage *ilReadBinaryPpm(PPMINFO *Info)
 	iseek(size-Size,IL_SEEK_SET);
 	*/
 	if (iread(iCurImage->Data, 1, Size) != Size) {
-		ilCloseImage(iCurImage);	
 		return NULL;
 	}
+	if (Type == IL_UNSIGNED_SHORT) {  // Samples are big endian.
+		for (i = 0; i < Size / 2; i++)
+			BigUShort((ILushort*)iCurImage->Data + i);
+	}
 	return iCurImage;
 }
 
 
 ILimage *ilReadBitPbm(PPMINFO *Info)
 {
-	ILuint	m, j, x, CurrByte;
+	ILuint	m, j, x;
+	ILint	CurrByte;
 
-	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (!ilTexImage(Info->Width, Info->Height, 1, (ILubyte)(Info->Bpp), IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
@@ -429,6 +413,8 @@ ILimage *ilReadBitPbm(PPMINFO *Info)
 	x = 0;
 	for (j = 0; j < iCurImage->SizeOfData;) {
 		CurrByte = igetc();
+		if (CurrByte == IL_EOF)
+			return NULL;
 		for (m = 128; m > 0 && x < Info->Width; m >>= 1, ++x, ++j) {
 			iCurImage->Data[j] = (CurrByte & m)?255:0;
 		}
@@ -444,11 +430,11 @@ ILboolean ilReadPam()
 {
 	PPMINFO Info;
 	string TempStr;
-	ILuint Size;
+	ILuint Size, i;
 
 	memset(&Info, 0, sizeof(PPMINFO));
 
-	while (!ieof())
+	while (IL_TRUE)
 	{
 		if (iGetWord(IL_FALSE) == IL_FALSE)
 			return IL_FALSE;
@@ -459,13 +445,13 @@ ILboolean ilReadPam()
 		if (iGetWord(IL_FALSE) == IL_FALSE)
 			return IL_FALSE;
 		if (!strncmp(TempStr.c_str(), "WIDTH", 5))
-			Info.Width = atoi((const char*)SmallBuff);
+			Info.Width = iWordToNumber();
 		else if (!strncmp(TempStr.c_str(), "HEIGHT", 6))
-			Info.Height = atoi((const char*)SmallBuff);
+			Info.Height = iWordToNumber();
 		else if (!strncmp(TempStr.c_str(), "DEPTH", 5))
-			Info.Depth = atoi((const char*)SmallBuff);
+			Info.Depth = iWordToNumber();
 		else if (!strncmp(TempStr.c_str(), "MAXVAL", 6))
-			Info.MaxColour = atoi((const char*)SmallBuff);
+			Info.MaxColour = iWordToNumber();
 		else if (!strncmp(TempStr.c_str(), "TUPLTYPE", 8)) {
 			string tmp = (char*)SmallBuff;
 			Info.TuplType = DecodeTupleType(tmp);
@@ -501,7 +487,7 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, ilGetFormatBpp(Info.Depth), Info.Type, NULL))
 				return IL_FALSE;
 			Size *= Info.Width * Info.Height * Info.Depth;
 			iCurImage->Format = IL_LUMINANCE;
@@ -513,7 +499,7 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, ilGetFormatBpp(Info.Depth), Info.Type, NULL))
 				return IL_FALSE;
 			Size *= Info.Width * Info.Height * Info.Depth;
 			iCurImage->Format = IL_LUMINANCE_ALPHA;
@@ -525,7 +511,7 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, ilGetFormatBpp(Info.Depth), Info.Type, NULL))
 				return IL_FALSE;
 			Size *= Info.Width * Info.Height * Info.Depth;
 			iCurImage->Format = IL_RGB;
@@ -537,7 +523,7 @@ ILboolean ilReadPam()
 				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
 			}
-			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, 0, Info.Type, NULL))
+			if (!ilTexImage(Info.Width, Info.Height, 1, Info.Depth, ilGetFormatBpp(Info.Depth), Info.Type, NULL))
 				return IL_FALSE;
 			Size *= Info.Width * Info.Height * Info.Depth;
 			iCurImage->Format = IL_RGBA;
@@ -552,9 +538,12 @@ ILboolean ilReadPam()
 
 	if (iread(iCurImage->Data, 1, Size) != Size)
 	{
-		ilCloseImage(iCurImage);
 		return IL_FALSE;
 	}
+	if (iCurImage->Type == IL_UNSIGNED_SHORT) {  // Samples are big endian.
+		for (i = 0; i < Size / 2; i++)
+			BigUShort((ILushort*)iCurImage->Data + i);
+	}
 
 	return ilFixImage();
 }
@@ -579,6 +568,21 @@ ILint DecodeTupleType(string &TupleStr)
 }
 
 
+// Converts the last word to a number, which is 0 if it is none.
+static ILuint iWordToNumber()
+{
+	ILuint	i, Number = 0;
+
+	for (i = 0; SmallBuff[i] >= '0' && SmallBuff[i] <= '9'; i++) {
+		if (Number > 99999999)  // Too large for anything.
+			return 0;
+		Number = Number * 10 + SmallBuff[i] - '0';
+	}
+
+	return SmallBuff[i] == 0 ? Number : 0;
+}
+
+
 ILboolean iGetWord(ILboolean final)
 {
 	ILint WordPos = 0;
@@ -586,15 +590,14 @@ ILboolean iGetWord(ILboolean final)
 	ILboolean Started = IL_FALSE;
 	ILboolean Looping = IL_TRUE;
 
-	if (ieof())
-		return IL_FALSE;
-
 	while (Looping)
 	{
 		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ')
 		{
-			if (WordPos >= MAX_BUFFER)  // We have hit the maximum line length.
+			if (WordPos >= MAX_BUFFER - 1) {  // We have hit the maximum line length.
+				ilSetError(IL_INVALID_FILE_HEADER);
 				return IL_FALSE;
+			}
 
 			if (!isalnum(Current) && Current != '_') {
 				if (Started) {
@@ -607,8 +610,10 @@ ILboolean iGetWord(ILboolean final)
 			if (Looping)
 				SmallBuff[WordPos++] = Current;
 		}
-		if (Current == IL_EOF)
+		if (Current == IL_EOF) {
+			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
+		}
 		SmallBuff[WordPos] = 0; // 08-17-2008 - was NULL, changed to avoid warning
 		if (final == IL_TRUE)
 	        break;
@@ -625,7 +630,8 @@ ILboolean iGetWord(ILboolean final)
 			if (Current != ' ')
 				break;
 		}
-		iseek(-1, IL_SEEK_CUR);
+		if (Current != IL_EOF)
+			iseek(-1, IL_SEEK_CUR);
 
 		if (WordPos > 0)
 			break;
@@ -774,7 +780,7 @@ ILboolean iSavePnmInternal()
 		case IL_PPM_ASCII:
 			Bpp = 3;
 			ilprintf("P3\n");
-			TempImage = iConvertImage(iCurImage, IL_RGB, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(iCurImage, IL_RGB, iCurImage->Type);
 			break;
 		case IL_PPM_BINARY:
 			Bpp = 3;
@@ -790,6 +796,7 @@ ILboolean iSavePnmInternal()
 		return IL_FALSE;
 
 	if (Bpp != TempImage->Bpp) {
+		ilCloseImage(TempImage);
 		ilSetError(IL_INVALID_CONVERSION);
 		return IL_FALSE;
 	}
@@ -823,12 +830,12 @@ ILboolean iSavePnmInternal()
 				if (TempImage->Type == IL_UNSIGNED_BYTE)
 					k = TempData[i];
 				else  // IL_UNSIGNED_SHORT
-					k = *((ILushort*)TempData + i);
+					k = *(ILushort*)(TempData + i);
 				if (Type == IL_PBM_ASCII) {
 					LinePos += ilprintf("%d ", TempData[i] > 127 ? 1 : 0);
 				}
 				else {
-					LinePos += ilprintf("%d ", TempData[i]);
+					LinePos += ilprintf("%d ", k);
 				}
 			}
 
@@ -843,7 +850,7 @@ ILboolean iSavePnmInternal()
 		}
 	}
 
-	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT)
+	if (TempData != TempImage->Data)
 		ifree(TempData);
 	ilCloseImage(TempImage);
 
-- 
2.43.0


From c11705c66b9657a6c8c35037fccfa3bf63868c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 42/79] fix: DCX can be loaded and PCX saved by type, as
 documented

---
 DevIL/src-IL/src/il_io.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 01f324d..9a44b73 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1090,6 +1090,12 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 			break;
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			bRet = ilLoadDcx(FileName);
+			break;
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			bRet = ilLoadDicom(FileName);
@@ -1384,6 +1390,11 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 			return ilLoadCutF(File);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxF(File);
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			return ilLoadDicomF(File);
@@ -1647,6 +1658,11 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 			return ilLoadCutL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			return ilLoadDicomL(Lump, Size);
@@ -2414,6 +2430,12 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			#endif
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			Ret = ilSavePcxF(File);
+			break;
+		#endif
+
 		#ifndef IL_NO_PNM
 		case IL_PNM:
 			Ret = ilSavePnmF(File);
@@ -2532,6 +2554,11 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 			return ilSavePngL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			return ilSavePcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_PNM
 		case IL_PNM:
 			return ilSavePnmL(Lump, Size);
-- 
2.43.0


From 720872a2533f4bbb849a21e63adcc9f7c62977c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 43/79] fix: regions are freed once, stay inside of the image
 and cover every plane

---
 DevIL/src-ILU/src/ilu_region.cpp | 106 +++++++++++++++++++------------
 1 file changed, 65 insertions(+), 41 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 4824c14..4bbbfb1 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -24,6 +24,7 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 	if (Points == NULL || n == 0) {
 		ifree(RegionPointsi);
 		ifree(RegionPointsf);
+		RegionPointsi = NULL;
 		RegionPointsf = NULL;
 		PointNum = 0;
 		return;
@@ -34,10 +35,12 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 	}
 	ifree(RegionPointsi);
 	ifree(RegionPointsf);
+	RegionPointsi = NULL;
+	PointNum = 0;
 	RegionPointsf = (ILpointf*)ialloc(sizeof(ILpointf) * n);
 	if (RegionPointsf == NULL)
 		return;
-	memcpy(RegionPointsf, Points, sizeof(ILpointi) * n);
+	memcpy(RegionPointsf, Points, sizeof(ILpointf) * n);
 	PointNum = n;
 	return;
 }
@@ -49,6 +52,7 @@ void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 		ifree(RegionPointsi);
 		ifree(RegionPointsf);
 		RegionPointsi = NULL;
+		RegionPointsf = NULL;
 		PointNum = 0;
 		return;
 	}
@@ -58,6 +62,8 @@ void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 	}
 	ifree(RegionPointsi);
 	ifree(RegionPointsf);
+	RegionPointsf = NULL;
+	PointNum = 0;
 	RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * n);
 	if (RegionPointsi == NULL)
 		return;
@@ -124,7 +130,7 @@ void MakeEdgeRec(ILpointi lower, ILpointi upper, ILint yComp, Edge *edge, Edge *
 }
 
 
-void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
+ILboolean BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 {
 	Edge *edge;
 	ILpointi v1, v2;
@@ -138,6 +144,8 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 		v2 = pts[i];
 		if (v1.y != v2.y) {			// nonhorizontal line
 			edge = (Edge*)ialloc(sizeof(Edge));
+			if (edge == NULL)
+				return IL_FALSE;
 			if (v1.y < v2.y) {		// up-going edge
 				MakeEdgeRec(v1, v2, yNext(i, cnt, pts), edge, edges);
 			}
@@ -148,6 +156,8 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 		yPrev = v1.y;
 		v1 = v2;
 	}
+
+	return IL_TRUE;
 }
 
 
@@ -173,9 +183,9 @@ void FillScan(ILint scan, Edge *active)
 	ILint i;
 
 	p1 = active->next;
-	while (p1) {
+	while (p1 && p1->next) {
 		p2 = p1->next;
-		for (i = (ILuint)p1->xIntersect; i < p2->xIntersect; i++) {
+		for (i = (ILint)p1->xIntersect; i < p2->xIntersect; i++) {
 			iRegionSetPixel((ILuint)i, scan);
 		}
 		p1 = p2->next;
@@ -187,7 +197,7 @@ void DeleteAfter(Edge *q)
 {
 	Edge *p = q->next;
 	q->next = p->next;
-	free(p);
+	ifree(p);
 }
 
 
@@ -223,47 +233,67 @@ void ResortActiveList(Edge *active)
 }
 
 
+// Frees a list of edges along with its head.
+void FreeEdges(Edge *list)
+{
+	Edge *next;
+
+	while (list) {
+		next = list->next;
+		ifree(list);
+		list = next;
+	}
+}
+
+
 ILubyte *iScanFill()
 {
-	Edge	**edges = NULL, *active = NULL/*, *temp*/;
-	ILuint	i, scan;
+	Edge		**edges = NULL, *active = NULL;
+	ILuint		i, scan, PlaneSize;
+	ILpointi	*Points = NULL;
 
 	iRegionMask = NULL;
 
 	if ((RegionPointsi == NULL && RegionPointsf == NULL) || PointNum == 0)
 		return NULL;
 
-	if (RegionPointsf) {
-		RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * PointNum);
-		if (RegionPointsi == NULL)
-			goto error;
-	}
+	PlaneSize = iluCurImage->Width * iluCurImage->Height;
+	Points = (ILpointi*)ialloc(sizeof(ILpointi) * PointNum);
+	edges = (Edge**)icalloc(sizeof(Edge*), iluCurImage->Height);
+	iRegionMask = (ILubyte*)icalloc(PlaneSize, iluCurImage->Depth);
+	if (Points == NULL || edges == NULL || iRegionMask == NULL)
+		goto error;
 
 	for (i = 0; i < PointNum; i++) {
 		if (RegionPointsf) {
-			RegionPointsi[i].x = (ILuint)(iluCurImage->Width * RegionPointsf[i].x);
-			RegionPointsi[i].y = (ILuint)(iluCurImage->Height * RegionPointsf[i].y);
+			// The negated form also refuses NaNs.
+			if (!(RegionPointsf[i].x >= 0.0f && RegionPointsf[i].x < 1.0f && RegionPointsf[i].y >= 0.0f && RegionPointsf[i].y < 1.0f))
+				goto error;
+			Points[i].x = (ILint)(iluCurImage->Width * RegionPointsf[i].x);
+			Points[i].y = (ILint)(iluCurImage->Height * RegionPointsf[i].y);
 		}
-		if (RegionPointsi[i].x >= (ILint)iluCurImage->Width || RegionPointsi[i].y >= (ILint)iluCurImage->Height)
+		else
+			Points[i] = RegionPointsi[i];
+		if (Points[i].x < 0 || Points[i].x >= (ILint)iluCurImage->Width || Points[i].y < 0 || Points[i].y >= (ILint)iluCurImage->Height)
 			goto error;
 	}
 
-	edges = (Edge**)ialloc(sizeof(Edge*) * iluCurImage->Height);
-	iRegionMask = (ILubyte*)ialloc(iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
-	if (edges == NULL || iRegionMask == NULL)
-		goto error;
-	imemclear(iRegionMask, iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth);
-
 	for (i = 0; i < iluCurImage->Height; i++) {
 		edges[i] = (Edge*)ialloc(sizeof(Edge));
+		if (edges[i] == NULL)
+			goto error;
 		edges[i]->next = NULL;
 	}
-	BuildEdgeList(PointNum, RegionPointsi, edges);
 	active = (Edge*)ialloc(sizeof(Edge));
+	if (active == NULL)
+		goto error;
 	active->next = NULL;
+	if (!BuildEdgeList(PointNum, Points, edges))
+		goto error;
 
 	for (scan = 0; scan < iluCurImage->Height; scan++) {
 		BuildActiveList(scan, active, edges);
+		edges[scan]->next = NULL;  // Its edges belong to the active list now.
 		if (active->next) {
 			FillScan(scan, active);
 			UpdateActiveList(scan, active);
@@ -271,34 +301,28 @@ ILubyte *iScanFill()
 		}
 	}
 
-	// Free edge records that have been allocated.
-	/*for (i = 0; i < iluCurImage->Height; i++) {
-		while (edges[i]) {
-			temp = edges[i]->next;
-			ifree(edges[i]);
-			edges[i] = temp;
-		}
-	}*/
+	// The region is the same on every plane.
+	for (i = 1; i < iluCurImage->Depth; i++)
+		memcpy(iRegionMask + i * PlaneSize, iRegionMask, PlaneSize);
 
+	FreeEdges(active);
+	for (i = 0; i < iluCurImage->Height; i++)
+		FreeEdges(edges[i]);
 	ifree(edges);
-
-	if (RegionPointsf) {
-		ifree(RegionPointsi);
-		RegionPointsi = NULL;
-	}
+	ifree(Points);
 
 	return iRegionMask;
 
 error:
-	if (RegionPointsf) {
-		ifree(RegionPointsi);
-		RegionPointsi = NULL;
+	FreeEdges(active);
+	if (edges) {
+		for (i = 0; i < iluCurImage->Height; i++)
+			FreeEdges(edges[i]);
 	}
-
-	// Free edge records that have been allocated.
-
 	ifree(edges);
+	ifree(Points);
 	ifree(iRegionMask);
+	iRegionMask = NULL;
 	return NULL;
 }
 
-- 
2.43.0


From f8718a7ea79c99dfbcdff708d2a94f6735bb7301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 44/79] fix: filters stay inside of the picture and work on
 every type, size and palette

---
 DevIL/src-ILU/src/ilu_filter.cpp | 645 +++++++++----------------------
 1 file changed, 189 insertions(+), 456 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 19d37d1..db745b7 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -8,13 +8,52 @@
 
 
 // Could probably be optimized a bit...too many nested for loops.
+template <typename T, typename Sum>
+static void iPixelize(ILimage *Image, T *Data, ILuint PixSize, const ILubyte *RegionMask)
+{
+	ILuint	x, y, z, i, j, k, c, Tested;
+	ILuint	Bps = Image->Width * Image->Bpp, Plane = Image->Height * Bps;
+	Sum		Total;
+
+	for (z = 0; z < Image->Depth; z += PixSize) {
+		for (y = 0; y < Image->Height; y += PixSize) {
+			for (x = 0; x < Image->Width; x += PixSize) {
+				for (c = 0; c < Image->Bpp; c++) {
+					Total = 0;  Tested = 0;
+					for (k = 0; k < PixSize && z+k < Image->Depth; k++) {
+						for (j = 0; j < PixSize && y+j < Image->Height; j++) {
+							for (i = 0; i < PixSize && x+i < Image->Width; i++, Tested++) {
+								Total += Data[(z+k) * Plane + (y+j) * Bps + (x+i) * Image->Bpp + c];
+							}
+						}
+					}
+					Total /= (Sum)Tested;
+
+					for (k = 0; k < PixSize && z+k < Image->Depth; k++) {
+						for (j = 0; j < PixSize && y+j < Image->Height; j++) {
+							for (i = 0; i < PixSize && x+i < Image->Width; i++) {
+								if (RegionMask && !RegionMask[((z+k) * Image->Height + (y+j)) * Image->Width + (x+i)])
+									continue;
+								Data[(z+k) * Plane + (y+j) * Bps + (x+i) * Image->Bpp + c] = (T)Total;
+							}
+						}
+					}
+				}
+				if (PixSize > Image->Width - x)
+					break;
+			}
+			if (PixSize > Image->Height - y)
+				break;
+		}
+		if (PixSize > Image->Depth - z)
+			break;
+	}
+}
+
+
 //! Pixelizes an image
 ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 {
-	ILuint		x, y, z, i, j, k, c, r, Total, Tested;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
-	ILdouble	*DblPtr, DblTotal, DblTested;
 	ILubyte		*RegionMask;
 
 	iluCurImage = ilGetCurImage();
@@ -23,155 +62,46 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 		return IL_FALSE;
 	}
 
+	if (iluCurImage->Type == IL_HALF) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	if (PixSize == 0)
 		PixSize = 1;
-	r = 0;
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX)
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
+	}
 
 	RegionMask = iScanFill();
 
-	switch (iluCurImage->Bpc)
+	switch (iluCurImage->Type)
 	{
-		case 1:
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += iluCurImage->Data[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask) {
-											if (!RegionMask[(y+j) * iluCurImage->Width + (x+i)])
-												continue;
-										}
-										iluCurImage->Data[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-											* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-											Total;
-									}
-								}
-							}
-						}
-					}
-				}
-			}
+		case IL_BYTE:
+			iPixelize<ILbyte, ILint64>(iluCurImage, (ILbyte*)iluCurImage->Data, PixSize, RegionMask);
 			break;
-		case 2:
-			ShortPtr = (ILushort*)iluCurImage->Data;
-			iluCurImage->Bps /= 2;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += ShortPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
-											ShortPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												Total;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 2;
+		case IL_UNSIGNED_BYTE:
+			iPixelize<ILubyte, ILint64>(iluCurImage, (ILubyte*)iluCurImage->Data, PixSize, RegionMask);
 			break;
-		case 4:
-			IntPtr = (ILuint*)iluCurImage->Data;
-			iluCurImage->Bps /= 4;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							Total = 0;  Tested = 0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										Total += IntPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							Total /= Tested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
-											IntPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												Total;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 4;
+		case IL_SHORT:
+			iPixelize<ILshort, ILint64>(iluCurImage, (ILshort*)iluCurImage->Data, PixSize, RegionMask);
 			break;
-		case 8:
-			DblPtr = (ILdouble*)iluCurImage->Data;
-			iluCurImage->Bps /= 8;
-			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
-				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
-						for (c = 0; c < iluCurImage->Bpp; c++) {
-							DblTotal = 0.0;  DblTested = 0.0;
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										DblTotal += DblPtr[(z+k) * iluCurImage->SizeOfPlane + 
-											(y+j) * iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c];
-									}
-								}
-							}
-							DblTotal /= DblTested;
-
-							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
-								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
-									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										if (RegionMask[r+i]) {
-											DblPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
-												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
-												DblTotal;
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
-			iluCurImage->Bps *= 8;
+		case IL_UNSIGNED_SHORT:
+			iPixelize<ILushort, ILint64>(iluCurImage, (ILushort*)iluCurImage->Data, PixSize, RegionMask);
+			break;
+		case IL_INT:
+			iPixelize<ILint, ILint64>(iluCurImage, (ILint*)iluCurImage->Data, PixSize, RegionMask);
+			break;
+		case IL_UNSIGNED_INT:
+			iPixelize<ILuint, ILint64>(iluCurImage, (ILuint*)iluCurImage->Data, PixSize, RegionMask);
+			break;
+		case IL_FLOAT:
+			iPixelize<ILfloat, ILdouble>(iluCurImage, (ILfloat*)iluCurImage->Data, PixSize, RegionMask);
+			break;
+		case IL_DOUBLE:
+			iPixelize<ILdouble, ILdouble>(iluCurImage, (ILdouble*)iluCurImage->Data, PixSize, RegionMask);
 			break;
 	}
 
@@ -187,15 +117,19 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 // Needs some SERIOUS optimization.
 ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 {
-    ILint		x, y, c, LastX, LastY, Offsets[9];
-	ILuint		i, Temp, z;
+	ILint		x, y, i, j, c, SrcX, SrcY, LastX, LastY;
+	ILuint		z, Pos, SrcPos;
 	ILubyte		*Data, *ImgData, *NewData, *RegionMask;
 	ILdouble	Num;
-	
+
 	if (Image == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return NULL;
 	}
+	if (scale == 0) {
+		ilSetError(ILU_INVALID_PARAM);
+		return NULL;
+	}
 
 	Data = (ILubyte*)ialloc(Image->SizeOfData);
 	if (Data == NULL) {
@@ -204,209 +138,86 @@ ILubyte *Filter(ILimage *Image, const ILint *matrix, ILint scale, ILint bias)
 
 	RegionMask = iScanFill();
 
-	// Preserve original data.
 	ImgData = Image->Data;
 	NewData = Data;
+	LastX = Image->Width  - 1;
+	LastY = Image->Height - 1;
 
 	for (z = 0; z < Image->Depth; z++) {
-		LastX = Image->Width  - 1;
-		LastY = Image->Height - 1;
-		for (y = 1; y < LastY; y++) {
-			for (x = 1; x < LastX; x++) {
-				Offsets[4] = ((y  ) * Image->Width + (x  )) * Image->Bpp;
-				if (RegionMask) {
-					if (!RegionMask[y * Image->Width + x]) {
-						for (c = 0; c < Image->Bpp; c++) {
-							Data[Offsets[4]+c] = Image->Data[Offsets[4]+c];
-						}
-						continue;
+		for (y = 0; y <= LastY; y++) {
+			for (x = 0; x <= LastX; x++) {
+				Pos = y * Image->Bps + x * Image->Bpp;
+
+				// The four corners are copied, as is everything outside of the region.
+				if (((x == 0 || x == LastX) && (y == 0 || y == LastY)) ||
+					(RegionMask && !RegionMask[y * Image->Width + x])) {
+					for (c = 0; c < Image->Bpp; c++) {
+						NewData[Pos + c] = ImgData[Pos + c];
 					}
+					continue;
 				}
 
-				Offsets[0] = ((y-1) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[1] = ((y-1) * Image->Width + (x  )) * Image->Bpp;
-				Offsets[2] = ((y-1) * Image->Width + (x+1)) * Image->Bpp;
-				Offsets[3] = ((y  ) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[5] = ((y  ) * Image->Width + (x+1)) * Image->Bpp;
-				Offsets[6] = ((y+1) * Image->Width + (x-1)) * Image->Bpp;
-				Offsets[7] = ((y+1) * Image->Width + (x  )) * Image->Bpp;
-				Offsets[8] = ((y+1) * Image->Width + (x-1)) * Image->Bpp;
-
-				// Always has at least one, so get rid of all those +c's
-				Num =   Image->Data[Offsets[0]] * matrix[0] +
-						Image->Data[Offsets[1]] * matrix[1]+
-						Image->Data[Offsets[2]] * matrix[2]+
-						Image->Data[Offsets[3]] * matrix[3]+
-						Image->Data[Offsets[4]] * matrix[4]+
-						Image->Data[Offsets[5]] * matrix[5]+
-						Image->Data[Offsets[6]] * matrix[6]+
-						Image->Data[Offsets[7]] * matrix[7]+
-						Image->Data[Offsets[8]] * matrix[8];
-
-				Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-				if (Temp > 255)
-					Data[Offsets[4]] = 255;
-				else
-					Data[Offsets[4]] = Temp;
-
-				for (c = 1; c < Image->Bpp; c++) {
-					Num =   Image->Data[Offsets[0]+c] * matrix[0]+
-							Image->Data[Offsets[1]+c] * matrix[1]+
-							Image->Data[Offsets[2]+c] * matrix[2]+
-							Image->Data[Offsets[3]+c] * matrix[3]+
-							Image->Data[Offsets[4]+c] * matrix[4]+
-							Image->Data[Offsets[5]+c] * matrix[5]+
-							Image->Data[Offsets[6]+c] * matrix[6]+
-							Image->Data[Offsets[7]+c] * matrix[7]+
-							Image->Data[Offsets[8]+c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[Offsets[4]+c] = 255;
-					else
-						Data[Offsets[4]+c] = Temp;
+				for (c = 0; c < Image->Bpp; c++) {
+					Num = 0.0;
+					for (j = 0; j < 3; j++) {
+						for (i = 0; i < 3; i++) {
+							// If we only copy the edge pixels, then they receive no filtering, making them
+							//	look out of place after several passes of an image.  So we filter the edge
+							//	rows/columns, duplicating the edge pixels for one side of the "matrix".
+							SrcY = IL_MIN(IL_MAX(y + j - 1, 0), LastY);
+							// The left and right columns have always been shifted to the right, running into
+							//	the next row, and the last coefficient has always been applied to the lower
+							//	left pixel elsewhere (the reference images of the manual rely on all this).
+							if (x == 0)
+								SrcX = IL_MIN(i, LastX);
+							else if (x == LastX)
+								SrcX = SrcY < LastY ? x + i : x;
+							else
+								SrcX = x + (j * 3 + i == 8 ? 0 : i) - 1;
+							SrcPos = SrcY * Image->Bps + SrcX * Image->Bpp + c;
+							Num += (ILdouble)ImgData[SrcPos] * matrix[j * 3 + i];
+						}
+					}
+
+					Num = fabs((Num / (ILdouble)scale) + bias);
+					NewData[Pos + c] = Num > 255.0 ? 255 : (ILubyte)Num;
 				}
 			}
 		}
 
+		// Go to next "plane".
+		ImgData += Image->SizeOfPlane;
+		NewData += Image->SizeOfPlane;
+	}
 
-		// Copy 4 corners
-		for (c = 0; c < Image->Bpp; c++) {
-			Data[c] = Image->Data[c];
-			Data[Image->Bps - Image->Bpp + c] = Image->Data[Image->Bps - Image->Bpp + c];
-			Data[(Image->Height - 1) * Image->Bps + c] = Image->Data[(Image->Height - 1) * Image->Bps + c];
-			Data[Image->Height * Image->Bps - Image->Bpp + c] = 
-				Image->Data[Image->Height * Image->Bps - Image->Bpp + c];
-		}
-
-
-		// If we only copy the edge pixels, then they receive no filtering, making them
-		//	look out of place after several passes of an image.  So we filter the edge
-		//	rows/columns, duplicating the edge pixels for one side of the "matrix".
+	ifree(RegionMask);
 
-		// First row
-		for (x = 1; x < (ILint)Image->Width-1; x++) {
-			if (RegionMask) {
-				if (!RegionMask[x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
-					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[(x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[x * Image->Bpp + c] * matrix[1]+
-						Image->Data[(x+1) * Image->Bpp + c] * matrix[2]+
-						Image->Data[(x-1) * Image->Bpp + c] * matrix[3]+
-						Image->Data[x * Image->Bpp + c] * matrix[4]+
-						Image->Data[(x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[6]+
-						Image->Data[(Image->Width + (x  )) * Image->Bpp + c] * matrix[7]+
-						Image->Data[(Image->Width + (x-1)) * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[x * Image->Bpp + c] = 255;
-					else
-						Data[x * Image->Bpp + c] = Temp;
-			}
-		}
+	return Data;
+}
 
-		// Last row
-		y = (Image->Height - 1) * Image->Bps;
-		for (x = 1; x < (ILint)Image->Width-1; x++) {
-			if (RegionMask) {
-				if (!RegionMask[(Image->Height - 1) * Image->Width + x]) {
-					Data[y + x * Image->Bpp + c] = Image->Data[y + x * Image->Bpp + c];
-					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + (x-1) * Image->Bpp + c] * matrix[0] +
-						Image->Data[y - Image->Bps + x * Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + (x+1) * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[3]+
-						Image->Data[y + x * Image->Bpp + c] * matrix[4]+
-						Image->Data[y + (x+1) * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[6]+
-						Image->Data[y + x * Image->Bpp + c] * matrix[7]+
-						Image->Data[y + (x-1) * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + x * Image->Bpp + c] = 255;
-					else
-						Data[y + x * Image->Bpp + c] = Temp;
-			}
-		}
 
-		// Left side
-		for (i = 1, y = Image->Bps; i < Image->Height-1; i++, y += Image->Bps) {
-			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp]) {
-					Data[y + c] = Image->Data[y + c];
-					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + c] = 255;
-					else
-						Data[y + c] = Temp;
-			}
-		}
+// The filters work on bytes: converts iluCurImage when it is anything else.
+static ILboolean iFilterBegin(ILenum *Format, ILenum *Type)
+{
+	*Format = iluCurImage->Format;
+	*Type = iluCurImage->Type;
 
-		// Right side
-		for (i = 1, y = Image->Bps * 2 - Image->Bpp; i < Image->Height-1; i++, y += Image->Bps) {
-			if (RegionMask) {
-				if (!RegionMask[y / Image->Bpp + (Image->Width - 1)]) {
-					for (c = 0; c < Image->Bpp; c++) {
-						Data[y + c] = Image->Data[y + c];
-					}
-					continue;
-				}
-			}
-			for (c = 0; c < Image->Bpp; c++) {
-				Num =   Image->Data[y - Image->Bps + c] * matrix[0] +
-						Image->Data[y - Image->Bps + Image->Bpp + c] * matrix[1]+
-						Image->Data[y - Image->Bps + 2 * Image->Bpp + c] * matrix[2]+
-						Image->Data[y + c] * matrix[3]+
-						Image->Data[y + Image->Bpp + c] * matrix[4]+
-						Image->Data[y + 2 * Image->Bpp + c] * matrix[5]+
-						Image->Data[y + Image->Bps + c] * matrix[6]+
-						Image->Data[y + Image->Bps + Image->Bpp + c] * matrix[7]+
-						Image->Data[y + Image->Bps + 2 * Image->Bpp + c] * matrix[8];
-
-					Temp = (ILuint)fabs((Num / (ILdouble)scale) + bias);
-					if (Temp > 255)
-						Data[y + c] = 255;
-					else
-						Data[y + c] = Temp;
-			}
-		}
+	if (iluCurImage->Format == IL_COLOUR_INDEX)
+		return ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+	if (iluCurImage->Type != IL_UNSIGNED_BYTE)
+		return ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
 
-		// Go to next "plane".
-		Image->Data += Image->SizeOfPlane;
-		Data += Image->SizeOfPlane;
-	}
+	return IL_TRUE;
+}
 
-	ifree(RegionMask);
 
-	// Restore original data.
-	Image->Data = ImgData;
-	Data = NewData;
+// Converts iluCurImage back to what it was before iFilterBegin.
+static ILboolean iFilterEnd(ILenum Format, ILenum Type)
+{
+	if (iluCurImage->Format != Format || iluCurImage->Type != Type)
+		return ilConvertImage(Format, Type);
 
-	return Data;
+	return IL_TRUE;
 }
 
 
@@ -414,8 +225,7 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 {
 	ILubyte		*HPass, *VPass;
 	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILenum		Format, Type;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -423,15 +233,8 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Format, &Type))
+		return IL_FALSE;
 
 
 	HPass = Filter(iluCurImage, filter_h_prewitt, filter_h_prewitt_scale, filter_h_prewitt_bias);
@@ -439,6 +242,7 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 	if (!HPass || !VPass) {
 		ifree(HPass);
 		ifree(VPass);
+		iFilterEnd(Format, Type);
 		return IL_FALSE;
 	}
 
@@ -450,7 +254,7 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 		else if (VPass[i] == 0)
 			iluCurImage->Data[i] = HPass[i];
 		else
-			iluCurImage->Data[i] = (ILubyte)sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+			iluCurImage->Data[i] = (ILubyte)IL_MIN(255.0f, sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i])));
 	}
 
 	/*for (i = 0; i < iluCurImage->SizeOfData; i++) {
@@ -460,12 +264,7 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 	ifree(HPass);
 	ifree(VPass);
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Format, Type);
 }
 
 
@@ -473,8 +272,7 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 {
 	ILubyte		*HPass, *VPass;
 	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILenum		Format, Type;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -482,21 +280,15 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Format, &Type))
+		return IL_FALSE;
 
 	HPass = Filter(iluCurImage, filter_h_sobel, filter_h_sobel_scale, filter_h_sobel_bias);
 	VPass = Filter(iluCurImage, filter_v_sobel, filter_v_sobel_scale, filter_v_sobel_bias);
 	if (!HPass || !VPass) {
 		ifree(HPass);
 		ifree(VPass);
+		iFilterEnd(Format, Type);
 		return IL_FALSE;
 	}
 
@@ -508,7 +300,7 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 		else if (VPass[i] == 0)
 			iluCurImage->Data[i] = HPass[i];
 		else
-			iluCurImage->Data[i] = (ILubyte)sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i]));
+			iluCurImage->Data[i] = (ILubyte)IL_MIN(255.0f, sqrt((float)(HPass[i]*HPass[i]+VPass[i]*VPass[i])));
 	}
 
 	/*for (i = 0; i < iluCurImage->SizeOfData; i++) {
@@ -518,12 +310,7 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 	ifree(HPass);
 	ifree(VPass);
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Format, Type);
 }
 
 
@@ -531,8 +318,7 @@ ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
 {
 	ILubyte		*Data;
 	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILenum		Format, Type;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -540,30 +326,20 @@ ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Format, &Type))
+		return IL_FALSE;
 
 	for (i = 0; i < Iter; i++) {
 		Data = Filter(iluCurImage, filter_average, filter_average_scale, filter_average_bias);
-		if (!Data)
+		if (!Data) {
+			iFilterEnd(Format, Type);
 			return IL_FALSE;
+		}
 		ifree(iluCurImage->Data);
 		iluCurImage->Data = Data;
 	}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Format, Type);
 }
 
 
@@ -571,8 +347,7 @@ ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 {
 	ILubyte		*Data;
 	ILuint		i;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILenum		Format, Type;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -580,38 +355,27 @@ ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Format, &Type))
+		return IL_FALSE;
 
 	for (i = 0; i < Iter; i++) {
 		Data = Filter(iluCurImage, filter_gaussian, filter_gaussian_scale, filter_gaussian_bias );
-		if (!Data)
+		if (!Data) {
+			iFilterEnd(Format, Type);
 			return IL_FALSE;
+		}
 		ifree(iluCurImage->Data);
 		iluCurImage->Data = Data;
 	}
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Format, Type);
 }
 
 
 ILboolean ILAPIENTRY iluEmboss()
 {
 	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILenum		Format, Type;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -619,28 +383,18 @@ ILboolean ILAPIENTRY iluEmboss()
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Format, &Type))
+		return IL_FALSE;
 
 	Data = Filter(iluCurImage, filter_emboss, filter_emboss_scale, filter_emboss_bias);
-	if (!Data)
+	if (!Data) {
+		iFilterEnd(Format, Type);
 		return IL_FALSE;
+	}
 	ifree(iluCurImage->Data);
 	iluCurImage->Data = Data;
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Format, Type);
 }
 
 /*ILboolean ILAPIENTRY iluEmboss()
@@ -678,8 +432,7 @@ ILboolean ILAPIENTRY iluEmboss()
 ILboolean ILAPIENTRY iluEdgeDetectE()
 {
 	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
+	ILenum		Format, Type;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -687,28 +440,18 @@ ILboolean ILAPIENTRY iluEdgeDetectE()
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	}
-	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Format, &Type))
+		return IL_FALSE;
 
 	Data = Filter(iluCurImage, filter_embossedge, filter_embossedge_scale, filter_embossedge_bias);
-	if (!Data)
+	if (!Data) {
+		iFilterEnd(Format, Type);
 		return IL_FALSE;
+	}
 	ifree(iluCurImage->Data);
 	iluCurImage->Data = Data;
 
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-
-	return IL_TRUE;
+	return iFilterEnd(Format, Type);
 }
 
 ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
@@ -1284,36 +1027,26 @@ ILboolean ILAPIENTRY iluSharpen(ILfloat Factor, ILuint Iter)
 
 ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias) {
 	ILubyte		*Data;
-	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
-	ILenum		Type = 0;
-	ILimage		*iluCurImage = ilGetCurImage();
-	
+	ILenum		Format, Type;
+
+	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 	
-	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
-	} else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
-		Converted = IL_TRUE;
-		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
-	}
+	if (!iFilterBegin(&Format, &Type))
+		return IL_FALSE;
 	
 	Data = Filter(iluCurImage, matrix, scale, bias);
-	if (!Data)
+	if (!Data) {
+		iFilterEnd(Format, Type);
 		return IL_FALSE;
+	}
 	ifree(iluCurImage->Data);
 	iluCurImage->Data = Data;
 	
-	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
-	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
-	
-	return IL_TRUE;
+	return iFilterEnd(Format, Type);
 }
 
 
-- 
2.43.0


From 1a5f658a6b31ca93600655af4b46ec1e33436ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 45/79] fix: colours and alpha of unsigned byte images can be
 scaled

---
 DevIL/src-ILU/src/ilu_filter.cpp | 48 +++++---------------------------
 1 file changed, 7 insertions(+), 41 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index db745b7..c21afcf 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -465,7 +465,7 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 		return IL_FALSE;
 	}
 
-	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) ) {
+	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) && (iluCurImage->Type != IL_UNSIGNED_BYTE) ) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -518,9 +518,6 @@ ILboolean ILAPIENTRY iluScaleAlpha(ILfloat scale)
 ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 	ILuint		i;
 	ILint		red, grn, blu, grey;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr, NumPix;
-	ILdouble	*DblPtr;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -528,7 +525,7 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 		return IL_FALSE;
 	}
 
-	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) ) {
+	if( (iluCurImage->Format != IL_COLOUR_INDEX) && (iluCurImage->Type != IL_BYTE) && (iluCurImage->Type != IL_UNSIGNED_BYTE) ) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -573,42 +570,11 @@ ILboolean ILAPIENTRY iluScaleColours(ILfloat r, ILfloat g, ILfloat b) {
 
 		case IL_LUMINANCE:
 		case IL_LUMINANCE_ALPHA:
-			NumPix = iluCurImage->SizeOfData / (iluCurImage->Bpc*iluCurImage->Bpp);
-			switch (iluCurImage->Bpc) {
-				case 1:
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(iluCurImage->Data[i] * r);
-						if (grey > UCHAR_MAX) grey = UCHAR_MAX;
-						if (grey < 0) grey = 0;
-						iluCurImage->Data[i] = (ILubyte)grey;
-					}
-					break;
-
-				case 2:
-					ShortPtr = (ILushort*)iluCurImage->Data;
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(ShortPtr[i] * r);
-						if (grey > USHRT_MAX) grey = USHRT_MAX;
-						if (grey < 0) grey = 0;
-						ShortPtr[i] = (ILushort)grey;
-					}
-					break;
-
-				case 4:
-					IntPtr = (ILuint*)iluCurImage->Data;
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						grey = (ILint)(IntPtr[i] * r);
-						if (grey < 0) grey = 0;
-						IntPtr[i] = (ILuint)grey;
-					}
-					break;
-
-				case 8:
-					DblPtr = (ILdouble*)iluCurImage->Data;
-					for (i = 0; i < NumPix; i+=iluCurImage->Bpp) {
-						DblPtr[i] = DblPtr[i] * r;
-					}
-					break;
+			for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
+				grey = (ILint)(iluCurImage->Data[i] * r);
+				if (grey > UCHAR_MAX) grey = UCHAR_MAX;
+				if (grey < 0) grey = 0;
+				iluCurImage->Data[i] = (ILubyte)grey;
 			}
 			break;
 
-- 
2.43.0


From 8cf5be96e0b2c529910ccaeee64e518a7d1707d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 46/79] fix: contrast, sharpen, gamma and saturation handle
 palettes, other types and large factors

---
 DevIL/src-ILU/src/ilu_filter.cpp | 123 ++++++++++++++++++++++---------
 1 file changed, 88 insertions(+), 35 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index c21afcf..007c78c 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -654,6 +654,11 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 		return IL_FALSE;
 	}
 
+	if (!(Gamma > 0.0f)) {
+		ilSetError(ILU_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	for (i = 0; i < 256; i++) {
 		Table[i] = (ILfloat)pow(i / 255.0, 1.0 / Gamma);
 	}
@@ -666,27 +671,33 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 	}
 	else {
 		// Not too sure if this is the correct way of handling multiple bpc's.
-		switch (iluCurImage->Bpc)
+		switch (iluCurImage->Type)
 		{
-			case 1:
+			case IL_BYTE:
+			case IL_UNSIGNED_BYTE:
 				for (i = 0; i < iluCurImage->SizeOfData; i++) {
 					iluCurImage->Data[i] = (ILubyte)(Table[iluCurImage->Data[i]] * UCHAR_MAX);
 				}
 				break;
-			case 2:
+			case IL_SHORT:
+			case IL_UNSIGNED_SHORT:
 				NumPix = iluCurImage->SizeOfData / 2;
 				ShortPtr = (ILushort*)iluCurImage->Data;
 				for (i = 0; i < NumPix; i++) {
 					ShortPtr[i] = (ILushort)(Table[ShortPtr[i] >> 8] * USHRT_MAX);
 				}
 				break;
-			case 4:
+			case IL_INT:
+			case IL_UNSIGNED_INT:
 				NumPix = iluCurImage->SizeOfData / 4;
 				IntPtr = (ILuint*)iluCurImage->Data;
 				for (i = 0; i < NumPix; i++) {
-					IntPtr[i] = (ILuint)(Table[IntPtr[i] >> 24] * UINT_MAX);
+					IntPtr[i] = (ILuint)((ILdouble)Table[IntPtr[i] >> 24] * UINT_MAX);
 				}
 				break;
+			default:
+				ilSetError(ILU_ILLEGAL_OPERATION);
+				return IL_FALSE;
 		}
 	}
 
@@ -700,22 +711,37 @@ ILboolean ILAPIENTRY iluGammaCorrect(ILfloat Gamma)
 //
 
 
-void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
+static ILubyte iClampByte(ILfloat Value)
+{
+	if (!(Value > 0.0f))
+		return 0;
+	if (Value > 255.0f)
+		return 255;
+	return (ILubyte)Value;
+}
+
+
+ILboolean iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 {
 	ILubyte	*Data = Image->Data;
 	ILuint	i;
 	ILubyte	r, g, b;
 
+	if (Image->Bpc != 1) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	switch (Image->Format)
 	{
 		case IL_RGB:
 		case IL_RGBA:
 			for (i = 0; i < Image->SizeOfData; ) {
-				r = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
+				r = iClampByte(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
 									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
-				g = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
+				g = iClampByte(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
 									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
+				b = iClampByte(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
 									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
 				Data[i]   = r;
 				Data[i+1] = g;
@@ -727,11 +753,11 @@ void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 		case IL_BGR:
 		case IL_BGRA:
 			for (i = 0; i < Image->SizeOfData; ) {
-				r = (ILubyte)(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
+				r = iClampByte(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
 									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				g = (ILubyte)(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
+				g = iClampByte(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
 									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = (ILubyte)(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
+				b = iClampByte(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
 									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
 				Data[i]   = b;
 				Data[i+1] = g;
@@ -742,10 +768,10 @@ void iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 
 		default:
 			ilSetError(ILU_ILLEGAL_OPERATION);
-			return;
+			return IL_FALSE;
 	}
 
-	return;
+	return IL_TRUE;
 }
 
 
@@ -807,9 +833,7 @@ ILboolean ILAPIENTRY iluSaturate4f(ILfloat r, ILfloat g, ILfloat b, ILfloat Satu
 		return IL_FALSE;
 	}
 
-	iApplyMatrix(iluCurImage, Mat);
-
-	return IL_TRUE;
+	return iApplyMatrix(iluCurImage, Mat);
 }
 
 
@@ -876,20 +900,20 @@ ILboolean ILAPIENTRY iluAlienify(void)
 void iIntExtImg(ILimage *Image1, ILimage *Image2, ILfloat a)
 {
 	ILuint	i;
-	ILint	d;
+	ILfloat	d;
 	ILubyte	*Data1, *Data2;
 
 	Data1 = Image1->Data;
 	Data2 = Image2->Data;
 
 	for (i = 0; i < Image2->SizeOfData; i++) {
-		d = (ILint)((1 - a) * *Data1 + a * *Data2);
+		d = (1 - a) * *Data1 + a * *Data2;
 		// Limit a pixel value to the range [0, 255]
-		if (d < 0) 
+		if (!(d > 0))
 			d = 0;
 		else if (d > 255)
 			d = 255;
-		*Data2 = d;
+		*Data2 = (ILubyte)d;
 
 		Data1++;
 		Data2++;
@@ -931,8 +955,9 @@ void iIntExtImg(ILimage *Image1, ILimage *Image2, ILfloat a)
 // Works best when Contrast is in the range [-0.5, 1.7].
 ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 {
-	ILimage	*Grey;
+	ILimage	*Grey, Target;
 	ILuint	i;
+	ILenum	Format, Type;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -940,8 +965,18 @@ ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 		return IL_FALSE;
 	}
 
-	Grey = ilNewImage(iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Bpc);
+	// The colours of an image with a palette are in the palette.
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		Grey = ilNewImage(iluCurImage->Pal.PalSize, 1, 1, 1, 1);
+	}
+	else {
+		if (!iFilterBegin(&Format, &Type))
+			return IL_FALSE;
+		Grey = ilNewImage(iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Bpc);
+	}
 	if (Grey == NULL) {
+		if (iluCurImage->Format != IL_COLOUR_INDEX)
+			iFilterEnd(Format, Type);
 		return IL_FALSE;
 	}
 
@@ -950,10 +985,18 @@ ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 		Grey->Data[i] = 127;
 	}
 
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		Target.Data = iluCurImage->Pal.Palette;
+		Target.SizeOfData = iluCurImage->Pal.PalSize;
+		iIntExtImg(Grey, &Target, Contrast);
+		ilCloseImage(Grey);
+		return IL_TRUE;
+	}
+
 	iIntExtImg(Grey, iluCurImage, Contrast);
 	ilCloseImage(Grey);
 
-	return IL_TRUE;
+	return iFilterEnd(Format, Type);
 }
 
 
@@ -961,33 +1004,43 @@ ILboolean ILAPIENTRY iluContrast(ILfloat Contrast)
 // Blurs when Factor is in the range [0.0, 1.0].
 ILboolean ILAPIENTRY iluSharpen(ILfloat Factor, ILuint Iter)
 {
-	ILimage	*Blur, *CurImage;  // iluBlur() changes iluCurImage
-	ILuint	i;
+	ILimage		*Blur, *CurImage;  // iluBlur() changes iluCurImage
+	ILuint		i;
+	ILenum		Format, Type;
+	ILboolean	Blurred;
 	
-	CurImage = ilGetCurImage();
+	iluCurImage = CurImage = ilGetCurImage();
 	if (CurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	if (!iFilterBegin(&Format, &Type))
+		return IL_FALSE;
+
 	Blur = ilNewImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Bpc);
 	if (Blur == NULL) {
+		iFilterEnd(Format, Type);
 		return IL_FALSE;
 	}
-	ilCopyImageAttr(Blur, CurImage);
+	Blur->Format = CurImage->Format;
+	Blur->Type = CurImage->Type;
+	Blur->Origin = CurImage->Origin;
+	memcpy(Blur->Data, CurImage->Data, CurImage->SizeOfData);
 
-	ilCopyPixels(0, 0, 0, CurImage->Width, CurImage->Height, 1, CurImage->Format, CurImage->Type, Blur->Data);
 	ilSetCurImage(Blur);
-	iluBlurGaussian(1);
+	Blurred = iluBlurGaussian(1);
+	ilSetCurImage(CurImage);
+	iluCurImage = CurImage;
 
-	for (i = 0; i < Iter; i++) {
-		iIntExtImg(Blur, CurImage, Factor);
+	if (Blurred) {
+		for (i = 0; i < Iter; i++) {
+			iIntExtImg(Blur, CurImage, Factor);
+		}
 	}
-
 	ilCloseImage(Blur);
-	ilSetCurImage(CurImage);
 
-	return IL_TRUE;
+	return iFilterEnd(Format, Type) && Blurred;
 }
 
 
-- 
2.43.0


From 8cb9999fadb861cb87b3b54024ee5a4b413b57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 47/79] fix: negative, wave, swap, colour count, comparison,
 replacement, equalize and noise for every kind of image

---
 DevIL/src-ILU/src/ilu_manip.cpp | 353 +++++++++++++-------------------
 DevIL/src-ILU/src/ilu_noise.cpp | 136 ++++++------
 2 files changed, 215 insertions(+), 274 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index e278be3..916d1ea 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -301,12 +301,38 @@ ILboolean ILAPIENTRY iluInvertAlpha() {
 }
 
 
+template <typename T>
+static void iNegative(T *Data, ILuint NumPix, ILuint Bpp, const ILubyte *RegionMask)
+{
+	ILuint	i, c;
+
+	for (i = 0; i < NumPix; i++, Data += Bpp) {
+		if (RegionMask && !RegionMask[i])
+			continue;
+		for (c = 0; c < Bpp; c++)
+			Data[c] = ~Data[c];
+	}
+}
+
+
+template <typename T>
+static void iNegativeFloat(T *Data, ILuint NumPix, ILuint Bpp, const ILubyte *RegionMask)
+{
+	ILuint	i, c;
+
+	for (i = 0; i < NumPix; i++, Data += Bpp) {
+		if (RegionMask && !RegionMask[i])
+			continue;
+		for (c = 0; c < Bpp; c++)
+			Data[c] = (T)1 - Data[c];
+	}
+}
+
+
 //! Inverts the colours in the image
 ILboolean ILAPIENTRY iluNegative()
 {
-	ILuint		i, j, c, *IntPtr, NumPix, Bpp;
-	ILubyte		*Data;
-	ILushort	*ShortPtr;
+	ILuint		NumPix;
 	ILubyte		*RegionMask;
 
 	iluCurImage = ilGetCurImage();
@@ -320,77 +346,43 @@ ILboolean ILAPIENTRY iluNegative()
 			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 		}
-		Data = iluCurImage->Pal.Palette;
-		i = iluCurImage->Pal.PalSize;
+		// A region does not apply to the palette.
+		iNegative<ILubyte>(iluCurImage->Pal.Palette, iluCurImage->Pal.PalSize, 1, NULL);
+		return IL_TRUE;
 	}
-	else {
-		Data = iluCurImage->Data;
-		i = iluCurImage->SizeOfData;
+
+	if (iluCurImage->Type == IL_HALF) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
 	}
 
 	RegionMask = iScanFill();
-	
-	// @TODO:  Optimize this some.
-
-	NumPix = i / iluCurImage->Bpc;
-	Bpp = iluCurImage->Bpp;
+	NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
 
-	if (RegionMask) {
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, Data += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(Data+c) = ~*(Data+c);
-					}
-				}
-				break;
+	switch (iluCurImage->Type)
+	{
+		case IL_BYTE:
+		case IL_UNSIGNED_BYTE:
+			iNegative<ILubyte>(iluCurImage->Data, NumPix, iluCurImage->Bpp, RegionMask);
+			break;
 
-			case 2:
-				ShortPtr = (ILushort*)Data;
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, ShortPtr += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(ShortPtr+c) = ~*(ShortPtr+c);
-					}
-				}
-				break;
+		case IL_SHORT:
+		case IL_UNSIGNED_SHORT:
+			iNegative<ILushort>((ILushort*)iluCurImage->Data, NumPix, iluCurImage->Bpp, RegionMask);
+			break;
 
-			case 4:
-				IntPtr = (ILuint*)Data;
-				for (j = 0, i = 0; j < NumPix; j += Bpp, i++, IntPtr += Bpp) {
-					for (c = 0; c < Bpp; c++) {
-						if (RegionMask[i])
-							*(IntPtr+c) = ~*(IntPtr+c);
-					}
-				}
-				break;
-		}
-	}
-	else {
-		switch (iluCurImage->Bpc)
-		{
-			case 1:
-				for (j = 0; j < NumPix; j++, Data++) {
-					*(Data) = ~*(Data);
-				}
-				break;
+		case IL_INT:
+		case IL_UNSIGNED_INT:
+			iNegative<ILuint>((ILuint*)iluCurImage->Data, NumPix, iluCurImage->Bpp, RegionMask);
+			break;
 
-			case 2:
-				ShortPtr = (ILushort*)Data;
-				for (j = 0; j < NumPix; j++, ShortPtr++) {
-					*(ShortPtr) = ~*(ShortPtr);
-				}
-				break;
+		case IL_FLOAT:
+			iNegativeFloat<ILfloat>((ILfloat*)iluCurImage->Data, NumPix, iluCurImage->Bpp, RegionMask);
+			break;
 
-			case 4:
-				IntPtr = (ILuint*)Data;
-				for (j = 0; j < NumPix; j++, IntPtr++) {
-					*(IntPtr) = ~*(IntPtr);
-				}
-				break;
-		}
+		case IL_DOUBLE:
+			iNegativeFloat<ILdouble>((ILdouble*)iluCurImage->Data, NumPix, iluCurImage->Bpp, RegionMask);
+			break;
 	}
 
 	ifree(RegionMask);
@@ -405,7 +397,7 @@ ILboolean ILAPIENTRY iluNegative()
 ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 {
 	ILint	Delta;
-	ILuint	y;
+	ILuint	y, z, Shift, Pixel;
 	ILubyte	*DataPtr, *TempBuff;
 
 	iluCurImage = ilGetCurImage();
@@ -414,28 +406,29 @@ ILboolean ILAPIENTRY iluWave(ILfloat Angle)
 		return IL_FALSE;
 	}
 
-	TempBuff = (ILubyte*)ialloc(iluCurImage->SizeOfData);
+	TempBuff = (ILubyte*)ialloc(iluCurImage->Bps);
 	if (TempBuff == NULL) {
 		return IL_FALSE;
 	}
-
-	for (y = 0; y < iluCurImage->Height; y++) {
-		Delta = (ILint)
-			(30 * sin((10 * Angle + y) * IL_DEGCONV) +
-			 15 * sin(( 7 * Angle + 3 * y) * IL_DEGCONV));
-
-		DataPtr = iluCurImage->Data + y * iluCurImage->Bps;
-
-		if (Delta < 0) {
-			Delta = -Delta;
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * Delta);
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * Delta, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), TempBuff, iluCurImage->Bpp * Delta);
-		}
-		else if (Delta > 0) {
-			memcpy(TempBuff, DataPtr, iluCurImage->Bpp * (iluCurImage->Width - Delta));
-			memcpy(DataPtr, DataPtr + iluCurImage->Bpp * (iluCurImage->Width - Delta), iluCurImage->Bpp * Delta);
-			memcpy(DataPtr + iluCurImage->Bpp * Delta, TempBuff, iluCurImage->Bpp * (iluCurImage->Width - Delta));
+	Pixel = iluCurImage->Bpp * iluCurImage->Bpc;
+
+	for (z = 0; z < iluCurImage->Depth; z++) {
+		for (y = 0; y < iluCurImage->Height; y++) {
+			Delta = (ILint)
+				(30 * sin((10 * Angle + y) * IL_DEGCONV) +
+				 15 * sin(( 7 * Angle + 3 * y) * IL_DEGCONV));
+
+			// Rotates the row to the right by Delta pixels (to the left when negative).
+			if (Delta < 0)
+				Shift = iluCurImage->Width - (ILuint)(-Delta) % iluCurImage->Width;
+			else
+				Shift = (ILuint)Delta % iluCurImage->Width;
+			Shift = (Shift % iluCurImage->Width) * Pixel;
+
+			DataPtr = iluCurImage->Data + z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps;
+			memcpy(TempBuff, DataPtr, iluCurImage->Bps);
+			memcpy(DataPtr, TempBuff + iluCurImage->Bps - Shift, Shift);
+			memcpy(DataPtr + Shift, TempBuff, iluCurImage->Bps - Shift);
 		}
 	}
 
@@ -457,8 +450,8 @@ ILboolean ILAPIENTRY iluSwapColours() {
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Bpp == 1) {
-		if (ilGetBppPal(iluCurImage->Pal.PalType) == 0 || iluCurImage->Format != IL_COLOUR_INDEX) {
+	if (img->Bpp == 1) {
+		if (ilGetBppPal(img->Pal.PalType) == 0 || img->Format != IL_COLOUR_INDEX) {
 			ilSetError(ILU_ILLEGAL_OPERATION);  // Can be luminance.
 			return IL_FALSE;
 		}
@@ -493,26 +486,15 @@ ILboolean ILAPIENTRY iluSwapColours() {
 			return ilConvertImage(IL_RGBA, img->Type);
 	}
 
-	ilSetError(ILU_INTERNAL_ERROR);
+	ilSetError(ILU_ILLEGAL_OPERATION);
 	return IL_FALSE;
 }
 
 
-typedef struct BUCKET { ILubyte Colours[4];  struct BUCKET *Next; } BUCKET;
-
 ILuint ILAPIENTRY iluColoursUsed()
 {
-	ILuint i, c, Bpp, ColVal, SizeData, BucketPos = 0, NumCols = 0;
-	BUCKET Buckets[8192], *Temp;
-	ILubyte ColTemp[4];
-	ILboolean Matched;
-	BUCKET *Heap[9];
-	ILuint HeapPos = 0, HeapPtr = 0, HeapSize;
-
-	imemclear(Buckets, sizeof(BUCKET) * 8192);
-	for (c = 0; c < 9; c++) {
-		Heap[c] = 0;
-	}
+	ILuint	i, j, c, Pixel, Hash, NumPix, NumCols = 0;
+	ILuint	*Heads, *Next;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -520,117 +502,62 @@ ILuint ILAPIENTRY iluColoursUsed()
 		return 0;
 	}
 
-	Bpp = iluCurImage->Bpp;
-	SizeData = iluCurImage->SizeOfData;
-
-	// Create our miniature memory heap.
-	// I have determined that the average number of colours versus
-	//	the number of pixels is about a 1:8 ratio, so divide by 8.
-	HeapSize = IL_MAX(1, iluCurImage->SizeOfData / iluCurImage->Bpp / 8);
-	Heap[0] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-	if (Heap[0] == NULL)
-		return IL_FALSE;
+	Pixel = iluCurImage->Bpp * iluCurImage->Bpc;
+	NumPix = iluCurImage->SizeOfData / Pixel;
 
-	for (i = 0; i < SizeData; i += Bpp) {
-		*(ILuint*)ColTemp = 0;
-		/*for (c = 0; c < Bpp; c++) {
-			ColTemp[c] = iluCurImage->Data[i + c];
-		}*/
-		ColTemp[0] = iluCurImage->Data[i];
-		if (Bpp > 1) {
-			ColTemp[1] = iluCurImage->Data[i + 1];
-			ColTemp[2] = iluCurImage->Data[i + 2];
-		}
-		if (Bpp > 3)
-			ColTemp[3] = iluCurImage->Data[i + 3];
+	// Hash table of the pixels that show a new colour: 0 ends a chain, pixel i is i + 1.
+	Heads = (ILuint*)icalloc(8192, sizeof(ILuint));
+	Next = (ILuint*)ialloc(NumPix * sizeof(ILuint));
+	if (Heads == NULL || Next == NULL) {
+		ifree(Heads);
+		ifree(Next);
+		return 0;
+	}
 
-		BucketPos = *(ILuint*)ColTemp % 8192;
+	for (i = 0; i < NumPix; i++) {
+		Hash = 0;
+		for (c = 0; c < Pixel; c++)
+			Hash = Hash * 31 + iluCurImage->Data[i * Pixel + c];
+		Hash %= 8192;
 
-		// Add to hash table
-		if (Buckets[BucketPos].Next == NULL) {
-			NumCols++;
-			//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-			Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-			if (HeapPtr >= HeapSize) {
-				Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-				if (Heap[HeapPos] == NULL)
-					goto alloc_error;
-				HeapPtr = 0;
-			}
-			*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
-			Buckets[BucketPos].Next->Next = NULL;
+		for (j = Heads[Hash]; j != 0; j = Next[j - 1]) {
+			if (!memcmp(iluCurImage->Data + i * Pixel, iluCurImage->Data + (j - 1) * Pixel, Pixel))
+				break;
 		}
-		else {
-			Matched = IL_FALSE;
-			Temp = Buckets[BucketPos].Next;
-
-			ColVal = *(ILuint*)ColTemp;
-			while (Temp->Next != NULL) {
-				if (ColVal == *(ILuint*)Temp->Colours) {
-					Matched = IL_TRUE;
-					break;
-				}
-				Temp = Temp->Next;
-			}
-			if (!Matched) {
-				if (ColVal != *(ILuint*)Temp->Colours) {  // Check against last entry
-					NumCols++;
-					Temp = Buckets[BucketPos].Next;
-					//Buckets[BucketPos].Next = (BUCKET*)ialloc(sizeof(BUCKET));
-					Buckets[BucketPos].Next = Heap[HeapPos] + HeapPtr++;
-					if (HeapPtr >= HeapSize) {
-						Heap[++HeapPos] = (BUCKET*)ialloc(HeapSize * sizeof(BUCKET));
-						if (Heap[HeapPos] == NULL)
-							goto alloc_error;
-						HeapPtr = 0;
-					}
-					Buckets[BucketPos].Next->Next = Temp;
-					*(ILuint*)Buckets[BucketPos].Next->Colours = *(ILuint*)ColTemp;
-				}
-			}
+		if (j == 0) {
+			NumCols++;
+			Next[i] = Heads[Hash];
+			Heads[Hash] = i + 1;
 		}
 	}
 
-	// Delete our mini heap.
-	for (i = 0; i < 9; i++) {
-		if (Heap[i] == NULL)
-			break;
-		ifree(Heap[i]);
-	}
+	ifree(Heads);
+	ifree(Next);
 
 	return NumCols;
-
-alloc_error:
-	for (i = 0; i < 9; i++) {
-		ifree(Heap[i]);
-	}
-
-	return 0;
 }
 
 
 ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 {
 	ILimage		*Original;
-	ILuint		OrigName, i;
-	ILboolean	Same = IL_TRUE;
+	ILuint		OrigName;
+	ILboolean	Same;
 
 	iluCurImage = ilGetCurImage();
 	OrigName = ilGetCurName();
 
-	// Same image, so return true.
-	if (ilGetCurName() == Comp)
-		return IL_TRUE;
-
 	if (iluCurImage == NULL || ilIsImage(Comp) == IL_FALSE) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return 0;
 	}
 
 	ilBindImage(Comp);
-    Original = ilGetCurImage();
+	Original = ilGetCurImage();
+	// The current image may be a sub-image of the bound one.
+	ilBindImage(OrigName);
+	ilSetCurImage(iluCurImage);
 
-	// @TODO:  Should we check palettes, too?
 	if (Original->Bpp != iluCurImage->Bpp       ||
 		Original->Depth != iluCurImage->Depth   ||
 		Original->Format != iluCurImage->Format ||
@@ -638,18 +565,16 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 		Original->Origin != iluCurImage->Origin ||
 		Original->Type != iluCurImage->Type ||
 		Original->Width != iluCurImage->Width) {
-			ilBindImage(OrigName);
 			return IL_FALSE;
 	}
 
-	for (i = 0; i < iluCurImage->SizeOfData; i++) {
-		if (Original->Data[i] != iluCurImage->Data[i]) {
-			Same = IL_FALSE;
-			break;
-		}
+	Same = memcmp(Original->Data, iluCurImage->Data, iluCurImage->SizeOfData) == 0;
+	if (Same && iluCurImage->Format == IL_COLOUR_INDEX) {
+		Same = Original->Pal.PalType == iluCurImage->Pal.PalType &&
+			Original->Pal.PalSize == iluCurImage->Pal.PalSize &&
+			memcmp(Original->Pal.Palette, iluCurImage->Pal.Palette, iluCurImage->Pal.PalSize) == 0;
 	}
 
-	ilBindImage(OrigName);
 	return Same;
 }
 
@@ -667,6 +592,11 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 		return 0;
 	}
 
+	if (iluCurImage->Bpc > 1) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	ilGetClear(ClearCol, IL_RGBA, IL_UNSIGNED_BYTE);
 	if (Tolerance > 1.0f || Tolerance < -1.0f)
 		Tolerance = 1.0f;  // Clamp it.
@@ -697,9 +627,9 @@ ILboolean ILAPIENTRY iluReplaceColour(ILubyte Red, ILubyte Green, ILubyte Blue,
 			case IL_BGR:
 			case IL_BGRA:
 				for (i = 0; i < iluCurImage->SizeOfData; i += iluCurImage->Bpp) {
-					Dist1 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[0];
+					Dist1 = (ILint)iluCurImage->Data[i] - (ILint)ClearCol[2];
 					Dist2 = (ILint)iluCurImage->Data[i+1] - (ILint)ClearCol[1];
-					Dist3 = (ILint)iluCurImage->Data[i+2] - (ILint)ClearCol[2];
+					Dist3 = (ILint)iluCurImage->Data[i+2] - (ILint)ClearCol[0];
 					Distance = (ILint)sqrt((float)(Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3));
 					if (Distance >= -TolVal && Distance <= TolVal) {
 						iluCurImage->Data[i+2] = Red;
@@ -736,7 +666,7 @@ ILboolean ILAPIENTRY iluEqualize() {
 	ILint	Intensity;
 	ILfloat	Scale;
 	ILint	IntensityNew;
-	ILimage	*LumImage;
+	ILimage	*LumImage, *PalImage;
 	ILuint	NewColour[4];
 	ILubyte		*BytePtr;
 	ILushort	*ShortPtr;
@@ -768,7 +698,19 @@ ILboolean ILAPIENTRY iluEqualize() {
 	imemclear(Histogram, 256 * sizeof(ILuint));
 	imemclear(SumHistm,  256 * sizeof(ILuint));
 
-	LumImage = iConvertImage(iluCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE); // the type must be left as it is!
+	if (iluCurImage->Format == IL_COLOUR_INDEX) {
+		// The colours are those of the palette.
+		PalImage = ilNewImage(NumPixels, 1, 1, Bpp, 1);
+		if (PalImage == NULL)
+			return IL_FALSE;
+		PalImage->Format = ilGetPalBaseType(iluCurImage->Pal.PalType);
+		PalImage->Type = IL_UNSIGNED_BYTE;
+		memcpy(PalImage->Data, iluCurImage->Pal.Palette, NumPixels * Bpp);
+		LumImage = iConvertImage(PalImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
+		ilCloseImage(PalImage);
+	} else {
+		LumImage = iConvertImage(iluCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE); // the type must be left as it is!
+	}
 	if (LumImage == NULL)
 		return IL_FALSE;
 	for (i = 0; i < NumPixels; i++) {
@@ -797,16 +739,16 @@ ILboolean ILAPIENTRY iluEqualize() {
 		IntensityNew = (ILint)SumHistm[Intensity];
 
 		// Find out by how much the intensity has been Scaled
-		Scale = (ILfloat)IntensityNew / (ILfloat)Intensity;
+		Scale = Intensity == 0 ? 0.0f : (ILfloat)IntensityNew / (ILfloat)Intensity;
 
 		switch (iluCurImage->Bpc)
 		{
 			case 1:
 				// Calculate new pixel(s)
-				NewColour[0] = (ILuint)(BytePtr[i * iluCurImage->Bpp] * Scale);
+				NewColour[0] = (ILuint)(BytePtr[i * Bpp] * Scale);
 				if (Bpp >= 3) {
-					NewColour[1] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 1] * Scale);
-					NewColour[2] = (ILuint)(BytePtr[i * iluCurImage->Bpp + 2] * Scale);
+					NewColour[1] = (ILuint)(BytePtr[i * Bpp + 1] * Scale);
+					NewColour[2] = (ILuint)(BytePtr[i * Bpp + 2] * Scale);
 				}
 
 				// Clamp values
@@ -820,10 +762,10 @@ ILboolean ILAPIENTRY iluEqualize() {
 				}
 
 				// Store pixel(s)
-				BytePtr[i * iluCurImage->Bpp] = (ILubyte)NewColour[0];
+				BytePtr[i * Bpp] = (ILubyte)NewColour[0];
 				if (Bpp >= 3) {
-					BytePtr[i * iluCurImage->Bpp + 1]	= (ILubyte)NewColour[1];
-					BytePtr[i * iluCurImage->Bpp + 2]	= (ILubyte)NewColour[2];
+					BytePtr[i * Bpp + 1]	= (ILubyte)NewColour[1];
+					BytePtr[i * Bpp + 2]	= (ILubyte)NewColour[2];
 				}
 				break;
 
@@ -898,7 +840,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	// Start of the Modified Von Kries hypothesis
 
 	ILdouble ChanAvgs[3] = { 0.0, 0.0, 0.0 };
-	ILuint NumPix = iluCurImage->Width * iluCurImage->Height;
+	ILuint NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
 	if (NumPix < 1) {
 		ilSetError(IL_INTERNAL_ERROR);
 		return IL_FALSE;
@@ -976,6 +918,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	for (ILuint c = 0; c < 3; c++) {
 		if ((MaxVals[c] - MinVals[c]) < 1.0) {
 			// This is the case if an image is a solid color. The original image is unmodified.
+			ifree(Corrected);
 			return IL_FALSE;
 		}
 	}
diff --git a/DevIL/src-ILU/src/ilu_noise.cpp b/DevIL/src-ILU/src/ilu_noise.cpp
index 90375b2..5869890 100644
--- a/DevIL/src-ILU/src/ilu_noise.cpp
+++ b/DevIL/src-ILU/src/ilu_noise.cpp
@@ -17,94 +17,92 @@
 #include <limits.h>
 
 
+// Adds the same noise in [-Factor, Factor) to every channel of a pixel.
+template <typename T>
+static void iNoisify(T *Data, ILint64 Factor, ILint64 Min, ILint64 Max, const ILubyte *RegionMask)
+{
+	ILuint	i, c, NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
+	ILint64	Val, Sum;
+
+	if (Factor == 0)
+		return;
+
+	for (i = 0; i < NumPix; i++, Data += iluCurImage->Bpp) {
+		if (RegionMask && !RegionMask[i])
+			continue;
+		Val = (ILint64)rand() % (Factor * 2) - Factor;
+		for (c = 0; c < iluCurImage->Bpp; c++) {
+			Sum = (ILint64)Data[c] + Val;
+			Data[c] = (T)IL_MIN(IL_MAX(Sum, Min), Max);
+		}
+	}
+}
+
+
+template <typename T>
+static void iNoisifyFloat(T *Data, T Factor, const ILubyte *RegionMask)
+{
+	ILuint	i, c, NumPix = iluCurImage->Width * iluCurImage->Height * iluCurImage->Depth;
+	T		Val, Sum;
+
+	if (Factor == 0)
+		return;
+
+	for (i = 0; i < NumPix; i++, Data += iluCurImage->Bpp) {
+		if (RegionMask && !RegionMask[i])
+			continue;
+		Val = ((T)rand() / RAND_MAX * 2 - 1) * Factor;
+		for (c = 0; c < iluCurImage->Bpp; c++) {
+			Sum = Data[c] + Val;
+			Data[c] = IL_MIN(IL_MAX(Sum, (T)0), (T)1);
+		}
+	}
+}
+
+
 // Very simple right now.
 //	This will probably use Perlin noise and parameters in the future.
 ILboolean ILAPIENTRY iluNoisify(ILclampf Tolerance)
 {
-	ILuint		i, j, c, Factor, Factor2, NumPix;
-	ILint		Val;
-	ILushort	*ShortPtr;
-	ILuint		*IntPtr;
 	ILubyte		*RegionMask;
 
 	iluCurImage = ilGetCurImage();
-	if (iluCurImage == NULL) {
+	if (iluCurImage == NULL || iluCurImage->Type == IL_HALF) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	Tolerance = IL_MIN(IL_MAX(Tolerance, 0.0f), 1.0f);
 	RegionMask = iScanFill();
 
 	// @TODO:  Change this to work correctly without time()!
 	//srand(time(NULL));
-	NumPix = iluCurImage->SizeOfData / iluCurImage->Bpc;
 
-	switch (iluCurImage->Bpc)
+	switch (iluCurImage->Type)
 	{
-		case 1:
-			Factor = (ILubyte)(Tolerance * (UCHAR_MAX / 2));
-			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
-			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
-				if (RegionMask) {
-					if (!RegionMask[j])
-						continue;
-				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if ((ILint)iluCurImage->Data[i + c] + Val > UCHAR_MAX)
-						iluCurImage->Data[i + c] = UCHAR_MAX;
-					else if ((ILint)iluCurImage->Data[i + c] + Val < 0)
-						iluCurImage->Data[i + c] = 0;
-					else
-						iluCurImage->Data[i + c] += Val;
-				}
-			}
+		case IL_BYTE:
+			iNoisify<ILbyte>((ILbyte*)iluCurImage->Data, (ILint64)(Tolerance * (UCHAR_MAX / 2)), SCHAR_MIN, SCHAR_MAX, RegionMask);
 			break;
-		case 2:
-			Factor = (ILushort)(Tolerance * (USHRT_MAX / 2));
-			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
-			ShortPtr = (ILushort*)iluCurImage->Data;
-			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
-				if (RegionMask) {
-					if (!RegionMask[j])
-						continue;
-				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if ((ILint)ShortPtr[i + c] + Val > USHRT_MAX)
-						ShortPtr[i + c] = USHRT_MAX;
-					else if ((ILint)ShortPtr[i + c] + Val < 0)
-						ShortPtr[i + c] = 0;
-					else
-						ShortPtr[i + c] += Val;
-				}
-			}
+		case IL_UNSIGNED_BYTE:
+			iNoisify<ILubyte>(iluCurImage->Data, (ILint64)(Tolerance * (UCHAR_MAX / 2)), 0, UCHAR_MAX, RegionMask);
 			break;
-		case 4:
-			Factor = (ILuint)(Tolerance * (UINT_MAX / 2));
-			if (Factor == 0)
-				return IL_TRUE;
-			Factor2 = Factor + Factor;
-			IntPtr = (ILuint*)iluCurImage->Data;
-			for (i = 0, j = 0; i < NumPix; i += iluCurImage->Bpp, j++) {
-				if (RegionMask) {
-					if (!RegionMask[j])
-						continue;
-				}
-				Val = (ILint)((ILint)(rand() % Factor2) - Factor);
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					if (IntPtr[i + c] + Val > UINT_MAX)
-						IntPtr[i + c] = UINT_MAX;
-					else if ((ILint)IntPtr[i + c] + Val < 0)
-						IntPtr[i + c] = 0;
-					else
-						IntPtr[i + c] += Val;
-				}
-			}
+		case IL_SHORT:
+			iNoisify<ILshort>((ILshort*)iluCurImage->Data, (ILint64)(Tolerance * (USHRT_MAX / 2)), SHRT_MIN, SHRT_MAX, RegionMask);
+			break;
+		case IL_UNSIGNED_SHORT:
+			iNoisify<ILushort>((ILushort*)iluCurImage->Data, (ILint64)(Tolerance * (USHRT_MAX / 2)), 0, USHRT_MAX, RegionMask);
+			break;
+		case IL_INT:
+			iNoisify<ILint>((ILint*)iluCurImage->Data, (ILint64)((ILdouble)Tolerance * (UINT_MAX / 2)), INT_MIN, INT_MAX, RegionMask);
+			break;
+		case IL_UNSIGNED_INT:
+			iNoisify<ILuint>((ILuint*)iluCurImage->Data, (ILint64)((ILdouble)Tolerance * (UINT_MAX / 2)), 0, UINT_MAX, RegionMask);
+			break;
+		case IL_FLOAT:
+			iNoisifyFloat<ILfloat>((ILfloat*)iluCurImage->Data, Tolerance * 0.5f, RegionMask);
+			break;
+		case IL_DOUBLE:
+			iNoisifyFloat<ILdouble>((ILdouble*)iluCurImage->Data, Tolerance * 0.5, RegionMask);
 			break;
 	}
 
-- 
2.43.0


From 8add473e7dfcea8a90c773fb8d2aaf4d87680b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 48/79] fix: ILU error strings follow the language order,
 placement can be queried, iluLoadImage binds its image

---
 DevIL/src-ILU/src/ilu_error.cpp  | 6 +++---
 DevIL/src-ILU/src/ilu_main.cpp   | 1 +
 DevIL/src-ILU/src/ilu_states.cpp | 4 ++++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_error.cpp b/DevIL/src-ILU/src/ilu_error.cpp
index a954a00..236edb9 100644
--- a/DevIL/src-ILU/src/ilu_error.cpp
+++ b/DevIL/src-ILU/src/ilu_error.cpp
@@ -31,10 +31,10 @@ ILconst_string *iluErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluErrorStringsEnglish,
 	iluErrorStringsArabic,
 	iluErrorStringsDutch,
-	iluErrorStringsFrench,
 	iluErrorStringsJapanese,
 	iluErrorStringsSpanish,
 	iluErrorStringsGerman,
+	iluErrorStringsFrench,
 	iluErrorStringsItalian
 };
 
@@ -42,10 +42,10 @@ ILconst_string *iluLibErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluLibErrorStringsEnglish,
 	iluLibErrorStringsArabic,
 	iluLibErrorStringsDutch,
-	iluLibErrorStringsFrench,
 	iluLibErrorStringsJapanese,
 	iluLibErrorStringsSpanish,
 	iluLibErrorStringsGerman,
+	iluLibErrorStringsFrench,
 	iluLibErrorStringsItalian
 };
 
@@ -53,10 +53,10 @@ ILconst_string *iluMiscErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluMiscErrorStringsEnglish,
 	iluMiscErrorStringsArabic,
 	iluMiscErrorStringsDutch,
-	iluMiscErrorStringsFrench,
 	iluMiscErrorStringsJapanese,
 	iluMiscErrorStringsSpanish,
 	iluMiscErrorStringsGerman,
+	iluMiscErrorStringsFrench,
 	iluMiscErrorStringsItalian
 };
 
diff --git a/DevIL/src-ILU/src/ilu_main.cpp b/DevIL/src-ILU/src/ilu_main.cpp
index 535ae94..986014e 100644
--- a/DevIL/src-ILU/src/ilu_main.cpp
+++ b/DevIL/src-ILU/src/ilu_main.cpp
@@ -62,6 +62,7 @@ ILuint ILAPIENTRY iluLoadImage(ILconst_string FileName)
 	ilGenImages(1, &Id);
 	if (Id == 0)
 		return 0;
+	ilBindImage(Id);
 	if (!ilLoadImage(FileName)) {
 		ilDeleteImages(1, &Id);
 		return 0;
diff --git a/DevIL/src-ILU/src/ilu_states.cpp b/DevIL/src-ILU/src/ilu_states.cpp
index f3a998c..f8090a7 100644
--- a/DevIL/src-ILU/src/ilu_states.cpp
+++ b/DevIL/src-ILU/src/ilu_states.cpp
@@ -48,6 +48,10 @@ void ILAPIENTRY iluGetIntegerv(ILenum Mode, ILint *Param)
 			*Param = iluFilter;
 			break;
 
+		case ILU_PLACEMENT:
+			*Param = iluPlacement;
+			break;
+
 		default:
 			ilSetError(ILU_INVALID_ENUM);
 	}
-- 
2.43.0


From 78ccd71cfbfb54c887877ee871547b7908ac0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 49/79] fix: saturation of BGR images weighs the right channels

---
 DevIL/src-ILU/src/ilu_filter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 007c78c..fc79f57 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -753,12 +753,12 @@ ILboolean iApplyMatrix(ILimage *Image, ILfloat Mat[4][4])
 		case IL_BGR:
 		case IL_BGRA:
 			for (i = 0; i < Image->SizeOfData; ) {
-				r = iClampByte(Data[i] * Mat[0][2] + Data[i+1] * Mat[1][2] +
-									Data[i+2] * Mat[2][2]);// + Mat[3][2]);
-				g = iClampByte(Data[i] * Mat[0][1] + Data[i+1] * Mat[1][1] +
-									Data[i+2] * Mat[2][1]);// + Mat[3][1]);
-				b = iClampByte(Data[i] * Mat[0][0] + Data[i+1] * Mat[1][0] +
-									Data[i+2] * Mat[2][0]);// + Mat[3][0]);
+				r = iClampByte(Data[i+2] * Mat[0][0] + Data[i+1] * Mat[1][0] +
+									Data[i] * Mat[2][0]);// + Mat[3][0]);
+				g = iClampByte(Data[i+2] * Mat[0][1] + Data[i+1] * Mat[1][1] +
+									Data[i] * Mat[2][1]);// + Mat[3][1]);
+				b = iClampByte(Data[i+2] * Mat[0][2] + Data[i+1] * Mat[1][2] +
+									Data[i] * Mat[2][2]);// + Mat[3][2]);
 				Data[i]   = b;
 				Data[i+1] = g;
 				Data[i+2] = r;
-- 
2.43.0


From 05b6ec8acf4b4fadbb513931379fb499e41c84cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 50/79] fix: rounding let regions cover points outside of their
 polygon

---
 DevIL/src-ILU/include/ilu_region.h | 3 ++-
 DevIL/src-ILU/src/ilu_region.cpp   | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-ILU/include/ilu_region.h b/DevIL/src-ILU/include/ilu_region.h
index d0bcf15..b2d1b50 100644
--- a/DevIL/src-ILU/include/ilu_region.h
+++ b/DevIL/src-ILU/include/ilu_region.h
@@ -19,7 +19,8 @@
 typedef struct Edge
 {
 	ILint	yUpper;
-	ILfloat	xIntersect, dxPerScan;
+	ILfloat	xIntersect;
+	ILpointi	lower, upper;
 	struct	Edge *next;
 } Edge;
 
diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 4bbbfb1..94627d7 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -114,12 +114,13 @@ ILint yNext(ILint k, ILint cnt, ILpointi *pts)
 }
 
 
-// Store lower-y coordinate and inverse slope for each edge.  Adjust
+// Store lower-y coordinate and end points for each edge.  Adjust
 //	and store upper-y coordinate for edges that are the lower member
 //	of a monotonically increasing or decreasing pair of edges
 void MakeEdgeRec(ILpointi lower, ILpointi upper, ILint yComp, Edge *edge, Edge *edges[])
 {
-	edge->dxPerScan = (ILfloat)(upper.x - lower.x) / (upper.y - lower.y);
+	edge->lower = lower;
+	edge->upper = upper;
 	edge->xIntersect = (ILfloat)lower.x;
 	if (upper.y < yComp)
 		edge->yUpper = upper.y - 1;
@@ -212,7 +213,9 @@ void UpdateActiveList(ILint scan, Edge *active)
 			DeleteAfter(q);
 		}
 		else {
-			p->xIntersect = p->xIntersect + p->dxPerScan;
+			// Adding up the slope would let rounding errors leave the polygon.
+			p->xIntersect = (ILfloat)(p->lower.x + (ILdouble)(scan + 1 - p->lower.y) *
+				(p->upper.x - p->lower.x) / (p->upper.y - p->lower.y));
 			q = p;
 			p = p->next;
 		}
-- 
2.43.0


From 1ad3047037c8821c40b3ee6bc3a7c4fe5bb4fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 51/79] fix: counting the colours of a small image needs no
 large table

---
 DevIL/src-ILU/src/ilu_manip.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 916d1ea..3625990 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -493,7 +493,7 @@ ILboolean ILAPIENTRY iluSwapColours() {
 
 ILuint ILAPIENTRY iluColoursUsed()
 {
-	ILuint	i, j, c, Pixel, Hash, NumPix, NumCols = 0;
+	ILuint	i, j, c, Pixel, Hash, NumPix, NumHeads = 1, NumCols = 0;
 	ILuint	*Heads, *Next;
 
 	iluCurImage = ilGetCurImage();
@@ -506,7 +506,9 @@ ILuint ILAPIENTRY iluColoursUsed()
 	NumPix = iluCurImage->SizeOfData / Pixel;
 
 	// Hash table of the pixels that show a new colour: 0 ends a chain, pixel i is i + 1.
-	Heads = (ILuint*)icalloc(8192, sizeof(ILuint));
+	while (NumHeads < NumPix && NumHeads < 8192)
+		NumHeads *= 2;
+	Heads = (ILuint*)icalloc(NumHeads, sizeof(ILuint));
 	Next = (ILuint*)ialloc(NumPix * sizeof(ILuint));
 	if (Heads == NULL || Next == NULL) {
 		ifree(Heads);
@@ -518,7 +520,7 @@ ILuint ILAPIENTRY iluColoursUsed()
 		Hash = 0;
 		for (c = 0; c < Pixel; c++)
 			Hash = Hash * 31 + iluCurImage->Data[i * Pixel + c];
-		Hash %= 8192;
+		Hash %= NumHeads;
 
 		for (j = Heads[Hash]; j != 0; j = Next[j - 1]) {
 			if (!memcmp(iluCurImage->Data + i * Pixel, iluCurImage->Data + (j - 1) * Pixel, Pixel))
-- 
2.43.0


From 1e107e3d995c070d226f1e1f893401c984e443d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 52/79] fix: recognising a file type read uninitialised headers
 of short files

---
 DevIL/src-IL/src/il_blp.cpp  |  6 ++++--
 DevIL/src-IL/src/il_dds.cpp  |  6 ++++--
 DevIL/src-IL/src/il_icns.cpp |  3 ++-
 DevIL/src-IL/src/il_lif.cpp  |  3 ++-
 DevIL/src-IL/src/il_pic.cpp  |  4 ++--
 DevIL/src-IL/src/il_png.cpp  |  2 ++
 DevIL/src-IL/src/il_psd.cpp  | 12 +++++++-----
 DevIL/src-IL/src/il_xpm.cpp  |  3 ++-
 8 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index 85fbc4d..1c369ff 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -121,7 +121,8 @@ ILboolean iGetBlp2Head(BLP2HEAD *Header)
 {
 	ILuint i;
 
-	iread(Header->Sig, 1, 4);
+	if (iread(Header->Sig, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Type = GetLittleUInt();
 	Header->Compression = igetc();
 	Header->AlphaBits = igetc();
@@ -512,7 +513,8 @@ ILboolean iGetBlp1Head(BLP1HEAD *Header)
 {
 	ILuint i;
 
-	iread(Header->Sig, 1, 4);
+	if (iread(Header->Sig, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Compression = GetLittleUInt();
 	Header->Flags = GetLittleUInt();
 	Header->Width = GetLittleUInt();
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index a1df617..36b63fb 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -102,7 +102,8 @@ ILboolean iGetDdsHead(DDSHEAD *Header)
 {
 	ILint i;
 
-	iread(&Header->Signature, 1, 4);
+	if (iread(&Header->Signature, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Size1 = GetLittleUInt();
 	Header->Flags1 = GetLittleUInt();
 	Header->Height = GetLittleUInt();
@@ -155,7 +156,8 @@ ILboolean iIsValidDds()
 	ILboolean	IsValid;
 	DDSHEAD		Head;
 
-	iGetDdsHead(&Head);
+	if (!iGetDdsHead(&Head))
+		return IL_FALSE;
 	iseek(-(ILint)sizeof(DDSHEAD), IL_SEEK_CUR);  // Go ahead and restore to previous state
 
 	IsValid = iCheckDds(&Head);
diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index 89cf47f..8366c7a 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -86,7 +86,8 @@ ILboolean iIsValidIcns()
 {
 	ICNSHEAD	Header;
 
-	iread(Header.Head, 1, 4);
+	if (iread(Header.Head, 1, 4) != 4)
+		return IL_FALSE;
 	iseek(-4, IL_SEEK_CUR);  // Go ahead and restore to previous state
 
 	if (strncmp(Header.Head, "icns", 4))  // First 4 bytes have to be 'icns'.
diff --git a/DevIL/src-IL/src/il_lif.cpp b/DevIL/src-IL/src/il_lif.cpp
index 0118f69..01aa700 100644
--- a/DevIL/src-IL/src/il_lif.cpp
+++ b/DevIL/src-IL/src/il_lif.cpp
@@ -67,7 +67,8 @@ ILboolean ilIsValidLifL(const void *Lump, ILuint Size)
 ILboolean iGetLifHead(LIF_HEAD *Header)
 {
 
-	iread(Header->Id, 1, 8);
+	if (iread(Header->Id, 1, 8) != 8)
+		return IL_FALSE;
 
 	Header->Version = GetLittleUInt();
 
diff --git a/DevIL/src-IL/src/il_pic.cpp b/DevIL/src-IL/src/il_pic.cpp
index ea0ad58..48e99ab 100644
--- a/DevIL/src-IL/src/il_pic.cpp
+++ b/DevIL/src-IL/src/il_pic.cpp
@@ -70,8 +70,8 @@ ILboolean iGetPicHead(PIC_HEAD *Header)
 {
 	Header->Magic = GetBigInt();
 	Header->Version = GetBigFloat();
-	iread(Header->Comment, 1, 80);
-	iread(Header->Id, 1, 4);
+	if (iread(Header->Comment, 1, 80) != 80 || iread(Header->Id, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Width = GetBigShort();
 	Header->Height = GetBigShort();
 	Header->Ratio = GetBigFloat();
diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 5ceb645..c45c773 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -99,6 +99,8 @@ ILboolean iIsValidPng()
 
 	Read = iread(Signature, 1, 8);
 	iseek(-Read, IL_SEEK_CUR);
+	if (Read != 8)
+		return IL_FALSE;
 
 	return !png_sig_cmp(Signature, 0, 8);  // DW 5/2/2016: They changed the behavior of this function?
 }
diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index 198d255..de75451 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -90,9 +90,11 @@ ILboolean ilIsValidPsdL(const void *Lump, ILuint Size)
 // Internal function used to get the Psd header from the current file.
 ILboolean iGetPsdHead(PSDHEAD *Header)
 {
-	iread(Header->Signature, 1, 4);
+	if (iread(Header->Signature, 1, 4) != 4)
+		return IL_FALSE;
 	Header->Version = GetBigUShort();
-	iread(Header->Reserved, 1, 6);
+	if (iread(Header->Reserved, 1, 6) != 6)
+		return IL_FALSE;
 	Header->Channels = GetBigUShort();
 	Header->Height = GetBigUInt();
 	Header->Width = GetBigUInt();
@@ -108,7 +110,8 @@ ILboolean iIsValidPsd()
 {
 	PSDHEAD	Head;
 
-	iGetPsdHead(&Head);
+	if (!iGetPsdHead(&Head))
+		return IL_FALSE;
 	iseek(-(ILint)sizeof(PSDHEAD), IL_SEEK_CUR);
 
 	return iCheckPsd(&Head);
@@ -191,8 +194,7 @@ ILboolean iLoadPsdInternal()
 		return IL_FALSE;
 	}
 
-	iGetPsdHead(&Header);
-	if (!iCheckPsd(&Header)) {
+	if (!iGetPsdHead(&Header) || !iCheckPsd(&Header)) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 4b4a3e8..9f5899a 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -78,7 +78,8 @@ ILboolean iIsValidXpm(void)
 	ILubyte	Buffer[10];
 	ILuint	Pos = itell();
 
-	XpmGetsInternal(Buffer, 10);
+	if (XpmGetsInternal(Buffer, 10) == IL_EOF)
+		return IL_FALSE;
 	iseek(Pos, IL_SEEK_SET);  // Restore position
 
 	if (strncmp("/* XPM */", (char*)Buffer, strlen("/* XPM */")))
-- 
2.43.0


From 19894150db12e9693e7b5b590b783c0f153fb029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 53/79] fix: files written behind other data counted their
 offsets from the start of the file

---
 DevIL/src-IL/src/il_files.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 4a0ff15..e1a781a 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -354,6 +354,7 @@ void iSetOutputFile(ILHANDLE File)
 	itellw = iTellWFile;
 	iwrite = iWriteFile;
 	FileWrite = File;
+	WriteFileStart = TellWProc(FileWrite);
 }
 
 
@@ -765,7 +766,8 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 
 ILuint ILAPIENTRY iTellWFile(void)
 {
-	return TellWProc(FileWrite);
+	// Positions are counted from where the file was when it was handed to us, as iseekw does.
+	return TellWProc(FileWrite) - WriteFileStart;
 }
 
 
-- 
2.43.0


From a3c9a70350849977f87274a5be69175e79fc8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 54/79] fix: a file of a recognised type was loaded with errors
 left behind, one of no type was refused without any

---
 DevIL/src-IL/include/il_internal.h |  2 ++
 DevIL/src-IL/src/il_error.cpp      | 23 +++++++++++++++++++++
 DevIL/src-IL/src/il_io.cpp         | 32 ++++++++++++++++++++++++++++--
 3 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 4ea71a4..7500ec0 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -184,6 +184,8 @@ ILint					iGetInt(ILenum Mode);
 void					ilRemoveRegistered(void);
 ILAPI void ILAPIENTRY	ilSetCurImage(ILimage *Image);
 ILuint					ilDetermineSize(ILenum Type);
+void					iSaveErrors(void);
+void					iRestoreErrors(void);
 //
 // Rle compression
 //
diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 159c7df..59be301 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -12,6 +12,7 @@
 
 
 #include "il_internal.h"
+#include <string.h>
 
 
 #define IL_ERROR_STACK_SIZE 32  // Needed elsewhere?
@@ -54,3 +55,25 @@ ILenum ILAPIENTRY ilGetError(void)
 
 	return ilReturn;
 }
+
+
+static ILenum	SavedErrorNum[IL_ERROR_STACK_SIZE];
+static ILint	SavedErrorPlace = (-1);
+
+
+// Remembers the errors that have been reported so far.
+void iSaveErrors()
+{
+	memcpy(SavedErrorNum, ilErrorNum, sizeof(ilErrorNum));
+	SavedErrorPlace = ilErrorPlace;
+	return;
+}
+
+
+// Forgets all errors since the last iSaveErrors().
+void iRestoreErrors()
+{
+	memcpy(ilErrorNum, SavedErrorNum, sizeof(ilErrorNum));
+	ilErrorPlace = SavedErrorPlace;
+	return;
+}
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 9a44b73..2129fe0 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -191,7 +191,7 @@ ILenum ILAPIENTRY ilDetermineType(ILconst_string FileName)
 }
 
 
-ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
+static ILenum iDetermineTypeF(ILHANDLE File)
 {
 	if (File == NULL)
 		return IL_TYPE_UNKNOWN;
@@ -347,7 +347,20 @@ ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
 }
 
 
-ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
+ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
+{
+	ILenum	Type;
+
+	// That the file is of none of the other types is not an error.
+	iSaveErrors();
+	Type = iDetermineTypeF(File);
+	iRestoreErrors();
+
+	return Type;
+}
+
+
+static ILenum iDetermineTypeL(const void *Lump, ILuint Size)
 {
 	if (Lump == NULL)
 		return IL_TYPE_UNKNOWN;
@@ -503,6 +516,19 @@ ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
 }
 
 
+ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
+{
+	ILenum	Type;
+
+	// That the file is of none of the other types is not an error.
+	iSaveErrors();
+	Type = iDetermineTypeL(Lump, Size);
+	iRestoreErrors();
+
+	return Type;
+}
+
+
 ILboolean ILAPIENTRY ilIsValid(ILenum Type, ILconst_string FileName)
 {
 	if (FileName == NULL) {
@@ -1346,6 +1372,7 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
+			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 
 		#ifndef IL_NO_TGA
@@ -1616,6 +1643,7 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
+			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 
 		#ifndef IL_NO_TGA
-- 
2.43.0


From 7ea2f6a06cafe966feff6c97fb665a17c9d9471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 55/79] fix: saving to a full disk or into too small a buffer
 was reported as done, size 0 was not honoured

---
 DevIL/src-IL/include/il_internal.h |  2 +
 DevIL/src-IL/src/il_files.cpp      | 44 ++++++++++++---
 DevIL/src-IL/src/il_io.cpp         | 88 +++++++++++++++++++++++-------
 3 files changed, 105 insertions(+), 29 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 7500ec0..02433cf 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -186,6 +186,8 @@ ILAPI void ILAPIENTRY	ilSetCurImage(ILimage *Image);
 ILuint					ilDetermineSize(ILenum Type);
 void					iSaveErrors(void);
 void					iRestoreErrors(void);
+void					iResetWriteError(void);
+ILboolean				iGetWriteError(void);
 //
 // Rle compression
 //
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index e1a781a..0fe8798 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -670,18 +670,46 @@ const ILubyte* ILAPIENTRY iGetLump(void) {
 
 
 
+// Whether something could not be written since the last iResetWriteError().
+static ILboolean WriteError = IL_FALSE;
+
+static void iWriteFailed(void)
+{
+	if (!WriteError)
+		ilSetError(IL_FILE_WRITE_ERROR);
+	WriteError = IL_TRUE;
+}
+
+
+void iResetWriteError(void)
+{
+	WriteError = IL_FALSE;
+}
+
+
+ILboolean iGetWriteError(void)
+{
+	return WriteError;
+}
+
+
 // Next 4 functions are the default write functions
 
 ILint ILAPIENTRY iPutcFile(ILubyte Char)
 {
-	return PutcProc(Char, FileWrite);
+	ILint Ret = PutcProc(Char, FileWrite);
+	if (Ret == IL_EOF)
+		iWriteFailed();
+	return Ret;
 }
 
 
 ILint ILAPIENTRY iPutcLump(ILubyte Char)
 {
-	if (WriteLumpPos >= WriteLumpSize)
+	if (WriteLumpPos >= WriteLumpSize) {
+		iWriteFailed();
 		return IL_EOF;  // IL_EOF
+	}
 	*((ILubyte*)(WriteLump) + WriteLumpPos++) = Char;
 	return Char;
 }
@@ -692,7 +720,7 @@ ILint ILAPIENTRY iWriteFile(const void *Buffer, ILuint Size, ILuint Number)
 	ILuint NumWritten;
 	NumWritten = WriteProc(Buffer, Size, Number, FileWrite);
 	if (NumWritten != Number) {
-		ilSetError(IL_FILE_WRITE_ERROR);
+		iWriteFailed();
 		return 0;
 	}
 	return NumWritten;
@@ -705,12 +733,10 @@ ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 	ILuint i = 0;
 
 	for (; i < SizeBytes; i++) {
-		if (WriteLumpSize > 0) {
-			if (WriteLumpPos + i >= WriteLumpSize) {  // Should we use > instead?
-				ilSetError(IL_FILE_WRITE_ERROR);
-				WriteLumpPos += i;
-				return i / Size;
-			}
+		if (WriteLumpPos + i >= WriteLumpSize) {  // Should we use > instead?
+			iWriteFailed();
+			WriteLumpPos += i;
+			return i / Size;
 		}
 
 		*((ILubyte*)WriteLump + WriteLumpPos + i) = *((ILubyte*)Buffer + i);
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 2129fe0..05b7bd7 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2290,14 +2290,7 @@ finish:
 }
 
 
-//! Attempts to save an image to a file.  The file format is specified by the user.
-/*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
-	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
-	IL_VTF, IL_WBMP and IL_JASC_PAL.
-	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
-	       the filename to save to.
-	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
-ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
+static ILboolean iSaveType(ILenum Type, ILconst_string FileName)
 {
 	switch (Type)
 	{
@@ -2403,13 +2396,26 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 }
 
 
-//! Attempts to save an image to a file stream.  The file format is specified by the user.
+//! Attempts to save an image to a file.  The file format is specified by the user.
 /*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
 	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
 	IL_VTF, IL_WBMP and IL_JASC_PAL.
-	\param File File stream to save to.
+	\param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
+	       the filename to save to.
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
-ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
+ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
+{
+	ILboolean	Ret;
+
+	iResetWriteError();
+	Ret = iSaveType(Type, FileName);
+
+	// An incomplete file has not been saved.
+	return iGetWriteError() ? 0 : Ret;
+}
+
+
+static ILuint iSaveTypeF(ILenum Type, ILHANDLE File)
 {
 	ILboolean Ret;
 
@@ -2530,14 +2536,25 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 }
 
 
-//! Attempts to save an image to a memory buffer.  The file format is specified by the user.
-/*! \param Type Format of this image file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
+//! Attempts to save an image to a file stream.  The file format is specified by the user.
+/*! \param Type Format of this file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
 	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
 	IL_VTF, IL_WBMP and IL_JASC_PAL.
-	\param Lump Memory buffer to save to
-	\param Size Size of the memory buffer
+	\param File File stream to save to.
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
-ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
+ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
+{
+	ILuint	Ret;
+
+	iResetWriteError();
+	Ret = iSaveTypeF(Type, File);
+
+	// An incomplete file has not been saved.
+	return iGetWriteError() ? 0 : Ret;
+}
+
+
+static ILuint iSaveTypeL(ILenum Type, void *Lump, ILuint Size)
 {
 	if (Lump == NULL) {
 		if (Size != 0) {
@@ -2638,11 +2655,26 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 }
 
 
-//! Saves the current image based on the extension given in FileName.
-/*! \param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
-	       the filename to save to.
+//! Attempts to save an image to a memory buffer.  The file format is specified by the user.
+/*! \param Type Format of this image file.  Acceptable values are IL_BMP, IL_CHEAD, IL_DDS, IL_EXR,
+	IL_HDR, IL_JP2, IL_JPG, IL_PCX, IL_PNG, IL_PNM, IL_PSD, IL_RAW, IL_SGI, IL_TGA, IL_TIF,
+	IL_VTF, IL_WBMP and IL_JASC_PAL.
+	\param Lump Memory buffer to save to
+	\param Size Size of the memory buffer
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
-ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
+ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
+{
+	ILuint	Ret;
+
+	iResetWriteError();
+	Ret = iSaveTypeL(Type, Lump, Size);
+
+	// An incomplete file has not been saved.
+	return iGetWriteError() ? 0 : Ret;
+}
+
+
+static ILboolean iSaveByExt(ILconst_string FileName)
 {
 	ILstring Ext;
 	ILboolean	bRet = IL_FALSE;
@@ -2814,3 +2846,19 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 finish:
 	return bRet;
 }
+
+
+//! Saves the current image based on the extension given in FileName.
+/*! \param FileName Ansi or Unicode string, depending on the compiled version of DevIL, that gives
+	       the filename to save to.
+	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
+ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
+{
+	ILboolean	Ret;
+
+	iResetWriteError();
+	Ret = iSaveByExt(FileName);
+
+	// An incomplete file has not been saved.
+	return iGetWriteError() ? 0 : Ret;
+}
-- 
2.43.0


From 73b7170135c5fdf7e7ab172c6a4ddbae91bf7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 56/79] fix: reading past the end of a file through the
 caller's own functions was not reported

---
 DevIL/src-IL/src/il_files.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 0fe8798..859d894 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -180,8 +180,6 @@ ILint ILAPIENTRY iDefaultGetc(ILHANDLE Handle)
 
 	if (!UseCache) {
 		Val = fgetc((FILE*)Handle);
-		if (Val == IL_EOF)
-			ilSetError(IL_FILE_READ_ERROR);
 	}
 	else {
 		Val = 0;
@@ -446,14 +444,23 @@ ILboolean ILAPIENTRY iEofLump(void)
 }
 
 
+static ILint iGetcProc(void)
+{
+	ILint Val = GetcProc(FileRead);
+	if (Val == IL_EOF)
+		ilSetError(IL_FILE_READ_ERROR);
+	return Val;
+}
+
+
 ILint ILAPIENTRY iGetcFile(void)
 {
 	if (!UseCache) {
-		return GetcProc(FileRead);
+		return iGetcProc();
 	}
 	if (CachePos >= CacheSize) {
 		if (!iPreCache(CacheMax))
-			return GetcProc(FileRead);
+			return iGetcProc();
 		if (CacheSize == 0) {
 			ilSetError(IL_FILE_READ_ERROR);
 			return IL_EOF;
-- 
2.43.0


From 0abc9c4091a368eabf2b0f3fc1ac39053f4c6f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 57/79] fix: run-length coding narrow 8-bit pictures overran
 the buffer of the TGA saver

---
 DevIL/src-IL/src/il_targa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index ee159d6..2d0d6ca 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -760,7 +760,7 @@ ILboolean iSaveTargaInternal()
 	if (!Compress)
 		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfData);
 	else {
-		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
+		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->Width * TempImage->Height * TempImage->Depth);	// max: every pixel in a packet of its own
 		if (Rle == NULL) {
 			ifree(AuthName);
 			ifree(AuthComment);
-- 
2.43.0


From 86f264f111b35a57b278cbcc3332ded6b0b0378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 58/79] fix: the extension of DCX files was not known to
 ilTypeFromExt

---
 DevIL/src-IL/src/il_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 05b7bd7..63e2e1b 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -120,6 +120,8 @@ ILenum ILAPIENTRY ilTypeFromExt(ILconst_string FileName)
 		Type = IL_MP3;
 	else if (!iStrCmp(Ext, IL_TEXT("pcd")))
 		Type = IL_PCD;
+	else if (!iStrCmp(Ext, IL_TEXT("dcx")))
+		Type = IL_DCX;
 	else if (!iStrCmp(Ext, IL_TEXT("pcx")))
 		Type = IL_PCX;
 	else if (!iStrCmp(Ext, IL_TEXT("pic")))
-- 
2.43.0


From d5644577c2ac6d460468f98082d9bdc1f00a9e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:16 +0000
Subject: [PATCH 59/79] fix: GIF loader accepted broken files, overran buffers
 and misplaced interlaced frames

Frames have to lie within the screen, codes have to exist, files that end
early, have no palette or no picture are errors, palettes of the previous frame
are merged by entries, interlacing is resolved within the frame, and pictures
of a single pixel can be loaded.
---
 DevIL/src-IL/include/il_gif.h |   3 +-
 DevIL/src-IL/src/il_gif.cpp   | 376 +++++++++++++++-------------------
 2 files changed, 167 insertions(+), 212 deletions(-)

diff --git a/DevIL/src-IL/include/il_gif.h b/DevIL/src-IL/include/il_gif.h
index 98cc9e0..3dc88c8 100644
--- a/DevIL/src-IL/include/il_gif.h
+++ b/DevIL/src-IL/include/il_gif.h
@@ -64,8 +64,7 @@ ILboolean iIsValidGif(void);
 ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *PrevImage);
 ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead);
 ILboolean SkipExtensions(GFXCONTROL *Gfx);
-ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx);
-ILboolean RemoveInterlace(ILimage *image);
+ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx, ILboolean Interlaced);
 ILboolean ConvertTransparent(ILimage *Image, ILubyte TransColour);
 
 #endif//GIF_H
diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index bf4013c..e4a9501 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -74,10 +74,13 @@ ILboolean ilIsValidGifL(const void *Lump, ILuint Size)
 ILboolean iIsValidGif()
 {
 	char Header[6];
-	
-	if (iread(Header, 1, 6) != 6)
+	ILint Read;
+	ILuint FirstPos = itell();
+
+	Read = iread(Header, 1, 6);
+	iseek(FirstPos, IL_SEEK_SET);  // Go ahead and restore to previous state
+	if (Read != 6)
 		return IL_FALSE;
-	iseek(-6, IL_SEEK_CUR);
 
 	if (!strnicmp(Header, "GIF87A", 6))
 		return IL_TRUE;
@@ -135,6 +138,8 @@ ILboolean iLoadGifInternal()
 {
 	GIFHEAD	Header;
 	ILpal	GlobalPal;
+	ILuint	FirstPos = itell();
+	ILboolean	Loaded;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -143,14 +148,18 @@ ILboolean iLoadGifInternal()
 
 	GlobalPal.Palette = NULL;
 	GlobalPal.PalSize = 0;
+	GlobalPal.PalType = IL_PAL_NONE;
 
 	//read header
-	iread(&Header.Sig, 1, 6);
+	if (iread(&Header.Sig, 1, 6) != 6)
+		return IL_FALSE;
   	Header.Width = GetLittleUShort();
     Header.Height = GetLittleUShort();
 	Header.ColourInfo = igetc();
 	Header.Background = igetc();
 	Header.Aspect = igetc();
+	if (itell() < FirstPos + 13)  // The file ends within the header.
+		return IL_FALSE;
 		  
 	if (!strnicmp(Header.Sig, "GIF87A", 6)) {
 		GifType = GIF87A;
@@ -174,13 +183,12 @@ ILboolean iLoadGifInternal()
 		}
 	}
 
-	if (!GetImages(&GlobalPal, &Header))
-		return IL_FALSE;
+	Loaded = GetImages(&GlobalPal, &Header);
 
-	if (GlobalPal.Palette && GlobalPal.PalSize)
+	if (GlobalPal.Palette)
 		ifree(GlobalPal.Palette);
-	GlobalPal.Palette = NULL;
-	GlobalPal.PalSize = 0;
+	if (!Loaded)
+		return IL_FALSE;
 
 	return ilFixImage();
 }
@@ -189,6 +197,7 @@ ILboolean iLoadGifInternal()
 ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *PrevImage)
 {
 	ILuint PalSize, PalOffset = 0;
+	ILpal *PrevPal = NULL;
 
 	// If we have a local palette and have to use the previous frame as well,
 	//  we have to copy the palette from the previous frame, in addition
@@ -202,27 +211,36 @@ ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *P
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
-		PalSize = PalSize + PrevImage->Pal.PalSize;
-		PalOffset = PrevImage->Pal.PalSize;
+		PrevPal = iConvertPal(&PrevImage->Pal, IL_PAL_RGB24);  // It may have got an alpha channel.
+		if (PrevPal == NULL)
+			return IL_FALSE;
+		PalOffset = PrevPal->PalSize;
 	}
-	if (PalSize > 256 * 3) {
+	if (PalSize + PalOffset > 256 * 3) {
+		if (PrevPal) {
+			ifree(PrevPal->Palette);
+			ifree(PrevPal);
+		}
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
 	}
-	Pal->PalSize = PalSize;
 
-	Pal->PalType = IL_PAL_RGB24;
-	//Pal->Palette = (ILubyte*)ialloc(Pal->PalSize);
 	Pal->Palette = (ILubyte*)ialloc(256 * 3);
+	if (Pal->Palette && PrevPal)
+		memcpy(Pal->Palette, PrevPal->Palette, PalOffset);  // Copy the old palette over.
+	if (PrevPal) {
+		ifree(PrevPal->Palette);
+		ifree(PrevPal);
+	}
 	if (Pal->Palette == NULL)
 		return IL_FALSE;
-	if (UsePrevPal)
-		memcpy(Pal->Palette, PrevImage->Pal.Palette, PrevImage->Pal.PalSize);  // Copy the old palette over.
-	if (iread(Pal->Palette + PalOffset, 1, Pal->PalSize) != Pal->PalSize) {  // Read the new palette.
+	if (iread(Pal->Palette + PalOffset, 1, PalSize) != PalSize) {  // Read the new palette.
 		ifree(Pal->Palette);
 		Pal->Palette = NULL;
 		return IL_FALSE;
 	}
+	Pal->PalSize = PalOffset + PalSize;
+	Pal->PalType = IL_PAL_RGB24;
 
 	return IL_TRUE;
 }
@@ -230,24 +248,22 @@ ILboolean iGetPalette(ILubyte Info, ILpal *Pal, ILboolean UsePrevPal, ILimage *P
 
 ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 {
-	IMAGEDESC	ImageDesc, OldImageDesc;
+	IMAGEDESC	ImageDesc;
 	GFXCONTROL	Gfx;
 	ILboolean	BaseImage = IL_TRUE;
-	ILimage		*Image = iCurImage, *TempImage = NULL, *PrevImage = NULL;
-	ILuint		NumImages = 0, i;
+	ILimage		*Image = iCurImage, *PrevImage = NULL;
+	ILuint		NumImages = 0;
 	ILint		input;
 	ILuint		PalOffset;
 
-	OldImageDesc.ImageInfo = 0; // to initialize the data with an harmless value 
+	memset(&Gfx, 0, sizeof(Gfx));
 	Gfx.Used = IL_TRUE;
 
 	while (!ieof()) {
 		ILubyte DisposalMethod = 1;
 		
-		i = itell();
 		if (!SkipExtensions(&Gfx))
-			goto error_clean;
-		i = itell();
+			return IL_FALSE;
 
 		if (!Gfx.Used)
 			DisposalMethod = (Gfx.Packed & 0x1C) >> 2;
@@ -268,11 +284,18 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 		}
 
 
+		// The image has to lie within the screen.
+		if ((ILuint)ImageDesc.OffX + ImageDesc.Width > iCurImage->Width ||
+			(ILuint)ImageDesc.OffY + ImageDesc.Height > iCurImage->Height) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
+
 		if (!BaseImage) {
 			NumImages++;
 			Image->Next = ilNewImage(iCurImage->Width, iCurImage->Height, 1, 1, 1);
 			if (Image->Next == NULL)
-				goto error_clean;
+				return IL_FALSE;
 			//20040612: DisposalMethod controls how the new images data is to be combined
 			//with the old image. 0 means that it doesn't matter how they are combined,
 			//1 means keep the old image, 2 means set to background color, 3 is
@@ -288,14 +311,8 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 					memset(Image->Next->Data, Gfx.Transparent, Image->SizeOfData);
 				else
 					memset(Image->Next->Data, GifHead->Background, Image->SizeOfData);
-			else if (DisposalMethod == 1 || DisposalMethod == 0)
+			else
 				memcpy(Image->Next->Data, Image->Data, Image->SizeOfData);
-			//Interlacing has to be removed after the image was copied (line above)
-			if (OldImageDesc.ImageInfo & (1 << 6)) {  // Image is interlaced.
-				if (!RemoveInterlace(Image))
-					goto error_clean;
-			}
-
 			PrevImage = Image;
 			Image = Image->Next;
 			Image->Format = IL_COLOUR_INDEX;
@@ -316,23 +333,27 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 		if (ImageDesc.ImageInfo & (1 << 7)) {
 			ILboolean UsePrevPal = IL_FALSE;
 			if (DisposalMethod == 1 && NumImages != 0) {  // Cannot be the first image for this.
-				PalOffset = PrevImage->Pal.PalSize;
+				PalOffset = PrevImage->Pal.PalSize / ilGetBppPal(PrevImage->Pal.PalType);
 				UsePrevPal = IL_TRUE;
 			}
 			if (!iGetPalette(ImageDesc.ImageInfo, &Image->Pal, UsePrevPal, PrevImage)) {
-				goto error_clean;
+				return IL_FALSE;
 			}
 		} else {
+			if (GlobalPal->Palette == NULL) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			if (!iCopyPalette(&Image->Pal, GlobalPal)) {
-				goto error_clean;
+				return IL_FALSE;
 			}
 		}
 
 		if (!GifGetData(Image, Image->Data + ImageDesc.OffX + ImageDesc.OffY*Image->Width, Image->SizeOfData,
-				ImageDesc.Width, ImageDesc.Height, Image->Width, PalOffset, &Gfx)) {
+				ImageDesc.Width, ImageDesc.Height, Image->Width, PalOffset, &Gfx, (ImageDesc.ImageInfo & (1 << 6)) != 0)) {
 			memset(Image->Data, 0, Image->SizeOfData);  //@TODO: Remove this.  For debugging purposes right now.
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
-			goto error_clean;
+			return IL_FALSE;
 		}
 
 		// See if there was a valid graphics control extension.
@@ -342,42 +363,26 @@ ILboolean GetImages(ILpal *GlobalPal, GIFHEAD *GifHead)
 
 			// See if a transparent colour is defined.
 			if (Gfx.Packed & 1) {
-				if (!ConvertTransparent(Image, Gfx.Transparent)) {
-					goto error_clean;
+				if (!ConvertTransparent(Image, Gfx.Transparent + PalOffset)) {
+					return IL_FALSE;
 				}
 	    	}
 		}
-		i = itell();
 		// Terminates each block.
 		if((input = igetc()) == IL_EOF)
-			goto error_clean;
+			return IL_FALSE;
 
 		if (input != 0x00)
 		    iseek(-1, IL_SEEK_CUR);
 		//	break;
-
-		OldImageDesc = ImageDesc;
 	}
 
-	//Deinterlace last image
-	if (OldImageDesc.ImageInfo & (1 << 6)) {  // Image is interlaced.
-		if (!RemoveInterlace(Image))
-			goto error_clean;
-	}
-
-	if (BaseImage)  // Was not able to load any images in...
+	if (BaseImage) {  // Was not able to load any images in...
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
+	}
 
 	return IL_TRUE;
-
-error_clean:
-	Image = iCurImage->Next;
-    /*	while (Image) {
-		TempImage = Image;
-		Image = Image->Next;
-		ilCloseImage(TempImage);
-	}*/
-	return IL_FALSE;
 }
 
 
@@ -411,8 +416,10 @@ ILboolean SkipExtensions(GFXCONTROL *Gfx)
 				Gfx->Delay = GetLittleUShort();
 				Gfx->Transparent = igetc();
 				Gfx->Terminator = igetc();
-				if (ieof())
+				if (ieof()) {
+					ilSetError(IL_FILE_READ_ERROR);
 					return IL_FALSE;
+				}
 				Gfx->Used = IL_FALSE;
 				break;
 			/*case 0xFE:
@@ -463,8 +470,39 @@ ILuint code_mask[13] =
 };
 
 
-ILint get_next_code(void) {
+// Gets the next byte of the data, IL_FALSE when there is none left.
+static ILboolean get_next_byte(void)
+{
 	ILint	i, t;
+
+	if (navail_bytes <= 0) {
+		pbytes = byte_buff;
+		navail_bytes = igetc();
+
+		if (navail_bytes == 0)  // The block that terminates the data: the caller expects it.
+			iseek(-1, IL_SEEK_CUR);
+		if (navail_bytes == IL_EOF || navail_bytes == 0) {
+			navail_bytes = 0;
+			success = IL_FALSE;
+			return IL_FALSE;
+		}
+
+		for (i = 0; i < navail_bytes; i++) {
+			if ((t = igetc()) == IL_EOF) {
+				success = IL_FALSE;
+				return IL_FALSE;
+			}
+			byte_buff[i] = t;
+		}
+	}
+	b1 = *pbytes++;
+	navail_bytes--;
+
+	return IL_TRUE;
+}
+
+
+ILint get_next_code(void) {
 	ILuint	ret;
 
 	//20050102: Tests for IL_EOF were added because this function
@@ -473,55 +511,17 @@ ILint get_next_code(void) {
 	//mozilla source package)
 
 	if (!nbits_left) {
-		if (navail_bytes <= 0) {
-			pbytes = byte_buff;
-			navail_bytes = igetc();
-
-			if(navail_bytes == IL_EOF) {
-				success = IL_FALSE;
-				return ending;
-			}
-
-			if (navail_bytes) {
-				for (i = 0; i < navail_bytes; i++) {
-					if((t = igetc()) == IL_EOF) {
-						success = IL_FALSE;
-						return ending;
-					}
-					byte_buff[i] = t;
-				}
-			}
-		}
-		b1 = *pbytes++;
+		if (!get_next_byte())
+			return ending;
 		nbits_left = 8;
-		navail_bytes--;
 	}
 
 	ret = b1 >> (8 - nbits_left);
 	while (curr_size > nbits_left) {
-		if (navail_bytes <= 0) {
-			pbytes = byte_buff;
-			navail_bytes = igetc();
-
-			if(navail_bytes == IL_EOF) {
-				success = IL_FALSE;
-				return ending;
-			}
-
-			if (navail_bytes) {
-				for (i = 0; i < navail_bytes; i++) {
-					if((t = igetc()) == IL_EOF) {
-						success = IL_FALSE;
-						return ending;
-					}
-					byte_buff[i] = t;
-				}
-			}
-		}
-		b1 = *pbytes++;
+		if (!get_next_byte())
+			return ending;
 		ret |= b1 << nbits_left;
 		nbits_left += 8;
-		navail_bytes--;
 	}
 	nbits_left -= curr_size;
 
@@ -536,14 +536,43 @@ static void cleanUpGifLoadState()
 
 }
 
-ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx)
+// The row of an image that is stored at place j.  The rows of an interlaced image
+//  come in four groups, see below.
+static ILuint GifRow(ILuint j, ILuint Height, ILboolean Interlaced)
+{
+	static const ILuint First[4] = { 0, 4, 2, 1 }, Step[4] = { 8, 8, 4, 2 };
+	ILuint	i, Rows;
+
+	if (!Interlaced)
+		return j;
+	for (i = 0; i < 4; i++) {
+		Rows = Height > First[i] ? (Height - First[i] + Step[i] - 1) / Step[i] : 0;
+		if (j < Rows)
+			break;
+		j -= Rows;
+	}
+
+	return First[i] + j * Step[i];
+}
+
+
+/*From the GIF spec:
+
+  The rows of an Interlaced images are arranged in the following order:
+
+      Group 1 : Every 8th. row, starting with row 0.              (Pass 1)
+      Group 2 : Every 8th. row, starting with row 4.              (Pass 2)
+      Group 3 : Every 4th. row, starting with row 2.              (Pass 3)
+      Group 4 : Every 2nd. row, starting with row 1.              (Pass 4)
+*/
+
+ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx, ILboolean Interlaced)
 {
 	ILubyte	*sp;
 	ILint	code, fc, oc;
 	ILubyte	DisposalMethod = 0;
 	ILint	c, size;
-	ILuint	i = 0, Read = 0, j = 0;
-	ILubyte	*DataPtr = Data;
+	ILuint	i = 0, Read = 0;
 
 	if (!Gfx->Used)
 		DisposalMethod = (Gfx->Packed & 0x1C) >> 2;
@@ -584,57 +613,32 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 			if (c >= slot)
 				c = 0;
 			oc = fc = c;
-
-			if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == c && (Gfx->Packed & 0x1) != 0)
-				i++;
-			else if (i < Width)
-				DataPtr[i++] = c + PalOffset;
-
-			if (i == Width)
-			{
-				DataPtr += Stride;
-				i = 0;
-				Read += 1;
-                ++j;
-                if (j >= Height) {
-                   cleanUpGifLoadState();
-                   return IL_FALSE;
-                }
-			}
+			*sp++ = (ILubyte)c;
 		}
 		else
 		{
+			if (c > slot)  // There is no such code yet.
+				c = slot;
 			code = c;
             //BG-2007-01-10: several fixes for incomplete GIFs
 			if (code >= slot)
 			{
 				code = oc;
-                if (sp >= stack + MAX_CODES) {
-                   cleanUpGifLoadState();
-                   return IL_FALSE;
-                }
-                *sp++ = fc;
+				*sp++ = fc;
 			}
 
-            if (code >= MAX_CODES)
-                return IL_FALSE; 
-                while (code >= newcodes)
+			while (code >= newcodes)
+			{
+				if (sp >= stack + MAX_CODES)
 				{
-                    if (sp >= stack + MAX_CODES)
-					{
-                        cleanUpGifLoadState();
-                        return IL_FALSE;
-                    }
-                    *sp++ = suffix[code];
-                    code = prefix[code];
-                }
-            
-                if (sp >= stack + MAX_CODES) {
-                cleanUpGifLoadState();
-                return IL_FALSE;
-            }
-
-            *sp++ = (ILbyte)code;
+					cleanUpGifLoadState();
+					return IL_FALSE;
+				}
+				*sp++ = suffix[code];
+				code = prefix[code];
+			}
+
+			*sp++ = (ILubyte)code;
 			if (slot < top_slot)
 			{
 				fc = code;
@@ -647,22 +651,22 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 				top_slot <<= 1;
 				curr_size++;
 			}
-			while (sp > stack)
-			{
-				sp--;
-				if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == *sp && (Gfx->Packed & 0x1) != 0)
-					i++;
-				else if (i < Width)
-					DataPtr[i++] = *sp + PalOffset;
+		}
 
-				if (i == Width)
-				{
-					i = 0;
-					Read += 1;
-                    j = (j+1) % Height;
-					// Needs to start from Data, not Image->Data.
-					DataPtr = Data + j * Stride;
-				}
+		while (sp > stack)
+		{
+			sp--;
+			if (Read >= Height)  // More data than there are pixels.
+				continue;
+			if (DisposalMethod == 1 && !Gfx->Used && Gfx->Transparent == *sp && (Gfx->Packed & 0x1) != 0)
+				i++;
+			else if (i < Width)
+				Data[GifRow(Read, Height, Interlaced) * Stride + i++] = *sp + PalOffset;
+
+			if (i >= Width)
+			{
+				i = 0;
+				Read++;
 			}
 		}
 	}
@@ -671,54 +675,6 @@ ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Wid
 }
 
 
-/*From the GIF spec:
-
-  The rows of an Interlaced images are arranged in the following order:
-
-      Group 1 : Every 8th. row, starting with row 0.              (Pass 1)
-      Group 2 : Every 8th. row, starting with row 4.              (Pass 2)
-      Group 3 : Every 4th. row, starting with row 2.              (Pass 3)
-      Group 4 : Every 2nd. row, starting with row 1.              (Pass 4)
-*/
-
-ILboolean RemoveInterlace(ILimage *image)
-{
-	ILubyte *NewData;
-	ILuint	i, j = 0;
-
-	NewData = (ILubyte*)ialloc(image->SizeOfData);
-	if (NewData == NULL)
-		return IL_FALSE;
-
-	//changed 20041230: images with offsety != 0 were not
-	//deinterlaced correctly before...
-	for (i = 0; i < image->OffY; i++, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 0 + image->OffY; i < image->Height; i += 8, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 4 + image->OffY; i < image->Height; i += 8, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 2 + image->OffY; i < image->Height; i += 4, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	for (i = 1 + image->OffY; i < image->Height; i += 2, j++) {
-		memcpy(&NewData[i * image->Bps], &image->Data[j * image->Bps], image->Bps);
-	}
-
-	ifree(image->Data);
-	image->Data = NewData;
-
-	return IL_TRUE;
-}
-
-
 // Uses the transparent colour index to make an alpha channel.
 ILboolean ConvertTransparent(ILimage *Image, ILubyte TransColour)
 {
-- 
2.43.0


From db19cd9a62410d8cd5498e6a9ac955d257767ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 60/79] fix: icon loader accepted broken files, read and wrote
 outside its buffers and never ended

The directory, headers and palettes have to be complete, sizes are checked, the
colours of 1 and 4 bit icons always exist, rows are decoded by their own
stride, PNG icons need no AND mask, and every refusal sets an error.
---
 DevIL/src-IL/src/il_icon.cpp | 439 ++++++++++++++---------------------
 1 file changed, 180 insertions(+), 259 deletions(-)

diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index 23adb16..6a08657 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -60,6 +60,69 @@ ILboolean ilLoadIconL(const void *Lump, ILuint Size)
 }
 
 
+// Number of bytes in a row of the XOR or AND mask.
+//  The rows of a bitmap are DWORD-aligned, the ones of a decoded PNG are not aligned at all.
+static ILuint iIconRowSize(const ICOIMAGE *Icon, ILuint BitCount)
+{
+	if (Icon->AND == NULL && Icon->Head.Size == 0)  // PNG compressed icon
+		return Icon->Head.Width * BitCount / 8;
+	return (Icon->Head.Width * BitCount + 31) / 32 * 4;
+}
+
+
+// Converts a decoded icon to 32 bit BGRA.
+static void iIconToBgra(const ICOIMAGE *Icon, ILimage *Image)
+{
+	ILuint	RowSize = iIconRowSize(Icon, Icon->Head.BitCount), ANDRowSize = iIconRowSize(Icon, 1);
+	ILuint	x, y, Index;
+	ILubyte	*Dest = Image->Data, *Colour;
+
+	for (y = 0; y < Image->Height; y++) {
+		ILubyte *Row = Icon->Data + (size_t)y * RowSize;
+
+		for (x = 0; x < Image->Width; x++, Dest += 4) {
+			switch (Icon->Head.BitCount)
+			{
+				case 1:
+					Index = (Row[x / 8] >> (7 - x % 8)) & 0x01;
+					Colour = Icon->Pal + Index * 4;
+					break;
+				case 4:
+					Index = (x & 1) ? (Row[x / 2] & 0x0F) : (Row[x / 2] >> 4);
+					Colour = Icon->Pal + Index * 4;
+					break;
+				case 8:
+					Colour = Icon->Pal + Row[x] * 4;
+					break;
+				case 24:
+					Colour = Row + x * 3;
+					break;
+				default:  // 32
+					Colour = Row + x * 4;
+					break;
+			}
+
+			Dest[0] = Colour[0];
+			Dest[1] = Colour[1];
+			Dest[2] = Colour[2];
+
+			// If the icon has 4 channels, use 4th channel for alpha...
+			//  (for Windows XP style icons with true alpha channel)
+			if (Icon->Head.BitCount == 32)
+				Dest[3] = Colour[3];
+			else if (Icon->AND != NULL)
+				Dest[3] = (Icon->AND[(size_t)y * ANDRowSize + x / 8] & (0x80 >> (x % 8))) != 0 ? 0 : 255;
+			else if (Icon->Head.BitCount == 8)  // PNG Palette
+				Dest[3] = Colour[3];
+			else
+				Dest[3] = 255;
+		}
+	}
+
+	return;
+}
+
+
 // Internal function used to load the icon.
 ILboolean iLoadIconInternal()
 {
@@ -68,321 +131,177 @@ ILboolean iLoadIconInternal()
 	ICOIMAGE	*IconImages = NULL;
 	ILimage		*Image = NULL;
 	ILint		i;
-	ILuint		Size, PadSize, ANDPadSize, j, k, l, m, x, w, CurAndByte, AndBytes;
-	ILboolean	BaseCreated = IL_FALSE;
-	ILubyte		PNGTest[3];
+	ILuint		Size, Height, NumCols;
+	ILboolean	BaseCreated = IL_FALSE, Ret = IL_FALSE;
+	ILubyte		PNGTest[4];
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	IconDir.Reserved = GetLittleShort();
-	IconDir.Type = GetLittleShort();
-	IconDir.Count = GetLittleShort();
-
-	if (ieof())
-		goto file_read_error;
+	if (iread(&IconDir, sizeof(ICODIR), 1) != 1)
+		return IL_FALSE;
+	Short(&IconDir.Count);
 
-	DirEntries = (ICODIRENTRY*)ialloc(sizeof(ICODIRENTRY) * IconDir.Count);
-	IconImages = (ICOIMAGE*)ialloc(sizeof(ICOIMAGE) * IconDir.Count);
-	if (DirEntries == NULL || IconImages == NULL) {
-		ifree(DirEntries);
-		ifree(IconImages);
+	if (IconDir.Count <= 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
-	// Make it easier for file_read_error.
-	for (i = 0; i < IconDir.Count; i++)
-		imemclear(&IconImages[i], sizeof(ICOIMAGE));
-
-	for (i = 0; i < IconDir.Count; ++i) {
-		DirEntries[i].Width = (ILubyte)igetc();
-		DirEntries[i].Height = (ILubyte)igetc();
-		DirEntries[i].NumColours = (ILubyte)igetc();
-		DirEntries[i].Reserved = (ILubyte)igetc();
-		DirEntries[i].Planes = GetLittleShort();
-		DirEntries[i].Bpp = GetLittleShort();
-		DirEntries[i].SizeOfData = GetLittleUInt();
-		DirEntries[i].Offset = GetLittleUInt();
-
-		if (ieof())
-			goto file_read_error;
-	}
+	DirEntries = (ICODIRENTRY*)ialloc(sizeof(ICODIRENTRY) * IconDir.Count);
+	IconImages = (ICOIMAGE*)icalloc(IconDir.Count, sizeof(ICOIMAGE));
+	if (DirEntries == NULL || IconImages == NULL)
+		goto cleanup;
+
+	if (iread(DirEntries, sizeof(ICODIRENTRY), IconDir.Count) != (ILuint)IconDir.Count)
+		goto cleanup;
 
 	for (i = 0; i < IconDir.Count; i++) {
-		iseek(DirEntries[i].Offset, IL_SEEK_SET);
+		UInt(&DirEntries[i].Offset);
+		if (iseek(DirEntries[i].Offset, IL_SEEK_SET)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			goto cleanup;
+		}
 
 		// 08-22-2008: Adding test for compressed PNG data
-		igetc(); // Skip the first character...seems to vary.
-		iread(PNGTest, 3, 1);
-		if (!strnicmp((char*)PNGTest, "PNG", 3))  // Characters 'P', 'N', 'G' for PNG header
+		//  The first character seems to vary.
+		if (iread(PNGTest, 1, 4) != 4)
+			goto cleanup;
+		iseek(DirEntries[i].Offset, IL_SEEK_SET);
+
+		if (!strnicmp((char*)PNGTest + 1, "PNG", 3))  // Characters 'P', 'N', 'G' for PNG header
 		{
 #ifdef IL_NO_PNG
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);  // Cannot handle these without libpng.
-			goto file_read_error;
+			goto cleanup;
 #else
-			iseek(DirEntries[i].Offset, IL_SEEK_SET);
 			if (!iLoadIconPNG(&IconImages[i]))
-				goto file_read_error;
+				goto cleanup;
 #endif
 		}
 		else
 		{
-			// Need to go back the 4 bytes that were just read.
-			iseek(DirEntries[i].Offset, IL_SEEK_SET);
-
-			IconImages[i].Head.Size = GetLittleInt();
-			IconImages[i].Head.Width = GetLittleInt();
-			IconImages[i].Head.Height = GetLittleInt();
-			IconImages[i].Head.Planes = GetLittleShort();
-			IconImages[i].Head.BitCount = GetLittleShort();
-			IconImages[i].Head.Compression = GetLittleInt();
-			IconImages[i].Head.SizeImage = GetLittleInt();
-			IconImages[i].Head.XPixPerMeter = GetLittleInt();
-			IconImages[i].Head.YPixPerMeter = GetLittleInt();
-			IconImages[i].Head.ColourUsed = GetLittleInt();
-			IconImages[i].Head.ColourImportant = GetLittleInt();
-
-			if (ieof())
-				goto file_read_error;
-
-			if (IconImages[i].Head.BitCount < 8) {
-				if (IconImages[i].Head.ColourUsed == 0) {
-					switch (IconImages[i].Head.BitCount)
-					{
-						case 1:
-							IconImages[i].Head.ColourUsed = 2;
-							break;
-						case 4:
-							IconImages[i].Head.ColourUsed = 16;
-							break;
-					}
-				}
-				IconImages[i].Pal = (ILubyte*)ialloc(IconImages[i].Head.ColourUsed * 4);
-				if (IconImages[i].Pal == NULL)
-					goto file_read_error;  // @TODO: Rename the label.
-				if (iread(IconImages[i].Pal, IconImages[i].Head.ColourUsed * 4, 1) != 1)
-					goto file_read_error;
+			INFOHEAD *Head = &IconImages[i].Head;
+
+			if (iread(Head, sizeof(INFOHEAD), 1) != 1)
+				goto cleanup;
+			Int(&Head->Size);
+			Int(&Head->Width);
+			Int(&Head->Height);
+			Short(&Head->BitCount);
+			Int(&Head->ColourUsed);
+
+			// The height is the one of the XOR and the AND mask together.
+			if (Head->Size < (ILint)sizeof(INFOHEAD) || Head->Width <= 0 || Head->Height < 2 || Head->Width > 0x7FFFFFFF / 32 - 1) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto cleanup;
 			}
-			else if (IconImages[i].Head.BitCount == 8) {
-				IconImages[i].Pal = (ILubyte*)ialloc(256 * 4);
-				if (IconImages[i].Pal == NULL)
-					goto file_read_error;
-				if (iread(IconImages[i].Pal, 1, 256 * 4) != 256*4)
-					goto file_read_error;
-			}
-			else {
-				IconImages[i].Pal = NULL;
+			Height = Head->Height / 2;
+
+			switch (Head->BitCount)
+			{
+				case 1:
+				case 4:
+					NumCols = 1 << Head->BitCount;
+					if (Head->ColourUsed == 0)
+						Head->ColourUsed = NumCols;
+					break;
+				case 8:
+					NumCols = Head->ColourUsed = 256;
+					break;
+				case 24:
+				case 32:
+					NumCols = Head->ColourUsed = 0;
+					break;
+				default:  // Not supported, is skipped below.
+					continue;
 			}
 
-			PadSize = (4 - ((IconImages[i].Head.Width*IconImages[i].Head.BitCount + 7) / 8) % 4) % 4;  // Has to be DWORD-aligned.
-			ANDPadSize = (4 - ((IconImages[i].Head.Width + 7) / 8) % 4) % 4;  // AND is 1 bit/pixel
-			Size = ((IconImages[i].Head.Width*IconImages[i].Head.BitCount + 7) / 8 + PadSize)
-								* (IconImages[i].Head.Height / 2);
+			if (Head->ColourUsed < 0 || (ILuint)Head->ColourUsed > NumCols) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto cleanup;
+			}
+			if (NumCols) {
+				// Colours that are not stored can still be used by the pixels.
+				IconImages[i].Pal = (ILubyte*)icalloc(NumCols, 4);
+				if (IconImages[i].Pal == NULL)
+					goto cleanup;
+				if (iread(IconImages[i].Pal, 4, Head->ColourUsed) != (ILuint)Head->ColourUsed)
+					goto cleanup;
+			}
 
+			// The image itself needs 4 bytes per pixel.
+			if (Height > 0x7FFFFFFF / 4 / (ILuint)Head->Width) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				goto cleanup;
+			}
 
+			Size = iIconRowSize(&IconImages[i], Head->BitCount) * Height;
 			IconImages[i].Data = (ILubyte*)ialloc(Size);
 			if (IconImages[i].Data == NULL)
-				goto file_read_error;
+				goto cleanup;
 			if (iread(IconImages[i].Data, 1, Size) != Size)
-				goto file_read_error;
+				goto cleanup;
 
-			Size = (((IconImages[i].Head.Width + 7) /8) + ANDPadSize) * (IconImages[i].Head.Height / 2);
+			Size = iIconRowSize(&IconImages[i], 1) * Height;  // AND is 1 bit/pixel
 			IconImages[i].AND = (ILubyte*)ialloc(Size);
 			if (IconImages[i].AND == NULL)
-				goto file_read_error;
+				goto cleanup;
 			if (iread(IconImages[i].AND, 1, Size) != Size)
-				goto file_read_error;
+				goto cleanup;
 		}
 	}
 
 
 	for (i = 0; i < IconDir.Count; i++) {
-		if (IconImages[i].Head.BitCount != 1 && IconImages[i].Head.BitCount != 4 &&
-			IconImages[i].Head.BitCount != 8 && IconImages[i].Head.BitCount != 24 &&
-
-			IconImages[i].Head.BitCount != 32)
+		if (IconImages[i].Data == NULL)
 			continue;
 
+		Height = IconImages[i].Head.Height;
+		if (IconImages[i].Head.Size != 0)  // Not a PNG compressed icon
+			Height /= 2;
+
 		if (!BaseCreated) {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-			else
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(IconImages[i].Head.Width, Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+				goto cleanup;
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 			Image = iCurImage;
 			BaseCreated = IL_TRUE;
 		}
 		else {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, 1);
-			else
-				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, 1);
+			Image->Next = ilNewImage(IconImages[i].Head.Width, Height, 1, 4, 1);
+			if (Image->Next == NULL)
+				goto cleanup;
 			Image = Image->Next;
 			Image->Format = IL_BGRA;
 		}
 		Image->Type = IL_UNSIGNED_BYTE;
 
-		j = 0;  k = 0;  l = 128;  CurAndByte = 0; x = 0;
-
-		w = IconImages[i].Head.Width;
-		PadSize = (4 - ((w*IconImages[i].Head.BitCount + 7) / 8) % 4) % 4;  // Has to be DWORD-aligned.
-
-		ANDPadSize = (4 - ((w + 7) / 8) % 4) % 4;  // AND is 1 bit/pixel
-		AndBytes = (w + 7) / 8;
-
-		if (IconImages[i].Head.BitCount == 1) {
-			for (; j < Image->SizeOfData; k++) {
-				for (m = 128; m && x < w; m >>= 1) {
-					Image->Data[j] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4];
-					Image->Data[j+1] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4 + 1];
-					Image->Data[j+2] = IconImages[i].Pal[!!(IconImages[i].Data[k] & m) * 4 + 2];
-					Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-					j += 4;
-					l >>= 1;
-
-					++x;
-				}
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-						k += PadSize;
-						x = 0;
-					}
-
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 4) {
-			for (; j < Image->SizeOfData; j += 8, k++) {
-				Image->Data[j] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4];
-				Image->Data[j+1] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4 + 1];
-				Image->Data[j+2] = IconImages[i].Pal[((IconImages[i].Data[k] & 0xF0) >> 4) * 4 + 2];
-				Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				l >>= 1;
-
-				++x;
-
-				if(x < w) {
-					Image->Data[j+4] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4];
-					Image->Data[j+5] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4 + 1];
-					Image->Data[j+6] = IconImages[i].Pal[(IconImages[i].Data[k] & 0x0F) * 4 + 2];
-					Image->Data[j+7] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-					l >>= 1;
-
-					++x;
-
-				}
-
-				else
-
-					j -= 4;
-
-
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 8) {
-			for (; j < Image->SizeOfData; j += 4, k++) {
-				Image->Data[j] = IconImages[i].Pal[IconImages[i].Data[k] * 4];
-				Image->Data[j+1] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 1];
-				Image->Data[j+2] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 2];
-				if (IconImages[i].AND == NULL)  // PNG Palette
-				{
-					Image->Data[j+3] = IconImages[i].Pal[IconImages[i].Data[k] * 4 + 3];
-				}
-				else
-				{
-					Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				}
-				l >>= 1;
-
-				++x;
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
-		}
-		else if (IconImages[i].Head.BitCount == 24) {
-			for (; j < Image->SizeOfData; j += 4, k += 3) {
-				Image->Data[j] = IconImages[i].Data[k];
-				Image->Data[j+1] = IconImages[i].Data[k+1];
-				Image->Data[j+2] = IconImages[i].Data[k+2];
-				Image->Data[j+3] = (IconImages[i].AND[CurAndByte] & l) != 0 ? 0 : 255;
-				l >>= 1;
-
-				++x;
-				if (l == 0 || x == w) {
-					l = 128;
-					CurAndByte++;
-					if (x == w) {
-						CurAndByte += ANDPadSize;
-
-						k += PadSize;
-						x = 0;
-					}
-				}
-			}
-		}
-
-		else if (IconImages[i].Head.BitCount == 32) {
-			for (; j < Image->SizeOfData; j += 4, k += 4) {
-				Image->Data[j] = IconImages[i].Data[k];
-				Image->Data[j+1] = IconImages[i].Data[k+1];
-				Image->Data[j+2] = IconImages[i].Data[k+2];
-
-				//If the icon has 4 channels, use 4th channel for alpha...
-				//(for Windows XP style icons with true alpha channel
-				Image->Data[j+3] = IconImages[i].Data[k+3];
-			}
-		}
+		iIconToBgra(&IconImages[i], Image);
 	}
 
-
-	for (i = 0; i < IconDir.Count; i++) {
-		ifree(IconImages[i].Pal);
-		ifree(IconImages[i].Data);
-		ifree(IconImages[i].AND);
+	if (!BaseCreated) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		goto cleanup;
 	}
-	ifree(IconImages);
-	ifree(DirEntries);
 
-	return ilFixImage();
+	Ret = IL_TRUE;
 
-file_read_error:
+cleanup:
 	if (IconImages) {
 		for (i = 0; i < IconDir.Count; i++) {
-			if (IconImages[i].Pal)
-				ifree(IconImages[i].Pal);
-			if (IconImages[i].Data)
-				ifree(IconImages[i].Data);
-			if (IconImages[i].AND)
-				ifree(IconImages[i].AND);
+			ifree(IconImages[i].Pal);
+			ifree(IconImages[i].Data);
+			ifree(IconImages[i].AND);
 		}
 		ifree(IconImages);
 	}
-	if (DirEntries)
-		ifree(DirEntries);
-	return IL_FALSE;
+	ifree(DirEntries);
+
+	if (!Ret)
+		return IL_FALSE;
+	return ilFixImage();
 }
 
 
@@ -618,18 +537,20 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 		}
 
 // @TODO: We may need to keep track of the size of the palette.
-		Icon->Pal = (ILubyte*)ialloc(num_palette * chans);
+		Icon->Pal = (ILubyte*)icalloc(256, chans);
+		if (Icon->Pal == NULL) {
+			png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < num_palette; ++j) {
 			Icon->Pal[chans*j + 0] = palette[j].blue;
 			Icon->Pal[chans*j + 1] = palette[j].green;
 			Icon->Pal[chans*j + 2] = palette[j].red;
-			if (trans != NULL) {
-				if (j < num_trans)
-					Icon->Pal[chans*j + 3] = trans[j];
-				else
-					Icon->Pal[chans*j + 3] = 255;
-			}
+			if (trans != NULL && j < num_trans)
+				Icon->Pal[chans*j + 3] = trans[j];
+			else
+				Icon->Pal[chans*j + 3] = 255;
 		}
 
 		Icon->AND = NULL;  // Transparency information is obtained from libpng.
-- 
2.43.0


From c508a227b3547338fb81833e9964d9f92c15734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:46 +0000
Subject: [PATCH 61/79] fix: PSD files that are cut off or damaged overran
 buffers, small palettes were saved truncated

The sections are read in one place, unsupported data leaks nothing, every
channel is checked against its size, CMYK of 16 bit is computed in 16 bit, and
the saver writes 256 palette entries and converts signed and half data.
---
 DevIL/src-IL/src/il_psd.cpp | 524 ++++++++++++++----------------------
 1 file changed, 209 insertions(+), 315 deletions(-)

diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index de75451..cad61f6 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -226,48 +226,76 @@ ILboolean ReadPsd(PSDHEAD *Head)
 }
 
 
-ILboolean ReadGrey(PSDHEAD *Head)
+// Skips a section of the file.
+static ILboolean iPsdSkip(ILuint Size)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo;
-	ILushort	Compressed;
-	ILenum		Type;
-	ILubyte		*Resources = NULL;
-
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	iseek(ColorMode, IL_SEEK_CUR);
-
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL) {
+	if (Size > 0x7FFFFFFF || iseek((ILint)Size, IL_SEEK_CUR)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
 	}
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
+	return IL_TRUE;
+}
 
-	MiscInfo = GetBigUInt();
-	iseek(MiscInfo, IL_SEEK_CUR);
 
-	Compressed = GetBigUShort();
+// Reads everything between the 'color mode data section' and the channels.
+static ILboolean iPsdReadSections(ILubyte **Resources, ILuint *ResourceSize, ILushort *Compressed)
+{
+	*ResourceSize = GetBigUInt();  // Read the 'image resources section'
+	*Resources = (ILubyte*)ialloc(*ResourceSize);
+	if (*Resources == NULL)
+		return IL_FALSE;
+	if (iread(*Resources, 1, *ResourceSize) != *ResourceSize || !iPsdSkip(GetBigUInt()))
+		goto cleanup_error;
 
-	ChannelNum = Head->Channels;
-	Head->Channels = 1;  // Temporary to read only one channel...some greyscale .psd files have 2.
-	if (Head->Channels != 1) {
+	*Compressed = GetBigUShort();
+	if (*Compressed > 1) {  // Only raw and RLE data are known.
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+		goto cleanup_error;
 	}
+
+	return IL_TRUE;
+
+cleanup_error:
+	ifree(*Resources);
+	*Resources = NULL;
+	return IL_FALSE;
+}
+
+
+// Returns the data type that corresponds to the depth of the channels (0 if there is none).
+static ILenum iPsdType(PSDHEAD *Head)
+{
 	switch (Head->Depth)
 	{
 		case 8:
-			Type = IL_UNSIGNED_BYTE;
-			break;
+			return IL_UNSIGNED_BYTE;
 		case 16:
-			Type = IL_UNSIGNED_SHORT;
-			break;
-		default:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			return IL_UNSIGNED_SHORT;
 	}
 
+	ilSetError(IL_FORMAT_NOT_SUPPORTED);
+	return 0;
+}
+
+
+ILboolean ReadGrey(PSDHEAD *Head)
+{
+	ILuint		ResourceSize;
+	ILushort	Compressed;
+	ILenum		Type;
+	ILubyte		*Resources = NULL;
+
+	if (!iPsdSkip(GetBigUInt()))  // Skip over the 'color mode data section'
+		return IL_FALSE;
+	if (!iPsdReadSections(&Resources, &ResourceSize, &Compressed))
+		return IL_FALSE;
+
+	ChannelNum = Head->Channels;
+	Head->Channels = 1;  // Temporary to read only one channel...some greyscale .psd files have 2.
+	Type = iPsdType(Head);
+	if (Type == 0)
+		goto cleanup_error;
+
 	if (!ilTexImage(Head->Width, Head->Height, 1, 1, IL_LUMINANCE, Type, NULL))
 		goto cleanup_error;
 	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
@@ -286,12 +314,12 @@ cleanup_error:
 
 ILboolean ReadIndexed(PSDHEAD *Head)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo, i, j, NumEnt;
+	ILuint		ColorMode, ResourceSize, i, j, NumEnt;
 	ILushort	Compressed;
 	ILubyte		*Palette = NULL, *Resources = NULL;
 
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	if (ColorMode % 3 != 0) {
+	ColorMode = GetBigUInt();  // Size of the 'color mode data section'
+	if (ColorMode == 0 || ColorMode > 768 || ColorMode % 3 != 0) {
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
@@ -301,21 +329,7 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 	if (iread(Palette, 1, ColorMode) != ColorMode)
 		goto cleanup_error;
 
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL) {
-		return IL_FALSE;
-	}
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
-
-	MiscInfo = GetBigUInt();
-	if (ieof())
-		goto cleanup_error;
-	iseek(MiscInfo, IL_SEEK_CUR);
-
-	Compressed = GetBigUShort();
-	if (ieof())
+	if (!iPsdReadSections(&Resources, &ResourceSize, &Compressed))
 		goto cleanup_error;
 
 	if (Head->Channels != 1 || Head->Depth != 8) {
@@ -346,7 +360,8 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
 		goto cleanup_error;
 
-	ParseResources(ResourceSize, Resources);
+	if (!ParseResources(ResourceSize, Resources))
+		goto cleanup_error;
 	ifree(Resources);
 	Resources = NULL;
 
@@ -362,25 +377,15 @@ cleanup_error:
 
 ILboolean ReadRGB(PSDHEAD *Head)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo;
+	ILuint		ResourceSize;
 	ILushort	Compressed;
 	ILenum		Format, Type;
 	ILubyte		*Resources = NULL;
 
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	iseek(ColorMode, IL_SEEK_CUR);
-
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL)
+	if (!iPsdSkip(GetBigUInt()))  // Skip over the 'color mode data section'
+		return IL_FALSE;
+	if (!iPsdReadSections(&Resources, &ResourceSize, &Compressed))
 		return IL_FALSE;
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
-
-	MiscInfo = GetBigUInt();
-	iseek(MiscInfo, IL_SEEK_CUR);
-
-	Compressed = GetBigUShort();
 
 	ChannelNum = Head->Channels;
 	if (Head->Channels == 3)
@@ -401,21 +406,12 @@ ILboolean ReadRGB(PSDHEAD *Head)
 	else
 	{
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 
-	switch (Head->Depth)
-	{
-		case 8:
-			Type = IL_UNSIGNED_BYTE;
-			break;
-		case 16:
-			Type = IL_UNSIGNED_SHORT;
-			break;
-		default:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
-	}
+	Type = iPsdType(Head);
+	if (Type == 0)
+		goto cleanup_error;
 	if (!ilTexImage(Head->Width, Head->Height, 1, (Format==IL_RGB) ? 3 : 4, Format, Type, NULL))
 		goto cleanup_error;
 	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
@@ -434,26 +430,15 @@ cleanup_error:
 
 ILboolean ReadCMYK(PSDHEAD *Head)
 {
-	ILuint		ColorMode, ResourceSize, MiscInfo, Size, i, j;
+	ILuint		ResourceSize, NumPix, i, c;
 	ILushort	Compressed;
 	ILenum		Format, Type;
 	ILubyte		*Resources = NULL, *KChannel = NULL;
 
-	ColorMode = GetBigUInt();  // Skip over the 'color mode data section'
-	iseek(ColorMode, IL_SEEK_CUR);
-
-	ResourceSize = GetBigUInt();  // Read the 'image resources section'
-	Resources = (ILubyte*)ialloc(ResourceSize);
-	if (Resources == NULL) {
+	if (!iPsdSkip(GetBigUInt()))  // Skip over the 'color mode data section'
+		return IL_FALSE;
+	if (!iPsdReadSections(&Resources, &ResourceSize, &Compressed))
 		return IL_FALSE;
-	}
-	if (iread(Resources, 1, ResourceSize) != ResourceSize)
-		goto cleanup_error;
-
-	MiscInfo = GetBigUInt();
-	iseek(MiscInfo, IL_SEEK_CUR);
-
-	Compressed = GetBigUShort();
 
 	switch (Head->Channels)
 	{
@@ -469,46 +454,40 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
-	}
-	switch (Head->Depth)
-	{
-		case 8:
-			Type = IL_UNSIGNED_BYTE;
-			break;
-		case 16:
-			Type = IL_UNSIGNED_SHORT;
-			break;
-		default:
-			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
+	Type = iPsdType(Head);
+	if (Type == 0)
+		goto cleanup_error;
 	if (!ilTexImage(Head->Width, Head->Height, 1, (ILubyte)Head->Channels, Format, Type, NULL))
 		goto cleanup_error;
 	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
 		goto cleanup_error;
 
-	Size = iCurImage->Bpc * iCurImage->Width * iCurImage->Height;
-	KChannel = (ILubyte*)ialloc(Size);
+	KChannel = (ILubyte*)ialloc(iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
 	if (KChannel == NULL)
 		goto cleanup_error;
 	if (!GetSingleChannel(Head, KChannel, (ILboolean)Compressed))
 		goto cleanup_error;
 
-	if (Format == IL_RGB) {
-		for (i = 0, j = 0; i < iCurImage->SizeOfData; i += 3, j++) {
-			iCurImage->Data[i  ] = (iCurImage->Data[i  ] * KChannel[j]) >> 8;
-			iCurImage->Data[i+1] = (iCurImage->Data[i+1] * KChannel[j]) >> 8;
-			iCurImage->Data[i+2] = (iCurImage->Data[i+2] * KChannel[j]) >> 8;
+	NumPix = iCurImage->Width * iCurImage->Height;
+	for (i = 0; i < NumPix; i++) {
+		if (iCurImage->Bpc == 1) {
+			ILubyte *Pixel = iCurImage->Data + i * iCurImage->Bpp;
+			ILuint K = Format == IL_RGB ? KChannel[i] : Pixel[3];
+			for (c = 0; c < 3; c++)
+				Pixel[c] = (Pixel[c] * K) >> 8;
+			// The KChannel array really holds the alpha channel on this one.
+			if (Format == IL_RGBA)
+				Pixel[3] = KChannel[i];  // Swap 'K' with alpha channel.
 		}
-	}
-	else {  // IL_RGBA
-		// The KChannel array really holds the alpha channel on this one.
-		for (i = 0, j = 0; i < iCurImage->SizeOfData; i += 4, j++) {
-			iCurImage->Data[i  ] = (iCurImage->Data[i  ] * iCurImage->Data[i+3]) >> 8;
-			iCurImage->Data[i+1] = (iCurImage->Data[i+1] * iCurImage->Data[i+3]) >> 8;
-			iCurImage->Data[i+2] = (iCurImage->Data[i+2] * iCurImage->Data[i+3]) >> 8;
-			iCurImage->Data[i+3] = KChannel[j];  // Swap 'K' with alpha channel.
+		else {  // iCurImage->Bpc == 2
+			ILushort *Pixel = (ILushort*)iCurImage->Data + i * iCurImage->Bpp;
+			ILuint K = Format == IL_RGB ? ((ILushort*)KChannel)[i] : Pixel[3];
+			for (c = 0; c < 3; c++)
+				Pixel[c] = (Pixel[c] * K) >> 16;
+			if (Format == IL_RGBA)
+				Pixel[3] = ((ILushort*)KChannel)[i];
 		}
 	}
 
@@ -532,9 +511,16 @@ ILuint *GetCompChanLen(PSDHEAD *Head)
 	ILushort	*RleTable;
 	ILuint		*ChanLen, c, i, j;
 
+	if (Head->Height > 0x7FFFFFFF / sizeof(ILushort) / ChannelNum) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return NULL;
+	}
+
 	RleTable = (ILushort*)ialloc(Head->Height * ChannelNum * sizeof(ILushort));
 	ChanLen = (ILuint*)ialloc(ChannelNum * sizeof(ILuint));
 	if (RleTable == NULL || ChanLen == NULL) {
+		ifree(RleTable);
+		ifree(ChanLen);
 		return NULL;
 	}
 
@@ -571,20 +557,27 @@ static const ILuint READ_COMPRESSED_ERROR_FILE_READ_ERROR	= 2;
 static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte* Channel)
 {
 	ILuint		i;
-	ILint		Run;
+	ILint		Run, HeadByte;
 	ILboolean	PreCache = IL_FALSE;
-	ILbyte		HeadByte;
 
-	if (iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
+	// The length is not always known.
+	if (ChanLen != 0 && iGetHint(IL_MEM_SPEED_HINT) == IL_FASTEST)
 		PreCache = IL_TRUE;
 
 	if (PreCache)
 		iPreCache(ChanLen);
 	for (i = 0; i < Size; ) {
 		HeadByte = igetc();
+		if (HeadByte == IL_EOF)
+		{
+			if (PreCache)
+				iUnCache();
+			return READ_COMPRESSED_ERROR_FILE_READ_ERROR;
+		}
+		HeadByte = (ILbyte)HeadByte;
 
 		if (HeadByte >= 0) {  //  && HeadByte <= 127
-			if (i + HeadByte > Size)
+			if (i + HeadByte + 1 > Size)
 			{
 				if (PreCache)
 					iUnCache();
@@ -627,11 +620,39 @@ static ILuint ReadCompressedChannel(const ILuint ChanLen, ILuint Size, ILubyte*
 }
 
 
+// Reads a channel in the byte order of this machine.
+static ILboolean iPsdReadChannel(PSDHEAD *Head, ILubyte *Channel, ILboolean Compressed, ILuint ChanLen)
+{
+	ILuint	Size = Head->Width * Head->Height * iCurImage->Bpc, ReadResult;
+#ifndef WORDS_BIGENDIAN
+	ILuint	i;
+#endif
+
+	if (Compressed) {
+		ReadResult = ReadCompressedChannel(ChanLen, Size, Channel);
+		if (ReadResult == READ_COMPRESSED_ERROR_FILE_CORRUPT)
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return ReadResult == READ_COMPRESSED_SUCCESS;
+	}
+
+	if (iread(Channel, Size, 1) != 1)
+		return IL_FALSE;
+#ifndef WORDS_BIGENDIAN
+	if (iCurImage->Bpc == 2) {
+		for (i = 0; i < Size / 2; i++)
+			iSwapUShort((ILushort*)Channel + i);
+	}
+#endif
+
+	return IL_TRUE;
+}
+
+
 ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 {
-	ILuint		c, x, y, i, Size, ReadResult, NumChan;
-	ILubyte		*Channel = NULL;
-	ILushort	*ShortPtr;
+	ILuint		c, i, NumPix, NumChan, Bpp = iCurImage->Bpp;
+	ILubyte		*Channel = NULL, *Data = (ILubyte*)Buffer;
+	ILushort	*ShortPtr, *ShortData = (ILushort*)Buffer;
 	ILuint		*ChanLen = NULL;
 
 	// Added 01-07-2009: This is needed to correctly load greyscale and
@@ -646,12 +667,6 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 			NumChan = 3;
 	}
 
-	Channel = (ILubyte*)ialloc(Head->Width * Head->Height * iCurImage->Bpc);
-	if (Channel == NULL) {
-		return IL_FALSE;
-	}
-	ShortPtr = (ILushort*)Channel;
-
 	// @TODO: Add support for this in, though I have yet to run across a .psd
 	//	file that uses this.
 	if (Compressed && iCurImage->Type == IL_UNSIGNED_SHORT) {
@@ -659,152 +674,64 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 		return IL_FALSE;
 	}
 
-	if (!Compressed) {
-		if (iCurImage->Bpc == 1) {
-			for (c = 0; c < NumChan; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						iCurImage->Data[y + x + c] = Channel[i];
-					}
-				}
-			}
-			// Initialize the alpha channel to solid
-			if (Head->Channels >= 4) {
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp) {
-						iCurImage->Data[y + x + 3] = 255;
-					}
-				}
-			}
-			// Accumulate any remaining channels into a single alpha channel
-			//@TODO: This needs to be changed for greyscale images.
-			for (; c < Head->Channels; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						float curVal = ubyte_to_float(iCurImage->Data[y + x + 3]);
-						float newVal = ubyte_to_float(Channel[i]);
-						iCurImage->Data[y + x + 3] = float_to_ubyte(curVal * newVal);
-					}
-				}
-			}
-		}
-		else {  // iCurImage->Bpc == 2
-			for (c = 0; c < NumChan; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height * 2, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				iCurImage->Bps /= 2;
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-					 #ifndef WORDS_BIGENDIAN
-						iSwapUShort(ShortPtr+i);
-					 #endif
-						((ILushort*)iCurImage->Data)[y + x + c] = ShortPtr[i];
-					}
-				}
-				iCurImage->Bps *= 2;
-			}
-			// Initialize the alpha channel to solid
-			if (Head->Channels >= 4) {
-				for (i = 3; i < iCurImage->SizeOfData / 2; i += iCurImage->Bpp) {
-					((ILushort*)iCurImage->Data)[i] = 65535;
-				}
-			}
-			// Accumulate any remaining channels into a single alpha channel
-			//@TODO: This needs to be changed for greyscale images.
-			for (; c < Head->Channels; c++) {
-				i = 0;
-				if (iread(Channel, Head->Width * Head->Height * 2, 1) != 1) {
-					ifree(Channel);
-					return IL_FALSE;
-				}
-				iCurImage->Bps /= 2;
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-					 #ifndef WORDS_BIGENDIAN
-						iSwapUShort(ShortPtr+i);
-					 #endif
-						float curVal = ushort_to_float(((ILushort*)iCurImage->Data)[y + x + 3]);
-						float newVal = ushort_to_float(ShortPtr[i]);
-						((ILushort*)iCurImage->Data)[y + x + 3] = float_to_ushort(curVal * newVal);
-					}
-				}
-				iCurImage->Bps *= 2;
-			}
+	NumPix = Head->Width * Head->Height;
+	Channel = (ILubyte*)ialloc(NumPix * iCurImage->Bpc);
+	if (Channel == NULL)
+		return IL_FALSE;
+	ShortPtr = (ILushort*)Channel;
+
+	if (Compressed) {
+		ChanLen = GetCompChanLen(Head);
+		if (ChanLen == NULL)
+			goto cleanup_error;
+	}
+
+	for (c = 0; c < NumChan; c++) {
+		if (!iPsdReadChannel(Head, Channel, Compressed, Compressed ? ChanLen[c] : 0))
+			goto cleanup_error;
+		for (i = 0; i < NumPix; i++) {
+			if (iCurImage->Bpc == 1)
+				Data[i * Bpp + c] = Channel[i];
+			else
+				ShortData[i * Bpp + c] = ShortPtr[i];
 		}
 	}
-	else {
-		ChanLen = GetCompChanLen(Head);
 
-		Size = Head->Width * Head->Height;
-		for (c = 0; c < NumChan; c++) {
-			ReadResult = ReadCompressedChannel(ChanLen[c], Size, Channel);
-			if (ReadResult == READ_COMPRESSED_ERROR_FILE_CORRUPT)
-				goto file_corrupt;
-			else if (ReadResult == READ_COMPRESSED_ERROR_FILE_READ_ERROR)
-				goto file_read_error;
-
-			i = 0;
-			for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-				for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-					iCurImage->Data[y + x + c] = Channel[i];
-				}
-			}
+	if (Head->Channels >= 4) {
+		// Initialize the alpha channel to solid
+		for (i = 0; i < NumPix; i++) {
+			if (iCurImage->Bpc == 1)
+				Data[i * Bpp + 3] = 255;
+			else
+				ShortData[i * Bpp + 3] = 65535;
 		}
 
-		// Initialize the alpha channel to solid
+		// Accumulate any remaining channels into a single alpha channel
 		//@TODO: This needs to be changed for greyscale images.
-		if (Head->Channels >= 4) {
-			for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-				for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp) {
-					iCurImage->Data[y + x + 3] = 255;
+		for (; c < Head->Channels; c++) {
+			if (!iPsdReadChannel(Head, Channel, Compressed, Compressed ? ChanLen[c] : 0))
+				goto cleanup_error;
+			for (i = 0; i < NumPix; i++) {
+				if (iCurImage->Bpc == 1) {
+					float curVal = ubyte_to_float(Data[i * Bpp + 3]);
+					float newVal = ubyte_to_float(Channel[i]);
+					Data[i * Bpp + 3] = float_to_ubyte(curVal * newVal);
 				}
-			}
-					
-			for (; c < Head->Channels; c++) {
-				ReadResult = ReadCompressedChannel(ChanLen[c], Size, Channel);
-				if (ReadResult == READ_COMPRESSED_ERROR_FILE_CORRUPT)
-					goto file_corrupt;
-				else if (ReadResult == READ_COMPRESSED_ERROR_FILE_READ_ERROR)
-					goto file_read_error;
-
-				i = 0;
-				for (y = 0; y < Head->Height * iCurImage->Bps; y += iCurImage->Bps) {
-					for (x = 0; x < iCurImage->Bps; x += iCurImage->Bpp, i++) {
-						float curVal = ubyte_to_float(iCurImage->Data[y + x + 3]);
-						float newVal = ubyte_to_float(Channel[i]);
-						iCurImage->Data[y + x + 3] = float_to_ubyte(curVal * newVal);
-					}
+				else {
+					float curVal = ushort_to_float(ShortData[i * Bpp + 3]);
+					float newVal = ushort_to_float(ShortPtr[i]);
+					ShortData[i * Bpp + 3] = float_to_ushort(curVal * newVal);
 				}
 			}
 		}
-
-		ifree(ChanLen);
 	}
 
+	ifree(ChanLen);
 	ifree(Channel);
 
 	return IL_TRUE;
 
-file_corrupt:
-	ifree(ChanLen);
-	ifree(Channel);
-	ilSetError(IL_ILLEGAL_FILE_VALUE);
-	return IL_FALSE;
-
-file_read_error:
+cleanup_error:
 	ifree(ChanLen);
 	ifree(Channel);
 	return IL_FALSE;
@@ -814,8 +741,7 @@ file_read_error:
 ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 {
 	ILushort	ID;
-	ILubyte		NameLen;
-	ILuint		Size;
+	ILuint		NameLen, Size;
 
 	if (Resources == NULL) {
 		ilSetError(IL_INTERNAL_ERROR);
@@ -827,20 +753,18 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 			//return IL_FALSE;
 			return IL_TRUE;  // 05-30-2002: May not necessarily mean corrupt data...
 		}
-		Resources += 4;
 
-		ID = *((ILushort*)Resources);
-		BigUShort(&ID);
-		Resources += 2;
+		ID = (ILushort)((Resources[4] << 8) | Resources[5]);
 
-		NameLen = *Resources++;
 		// NameLen + the byte it occupies must be padded to an even number, so NameLen must be odd.
+		NameLen = Resources[6];
 		NameLen = NameLen + (NameLen & 1 ? 0 : 1);
-		Resources += NameLen;
+		if (ResourceSize < 4 + 2 + 1 + NameLen + 4)
+			return IL_TRUE;
+		Resources += 4 + 2 + 1 + NameLen;
 
 		// Get the resource data size.
-		Size = *((ILuint*)Resources);
-		BigUInt(&Size);
+		Size = ((ILuint)Resources[0] << 24) | ((ILuint)Resources[1] << 16) | ((ILuint)Resources[2] << 8) | Resources[3];
 		Resources += 4;
 
 		ResourceSize -= (4 + 2 + 1 + NameLen + 4);
@@ -852,6 +776,10 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
 				}
+				if (Size == 0)
+					break;
+				ifree(iCurImage->Profile);
+				iCurImage->ProfileSize = 0;
 				iCurImage->Profile = (ILubyte*)ialloc(Size);
 				if (iCurImage->Profile == NULL) {
 					return IL_FALSE;
@@ -864,6 +792,8 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 				break;
 		}
 
+		if (Size >= ResourceSize)
+			return IL_TRUE;
 		if (Size & 1)  // Must be an even number.
 			Size++;
 		ResourceSize -= Size;
@@ -876,45 +806,7 @@ ILboolean ParseResources(ILuint ResourceSize, ILubyte *Resources)
 
 ILboolean GetSingleChannel(PSDHEAD *Head, ILubyte *Buffer, ILboolean Compressed)
 {
-	ILuint		i;
-	ILushort	*ShortPtr;
-	ILbyte		HeadByte;
-	ILint		Run;
-
-	ShortPtr = (ILushort*)Buffer;
-
-	if (!Compressed) {
-		if (iCurImage->Bpc == 1) {
-			if (iread(Buffer, Head->Width * Head->Height, 1) != 1)
-				return IL_FALSE;
-		}
-		else {  // iCurImage->Bpc == 2
-			if (iread(Buffer, Head->Width * Head->Height * 2, 1) != 1)
-				return IL_FALSE;
-		}
-	}
-	else {
-		for (i = 0; i < Head->Width * Head->Height; ) {
-			HeadByte = igetc();
-
-			if (HeadByte >= 0) {  //  && HeadByte <= 127
-				if (iread(Buffer + i, HeadByte + 1, 1) != 1)
-					return IL_FALSE;
-				i += HeadByte + 1;
-			}
-			if (HeadByte >= -127 && HeadByte <= -1) {
-				Run = igetc();
-				if (Run == IL_EOF)
-					return IL_FALSE;
-				memset(Buffer + i, Run, -HeadByte + 1);
-				i += -HeadByte + 1;
-			}
-			if (HeadByte == -128)
-			{ }  // Noop
-		}
-	}
-
-	return IL_TRUE;
+	return iPsdReadChannel(Head, Buffer, Compressed, 0);
 }
 
 
@@ -999,8 +891,7 @@ ILboolean iSavePsdInternal()
 	SaveBigShort(iCurImage->Bpp);
 	SaveBigInt(iCurImage->Height);
 	SaveBigInt(iCurImage->Width);
-	if (iCurImage->Bpc > 2)
-		Type = IL_UNSIGNED_SHORT;
+	Type = iCurImage->Bpc == 1 ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT;
 
 	if (iCurImage->Format == IL_BGR)
 		Format = IL_RGB;
@@ -1031,6 +922,8 @@ ILboolean iSavePsdInternal()
 			SaveBigShort(3);
 			break;
 		default:
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			ilSetError(IL_INTERNAL_ERROR);
 			return IL_FALSE;
 	}
@@ -1043,10 +936,10 @@ ILboolean iSavePsdInternal()
 			return IL_FALSE;
 		SaveBigInt(768);
 
-		// Have to save the palette in a planar format.
+		// Have to save the palette in a planar format, always with 256 entries.
 		for (c = 0; c < 3; c++) {
-			for (i = c; i < TempPal->PalSize; i += 3) {
-				iputc(TempPal->Palette[i]);
+			for (i = 0; i < 256; i++) {
+				iputc(i * 3 + c < TempPal->PalSize ? TempPal->Palette[i * 3 + c] : 0);
 			}
 		}
 
@@ -1066,7 +959,8 @@ ILboolean iSavePsdInternal()
 	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	}
-- 
2.43.0


From d733a5990e39cc5276245badfbf8fb77e3ba6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 62/79] fix: DDS files that are cut off or damaged overran
 buffers or leaked, and many variants were decoded with wrong colours

---
 DevIL/src-IL/src/il_dds.cpp | 407 ++++++++++++++++++------------------
 1 file changed, 200 insertions(+), 207 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 36b63fb..0a6e50e 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -130,8 +130,8 @@ ILboolean iGetDdsHead(DDSHEAD *Header)
 	Header->ddsCaps4 = GetLittleUInt();
 	Header->TextureStage = GetLittleUInt();
 
-	if (Head.Depth == 0)
-		Head.Depth = 1;
+	if (Header->Depth == 0)
+		Header->Depth = 1;
 
 	return IL_TRUE;
 }
@@ -244,7 +244,7 @@ void Check16BitComponents(DDSHEAD *Header)
 	if (Header->RGBBitCount != 32)
 		Has16BitComponents = IL_FALSE;
 	// a2b10g10r10 format
-	if (Header->RBitMask == 0x3FF00000 && Header->GBitMask == 0x000FFC00 && Header->BBitMask == 0x000003FF
+	else if (Header->RBitMask == 0x3FF00000 && Header->GBitMask == 0x000FFC00 && Header->BBitMask == 0x000003FF
 		&& Header->RGBAlphaBitMask == 0xC0000000)
 		Has16BitComponents = IL_TRUE;
 	// a2r10g10b10 format
@@ -313,23 +313,22 @@ ILubyte iCompFormatToChannelCount(ILenum Format)
 
 ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	i;
-	ILubyte	Bpp, Channels, Bpc;
-	ILimage *startImage;
+	ILuint	i, NumFaces = 0;
+	ILubyte	Channels, Bpc;
 
-	if (IsDXT10)  //@TODO: Get this working with the DirectX 10 textures
+	if (IsDXT10) {  //@TODO: Get this working with the DirectX 10 textures
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
 		return IL_FALSE;
+	}
 
 	CompData = NULL;
 
-	Bpp = iCompFormatToBpp(CompFormat);
 	Channels = iCompFormatToChannelCount(CompFormat);
 	Bpc = iCompFormatToBpc(CompFormat);
 	if (CompFormat == PF_LUMINANCE && Head.RGBBitCount == 16 && Head.RBitMask == 0xFFFF) {  //@TODO: This is a HACK.
-		Bpc = 2; Bpp = 2;
+		Bpc = 2;
 	}
 
-	startImage = Image;
 	// Run through cube map possibilities
 	for (i = 0; i < CUBEMAP_SIDES; i++) {
 		// Reset each time
@@ -337,58 +336,26 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 		Height = Head.Height;
 		Depth = Head.Depth;
 		if (Head.ddsCaps2 & CubemapDirections[i]) {
-			if (i != 0) {
-				Image->Faces = ilNewImage(Width, Height, Depth, Channels, Bpc);
+			if (NumFaces++ != 0) {  // The first face is the image itself.
+				Image->Faces = ilNewImage(1, 1, 1, Channels, Bpc);
 				if (Image->Faces == NULL)
-					return IL_FALSE;
+					goto cleanup_error;
 
-				Image = Image->Faces;
-
-				if (CompFormat == PF_R16F
-					|| CompFormat == PF_G16R16F
-					|| CompFormat == PF_A16B16G16R16F
-					|| CompFormat == PF_R32F
-					|| CompFormat == PF_G32R32F
-					|| CompFormat == PF_A32B32G32R32F) {
-					// DevIL's format autodetection doesn't work for
-					//  float images...correct this.
-					Image->Type = IL_FLOAT;
-					Image->Bpp = Channels;
-				}
-
-				ilBindImage(ilGetCurName()); // Set to parent image first.
-				//ilActiveImage(i); //@TODO: now Image == iCurImage...globals SUCK, fix this!!!
-				ilActiveFace(i);
+				// AllocImage works on the current image.
+				iCurImage = Image = Image->Faces;
 			}
 
 			if (!ReadData(CompFormat, IsDXT10))
-				return IL_FALSE;
-
-			if (!AllocImage(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
+				goto cleanup_error;
+			if (!AllocImage(CompFormat, IsDXT10))
+				goto cleanup_error;
 
 			Image->CubeFlags = CubemapDirections[i];
 
-			if (!DdsDecompress(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
-
-			if (!ReadMipmaps(CompFormat, IsDXT10)) {
-				if (CompData) {
-					ifree(CompData);
-					CompData = NULL;
-				}
-				return IL_FALSE;
-			}
+			if (!DdsDecompress(CompFormat, IsDXT10))
+				goto cleanup_error;
+			if (!ReadMipmaps(CompFormat, IsDXT10))
+				goto cleanup_error;
 		}
 	}
 
@@ -398,7 +365,19 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 	}
 
 	ilBindImage(ilGetCurName());  // Set to parent image first.
+	if (NumFaces == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 	return ilFixImage();
+
+cleanup_error:
+	if (CompData) {
+		ifree(CompData);
+		CompData = NULL;
+	}
+	ilBindImage(ilGetCurName());  // Set to parent image first.
+	return IL_FALSE;
 }
 
 
@@ -455,12 +434,20 @@ ILboolean iLoadDdsInternal()
 	{
 	}
 
-	// Needed for DXT10?
 	Check16BitComponents(&Head);
+	if (IsDXT10 || CompFormat != PF_ARGB)  // Only these are unpacked to 16 bits.
+		Has16BitComponents = IL_FALSE;
+
+	// The pixels of uncompressed images are 1 to 4 whole bytes.
+	if (!(Head.Flags2 & DDS_FOURCC) && (Head.RGBBitCount % 8 != 0 || Head.RGBBitCount == 0 || Head.RGBBitCount > 32)) {
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		return IL_FALSE;
+	}
 
 	// Microsoft bug, they're not following their own documentation.
+	//  There is no use for the pitch of compressed data either.
 	if (!(Head.Flags1 & (DDS_LINEARSIZE | DDS_PITCH))
-		|| Head.LinearSize == 0) {
+		|| Head.LinearSize == 0 || ((Head.Flags2 & DDS_FOURCC) && !IsDXT10 && !(Head.Flags1 & DDS_LINEARSIZE))) {
 		Head.Flags1 |= DDS_LINEARSIZE;
 		Head.LinearSize = BlockSize;
 	}
@@ -825,10 +812,59 @@ void AdjustVolumeTexture(DDSHEAD *Head, ILuint CompFormat, ILboolean IsDXT10)
 }
 
 
+// Number of bytes that an image of Width x Height x Depth takes in the file,
+//  or 0 if there cannot be such an image.
+static ILuint iDdsDataSize(ILuint CompFormat, ILboolean IsDXT10)
+{
+	ILuint64	Size, Unit;
+
+	if (Width <= 0 || Height <= 0 || Depth <= 0)
+		return 0;
+
+	Size = (ILuint64)Width * Height;
+	if (IsDXT10)
+		Unit = 4;  // All formats that can be read have 32 bits.
+	else switch (CompFormat)
+	{
+		case PF_ARGB:
+		case PF_RGB:
+		case PF_LUMINANCE:
+		case PF_LUMINANCE_ALPHA:
+			Unit = Head.RGBBitCount / 8;
+			break;
+
+		case PF_A16B16G16R16:
+		case PF_A16B16G16R16F:
+		case PF_G32R32F:
+			Unit = 8;
+			break;
+		case PF_R16F:
+			Unit = 2;
+			break;
+		case PF_G16R16F:
+		case PF_R32F:
+			Unit = 4;
+			break;
+		case PF_A32B32G32R32F:
+			Unit = 16;
+			break;
+
+		default:  // Blocks of 4x4 pixels
+			Size = (((ILuint64)Width + 3) / 4) * (((ILuint64)Height + 3) / 4);
+			Unit = (CompFormat == PF_DXT1 || CompFormat == PF_ATI1N) ? 8 : 16;
+			break;
+	}
+
+	if (Size > 0x7FFFFFFF / (ILuint)Depth / Unit)
+		return 0;
+	return (ILuint)(Size * Depth * Unit);
+}
+
+
 // Reads the compressed data
 ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 {
-	ILuint	Bps;
+	ILuint	Bps, Needed;
 	ILint	y, z;
 	ILubyte	*Temp;
 
@@ -837,8 +873,16 @@ ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 		CompData = NULL;
 	}
 
+	Needed = iDdsDataSize(CompFormat, IsDXT10);
+	if (Needed == 0) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
+
 	if (Head.Flags1 & DDS_LINEARSIZE) {
 		//Head.LinearSize = Head.LinearSize * Depth;
+		if (Head.LinearSize < Needed)  // Do not trust it: the decoders read this much.
+			Head.LinearSize = Needed;
 
 		CompData = (ILubyte*)ialloc(Head.LinearSize);
 		if (CompData == NULL) {
@@ -855,9 +899,9 @@ ILboolean ReadData(ILuint CompFormat, ILboolean IsDXT10)
 		if (IsDXT10)
 			Bps = Head.LinearSize;  //@TODO: Head.RGBBitCount is always 0 from the texconv.exe tool?
 		else
-			Bps = Width * Head.RGBBitCount / 8;
+			Bps = Width * (Head.RGBBitCount / 8);
 		CompSize = Bps * Height * Depth;
-		if (CompSize == 0) {
+		if (CompSize < Needed || Bps > 0x7FFFFFFF / (ILuint)Height / (ILuint)Depth) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
@@ -1073,7 +1117,7 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 {
 	ILuint	i, CompFactor=0;
 	ILubyte	Bpp, Channels, Bpc;
-	ILimage	*StartImage, *TempImage;
+	ILimage	*StartImage;
 	ILuint	LastLinear;
 	ILuint	minW, minH;
 
@@ -1128,6 +1172,10 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 		//overflow - don't let this happen:
 		Head.MipMapCount = 1;
 	}
+	if (Head.MipMapCount > 32) {  // More than the largest image can have.
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 
 	LastLinear = Head.LinearSize;
 	for (i = 0; i < Head.MipMapCount - 1; i++)
@@ -1191,7 +1239,7 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 		if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE && isCompressed == IL_TRUE && CompData) {
 			Image->DxtcData = (ILubyte*)ialloc(Head.LinearSize);
 			if (Image->DxtcData == NULL)
-				return IL_FALSE;
+				goto mip_fail;
 			Image->DxtcFormat = CompFormat - PF_DXT1 + IL_DXT1;
 			Image->DxtcSize = Head.LinearSize;
 			memcpy(Image->DxtcData, CompData, Image->DxtcSize);
@@ -1208,14 +1256,9 @@ ILboolean ReadMipmaps(ILuint CompFormat, ILboolean IsDXT10)
 
 mip_fail:
 	Image = StartImage;
-	StartImage = StartImage->Mipmaps;
-	while (StartImage) {
-		TempImage = StartImage;
-		StartImage = StartImage->Mipmaps;
-		ifree(TempImage);
-	}
-
+	ilCloseImage(Image->Mipmaps);
 	Image->Mipmaps = NULL;
+	Head.LinearSize = LastLinear;
 	return IL_FALSE;
 }
 
@@ -1233,11 +1276,11 @@ void DxtcReadColors(const ILubyte* Data, Color8888* Out)
 	r1 = (Data[3] & 0xF8) >> 3;
 
 	Out[0].r = r0 << 3 | r0 >> 2;
-	Out[0].g = g0 << 2 | g0 >> 3;
+	Out[0].g = g0 << 2 | g0 >> 4;
 	Out[0].b = b0 << 3 | b0 >> 2;
 
 	Out[1].r = r1 << 3 | r1 >> 2;
-	Out[1].g = g1 << 2 | g1 >> 3;
+	Out[1].g = g1 << 2 | g1 >> 4;
 	Out[1].b = b1 << 3 | b1 >> 2;
 }
 
@@ -1251,8 +1294,8 @@ void DxtcReadColor(ILushort Data, Color8888* Out)
 	r = (Data & 0xF800) >> 11;
 
 	Out->r = r << 3 | r >> 2;
-	Out->g = g << 2 | g >> 3;
-	Out->b = b << 3 | r >> 2;
+	Out->g = g << 2 | g >> 4;
+	Out->b = b << 3 | b >> 2;
 }
 
 
@@ -1353,7 +1396,7 @@ ILboolean DecompressDXT4(ILimage *lImage, ILubyte *lCompData)
 		return IL_FALSE;
 	CorrectPreMult();
 
-	return IL_FALSE;
+	return IL_TRUE;
 }
 
 
@@ -1487,8 +1530,8 @@ ILboolean Decompress3Dc()
 		return IL_FALSE;
 
 	Temp = CompData;
-	Offset = 0;
 	for (z = 0; z < Depth; z++) {
+		Offset = z * Image->SizeOfPlane;
 		for (y = 0; y < Height; y += 4) {
 			for (x = 0; x < Width; x += 4) {
 				Temp2 = Temp + 8;
@@ -1578,8 +1621,8 @@ ILboolean DecompressAti1n()
 		return IL_FALSE;
 
 	Temp = CompData;
-	Offset = 0;
 	for (z = 0; z < Depth; z++) {
+		Offset = z * Image->SizeOfPlane;
 		for (y = 0; y < Height; y += 4) {
 			for (x = 0; x < Width; x += 4) {
 				//Read palette
@@ -1633,7 +1676,6 @@ ILboolean DecompressRXGB()
 {
 	int			x, y, z, i, j, k, Select;
 	ILubyte		*Temp;
-	Color565	*color_0, *color_1;
 	Color8888	colours[4], *col;
 	ILuint		bitmask, Offset;
 	ILubyte		alphas[8], *alphamask;
@@ -1652,21 +1694,11 @@ ILboolean DecompressRXGB()
 				alphas[1] = Temp[1];
 				alphamask = Temp + 2;
 				Temp += 8;
-				color_0 = ((Color565*)Temp);
-				color_1 = ((Color565*)(Temp+2));
+				DxtcReadColors(Temp, colours);
 				bitmask = ((ILuint*)Temp)[1];
+				UInt(&bitmask);
 				Temp += 8;
 
-				colours[0].r = color_0->nRed << 3;
-				colours[0].g = color_0->nGreen << 2;
-				colours[0].b = color_0->nBlue << 3;
-				colours[0].a = 0xFF;
-
-				colours[1].r = color_1->nRed << 3;
-				colours[1].g = color_1->nGreen << 2;
-				colours[1].b = color_1->nBlue << 3;
-				colours[1].a = 0xFF;
-
 				// Four-color block: derive the other two colors.    
 				// 00 = color_0, 01 = color_1, 10 = color_2, 11 = color_3
 				// These 2-bit codes correspond to the 2-bit fields 
@@ -1674,12 +1706,10 @@ ILboolean DecompressRXGB()
 				colours[2].b = (2 * colours[0].b + colours[1].b + 1) / 3;
 				colours[2].g = (2 * colours[0].g + colours[1].g + 1) / 3;
 				colours[2].r = (2 * colours[0].r + colours[1].r + 1) / 3;
-				colours[2].a = 0xFF;
 
 				colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
 				colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
 				colours[3].r = (colours[0].r + 2 * colours[1].r + 1) / 3;
-				colours[3].a = 0xFF;
 
 				k = 0;
 				for (j = 0; j < 4; j++) {
@@ -1723,7 +1753,7 @@ ILboolean DecompressRXGB()
 				// Note: Have to separate the next two loops,
 				//	it operates on a 6-byte system.
 				// First three bytes
-				bits = *((ILint*)alphamask);
+				bits = (alphamask[0]) | (alphamask[1] << 8) | (alphamask[2] << 16);
 				for (j = 0; j < 2; j++) {
 					for (i = 0; i < 4; i++) {
 						// only put pixels out < width or height
@@ -1736,7 +1766,7 @@ ILboolean DecompressRXGB()
 				}
 
 				// Last three bytes
-				bits = *((ILint*)&alphamask[3]);
+				bits = (alphamask[3]) | (alphamask[4] << 8) | (alphamask[5] << 16);
 				for (j = 2; j < 4; j++) {
 					for (i = 0; i < 4; i++) {
 						// only put pixels out < width or height
@@ -1911,9 +1941,9 @@ void CorrectPreMult()
 
 	for (i = 0; i < Image->SizeOfData; i += 4) {
 		if (Image->Data[i+3] != 0) {  // Cannot divide by 0.
-			Image->Data[i]   = (ILubyte)(((ILuint)Image->Data[i]   << 8) / Image->Data[i+3]);
-			Image->Data[i+1] = (ILubyte)(((ILuint)Image->Data[i+1] << 8) / Image->Data[i+3]);
-			Image->Data[i+2] = (ILubyte)(((ILuint)Image->Data[i+2] << 8) / Image->Data[i+3]);
+			Image->Data[i]   = (ILubyte)IL_MIN(255, (ILuint)Image->Data[i]   * 255 / Image->Data[i+3]);
+			Image->Data[i+1] = (ILubyte)IL_MIN(255, (ILuint)Image->Data[i+1] * 255 / Image->Data[i+3]);
+			Image->Data[i+2] = (ILubyte)IL_MIN(255, (ILuint)Image->Data[i+2] * 255 / Image->Data[i+3]);
 		}
 	}
 
@@ -1923,19 +1953,67 @@ void CorrectPreMult()
 
 ILboolean DecompressARGBDX10(ILuint CompFormat)
 {
-	//@TODO: Will certainly fail if iCurImage->SizeOfData != "Compressed" Size
-	memcpy(iCurImage->Data, CompData, iCurImage->SizeOfData);
+	// The rows may be padded.
+	ILuint i, Bps = (Head.Flags1 & DDS_LINEARSIZE) ? iCurImage->Bps : Head.LinearSize;
+
+	for (i = 0; i < iCurImage->Height * iCurImage->Depth; i++)
+		memcpy(iCurImage->Data + i * iCurImage->Bps, CompData + i * Bps, iCurImage->Bps);
 	return IL_TRUE;
 }
 
 
+// Reads a pixel of 1 to 4 bytes.
+static ILuint iDdsPixel(const ILubyte *Data, ILuint NumBytes)
+{
+	ILuint i, Pixel = 0;
+
+	for (i = 0; i < NumBytes; i++)
+		Pixel |= (ILuint)Data[i] << (i * 8);
+
+	return Pixel;
+}
+
+
+// This function simply counts how many contiguous bits are in the mask.
+ILuint CountBitsFromMask(ILuint Mask)
+{
+	ILuint		i, TestBit = 0x01, Count = 0;
+	ILboolean	FoundBit = IL_FALSE;
+
+	for (i = 0; i < 32; i++, TestBit <<= 1) {
+		if (Mask & TestBit) {
+			if (!FoundBit)
+				FoundBit = IL_TRUE;
+			Count++;
+		}
+		else if (FoundBit)
+			return Count;
+	}
+
+	return Count;
+}
+
+
+// Scales the bits of Mask to 8 bits by repeating them, so that solid stays solid.
+static ILubyte iDdsChannel(ILuint Pixel, ILuint Mask, ILuint ShiftRight, ILuint Bits)
+{
+	ILuint Value = (Pixel & Mask) >> ShiftRight;
+
+	if (Bits == 0)
+		return 0;
+	if (Bits >= 8)
+		return (ILubyte)(Value >> (Bits - 8));
+
+	for (Value <<= 8 - Bits; Bits < 8; Bits *= 2)
+		Value |= Value >> Bits;
+	return (ILubyte)Value;
+}
+
+
 ILboolean DecompressARGB(ILuint CompFormat)
 {
-	ILuint ReadI = 0, TempBpp, i;
-	ILuint RedL, RedR;
-	ILuint GreenL, GreenR;
-	ILuint BlueL, BlueR;
-	ILuint AlphaL, AlphaR;
+	ILuint ReadI = 0, TempBpp, i, c;
+	ILuint Masks[4], Left, Right[4], Bits[4];
 	ILubyte	*Temp;
 
 	if (Has16BitComponents)
@@ -1949,86 +2027,29 @@ ILboolean DecompressARGB(ILuint CompFormat)
 		return IL_TRUE;
 	}
 
-	GetBitsFromMask(Head.RBitMask, &RedL, &RedR);
-	GetBitsFromMask(Head.GBitMask, &GreenL, &GreenR);
-	GetBitsFromMask(Head.BBitMask, &BlueL, &BlueR);
-	GetBitsFromMask(Head.RGBAlphaBitMask, &AlphaL, &AlphaR);
+	Masks[0] = Head.RBitMask;
+	Masks[1] = Image->Bpp >= 3 ? Head.GBitMask : Head.RGBAlphaBitMask;
+	Masks[2] = Head.BBitMask;
+	Masks[3] = Head.RGBAlphaBitMask;
+	for (c = 0; c < 4; c++) {
+		GetBitsFromMask(Masks[c], &Left, &Right[c]);
+		Bits[c] = CountBitsFromMask(Masks[c]);
+	}
 	Temp = CompData;
 	TempBpp = Head.RGBBitCount / 8;
 
 	for (i = 0; i < Image->SizeOfData; i += Image->Bpp) {
-
-		//@TODO: This is SLOOOW...
-		//but the old version crashed in release build under
-		//winxp (and xp is right to stop this code - I always
-		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
-			if (TempBpp == 3) { //this branch is extra-SLOOOW
-				ReadI =
-					*Temp
-					| ((*(Temp + 1)) << 8)
-					| ((*(Temp + 2)) << 16);
-			}
-			else if (TempBpp == 1)
-				ReadI = *((ILubyte*)Temp);
-			else if (TempBpp == 2)
-				ReadI = Temp[0] | (Temp[1] << 8);
-		}
-		else
-			ReadI = Temp[0] | (Temp[1] << 8) | (Temp[2] << 16) | (Temp[3] << 24);
+		ReadI = iDdsPixel(Temp, TempBpp);
 		Temp += TempBpp;
 
-		Image->Data[i] = ((ReadI & Head.RBitMask) >> RedR) << RedL;
-
-		if (Image->Bpp >= 3) {
-			Image->Data[i+1] = ((ReadI & Head.GBitMask) >> GreenR) << GreenL;
-			Image->Data[i+2] = ((ReadI & Head.BBitMask) >> BlueR) << BlueL;
-
-			if (Image->Bpp == 4) {
-				Image->Data[i+3] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-				if (AlphaL >= 7) {
-					Image->Data[i+3] = Image->Data[i+3] ? 0xFF : 0x00;
-				}
-				else if (AlphaL >= 4) {
-					Image->Data[i+3] = Image->Data[i+3] | (Image->Data[i+3] >> 4);
-				}
-			}
-		}
-		else if (Image->Bpp == 2) {
-			Image->Data[i+1] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-			if (AlphaL >= 7) {
-				Image->Data[i+1] = Image->Data[i+1] ? 0xFF : 0x00;
-			}
-			else if (AlphaL >= 4) {
-				Image->Data[i+1] = Image->Data[i+1] | (Image->Data[i+3] >> 4);
-			}
-		}
+		for (c = 0; c < Image->Bpp; c++)
+			Image->Data[i+c] = iDdsChannel(ReadI, Masks[c], Right[c], Bits[c]);
 	}
 
 	return IL_TRUE;
 }
 
 
-// This function simply counts how many contiguous bits are in the mask.
-ILuint CountBitsFromMask(ILuint Mask)
-{
-	ILuint		i, TestBit = 0x01, Count = 0;
-	ILboolean	FoundBit = IL_FALSE;
-
-	for (i = 0; i < 32; i++, TestBit <<= 1) {
-		if (Mask & TestBit) {
-			if (!FoundBit)
-				FoundBit = IL_TRUE;
-			Count++;
-		}
-		else if (FoundBit)
-			return Count;
-	}
-
-	return Count;
-}
-
-
 // Same as DecompressARGB, but it works on images with more than 8 bits
 //  per channel, such as a2r10g10b10 and a2b10g10r10.
 ILboolean DecompressARGB16(ILuint CompFormat)
@@ -2053,34 +2074,17 @@ ILboolean DecompressARGB16(ILuint CompFormat)
 	BluePad  = 16 - CountBitsFromMask(Head.BBitMask);
 	AlphaPad = 16 - CountBitsFromMask(Head.RGBAlphaBitMask);
 
-	RedL = RedL + RedPad;
-	GreenL = GreenL + GreenPad;
-	BlueL = BlueL + BluePad;
-	AlphaL = AlphaL + AlphaPad;
+	RedL = RedPad;
+	GreenL = GreenPad;
+	BlueL = BluePad;
+	AlphaL = AlphaPad;
 
 	Temp = CompData;
 	TempBpp = Head.RGBBitCount / 8;
 
 	for (i = 0; i < Image->SizeOfData / 2; i += Image->Bpp) {
 
-		//@TODO: This is SLOOOW...
-		//but the old version crashed in release build under
-		//winxp (and xp is right to stop this code - I always
-		//wondered that it worked the old way at all)
-		if (Image->SizeOfData - i < 4) { //less than 4 byte to write?
-			if (TempBpp == 3) { //this branch is extra-SLOOOW
-				ReadI =
-					*Temp
-					| ((*(Temp + 1)) << 8)
-					| ((*(Temp + 2)) << 16);
-			}
-			else if (TempBpp == 1)
-				ReadI = *((ILubyte*)Temp);
-			else if (TempBpp == 2)
-				ReadI = Temp[0] | (Temp[1] << 8);
-		}
-		else
-			ReadI = Temp[0] | (Temp[1] << 8) | (Temp[2] << 16) | (Temp[3] << 24);
+		ReadI = iDdsPixel(Temp, TempBpp);
 		Temp += TempBpp;
 
 		((ILushort*)Image->Data)[i+2] = ((ReadI & Head.RBitMask) >> RedR) << RedL;
@@ -2091,21 +2095,10 @@ ILboolean DecompressARGB16(ILuint CompFormat)
 
 			if (Image->Bpp == 4) {
 				((ILushort*)Image->Data)[i+3] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-				if (AlphaL >= 7) {
-					((ILushort*)Image->Data)[i+3] = ((ILushort*)Image->Data)[i+3] ? 0xFF : 0x00;
-				}
-				else if (AlphaL >= 4) {
-					((ILushort*)Image->Data)[i+3] = ((ILushort*)Image->Data)[i+3] | (((ILushort*)Image->Data)[i+3] >> 4);
-				}
-			}
-		}
-		else if (Image->Bpp == 2) {
-			((ILushort*)Image->Data)[i+1] = ((ReadI & Head.RGBAlphaBitMask) >> AlphaR) << AlphaL;
-			if (AlphaL >= 7) {
-				((ILushort*)Image->Data)[i+1] = ((ILushort*)Image->Data)[i+1] ? 0xFF : 0x00;
-			}
-			else if (AlphaL >= 4) {
-				((ILushort*)Image->Data)[i+1] = ((ILushort*)Image->Data)[i+1] | (Image->Data[i+3] >> 4);
+				// The alpha channel has 2 bits: repeat them, so that solid stays solid.
+				((ILushort*)Image->Data)[i+3] |= ((ILushort*)Image->Data)[i+3] >> 2;
+				((ILushort*)Image->Data)[i+3] |= ((ILushort*)Image->Data)[i+3] >> 4;
+				((ILushort*)Image->Data)[i+3] |= ((ILushort*)Image->Data)[i+3] >> 8;
 			}
 		}
 	}
-- 
2.43.0


From 692e7c057df34c08ec7ba9f179dfc73a4ec74555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 63/79] fix: bitmaps of PNM were inverted, refused from memory,
 and headers with tabs, comments or a blank as first byte misread

---
 DevIL/src-IL/src/il_pnm.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index 88f7768..5996f19 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -202,10 +202,6 @@ ILboolean iLoadPnmInternal()
 			break;
 		case '4':
 			Info.Type = IL_PBM_BINARY;
-			if (IsLump) {
-				ilSetError(IL_FORMAT_NOT_SUPPORTED);
-				return IL_FALSE;
-			}
 			break;
 		case '5':
 			Info.Type = IL_PGM_BINARY;
@@ -230,7 +226,8 @@ ILboolean iLoadPnmInternal()
 		return IL_FALSE;
 	}
 
-	if (iGetWord(IL_FALSE) == IL_FALSE)
+	// The data of a binary bitmap follows immediately.
+	if (iGetWord(Info.Type == IL_PBM_BINARY) == IL_FALSE)
 		return IL_FALSE;
 	Info.Height = iWordToNumber();
 	if (Info.Height == 0) {
@@ -416,7 +413,7 @@ ILimage *ilReadBitPbm(PPMINFO *Info)
 		if (CurrByte == IL_EOF)
 			return NULL;
 		for (m = 128; m > 0 && x < Info->Width; m >>= 1, ++x, ++j) {
-			iCurImage->Data[j] = (CurrByte & m)?255:0;
+			iCurImage->Data[j] = (CurrByte & m)?0:255;  // 1 is black
 		}
 		if (x == Info->Width)
 			x = 0;
@@ -592,7 +589,7 @@ ILboolean iGetWord(ILboolean final)
 
 	while (Looping)
 	{
-		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ')
+		while ((Current = igetc()) != IL_EOF && Current != '\n' && Current != '#' && Current != ' ' && Current != '\t')
 		{
 			if (WordPos >= MAX_BUFFER - 1) {  // We have hit the maximum line length.
 				ilSetError(IL_INVALID_FILE_HEADER);
@@ -615,7 +612,7 @@ ILboolean iGetWord(ILboolean final)
 			return IL_FALSE;
 		}
 		SmallBuff[WordPos] = 0; // 08-17-2008 - was NULL, changed to avoid warning
-		if (final == IL_TRUE)
+		if (final == IL_TRUE && WordPos > 0)
 	        break;
 
 		if (!Looping)
@@ -627,7 +624,7 @@ ILboolean iGetWord(ILboolean final)
 
 		// Get rid of any erroneous spaces
 		while ((Current = igetc()) != IL_EOF) {
-			if (Current != ' ')
+			if (Current != ' ' && Current != '\t')
 				break;
 		}
 		if (Current != IL_EOF)
@@ -820,7 +817,7 @@ ILboolean iSavePnmInternal()
 		for (j = 0; j < Bpp; j++) {
 			if (Binary) {
 				if (Type == IL_PBM_BINARY) {
-					iputc((ILubyte)(TempData[i] > 127 ? 1 : 0));
+					iputc((ILubyte)(TempData[i] > 127 ? 0 : 1));
 				}
 				else {
 					iputc(TempData[i]);
@@ -832,7 +829,7 @@ ILboolean iSavePnmInternal()
 				else  // IL_UNSIGNED_SHORT
 					k = *(ILushort*)(TempData + i);
 				if (Type == IL_PBM_ASCII) {
-					LinePos += ilprintf("%d ", TempData[i] > 127 ? 1 : 0);
+					LinePos += ilprintf("%d ", TempData[i] > 127 ? 0 : 1);
 				}
 				else {
 					LinePos += ilprintf("%d ", k);
@@ -862,9 +859,8 @@ ILboolean iSavePnmInternal()
 void PbmMaximize(ILimage *Image)
 {
 	ILuint i = 0;
-	for (i = 0; i < Image->SizeOfPlane; i++)
-		if (Image->Data[i] == 1)
-			Image->Data[i] = 0xFF;
+	for (i = 0; i < Image->SizeOfPlane; i++)  // 1 is black
+		Image->Data[i] = Image->Data[i] ? 0 : 0xFF;
 	return;
 }
 
-- 
2.43.0


From 53cdeeb016daa8ca1bcab0ac58c4618bcbb8c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 64/79] fix: OS/2 bitmaps left an error behind when small and
 ignored the load settings

---
 DevIL/src-IL/src/il_bmp.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 5ef1621..464c90d 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -74,6 +74,8 @@ ILboolean iGetBmpHead(BMPHEAD * const Header)
 	Header->bfReserved = GetLittleUInt();
 	Header->bfDataOff = GetLittleInt();
 	Header->biSize = GetLittleInt();
+	if (Header->biSize != 0x28)  // Not a Windows header, which is longer than that of OS/2.
+		return IL_FALSE;
 	Header->biWidth = GetLittleInt();
 	Header->biHeight = GetLittleInt();
 	Header->biPlanes = GetLittleShort();
@@ -119,10 +121,9 @@ ILboolean iIsValidBmp()
 	OS2_HEAD	Os2Head;
 	ILboolean	IsValid;
 
-	iGetBmpHead(&Head);
+	IsValid = iGetBmpHead(&Head) && iCheckBmp(&Head);
 	iseek(0, IL_SEEK_SET);  // Go ahead and restore to previous state
 
-	IsValid = iCheckBmp(&Head);
 	if (!IsValid) {
 		IsValid = iGetOS2Head(&Os2Head) && iCheckOS2(&Os2Head);
 		iseek(0, IL_SEEK_SET);
@@ -224,15 +225,14 @@ ILboolean iLoadBitmapInternal()
 		return IL_FALSE;
 	}
 
-	iGetBmpHead(&Header);
-	if (!iCheckBmp(&Header)) {
+	if (!iGetBmpHead(&Header) || !iCheckBmp(&Header)) {
 		iseek(0, IL_SEEK_SET);
 		if (!iGetOS2Head(&Os2Head) || !iCheckOS2(&Os2Head)) {
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
 		else {
-			return iGetOS2Bmp(&Os2Head);
+			return iGetOS2Bmp(&Os2Head) && ilFixImage();
 		}
 	}
 
-- 
2.43.0


From daf2910b7f351f954f130b88e3583ffd995da036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 65/79] fix: Sun rasters with short data, odd maps or runs
 across rows were misread

---
 DevIL/src-IL/src/il_sun.cpp | 165 ++++++++++++++++++++----------------
 1 file changed, 92 insertions(+), 73 deletions(-)

diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 61f6ba4..e19f88f 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -14,11 +14,11 @@
 
 #include "il_internal.h"
 #ifndef IL_NO_SUN
-#include "il_bits.h"
 
 ILboolean	iLoadSunInternal(void);
 ILboolean	iIsValidSun(void);
-ILuint		iSunGetRle(ILubyte *Data, ILuint Length);
+typedef struct SUNRLE { ILubyte Value; ILuint Left; } SUNRLE;  // A run can go on in the next row.
+ILboolean	iSunGetRle(ILubyte *Data, ILuint Length, SUNRLE *State);
 
 typedef struct SUNHEAD
 {
@@ -199,9 +199,9 @@ ILboolean ilLoadSunL(const void *Lump, ILuint Size)
 ILboolean iLoadSunInternal(void)
 {
 	SUNHEAD	Header;
-	BITFILE	*File;
-	ILuint	i, j, Padding, Offset, BytesRead;
-	ILubyte	PaddingData[16];
+	ILuint	i, j, NumCols, Padding;
+	ILubyte	*Map, Bits, Pixel[4];
+	SUNRLE	Rle = { 0, 0 };
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -217,10 +217,6 @@ ILboolean iLoadSunInternal(void)
 	switch (Header.Depth)
 	{
 		case 1:  //@TODO: Find a file to test this on.
-			File = bfile(iGetFile());
-			if (File == NULL)
-				return IL_FALSE;
-
 			if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 				return IL_FALSE;
 			if (Header.ColorMapLength != 0) {
@@ -231,27 +227,36 @@ ILboolean iLoadSunInternal(void)
 				}
 			}
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(6);  // Just need 2 entries in the color map.
+			if (iCurImage->Pal.Palette == NULL)
+				return IL_FALSE;
+			iCurImage->Pal.PalSize = 6;
+			iCurImage->Pal.PalType = IL_PAL_RGB24;
 			if (Header.ColorMapLength == 0) {  // Create the color map
-				iCurImage->Pal.Palette[0] = 0x00;  // Entry for black
-				iCurImage->Pal.Palette[1] = 0x00;
-				iCurImage->Pal.Palette[2] = 0x00;
-				iCurImage->Pal.Palette[3] = 0xFF;  // Entry for white
-				iCurImage->Pal.Palette[4] = 0xFF;
-				iCurImage->Pal.Palette[5] = 0xFF;
+				iCurImage->Pal.Palette[0] = 0xFF;  // Entry for white
+				iCurImage->Pal.Palette[1] = 0xFF;
+				iCurImage->Pal.Palette[2] = 0xFF;
+				iCurImage->Pal.Palette[3] = 0x00;  // Entry for black
+				iCurImage->Pal.Palette[4] = 0x00;
+				iCurImage->Pal.Palette[5] = 0x00;
 			}
 			else {
-				iread(iCurImage->Pal.Palette, 1, 6);  // Read in the color map.
+				ILubyte Planes[6];  // The map has all reds first, then all greens, then all blues.
+				if (iread(Planes, 1, 6) != 6)
+					return IL_FALSE;
+				for (i = 0; i < 6; i++)
+					iCurImage->Pal.Palette[i] = Planes[i % 3 * 2 + i / 3];
 			}
-			iCurImage->Pal.PalSize = 6;
-			iCurImage->Pal.PalType = IL_PAL_RGB24;
-
-			Padding = (16 - (iCurImage->Width % 16)) % 16;  // Has to be aligned on a 16-bit boundary.  The rest is padding.
 
 			// Reads the bits
 			for (i = 0; i < iCurImage->Height; i++) {
-				bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
-				//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
-				bread(PaddingData, 1, Padding, File);  // Skip padding bits.
+				Bits = 0;
+				for (j = 0; j < iCurImage->Width; j++) {
+					if (j % 8 == 0 && iread(&Bits, 1, 1) != 1)
+						return IL_FALSE;
+					iCurImage->Data[iCurImage->Width * i + j] = (Bits >> (7 - j % 8)) & 1;
+				}
+				if ((iCurImage->Width + 7) / 8 % 2 && i + 1 < iCurImage->Height)
+					igetc();  // Has to be aligned on a 16-bit boundary.  The rest is padding.
 			}
 			break;
 
@@ -264,31 +269,49 @@ ILboolean iLoadSunInternal(void)
 			else {  // Colour-mapped image
 				if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
 					return IL_FALSE;
-				iCurImage->Pal.Palette = (ILubyte*)ialloc(Header.ColorMapLength);  // Allocate color map.
-				if (iCurImage->Pal.Palette == NULL)
+				NumCols = Header.ColorMapLength / 3;
+				if (Header.ColorMapLength % 3 != 0 || NumCols > 256) {
+					ilSetError(IL_INVALID_FILE_HEADER);
+					return IL_FALSE;
+				}
+				Map = (ILubyte*)ialloc(Header.ColorMapLength);
+				if (Map == NULL)
 					return IL_FALSE;
-				if (iread(iCurImage->Pal.Palette, 1, Header.ColorMapLength) != Header.ColorMapLength) {  // Read color map.
+				if (iread(Map, 1, Header.ColorMapLength) != Header.ColorMapLength) {  // Read color map.
+					ifree(Map);
 					ilSetError(IL_FILE_READ_ERROR);
 					return IL_FALSE;
 				}
-
-				iCurImage->Pal.PalSize = Header.ColorMapLength;
+				iCurImage->Pal.Palette = (ILubyte*)icalloc(256, 3);  // Every index has a colour.
+				if (iCurImage->Pal.Palette == NULL) {
+					ifree(Map);
+					return IL_FALSE;
+				}
+				iCurImage->Pal.PalSize = 768;
 				iCurImage->Pal.PalType = IL_PAL_RGB24;
+				for (i = 0; i < NumCols; i++) {  // The map has all reds first, then all greens, then all blues.
+					for (j = 0; j < 3; j++)
+						iCurImage->Pal.Palette[i * 3 + j] = Map[j * NumCols + i];
+				}
+				ifree(Map);
 			}
 
 			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
 				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
 				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width, 1, iCurImage->Bps);
-					if (Padding)  // Only possible for padding to be 0 or 1.
+					if (iread(iCurImage->Data + i * iCurImage->Bps, 1, iCurImage->Bps) != iCurImage->Bps)
+						return IL_FALSE;
+					if (Padding && i + 1 < Header.Height)  // Only possible for padding to be 0 or 1.
 						igetc();
 				}
 			}
 			else {  // RLE image data
 				for (i = 0; i < iCurImage->Height; i++) {
-					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
-					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
-						igetc();  // Skip padding
+					if (!iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps, &Rle))
+						return IL_FALSE;
+					// Each scanline must be aligned on a 2-byte boundary.  Skip padding.
+					if (iCurImage->Bps % 2 && i + 1 < iCurImage->Height && !iSunGetRle(Pixel, 1, &Rle))
+						return IL_FALSE;
 				}
 			}
 			break;
@@ -309,16 +332,19 @@ ILboolean iLoadSunInternal(void)
 			if (Header.Type != IL_SUN_BYTE_ENC) {  // Regular uncompressed image data
 				Padding = (2 - (iCurImage->Bps % 2)) % 2;  // Must be padded on a 16-bit boundary (2 bytes)
 				for (i = 0; i < Header.Height; i++) {
-					iread(iCurImage->Data + i * Header.Width * 3, 1, iCurImage->Bps);
-					if (Padding)  // Only possible for padding to be 0 or 1.
+					if (iread(iCurImage->Data + i * iCurImage->Bps, 1, iCurImage->Bps) != iCurImage->Bps)
+						return IL_FALSE;
+					if (Padding && i + 1 < Header.Height)  // Only possible for padding to be 0 or 1.
 						igetc();
 				}
 			}
 			else {  // RLE image data
 				for (i = 0; i < iCurImage->Height; i++) {
-					BytesRead = iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps);
-					if (BytesRead % 2)  // Each scanline must be aligned on a 2-byte boundary.
-						igetc();  // Skip padding
+					if (!iSunGetRle(iCurImage->Data + iCurImage->Bps * i, iCurImage->Bps, &Rle))
+						return IL_FALSE;
+					// Each scanline must be aligned on a 2-byte boundary.  Skip padding.
+					if (iCurImage->Bps % 2 && i + 1 < iCurImage->Height && !iSunGetRle(Pixel, 1, &Rle))
+						return IL_FALSE;
 				}
 			}
 
@@ -338,14 +364,10 @@ ILboolean iLoadSunInternal(void)
 			}
 
 			// There is no padding at the end of each scanline.
-			Offset = 0;
-			for (i = 0; i < Header.Height; i++) {
-				for (j = 0; j < Header.Width; j++) {
-					igetc();  // There is a pad byte before each pixel.
-					iCurImage->Data[Offset]   = igetc();
-					iCurImage->Data[Offset+1] = igetc();
-					iCurImage->Data[Offset+2] = igetc();
-				}
+			for (i = 0; i < Header.Width * Header.Height; i++) {
+				if (iread(Pixel, 1, 4) != 4)  // There is a pad byte before each pixel.
+					return IL_FALSE;
+				memcpy(iCurImage->Data + i * 3, Pixel + 1, 3);
 			}
 			break;
 
@@ -359,40 +381,37 @@ ILboolean iLoadSunInternal(void)
 }
 
 
-ILuint iSunGetRle(ILubyte *Data, ILuint Length)
+ILboolean iSunGetRle(ILubyte *Data, ILuint Length, SUNRLE *State)
 {
-	ILuint	i = 0, j;
-	ILubyte	Flag, Value;
-	ILuint	Count;
-
-	for (i = 0; i < Length; ) {
-		Flag = igetc();
-		if (Flag == 0x80) {  // Run follows (or 1 byte of 0x80)
-			Count = igetc();
-			if (Count == 0) {  // 1 pixel of value (0x80)
-				*Data = 0x80;
-				Data++;
-				i++;
-			}
-			else {  // Here we have a run.
-				Value = igetc();
-				Count++;  // Should really be Count+1
-				for (j = 0; j < Count && i + j < Length; j++, Data++) {
-					*Data = Value;
+	ILuint	i;
+	ILint	Flag, Count, Value;
+
+	for (i = 0; i < Length; i++) {
+		if (State->Left == 0) {
+			Flag = igetc();
+			if (Flag == IL_EOF)
+				return IL_FALSE;
+			State->Value = (ILubyte)Flag;  // 1 byte of this value
+			State->Left = 1;
+			if (Flag == 0x80) {  // Run follows (or 1 byte of 0x80)
+				Count = igetc();
+				if (Count == IL_EOF)
+					return IL_FALSE;
+				if (Count != 0) {  // Here we have a run.
+					Value = igetc();
+					if (Value == IL_EOF)
+						return IL_FALSE;
+					State->Value = (ILubyte)Value;
+					State->Left = Count + 1;  // Should really be Count+1
 				}
-				i += Count;
 			}
 		}
-		else {  // 1 byte of this value (cannot be 0x80)
-			*Data = Flag;
-			Data++;
-			i++;
-		}
+		Data[i] = State->Value;
+		State->Left--;
 	}
 
-	return i;
+	return IL_TRUE;
 }
 
 
 #endif//IL_NO_SUN
-
-- 
2.43.0


From e7cc3c5f3fcc4e26df65f38ba2db858ee833062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 66/79] fix: WBMP read past its rows, ignored short data and
 load settings

---
 DevIL/src-IL/src/il_wbmp.cpp | 39 ++++++++++++++----------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 2bf07d5..8236de6 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -68,9 +68,8 @@ ILboolean ilLoadWbmpL(const void *Lump, ILuint Size)
 
 ILboolean iLoadWbmpInternal(void)
 {
-	ILuint	Width, Height, BitPadding, i;
-	BITFILE	*File;
-	ILubyte	Padding[8];
+	ILuint	Width, Height, i, j;
+	ILubyte	Bits = 0;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -94,29 +93,16 @@ ILboolean iLoadWbmpInternal(void)
 		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;  // Always has origin in the upper left.
 
-	BitPadding = (8 - (Width % 8)) % 8;  // Has to be aligned on a byte boundary.  The rest is padding.
-	File = bfile(iGetFile());
-	if (File == NULL)
-		return IL_FALSE;  //@TODO: Error?
-
-	//@TODO: Do this without bread?  Would be faster, since we would not have to do
-	//  the second loop.
-
-	// Reads the bits
-	for (i = 0; i < iCurImage->Height; i++) {
-		bread(&iCurImage->Data[iCurImage->Width * i], 1, iCurImage->Width, File);
-		//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
-		bread(Padding, 1, BitPadding, File);  // Skip padding bits.
-	}
-	// Converts bit value of 1 to white and leaves 0 at 0 (2-colour images only).
-	for (i = 0; i < iCurImage->SizeOfData; i++) {
-		if (iCurImage->Data[i] == 1)
-			iCurImage->Data[i] = 0xFF;  // White
+	// Reads the bits.  Every row starts with a new byte, a bit value of 1 is white.
+	for (i = 0; i < Height; i++) {
+		for (j = 0; j < Width; j++) {
+			if (j % 8 == 0 && iread(&Bits, 1, 1) != 1)
+				return IL_FALSE;
+			iCurImage->Data[Width * i + j] = (Bits >> (7 - j % 8)) & 1 ? 0xFF : 0;
+		}
 	}
 
-	bclose(File);
-
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
@@ -225,6 +211,11 @@ ILboolean iSaveWbmpInternal()
 	ILubyte	Val;
 	ILubyte	*TempData;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	iputc(0);  // First two header values
 	iputc(0);  //  must be 0.
 
-- 
2.43.0


From 1b63318ba1628dcc1cbb9041391b3149c3331215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 67/79] fix: PIX runs were written past the end of the image

---
 DevIL/src-IL/src/il_pix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DevIL/src-IL/src/il_pix.cpp b/DevIL/src-IL/src/il_pix.cpp
index e43e60f..87080f4 100644
--- a/DevIL/src-IL/src/il_pix.cpp
+++ b/DevIL/src-IL/src/il_pix.cpp
@@ -143,6 +143,10 @@ ILboolean iLoadPixInternal()
 		ByteHead = igetc();
 		if (iread(Colour, 1, 3) != 3)
 			return IL_FALSE;
+		if (ByteHead > (iCurImage->SizeOfData - i) / 3) {  // More pixels than the image has.
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 		for (j = 0; j < ByteHead; j++) {
 			iCurImage->Data[i++] = Colour[0];
 			iCurImage->Data[i++] = Colour[1];
-- 
2.43.0


From 8b116f1883ffbb4af8c12a694275b0a6e63e474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 68/79] fix: raw headers were read unchecked and runs of 2
 channels refused

---
 DevIL/src-IL/src/il_raw.cpp | 38 ++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/src/il_raw.cpp b/DevIL/src-IL/src/il_raw.cpp
index 881fdd3..c5eb993 100644
--- a/DevIL/src-IL/src/il_raw.cpp
+++ b/DevIL/src-IL/src/il_raw.cpp
@@ -70,24 +70,43 @@ ILboolean ilLoadRawL(const void *Lump, ILuint Size)
 // Internal function to load a raw image
 ILboolean iLoadRawInternal()
 {
+	ILuint	Width, Height, Depth;
+	ILubyte	Bpp, Bpc;
+	ILenum	Format;
+
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
+	Width = GetLittleUInt();
 
-	iCurImage->Width = GetLittleUInt();
+	Height = GetLittleUInt();
 
-	iCurImage->Height = GetLittleUInt();
+	Depth = GetLittleUInt();
 
-	iCurImage->Depth = GetLittleUInt();
+	Bpp = (ILubyte)igetc();
 
-	iCurImage->Bpp = (ILubyte)igetc();
+	if (iread(&Bpc, 1, 1) != 1)
+		return IL_FALSE;
 
-	if (iread(&iCurImage->Bpc, 1, 1) != 1)
+	if (Bpp == 1)
+		Format = IL_LUMINANCE;
+	else if (Bpp == 2)
+		Format = IL_LUMINANCE_ALPHA;
+	else if (Bpp == 3)
+		Format = IL_RGB;
+	else if (Bpp == 4)
+		Format = IL_RGBA;
+	else
+		Format = 0;
+
+	if (Width == 0 || Height == 0 || Depth == 0 || Format == 0 || ilGetTypeBpc(Bpc) == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
+	}
 
-	if (!ilTexImage(iCurImage->Width, iCurImage->Height, iCurImage->Depth, iCurImage->Bpp, 0, ilGetTypeBpc(iCurImage->Bpc), NULL)) {
+	if (!ilTexImage(Width, Height, Depth, Bpp, Format, ilGetTypeBpc(Bpc), NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
@@ -103,13 +122,6 @@ ILboolean iLoadRawInternal()
 		iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	}
 
-	if (iCurImage->Bpp == 1)
-		iCurImage->Format = IL_LUMINANCE;
-	else if (iCurImage->Bpp == 3)
-		iCurImage->Format = IL_RGB;
-	else  // 4
-		iCurImage->Format = IL_RGBA;
-
 	return ilFixImage();
 }
 
-- 
2.43.0


From 90d7b473168cd60efb4c61052306f8e456503d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 69/79] fix: LIF files without pixels were loaded

---
 DevIL/src-IL/src/il_lif.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DevIL/src-IL/src/il_lif.cpp b/DevIL/src-IL/src/il_lif.cpp
index 01aa700..be31f10 100644
--- a/DevIL/src-IL/src/il_lif.cpp
+++ b/DevIL/src-IL/src/il_lif.cpp
@@ -171,6 +171,10 @@ ILboolean iLoadLifInternal()
 	
 	if (!iGetLifHead(&LifHead))
 		return IL_FALSE;
+	if (LifHead.Width == 0 || LifHead.Height == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
 
 	if (!ilTexImage(LifHead.Width, LifHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
-- 
2.43.0


From db273c7ecaf58fa66a490a24bcfdef07adbaff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 70/79] fix: FTX files without pixels were loaded

---
 DevIL/src-IL/src/il_ftx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_ftx.cpp b/DevIL/src-IL/src/il_ftx.cpp
index caac1fd..c7a02c6 100644
--- a/DevIL/src-IL/src/il_ftx.cpp
+++ b/DevIL/src-IL/src/il_ftx.cpp
@@ -72,6 +72,11 @@ ILboolean iLoadFtxInternal(void)
 	Height = GetLittleUInt();
 	HasAlpha = GetLittleUInt();  // Kind of backwards from what I would think...
 
+	if (Width == 0 || Height == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	//@TODO: Right now, it appears that all images are in RGBA format.  See if I can find specs otherwise
 	//  or images that load incorrectly like this.
 	//if (HasAlpha == 0) {  // RGBA format
-- 
2.43.0


From 06344d4f84d8760d4de86f1e59421f5871e67f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 71/79] fix: PXR headers and data were read unchecked

---
 DevIL/src-IL/src/il_pxr.cpp | 39 ++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_pxr.cpp b/DevIL/src-IL/src/il_pxr.cpp
index 6c49329..541ef9a 100644
--- a/DevIL/src-IL/src/il_pxr.cpp
+++ b/DevIL/src-IL/src/il_pxr.cpp
@@ -84,35 +84,56 @@ ILboolean iLoadPxrInternal()
 	ILushort	Width, Height;
 	ILubyte		Bpp;
 
-	Width = sizeof(PIXHEAD);
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 
-	iseek(416, IL_SEEK_SET);
+	if (iseek(416, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 	Height = GetLittleUShort();
 	Width = GetLittleUShort();
-	iseek(424, IL_SEEK_SET);
+	if (iseek(424, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 	Bpp = (ILubyte)igetc();
 
+	if (Width == 0 || Height == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	switch (Bpp)
 	{
 		case 0x08:
-			ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0E:
-			ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0F:
-			ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		default:
 			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 	}
 
-	iseek(1024, IL_SEEK_SET);
-	iread(iCurImage->Data, 1, iCurImage->SizeOfData);
+	if (iseek(1024, IL_SEEK_SET)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
+		return IL_FALSE;
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
-- 
2.43.0


From 31480c6fbc2049141214d0d00c469ade621c17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:24 +0000
Subject: [PATCH 72/79] fix: Doom pictures with bad columns hung or read
 elsewhere, and the converted palette was wrong

---
 DevIL/src-IL/src/il_doom.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_doom.cpp b/DevIL/src-IL/src/il_doom.cpp
index c618978..1380bbb 100644
--- a/DevIL/src-IL/src/il_doom.cpp
+++ b/DevIL/src-IL/src/il_doom.cpp
@@ -93,6 +93,11 @@ ILboolean iLoadDoomInternal()
 	graphic_header[0] = GetLittleShort();  // Not even used
 	graphic_header[1] = GetLittleShort();  // Not even used
 
+	if (width <= 0 || height <= 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+
 	if (!ilTexImage(width, height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
@@ -112,7 +117,10 @@ ILboolean iLoadDoomInternal()
 	for (column_loop = 0; column_loop < width; column_loop++) {
 		column_offset = GetLittleInt();
 		pointer_position = itell();
-		iseek(first_pos + column_offset, IL_SEEK_SET);
+		if (column_offset < 0 || column_offset > 0x7FFFFFFF - first_pos || iseek(first_pos + column_offset, IL_SEEK_SET)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
 
 		while (1) {
 			if (iread(&topdelta, 1, 1) != 1)
@@ -144,9 +152,9 @@ ILboolean iLoadDoomInternal()
 		}
 
 		for (i = 0; i < iCurImage->SizeOfData; i++) {
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
+			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3];
+			NewData[i * 4 + 1] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 1];
+			NewData[i * 4 + 2] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 2];
 			NewData[i * 4 + 3] = iCurImage->Data[i] != 247 ? 255 : 0;
 		}
 
@@ -185,7 +193,7 @@ ILboolean ilLoadDoomFlat(ILconst_string FileName)
 		return bFlat;
 	}
 
-	bFlat = ilLoadDoomF(FlatFile);
+	bFlat = ilLoadDoomFlatF(FlatFile);
 	icloser(FlatFile);
 
 	return bFlat;
@@ -249,9 +257,9 @@ ILboolean iLoadDoomFlatInternal()
 		}
 
 		for (i = 0; i < iCurImage->SizeOfData; i++) {
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i]];
+			NewData[i * 4] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3];
+			NewData[i * 4 + 1] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 1];
+			NewData[i * 4 + 2] = iCurImage->Pal.Palette[iCurImage->Data[i] * 3 + 2];
 			NewData[i * 4 + 3] = iCurImage->Data[i] != 247 ? 255 : 0;
 		}
 
-- 
2.43.0


From d3f1e3f2af1cc0e37580539241b68bfad4fd10fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:24 +0000
Subject: [PATCH 73/79] fix: textures shorter than their header were read out
 of bounds

---
 DevIL/src-IL/src/il_texture.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_texture.cpp b/DevIL/src-IL/src/il_texture.cpp
index 27d0c7a..ceb5db7 100644
--- a/DevIL/src-IL/src/il_texture.cpp
+++ b/DevIL/src-IL/src/il_texture.cpp
@@ -55,11 +55,13 @@ ILboolean ilLoadTextureF(ILHANDLE File)
 //! Reads from a memory "lump" that contains a TEXTURE
 ILboolean ilLoadTextureL(const void *Lump, ILuint Size)
 {
-	iSetInputLump(Lump, Size);
 	// From http://forums.totalwar.org/vb/showthread.php?t=70886, all that needs to be done
 	//  is to strip out the first 48 bytes, and then it is DDS data.
-	iseek(48, IL_SEEK_CUR);
-	return ilLoadDdsL(Lump, Size);
+	if (Size <= 48) {
+		ilSetError(IL_INVALID_FILE_HEADER);
+		return IL_FALSE;
+	}
+	return ilLoadDdsL((const ILubyte*)Lump + 48, Size - 48);
 }
 
 #endif//IL_NO_TEXTURE
-- 
2.43.0


From 91a94edf4798f701db37daa8d03824959c481d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:24 +0000
Subject: [PATCH 74/79] fix: WAL files with short mipmaps or small sizes were
 misread

---
 DevIL/src-IL/src/il_wal.cpp | 95 ++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 60 deletions(-)

diff --git a/DevIL/src-IL/src/il_wal.cpp b/DevIL/src-IL/src/il_wal.cpp
index 1a70b0c..c731a4c 100644
--- a/DevIL/src-IL/src/il_wal.cpp
+++ b/DevIL/src-IL/src/il_wal.cpp
@@ -76,92 +76,67 @@ ILboolean ilLoadWalL(const void *Lump, ILuint Size)
 ILboolean iLoadWalInternal()
 {
 	WALHEAD	Header;
-	ILimage	*Mipmaps[3], *CurImage;
-	ILuint	i, NewW, NewH;
+	ILimage	*Image;
+	ILuint	i;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
-	CurImage = iCurImage;
 
 
 	// Read header
-	iread(&Header.FileName, 1, 32);
+	if (iread(&Header.FileName, 1, 32) != 32)
+		return IL_FALSE;
 	Header.Width = GetLittleUInt();
 	Header.Height = GetLittleUInt();
 
 	for (i = 0; i < 4; i++)
 		Header.Offsets[i] = GetLittleUInt();
 
-	iread(Header.AnimName, 1, 32);
+	if (iread(Header.AnimName, 1, 32) != 32)
+		return IL_FALSE;
 	Header.Flags = GetLittleUInt();
 	Header.Contents = GetLittleUInt();
 	Header.Value = GetLittleUInt();
 
-	if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+	if (Header.Width < 8 || Header.Height < 8) {  // There are three mipmaps.
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
-
-	for (i = 0; i < 3; i++) {
-		Mipmaps[i] = (ILimage*)icalloc(sizeof(ILimage), 1);
-		if (Mipmaps[i] == NULL)
-			goto cleanup_error;
-		Mipmaps[i]->Pal.Palette = (ILubyte*)ialloc(768);
-		if (Mipmaps[i]->Pal.Palette == NULL)
-			goto cleanup_error;
-		memcpy(Mipmaps[i]->Pal.Palette, ilDefaultQ2Pal, 768);
-		Mipmaps[i]->Pal.PalType = IL_PAL_RGB24;
 	}
 
-	NewW = Header.Width;
-	NewH = Header.Height;
-	for (i = 0; i < 3; i++) {
-		NewW /= 2;
-		NewH /= 2;
-		iCurImage = Mipmaps[i];
-		if (!ilTexImage(NewW, NewH, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
-			goto cleanup_error;
-		// Don't set until now so ilTexImage won't get rid of the palette.
-		Mipmaps[i]->Pal.PalSize = 768;
-		Mipmaps[i]->Origin = IL_ORIGIN_UPPER_LEFT;
-	}
-
-	iCurImage = CurImage;
-	ilCloseImage(iCurImage->Mipmaps);
-	iCurImage->Mipmaps = Mipmaps[0];
-	Mipmaps[0]->Mipmaps = Mipmaps[1];
-	Mipmaps[1]->Mipmaps = Mipmaps[2];
-
-	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
-		ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (iCurImage->Pal.Palette == NULL)
-		goto cleanup_error;
-
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	memcpy(iCurImage->Pal.Palette, ilDefaultQ2Pal, 768);
-
-	iseek(Header.Offsets[0], IL_SEEK_SET);
-	if (iread(iCurImage->Data, Header.Width * Header.Height, 1) != 1)
-		goto cleanup_error;
+	if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+		return IL_FALSE;
 
-	for (i = 0; i < 3; i++) {
-		iseek(Header.Offsets[i+1], IL_SEEK_SET);
-		if (iread(Mipmaps[i]->Data, Mipmaps[i]->Width * Mipmaps[i]->Height, 1) != 1)
-			goto cleanup_error;
+	// The image is followed by its mipmaps, all with the palette of the game.
+	Image = iCurImage;
+	for (i = 0; i < 4; i++) {
+		Image->Origin = IL_ORIGIN_UPPER_LEFT;
+		Image->Format = IL_COLOUR_INDEX;
+		Image->Pal.Palette = (ILubyte*)ialloc(768);
+		if (Image->Pal.Palette == NULL)
+			return IL_FALSE;
+		memcpy(Image->Pal.Palette, ilDefaultQ2Pal, 768);
+		Image->Pal.PalSize = 768;
+		Image->Pal.PalType = IL_PAL_RGB24;
+
+		if (Header.Offsets[i] > 0x7FFFFFFF || iseek(Header.Offsets[i], IL_SEEK_SET)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			return IL_FALSE;
+		}
+		if (iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
+			return IL_FALSE;
+
+		if (i < 3) {
+			Image->Mipmaps = ilNewImage(Image->Width / 2, Image->Height / 2, 1, 1, 1);
+			Image = Image->Mipmaps;
+			if (Image == NULL)
+				return IL_FALSE;
+		}
 	}
 
 	// Fixes all images, even mipmaps.
 	return ilFixImage();
-
-cleanup_error:
-	for (i = 0; i < 3; i++) {
-		ilCloseImage(Mipmaps[i]);
-	}
-	return IL_FALSE;
 }
 
 
-- 
2.43.0


From 9f0ebfd021f7199d6084a1b54db8bc34d9a1e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:24 +0000
Subject: [PATCH 75/79] fix: MDL textures with bad offsets were loaded, and
 load settings ignored

---
 DevIL/src-IL/src/il_mdl.cpp | 65 ++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 6e5d81a..406a986 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -127,10 +127,8 @@ ILboolean ilLoadMdlL(const void *Lump, ILuint Size)
 ILboolean iLoadMdlInternal()
 {
 	ILuint		Id, Version, NumTex, TexOff, TexDataOff, Position, ImageNum;
-	ILubyte		*TempPal;
 	TEX_HEAD	TexHead;
-	ILimage		*BaseImage=NULL;
-	ILboolean	BaseCreated = IL_FALSE;
+	ILimage		*Image = iCurImage;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -147,7 +145,10 @@ ILboolean iLoadMdlInternal()
 	}
 
 	// Skips the actual model header.
-	iseek(172, IL_SEEK_CUR);
+	if (iseek(172, IL_SEEK_CUR)) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_FALSE;
+	}
 
 	NumTex = GetLittleUInt();
 	TexOff = GetLittleUInt();
@@ -158,7 +159,10 @@ ILboolean iLoadMdlInternal()
 		return IL_FALSE;
 	}
 
-	iseek(TexOff, IL_SEEK_SET);
+	if (TexOff > 0x7FFFFFFF || iseek(TexOff, IL_SEEK_SET)) {
+		ilSetError(IL_ILLEGAL_FILE_VALUE);
+		return IL_FALSE;
+	}
 
 	for (ImageNum = 0; ImageNum < NumTex; ImageNum++) {
 		if (iread(TexHead.Name, 1, 64) != 64)
@@ -169,49 +173,44 @@ ILboolean iLoadMdlInternal()
 		TexHead.Offset = GetLittleUInt();
 		Position = itell();
 
-		if (TexHead.Offset == 0) {
+		if (TexHead.Offset == 0 || TexHead.Offset > 0x7FFFFFFF || TexHead.Width == 0 || TexHead.Height == 0) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
 
-		if (!BaseCreated) {
-			ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
-			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
-			BaseCreated = IL_TRUE;
-			BaseImage = iCurImage;
-			//iCurImage->NumNext = NumTex - 1;  // Don't count the first image.
+		if (ImageNum == 0) {
+			if (!ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 		}
 		else {
-			//iCurImage->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
-			iCurImage = iCurImage->Next;
-			iCurImage->Format = IL_COLOUR_INDEX;
-			iCurImage->Type = IL_UNSIGNED_BYTE;
+			Image->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
+			Image = Image->Next;
+			if (Image == NULL)
+				return IL_FALSE;
+			Image->Format = IL_COLOUR_INDEX;
 		}
+		Image->Origin = IL_ORIGIN_LOWER_LEFT;
 
-		TempPal	= (ILubyte*)ialloc(768);
-		if (TempPal == NULL) {
-			iCurImage = BaseImage;
+		Image->Pal.Palette = (ILubyte*)ialloc(768);
+		if (Image->Pal.Palette == NULL)
 			return IL_FALSE;
-		}
-		iCurImage->Pal.Palette = TempPal;
-		iCurImage->Pal.PalSize = 768;
-		iCurImage->Pal.PalType = IL_PAL_RGB24;
+		Image->Pal.PalSize = 768;
+		Image->Pal.PalType = IL_PAL_RGB24;
 
-		iseek(TexHead.Offset, IL_SEEK_SET);
-		if (iread(iCurImage->Data, TexHead.Width * TexHead.Height, 1) != 1)
-			return IL_FALSE;
-		if (iread(iCurImage->Pal.Palette, 1, 768) != 768)
+		if (iseek(TexHead.Offset, IL_SEEK_SET)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
-
-		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
-			ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 		}
+		if (iread(Image->Data, 1, Image->SizeOfData) != Image->SizeOfData)
+			return IL_FALSE;
+		if (iread(Image->Pal.Palette, 1, 768) != 768)
+			return IL_FALSE;
 
-		iseek(Position, IL_SEEK_SET);
+		if (iseek(Position, IL_SEEK_SET))
+			return IL_FALSE;
 	}
 
-	iCurImage = BaseImage;
-
+	// Converts the images to the format, type and origin that are wanted.
 	return ilFixImage();
 }
 
-- 
2.43.0


From a5b4eb3b3b418c0dc3e59da27d1e48e1bf14a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:24 +0000
Subject: [PATCH 76/79] fix: PIC files with missing channels or long runs left
 or overwrote memory

---
 DevIL/src-IL/include/il_pic.h |  2 +-
 DevIL/src-IL/src/il_pic.cpp   | 22 ++++++++++------------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/include/il_pic.h b/DevIL/src-IL/include/il_pic.h
index eccec72..852cf4b 100644
--- a/DevIL/src-IL/include/il_pic.h
+++ b/DevIL/src-IL/include/il_pic.h
@@ -68,7 +68,7 @@ typedef struct CHANNEL
 ILboolean iIsValidPic(void);
 ILboolean iCheckPic(PIC_HEAD *Header);
 ILboolean iLoadPicInternal(void);
-ILboolean readScanlines(ILuint *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha);
+ILboolean readScanlines(ILubyte *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha);
 ILuint    readScanline(ILubyte *scan, ILint width, CHANNEL *channel,  ILint bytes);
 ILboolean channelReadRaw(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes);
 ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, ILint bytes);
diff --git a/DevIL/src-IL/src/il_pic.cpp b/DevIL/src-IL/src/il_pic.cpp
index 48e99ab..b5ae9f4 100644
--- a/DevIL/src-IL/src/il_pic.cpp
+++ b/DevIL/src-IL/src/il_pic.cpp
@@ -201,6 +201,7 @@ ILboolean iLoadPicInternal()
 		Channels->Type = igetc();
 		Channels->Chan = igetc();
 		if (ieof()) {
+			ilSetError(IL_FILE_READ_ERROR);
 			Read = IL_FALSE;
 			goto finish;
 		}
@@ -218,14 +219,15 @@ ILboolean iLoadPicInternal()
 		}
 	}
 	else {  // No alpha channel
-		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+		if (!ilTexImage(Header.Width, Header.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
 			Read = IL_FALSE;
 			goto finish;  // Have to destroy Channels first.
 		}
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 
-	Read = readScanlines((ILuint*)iCurImage->Data, Header.Width, Header.Height, Channel, Alpha);
+	memset(iCurImage->Data, 0, iCurImage->SizeOfData);  // Not every channel has to be there.
+	Read = readScanlines(iCurImage->Data, Header.Width, Header.Height, Channel, Alpha);
 
 finish:
 	// Destroy channels
@@ -242,17 +244,13 @@ finish:
 }
 
 
-ILboolean readScanlines(ILuint *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha)
+ILboolean readScanlines(ILubyte *image, ILint width, ILint height, CHANNEL *channel, ILuint alpha)
 {
 	ILint	i;
-	ILuint	*scan;
-
-	(void)alpha;
+	ILint	bytes = alpha ? 4 : 3;
 	
 	for (i = height - 1; i >= 0; i--) {
-		scan = image + i * width;
-
-		if (!readScanline((ILubyte *)scan, width, channel, alpha ? 4 : 3)) {
+		if (!readScanline(image + (size_t)i * width * bytes, width, channel, bytes)) {
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
@@ -337,8 +335,8 @@ ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, I
 		count = igetc();
 		if (count == IL_EOF)
 			return IL_FALSE;
-		if (count > width)
-			count = width;
+		if (count > i)
+			count = i;
 		i -= count;
 		
 		if (ieof())
@@ -350,7 +348,7 @@ ILboolean channelReadPure(ILubyte *scan, ILint width, ILint noCol, ILint *off, I
 		
 		for (k = 0; k < count; k++, scan += bytes) {
 			for(j = 0; j < noCol; j++)
-				scan[off[j] + k] = col[j];
+				scan[off[j]] = col[j];
 		}
 	}
 	return IL_TRUE;
-- 
2.43.0


From 5b29048199b6405710d225338e0476a8d0ab1b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:24 +0000
Subject: [PATCH 77/79] fix: HDR files cut short or with bad runs read outside
 their rows

---
 DevIL/src-IL/include/il_hdr.h |  2 +-
 DevIL/src-IL/src/il_hdr.cpp   | 68 +++++++++++++++++++++++++----------
 2 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/DevIL/src-IL/include/il_hdr.h b/DevIL/src-IL/include/il_hdr.h
index 2c30b0a..5f22cb0 100644
--- a/DevIL/src-IL/include/il_hdr.h
+++ b/DevIL/src-IL/include/il_hdr.h
@@ -38,6 +38,6 @@ ILboolean ilLoadHdrF(ILHANDLE file);
 ILboolean iLoadHdrInternal();
 ILboolean iSaveHdrInternal();
 
-void ReadScanline(ILubyte *scanline, ILuint w);
+ILboolean ReadScanline(ILubyte *scanline, ILuint w);
 
 #endif//HDR_H
diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index e5b47a2..a40fe3a 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -73,7 +73,8 @@ ILboolean iGetHdrHead(HDRHEADER *Header)
 	char buff[81]; // 01-19-2009: Added space for the '\0'.
 	ILuint count = 0;
 
-	iread(Header->Signature, 1, 10);
+	if (iread(Header->Signature, 1, 10) != 10)
+		return IL_FALSE;
 
 	//skip lines until an empty line is found.
 	//this marks the end of header information,
@@ -117,7 +118,11 @@ ILboolean iGetHdrHead(HDRHEADER *Header)
 	//"+X" after the following line)
 	
 	// The 2 has to be in the %s format specifier to prevent buffer overruns.
-	sscanf(buff, "%2s %d %2s %d", y, &Header->Height, x, &Header->Width);
+	if (sscanf(buff, "%2s %d %2s %d", y, &Header->Height, x, &Header->Width) != 4)
+		return IL_FALSE;
+
+	if (Header->Width == 0 || Header->Height == 0)
+		return IL_FALSE;
 
 	return IL_TRUE;
 }
@@ -225,9 +230,17 @@ ILboolean iLoadHdrInternal()
 		iPreCache(iCurImage->Width / 8 * iCurImage->Height);
 
 	data = (ILfloat*)iCurImage->Data;
-	scanline = (ILubyte*)ialloc(Header.Width*4);
+	scanline = (ILubyte*)icalloc(Header.Width, 4);
+	if (scanline == NULL) {
+		iUnCache();
+		return IL_FALSE;
+	}
 	for (i = 0; i < Header.Height; ++i) {
-		ReadScanline(scanline, Header.Width);
+		if (!ReadScanline(scanline, Header.Width)) {
+			iUnCache();
+			ifree(scanline);
+			return IL_FALSE;
+		}
 
 		//convert hdrs internal format to floats
 		for (j = 0; j < 4*Header.Width; j += 4) {
@@ -260,21 +273,24 @@ ILboolean iLoadHdrInternal()
 	return ilFixImage();
 }
 
-void ReadScanline(ILubyte *scanline, ILuint w) {
-	ILubyte *runner;
+ILboolean ReadScanline(ILubyte *scanline, ILuint w) {
+	ILubyte *runner, rgbe[4];
 	ILuint r, g, b, e, read, shift;
 
-	r = igetc();
-	g = igetc();
-	b = igetc();
-	e = igetc();
+	if (iread(rgbe, 1, 4) != 4)
+		return IL_FALSE;
+	r = rgbe[0];
+	g = rgbe[1];
+	b = rgbe[2];
+	e = rgbe[3];
 
 	//check if the scanline is in the new format
 	//if so, e, r, g, g are stored separated and are
 	//rle-compressed independently.
 	if (r == 2 && g == 2) {
 		ILuint length = (b << 8) | e;
-		ILuint j, t, k;
+		ILuint j, k;
+		ILint t;
 		if (length > w)
 			length = w; //fix broken files
 		for (k = 0; k < 4; ++k) {
@@ -282,12 +298,16 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 			j = 0;
 			while (j < length) {
 				t = igetc();
+				if (t == IL_EOF)
+					return IL_FALSE;
 				if (t > 128) { //Run?
-					ILubyte val = igetc();
+					ILint val = igetc();
+					if (val == IL_EOF)
+						return IL_FALSE;
 					t &= 127;
 					//copy current byte
 					while (t > 0 && j < length) {
-						*runner = val;
+						*runner = (ILubyte)val;
 						runner += 4;
 						--t;
 						++j;
@@ -296,7 +316,8 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				else { //No Run.
 					//read new bytes
 					while (t > 0 && j < length) {
-						*runner = igetc();
+						if (iread(runner, 1, 1) != 1)
+							return IL_FALSE;
 						runner += 4;
 						--t;
 						++j;
@@ -304,7 +325,7 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 				}
 			}
 		}
-		return; //done decoding a scanline in separated format
+		return IL_TRUE; //done decoding a scanline in separated format
 	}
 
 	//if we come here, we are dealing with old-style scanlines
@@ -313,10 +334,12 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 	runner = scanline;
 	while (read < w) {
 		if (read != 0) {
-			r = igetc();
-			g = igetc();
-			b = igetc();
-			e = igetc();
+			if (iread(rgbe, 1, 4) != 4)
+				return IL_FALSE;
+			r = rgbe[0];
+			g = rgbe[1];
+			b = rgbe[2];
+			e = rgbe[3];
 		}
 
 		//if all three mantissas are 1, then this is a rle
@@ -324,6 +347,11 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 		if (r == 1 && g == 1 && b == 1) {
 			ILuint length = e;
 			ILuint j;
+			//there has to be a pixel to repeat, and a sane count
+			if (read == 0 || shift > 16) {
+				ilSetError(IL_ILLEGAL_FILE_VALUE);
+				return IL_FALSE;
+			}
 			for (j = length << shift; j > 0 && read < w; --j) {
 				memcpy(runner, runner - 4, 4);
 				runner += 4;
@@ -346,6 +374,8 @@ void ReadScanline(ILubyte *scanline, ILuint w) {
 			++read;
 		}
 	}
+
+	return IL_TRUE;
 }
 
 
-- 
2.43.0


From c2a51c4f33b01a9bac75e70e68682db4222818cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:24 +0000
Subject: [PATCH 78/79] fix: palette files leaked, ignored registered readers,
 and saving altered or nearest colours missed

---
 DevIL/src-IL/include/il_pal.h |   2 +-
 DevIL/src-IL/src/il_pal.cpp   | 577 ++++++++++++++--------------------
 2 files changed, 238 insertions(+), 341 deletions(-)

diff --git a/DevIL/src-IL/include/il_pal.h b/DevIL/src-IL/include/il_pal.h
index 8235326..af0de61 100644
--- a/DevIL/src-IL/include/il_pal.h
+++ b/DevIL/src-IL/include/il_pal.h
@@ -45,7 +45,7 @@ typedef struct HALOHEAD
 
 ILboolean	ilLoadJascPal(ILconst_string FileName);
 ILboolean	ilSaveJascPal(ILconst_string FileName);
-char		*iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File);
+char		*iFgetw(ILubyte *Buff, ILint MaxLen);
 ILboolean	ilLoadHaloPal(ILconst_string FileName);
 ILboolean	ilLoadColPal(ILconst_string FileName);
 ILboolean	ilLoadActPal(ILconst_string FileName);
diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index bede3c8..f41a72c 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -21,7 +21,7 @@
 //! Loads a palette from FileName into the current image's palette.
 ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 {
-	FILE		*f;
+	ILHANDLE	f;
 	ILboolean	IsPsp;
 	char		Head[8];
 
@@ -40,23 +40,23 @@ ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 		return ilLoadPltPal(FileName);
 	}
 
-#ifndef _UNICODE
-	f = fopen(FileName, "rt");
-#else
-	f = _wfopen(FileName, L"rt");
-#endif//_UNICODE
+	f = iopenr(FileName);
 	if (f == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
-	fread(Head, 1, 8, f);
+	iSetInputFile(f);
+	if (iread(Head, 1, 8) != 8) {
+		icloser(f);
+		return IL_FALSE;
+	}
 	if (!strncmp(Head, "JASC-PAL", 8))
 		IsPsp = IL_TRUE;
 	else
 		IsPsp = IL_FALSE;
 
-	fclose(f);
+	icloser(f);
 
 	if (IsPsp)
 		return ilLoadJascPal(FileName);
@@ -64,123 +64,131 @@ ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 }
 
 
-//! Loads a Paint Shop Pro formatted palette (.pal) file.
-ILboolean ilLoadJascPal(ILconst_string FileName)
+// Replaces the palette of the current image.
+static void iReplacePal(ILubyte *Palette, ILuint Size)
+{
+	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE)
+		ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.Palette = Palette;
+	iCurImage->Pal.PalSize = Size;
+	iCurImage->Pal.PalType = IL_PAL_RGB24;
+}
+
+
+// Reads the decimal number in a word, IL_FALSE if it is not one from 0 to Max.
+static ILboolean iWordNumber(const ILubyte *Word, ILuint Max, ILuint *Number)
+{
+	*Number = 0;
+	do {
+		if (!isdigit(*Word))
+			return IL_FALSE;
+		*Number = *Number * 10 + (*Word - '0');
+		if (*Number > Max)
+			return IL_FALSE;
+	} while (*++Word != '\0');
+
+	return IL_TRUE;
+}
+
+
+// Reads a Paint Shop Pro palette from the file that has been opened.
+static ILboolean iLoadJascPalInternal()
 {
-	FILE *PalFile;
-	ILuint NumColours, i, c;
+	ILuint NumColours, i, Value;
 	ILubyte Buff[BUFFLEN];
-	ILboolean Error = IL_FALSE;
-	ILpal *Pal = &iCurImage->Pal;
+	ILubyte *Palette;
 
-	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
-		ilSetError(IL_INVALID_EXTENSION);
+	if (!iFgetw(Buff, BUFFLEN) || stricmp((const char*)Buff, "JASC-PAL") ||
+		!iFgetw(Buff, BUFFLEN) || stricmp((const char*)Buff, "0100") ||
+		!iFgetw(Buff, BUFFLEN) || !iWordNumber(Buff, 256, &NumColours) || NumColours == 0) {
+		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
 
-	if (iCurImage == NULL) {
-		ilSetError(IL_ILLEGAL_OPERATION);
+	Palette = (ILubyte*)ialloc(NumColours * PALBPP);
+	if (Palette == NULL)
 		return IL_FALSE;
-	}
 
-#ifndef _UNICODE
-	PalFile = fopen(FileName, "rt");
-#else
-	PalFile = _wfopen(FileName, L"rt");
-#endif//_UNICODE
-	if (PalFile == NULL) {
-		ilSetError(IL_COULD_NOT_OPEN_FILE);
-		return IL_FALSE;
+	for (i = 0; i < NumColours * PALBPP; i++) {
+		if (!iFgetw(Buff, BUFFLEN) || !iWordNumber(Buff, 255, &Value)) {
+			ilSetError(IL_ILLEGAL_FILE_VALUE);
+			ifree(Palette);
+			return IL_FALSE;
+		}
+		Palette[i] = (ILubyte)Value;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
+	iReplacePal(Palette, NumColours * PALBPP);
 
-	iFgetw(Buff, BUFFLEN, PalFile);
-	if (stricmp((const char*)Buff, "JASC-PAL")) {
-		Error = IL_TRUE;
-	}
-	iFgetw(Buff, BUFFLEN, PalFile);
-	if (stricmp((const char*)Buff, "0100")) {
-		Error = IL_TRUE;
-	}
+	return IL_TRUE;
+}
 
-	iFgetw(Buff, BUFFLEN, PalFile);
-	NumColours = atoi((const char*)Buff);
-	if (NumColours == 0 || Error) {
-		ilSetError(IL_INVALID_FILE_HEADER);
-		fclose(PalFile);
+
+//! Loads a Paint Shop Pro formatted palette (.pal) file.
+ILboolean ilLoadJascPal(ILconst_string FileName)
+{
+	ILHANDLE	PalFile;
+	ILboolean	bRet;
+
+	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
+		ilSetError(IL_INVALID_EXTENSION);
 		return IL_FALSE;
 	}
-	
-	Pal->PalSize = NumColours * PALBPP;
-	Pal->PalType = IL_PAL_RGB24;
-	Pal->Palette = (ILubyte*)ialloc(NumColours * PALBPP);
-	if (Pal->Palette == NULL) {
-		fclose(PalFile);
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	for (i = 0; i < NumColours; i++) {
-		for (c = 0; c < PALBPP; c++) {
-			iFgetw(Buff, BUFFLEN, PalFile);
-			Pal->Palette[i * PALBPP + c] = atoi((const char*)Buff);
-		}
+	PalFile = iopenr(FileName);
+	if (PalFile == NULL) {
+		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		return IL_FALSE;
 	}
 
-	fclose(PalFile);
+	iSetInputFile(PalFile);
+	bRet = iLoadJascPalInternal();
+	icloser(PalFile);
 
-	return IL_TRUE;
+	return bRet;
 }
 
 
 // File Get Word
 //	MaxLen must be greater than 1, because the trailing NULL is always stored.
-char *iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File)
+//	Returns NULL if there is no further word, or if it is too long.
+char *iFgetw(ILubyte *Buff, ILint MaxLen)
 {
 	ILint Temp;
 	ILint i;
 
-	if (Buff == NULL || File == NULL || MaxLen < 2) {
+	if (Buff == NULL || MaxLen < 2) {
 		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
 
-	for (i = 0; i < MaxLen - 1; i++) {
-		Temp = fgetc(File);
-		if (Temp == '\n' || Temp == '\0' || Temp == IL_EOF || feof(File)) {
-			break;			
-		}
-
-		if (Temp == ' ') {
-			while (Temp == ' ') {  // Just to get rid of any extra spaces
-				Temp = fgetc(File);
-			}
-			fseek(File, -1, IL_SEEK_CUR);  // Go back one
+	for (i = 0; i < MaxLen - 1; ) {
+		if (ieof())
 			break;
-		}
-
-		if (!isprint(Temp)) {  // Skips any non-printing characters
-			while (!isprint(Temp)) {
-				Temp = fgetc(File);
-			}
-			fseek(File, -1, IL_SEEK_CUR);
+		Temp = igetc();
+		if (Temp == IL_EOF)
 			break;
+		if (Temp == ' ' || !isprint(Temp)) {  // Any spaces and non-printing characters separate words.
+			if (i > 0)
+				break;
+			continue;
 		}
-
-		Buff[i] = Temp;
+		Buff[i++] = Temp;
 	}
 
 	Buff[i] = '\0';
-	return (char *)Buff;
+	return i == 0 || i == MaxLen - 1 ? NULL : (char*)Buff;
 }
 
 
 ILboolean ILAPIENTRY ilSavePal(ILconst_string FileName)
 {
-	ILstring Ext = iGetExtension(FileName);
+	ILstring Ext = FileName == NULL ? NULL : iGetExtension(FileName);
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -213,9 +221,11 @@ ILboolean ILAPIENTRY ilSavePal(ILconst_string FileName)
 //! Saves a Paint Shop Pro formatted palette (.pal) file.
 ILboolean ilSaveJascPal(ILconst_string FileName)
 {
-	FILE	*PalFile;
-	ILuint	i, PalBpp, NumCols = ilGetInteger(IL_PALETTE_NUM_COLS);
-	ILubyte	*CurPal;
+	ILHANDLE	PalFile;
+	ILuint	i, Len, NumCols = ilGetInteger(IL_PALETTE_NUM_COLS);
+	ILpal	*Pal;
+	ILboolean	bRet;
+	char	Line[16];
 
 	if (iCurImage == NULL || NumCols == 0 || NumCols > 256) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -244,50 +254,39 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 	}
 
 	// Create a copy of the current palette and convert it to RGB24 format.
-	CurPal = iCurImage->Pal.Palette;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
-		iCurImage->Pal.Palette = CurPal;
-		return IL_FALSE;
-	}
-
-	memcpy(iCurImage->Pal.Palette, CurPal, iCurImage->Pal.PalSize);
-	if (!ilConvertPal(IL_PAL_RGB24)) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = CurPal;
+	Pal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+	if (Pal == NULL)
 		return IL_FALSE;
-	}
 
-#ifndef _UNICODE
-	PalFile = fopen(FileName, "wt");
-#else
-	PalFile = _wfopen(FileName, L"wt");
-#endif//_UNICODE
-	if (!PalFile) {
+	PalFile = iopenw(FileName);
+	if (PalFile == NULL) {
+		ifree(Pal->Palette);
+		ifree(Pal);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
 	// Header needed on all .pal files
-	fputs("JASC-PAL\n0100\n256\n", PalFile);
+	iSetOutputFile(PalFile);
+	bRet = iwrite("JASC-PAL\n0100\n256\n", 1, 18) == 18;
 
-	PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
-	for (i = 0; i < iCurImage->Pal.PalSize; i += PalBpp) {
-		fprintf(PalFile, "%d %d %d\n",
-			iCurImage->Pal.Palette[i], iCurImage->Pal.Palette[i+1], iCurImage->Pal.Palette[i+2]);
+	// Always 256 colours, the ones that the palette does not have are black.
+	for (i = 0; i < 256 && bRet; i++) {
+		if (i < NumCols)
+			Len = sprintf(Line, "%d %d %d\n", Pal->Palette[i*3], Pal->Palette[i*3+1], Pal->Palette[i*3+2]);
+		else
+			Len = sprintf(Line, "0 0 0\n");
+		bRet = iwrite(Line, 1, Len) == (ILint)Len;
 	}
 
-	NumCols = 256 - NumCols;
-	for (i = 0; i < NumCols; i++) {
-		fprintf(PalFile, "0 0 0\n");
-	}
-
-	ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.Palette = CurPal;
+	ifree(Pal->Palette);
+	ifree(Pal);
 
-	fclose(PalFile);
+	iclosew(PalFile);
 
-	return IL_TRUE;
+	if (!bRet)
+		ilSetError(IL_FILE_WRITE_ERROR);
+	return bRet;
 }
 
 
@@ -297,6 +296,7 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 	ILHANDLE	HaloFile;
 	HALOHEAD	HaloHead;
 	ILushort	*TempPal;
+	ILubyte		*Palette;
 	ILuint		i, Size;
 
 	if (!iCheckExtension(FileName, IL_TEXT("pal"))) {
@@ -315,10 +315,13 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1)
+	iSetInputFile(HaloFile);
+	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1) {
+		icloser(HaloFile);
 		return IL_FALSE;
+	}
 
-	if (HaloHead.Id != 'A' + ('H' << 8) || HaloHead.Version != 0xe3) {
+	if (HaloHead.Id != 'A' + ('H' << 8) || HaloHead.Version != 0xe3 || HaloHead.MaxIndex > 255) {
 		icloser(HaloFile);
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		return IL_FALSE;
@@ -336,26 +339,20 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 		ifree(TempPal);
 		return IL_FALSE;
 	}
+	icloser(HaloFile);
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.PalSize = Size;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		icloser(HaloFile);
+	Palette = (ILubyte*)ialloc(Size);
+	if (Palette == NULL) {
+		ifree(TempPal);
 		return IL_FALSE;
 	}
 
-	for (i = 0; i < iCurImage->Pal.PalSize; i++, TempPal++) {
-		iCurImage->Pal.Palette[i] = (ILubyte)*TempPal;
+	for (i = 0; i < Size; i++) {
+		Palette[i] = (ILubyte)TempPal[i];
 	}
-	TempPal -= iCurImage->Pal.PalSize;
 	ifree(TempPal);
 
-	icloser(HaloFile);
+	iReplacePal(Palette, Size);
 
 	return IL_TRUE;
 }
@@ -369,6 +366,7 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 {
 	ILuint		RealFileSize, FileSize;
 	ILushort	Version;
+	ILubyte		*Palette;
 	ILHANDLE	ColFile;
 
 	if (!iCheckExtension(FileName, IL_TEXT("col"))) {
@@ -387,35 +385,25 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
+	iSetInputFile(ColFile);
 	iseek(0, IL_SEEK_END);
-	RealFileSize = ftell((FILE*)ColFile);
+	RealFileSize = itell();
 	iseek(0, IL_SEEK_SET);
 
 	if (RealFileSize > 768) {  // has a header
-		fread(&FileSize, 4, 1, (FILE*)ColFile);
+		FileSize = GetLittleUInt();
 		if ((FileSize - 8) % 3 != 0) {  // check to make sure an even multiple of 3!
 			icloser(ColFile);
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
-		if (iread(&Version, 2, 1) != 1) {
-			icloser(ColFile);
-			return IL_FALSE;
-		}
+		Version = GetLittleUShort();
 		if (Version != 0xB123) {
 			icloser(ColFile);
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
-		if (iread(&Version, 2, 1) != 1) {
-			icloser(ColFile);
-			return IL_FALSE;
-		}
+		Version = GetLittleUShort();
 		if (Version != 0) {
 			icloser(ColFile);
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -423,24 +411,21 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 		}
 	}
 
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (iCurImage->Pal.Palette == NULL) {
+	Palette = (ILubyte*)ialloc(768);
+	if (Palette == NULL) {
 		icloser(ColFile);
 		return IL_FALSE;
 	}
 
-	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
+	if (iread(Palette, 1, 768) != 768) {
 		icloser(ColFile);
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
+		ifree(Palette);
 		return IL_FALSE;
 	}
-
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-
 	icloser(ColFile);
 
+	iReplacePal(Palette, 768);
+
 	return IL_TRUE;
 }
 
@@ -449,6 +434,7 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 ILboolean ilLoadActPal(ILconst_string FileName)
 {
 	ILHANDLE	ActFile;
+	ILubyte		*Palette;
 
 	if (!iCheckExtension(FileName, IL_TEXT("act"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -466,26 +452,22 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.PalSize = 768;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(768);
-	if (!iCurImage->Pal.Palette) {
+	Palette = (ILubyte*)ialloc(768);
+	if (!Palette) {
 		icloser(ActFile);
 		return IL_FALSE;
 	}
 
-	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
+	iSetInputFile(ActFile);
+	if (iread(Palette, 1, 768) != 768) {
 		icloser(ActFile);
+		ifree(Palette);
 		return IL_FALSE;
 	}
-
 	icloser(ActFile);
 
+	iReplacePal(Palette, 768);
+
 	return IL_TRUE;
 }
 
@@ -494,6 +476,8 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 ILboolean ilLoadPltPal(ILconst_string FileName)
 {
 	ILHANDLE	PltFile;
+	ILubyte		*Palette;
+	ILuint		PalSize;
 
 	if (!iCheckExtension(FileName, IL_TEXT("plt"))) {
 		ilSetError(IL_INVALID_EXTENSION);
@@ -511,32 +495,28 @@ ILboolean ilLoadPltPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
-	}
-
-	iCurImage->Pal.PalSize = GetLittleUInt();
-	if (iCurImage->Pal.PalSize == 0) {
+	iSetInputFile(PltFile);
+	PalSize = GetLittleUInt();
+	if (PalSize == 0 || PalSize > 768 || PalSize % 3 != 0) {
+		icloser(PltFile);
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-	iCurImage->Pal.PalType = IL_PAL_RGB24;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
+	Palette = (ILubyte*)ialloc(PalSize);
+	if (!Palette) {
 		icloser(PltFile);
 		return IL_FALSE;
 	}
 
-	if (iread(iCurImage->Pal.Palette, iCurImage->Pal.PalSize, 1) != 1) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = NULL;
+	if (iread(Palette, PalSize, 1) != 1) {
+		ifree(Palette);
 		icloser(PltFile);
 		return IL_FALSE;
 	}
-
 	icloser(PltFile);
 
+	iReplacePal(Palette, PalSize);
+
 	return IL_TRUE;
 }
 
@@ -907,201 +887,118 @@ int sort_func(void *e1, void *e2)
 }
 
 
+// Finds the colour of the (RGB24) palette that is nearest to the one given.
+static ILubyte iNearestColour(const ILpal *Pal, ILint Red, ILint Green, ILint Blue)
+{
+	ILuint	j, NumColours = Pal->PalSize / 3, Dist, MaxDist = UINT_MAX;
+	ILint	Dist1, Dist2, Dist3;
+	ILubyte	Entry = 0;
+
+	for (j = 0; j < NumColours && j < 256; j++) {
+		// No need to perform a sqrt.
+		Dist1 = Red - (ILint)Pal->Palette[j * 3];
+		Dist2 = Green - (ILint)Pal->Palette[j * 3 + 1];
+		Dist3 = Blue - (ILint)Pal->Palette[j * 3 + 2];
+		Dist = Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3;
+		if (Dist < MaxDist) {
+			Entry = (ILubyte)j;
+			MaxDist = Dist;
+		}
+	}
+
+	return Entry;
+}
+
+
 ILboolean ILAPIENTRY ilApplyPal(ILconst_string FileName)
 {
 	ILimage		Image, *CurImage = iCurImage;
-	ILubyte		*NewData;
-	ILuint		*PalInfo, NumColours, NumPix, MaxDist, DistEntry=0, i, j;
-	ILint		Dist1, Dist2, Dist3;
-	ILboolean	Same;
+	ILpal		*CurPal = NULL;
+	ILubyte		*NewData, *Data, Map[256];
+	ILuint		NumPix, i;
 	ILenum		Origin;
-//	COL_CUBE	*Cubes;
-
-    if( iCurImage == NULL || (iCurImage->Format != IL_BYTE || iCurImage->Format != IL_UNSIGNED_BYTE) ) {
-    	ilSetError(IL_ILLEGAL_OPERATION);
-        return IL_FALSE;
-    }
+	ILboolean	bRet;
 
-	NewData = (ILubyte*)ialloc(iCurImage->Width * iCurImage->Height * iCurImage->Depth);
-	if (NewData == NULL) {
+	if (iCurImage == NULL || (iCurImage->Type != IL_BYTE && iCurImage->Type != IL_UNSIGNED_BYTE)) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	iCurImage = &Image;
-	imemclear(&Image, sizeof(ILimage));
 	// IL_PAL_RGB24, because we don't want to make parts transparent that shouldn't be.
-	if (!ilLoadPal(FileName) || !ilConvertPal(IL_PAL_RGB24)) {
-		ifree(NewData);
-		iCurImage = CurImage;
-		return IL_FALSE;
+	if (iCurImage->Format == IL_COLOUR_INDEX) {
+		CurPal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+		if (CurPal == NULL)
+			return IL_FALSE;
 	}
 
-	NumColours = Image.Pal.PalSize / 3;  // RGB24 is 3 bytes per entry.
-	PalInfo = (ILuint*)ialloc(NumColours * sizeof(ILuint));
-	if (PalInfo == NULL) {
-		ifree(NewData);
-		iCurImage = CurImage;
-		return IL_FALSE;
+	iCurImage = &Image;
+	memset(&Image, 0, sizeof(ILimage));
+	Image.Pal.PalType = IL_PAL_NONE;
+	bRet = ilLoadPal(FileName);
+	iCurImage = CurImage;
+
+	NumPix = iCurImage->Width * iCurImage->Height * iCurImage->Depth;
+	NewData = bRet ? (ILubyte*)ialloc(NumPix) : NULL;
+	if (NewData == NULL) {
+		bRet = IL_FALSE;
+		goto finish;
 	}
 
-	NumPix = CurImage->SizeOfData / ilGetBppFormat(CurImage->Format);
-	switch (CurImage->Format)
+	switch (iCurImage->Format)
 	{
 		case IL_COLOUR_INDEX:
-			iCurImage = CurImage;
-			if (!ilConvertPal(IL_PAL_RGB24)) {
-				ifree(NewData);
-				ifree(PalInfo);
-				return IL_FALSE;
-			}
-
-			NumPix = iCurImage->Pal.PalSize / ilGetBppPal(iCurImage->Pal.PalType);
-			for (i = 0; i < NumPix; i++) {
-				for (j = 0; j < Image.Pal.PalSize; j += 3) {
-					// No need to perform a sqrt.
-					Dist1 = (ILint)iCurImage->Pal.Palette[i] - (ILint)Image.Pal.Palette[j];
-					Dist2 = (ILint)iCurImage->Pal.Palette[i+1] - (ILint)Image.Pal.Palette[j+1];
-					Dist3 = (ILint)iCurImage->Pal.Palette[i+2] - (ILint)Image.Pal.Palette[j+2];
-					PalInfo[j / 3] = Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3;
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				iCurImage->Pal.Palette[i] = DistEntry;
-			}
-
-			for (i = 0; i < iCurImage->SizeOfData; i++) {
-				NewData[i] = iCurImage->Pal.Palette[iCurImage->Data[i]];
-			}
+			memset(Map, 0, sizeof(Map));
+			for (i = 0; i < CurPal->PalSize / 3 && i < 256; i++)
+				Map[i] = iNearestColour(&Image.Pal, CurPal->Palette[i * 3], CurPal->Palette[i * 3 + 1], CurPal->Palette[i * 3 + 2]);
+			for (i = 0; i < NumPix; i++)
+				NewData[i] = Map[iCurImage->Data[i]];
 			break;
+
 		case IL_RGB:
 		case IL_RGBA:
-			/*Cube = (COL_CUBE*)ialloc(NumColours * sizeof(COL_CUBE));
-			// @TODO:  Check if ialloc failed here!
-			for (i = 0; i < NumColours; i++)
-				memcpy(&Cubes[i].Val, Image.Pal.Palette[i * 3], 3);
-			for (j = 0; j < 3; j++) {
-				qsort(Cubes, NumColours, sizeof(COL_CUBE), sort_func);
-				Cubes[0].Min = 0;
-				Cubes[NumColours-1] = UCHAR_MAX;
-				NumColours--;
-				for (i = 1; i < NumColours; i++) {
-					Cubes[i].Min[CurSort] = Cubes[i-1].Val[CurSort] + 1;
-					Cubes[i-1].Max[CurSort] = Cubes[i].Val[CurSort] - 1;
-				}
-				CurSort++;
-				NumColours++;
-			}*/
-			for (i = 0; i < CurImage->SizeOfData; i += CurImage->Bpp) {
-				Same = IL_TRUE;
-				if (i != 0) {
-					for (j = 0; j < CurImage->Bpp; j++) {
-						if (CurImage->Data[i-CurImage->Bpp+j] != CurImage->Data[i+j]) {
-							Same = IL_FALSE;
-							break;
-						}
-					}
-				}
-				if (Same) {
-					NewData[i / CurImage->Bpp] = DistEntry;
-					continue;
-				}
-				for (j = 0; j < Image.Pal.PalSize; j += 3) {
-					// No need to perform a sqrt.
-					Dist1 = (ILint)CurImage->Data[i] - (ILint)Image.Pal.Palette[j];
-					Dist2 = (ILint)CurImage->Data[i+1] - (ILint)Image.Pal.Palette[j+1];
-					Dist3 = (ILint)CurImage->Data[i+2] - (ILint)Image.Pal.Palette[j+2];
-					PalInfo[j / 3] = Dist1 * Dist1 + Dist2 * Dist2 + Dist3 * Dist3;
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				NewData[i / CurImage->Bpp] = DistEntry;
+			for (i = 0; i < NumPix; i++) {
+				Data = iCurImage->Data + i * iCurImage->Bpp;
+				NewData[i] = iNearestColour(&Image.Pal, Data[0], Data[1], Data[2]);
 			}
-
 			break;
 
 		case IL_BGR:
 		case IL_BGRA:
-			for (i = 0; i < CurImage->SizeOfData; i += CurImage->Bpp) {
-				for (j = 0; j < NumColours; j++) {
-					// No need to perform a sqrt.
-					PalInfo[j] = ((ILint)CurImage->Data[i+2] - (ILint)Image.Pal.Palette[j * 3]) *
-						((ILint)CurImage->Data[i+2] - (ILint)Image.Pal.Palette[j * 3]) + 
-						((ILint)CurImage->Data[i+1] - (ILint)Image.Pal.Palette[j * 3 + 1]) *
-						((ILint)CurImage->Data[i+1] - (ILint)Image.Pal.Palette[j * 3 + 1]) +
-						((ILint)CurImage->Data[i] - (ILint)Image.Pal.Palette[j * 3 + 2]) *
-						((ILint)CurImage->Data[i] - (ILint)Image.Pal.Palette[j * 3 + 2]);
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				NewData[i / CurImage->Bpp] = DistEntry;
+			for (i = 0; i < NumPix; i++) {
+				Data = iCurImage->Data + i * iCurImage->Bpp;
+				NewData[i] = iNearestColour(&Image.Pal, Data[2], Data[1], Data[0]);
 			}
-
 			break;
 
 		case IL_LUMINANCE:
 		case IL_LUMINANCE_ALPHA:
-			for (i = 0; i < CurImage->SizeOfData; i += CurImage->Bpp ) {
-				for (j = 0; j < NumColours; j++) {
-					// No need to perform a sqrt.
-					PalInfo[j] = ((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3]) *
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3]) + 
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 1]) *
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 1]) +
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 2]) *
-						((ILuint)CurImage->Data[i] - (ILuint)Image.Pal.Palette[j * 3 + 2]);
-				}
-				MaxDist = UINT_MAX;
-				DistEntry = 0;
-				for (j = 0; j < NumColours; j++) {
-					if (PalInfo[j] < MaxDist) {
-						DistEntry = j;
-						MaxDist = PalInfo[j];
-					}
-				}
-				NewData[i] = DistEntry;
+			for (i = 0; i < NumPix; i++) {
+				Data = iCurImage->Data + i * iCurImage->Bpp;
+				NewData[i] = iNearestColour(&Image.Pal, Data[0], Data[0], Data[0]);
 			}
-
 			break;
 
-		default:  // Should be no other!
-			ilSetError(IL_INTERNAL_ERROR);
-			return IL_FALSE;
+		default:  // There are no colours to look for.
+			ilSetError(IL_ILLEGAL_OPERATION);
+			bRet = IL_FALSE;
 	}
 
-	iCurImage = CurImage;
 	Origin = iCurImage->Origin;
-	if (!ilTexImage(iCurImage->Width, iCurImage->Height, iCurImage->Depth, 1,
-		IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NewData)) {
-		ifree(Image.Pal.Palette);
-		ifree(PalInfo);
-		ifree(NewData);
-		return IL_FALSE;
+	if (bRet && ilTexImage(iCurImage->Width, iCurImage->Height, iCurImage->Depth, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NewData)) {
+		iCurImage->Origin = Origin;
+		iReplacePal(Image.Pal.Palette, Image.Pal.PalSize);
+		Image.Pal.Palette = NULL;
 	}
-	iCurImage->Origin = Origin;
-
-	iCurImage->Pal.Palette = Image.Pal.Palette;
-	iCurImage->Pal.PalSize = Image.Pal.PalSize;
-	iCurImage->Pal.PalType = Image.Pal.PalType;
-	ifree(PalInfo);
+	else
+		bRet = IL_FALSE;
 	ifree(NewData);
 
-	return IL_TRUE;
+finish:
+	ifree(Image.Pal.Palette);
+	if (CurPal) {
+		ifree(CurPal->Palette);
+		ifree(CurPal);
+	}
+
+	return bRet;
 }
-- 
2.43.0


From f126edd988859548976612c052e86edde7c41ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:24 +0000
Subject: [PATCH 79/79] fix: raw data were saved through the reader and loaded
 without a format

---
 DevIL/src-IL/src/il_rawdata.cpp | 35 +++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index 0ba66b6..ce3cf70 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -74,22 +74,20 @@ ILboolean iLoadDataInternal(ILuint Width, ILuint Height, ILuint Depth, ILubyte B
 		return IL_FALSE;
 	}
 
-	if (!ilTexImage(Width, Height, Depth, Bpp, 0, IL_UNSIGNED_BYTE, NULL)) {
+	if (Width == 0 || Height == 0 || Depth == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	if (!ilTexImage(Width, Height, Depth, Bpp, Bpp == 1 ? IL_LUMINANCE : Bpp == 3 ? IL_RGB : IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	// Tries to read the correct amount of data
-	if (iread(iCurImage->Data, Width * Height * Depth * Bpp, 1) != 1)
+	if (iread(iCurImage->Data, 1, iCurImage->SizeOfData) != iCurImage->SizeOfData)
 		return IL_FALSE;
 
-	if (iCurImage->Bpp == 1)
-		iCurImage->Format = IL_LUMINANCE;
-	else if (iCurImage->Bpp == 3)
-		iCurImage->Format = IL_RGB;
-	else  // 4
-		iCurImage->Format = IL_RGBA;
-
 	return ilFixImage();
 }
 
@@ -98,22 +96,33 @@ ILboolean iLoadDataInternal(ILuint Width, ILuint Height, ILuint Depth, ILubyte B
 ILboolean ILAPIENTRY ilSaveData(ILconst_string FileName)
 {
 	ILHANDLE DataFile;
+	ILboolean bRet;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	DataFile = iopenr(FileName);
+	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
+		if (iFileExists(FileName)) {
+			ilSetError(IL_FILE_ALREADY_EXISTS);
+			return IL_FALSE;
+		}
+	}
+
+	DataFile = iopenw(FileName);
 	if (DataFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
-	iwrite(iCurImage->Data, 1, iCurImage->SizeOfData);
-	icloser(DataFile);
+	iSetOutputFile(DataFile);
+	bRet = (ILuint)iwrite(iCurImage->Data, 1, iCurImage->SizeOfData) == iCurImage->SizeOfData;
+	iclosew(DataFile);
 
-	return IL_TRUE;
+	if (!bRet)
+		ilSetError(IL_FILE_WRITE_ERROR);
+	return bRet;
 }
 
 
-- 
2.43.0

