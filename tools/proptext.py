"""The texts of the properties."""
P = []
def q(text, *over): return {'over': list(over) or ['inputs'], 'text': text}
def add(id, title, statement, quant, why, files, mech, note='', na=None, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    if state: a['state'] = state
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': quant, 'why_tests_cant': why, 'anchors': a, 'note': note, 'na': na})
S = 'DevIL/src-IL/src/'; U = 'DevIL/src-ILU/src/'

add('C01', 'Saving to a lossless format and loading back gives the same picture',
    'Saving the current image as TGA, BMP, PCX, SGI, binary or ASCII PNM, PSD or RAW into memory and loading the result yields an image of the same dimensions in which every colour (and, except for BMP and PNM, alpha) sample of every pixel, and for paletted images every index and palette colour, is what was saved, whatever the pixel values, channel order, origin and run-length-compression setting. Pictures compare equal up to the stated origin; RAW stores no origin and keeps the byte order of the pixels.',
    q('every pixel and palette value; formats, channel orders, origins, RLE on/off and 8/16-bit samples as far as each format takes them'),
    'The tests save one photograph per format and look at file sizes; run boundaries, palettes, 16-bit data, origins and alpha are not compared.',
    [S + x for x in ('il_targa.cpp', 'il_bmp.cpp', 'il_pcx.cpp', 'il_sgi.cpp', 'il_pnm.cpp', 'il_psd.cpp', 'il_raw.cpp', 'il_rle.cpp', 'il_pal.cpp', 'il_convert.cpp')],
    [('run-length coder', S + 'il_rle.cpp'), ('savers and loaders', S + 'il_targa.cpp')], 'small images, symbolic pixel values; see bounds in the evidence', observe=['ilSaveL', 'ilLoadL', 'ilGetData'])

add('C02', 'Saving into memory stays in the buffer and the size query is exact',
    'Saving the current image into a caller-supplied buffer (TGA, BMP, PCX, SGI, PNM, PSD, RAW, HDR, DDS, VTF) never writes outside that buffer, however small it is; the size query (null buffer) returns exactly the number of bytes that saving writes, a buffer of that size is enough, and saving again gives the same bytes. Saving and querying leave the bound image - its name, dimensions, format, type, origin, palette and pixels - as it was, release the memory they took, and write no uninitialised bytes.',
    q('every pixel and palette value, every too-small buffer size around the boundaries, formats and origins'),
    'Tests save to files, never to a tight buffer, and do not compare the image before and after.',
    [S + x for x in ('il_io.cpp', 'il_size.cpp', 'il_files.cpp', 'il_targa.cpp', 'il_bmp.cpp', 'il_sgi.cpp', 'il_pnm.cpp', 'il_psd.cpp', 'il_raw.cpp', 'il_hdr.cpp', 'il_dds-save.cpp', 'il_vtf.cpp')],
    [('lump writer', S + 'il_files.cpp'), ('size query', S + 'il_size.cpp')], 'small images; DDS pixels concrete', observe=['ilSaveL', 'ilGetInteger', 'ilGetData'])

add('C03', 'Converting an image between pixel formats keeps every pixel',
    'ilConvertImage to another format of the same sample type keeps the dimensions, origin and bound name, sets the format, channel count and data sizes to match, and gives every pixel of every row and plane its own colour: colours move to the place their channel has in the new format, grey goes to all three colours, colours to grey become the documented weighted sum, alpha is kept where both formats have it and is opaque where the source has none, and IL_ALPHA keeps the alpha channel. Converting format and sample type at once equals converting them one after the other. Nothing is read or written outside the pixel data and no memory is lost.',
    q('every pixel value; every pair of non-indexed formats and every sample type, one and several planes'),
    'Tests convert one picture between a few formats and check the return code; positions of samples, planes, and extreme sample values are not compared.',
    [S + 'il_convert.cpp', S + 'il_fastconv.cpp', S + 'il_convbuff.cpp', S + 'il_manip.cpp'], [('conversion', S + 'il_convert.cpp'), ('buffer conversion', S + 'il_convbuff.cpp')], 'images of up to 6 pixels, every sample symbolic', observe=['ilConvertImage', 'ilGetData'])
add('C04', 'Converting sample types scales over the whole range, in place and order',
    'ilConvertImage to another sample type keeps the format and every sample in its place: unsigned integers are widened so that the smallest and largest values map to each other (and narrowing back gives the original), narrowed by keeping the high bits, floating point samples are the fraction of the largest integer, fractions are clamped to 0..1 and scaled to the integer range, half precision survives a trip through float, and conversions among signed, unsigned, half and floating samples never read or write outside the data, leave samples uninitialised or lose memory.',
    q('every sample value (floats: every k/512 from a 16 bit k); every pair of sample types'),
    'Tests check that converting succeeds, not the values at the ends of the range, nor out-of-range floats.',
    [S + 'il_convbuff.cpp', S + 'il_convert.cpp', S + 'il_endian.cpp'], [('type conversion', S + 'il_convbuff.cpp')], 'every value of every sample, up to 4 pixels', observe=['ilConvertImage', 'ilGetData'])
add('C05', 'Indexed images become exactly their palette colours',
    'Converting an indexed image with any palette type to any true colour or grey format gives every pixel the colour (and alpha, or opaque if the palette has none) of its palette entry; converting the palette with ilConvertPal keeps all its colours and the indexes; an index beyond the palette never reads outside it; grey images can be indexed without loss. The result has no palette left, has the reported sizes and leaks nothing.',
    q('every index and palette value; palette types and target formats; indexes past the palette'),
    'Tests convert one paletted picture to one format; other palette types, alpha and out-of-range indexes are never exercised.',
    [S + 'il_convert.cpp', S + 'il_pal.cpp', S + 'il_convbuff.cpp'], [('palette conversion', S + 'il_pal.cpp'), ('indexed to colour', S + 'il_convert.cpp')], 'palettes of up to 3 colours, images of up to 4 pixels', observe=['ilConvertImage', 'ilConvertPal'])

add('C06', 'Blocks of pixels are copied and set exactly, whatever their place',
    'ilCopyPixels stores in the caller buffer, for every pixel of the requested block that lies inside the image, that pixel (converted to the requested format and type as ilConvertImage would), leaves the rest of the block alone (or zero) and returns the size of the block; ilSetPixels changes exactly the pixels of the image under the block, negative offsets and blocks sticking out included, converting the block first if its format or type differ. With IL_ORIGIN_SET the rows are counted from the set origin. Neither changes anything else - shape, origin, bound image, the source of the copy - nor touches memory outside the image and the block, and refused requests leave everything alone.',
    q('every offset (any 32-bit value), size, pixel value; several planes, formats and types'),
    'The tests never call either function with a block that is not the whole image.',
    [S + x for x in ('il_manip.cpp', 'il_convert.cpp')], [('block copies', S + 'il_manip.cpp')], 'images of up to 3x3x3, all pixels symbolic', observe=['ilCopyPixels', 'ilSetPixels', 'ilGetData'])
add('C07', 'Alpha is read, set and inverted alone, and is opaque where there is none',
    'Reading the alpha channel gives, for every pixel of every plane and every sample type asked for, that pixel\'s alpha scaled to the type (opaque where the format has none); setting it changes the alpha of every pixel to the value, clamped to 0..1, and no colour, giving formats without alpha an alpha channel first; inverting alpha inverts every alpha sample and nothing else; clamping to the NTSC range brings every byte sample into 16..235. Refused calls change nothing. The shape, origin and bound name are kept and nothing outside the image is read or written.',
    q('every pixel value, alpha value; formats, sample types, planes'),
    'Tests exercise no alpha function except on one 8-bit picture.',
    [S + 'il_manip.cpp', S + 'il_convert.cpp', U + 'ilu_manip.cpp'], [('alpha channel', S + 'il_manip.cpp')], 'images of up to 6 pixels, all samples symbolic', observe=['ilGetAlpha', 'ilSetAlpha', 'ilModAlpha', 'iluInvertAlpha', 'ilGetData'])
add('C08', 'Clearing an image sets every pixel to the clear colour',
    'Clearing the current image gives every pixel of every row and plane the clear colour, each component clamped to 0..1, scaled to the sample type, put where its channel is in the format and, for grey images, turned into the weighted sum; indexed images get the colour through their palette. The shape, format, type, origin and name are kept, and nothing outside the pixels is written.',
    q('every 16-bit value of each component (in and out of 0..1); every format, sample type and origin'),
    'The tests never clear an image and look at the pixels.',
    [S + 'il_devil.cpp'], [('clearing', S + 'il_devil.cpp')], 'images of up to 8 pixels', observe=['ilClearColour', 'ilClearImage', 'ilGetData'])
add('C09', 'Creating, copying and cloning images is exact, and failing leaves them whole',
    'Defining an image stores exactly the given pixels with sizes that agree with its shape, or is refused with an error, whatever the dimensions (sizes that overflow 32 bits included); cloning and copying give an independent image with the same shape, pixels, palette and attributes and leave the source and the bound name alone. Every call made without an image, with an unknown name, or while memory runs out at any allocation either does all of its work or fails with an error, leaving a valid image and other images unchanged. Shutting down frees all memory.',
    q('every dimension (any 32-bit value), pixel and palette value; every failing allocation', 'inputs', 'fault_sequences'),
    'Tests never overflow a size, never copy palettes and never let an allocation fail.',
    [S + x for x in ('il_devil.cpp', 'il_stack.cpp', 'il_pal.cpp', 'il_convert.cpp')], [('image creation', S + 'il_devil.cpp'), ('palettes', S + 'il_pal.cpp')], 'images of up to 8 pixels; one allocation fails', observe=['ilTexImage', 'ilCopyImage', 'ilCloneCurImage', 'ilRegisterPal', 'ilConvertImage', 'ilGetData'])
add('C10', 'Image names are given out, bound and deleted consistently over any history',
    'Over any history of generating, binding and deleting images, a generated name is never in use, every live name keeps its own image and pixels, deleting affects exactly the named images, and binding an unknown name either makes it an image or is refused. The reported number of images and the bound name agree with the history, deleting the bound image leaves a valid state, and nothing is leaked or used after it is freed. An allocation that fails at any point loses no image.',
    q('every history of up to 5 operations over symbolic names, any 32-bit name, every failing allocation', 'histories', 'fault_sequences', 'inputs'),
    'Tests generate and delete a few images in order, never reuse names, and never fail an allocation.',
    [S + 'il_stack.cpp', S + 'il_devil.cpp'], [('image stack', S + 'il_stack.cpp')], 'histories of up to 5 operations', observe=['ilGenImages', 'ilBindImage', 'ilDeleteImages', 'ilIsImage', 'ilGetInteger'], state=[S + 'il_stack.cpp'])
add('C11', 'Blitting changes exactly the covered pixels, clipped to both images',
    'Blitting or overlaying puts, for every pixel of the requested block that lies inside both images, the converted source pixel at its place (counted from the top left whatever the origins) and changes nothing else, for every offset and size including negative ones; with blending on, the result is the source over the destination weighted by the source alpha, and the destination keeps its alpha. The source, the bound name and all shapes are kept, no memory is lost, and an unknown source or failing allocation is reported and leaves the image whole.',
    q('every place and size (any 32-bit value), pixel and alpha value; formats, types, origins, planes; every failing allocation', 'inputs', 'fault_sequences'),
    'Tests blit nothing outside the bounds and never look at the pixels.',
    [S + 'il_devil.cpp', S + 'il_manip.cpp', S + 'il_convbuff.cpp'], [('blitting', S + 'il_devil.cpp')], 'images of up to 8 pixels', observe=['ilBlit', 'ilOverlayImage', 'ilGetData'])
add('C12', 'Sub-images are selected, counted and kept apart',
    'An image with further images, faces, layers and mipmaps reports exactly the numbers of each; activating one by number selects that one and only existing numbers are accepted; work on the active sub-image changes no other, and binding a name selects its base image again. Creating sub-images creates exactly the number asked for, and creating, deleting or replacing them, with an allocation failing at any point, leaks nothing and leaves nothing dangling.',
    q('every number asked for, every history of up to 3 selections, every failing allocation', 'inputs', 'histories', 'fault_sequences'),
    'Tests look at the counts of a few files only.',
    [S + 'il_devil.cpp', S + 'il_register.cpp', S + 'il_stack.cpp'], [('sub-images', S + 'il_stack.cpp'), ('creation', S + 'il_register.cpp')], 'up to 3 sub-images of each kind', observe=['ilActiveImage', 'ilActiveFace', 'ilActiveLayer', 'ilActiveMipmap', 'ilRegisterNumImages', 'ilGetInteger'])
add('C13', 'Settings are validated, read back and restored by push and pop',
    'Every integer, boolean and string setting reads back as last set, accepts exactly its documented values and refuses everything else with an error and no change, for any value or string up to its limit. Pushing and popping attributes restores exactly the groups pushed, whatever was set in between and however deep, with an error and no change beyond the limits. Setting one never changes another and strings are never read or written past their buffers.',
    q('every 32-bit value and setting, every string, every push mask, histories up to the stack depth', 'inputs', 'histories'),
    'Tests set a handful of valid values; invalid values, long strings and push/pop are not tested.',
    [S + 'il_states.cpp'], [('settings', S + 'il_states.cpp')], 'strings around every limit', observe=['ilSetInteger', 'ilGetInteger', 'ilEnable', 'ilIsEnabled', 'ilSetString', 'ilGetString', 'ilPushAttrib', 'ilPopAttrib'])
add('C14', 'Errors are reported newest first, never lost or invented',
    'Errors are handed out newest first, one per read, and then no error is reported; when more errors happen than are kept, the newest ones are kept. A refused call reports the documented error, and a call that succeeds reports none.',
    q('every history of up to 40 errors and reads; every refused argument', 'histories', 'inputs'),
    'Tests read at most one error.',
    [S + 'il_error.cpp'], [('error stack', S + 'il_error.cpp')], 'histories beyond the capacity of the error stack', observe=['ilGetError'])

add('C15', 'Registered handlers are called exactly when their extension is met',
    'ilLoadImage and ilSaveImage call the handler registered for the extension of the file (in upper or lower case), once, with the name of the file, and its verdict is the result; handlers of other extensions and removed ones are never called, the first registration of an extension stays until it is removed, and exactly the registered ones can be removed. Out of memory leaves the list of handlers whole, and the bound image is kept. iluLoadImage binds and returns a new image with the loaded picture or returns 0 and leaves nothing behind, and exactly the announced number of sub-images exists.',
    q('every history of up to 3 (thorough: 4) registrations, removals and uses over 6 extensions, 8 file names and 2 handlers; every verdict; every failing allocation', 'histories', 'inputs'),
    'No test registers a handler.',
    [S + 'il_register.cpp', S + 'il_io.cpp'], [('registered handlers', S + 'il_register.cpp'), ('dispatch by extension', S + 'il_io.cpp'), ('iluLoadImage', U + 'ilu_main.cpp')], 'histories of 3 (4) operations', observe=['ilRegisterLoad', 'ilRegisterSave', 'ilRemoveLoad', 'ilRemoveSave', 'ilLoadImage', 'ilSaveImage', 'iluLoadImage'])

add('C17', 'Flipping, mirroring, cropping and enlarging move exactly the right pixels',
    'iluFlipImage puts row y of every plane at the opposite row, iluMirror pixel x of every row at the opposite place; iluCrop keeps exactly the requested block of pixels of all its planes and is refused, changing nothing, if the block sticks out of the image; iluEnlargeCanvas puts the old picture, by the placement and the origin of the image, on a larger canvas whose other pixels have the clear colour. All of them keep format, sample type, origin, palette and bound image, give sizes that agree with the shape, and neither touch memory outside the image nor lose any.',
    q('every pixel value, every offset and size (any 32-bit value for refused requests); formats, sample types, origins, placements, planes'),
    'Tests call these functions on one 8-bit picture of one plane and do not look at the pixels.',
    [U + 'ilu_manip.cpp', S + 'il_manip.cpp'], [('geometry', U + 'ilu_manip.cpp'), ('flip and mirror', S + 'il_manip.cpp')], 'images of up to 4x4 and 3x3x2, all pixels symbolic; offsets and sizes 0 to one past the image', observe=['iluFlipImage', 'iluMirror', 'iluCrop', 'iluEnlargeCanvas', 'ilGetData'])
add('C19', 'Scaling, mipmaps and quarter turns give exactly the pixels they promise',
    'iluScale with ILU_NEAREST (and any scaling of several planes) gives every pixel of the result the pixel of the original at the same relative place, for every format and sample type; with the smoothing filters the result has the requested shape, makes up no values outside the range of the original (the filters without negative lobes) and keeps a picture of one colour. iluBuildMipmaps leaves the image alone and attaches one mipmap per halving of the dimensions, each the nearest-pixel half of the one before; iluRotate by a multiple of 90 degrees puts every pixel at its turned place. All of them keep format, type, origin and bound image, touch no memory outside the images, leave no sample uninitialised and lose no memory.',
    q('every pixel value (smoothing filters: up to 2 symbolic bytes or one symbolic colour); formats, sample types, old and new sizes, filters, quarter turns'),
    'Tests scale and rotate one 8-bit photograph and only look at the return code.',
    [U + x for x in ('ilu_scale.cpp', 'ilu_scale2d.cpp', 'ilu_scale3d.cpp', 'ilu_filter_rcg.cpp', 'ilu_mipmap.cpp', 'ilu_rotate.cpp')], [('scaling', U + 'ilu_scale.cpp'), ('filtered zoom', U + 'ilu_filter_rcg.cpp'), ('mipmaps', U + 'ilu_mipmap.cpp'), ('rotation', U + 'ilu_rotate.cpp')], 'images of up to 4x4 and 2x3x2; indexed images scaled by a smoothing filter go through the quantizer: shape, indices and memory only', observe=['iluScale', 'iluBuildMipmaps', 'iluRotate', 'ilGetData'])

add('C18', 'Colour operations compute exactly the colours they promise',
    'iluNegative inverts every colour sample (twice restores the picture), iluSwapColours exchanges red and blue and relabels the format, iluScaleColours and iluScaleAlpha multiply each channel by its own factor, iluContrast and iluSaturate1f move each colour away from middle grey or its own grey, iluGammaCorrect follows the power curve, iluReplaceColour replaces exactly the pixels within the tolerance - each clamped, for every pixel value and on the palette of an indexed image alike. Alpha (except where asked for), dimensions, format, type, origin and bound image are kept. Images an operation does not apply to are refused with an error and are left unchanged; no memory is lost or touched outside the image.',
    q('every pixel value (one symbolic sample per pixel or per image for the floating-point operations); formats, sample types, palette types, factors'),
    'Tests compare a few reference pictures of one 8-bit photograph; clamping, palettes, other sample types and channel orders are never looked at.',
    [U + x for x in ('ilu_manip.cpp', 'ilu_filter.cpp', 'ilu_scale.cpp')], [('colours', U + 'ilu_manip.cpp'), ('saturation', U + 'ilu_filter.cpp')], 'images of up to 2x1x2 and palettes of 2 colours; factors k/16 from a fixed list', observe=['iluNegative', 'iluSwapColours', 'iluScaleColours', 'iluScaleAlpha', 'iluContrast', 'iluSaturate1f', 'iluGammaCorrect', 'iluReplaceColour', 'ilGetData'])
add('C20', 'Filters compute their weighted sums, inside the region and the image only',
    'The convolution filters (iluConvolution, blurs, emboss, edge detection, sharpen) give every sample off the side columns the weighted sum of its 3x3 neighbourhood on its own plane, with rows repeated beyond the border, scaled, biased, made positive and clamped, and keep the four corners; as the reference pictures of the library fix it, the last weight counts for the lower left pixel. iluPixelize gives each block its average, iluWave turns each row by its offset, iluEqualize keeps the order of grey values, and neutral parameters change nothing. A region (iluRegioniv, iluRegionfv) confines a filter to its polygon on every plane; every filter accepts or refuses every format, sample type, palette and size without touching memory outside the image, losing memory, or leaving samples undefined.',
    q('every value of a symbolic sample at chosen places of the picture, every pair of corner points of a region; filters, weights, scales, biases, formats, sample types, sizes'),
    'Tests compare one reference picture per filter; other sizes, planes, sample types, regions and weights are never looked at.',
    [U + x for x in ('ilu_filter.cpp', 'ilu_region.cpp', 'ilu_noise.cpp', 'ilu_alloc.cpp') if x != 'ilu_alloc.cpp'], [('filters', U + 'ilu_filter.cpp'), ('regions', U + 'ilu_region.cpp'), ('noise', U + 'ilu_noise.cpp')], 'images of up to 5x4x2 with one symbolic sample; side columns: memory and shape only (their shift is fixed by the reference pictures)', observe=['iluConvolution', 'iluPixelize', 'iluWave', 'iluBlurAvg', 'iluBlurGaussian', 'iluEmboss', 'iluEdgeDetectP', 'iluEdgeDetectS', 'iluSharpen', 'iluRegioniv', 'iluRegionfv', 'ilGetData'])
add('C21', 'Counting, comparing and describing images tells the truth and changes nothing',
    'iluColoursUsed returns the number of different pixels, iluCompareImage says whether two images agree in shape, pixels and palette, and iluGetImageInfo reports the fields of the image, for every picture. None of them changes an image, the bound image or the settings, or loses memory. The settings of ILU (filter, placement, language) accept exactly the documented values, are read back, keep their value when a request is refused with an error, and every error code has a message that does not read as success.',
    q('every pixel value of small images, every parameter and value of the settings, every error code'),
    'Tests never compare images that differ only in their palette, sub-image or shape, nor count colours of anything but bytes.',
    [U + x for x in ('ilu_manip.cpp', 'ilu_states.cpp', 'ilu_error.cpp', 'ilu_main.cpp', 'ilu_utilities.cpp')], [('analysis', U + 'ilu_manip.cpp'), ('settings', U + 'ilu_states.cpp'), ('messages', U + 'ilu_error.cpp')], 'images of up to 3x2x2 with 1 to 3 symbolic pixels; 40x30 with one symbolic pixel', observe=['iluColoursUsed', 'iluCompareImage', 'iluGetImageInfo', 'iluSetLanguage', 'iluErrorString', 'iluImageParameter', 'iluGetInteger'])

add('C16', 'The same bytes give the same picture, however they are given',
    'Loading the same file from memory, from an open file at any position, by name, by extension or by its contents - with or without reading ahead, through the functions set with ilSetRead, and whatever was read before - is accepted or refused alike and gives the same picture, palette and attributes; the position of an open file is kept, a file that the library opens is closed, and asking for the type of a file gives the same answer every way and changes nothing. Saving to memory, to an open file at any position or by name writes the same bytes and leaves what the file had before; a full disk is reported as an error. The extension, in any mixture of cases, gives the documented type.',
    q('every byte of the unrecognised files of up to 8 bytes (16 to 140 bytes type by type), every pixel value of saved pictures, every length of a truncated file, every mixture of cases of every extension, every amount of space left on the disk'),
    'Tests load each format by name only, from the start of a file and with the functions of the C library.',
    [S + x for x in ('il_io.cpp', 'il_files.cpp', 'il_error.cpp', 'il_utility.cpp')], [('dispatch', S + 'il_io.cpp'), ('input and output', S + 'il_files.cpp')], 'one small file of each variant of TGA, BMP, PCX, DCX, CUT, SGI and PNM; pictures of 2x2', observe=['ilLoadL', 'ilLoadF', 'ilLoad', 'ilLoadImage', 'ilDetermineType', 'ilDetermineTypeF', 'ilDetermineTypeL', 'ilIsValid', 'ilIsValidF', 'ilIsValidL', 'ilTypeFromExt', 'ilSaveL', 'ilSaveF', 'ilSave', 'ilSaveImage'])

LOADQ = ('every byte of the header field by field and in pairs, every window of the data, every length of the file', 'Tests load sound files only; a damaged or hostile file is where a decoder overruns its buffers, loops for ever or hands out garbage.')
def loads(id, fmts, extra, files):
    add(id, 'Loading any bytes as %s is safe and honest' % fmts,
        'Loading a file of this kind - %s - from memory terminates for every content and every length, never touches memory outside the file, the image and the tables of the decoder, and frees everything when the library is shut down. It either succeeds, and then the image (and every sub-image) has pixels, a format, a size of data and (if indexed) a palette that agree with one another and depend only on the bytes of the file, or it returns false, sets an error and leaves the bound image usable. %s' % (fmts, extra),
        q(LOADQ[0]), LOADQ[1], [S + f for f in files] + [S + 'il_files.cpp', S + 'il_io.cpp'], [('decoders', S + files[0]), ('input', S + 'il_files.cpp')], 'small files of every variant of the formats; up to 4 symbolic header bytes or 5 neighbouring symbolic data bytes at a time, images of at most a few hundred bytes per allocation', observe=['ilLoadL', 'ilLoadF', 'ilGetInteger', 'ilGetData', 'ilGetPalette'])
loads('C22', 'Targa or BMP', 'A sound file of every variant can be loaded.', ['il_targa.cpp', 'il_bmp.cpp'])
loads('C23', 'PCX, DCX, CUT, SGI or PNM', 'A sound file of every variant can be loaded.', ['il_pcx.cpp', 'il_dcx.cpp', 'il_cut.cpp', 'il_sgi.cpp', 'il_pnm.cpp'])
loads('C24', 'GIF', 'A sound file of every variant can be loaded.', ['il_gif.cpp'])
loads('C25', 'ICO or PSD', 'A sound file of every variant can be loaded. Icons that contain PNG data are decoded by libpng and left out.', ['il_icon.cpp', 'il_psd.cpp'])
loads('C26', 'DDS', 'A sound file of every variant can be loaded, also with its mipmaps, its slices and the faces of a cube map.', ['il_dds.cpp'])
loads('C30', 'a simpler format', 'The formats are Sun raster, WBMP, Alias PIX, Softimage PIC, Radiance HDR, Homeworld LIF, Quake 2 WAL, FTX, PXR, raw, Doom pictures and flats, Half-Life MDL and Total War TEXTURE. A sound file of every variant can be loaded.', ['il_sun.cpp', 'il_wbmp.cpp', 'il_pix.cpp', 'il_pic.cpp', 'il_hdr.cpp', 'il_lif.cpp', 'il_wal.cpp', 'il_ftx.cpp', 'il_pxr.cpp', 'il_raw.cpp', 'il_doom.cpp', 'il_mdl.cpp', 'il_texture.cpp'])
def decodes(id, what, extra, files, note):
    add(id, 'Pixels of %s files are the ones the file says' % ('DDS' if what == 'DDS' else 'common' if id == 'C27' else 'simpler'),
        'Loading a sound %s file gives every pixel of every picture%s the colour its bytes stand for in the format: the right row and column for the orientation the file states, the right order of the channels, the right bit of packed samples and the palette colour of an index, runs and codes expanded, rows padded as the format pads them, samples of either byte order, samples of a few bits widened, transparent pixels transparent - whatever the values of the pixels, the palette and the codes are.' % (what, extra),
        q('every value of the pixel data, palette and codes, a few neighbouring bytes at a time'), 'Tests load one photograph per format and do not look at the pixels; packed, run-length coded, interlaced, padded, block-compressed and unusually oriented files are not among them.',
        [S + f for f in files], [('decoders', S + files[0])], note, observe=['ilLoadL', 'ilGetData', 'ilGetPalette', 'ilActiveImage', 'ilActiveMipmap', 'ilActiveFace'])
decodes('C27', 'TGA, BMP, PCX, DCX, CUT, SGI, PNM, GIF, ICO or PSD', '', ['il_targa.cpp', 'il_bmp.cpp', 'il_pcx.cpp', 'il_dcx.cpp', 'il_cut.cpp', 'il_sgi.cpp', 'il_pnm.cpp', 'il_gif.cpp', 'il_icon.cpp', 'il_psd.cpp'], 'one small file of every variant (1x1 to 33x2 pixels) against decoders of our own; samples of fewer than 8 bits may leave the low bits open in TGA and BMP; codes after which a run or a table would be broken are left open')
decodes('C28', 'DDS', ', slice, mipmap and face', ['il_dds.cpp'], 'one small file of every variant (up to 5x5 pixels); interpolated block colours within 1 of the exact value, the third channel of ATI2 left out')
decodes('C31', 'Sun raster, WBMP, Alias PIX, Softimage PIC, Radiance HDR, Homeworld LIF, Quake 2 WAL, FTX, PXR, raw, Doom, Half-Life MDL or Total War TEXTURE', ' and mipmap', ['il_sun.cpp', 'il_wbmp.cpp', 'il_pix.cpp', 'il_pic.cpp', 'il_hdr.cpp', 'il_lif.cpp', 'il_wal.cpp', 'il_ftx.cpp', 'il_pxr.cpp', 'il_raw.cpp', 'il_doom.cpp', 'il_mdl.cpp', 'il_texture.cpp'], 'one small file of every variant (1x1 to 17x2 pixels, Doom flats 64x64) against decoders of our own; Radiance samples within 1/128 of the exact value and not for the exponent 1; the game palettes of WAL and Doom files are not compared, their indices are; codes after which a run would be broken are left open')
add('C29', 'Loading honours the origin, format and palette settings', 'With IL_ORIGIN_SET, IL_FORMAT_SET or IL_CONV_PAL enabled, every file that can be loaded gives all of its pictures, faces, slices and mipmaps with the origin of ilOriginFunc, the format of ilFormatFunc, or without a palette - and still with the pixels the file says; it makes no difference which way up the file stores its rows, whether its picture has a palette, or which variant of the format it is.',
    q('every value of the pixel data and palette bytes chosen in each variant'), 'The tests load with the default settings only.',
    [S + 'il_convert.cpp', S + 'il_targa.cpp', S + 'il_bmp.cpp', S + 'il_pcx.cpp', S + 'il_sgi.cpp', S + 'il_pnm.cpp', S + 'il_gif.cpp', S + 'il_icon.cpp', S + 'il_psd.cpp', S + 'il_dds.cpp', S + 'il_sun.cpp', S + 'il_wbmp.cpp', S + 'il_pix.cpp', S + 'il_pic.cpp', S + 'il_hdr.cpp', S + 'il_lif.cpp', S + 'il_wal.cpp', S + 'il_ftx.cpp', S + 'il_pxr.cpp', S + 'il_doom.cpp', S + 'il_mdl.cpp'], [('ilFixImage', S + 'il_convert.cpp')], 'TGA, BMP, PCX, DCX, CUT, SGI, PNM, GIF, ICO, PSD, DDS, Sun raster, WBMP, PIX, PIC, HDR, LIF, WAL, FTX, PXR, Doom and MDL; origins upper and lower left, formats BGRA and RGB at 8 bits a sample, up to four bytes of pixel or palette data at once', observe=['ilEnable', 'ilOriginFunc', 'ilFormatFunc', 'ilLoadL', 'ilGetData'])
add('C32', 'Palette files and raw data are read, written and applied exactly', 'ilSavePal writes every palette, of any type and size, as the text of its colours and ilLoadPal reads it back; the JASC, Halo, .col, .act and .plt files it can read give exactly their colours, replace the palette and nothing else, and a file that is cut short, malformed or out of range is refused, reported and leaves the palette alone. ilLoadData, ilLoadDataF and ilLoadDataL give exactly the bytes as the pixels of the size asked for and refuse data that are too short; ilSaveData writes exactly the pixels. Neither changes the picture by writing it, both report a disk that is full, respect files that exist, close what they open and lose no memory. ilApplyPal gives every pixel the index of a nearest colour of the palette file.',
    q('every value of the colours, digits, header bytes, lengths and data bytes chosen in each case'), 'No test loads, saves or applies a palette file or reads or writes raw data.',
    [S + 'il_pal.cpp', S + 'il_rawdata.cpp', S + 'il_files.cpp'], [('palette files', S + 'il_pal.cpp'), ('raw data', S + 'il_rawdata.cpp')], 'palettes of 1 to 256 colours with up to 4 symbolic bytes; up to 4 symbolic bytes of a file; raw data up to 36 bytes, all symbolic; applied palettes of 3 or 4 colours to up to 8 pixels with up to two symbolic bytes', observe=['ilSavePal', 'ilLoadPal', 'ilApplyPal', 'ilLoadData', 'ilSaveData', 'ilGetPalette', 'ilGetData'])
