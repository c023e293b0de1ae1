P = [
dict(id='C11', title='Checksums equal their mathematical definition',
 statement='The CRC-32 of a byte sequence is the remainder defined by the reflected polynomial EDB88320, and the Adler-32 is the pair of sums modulo 65521, for every content, length and alignment. No byte outside of the sequence is read.',
 over=['inputs'], q='CRC: every state and byte for one step, all contents up to 8 bytes; Adler: every value of a byte at each interesting position in buffers of lengths around every block boundary (1 byte to 11200 bytes), both the dispatched and the portable implementation',
 why='Wrong reduction points overflow only for particular long inputs, vector tails only for particular lengths.',
 files=['blend2d/compression/checksum.cpp', 'blend2d/compression/checksum_sse2.cpp', 'blend2d/compression/checksum_p.h'], mech=[('tables and slicing', 'blend2d/compression/checksum.cpp'), ('vector Adler-32', 'blend2d/compression/checksum_sse2.cpp')],
 note='Implementations that need a newer CPU than the baseline are outside. Adler bytes other than the symbolic one have fixed values (maximum or a pattern).'),
dict(id='C12', title='PNG row filters reverse exactly what the standard defines',
 statement='Reversing the None, Sub, Up, Average and Paeth filters (and rejecting or ignoring unknown ones without damage) reproduces, for every pixel size, row length and content, the bytes that the PNG standard defines. Neither the filter bytes nor memory outside of the rows is touched.',
 over=['inputs'], q='all row contents for pixel sizes 1,2,3,4,6,8, rows short of, at, and beyond the vector width, all filter pairs of two rows, several alignments; portable and vectorised implementations',
 why='Sample PNG files exercise only the filters an encoder chose, with narrow ranges of values.',
 files=['blend2d/codec/pngops.cpp', 'blend2d/codec/pngops_sse2.cpp', 'blend2d/codec/pngopssimdimpl_p.h', 'blend2d/codec/pngops_p.h'], mech=[('inverse filters', 'blend2d/codec/pngopssimdimpl_p.h'), ('Paeth predictor', 'blend2d/codec/pngops_p.h')],
 note='The decoded bytes are related to each other by the standard formula; row bytes are symbolic, lengths and filters case split. Paeth equivalence is proven separately over all 2^24 inputs.'),
]
P += [
dict(id='C08', title='Image decoders produce exactly the pixels the formats define',
 statement='A well-formed QOI, PNG or BMP image of any supported pixel layout (bit depth, palette, channel masks, transparency, interlacing, run-length coding, row order, header version) decodes to exactly the size, format and pixels that the file format defines, however the file splits its data into chunks. No byte outside of the given data is read.',
 over=['inputs'], q='QOI: sequences of 3 operations of every kind with any operand byte; PNG: every colour type at 1-8 bits per sample, plain and interlaced, sizes around the group and pass boundaries, any sample values, palettes shorter than the depth allows, transparency chunks, split data; BMP: every header version, depth, mask layout, row order, short palettes, RLE4/RLE8 sequences of 4 operations',
 why='Sample files have convenient sizes and are written by one encoder; errors hide in incomplete groups of pixels, rare header versions, and operand values.',
 files=['blend2d/codec/pngcodec.cpp', 'blend2d/codec/bmpcodec.cpp', 'blend2d/codec/qoicodec.cpp', 'blend2d/pixelops/scalar_p.h', 'blend2d/core/pixelconverter.cpp', 'blend2d/core/imagedecoder.cpp'],
 mech=[('deinterlacing and chunk parsing', 'blend2d/codec/pngcodec.cpp'), ('headers, masks, RLE', 'blend2d/codec/bmpcodec.cpp'), ('QOI operations', 'blend2d/codec/qoicodec.cpp')],
 note='Reference decoders are written in the harness from the format specifications. Layouts the library does not support (16-bit PNG, JPEG, colour keys of RGB PNG, APNG blending, V4/V5 headers without masks) are outside; the compressed data of PNG uses stored blocks here, other blocks are C13.'),
dict(id='C09', title='Encoding then decoding is lossless',
 statement='An image written by the QOI, PNG or BMP encoder decodes to the same pixels (an unpremultiplied detour included), and data compressed at any level, raw or in a zlib container, decompresses to the same bytes, with a correct header and checksum. Output that is appended keeps what was there before.',
 over=['inputs'], q='images of 1 to 6 pixels of the three formats whose pixels repeat, differ slightly, or are new, with symbolic components; buffers of 1 to 300 bytes in three patterns with symbolic bytes at every compression level',
 why='An encoder picks another representation for each content; each choice has its own corner cases.',
 files=['blend2d/codec/qoicodec.cpp', 'blend2d/codec/pngcodec.cpp', 'blend2d/codec/bmpcodec.cpp', 'blend2d/compression/deflateencoder.cpp', 'blend2d/compression/deflateencoderutils_p.h', 'blend2d/core/imageencoder.cpp'],
 mech=[('QOI encoder', 'blend2d/codec/qoicodec.cpp'), ('DEFLATE encoder', 'blend2d/compression/deflateencoder.cpp'), ('BMP writer', 'blend2d/codec/bmpcodec.cpp'), ('PNG writer', 'blend2d/codec/pngcodec.cpp')],
 note='Tiny images. For compression the symbolic bytes are enumerated by the solver (the match finder hashes them), and the decoder of the library, checked in C13, decompresses.'),
dict(id='C10', title='Malformed images and streams are refused without damage',
 statement='Whatever bytes are given to the QOI, PNG and BMP decoders or to the DEFLATE decoder - wrong sizes, truncated chunks, unknown or repeated chunks, invalid codes, distances that point before the start - the result is an error or a fully defined image; no access leaves the input or the image, and no undefined value decides anything.',
 over=['inputs'], q='QOI: any header and any 17 bytes at any truncation; PNG: any dimensions, any sequence of up to 3 chunks with any content, any advertised length and truncation; BMP: any dimensions and header fields, any RLE bytes; DEFLATE: any stored header, any code length in 4 codes, any 2 bytes of codes',
 why='A fuzzer reaches the state before the bad field only by chance; the solver derives the field that passes all earlier checks.',
 files=['blend2d/codec/pngcodec.cpp', 'blend2d/codec/bmpcodec.cpp', 'blend2d/codec/qoicodec.cpp', 'blend2d/compression/deflatedecoder.cpp', 'blend2d/compression/deflatedecoderfastimpl_p.h'],
 mech=[('chunk bounds', 'blend2d/codec/pngcodec.cpp'), ('RLE bounds', 'blend2d/codec/bmpcodec.cpp'), ('decode tables', 'blend2d/compression/deflatedecoder.cpp')],
 note='Memory safety is decided by the executor: each access is checked against the bounds of its object, and a branch on an undefined value is an error. JPEG is outside.'),
dict(id='C13', title='DEFLATE decoding equals RFC 1951 for every way input arrives',
 statement='A valid DEFLATE stream - stored, static and dynamic blocks in any order, any code, any length and distance - decompresses to exactly the bytes RFC 1951 defines, in one call or when the input is cut at arbitrary places. Until the end was seen a decoder asks for more data and never reports success.',
 over=['inputs', 'schedules'], q='streams of 1-3 blocks; symbolic literals, all kinds of length and distance codes, extra bits; four dynamic codes (15-bit codes with sub-tables, a single distance, no distance, short codes) with and without run-length coded headers; all cut positions; output capacity with and without the fast loop',
 why='Test data is produced by one encoder and given at once; the decoder keeps its state in several places when input runs out.',
 files=['blend2d/compression/deflatedecoder.cpp', 'blend2d/compression/deflatedecoder_p.h', 'blend2d/compression/deflatedecoderfastimpl_p.h', 'blend2d/compression/deflatedecoderutils_p.h', 'blend2d/compression/deflatedefs_p.h'],
 mech=[('table construction', 'blend2d/compression/deflatedecoder.cpp'), ('fast loop', 'blend2d/compression/deflatedecoderfastimpl_p.h'), ('resumable states', 'blend2d/compression/deflatedecoder.cpp')],
 note='The stream is produced by a reference coder of the harness. Fast loops for newer CPUs than the baseline are outside.'),
]
