P = [
dict(id='C01', title='Compositing writes exactly the pixels defined by the operator',
 statement='Filling, masking, clearing and blitting write, inside of the requested area, exactly the pixel that the selected composition operator defines from the old pixel, the premultiplied source and the coverage (8-bit channels, products rounded to nearest), and leave every other pixel untouched. A destination holding valid premultiplied pixels still does so afterwards, and an operator that is not supported reports an error instead of writing something else.',
 over=['inputs'], q='all destination pixels, all colors / source pixels, all coverages, for each destination format (PRGB32, XRGB32, A8), source format and operator among src-over, src-copy and clear; all placements within a small image; all 29 operators for the error or formula clause',
 why='Rendering tests compare JIT and reference pipelines or checksums of a few scenes; no test states the arithmetic, and rounding or lane mistakes appear for a few channel values only.',
 files=['blend2d/pipeline/reference/compopgeneric_p.h', 'blend2d/pipeline/reference/pixelgeneric_p.h', 'blend2d/pipeline/reference/fillgeneric_p.h', 'blend2d/pipeline/reference/fetchgeneric_p.h', 'blend2d/raster/rastercontext.cpp', 'blend2d/core/compopsimplifyimpl_p.h'],
 mech=[('div255 lane arithmetic', 'blend2d/pipeline/reference/pixelgeneric_p.h'), ('operator simplification and solid overrides', 'blend2d/raster/rastercontext.cpp, blend2d/core/compop.cpp')],
 note='4x2 images rendered through the public context API (the portable pipeline, the only one in a build without the JIT). Source alpha and mask are case split over all 256 values, all other channels are symbolic; placements are case split.'),
dict(id='C02', title='Pixel format conversion preserves the meaning of every pixel',
 statement='A pixel format description is accepted exactly when its components fit, do not overlap and match its flags, and its normalized form denotes the same pixels. Every conversion that can be created writes for each pixel the components of the source, converted in depth, byte order and alpha type (premultiplied, straight, opaque) to the destination, for any row length, stride, alignment and palette. It zeroes the requested gap, touches nothing else, and a converter that could not be created stays as it was.',
 over=['inputs'], q='all pixels and palette colors for every pair of 31 native and foreign formats (8 to 32 bits, big and little endian, luminance, 1 to 16-bit components) and for 1/2/4/8-bit indexed sources; widths around the vector sizes and the intermediate buffer; all shifts and a size of every format description; an allocation failure',
 why='Tests check a few built-in pairs with sample colors; foreign layouts, alpha type changes, palettes and partial vectors multiply.',
 files=['blend2d/core/pixelconverter.cpp', 'blend2d/core/pixelconverter_sse2.cpp', 'blend2d/core/format.cpp', 'blend2d/pixelops/scalar_p.h'],
 mech=[('conversion functions and their selection', 'blend2d/core/pixelconverter.cpp'), ('vectorized converters', 'blend2d/core/pixelconverter_sse2.cpp'), ('format validation', 'blend2d/core/format.cpp')],
 note='Oracle: decode and encode by component size, shift and byte order; div255 rounding for premultiplication, correct rounding for its inverse (alpha case split, valid premultiplied input assumed). Luminance of a color is not defined and not compared. Conversions that need SSSE3/AVX2 are outside.'),
]
