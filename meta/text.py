P = [
dict(id='C03', title='Text is decoded and encoded exactly as Unicode defines',
 statement='Validating, converting and measuring text accepts exactly the well-formed Latin-1, UTF-8, UTF-16 and UTF-32 sequences, and a conversion that succeeds produces the same characters in the other encoding. When input is malformed or truncated, or the output is full, the call reports it and the positions it returns delimit exactly the converted prefix; filling a glyph buffer from text yields one glyph per character with its position, and flags invalid input. No call reads or writes outside of the given buffers.',
 over=['inputs'], q='all byte sequences up to 6-9 bytes (8-17 in thorough), for every pair of encodings and every output capacity up to 8-12 units; all allocation failures of the glyph buffer',
 why='Tests convert a handful of literals; the malformed, truncated and buffer-boundary combinations are exponential in number.',
 files=['blend2d/unicode/unicode.cpp', 'blend2d/unicode/unicode_p.h', 'blend2d/core/glyphbuffer.cpp'], mech=[('UTF-8/16/32 readers and writers', 'blend2d/unicode/unicode_p.h'), ('glyph buffer text input', 'blend2d/core/glyphbuffer.cpp')],
 note='All bytes are symbolic, lengths and capacities case split. The oracle is a decoder written from the Unicode standard.'),
]
