P=[
dict(id='C23', title='Font feature and variation settings are exact tag-to-value maps',
 statement='A font feature or variation settings container behaves as a map from four-character tags to values under every sequence of set, remove, clear, copy, move and shrink operations: every lookup, the size, the ordered view and equality agree with the map, independently of the internal representation. Tags with characters outside the printable range and values out of the documented range are refused without changing the container. A failed allocation leaves the map unchanged, other copies are never affected and all memory is released.',
 over='All tags of a representative tag set (boolean, valued, unknown, invalid; one check takes any 32-bit tag), all values, up to two or three operations from five starting representations, shared or not, with or without failing allocations.',
 q='Refinement of an abstract map by the container for bounded histories.',
 why='The inline representation packs values in four bits and ids in eight bits next to the size; transitions between inline, dynamic and shared storage with particular values are not sampled by the unit tests.',
 files=['blend2d/core/fontfeaturesettings.cpp', 'blend2d/core/fontfeaturesettings_p.h', 'blend2d/core/fontvariationsettings.cpp', 'blend2d/core/fonttagdata_p.h', 'blend2d/core/fonttagdataids.cpp', 'blend2d/core/fonttagdatainfo.cpp'],
 mech=[('inline tag and value packing', 'blend2d/core/fontfeaturesettings.cpp'), ('tag to id tables', 'blend2d/core/fonttagdataids.cpp'), ('copy on write and transitions to dynamic storage', 'blend2d/core/fontvariationsettings.cpp')],
 note='Bounded histories (1-3 operations) over 13 feature tags and 8 variation tags; negative zero is excluded from equality.'),
dict(id='C28', title='Glyph buffers hold exactly the text or glyphs that were set',
 statement='After text in any supported encoding or glyph identifiers in any memory layout were set, a glyph buffer holds exactly their code points or identifiers, each with the index of the input unit it came from; ill-formed input is replaced unit by unit and flagged, and nothing of an earlier content (size, flags, positions) remains. A failed operation leaves the previous content usable, and all memory is returned.',
 over='All texts of up to 4 UTF-8, 3 UTF-16 or UTF-32 units (sized and NUL terminated), all glyph ids, both id widths, positive and negative strides; histories of 3 operations across the capacity steps; failing allocations.',
 q='Equality with reference decoders and an abstract content for bounded inputs and histories.',
 why='Stale state shows only when a buffer is reused in a particular order, and cluster values only for multi-unit or broken sequences.',
 files=['blend2d/core/glyphbuffer.cpp', 'blend2d/core/glyphbuffer_p.h', 'blend2d/core/glyphbuffer.h', 'blend2d/unicode/unicode_p.h'],
 mech=[('text decoding with clusters', 'blend2d/core/glyphbuffer.cpp'), ('buffer growth', 'blend2d/core/glyphbuffer.cpp'), ('glyph run iterator', 'blend2d/core/glyphrun.h')],
 note='Lone surrogates are passed through, as the relaxed reader documents. Shaping is replaced by a step that positions the glyphs (no font file is available).'),
]
