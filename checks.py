def E(h, names, **kw): return [dict(harness=h, entry=f'{h}_{n}', **kw) for n in names.split()]
PROPS = {
 'C01': dict(entries=E('h_render', 'geom p_fill p_all x_fill x_all a_fill a_all p_clear x_clear a_clear p_blitx x_blitx a_blitx a_blitp a_blita a_mask') + E('h_render', 'ops', reach=['end', 'unsupported']) + E('h_render', 'p_mask x_mask p_blitp x_blitp p_blita x_blita', shards={'quick': 4, 'thorough': 8}, shard_depth=2, cost=3, time={'quick': 80, 'thorough': 800})),
 'C02': dict(entries=E('h_pixconv', 'nat0 nat1 nat2 nat3 nat4 from to ff0 ff1 ff2 multi i1 i2 i4 i8') + E('h_pixconv', 'san', reach=['accepted', 'rejected'], shards=2, shard_depth=3, cost=2) + E('h_pixconv', 'sanl', reach=['accepted', 'rejected']) + E('h_pixconv', 'oom')),
 'C03': dict(entries=E('h_unicode', 'validate1 8_1 16_1 32_1 1_1 8_8 8_16 8_32 16_8 16_16 16_32 32_8 32_16 32_32 text1 text8 text16 text32 glyphs') + E('h_unicode', 'validate8 validate16 validate32', reach=['end', 'valid', 'invalid'])),
 'C04': dict(entries=E('h_string', '1_0 1_1 1_2 2_00 2_01 2_10 2_11 2_02 2_12 2_2x cmp')),
 'C05': dict(entries=E('h_array', ' '.join(f'{n}_{k}' for n in ['u8','u32','f64'] for k in ['1_0','1_1','1_2','00','01','10','12','20','22']) + ' obj1 obj2 obj3')),
 'C06': dict(entries=[e for n, names in [(1, 'q0 q1 q2 q3 q4 q5 q6 e3'), (2, 'd3 d5 d6 e0 e1 e2'), (3, 'd0 d2 e5 e6 f0 oom')] for e in E('h_bitset', names, shards=n, shard_depth=3, time={'quick': 15, 'thorough': 600})] + E('h_bitset', 's1a s1b s1c') + E('h_bitset', 's2a s2b s2c', shards=3, shard_depth=2, cost=2, time={'quick': 30, 'thorough': 600})),
 'C07': dict(entries=E('h_bitarray', 'q0 q1 q2 q3 q4 q5 1 1oom') + E('h_bitarray', '2', shards={'quick': 2, 'thorough': 8}, shard_depth=3)),
 'C08': dict(entries=E('h_imgcodec', 'qoi', cost=3) + E('h_imgcodec', 'png1 png2 png4 pngpal pnggray pngrgb pngla pngrgba pngsplit bmp bmprle4 bmprle8')),
 'C09': dict(entries=E('h_imgcodec', 'rtqx rtqa rtbx rtbp rtba rtpa') + E('h_imgcodec', 'rtpx rtpp rtqp', cost=3, shards=3, shard_depth=3) + E('h_deflate', 'enc', cost=4, shards=8, shard_depth=4)),
 'C10': dict(entries=E('h_imgcodec', 'qoiany pngsize bmpdim', reach=['end', 'ok', 'refused'], shards=3, shard_depth=3, cost=4) + E('h_imgcodec', 'pngchunks bmpr4any bmpr8any bmpfld', reach=['end', 'ok', 'refused']) + E('h_deflate', 'any code', reach=['end', 'ok', 'refused'])),
 'C11': dict(entries=E('h_codecops', 'crc adler_s adler_b')),
 'C12': dict(entries=E('h_codecops', 'paeth f1 f2 f3 f4 f6 f8 r1 r2 r3 r4 r6 r8')),
 'C13': dict(entries=E('h_deflate', 'static blocks fast dyn0 dyn1 dyn2 dyn3 dyncut mix')),
 'C22': dict(entries=E('h_var', 'toi tod', shards=2, shard_depth=2, cost=2) + E('h_var', 'eqd', shards=6, shard_depth=2, cost=3) + E('h_var', 'eqi rgba own')),
 'C23': dict(entries=E('h_fontset', 'f1 f2a f2b f3 v1 v2a v2b v3 tag') + E('h_fontset', 'foom voom', reach=['end', 'oom'])),
 'C26': dict(entries=E('h_contain', 'tree treehist treedrain list hash1 hash2 hash3 hash4 hashoom mod bits1 bits2 isort qsort8 qsort10 search')),
 'C27': dict(entries=E('h_alloc', 'arena', shards=4, shard_depth=3, cost=3, reach=['end', 'fail'], time={'quick': 60, 'thorough': 800}) + E('h_alloc', 'arenaw arenaoom', reach=['end', 'fail']) + E('h_alloc', 'zero frag') + E('h_alloc', 'zerooom', reach=['end', 'oom'])),
 'C28': dict(entries=E('h_glyphbuf', 'set hist') + E('h_glyphbuf', 'oom', reach=['end','oom'])),
}
