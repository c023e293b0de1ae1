#include "bsym.h"
#include <blend2d/blend2d.h>
ENTRY h_smoke_string() {
  BLString s; char b[4]; bsym_make_symbolic(b, 4, "b"); 
  size_t n = bsym_range("n", 0, 4);
  uint64_t live = bsym_mem_live();
  s.append(b, n); ASSERT(s.size() == n, "size");
  for (size_t i = 0; i < n; i++) ASSERT(s.data()[i] == b[i], "content");
  s.reset(); ASSERT(bsym_mem_live() == live, "leak");
  REACH("end");
}
ENTRY h_smoke_img() {
  BLImage img(4, 4, BL_FORMAT_PRGB32); BLContext ctx(img);
  ctx.clear_all(); ctx.set_fill_style(BLRgba32(bsym_u32("c"))); ctx.fill_rect(BLRectI(1,1,2,2)); ctx.end();
  BLImageData d; img.get_data(&d); uint32_t* p = (uint32_t*)d.pixel_data; ASSERT(p[0] == 0, "outside"); ASSERT(p[5] != 0x12345678, "inside");
  REACH("end");
}
