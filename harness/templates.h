/* Initial messages for d_main, with symbolic values. */
#ifndef TEMPLATES_H
#define TEMPLATES_H
#include "model.h"
#include "choice.h"
#define TEMPLATES 9
#if defined(T_CONCRETE) || defined(T_WIDE_CONCRETE)  /* fixed-size values concrete */
#define sym_w32() 0x04030201u
#define sym_w64() 0x0807060504030201ull
#else
#define sym_w32() sym_u32()
#define sym_w64() sym_u64()
#endif
#ifdef T_CONCRETE                                    /* all values concrete */
static uint32_t sym7(void) { static uint8_t x = 1; return x++; }
static value_t S2(void) { return VS("st", 2); }
#else
static uint32_t sym7(void) { uint8_t x = sym_u8(); sym_assume(x < 128); return x; }
static value_t S2(void) { static uint8_t b[2]; sym_bytes(b, 2); return VS((char *)b, 2); }
#endif
static node *t_build(unsigned which) {
  node *m = m_root(&d_main), *r;
  switch (which) {
    case 0: break;
    case 1: /* unknown fields of every wire type around known ones */
      m_add(m, 99, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 1, PB_TYPE_UINT32, V32(300));
      m_add(m, 100, PB_TYPE_STRING, S2());
      m_add(m, 2, PB_TYPE_STRING, S2());
      m_add(m, 101, PB_TYPE_FIXED32, V32(sym_w32()));
      m_add(m, 6, PB_TYPE_FIXED32, V32(sym_w32()));
      m_add(m, 102, PB_TYPE_FIXED64, V64(sym_w64()));
      break;
    case 2: /* several occurrences of optional fields */
      m_add(m, 1, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 2, PB_TYPE_STRING, VS("", 0));
      r = m_addmsg(m, 3, &d_in); m_add(r, 1, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 1, PB_TYPE_UINT32, V32(sym7()));
      r = m_addmsg(m, 3, &d_in); m_add(r, 2, PB_TYPE_STRING, S2());
      m_add(m, 2, PB_TYPE_STRING, S2());
      m_add(m, 13, PB_TYPE_BOOL, V32(1));
      break;
    case 3: /* repeated and packed, each in both encodings */
      m_add(m, 4, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 4, PB_TYPE_UINT32, V32(200));
      r = m_addpacked(m, 4); m_addelem(r, PB_TYPE_UINT32, V32(sym7())); m_addelem(r, PB_TYPE_UINT32, V32(1000));
      r = m_addpacked(m, 5); m_addelem(r, PB_TYPE_UINT32, V32(sym7())); m_addelem(r, PB_TYPE_UINT32, V32(sym7()));
      r = m_addpacked(m, 11); m_addelem(r, PB_TYPE_FIXED32, V32(sym_w32()));
      m_add(m, 12, PB_TYPE_SINT64, V64(sym7()));
      break;
    case 4: /* packed field in non-packed encoding last */
      r = m_addpacked(m, 5); m_addelem(r, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 5, PB_TYPE_UINT32, V32(sym7()));
      r = m_addpacked(m, 11); m_addelem(r, PB_TYPE_FIXED32, V32(sym_w32())); m_addelem(r, PB_TYPE_FIXED32, V32(sym_w32()));
      m_add(m, 11, PB_TYPE_FIXED32, V32(sym_w32()));
      break;
    case 5: /* oneof members in order, an unrelated field behind */
      m_add(m, 7, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 8, PB_TYPE_STRING, S2());
      r = m_addmsg(m, 9, &d_in); m_add(r, 1, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 15, PB_TYPE_DOUBLE, V64(sym_w64()));
      break;
    case 6: /* out of order, oneof member repeated */
      m_add(m, 15, PB_TYPE_DOUBLE, V64(sym_w64()));
      m_add(m, 8, PB_TYPE_STRING, S2());
      m_add(m, 7, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 1, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 20, PB_TYPE_ENUM, V32(5));
      m_add(m, 14, PB_TYPE_INT32, V32(sym7()));
      break;
    case 7: { /* nesting */
      node *s;
      r = m_addmsg(m, 3, &d_in);
      m_add(r, 1, PB_TYPE_UINT32, V32(sym7()));
      m_add(r, 2, PB_TYPE_STRING, S2());
      s = m_addmsg(r, 3, &d_leaf); m_add(s, 1, PB_TYPE_UINT32, V32(sym7()));
      s = m_addpacked(r, 4); m_addelem(s, PB_TYPE_UINT32, V32(sym7())); m_addelem(s, PB_TYPE_UINT32, V32(300));
      s = m_addmsg(m, 10, &d_leaf); m_add(s, 1, PB_TYPE_UINT32, V32(sym7()));
      s = m_addmsg(m, 10, &d_leaf);
      s = m_addmsg(m, 10, &d_leaf); m_add(s, 2, PB_TYPE_UINT32, V32(sym7())); m_add(s, 2, PB_TYPE_UINT32, V32(sym7()));
      break; }
    case 8: /* fields of unexpected wire type, a packed field without values */
      m_add(m, 1, PB_TYPE_FIXED32, V32(sym_w32()));
      m_add(m, 1, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 1, PB_TYPE_FIXED64, V64(sym_w64()));
      m_add(m, 2, PB_TYPE_UINT32, V32(sym7()));
      m_add(m, 4, PB_TYPE_FIXED32, V32(sym_w32()));
      m_add(m, 4, PB_TYPE_UINT32, V32(sym7()));
      m_addpacked(m, 5);
      r = m_addpacked(m, 5); m_addelem(r, PB_TYPE_UINT32, V32(sym7()));
      m_addpacked(m, 5);
      m_add(m, 8, PB_TYPE_UINT32, V32(sym7()));
      r = m_addpacked(m, 4); m_addelem(r, PB_TYPE_UINT32, V32(sym7()));
      m_addpacked(m, 4);
      break;
  }
  return m;
}
/* Any value of a type; strings get one of a few lengths */
static value_t t_value(pb_type_t t, int maxstr) {
  static uint8_t b[PAYLOAD];
  value_t v; memset(&v, 0, sizeof v);
  switch (ref_wiretype(t)) {
    case 2: {
      static const uint8_t len[] = { 0, 1, 3, 9, 126, 127, 128 };
      size_t n = len[sym_range(0, maxstr)];
      for (size_t i = 0; i < n; i++) b[i] = i < 3 ? sym_u8() : (uint8_t)i;
      v.s.data = b; v.s.size = n;
      return v; }
    case 1: v.u64 = sym_u64(); return v;
    case 5: v.u32 = sym_u32(); return v;
    default:
      if (t == PB_TYPE_ENUM) { v.u32 = sym_u32(); sym_assume((v.u32 == 0) | (v.u32 == 1) | (v.u32 == 5) | (v.u32 == (uint32_t)-7)); }
      else if (t == PB_TYPE_BOOL) { v.u8 = sym_u8(); sym_assume(v.u8 < 2); }
      else if (ref_size(t) == 4) v.u32 = sym_u32();
      else v.u64 = sym_u64();
      return v;
  }
}
#ifdef LONG
/* one symbolic byte per value: one, two or the maximal number of bytes long */
static value_t long_value(pb_type_t t) {
  static uint8_t ring[8][20]; static unsigned at;         /* several values at a time */
  uint8_t *b = ring[at++ % 8];
  static unsigned used; int any = used < 180;              /* the first 180 bytes are symbolic */
  uint8_t x = any ? sym_u8() : (uint8_t)pick(128); unsigned wide = pick(3);
  used += ref_wiretype(t) == 2 ? 3 : 1;
  if (ref_wiretype(t) == 2) { size_t n = pick(3) * 5; for (size_t i = 0; i < n; i++) b[i] = any && i < 2 ? sym_u8() : FILL(i); return VS((char *)b, n); }
  if (t == PB_TYPE_ENUM) return V32(wide == 1 ? 5 : wide == 2 ? (uint32_t)-7 : 0);
  if (!any) x &= t == PB_TYPE_BOOL ? 1 : 63;
  if (t == PB_TYPE_BOOL) { sym_assume(x < 2); return V32(x); }
  if (ref_wiretype(t) != 0) return V64(x * 0x0101010101ull);
  sym_assume(x < 64);
  return V64(wide == 0 ? x : wide == 1 ? 128 + x : ref_size(t) == 4 ? 0x80000000u + x : 0x8000000000000000ull + x);
}
#define VALUE(t, maxstr) long_value(t)
#else
#define VALUE(t, maxstr) t_value(t, maxstr)
#endif
#endif
