/* One byte of the checksum: the step is injective in the running state and in the byte, so a single changed byte always changes the checksum.
   The 1-byte call is exact (the loop runs once); crc.py proves the general call is the fold of this step. */
#include "third_party/common/crc32/crc32.c"
uint32_t nondet_u32(void); uint8_t nondet_u8(void);
void h_state(void) { uint32_t c = nondet_u32(), d = nondet_u32(); uint8_t b = nondet_u8(); __CPROVER_assume(c != d);
  __CPROVER_assert(crc32(c, &b, 1) != crc32(d, &b, 1), "different states stay different"); __CPROVER_assert(0, "VACUITY states"); }
void h_byte(void) { uint32_t c = nondet_u32(); uint8_t b = nondet_u8(), e = nondet_u8(); __CPROVER_assume(b != e);
  __CPROVER_assert(crc32(c, &b, 1) != crc32(c, &e, 1), "different bytes give different states"); __CPROVER_assert(0, "VACUITY bytes"); }
void h_bit(void) { uint32_t c = nondet_u32(); uint8_t b = nondet_u8(); uint32_t x = (c ^ ~0u) ^ b;
  for (int i = 0; i < 8; i++) x = (x & 1) ? (x >> 1) ^ 0xEDB88320u : x >> 1;
  __CPROVER_assert((crc32(c, &b, 1) ^ ~0u) == x, "the step is division by the CRC-32 polynomial"); __CPROVER_assert(0, "VACUITY bits"); }
