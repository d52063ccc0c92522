/* Beginnings of messages for d_main, in front of arbitrary bytes. N bytes
 * follow the first three, up to M bytes the others. */
#define M (N - 1)
static const uint8_t pre0[] = { 0x08, 0x07 };                       /* u: 7 */
static const uint8_t pre1[] = { 0x1a, 0x80 | N, 0x00 };             /* msg, of exactly the symbolic bytes (length in two bytes) */
static const uint8_t pre2[] = { 0x2a, N };                          /* pck of exactly the symbolic bytes */
static const uint8_t pre3[] = { 0x22, M };                          /* rep in packed encoding */
static const uint8_t pre4[] = { 0x5a, M };                          /* pf */
static const uint8_t pre5[] = { 0x1a, M + 2, 0x1a, M };             /* msg.m */
static const uint8_t pre6[] = { 0x1a, M + 2, 0x22, M };             /* msg.p */
static const uint8_t pre7[] = { 0x62, M };                          /* sg in packed encoding */
static const uint8_t pre8[] = { 0x7a, M };                          /* dbl in packed encoding */
static const uint8_t pre9[] = { 0x72, M };                          /* i3 in packed encoding */
static const uint8_t pre10[] = { 0x6a, M };                         /* bo in packed encoding */
static const uint8_t pre11[] = { 0x12, M };                         /* str */
static const uint8_t pre12[] = { 0x9b, 0x06 };                      /* unknown, wire type 3 */
#define FF8 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff
static const uint8_t pre13[] = { 0x1a, 0xff, 0xff, 0xff };          /* lengths of up to 2^32 - 1: msg */
static const uint8_t pre14[] = { 0x9a, 0x06, 0xff, 0xff, 0xff };    /* unknown */
static const uint8_t pre15[] = { 0x2a, 0xff, 0xff, 0xff };          /* pck */
static const uint8_t pre16[] = { 0x12, 0xff, 0xff, 0xff };          /* str */
static const uint8_t pre17[] = { 0x88, 0x80, 0x80 };                /* a key of four or five bytes */
static const uint8_t pre18[] = { 0x60, FF8 };                       /* sg, nine or ten bytes */
static const uint8_t pre19[] = { 0x70, FF8 };                       /* i3, negative */
static const uint8_t pre20[] = { 0x08, 0xff, 0xff, 0xff };          /* u, four or five bytes */
static const uint8_t pre21[] = { 0x98, 0x06, FF8 };                 /* unknown varint */
static const uint8_t pre22[] = { 0x79, 1, 2, 3, 4, 5, 6 };          /* dbl, all but two bytes */
static const uint8_t pre23[] = { 0x1a, 0x02, 0x12 };                /* msg of a string that may reach beyond it */
static const uint8_t pre24[] = { 0x1a, 0x03, 0x22 };                /* msg of a packed field that may reach beyond it */
static const uint8_t pre25[] = { 0x1a, 0x01 };                      /* msg of one byte, more behind it */
static const uint8_t pre26[] = { 0x68 };                            /* bo */
static const uint8_t pre27[] = { 0xa0, 0x01, FF8 };                 /* en, negative */
static const struct { const uint8_t *d; size_t n; } pre[] = { { 0, 0 }, { pre0, sizeof pre0 }, { pre1, sizeof pre1 }, { pre2, sizeof pre2 }, { pre3, sizeof pre3 }, { pre4, sizeof pre4 },
  { pre5, sizeof pre5 }, { pre6, sizeof pre6 }, { pre7, sizeof pre7 }, { pre8, sizeof pre8 }, { pre9, sizeof pre9 }, { pre10, sizeof pre10 }, { pre11, sizeof pre11 }, { pre12, sizeof pre12 },
  { pre13, sizeof pre13 }, { pre14, sizeof pre14 }, { pre15, sizeof pre15 }, { pre16, sizeof pre16 }, { pre17, sizeof pre17 }, { pre18, sizeof pre18 }, { pre19, sizeof pre19 }, { pre20, sizeof pre20 }, { pre21, sizeof pre21 }, { pre22, sizeof pre22 }, { pre23, sizeof pre23 }, { pre24, sizeof pre24 }, { pre25, sizeof pre25 }, { pre26, sizeof pre26 }, { pre27, sizeof pre27 } };
