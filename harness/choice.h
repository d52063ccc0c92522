/* Choices: any, or (LONG) fixed by a number, so that histories can be long */
#ifndef CHOICE_H
#define CHOICE_H
#include <stdint.h>
#ifdef LONG
static uint32_t lcg;
static inline unsigned pick(unsigned n) { lcg = lcg * 1664525u + 1013904223u; return (lcg >> 16) % n; }
#define CHOICE(n) pick((unsigned)(n))
#define LONG_OR(a, b) a
#else
#define LONG_OR(a, b) b
#define CHOICE(n) ((unsigned)sym_range(0, (n) - 1))
#endif
#endif
