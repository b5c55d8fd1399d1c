/*
 * Harness vocabulary shared by the solver run (goto-cc/cbmc) and by the native
 * replay of a counterexample (gcc + sanitizers).
 *
 *  IN8/16/32/64  one symbolic input. Under cbmc every value of the type, in the
 *                replay the next value of the counterexample.
 *  ASSUME        precondition of the property
 *  CHECK         the property
 *  WITNESS       a point that has to be reachable: the runner requires the
 *                solver to find a path to it, so a harness whose assumptions
 *                contradict each other, or which never gets to its CHECKs, is
 *                an error and not a pass.
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>

#ifdef VP_SOLVER
uint8_t nondet_vp_u8(void);
uint16_t nondet_vp_u16(void);
uint32_t nondet_vp_u32(void);
uint64_t nondet_vp_u64(void);
static inline uint8_t vp_in8(void)
{ uint8_t v = nondet_vp_u8(); __CPROVER_input("vp", v); return v; }
static inline uint16_t vp_in16(void)
{ uint16_t v = nondet_vp_u16(); __CPROVER_input("vp", v); return v; }
static inline uint32_t vp_in32(void)
{ uint32_t v = nondet_vp_u32(); __CPROVER_input("vp", v); return v; }
static inline uint64_t vp_in64(void)
{ uint64_t v = nondet_vp_u64(); __CPROVER_input("vp", v); return v; }
# define ASSUME(c)	__CPROVER_assume(c)
# define CHECK(c, msg)	__CPROVER_assert((c), "VP: " msg)
# define WITNESS(msg)	__CPROVER_assert(0, "WITNESS: " msg)
# define WITNESS_IF(c, msg) __CPROVER_assert(!(c), "WITNESS: " msg)
#else
uint64_t vp_next(void);
void vp_fail(const char *msg, const char *file, int line);
void vp_nope(const char *what);
static inline uint8_t vp_in8(void)  { return (uint8_t)vp_next(); }
static inline uint16_t vp_in16(void) { return (uint16_t)vp_next(); }
static inline uint32_t vp_in32(void) { return (uint32_t)vp_next(); }
static inline uint64_t vp_in64(void) { return vp_next(); }
# define ASSUME(c)	do { if (!(c)) vp_nope(#c); } while (0)
# define CHECK(c, msg)	do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
# define WITNESS(msg)	do { } while (0)
# define WITNESS_IF(c, msg) do { (void)(c); } while (0)
#endif
#define IN8()	vp_in8()
#define IN16()	vp_in16()
#define IN32()	vp_in32()
#define IN64()	vp_in64()
#define INBIT()	(vp_in8() & 1)

#ifdef VP_SOLVER
# define HARNESS(name)	void name(void)
#else
/* the native build defines VP_ENTRY to the harness being replayed */
# define HARNESS(name)	void name(void); void name(void)
#endif
#endif
