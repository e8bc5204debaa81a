/* an FMU whose functions hand everything they are given to the checking program: integer and pointer arguments in order,
   floating point arguments in order (System V calling convention for x86-64) */
#include <stdint.h>
#include "../functions.h"
typedef uint64_t u64;
extern u64 mc_recorded(const char *name, const u64 *ints, const double *dbls);
#define F(name) u64 name(u64 a0, u64 a1, u64 a2, u64 a3, u64 a4, u64 a5, double d0, double d1, double d2, double d3, u64 s0, u64 s1, u64 s2, u64 s3, u64 s4, u64 s5) { \
    u64 a[12] = {a0, a1, a2, a3, a4, a5, s0, s1, s2, s3, s4, s5}; double d[4] = {d0, d1, d2, d3}; return mc_recorded(#name, a, d); }
#define X(n) F(fmi3##n)
F3LIST(X)
#undef X
#define X(n) F(fmi2##n)
F2LIST(X)
#undef X
