// Harness API.  The same harness is compiled twice: instrumented (symbolic execution) and natively (replay).
#ifndef SYMX_H
#define SYMX_H
#include <stdint.h>
#include <stddef.h>
extern "C" {
// fresh symbolic value of `width` bits; the name identifies it in counterexamples (must be unique along a path)
uint64_t symx_input(const char* name,unsigned width);
// restrict the inputs: paths with a false condition are outside the bound
void symx_assume(int cond);
// decide the property: the solver is asked for inputs of this path that falsify cond
void symx_assert(int cond,const char* label);
// record a concrete observation; the native replay of the same inputs must observe the same
void symx_observe(uint64_t v);
// pins a value: explores every feasible value as a path of its own
uint64_t symx_pin(uint64_t v);
// marks that a non-trivial state was reached (vacuity guard): label must be reached by at least one path
void symx_reached(const char* label);
// 1 when a known finding is to be reproduced here (listed in known_findings.json), see symx_known
void symx_known(const char* id,int violated,const char* label);
int symx_thorough(void);
int symx_native(void);
}
struct SymxScenario { const char* name; void(*body)(); void(*setup)(); SymxScenario* next; SymxScenario(const char* n,void(*b)(),void(*s)()=0); };
extern SymxScenario* symx_scenarios;
#define SYMX_SCENARIO(n) static void symxbody_##n(); static SymxScenario symxreg_##n(#n,symxbody_##n); static void symxbody_##n()
#define SYMX_SCENARIO_SETUP(n,setupfn) static void symxbody_##n(); static SymxScenario symxreg_##n(#n,symxbody_##n,setupfn); static void symxbody_##n()
int symx_main(int argc,char**argv);

static inline uint32_t sx_u32(const char* n){ return (uint32_t)symx_input(n,32); }
static inline int32_t  sx_i32(const char* n){ return (int32_t)symx_input(n,32); }
static inline uint16_t sx_u16(const char* n){ return (uint16_t)symx_input(n,16); }
static inline uint8_t  sx_u8(const char* n){ return (uint8_t)symx_input(n,8); }
static inline uint64_t sx_u64(const char* n){ return symx_input(n,64); }
static inline bool     sx_bool(const char* n){ return symx_input(n,1)!=0; }
// value in [lo,hi], still symbolic
static inline int sx_range(const char* n,int lo,int hi){ int v=(int)(int32_t)symx_input(n,32)+lo; symx_assume(v>=lo && v<=hi); return v; }
// non-zero code unit (the default input satisfies the assumption, which saves a discarded run per input)
static inline uint16_t sx_unit(const char* n){ uint16_t v=(uint16_t)(symx_input(n,16)^0x61); symx_assume(v!=0); return v; }
// value in [0,n), one path per value
static inline int sx_choose(const char* nm,int n){ uint32_t v=(uint32_t)symx_input(nm,8); symx_assume(v<(uint32_t)n); return (int)symx_pin(v); }
#define SX_ASSERT(c,l) symx_assert((c)?1:0,l)
// evaluate a condition without short circuit branching
#endif
