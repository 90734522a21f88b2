// Interface between harnesses and the symbolic executor (symbolic run) or the replay runtime (native run).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi);          // arbitrary integer in [lo,hi]
int64_t  sym_i64(const char* name, int64_t lo, int64_t hi);
double   sym_num(const char* name, int64_t lo, int64_t hi, int64_t den); // arbitrary k/den, k in [lo,hi]
uint64_t sym_choice(const char* name, uint64_t n);                     // arbitrary in [0,n), one path per value
void     sym_assume(int c);
void     sym_assert_(int c, const char* msg);
void     sym_fail_(const char* msg);
double   sym_ite_d(int c, double a, double b);                         // c?a:b without forking
uint64_t sym_ite_u(int c, uint64_t a, uint64_t b);
void     sym_obs_d(double v);                                          // values compared between symbolic and native run
void     sym_obs_u(uint64_t v);
uint64_t sym_param(const char* name, uint64_t def);                    // job parameter (concrete)
void     sym_reach(const char* name);                                  // reachability witness
void     sym_stop(void);
void     sym_discard(void);
int      sym_is_symbolic_run(void);
void     sym_select_merge(uint64_t flag);                              // merge (1) or fork (0) on select instructions
uint64_t sym_concretize_u(uint64_t v);
uint64_t sym_dbl_to_str(char* buf, double v, uint64_t prec);
uint64_t sym_u64_to_str(char* buf, uint64_t v);
}
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define CHECK(c) sym_assert_((int)(bool)(c), #c)
#define CHECKM(c, m) sym_assert_((int)(bool)(c), m)
