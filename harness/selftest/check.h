/* Stand-in for libcheck so that the repository's own tests run in pbse. */
#ifndef CHECK_STUB
#define CHECK_STUB
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "sym.h"
typedef int Suite; typedef int TCase; typedef int SRunner;
typedef void (*TFun)(int);
static TFun stub_tests[512], stub_su[512], stub_td[512], stub_cs, stub_ct; static int stub_n, stub_dummy;
#define START_TEST(name) static void name(int _i) { (void)_i;
#define END_TEST }
static inline void *suite_create(const char *n) { (void)n; return &stub_dummy; }
static inline void *tcase_create(const char *n) { (void)n; stub_cs = stub_ct = 0; return &stub_dummy; }
#define suite_add_tcase(a, b) ((void)(a), (void)(b))
#define tcase_add_checked_fixture(tc, s, t) (stub_cs = (TFun)(s), stub_ct = (TFun)(t))
#define tcase_add_test(tc, f) (stub_su[stub_n] = stub_cs, stub_td[stub_n] = stub_ct, stub_tests[stub_n++] = (TFun)(f))
#define tcase_set_timeout(a, b) ((void)0)
#define srunner_create(s) ((void *)(s))
#define srunner_add_suite(r, s) ((void)(s))
#define srunner_run_all(r, m) do { for (int k_ = 0; k_ < stub_n; k_++) { if (stub_su[k_]) stub_su[k_](0); stub_tests[k_](0); if (stub_td[k_]) stub_td[k_](0); sym_reach(k_ & 63); } sym_obs(stub_n); } while (0)
#define srunner_ntests_failed(r) 0
#define srunner_set_fork_status(a, b) ((void)0)
#define srunner_free(r) ((void)0)
#define CK_NORMAL 0
#define CK_NOFORK 0
#define CK_ENV 0
#define CK_VERBOSE 0
#define S1(x) #x
#define S2(x) S1(x)
#define CKF(c) sym_check(!!(c), __FILE__ ":" S2(__LINE__))
#define fail_unless(c, ...) CKF(c)
#define fail_if(c, ...) CKF(!(c))
#define ck_assert(c) CKF(c)
#define ck_assert_msg(c, ...) CKF(c)
#define fail(...) CKF(0)
#define ck_abort() CKF(0)
#define ck_assert_int_eq(a, b) CKF((intmax_t)(a) == (intmax_t)(b))
#define ck_assert_int_ne(a, b) CKF((intmax_t)(a) != (intmax_t)(b))
#define ck_assert_int_gt(a, b) CKF((intmax_t)(a) > (intmax_t)(b))
#define ck_assert_int_lt(a, b) CKF((intmax_t)(a) < (intmax_t)(b))
#define ck_assert_uint_eq(a, b) CKF((uintmax_t)(a) == (uintmax_t)(b))
#define ck_assert_uint_ne(a, b) CKF((uintmax_t)(a) != (uintmax_t)(b))
#define ck_assert_uint_gt(a, b) CKF((uintmax_t)(a) > (uintmax_t)(b))
#define ck_assert_uint_ge(a, b) CKF((uintmax_t)(a) >= (uintmax_t)(b))
#define ck_assert_uint_lt(a, b) CKF((uintmax_t)(a) < (uintmax_t)(b))
#define ck_assert_uint_le(a, b) CKF((uintmax_t)(a) <= (uintmax_t)(b))
#define ck_assert_ptr_eq(a, b) CKF((void *)(a) == (void *)(b))
#define ck_assert_ptr_ne(a, b) CKF((void *)(a) != (void *)(b))
#define ck_assert_ptr_null(a) CKF((a) == NULL)
#define ck_assert_ptr_nonnull(a) CKF((a) != NULL)
#define ck_assert_str_eq(a, b) CKF(!strcmp(a, b))
#endif
