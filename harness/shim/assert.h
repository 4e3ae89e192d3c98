/* Shadows <assert.h>: assertions of the library stay live in every build flavour
   and end the current test case with a readable message. (No include guard: like
   the system header, it may be included many times.) */
#ifdef __cplusplus
extern "C"
#endif
void verif_assert_fail(const char *expr, const char *file, int line) __attribute__((noreturn));
#undef assert
#define assert(x) ((x) ? (void)0 : verif_assert_fail(#x, __FILE__, __LINE__))
