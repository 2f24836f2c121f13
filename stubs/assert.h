/* analysis stub: assert() must be re-includable */
#undef assert
#ifdef NDEBUG
# define assert(x) ((void)0)
#else
extern void __assert_fail(const char *, const char *, unsigned int, const char *) __attribute__((noreturn));
# define assert(x) ((x) ? (void)0 : __assert_fail(#x, __FILE__, __LINE__, __func__))
#endif
#ifndef static_assert
# define static_assert _Static_assert
#endif
