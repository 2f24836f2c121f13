#ifndef VSTUB_STDLIB_H
#define VSTUB_STDLIB_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *);
int posix_memalign(void **, size_t, size_t); void *aligned_alloc(size_t, size_t);
void abort(void) __attribute__((noreturn)); void exit(int) __attribute__((noreturn)); void _Exit(int) __attribute__((noreturn));
int atexit(void (*)(void)); char *getenv(const char *); int system(const char *);
int rand(void); void srand(unsigned); long random(void); int abs(int); long labs(long);
int atoi(const char *); long strtol(const char *, char **, int); unsigned long strtoul(const char *, char **, int);
void qsort(void *, size_t, size_t, int (*)(const void *, const void *));
#ifdef __cplusplus
}
#endif
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
#endif
