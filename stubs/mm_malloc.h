#ifndef VSTUB_MM_MALLOC_H
#define VSTUB_MM_MALLOC_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* kept external on purpose: pairing with _mm_free is analysed */
extern void *_mm_malloc(size_t, size_t); extern void _mm_free(void *);
#ifdef __cplusplus
}
#endif
#endif
