#ifndef VSTUB_STRINGS_H
#define VSTUB_STRINGS_H
#include <stddef.h>
void bzero(void *, size_t); int ffs(int);
#endif
