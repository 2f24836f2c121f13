#ifndef VSTUB_INTTYPES_H
#define VSTUB_INTTYPES_H
#include <stdint.h>
#define PRIu32 "u"
#define PRIx32 "x"
#define PRIu64 "llu"
#define PRIx64 "llx"
#endif
