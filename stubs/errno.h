#ifndef VSTUB_ERRNO_H
#define VSTUB_ERRNO_H
extern int *__errno_location(void) __attribute__((const));
#define errno (*__errno_location())
#define EINVAL 22
#define ENOMEM 12
#endif
