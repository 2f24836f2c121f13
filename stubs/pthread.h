#ifndef VSTUB_PTHREAD_H
#define VSTUB_PTHREAD_H
typedef struct { int x[12]; } pthread_mutex_t; typedef int pthread_once_t;
#define PTHREAD_MUTEX_INITIALIZER {{0}}
#define PTHREAD_ONCE_INIT 0
int pthread_mutex_lock(pthread_mutex_t *); int pthread_mutex_unlock(pthread_mutex_t *); int pthread_once(pthread_once_t *, void (*)(void));
#endif
