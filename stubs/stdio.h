#ifndef VSTUB_STDIO_H
#define VSTUB_STDIO_H
#include <stddef.h>
#include <stdarg.h>
typedef struct vstub_FILE FILE; extern FILE *stdin, *stdout, *stderr;
#define EOF (-1)
int printf(const char *, ...); int fprintf(FILE *, const char *, ...); int sprintf(char *, const char *, ...);
int snprintf(char *, size_t, const char *, ...); int putchar(int); int puts(const char *); int fputs(const char *, FILE *);
int fputc(int, FILE *); FILE *fopen(const char *, const char *); int fclose(FILE *); int fflush(FILE *);
size_t fread(void *, size_t, size_t, FILE *); size_t fwrite(const void *, size_t, size_t, FILE *);
#endif
