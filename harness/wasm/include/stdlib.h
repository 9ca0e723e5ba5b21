#pragma once
#include <stddef.h>
void* malloc(size_t); void* calloc(size_t, size_t); void* realloc(void*, size_t); void free(void*);
void qsort(void*, size_t, size_t, int (*)(const void*, const void*));
long strtol(const char*, char**, int); unsigned long strtoul(const char*, char**, int); double strtod(const char*, char**); float strtof(const char*, char**);
long long strtoll(const char*, char**, int); unsigned long long strtoull(const char*, char**, int);
int atoi(const char*); int abs(int); long labs(long); void abort(void); void exit(int); char* getenv(const char*);
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
#define alloca __builtin_alloca
