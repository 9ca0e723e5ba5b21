#pragma once
#include <stddef.h>
#include <stdarg.h>
typedef struct FILE FILE;
extern FILE *stdin, *stdout, *stderr;
typedef long long off_t;
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
#define EOF (-1)
#define BUFSIZ 1024
FILE* fopen(const char*, const char*); FILE* fdopen(int, const char*); int fclose(FILE*); size_t fread(void*, size_t, size_t, FILE*); size_t fwrite(const void*, size_t, size_t, FILE*);
int fseek(FILE*, long, int); long ftell(FILE*); int fseeko(FILE*, off_t, int); off_t ftello(FILE*); void rewind(FILE*); int feof(FILE*); int ferror(FILE*); void clearerr(FILE*); int fflush(FILE*); int fileno(FILE*);
int fgetc(FILE*); int getc(FILE*); int ungetc(int, FILE*); char* fgets(char*, int, FILE*); int fputc(int, FILE*); int fputs(const char*, FILE*); int puts(const char*); void perror(const char*);
int printf(const char*, ...); int fprintf(FILE*, const char*, ...); int sprintf(char*, const char*, ...); int snprintf(char*, size_t, const char*, ...); int fscanf(FILE*, const char*, ...); int sscanf(const char*, const char*, ...);
int vfprintf(FILE*, const char*, va_list); int vsnprintf(char*, size_t, const char*, va_list);
