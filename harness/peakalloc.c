// LD_PRELOAD: writes the most memory that was allocated at any time, beyond that at the start of main, into the file PEAK_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
void* __libc_malloc(size_t); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); void __libc_free(void*);
static atomic_long live, peak; static long base;
static void add(void* p) { if(p) { long n = atomic_fetch_add(&live,(long)malloc_usable_size(p))+(long)malloc_usable_size(p), m = peak; while(n > m && !atomic_compare_exchange_weak(&peak,&m,n)) {} } }
static void sub(void* p) { if(p) atomic_fetch_sub(&live,(long)malloc_usable_size(p)); }
void* malloc(size_t n) { void* p = __libc_malloc(n); add(p); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a,b); add(p); return p; }
void free(void* p) { sub(p); __libc_free(p); }
void* realloc(void* o, size_t n) { long was = o ? (long)malloc_usable_size(o) : 0; void* p = __libc_realloc(o,n); if(p || !n) { atomic_fetch_sub(&live,was); add(p); } return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a,n); add(p); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a,n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a,n); if(!p) return ENOMEM; *o = p; return 0; }
static int (*real_main)(int,char**,char**);
static int wrapped(int c, char** v, char** e) { base = live; peak = base; return real_main(c,v,e); }
int __libc_start_main(int (*m)(int,char**,char**), int c, char** v, void (*i)(void), void (*f)(void), void (*r)(void), void* s) {
	int (*next)(int (*)(int,char**,char**),int,char**,void (*)(void),void (*)(void),void (*)(void),void*) = dlsym(RTLD_NEXT,"__libc_start_main");
	real_main = m;
	return next(wrapped,c,v,i,f,r,s);
}
__attribute__((destructor)) static void report(void) {
	const char* l = getenv("PEAK_LOG");
	int fd = l ? open(l,O_WRONLY|O_CREAT|O_TRUNC,0600) : -1;
	if(fd < 0) return;
	char b[64]; int n = snprintf(b,sizeof b,"%ld\n",(long)peak-base);
	if(write(fd,b,n)) {}
	close(fd);
}
