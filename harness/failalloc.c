// LD_PRELOAD: from the start of main on, allocation FAIL_AT (and with FAIL_ALL all later ones) fails.
// Allocations and failures are counted into the file FAIL_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
void* __libc_malloc(size_t); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t);
static int armed, all; static long count, at = -1, failed;
static int allow(void) {
	if(!armed) return 1;
	long n = count++;
	if(at < 0 || !(n == at || (all && n > at))) return 1;
	failed++; errno = ENOMEM;
	return 0;
}
void* malloc(size_t n) { return allow() ? __libc_malloc(n) : NULL; }
void* calloc(size_t a, size_t b) { return allow() ? __libc_calloc(a,b) : NULL; }
void* realloc(void* p, size_t n) { return allow() ? __libc_realloc(p,n) : NULL; }
static int (*real_main)(int,char**,char**);
static int wrapped(int c, char** v, char** e) {
	const char* s = getenv("FAIL_AT");
	if(s) at = atol(s);
	all = getenv("FAIL_ALL") != NULL;
	armed = 1;
	return real_main(c,v,e);
}
int __libc_start_main(int (*m)(int,char**,char**), int c, char** v, void (*i)(void), void (*f)(void), void (*r)(void), void* s) {
	int (*next)(int (*)(int,char**,char**),int,char**,void (*)(void),void (*)(void),void (*)(void),void*) = dlsym(RTLD_NEXT,"__libc_start_main");
	real_main = m;
	return next(wrapped,c,v,i,f,r,s);
}
__attribute__((destructor)) static void report(void) {
	armed = 0;
	const char* l = getenv("FAIL_LOG");
	int fd = l ? open(l,O_WRONLY|O_CREAT|O_TRUNC,0600) : -1;
	if(fd < 0) return;
	char b[64]; int n = snprintf(b,sizeof b,"%ld %ld\n",count,failed);
	if(write(fd,b,n)) {}
	close(fd);
}
