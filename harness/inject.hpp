// Interposition of the allocator (and FFTW's), and of fopen/stdin, for the library under test.
// To be included by exactly one source file of a harness that is linked with -rdynamic.
#pragma once
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>

extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void __libc_free(void*); void* __libc_memalign(size_t,size_t); }

namespace inject {
// ---- which calls count ----
static bool armed = false;             // inside an API call
static bool all = true;                // also allocations made by other libraries on the library's behalf
static uintptr_t lib_lo[8], lib_hi[8]; static int nlibs = 0; // code of the libraries under test
// ---- failing ----
static long count = 0;                 // allocations so far
static long fail_at = -1;              // this one fails
static bool persistent = false;        // and all that follow
static bool failed = false, failed_direct = false;
static const char* failed_what = "";
// ---- live allocations ----
static const size_t SLOTS = 1u << 17;
static void* slot[SLOTS]; static void* const GONE = (void*)1;
static size_t live = 0, used = 0; static bool overflow = false;
static long foreign_frees = 0;

static inline size_t hash(void* p) { return (size_t)(((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 47) & (SLOTS-1); }
static void track(void* p) {
	if(!p) return;
	if(used > SLOTS*3/4) { overflow = true; return; }
	size_t i = hash(p);
	while(slot[i] && slot[i] != GONE) i = (i+1) & (SLOTS-1);
	if(!slot[i]) used++;
	slot[i] = p; live++;
}
static bool untrack(void* p) {
	if(!live || !p) return false;
	for(size_t i = hash(p); slot[i]; i = (i+1) & (SLOTS-1)) if(slot[i] == p) { slot[i] = GONE; live--; return true; }
	return false;
}
static bool direct(void* caller) { for(int i = 0; i < nlibs; i++) if((uintptr_t)caller >= lib_lo[i] && (uintptr_t)caller < lib_hi[i]) return true; return false; }
// may this allocation go on?
static bool allow(void* caller, const char* what, bool force_direct = false) {
	bool d = force_direct || direct(caller);
	if(!d && !all) return true;
	long n = count++;
	if(fail_at >= 0 && (n == fail_at || (persistent && n > fail_at))) { failed = true; failed_direct |= d; failed_what = what; errno = ENOMEM; return false; }
	return true;
}
static bool counts(void* caller) { return all || direct(caller); }
static void reset() { if(used) memset(slot,0,sizeof slot); live = used = 0; overflow = false; count = 0; fail_at = -1; persistent = failed = failed_direct = false; foreign_frees = 0; }

static void library(const char* path) {
	char real[4096];
	if(!realpath(path,real)) { perror(path); exit(3); }
	struct A { const char* p; bool ok; } arg = {real,false};
	dl_iterate_phdr([](dl_phdr_info* in, size_t, void* v) -> int {
		A* a = (A*)v; char r[4096];
		if(!in->dlpi_name || !realpath(in->dlpi_name,r) || strcmp(r,a->p)) return 0;
		uintptr_t lo = UINTPTR_MAX, hi = 0;
		for(int i = 0; i < in->dlpi_phnum; i++) if(in->dlpi_phdr[i].p_type == PT_LOAD) {
			uintptr_t b = in->dlpi_addr+in->dlpi_phdr[i].p_vaddr;
			if(b < lo) lo = b;
			if(b+in->dlpi_phdr[i].p_memsz > hi) hi = b+in->dlpi_phdr[i].p_memsz;
		}
		lib_lo[nlibs] = lo; lib_hi[nlibs++] = hi; a->ok = true;
		return 0;
	},&arg);
	if(!arg.ok) { fprintf(stderr,"%s is not loaded\n",path); exit(3); }
}
struct Arm { bool old; Arm() : old(armed) { armed = true; } ~Arm() { armed = old; } };

static int open_fds() {
	int n = 0;
	for(int i = 0; i < 128; i++) n += fcntl(i,F_GETFD) >= 0;
	return n;
}
}

#define CALLER __builtin_return_address(0)
extern "C" {
__attribute__((noinline)) void* malloc(size_t n) {
	if(!inject::armed) return __libc_malloc(n);
	if(!inject::allow(CALLER,"malloc")) return nullptr;
	void* p = __libc_malloc(n);
	if(inject::counts(CALLER)) inject::track(p);
	return p;
}
__attribute__((noinline)) void* calloc(size_t a, size_t b) {
	if(!inject::armed) return __libc_calloc(a,b);
	if(!inject::allow(CALLER,"calloc")) return nullptr;
	void* p = __libc_calloc(a,b);
	if(inject::counts(CALLER)) inject::track(p);
	return p;
}
__attribute__((noinline)) void* realloc(void* o, size_t n) {
	if(!inject::armed) { bool t = inject::untrack(o); void* p = __libc_realloc(o,n); if(t) inject::track(p ? p : o); return p; }
	if(!inject::allow(CALLER,"realloc")) return nullptr;
	bool t = inject::untrack(o);
	void* p = __libc_realloc(o,n);
	if(t || (!o && inject::counts(CALLER))) inject::track(p ? p : n ? o : nullptr);
	return p;
}
__attribute__((noinline)) void free(void* p) {
	if(inject::live && !inject::untrack(p) && inject::armed && inject::all && p && inject::direct(CALLER)) inject::foreign_frees++;
	__libc_free(p);
}
__attribute__((noinline)) void* memalign(size_t a, size_t n) {
	if(!inject::armed) return __libc_memalign(a,n);
	if(!inject::allow(CALLER,"memalign")) return nullptr;
	void* p = __libc_memalign(a,n);
	if(inject::counts(CALLER)) inject::track(p);
	return p;
}
__attribute__((noinline)) void* aligned_alloc(size_t a, size_t n) {
	if(!inject::armed) return __libc_memalign(a,n);
	if(!inject::allow(CALLER,"aligned_alloc")) return nullptr;
	void* p = __libc_memalign(a,n);
	if(inject::counts(CALLER)) inject::track(p);
	return p;
}
__attribute__((noinline)) int posix_memalign(void** o, size_t a, size_t n) {
	if(inject::armed && !inject::allow(CALLER,"posix_memalign")) return ENOMEM;
	void* p = __libc_memalign(a,n);
	if(!p) return ENOMEM;
	if(inject::armed && inject::counts(CALLER)) inject::track(p);
	*o = p;
	return 0;
}
}
