// A C library for wasm32, as much as libresdet's detection needs; see c25.py. The allocator counts, can be told to
// fail, to grow the memory with every allocation, and fills what it hands out and takes back.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <stdio.h>
#define X(n) __attribute__((export_name(n)))
extern unsigned char __heap_base;
int errno;
FILE *stdin, *stdout, *stderr;

// blocks: 16-byte header {size, state}, laid out contiguously from heap base
typedef struct { uint32_t size, state, asked, pad; } Head;
enum { FREE = 0x46726565, USED = 0x55736564 };
static uint32_t top, live, bytes, count, fail_at, fail_all, grow;
static int bad;
static uint32_t mem(void) { return __builtin_wasm_memory_size(0)*65536u; }
static void* take(size_t n) {
	uint32_t asked = n;
	count++;
	if(fail_at && (count == fail_at || (fail_all && count > fail_at))) return NULL;
	if(n > 0x40000000) return NULL;
	n = (n + 15) & ~15u;
	if(!n) n = 16;
	if(!top) top = ((uint32_t)&__heap_base + 15) & ~15u;
	if(grow) __builtin_wasm_memory_grow(0,1);
	uint32_t a = ((uint32_t)&__heap_base + 15) & ~15u;
	if(!grow)
	for(; a < top; a += sizeof(Head) + ((Head*)a)->size) {
		Head* h = (Head*)a;
		if(h->state == USED) continue;
		for(uint32_t b; (b = a + sizeof(Head) + h->size) < top && ((Head*)b)->state == FREE;)
			h->size += sizeof(Head) + ((Head*)b)->size;
		if(h->size < n) continue;
		if(h->size >= n + sizeof(Head) + 16) {
			Head* r = (Head*)(a + sizeof(Head) + n);
			r->size = h->size - n - sizeof(Head);
			r->state = FREE;
			h->size = n;
		}
		h->state = USED;
		goto got;
	}
	else a = top;
	if((uint64_t)a + sizeof(Head) + n > mem()) {
		uint32_t pages = (uint32_t)(((uint64_t)a + sizeof(Head) + n - mem() + 65535) / 65536);
		if(__builtin_wasm_memory_grow(0,pages) == (size_t)-1) return NULL;
	}
	top = a + sizeof(Head) + n;
	((Head*)a)->size = n;
	((Head*)a)->state = USED;
got:
	live++;
	bytes += ((Head*)a)->asked = asked;
	return (void*)(a + sizeof(Head));
}
X("malloc") void* malloc(size_t n) {
	void* p = take(n);
	if(p) memset(p,0xA5,((Head*)p-1)->size);
	return p;
}
void* calloc(size_t a, size_t b) {
	if(b && a > 0xffffffffu / b) return NULL;
	void* p = take(a*b);
	if(p) memset(p,0,((Head*)p-1)->size);
	return p;
}
X("free") void free(void* p) {
	if(!p) return;
	Head* h = (Head*)p-1;
	if((uint32_t)p & 15 || (uint32_t)p >= top || (uint32_t)p < (uint32_t)&__heap_base || h->state != USED) { bad++; return; }
	live--;
	bytes -= h->asked;
	memset(p,0x5A,h->size);
	h->state = FREE;
}
void* realloc(void* p, size_t n) {
	void* q = malloc(n);
	if(q && p) {
		size_t m = ((Head*)p-1)->size;
		memcpy(q,p,m < n ? m : n);
		free(p);
	}
	return q;
}
X("t_live") uint32_t t_live(void) { return live; }
X("t_bytes") uint32_t t_bytes(void) { return bytes; }
X("t_bad") int t_bad(void) { return bad; }
X("t_count") uint32_t t_count(void) { return count; }
X("t_fail") void t_fail(uint32_t in, uint32_t all) { fail_at = in ? count + in : 0; fail_all = all; }
X("t_grow") void t_grow(uint32_t g) { grow = g; }

// raw access, whatever the bindings have exported
#include "resdet.h"
X("r_detect") int r_detect(float* i, size_t n, size_t w, size_t h, RDResolution** a, size_t* b, RDResolution** c, size_t* d, RDMethod* m, const RDParameters* p) { return resdetect(i,n,w,h,a,b,c,d,m,p); }
X("r_method") RDMethod* r_method(const char* n) { return resdet_get_method(n); }
X("r_methods") RDMethod* r_methods(void) { return resdet_methods(); }
X("r_method_name") const char* r_method_name(RDMethod* m) { return m->name; }
X("r_method_threshold") float r_method_threshold(RDMethod* m) { return m->threshold; }
X("r_default_range") size_t r_default_range(void) { return resdet_default_range(); }
X("r_version") const char* r_version(void) { return resdet_libversion(); }
X("r_error") const char* r_error(int e) { return resdet_error_str(e); }
X("r_params") RDParameters* r_params(void) { return resdet_alloc_default_parameters(); }
X("r_range") int r_range(RDParameters* p, size_t r) { return resdet_parameters_set_range(p,r); }
X("r_threshold") int r_threshold(RDParameters* p, float t) { return resdet_parameters_set_threshold(p,t); }
X("r_filter") int r_filter(RDParameters* p, uint32_t f) { return f > 255 ? RDEPARAM : resdet_parameters_set_compression_filter(p,f); }
X("r_create") RDAnalysis* r_create(RDMethod* m, size_t w, size_t h, const RDParameters* p, RDError* e) { return resdet_create_analysis(m,w,h,p,e); }
X("r_analyze") int r_analyze(RDAnalysis* a, float* i) { return resdet_analyze_image(a,i); }
X("r_results") int r_results(RDAnalysis* a, RDResolution** b, size_t* c, RDResolution** d, size_t* e) { return resdet_analysis_results(a,b,c,d,e); }
X("r_destroy") void r_destroy(RDAnalysis* a) { resdet_destroy_analysis(a); }
X("r_index") uint32_t r_index(const RDResolution* r, size_t i) { return r[i].index; }
X("r_confidence") float r_confidence(const RDResolution* r, size_t i) { return r[i].confidence; }
X("r_sizeof_ptr") size_t r_sizeof_ptr(void) { return sizeof(void*); }

// strings
void* memcpy(void* d, const void* s, size_t n) { unsigned char* a = d; const unsigned char* b = s; while(n--) { *a++ = *b++; __asm__ volatile(""); } return d; }
void* memmove(void* d, const void* s, size_t n) { unsigned char* a = d; const unsigned char* b = s; if(a <= b) return memcpy(d,s,n); while(n--) { a[n] = b[n]; __asm__ volatile(""); } return d; }
void* memset(void* d, int c, size_t n) { unsigned char* a = d; while(n--) { *a++ = c; __asm__ volatile(""); } return d; }
int memcmp(const void* d, const void* s, size_t n) { const unsigned char *a = d, *b = s; for(; n--; a++, b++) if(*a != *b) return *a - *b; return 0; }
void* memchr(const void* d, int c, size_t n) { const unsigned char* a = d; for(; n--; a++) if(*a == (unsigned char)c) return (void*)a; return NULL; }
size_t strlen(const char* s) { size_t n = 0; while(s[n]) { n++; __asm__ volatile(""); } return n; }
int strcmp(const char* a, const char* b) { while(*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for(; n--; a++, b++) if(*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b; return 0; }
char* strchr(const char* s, int c) { for(;; s++) { if(*s == (char)c) return (char*)s; if(!*s) return NULL; } }
char* strrchr(const char* s, int c) { char* r = NULL; for(;; s++) { if(*s == (char)c) r = (char*)s; if(!*s) return r; } }
char* strcpy(char* d, const char* s) { memcpy(d,s,strlen(s)+1); return d; }
char* strdup(const char* s) { char* d = malloc(strlen(s)+1); return d ? strcpy(d,s) : NULL; }
char* strerror(int e) { return "system error"; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c+32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c-32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int strcasecmp(const char* a, const char* b) { while(*a && tolower(*a) == tolower(*b)) a++, b++; return tolower(*a) - tolower(*b); }
static void swap(unsigned char* a, unsigned char* b, size_t s) { for(size_t k = 0; k < s; k++) { unsigned char t = a[k]; a[k] = b[k]; b[k] = t; } }
static void sift(unsigned char* a, size_t i, size_t n, size_t s, int (*cmp)(const void*, const void*)) {
	for(size_t c; (c = 2*i+1) < n; i = c) {
		if(c+1 < n && cmp(a+c*s,a+(c+1)*s) < 0) c++;
		if(cmp(a+i*s,a+c*s) >= 0) return;
		swap(a+i*s,a+c*s,s);
	}
}
void qsort(void* base, size_t n, size_t s, int (*cmp)(const void*, const void*)) {
	unsigned char* a = base;
	if(n > 64) {
		for(size_t i = n/2; i-- > 0; ) sift(a,i,n,s,cmp);
		for(size_t i = n; i-- > 1; ) { swap(a,a+i*s,s); sift(a,0,i,s,cmp); }
		return;
	}
	for(size_t i = 1; i < n; i++)
		for(size_t j = i; j && cmp(a+(j-1)*s,a+j*s) > 0; j--)
			swap(a+(j-1)*s,a+j*s,s);
}
void abort(void) { __builtin_trap(); }
char* getenv(const char* n) { return NULL; }

// arithmetic; sin, cos, ... come from JavaScript
#define IMPORT(n) __attribute__((import_module("math"), import_name(#n))) double js_##n(double); double n(double x) { return js_##n(x); } float n##f(float x) { return (float)js_##n(x); }
IMPORT(sin) IMPORT(cos) IMPORT(tan) IMPORT(atan) IMPORT(exp) IMPORT(log) IMPORT(log2) IMPORT(log10) IMPORT(cbrt)
__attribute__((import_module("math"), import_name("pow"))) double js_pow(double, double);
double pow(double a, double b) { return js_pow(a,b); }
float powf(float a, float b) { return js_pow(a,b); }
double round(double x) { double t = __builtin_trunc(x); return __builtin_fabs(x-t) >= 0.5 ? t + __builtin_copysign(1,x) : __builtin_copysign(t,x); }
float roundf(float x) { return round(x); }
long lround(double x) { return round(x); }
long lroundf(float x) { return round(x); }
double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
float fminf(float a, float b) { return fmin(a,b); }
float fmaxf(float a, float b) { return fmax(a,b); }
double frexp(double x, int* e) {
	union { double d; uint64_t u; } v = { x };
	int k = v.u >> 52 & 0x7ff;
	*e = 0;
	if(x == 0 || k == 0x7ff) return x;
	if(!k) { x = frexp(x*0x1p64,e); *e -= 64; return x; }
	*e = k - 1022;
	v.u = (v.u & ~(0x7ffull << 52)) | (1022ull << 52);
	return v.d;
}
float frexpf(float x, int* e) { return frexp(x,e); }
double ldexp(double x, int e) { while(e > 1000) x *= 0x1p1000, e -= 1000; while(e < -1000) x *= 0x1p-1000, e += 1000; union { uint64_t u; double d; } v = { (uint64_t)(1023+e) << 52 }; return x*v.d; }
float ldexpf(float x, int e) { return ldexp(x,e); }
#define INLINE(n) double n(double x) { return __builtin_##n(x); } float n##f(float x) { return __builtin_##n##f(x); }
INLINE(fabs) INLINE(sqrt) INLINE(floor) INLINE(ceil) INLINE(trunc) INLINE(rint) INLINE(nearbyint)
double copysign(double a, double b) { return __builtin_copysign(a,b); }
float copysignf(float a, float b) { return __builtin_copysignf(a,b); }
