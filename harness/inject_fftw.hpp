// FFTW's allocators and planners as seen by the library.
#pragma once
#include "inject.hpp"
#include <fftw3.h>
#include <algorithm>
namespace inject {
static long plans = 0, coeffs = 0; static bool fail_plan = false;
static int fftw_depth = 0; // FFTW's functions call each other
struct InFftw { bool a = armed; InFftw() { armed = false; fftw_depth++; } ~InFftw() { fftw_depth--; armed = a; } };
static const size_t MAXBUFS = 4096;
static void* fftw_bufs[MAXBUFS]; static size_t nfftw_bufs = 0;
static void* fftw_plans[MAXBUFS]; static size_t nfftw_plans = 0;
static void add(void* p, void** list, size_t& n, long& count) { if(!p || fftw_depth) return; if(n < MAXBUFS) list[n++] = p; count++; }
static void del(void* p, void** list, size_t& n, long& count) { for(size_t i = 0; i < n; i++) if(list[i] == p) { list[i] = list[--n]; count--; return; } }
}
template<class T> static T next_sym(const char* n) { T f = (T)dlsym(RTLD_NEXT,n); if(!f) { fprintf(stderr,"no %s\n",n); exit(3); } return f; }
template<class F> static void* fftw_alloc(const char* name, F call) {
	if(inject::armed && !inject::fftw_depth && !inject::allow(nullptr,name,true)) return nullptr;
	void* p; { inject::InFftw in; p = call(); }
	inject::add(p,inject::fftw_bufs,inject::nfftw_bufs,inject::coeffs);
	return p;
}
template<class F> static fftwf_plan fftw_plan_(F call) {
	if(inject::fail_plan && !inject::fftw_depth) return nullptr;
	fftwf_plan p; { inject::InFftw in; p = call(); }
	inject::add(p,inject::fftw_plans,inject::nfftw_plans,inject::plans);
	return p;
}
#define NEXT(name) static auto f = next_sym<decltype(&name)>(#name)
extern "C" {
float* fftwf_alloc_real(size_t n) { NEXT(fftwf_alloc_real); return (float*)fftw_alloc("fftwf_alloc_real",[&]{ return (void*)f(n); }); }
fftwf_complex* fftwf_alloc_complex(size_t n) { NEXT(fftwf_alloc_complex); return (fftwf_complex*)fftw_alloc("fftwf_alloc_complex",[&]{ return (void*)f(n); }); }
void* fftwf_malloc(size_t n) { NEXT(fftwf_malloc); return fftw_alloc("fftwf_malloc",[&]{ return f(n); }); }
void fftwf_free(void* p) {
	NEXT(fftwf_free);
	if(!inject::fftw_depth) inject::del(p,inject::fftw_bufs,inject::nfftw_bufs,inject::coeffs);
	inject::InFftw in; f(p);
}
fftwf_plan fftwf_plan_r2r_2d(int h, int w, float* i, float* o, fftw_r2r_kind a, fftw_r2r_kind b, unsigned fl) { NEXT(fftwf_plan_r2r_2d); return fftw_plan_([&]{ return f(h,w,i,o,a,b,fl); }); }
fftwf_plan fftwf_plan_r2r_1d(int n, float* i, float* o, fftw_r2r_kind k, unsigned fl) { NEXT(fftwf_plan_r2r_1d); return fftw_plan_([&]{ return f(n,i,o,k,fl); }); }
fftwf_plan fftwf_plan_r2r(int r, const int* n, float* i, float* o, const fftw_r2r_kind* k, unsigned fl) { NEXT(fftwf_plan_r2r); return fftw_plan_([&]{ return f(r,n,i,o,k,fl); }); }
fftwf_plan fftwf_plan_many_r2r(int r, const int* n, int m, float* i, const int* ie, int is, int id, float* o, const int* oe, int os, int od, const fftw_r2r_kind* k, unsigned fl) { NEXT(fftwf_plan_many_r2r); return fftw_plan_([&]{ return f(r,n,m,i,ie,is,id,o,oe,os,od,k,fl); }); }
fftwf_plan fftwf_plan_guru_r2r(int r, const fftwf_iodim* d, int hr, const fftwf_iodim* hd, float* i, float* o, const fftw_r2r_kind* k, unsigned fl) { NEXT(fftwf_plan_guru_r2r); return fftw_plan_([&]{ return f(r,d,hr,hd,i,o,k,fl); }); }
fftwf_plan fftwf_plan_guru64_r2r(int r, const fftwf_iodim64* d, int hr, const fftwf_iodim64* hd, float* i, float* o, const fftw_r2r_kind* k, unsigned fl) { NEXT(fftwf_plan_guru64_r2r); return fftw_plan_([&]{ return f(r,d,hr,hd,i,o,k,fl); }); }
void fftwf_destroy_plan(fftwf_plan p) {
	NEXT(fftwf_destroy_plan);
	if(!inject::fftw_depth) inject::del(p,inject::fftw_plans,inject::nfftw_plans,inject::plans);
	inject::InFftw in; f(p);
}
}
#undef NEXT
