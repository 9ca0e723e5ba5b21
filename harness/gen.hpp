// Generators: image contents, dimensions, parameters, and a separable resampler.
#pragma once
#include "pbt.hpp"
#include "model.hpp"
#include "rapi.hpp"

namespace gen {
using pbt::Src; using pbt::Rng;

enum Kind { NOISE, PIXELS, SIGNED, QUANT8, BINARY, SPECTRUM, CROSSING, UPSCALED, SMOOTH, CONSTANT, SPARSE, SCALED, NKINDS };
static const char* const KINDNAME[] = {"noise","pixels","signed","quant8","binary","spectrum","crossing","upscaled","smooth","constant","sparse","scaled"};

// 1-D resampling matrix from n to m samples (centres aligned, edge clamped), kernel: 0 bilinear 1 bicubic(-.5) 2 lanczos3 3 mitchell
inline std::vector<std::vector<double>> resampler(size_t n, size_t m, int kernel) {
	auto k = [&](double x) -> double {
		x = std::fabs(x);
		switch(kernel) {
			case 0: return x < 1 ? 1-x : 0;
			case 1: { const double a = -.5; return x < 1 ? ((a+2)*x-(a+3))*x*x+1 : x < 2 ? ((a*x-5*a)*x+8*a)*x-4*a : 0; }
			case 2: { if(x < 1e-12) return 1; if(x >= 3) return 0; double p = M_PI*x; return 3*std::sin(p)*std::sin(p/3)/(p*p); }
			default: { const double B = 1/3., C = 1/3.; return x < 1 ? ((12-9*B-6*C)*x*x*x+(-18+12*B+6*C)*x*x+(6-2*B))/6 : x < 2 ? ((-B-6*C)*x*x*x+(6*B+30*C)*x*x+(-12*B-48*C)*x+(8*B+24*C))/6 : 0; }
		}
	};
	static const double support[] = {1,2,3,2};
	std::vector<std::vector<double>> M(m,std::vector<double>(n,0));
	for(size_t i = 0; i < m; i++) {
		double c = (i+.5)*n/(double)m-.5, tot = 0;
		for(long j = (long)std::floor(c-support[kernel]); j <= (long)std::ceil(c+support[kernel]); j++) {
			double v = k(c-j);
			long q = j < 0 ? -j-1 : j >= (long)n ? 2*(long)n-1-j : j; // mirror, the extension the DCT implies
			if(q < 0) q = 0;
			if(q >= (long)n) q = n-1;
			M[i][q] += v; tot += v;
		}
		for(auto& v : M[i]) v /= tot;
	}
	return M;
}
inline std::vector<float> resample(const std::vector<float>& src, size_t w, size_t h, size_t W, size_t H, int kernel) {
	auto X = resampler(w,W,kernel), Y = resampler(h,H,kernel);
	std::vector<double> t(W*h);
	for(size_t y = 0; y < h; y++) for(size_t x = 0; x < W; x++) { double s = 0; for(size_t j = 0; j < w; j++) if(X[x][j]) s += X[x][j]*src[y*w+j]; t[y*W+x] = s; }
	std::vector<float> o(W*H);
	for(size_t y = 0; y < H; y++) for(size_t j = 0; j < h; j++) if(double c = Y[y][j]) for(size_t x = 0; x < W; x++) o[y*W+x] += c*t[j*W+x];
	return o;
}

inline std::vector<float> image(Src& s, size_t w, size_t h, int* kind_out = nullptr, int force = -1) {
	int kind = force >= 0 ? force : (int)s.weighted({18,8,8,10,6,16,14,12,4,2,4,8});
	if(kind == PIXELS && w*h > 150) kind = NOISE;
	if((kind == SPECTRUM || kind == CROSSING || kind == SPARSE) && w*h > 10000) kind = NOISE;
	if(kind_out) *kind_out = kind;
	std::vector<float> p(w*h);
	Rng r(0);
	if(kind != PIXELS) r = s.bulk();
	switch(kind) {
		case PIXELS: for(auto& v : p) v = s.upto(16)/16.f; break;
		case SIGNED: for(auto& v : p) v = (float)r.gauss(); break;
		case QUANT8: for(auto& v : p) v = r.below(256)/255.f; break;
		case BINARY: for(auto& v : p) v = (float)r.below(2); break;
		case SPECTRUM: {
			std::vector<model::ld> y(w*h);
			double decay = s.upto(3)*.5;
			for(size_t j = 0; j < h; j++) for(size_t i = 0; i < w; i++) y[j*w+i] = r.gauss()/std::pow(1.+std::hypot((double)i,(double)j),decay);
			auto x = model::idct2(y,w,h);
			for(size_t i = 0; i < w*h; i++) p[i] = (float)x[i];
			break;
		}
		case CROSSING: { // odd extension about chosen positions, with chosen magnitude ratios and flip rates
			size_t cx = s.upto(w-1), cy = s.upto(h-1);
			double ratio = s.of(std::vector<double>{1,.5,1.9,2.1,.1,3,1.99});
			int flips = (int)s.upto(60);
			std::vector<model::ld> y(w*h);
			for(auto& v : y) { v = r.gauss(); }
			for(size_t j = 0; j < h; j++)
				for(size_t i = 1; i <= cx && cx+i < w; i++)
					y[j*w+cx-i] = (double)y[j*w+cx+i] * ratio * ((int)r.below(100) < flips ? 1 : -1);
			if(s.chance(50)) for(size_t j = 0; j < h; j++) y[j*w+cx] *= .05;
			if(s.chance(50)) for(size_t i = 0; i < w; i++)
				for(size_t j = 1; j <= cy && cy+j < h; j++)
					y[(cy-j)*w+i] = (double)y[(cy+j)*w+i] * ratio * ((int)r.below(100) < flips ? 1 : -1);
			auto x = model::idct2(y,w,h);
			for(size_t i = 0; i < w*h; i++) p[i] = (float)x[i];
			break;
		}
		case UPSCALED: {
			size_t sw = 1+s.upto(w-1), shh = 1+s.upto(h-1);
			if(sw*2 < w) sw = (w+1)/2;
			if(shh*2 < h) shh = (h+1)/2;
			std::vector<float> q(sw*shh);
			for(auto& v : q) v = (float)r.unit();
			p = resample(q,sw,shh,w,h,(int)s.upto(3));
			break;
		}
		case SMOOTH: {
			double a = r.unit(), b = r.unit(), c = r.unit(), n = .02*r.unit();
			for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) p[y*w+x] = (float)(a*x/w+b*y/h+c*std::sin(3.*x/w+2.*y/h)+n*r.unit());
			break;
		}
		case CONSTANT: { float v = (float)(r.unit()*2-1); for(auto& q : p) q = v; break; }
		case SPARSE: {
			std::vector<model::ld> y(w*h);
			for(int k = 0; k < 4; k++) y[r.below(w*h)] = r.gauss();
			auto x = model::idct2(y,w,h);
			for(size_t i = 0; i < w*h; i++) p[i] = (float)x[i];
			break;
		}
		case SCALED: {
			int e = (int)s.range(0,60)-30;
			double off = s.chance(50) ? r.gauss() : 0;
			for(auto& v : p) v = (float)std::ldexp(r.gauss()+off,e);
			break;
		}
		default: for(auto& v : p) v = (float)r.unit(); break;
	}
	return p;
}

// a dimension: small ones, ones near 2*range, powers of two, primes and larger ones
inline size_t dim(Src& s, size_t maxd, size_t range) {
	switch(s.weighted({25,20,15,15,25})) {
		case 0: return 1+s.upto(std::min<size_t>(maxd,12)-1);
		case 1: { // around the boundary where candidates appear
			long v = (long)(2*range) + (long)s.upto(6) - 2;
			return v < 1 ? 1 : (size_t)v > maxd ? maxd : (size_t)v;
		}
		case 2: { static const size_t a[] = {16,32,8,64,128,4,256}; size_t v = a[s.pick(7)]; return v > maxd ? maxd : v; }
		case 3: { static const size_t a[] = {13,29,37,53,31,61,7,101,127}; size_t v = a[s.pick(9)]; return v > maxd ? maxd : v; }
		default: return 1+s.upto(maxd-1);
	}
}

inline size_t range(Src& s, size_t maxr = 40) {
	switch(s.weighted({30,30,30,10})) {
		case 0: return 1+s.upto(3);
		case 1: return 12;
		case 2: return 1+s.upto(maxr-1);
		default: return 8+s.upto(8);
	}
}

// any size_t: small, near a power of two or a quotient of the maximum, or anything
inline size_t anysize(Src& s) {
	size_t v;
	switch(s.weighted({30,30,15,10,15})) {
		case 0: return s.upto(40);
		case 1: v = (size_t)1 << s.upto(63); break;
		case 2: v = SIZE_MAX/(1+s.upto(16)); break;
		case 3: return SIZE_MAX - s.upto(40);
		default: return s.upto(UINT64_MAX);
	}
	return v + s.upto(80) - 40;
}

inline uint64_t hash(const std::vector<float>& p) { return pbt::hash_bytes(p.data(),p.size()*sizeof(float)); }
}
