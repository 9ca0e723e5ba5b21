// Independent model of the detection measures, in interval form: every comparison the
// library makes on rounded coefficients is decided here on (near) exact coefficients, and
// counted as "either way" when it is closer than the rounding error of the transform.
#pragma once
#include <cmath>
#include <vector>
#include <algorithm>
#include <cstddef>

namespace model {
typedef long double ld;

struct CosTable {
	size_t n; std::vector<ld> c; // c[m] = cos(pi*m/(2n)), m < 4n
	explicit CosTable(size_t n_) : n(n_), c(4*n_) {
		const ld pi = acosl(-1.0L);
		for(size_t m = 0; m < 4*n; m++) c[m] = cosl(pi*(ld)m/(2*(ld)n));
	}
	ld operator()(size_t k, size_t j) const { return c[((2*j+1)*k) % (4*n)]; }
};
inline const CosTable& costable(size_t n) {
	static std::vector<CosTable*> cache;
	if(cache.size() <= n) cache.resize(n+1,nullptr);
	if(!cache[n]) cache[n] = new CosTable(n);
	return *cache[n];
}

// unnormalised 2D DCT-II (factor 2 per dimension), row-major
template<class T> std::vector<ld> dct2(const T* x, size_t w, size_t h) {
	const CosTable& cw = costable(w),& ch = costable(h);
	std::vector<ld> t(w*h), y(w*h);
	for(size_t r = 0; r < h; r++)
		for(size_t k = 0; k < w; k++) {
			ld s = 0;
			for(size_t j = 0; j < w; j++) s += (ld)x[r*w+j]*cw(k,j);
			t[r*w+k] = 2*s;
		}
	for(size_t c = 0; c < w; c++)
		for(size_t k = 0; k < h; k++) {
			ld s = 0;
			for(size_t j = 0; j < h; j++) s += t[j*w+c]*ch(k,j);
			y[k*w+c] = 2*s;
		}
	return y;
}
// inverse of the above
inline std::vector<ld> idct2(const std::vector<ld>& y, size_t w, size_t h) {
	const CosTable& cw = costable(w),& ch = costable(h);
	std::vector<ld> t(w*h), x(w*h);
	for(size_t r = 0; r < h; r++)
		for(size_t j = 0; j < w; j++) {
			ld s = y[r*w]/2;
			for(size_t k = 1; k < w; k++) s += y[r*w+k]*cw(k,j);
			t[r*w+j] = s/w;
		}
	for(size_t c = 0; c < w; c++)
		for(size_t j = 0; j < h; j++) {
			ld s = t[c]/2;
			for(size_t k = 1; k < h; k++) s += t[k*w+c]*ch(k,j);
			x[j*w+c] = s/h;
		}
	return x;
}

struct Interval { double lo = 0, hi = 0; };
enum Method { SIGN, MAG, ORIG, ZEROX };

struct Dim {                       // measure of one dimension
	bool any = false;              // are there candidate positions at all
	size_t first = 0, last = 0;    // candidates first..last-1
	std::vector<Interval> conf;    // per candidate
	double ambiguous = 0;          // share of comparisons closer than rounding error
};

// eps: unit roundoff of the coefficient type; epsi: of the intermediate type; epsilon: floor used by mag (its type's EPSILON)
struct Precision { double eps = 6e-8, epsi = 1.2e-16, epsilon = 2.220446049250313e-16; };

inline Dim measure(const std::vector<ld>& f, size_t length, size_t n, size_t stride, size_t dist, size_t range, Method m, const Precision& pr, ld norm) {
	Dim d;
	if(m == ZEROX) range = 1;
	if(!(range < (length+1)/2)) return d;
	d.any = true;
	d.first = range; d.last = length-range;
	d.conf.resize(d.last-d.first);
	const ld tau = ((ld)pr.eps + 1e-18L) * (4 + log2l((ld)length*n)) * norm + 1e-44L;
	auto at = [&](size_t y, size_t x) { return f[y*stride+x*dist]; };
	// sign differs: 0 no, 1 yes, 2 unknown
	auto opposite = [&](ld l, ld r) { return fabsl(l) <= tau || fabsl(r) <= tau ? 2 : (int)((l < 0) != (r < 0)); };
	double amb = 0, total = 0;
	std::vector<ld> sum;
	if(m == ORIG) {
		sum.assign(length,0);
		for(size_t y = 0; y < n; y++) for(size_t x = 0; x < length; x++) sum[x] += fabsl(at(y,x));
		for(auto& s : sum) s /= n;
	}
	for(size_t x = d.first; x < d.last; x++) {
		double yes = 0, maybe = 0, cnt = 0;
		if(m == ZEROX) {
			for(size_t y = 0; y < n; y++) {
				ld l = at(y,x-1), c = at(y,x), r = at(y,x+1);
				int o = opposite(l,r);
				bool certain_mono = (l < c-2*tau && c < r-2*tau) || (l > c+2*tau && c > r+2*tau);
				bool certain_not = !((l < c+2*tau && c < r+2*tau) || (l > c-2*tau && c > r-2*tau));
				if(o == 0 || certain_not) {}
				else if(o == 1 && certain_mono) yes++;
				else maybe++;
				cnt++;
			}
		}
		else for(size_t y = 0; y < n; y++)
			for(size_t i = 1; i <= range; i++) {
				ld l = at(y,x-i), r = at(y,x+i);
				cnt++;
				if(m == MAG) {
					// matches when -2 < l/r' < 0, r' being r with its magnitude raised to at least epsilon
					ld ar = fabsl(r), al = fabsl(l);
					int o = opposite(l,r);
					ld rlo = std::max<ld>(std::max<ld>(ar-tau,0),pr.epsilon), rhi = std::max<ld>(ar+tau,pr.epsilon);
					ld slack = 1e-6L*rhi + tau;
					if(pr.eps < 1e-10) slack = 1e-12L*rhi + tau;
					// the comparison is made on ratio+1 in intermediate precision: tiny opposite-signed ratios round to exactly +-1 and do not match
					bool big = al-tau >= 2*rhi+slack;              // surely too large
					bool tiny = al <= tau || al < 1e-5L*rhi;        // ratio+1 may round to 1
					bool fits = al+tau <= 2*rlo-slack;
					if(o == 0 || big) {}
					else if(o == 1 && fits && !tiny) yes++;
					else maybe++;
				}
				else {
					int o = opposite(l,r);
					if(o == 1) yes++; else if(o == 2) maybe++;
				}
			}
		Interval c;
		c.lo = yes/cnt; c.hi = (yes+maybe)/cnt;
		amb += maybe; total += cnt;
		if(m == ORIG) {
			ld left = 0, right = 0, mid = sum[x]*range;
			for(size_t i = 1; i <= range; i++) { left += sum[x-i]; right += sum[x+i]; }
			ld margin = 8*range*tau + 64*((ld)pr.epsi*length*n+1e-18L)*(left+right+mid);
			ld lr = fabsl(left-right);
			ld a = std::min(left,right)-mid, b = fabsl(left-mid)-lr, e = fabsl(right-mid)-lr;
			if(a < -margin || b < -margin || e < -margin) c = {0,0};
			else if(!(a > margin && b > margin && e > margin)) { c.lo = 0; amb += cnt; }
		}
		d.conf[x-d.first] = c;
	}
	d.ambiguous = total ? amb/total : 0;
	return d;
}

struct Both { Dim w, h; };
template<class T> Both analyse(const T* img, size_t w, size_t h, size_t range, Method m, const Precision& pr = Precision()) {
	std::vector<ld> f = dct2(img,w,h);
	ld norm = 0;
	for(ld v : f) norm += v*v;
	norm = sqrtl(norm);
	Both b;
	b.w = measure(f,w,h,w,1,range,m,pr,norm);
	b.h = measure(f,h,w,1,w,range,m,pr,norm);
	return b;
}
inline void add(Dim& acc, const Dim& d) {
	if(acc.conf.empty()) { acc = d; return; }
	for(size_t i = 0; i < acc.conf.size(); i++) { acc.conf[i].lo += d.conf[i].lo; acc.conf[i].hi += d.conf[i].hi; }
	acc.ambiguous = std::max(acc.ambiguous,d.ambiguous);
}
inline void scale(Dim& d, double n) { for(auto& c : d.conf) { c.lo /= n; c.hi /= n; } }
}
