// C02: contract of the result lists: base entry, order, bounds, threshold selection, skipped outputs.
#include "gen.hpp"
using namespace pbt;
static std::vector<Api> apis;

static void wellformed(Ctx& ctx, const std::string& who, const ResList& r, size_t length, size_t range, float threshold) {
	PBT_CHECK(ctx,!r.empty() && r.back().index == length && r.back().confidence == -1.f,"%s: last entry must be %zu with confidence -1: %s",who.c_str(),length,str(r).c_str());
	std::vector<char> seen(length+1,0);
	for(size_t i = 0; i+1 < r.size(); i++) {
		PBT_CHECK(ctx,r[i].confidence >= 0.f && r[i].confidence <= 1.f,"%s: confidence %.9g outside 0-1",who.c_str(),r[i].confidence);
		PBT_CHECK(ctx,i == 0 || r[i-1].confidence >= r[i].confidence,"%s: not in descending order at %zu: %s",who.c_str(),i,str(r).c_str());
		PBT_CHECK(ctx,range < (length+1)/2 && r[i].index >= range && r[i].index < length-range,"%s: index %zu outside [%zu,%zu-%zu): %s",who.c_str(),r[i].index,range,length,range,str(r).c_str());
		PBT_CHECK(ctx,!seen[r[i].index],"%s: index %zu reported twice: %s",who.c_str(),r[i].index,str(r).c_str());
		PBT_CHECK(ctx,r[i].confidence >= threshold-1e-6f,"%s: confidence %.9g below threshold %.9g",who.c_str(),r[i].confidence,threshold);
		seen[r[i].index] = 1;
	}
}

// all candidates, by index; from threshold 0
static std::vector<float> full(Ctx& ctx, const std::string& who, const ResList& r, size_t length, size_t range) {
	wellformed(ctx,who,r,length,range,0);
	size_t n = range < (length+1)/2 ? length-2*range : 0;
	PBT_CHECK(ctx,r.size() == n+1,"%s: %zu entries at threshold 0 for length %zu range %zu, expected one for each of %zu positions: %s",who.c_str(),r.size(),length,range,n,str(r).c_str());
	std::vector<float> c(length,-1);
	for(size_t i = 0; i+1 < r.size(); i++) c[r[i].index] = r[i].confidence;
	return c;
}

// r must be exactly the entries of c at or above the threshold
static void selected(Ctx& ctx, const std::string& who, const ResList& r, const std::vector<float>& c, size_t length, size_t n, size_t range, float threshold, bool single) {
	wellformed(ctx,who,r,length,range,threshold);
	std::vector<char> in(length,0);
	for(size_t i = 0; i+1 < r.size(); i++) {
		PBT_CHECK(ctx,c[r[i].index] == r[i].confidence,"%s: confidence of %zu is %.9g at threshold %.9g but %.9g at threshold 0",who.c_str(),r[i].index,r[i].confidence,threshold,c[r[i].index]);
		in[r[i].index] = 1;
	}
	if(!(range < (length+1)/2)) return;
	for(size_t x = range; x < length-range; x++) {
		double v = c[x], tol = 1e-6*std::max(1.f,threshold);
		if(single) { // a confidence is a count out of n*range
			double k = std::round((double)c[x]*n*range), total = (double)n*range;
			v = k/total; tol = 1e-9;
			if(v == (double)threshold && k*(1/total) == v) tol = 0; // exactly representable tie: "under which" excludes only lower ones
		}
		if(v >= (double)threshold+tol) PBT_CHECK(ctx,in[x],"%s: position %zu with confidence %.9g missing at threshold %.9g: %s",who.c_str(),x,c[x],threshold,str(r).c_str());
		if(v < (double)threshold-tol) PBT_CHECK(ctx,!in[x],"%s: position %zu with confidence %.9g present at threshold %.9g",who.c_str(),x,c[x],threshold);
	}
}

struct Buf { std::vector<float> v; size_t n, w, h; std::string what; };
static Buf image(Src& s, Ctx& ctx, size_t maxd, size_t range) {
	Buf b;
	b.w = gen::dim(s,maxd,range); b.h = gen::dim(s,maxd,range);
	b.n = s.chance(25) ? 2+s.upto(2) : 1;
	b.what = fmt("%zux%zu images=%zu",b.w,b.h,b.n);
	for(size_t i = 0; i < b.n; i++) {
		int k;
		std::vector<float> p = gen::image(s,b.w,b.h,&k);
		b.what += std::string(i ? "," : " (") + gen::KINDNAME[k];
		b.v.insert(b.v.end(),p.begin(),p.end());
	}
	b.what += ")";
	return b;
}

static void lists(Src& s, Ctx& ctx) {
	int m = (int)s.pick(4);
	Params q; q.given = true; q.threshold = 0;
	bool def = s.chance(25);
	size_t range = def ? 12 : gen::range(s);
	if(!def) q.range = range;
	const Api& a = apis[s.pick(apis.size())];
	Buf b = image(s,ctx,60,range);
	size_t eff = m == 3 ? 1 : range;
	ctx.desc(fmt("%s method=%s %s range=%zu",a.name.c_str(),METHODS[m],b.what.c_str(),range));
	Res r0 = detect(a,b.v.data(),b.n,b.w,b.h,METHODS[m],q,ctx);
	PBT_CHECK(ctx,r0.e == RDEOK,"error %d",r0.e);
	std::vector<float> cw = full(ctx,"width, threshold 0",r0.w,b.w,eff), ch = full(ctx,"height, threshold 0",r0.h,b.h,eff);
	// thresholds: anything, values that occur, their neighbours, extremes, unset
	int steps = 1+(int)s.upto(4);
	size_t partial = 0;
	for(int i = 0; i < steps; i++) {
		Params p = q;
		float t;
		const ResList& src = s.chance(50) ? r0.w : r0.h;
		switch(s.weighted({30,25,10,10,15,5,5})) {
			case 0: t = (float)s.upto(1000)/1000; break;
			case 1: t = src.size() > 1 ? src[s.pick(src.size()-1)].confidence : .5f; break;
			case 2: t = src.size() > 1 ? std::nextafter(src[s.pick(src.size()-1)].confidence,2.f) : .25f; break;
			case 3: t = src.size() > 1 ? std::nextafter(src[s.pick(src.size()-1)].confidence,-1.f) : .75f; break;
			case 4: t = -1; break;
			case 5: t = 1; break;
			default: t = 1e-30f; break;
		}
		if(t > 1) t = 1;
		if(t < 0 && t > -1) t = 0;
		p.threshold = t;
		bool pass_null = t < 0 && def && s.chance(50);
		if(pass_null) p = Params();
		float eff_t = t < 0 ? METHOD_THRESHOLD[m] : t;
		Res r = detect(a,b.v.data(),b.n,b.w,b.h,METHODS[m],p,ctx);
		ctx.desc(fmt(" t=%.9g",t));
		PBT_CHECK(ctx,r.e == RDEOK,"error %d",r.e);
		selected(ctx,"width",r.w,cw,b.w,b.h,eff,eff_t,b.n == 1);
		selected(ctx,"height",r.h,ch,b.h,b.w,eff,eff_t,b.n == 1);
		if((r.w.size() > 1 && r.w.size() < r0.w.size()) || (r.h.size() > 1 && r.h.size() < r0.h.size())) partial++;
		ctx.label(t < 0 ? (pass_null ? "threshold: default by NULL" : "threshold: default") : "threshold: explicit");
		// either output may be left out
		ParamsHandle ph(a,p,ctx);
		RDMethod* rm = a.resdet_get_method(METHODS[m]);
		RDResolution* one = (RDResolution*)(uintptr_t)0x10; size_t cnt = 77, other = 55;
		bool wantw = s.chance(50), count_too = s.chance(50);
		RDError e = wantw ? a.resdetect(b.v.data(),b.n,b.w,b.h,&one,&cnt,nullptr,count_too ? &other : nullptr,rm,ph.p)
		                  : a.resdetect(b.v.data(),b.n,b.w,b.h,nullptr,count_too ? &other : nullptr,&one,&cnt,rm,ph.p);
		PBT_CHECK(ctx,e == RDEOK,"skipping %s: error %d",wantw ? "heights" : "widths",e);
		ResList got(one,one+cnt);
		free(one);
		PBT_CHECK(ctx,same(got,wantw ? r.w : r.h),"results differ when the other dimension is skipped: %s vs %s",str(got).c_str(),str(wantw ? r.w : r.h).c_str());
		PBT_CHECK(ctx,!count_too || other == 0,"count of a skipped dimension is %zu",other);
	}
	ctx.label(partial ? "partial selection" : "all or nothing");
	if(partial) ctx.nontrivial(gen::hash(b.v)^mix(m,range));
}

// the lists of a finished analysis can be obtained repeatedly, in any combination
static void repeated(Src& s, Ctx& ctx) {
	int m = (int)s.pick(4);
	const Api& a = apis[s.pick(apis.size())];
	Params q; q.given = true; q.range = 1+s.upto(7); q.threshold = s.chance(30) ? -1 : (float)s.upto(60)/100;
	Buf b = image(s,ctx,40,q.range);
	ctx.desc(fmt("%s method=%s %s %s",a.name.c_str(),METHODS[m],b.what.c_str(),q.str().c_str()));
	Res want = detect(a,b.v.data(),b.n,b.w,b.h,METHODS[m],q,ctx);
	PBT_CHECK(ctx,want.e == RDEOK,"error %d",want.e);
	ParamsHandle ph(a,q,ctx);
	RDError e = 99;
	RDAnalysis* an = a.resdet_create_analysis(a.resdet_get_method(METHODS[m]),b.w,b.h,ph.p,&e);
	PBT_CHECK(ctx,an && e == RDEOK,"create: %p %d",(void*)an,e);
	for(size_t i = 0; i < b.n; i++) { e = a.resdet_analyze_image(an,b.v.data()+i*b.w*b.h); PBT_CHECK(ctx,e == RDEOK,"analyze: %d",e); }
	for(int i = 0, n = 1+(int)s.upto(4); i < n; i++) {
		bool w = s.chance(70), h = s.chance(70);
		RDResolution* rw = (RDResolution*)(uintptr_t)0x10,* rh = rw; size_t cw = 99, ch = 99;
		e = a.resdet_analysis_results(an,w ? &rw : nullptr,&cw,h ? &rh : nullptr,&ch);
		PBT_CHECK(ctx,e == RDEOK,"results %d: %d",i,e);
		if(w) { ResList g(rw,rw+cw); for(size_t k = 0; k < cw; k++) rw[k].index = 12345; free(rw); PBT_CHECK(ctx,same(g,want.w),"results %d differ: %s vs %s",i,str(g).c_str(),str(want.w).c_str()); }
		else PBT_CHECK(ctx,cw == 0,"count of skipped widths %zu",cw);
		if(h) { ResList g(rh,rh+ch); for(size_t k = 0; k < ch; k++) rh[k].index = 12345; free(rh); PBT_CHECK(ctx,same(g,want.h),"results %d differ: %s vs %s",i,str(g).c_str(),str(want.h).c_str()); }
		else PBT_CHECK(ctx,ch == 0,"count of skipped heights %zu",ch);
	}
	a.resdet_destroy_analysis(an);
	if(want.w.size() > 1 || want.h.size() > 1) ctx.nontrivial(gen::hash(b.v)^mix(m,q.range));
}

// extreme ranges leave nothing but the base entry, at any size
static void extremes(Src& s, Ctx& ctx) {
	int m = (int)s.pick(4);
	const Api& a = apis[s.pick(apis.size())];
	size_t range = gen::anysize(s); if(!range) range = 1;
	size_t w = s.chance(50) ? 1+s.upto(30) : 1+s.upto(3), h = s.chance(50) ? 1+s.upto(30) : 1+s.upto(3);
	std::vector<float> p = gen::image(s,w,h);
	Params q; q.given = true; q.range = range; q.threshold = 0;
	ctx.desc(fmt("%s method=%s %zux%zu range=%zu",a.name.c_str(),METHODS[m],w,h,range));
	Res r = detect(a,p.data(),1,w,h,METHODS[m],q,ctx);
	PBT_CHECK(ctx,r.e == RDEOK,"error %d",r.e);
	size_t eff = m == 3 ? 1 : range;
	full(ctx,"width",r.w,w,eff);
	full(ctx,"height",r.h,h,eff);
	ctx.label(r.w.size() == 1 && r.h.size() == 1 ? "base only" : "with candidates");
	ctx.nontrivial(gen::hash(p)^mix(m,range));
}

// lists of more entries than small integers count
static void longlists(Src& s, Ctx& ctx) {
	int m = (int)s.pick(4);
	const Api& a = apis[s.pick(apis.size())];
	size_t lo = s.chance(80) ? 65536 : 4096, hi = s.chance(80) ? 150000 : 400000;
	std::vector<size_t> smooth; // both backends are quick for these
	for(size_t x = 1; x <= hi; x *= 2) for(size_t y = x; y <= hi; y *= 3) for(size_t z = y; z <= hi; z *= 5) if(z >= lo) smooth.push_back(z);
	std::sort(smooth.begin(),smooth.end());
	size_t w = s.of(smooth), h = s.chance(70) ? 1 : 2+s.upto(1);
	size_t range = s.chance(80) ? 1+s.upto(11) : 1+s.upto(w*h < 100000 ? 40 : 15);
	uint64_t seed = s.upto(0xffffffff);
	bool tall = s.chance(40);
	std::vector<float> p(w*h);
	for(size_t i = 0; i < p.size(); i++) p[i] = (float)(mix(seed,i) >> 40)/(1<<24);
	if(tall) std::swap(w,h);
	Params q; q.given = true; q.range = range; q.threshold = 0;
	ctx.desc(fmt("%s method=%s %zux%zu noise range=%zu",a.name.c_str(),METHODS[m],w,h,range));
	Res r0 = detect(a,p.data(),1,w,h,METHODS[m],q,ctx);
	PBT_CHECK(ctx,r0.e == RDEOK,"error %d",r0.e);
	size_t eff = m == 3 ? 1 : range;
	std::vector<float> cw = full(ctx,"width",r0.w,w,eff), ch = full(ctx,"height",r0.h,h,eff);
	const ResList& src = tall ? r0.h : r0.w;
	float t = s.chance(50) ? src[s.pick(src.size()-1)].confidence : (float)s.upto(1000)/1000;
	q.threshold = t;
	ctx.desc(fmt(" t=%.9g",t));
	Res r = detect(a,p.data(),1,w,h,METHODS[m],q,ctx);
	PBT_CHECK(ctx,r.e == RDEOK,"error %d",r.e);
	selected(ctx,"width",r.w,cw,w,h,eff,t,true);
	selected(ctx,"height",r.h,ch,h,w,eff,t,true);
	ctx.label(src.size() > 65536 ? "more than 65535 entries" : "fewer");
	ctx.nontrivial(mix(seed,w*31+h*7+m));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"lists",lists,45000,900000},
		{"repeated",repeated,12000,200000},
		{"extremes",extremes,20000,300000},
		{"longlists",longlists,160,4000},
	},[]{ apis = load_apis(); });
}
