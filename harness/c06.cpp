// C06: the compression filter.
#include "gen.hpp"
#include <set>
using namespace pbt;
static std::vector<Api> apis;

static std::set<size_t> positions(const ResList& r) { std::set<size_t> s; for(size_t i = 0; i+1 < r.size(); i++) s.insert(r[i].index); return s; }
static std::string list(const std::set<size_t>& s) { std::string o = "{"; for(size_t v : s) o += fmt("%zu ",v); return o + "}"; }

static void dimension(Ctx& ctx, const char* name, const ResList& plain, const ResList& filtered, size_t length, size_t first, int v) {
	// sound part: a subset with unchanged values and order, base entry in place
	PBT_CHECK(ctx,!filtered.empty() && filtered.back().index == length && filtered.back().confidence == -1.f,"%s: base entry missing: %s",name,str(filtered).c_str());
	PBT_CHECK(ctx,filtered.size() <= plain.size(),"%s: filtering added entries: %s from %s",name,str(filtered).c_str(),str(plain).c_str());
	std::set<size_t> seen;
	for(size_t i = 0; i+1 < filtered.size(); i++) {
		PBT_CHECK(ctx,seen.insert(filtered[i].index).second,"%s: %zu twice in %s",name,filtered[i].index,str(filtered).c_str());
		bool found = false;
		for(size_t j = 0; j+1 < plain.size(); j++) if(plain[j].index == filtered[i].index) {
			found = true;
			PBT_CHECK(ctx,!memcmp(&plain[j].confidence,&filtered[i].confidence,sizeof(float)),"%s: filtering changed the confidence of %zu from %.9g to %.9g",name,filtered[i].index,plain[j].confidence,filtered[i].confidence);
		}
		PBT_CHECK(ctx,found,"%s: %zu is not in the unfiltered list %s",name,filtered[i].index,str(plain).c_str());
		PBT_CHECK(ctx,i == 0 || filtered[i-1].confidence >= filtered[i].confidence,"%s: not sorted: %s",name,str(filtered).c_str());
	}
	if(v == 0) { PBT_CHECK(ctx,same(plain,filtered),"%s: filter 0 changed the list from %s to %s",name,str(plain).c_str(),str(filtered).c_str()); return; }
	// location: documented, or the listed deviation
	std::set<size_t> all = positions(plain), got = positions(filtered);
	bool documented = false;
	for(int mode = 0; mode < 4 && !documented; mode++) {
		std::set<size_t> want;
		for(size_t p : all) {
			double k = p*std::ldexp(1.0,v)/length; // in units of the interval
			double step = length/std::ldexp(1.0,v);
			bool hit;
			switch(mode) {
				case 0: hit = std::floor(k) == k; break;                                   // exactly on a multiple
				case 1: hit = std::round(std::round(k)*step) == p; break;                  // nearest position to a multiple
				case 2: hit = std::floor(std::round(k)*step) == p || std::floor(std::ceil(k)*step) == p || std::floor(std::floor(k)*step) == p; break;
				default: hit = std::ceil(std::round(k)*step) == p || std::ceil(std::ceil(k)*step) == p || std::ceil(std::floor(k)*step) == p; break;
			}
			if(!hit) want.insert(p);
		}
		documented = want == got;
	}
	if(documented) { ctx.label("documented"); return; }
	std::set<size_t> deviation;
	for(size_t p : all) if((p-first) % (1ull << v) == 0) deviation.insert(p);
	if(got == deviation) {
		ctx.label("known deviation");
		ctx.known("filter-keeps-instead-of-removes",fmt("%s %zu, filter %d: kept %s of %s, where the positions at intervals of %g were to be removed",name,length,v,list(got).substr(0,80).c_str(),list(all).substr(0,80).c_str(),length/std::ldexp(1.0,v)));
		return;
	}
	ctx.fail(fmt("%s %zu, filter %d: removes neither the documented positions nor those of the listed finding: kept %s of %s",name,length,v,list(got).c_str(),list(all).c_str()));
}

static void filter(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	int m = (int)s.pick(4);
	Params q; q.given = true;
	bool def = s.chance(25);
	size_t range = def ? 12 : gen::range(s,20);
	if(!def) q.range = range;
	switch(s.pick(4)) { case 0: q.threshold = 0; break; case 1: q.threshold = s.upto(100)/100.f; break; case 2: q.threshold = .3f+s.upto(400)/1000.f; break; default: break; }
	size_t w = gen::dim(s,72,range), h = gen::dim(s,72,range), n = s.chance(25) ? 2+s.upto(1) : 1;
	std::vector<float> p;
	for(size_t i = 0; i < n; i++) { auto x = gen::image(s,w,h); p.insert(p.end(),x.begin(),x.end()); }
	int v = s.chance(60) ? (int)s.upto(6) : (int)s.upto(31);
	Params plainq = q;
	q.filter = v;
	ctx.desc(fmt("%s method=%s %zux%zu images=%zu %s",a.name.c_str(),METHODS[m],w,h,n,q.str().c_str()));
	ctx.label(fmt("filter %d",v));
	Res r0 = detect(a,p.data(),n,w,h,METHODS[m],plainq,ctx), r = detect(a,p.data(),n,w,h,METHODS[m],q,ctx);
	PBT_CHECK(ctx,r0.e == RDEOK && r.e == RDEOK,"errors %d %d",r0.e,r.e);
	size_t first = m == 3 ? 1 : range;
	dimension(ctx,"width",r0.w,r.w,w,first,v);
	dimension(ctx,"height",r0.h,r.h,h,first,v);
	// stepwise analysis with the same parameters, one dimension at a time
	if(s.chance(30)) {
		ParamsHandle ph(a,q,ctx);
		RDError e;
		RDAnalysis* an = a.resdet_create_analysis(a.resdet_get_method(METHODS[m]),w,h,ph.p,&e);
		ctx.check(an,"create_analysis failed");
		for(size_t i = 0; i < n; i++) a.resdet_analyze_image(an,p.data()+i*w*h);
		RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 0, ch = 0;
		e = a.resdet_analysis_results(an,&rw,&cw,nullptr,nullptr);
		RDError e2 = a.resdet_analysis_results(an,nullptr,nullptr,&rh,&ch);
		a.resdet_destroy_analysis(an);
		ResList lw(rw,rw+cw), lh(rh,rh+ch);
		free(rw); free(rh);
		PBT_CHECK(ctx,!e && !e2 && same(lw,r.w) && same(lh,r.h),"stepwise results differ: %s / %s, %s / %s",str(lw).c_str(),str(r.w).c_str(),str(lh).c_str(),str(r.h).c_str());
	}
	if(v && r0.w.size()+r0.h.size() > 4) ctx.nontrivial(mix(gen::hash(p),v*10+m)^range);
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"filter",filter,160000,3000000},
	},[]{ apis = load_apis(); });
}
