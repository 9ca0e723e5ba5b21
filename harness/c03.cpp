// C03: histories of analyses. Model: per analysis, the list of accepted images; expected
// confidences are the means of those each image gives alone.
#include "gen.hpp"
#include <limits>
using namespace pbt;
static std::vector<Api> apis;

struct Frame { std::vector<float> px; std::vector<double> cw[4], ch[4]; };   // confidences by index, per method, alone (range of the group)
struct Group { size_t w, h, range; std::vector<Frame> frames; };

struct Model {
	RDAnalysis* an; int group, method; float threshold; int filter;
	std::vector<int> accepted;
};

static void alone(Ctx& ctx, const Api& a, Group& g, Frame& f, int m) {
	if(!f.cw[m].empty()) return;
	Params q; q.given = true; q.range = g.range; q.threshold = 0;
	Res r = detect(a,f.px.data(),1,g.w,g.h,METHODS[m],q,ctx);
	PBT_CHECK(ctx,r.e == RDEOK,"single image: error %d",r.e);
	f.cw[m].assign(g.w+1,-5); f.ch[m].assign(g.h+1,-5);
	for(auto& x : r.w) if(x.index <= g.w) f.cw[m][x.index] = x.confidence;
	for(auto& x : r.h) if(x.index <= g.h) f.ch[m][x.index] = x.confidence;
}

static void compare(Ctx& ctx, const char* what, const ResList& got, const Group& g, const Model& md, size_t length, bool width) {
	PBT_CHECK(ctx,!got.empty() && got.back().index == length && got.back().confidence == -1,"%s: base entry: %s",what,str(got).c_str());
	std::vector<double> mean(length,0);
	for(int f : md.accepted) for(size_t x = 0; x < length; x++) mean[x] += (width ? g.frames[f].cw : g.frames[f].ch)[md.method][x];
	for(auto& v : mean) v /= md.accepted.size();
	float t = md.threshold < 0 ? METHOD_THRESHOLD[md.method] : md.threshold;
	std::vector<char> in(length,0);
	for(size_t i = 0; i+1 < got.size(); i++) {
		size_t x = got[i].index;
		PBT_CHECK(ctx,x < length && !in[x],"%s: index %zu",what,x);
		PBT_CHECK(ctx,i == 0 || got[i-1].confidence >= got[i].confidence,"%s: order: %s",what,str(got).c_str());
		in[x] = 1;
		PBT_CHECK(ctx,std::fabs(got[i].confidence-mean[x]) <= 2e-6,"%s: confidence of %zu is %.9g after %zu images, their mean is %.9g",what,x,got[i].confidence,md.accepted.size(),mean[x]);
	}
	for(size_t x = 0; x < length; x++) {
		if(mean[x] >= t+2e-6) PBT_CHECK(ctx,in[x],"%s: %zu missing: mean %.9g over %zu images, threshold %.9g: %s",what,x,mean[x],md.accepted.size(),t,str(got).c_str());
		if(mean[x] < t-2e-6) PBT_CHECK(ctx,!in[x],"%s: %zu present: mean %.9g over %zu images, threshold %.9g",what,x,mean[x],md.accepted.size(),t);
	}
}

static void history(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	std::vector<Group> groups(1+s.upto(1));
	size_t maxd = ctx.thorough() ? 48 : 32;
	for(auto& g : groups) {
		g.range = s.chance(20) ? 12 : 1+s.upto(7);
		g.w = gen::dim(s,maxd,g.range); g.h = gen::dim(s,maxd,g.range);
		g.frames.resize(1+s.upto(3));
		for(auto& f : g.frames) f.px = gen::image(s,g.w,g.h);
		ctx.desc(fmt("{%zux%zu range %zu, %zu images} ",g.w,g.h,g.range,g.frames.size()));
	}
	std::vector<Model> live;
	int ops = 2+(int)s.upto(ctx.thorough() ? 40 : 24), multi = 0, prelim = 0, rejected = 0, results = 0;
	uint64_t h = 0;
	for(int i = 0; i < ops; i++) {
		size_t k = live.empty() ? 0 : s.pick(live.size());
		int op = live.empty() ? 0 : (int)s.weighted({8,45,9,25,7,6});
		if(op == 0 && live.size() >= 4) op = 1;
		switch(op) {
			case 0: {
				Model m; m.group = (int)s.pick(groups.size()); m.method = (int)s.pick(4);
				Group& g = groups[m.group];
				Params q; q.given = true; q.range = g.range;
				q.threshold = s.chance(40) ? 0 : s.chance(30) ? -1 : (float)s.upto(80)/100;
				m.threshold = q.threshold;
				ParamsHandle* ph = new ParamsHandle(a,q,ctx);
				RDError e = 1234;
				bool null_method = m.method == 0 && s.chance(30), null_error = s.chance(20);
				m.an = a.resdet_create_analysis(null_method ? nullptr : a.resdet_get_method(METHODS[m.method]),g.w,g.h,ph->p,null_error ? nullptr : &e);
				PBT_CHECK(ctx,m.an && (null_error || e == RDEOK),"create: %p, %d",(void*)m.an,e);
				// the parameters were copied: whatever happens to them now is without effect
				if(s.chance(60)) {
					PBT_CHECK(ctx,a.resdet_parameters_set_range(ph->p,1+s.upto(30)) == RDEOK,"set_range");
					PBT_CHECK(ctx,a.resdet_parameters_set_threshold(ph->p,(float)s.upto(100)/100) == RDEOK,"set_threshold");
					PBT_CHECK(ctx,a.resdet_parameters_set_compression_filter(ph->p,3) == RDEOK,"set_filter");
				}
				delete ph;
				ctx.desc(fmt("a%zu=new(g%d,%s,t=%.9g); ",live.size(),m.group,METHODS[m.method],q.threshold));
				live.push_back(m);
				break;
			}
			case 1: {
				Model& m = live[k]; Group& g = groups[m.group];
				int f = (int)s.pick(g.frames.size());
				alone(ctx,a,g,g.frames[f],m.method);
				std::vector<float> copy = g.frames[f].px;
				RDError e = a.resdet_analyze_image(m.an,copy.data());
				ctx.desc(fmt("a%zu+=%d; ",k,f));
				PBT_CHECK(ctx,e == RDEOK,"analyze: %d",e);
				PBT_CHECK(ctx,!memcmp(copy.data(),g.frames[f].px.data(),copy.size()*sizeof(float)),"analyze changed the caller's image");
				m.accepted.push_back(f);
				h = mix(h,k*64+f);
				break;
			}
			case 2: { // rejected images
				Model& m = live[k]; Group& g = groups[m.group];
				if(s.chance(25)) {
					RDError e = a.resdet_analyze_image(m.an,nullptr);
					PBT_CHECK(ctx,e == RDEPARAM,"analyze(NULL) -> %d",e);
					ctx.desc(fmt("a%zu+=NULL; ",k));
				}
				else {
					std::vector<float> copy = g.frames[s.pick(g.frames.size())].px;
					static const float bad[] = {std::numeric_limits<float>::quiet_NaN(),std::numeric_limits<float>::infinity(),-std::numeric_limits<float>::infinity()};
					size_t at = s.pick(copy.size());
					if(s.chance(30)) at = copy.size()-1;
					copy[at] = bad[s.pick(3)];
					RDError e = a.resdet_analyze_image(m.an,copy.data());
					PBT_CHECK(ctx,e == RDEINVAL,"non-finite pixel %zu -> %d",at,e);
					ctx.desc(fmt("a%zu+=nonfinite; ",k));
				}
				if(!m.accepted.empty()) rejected++;
				h = mix(h,777+k);
				break;
			}
			case 3: {
				Model& m = live[k]; Group& g = groups[m.group];
				Out o;
				RDError e = a.resdet_analysis_results(m.an,&o.rw,&o.cw,&o.rh,&o.ch);
				ctx.desc(fmt("results(a%zu); ",k));
				if(m.accepted.empty()) { PBT_CHECK(ctx,e == RDENOIMG,"results without images -> %d",e); o.take(e,ctx); break; }
				PBT_CHECK(ctx,e == RDEOK,"results: %d",e);
				Res r = o.take(e,ctx);
				compare(ctx,"width",r.w,g,m,g.w,true);
				compare(ctx,"height",r.h,g,m,g.h,false);
				results++;
				if(m.accepted.size() > 1) multi++;
				prelim++;
				break;
			}
			case 4: { // the one-call function over the same images agrees
				Model& m = live[k]; Group& g = groups[m.group];
				if(m.accepted.empty()) break;
				std::vector<float> all;
				for(int f : m.accepted) all.insert(all.end(),g.frames[f].px.begin(),g.frames[f].px.end());
				Params q; q.given = true; q.range = g.range; q.threshold = m.threshold;
				Res r = detect(a,all.data(),m.accepted.size(),g.w,g.h,METHODS[m.method],q,ctx);
				PBT_CHECK(ctx,r.e == RDEOK,"resdetect: %d",r.e);
				Out o;
				RDError e = a.resdet_analysis_results(m.an,&o.rw,&o.cw,&o.rh,&o.ch);
				Res t = o.take(e,ctx);
				ctx.desc(fmt("bulk(a%zu); ",k));
				PBT_CHECK(ctx,same(r.w,t.w) && same(r.h,t.h),"one call: %s / %s, step by step: %s / %s",str(r.w).c_str(),str(r.h).c_str(),str(t.w).c_str(),str(t.h).c_str());
				compare(ctx,"width",r.w,g,m,g.w,true);
				break;
			}
			case 5: {
				a.resdet_destroy_analysis(live[k].an);
				live.erase(live.begin()+k);
				ctx.desc(fmt("destroy(a%zu); ",k));
				break;
			}
		}
	}
	for(auto& m : live) {
		Group& g = groups[m.group];
		if(!m.accepted.empty()) {
			Out o;
			Res r = o.take(a.resdet_analysis_results(m.an,&o.rw,&o.cw,&o.rh,&o.ch),ctx);
			PBT_CHECK(ctx,r.e == RDEOK,"final results: %d",r.e);
			compare(ctx,"final width",r.w,g,m,g.w,true);
			compare(ctx,"final height",r.h,g,m,g.h,false);
			if(m.accepted.size() > 1) multi++;
		}
		a.resdet_destroy_analysis(m.an);
	}
	a.resdet_destroy_analysis(nullptr);
	if(multi) ctx.label("history with results over several images");
	if(rejected) ctx.label("history with a rejected image between accepted ones");
	if(prelim && multi) ctx.label("history with preliminary results");
	if(multi) ctx.nontrivial(h^gen::hash(groups[0].frames[0].px));
}

// a rejected image anywhere in a bulk call makes the call fail without results
static void bulk_reject(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	size_t w = 1+s.upto(20), h = 1+s.upto(20), n = 1+s.upto(4);
	std::vector<float> p;
	for(size_t i = 0; i < n; i++) { auto q = gen::image(s,w,h); p.insert(p.end(),q.begin(),q.end()); }
	bool bad = s.chance(60);
	size_t at = s.pick(p.size());
	// finite pixels are accepted no matter how large, also where their sum is not finite
	bool huge = s.chance(15);
	if(huge) { float by = s.chance(50) ? 3.4e38f : 1e36f; float top = 0; for(float v : p) top = std::max(top,std::fabs(v)); for(auto& v : p) v = top > 0 ? v/top*by : by; }
	if(bad) p[at] = s.chance(50) ? NAN : s.chance(50) ? INFINITY : -INFINITY;
	Params q; q.given = true; q.range = 1+s.upto(4); q.threshold = 0;
	int m = (int)s.pick(4);
	ctx.desc(fmt("%s %s %zux%zux%zu %s",a.name.c_str(),METHODS[m],w,h,n,bad ? fmt("non-finite at %zu",at).c_str() : huge ? "huge" : "finite"));
	Res r = detect(a,p.data(),n,w,h,METHODS[m],q,ctx);
	PBT_CHECK(ctx,r.e == (bad ? RDEINVAL : RDEOK),"error %d",r.e);
	// no matter which of the lists are wanted
	{
		ParamsHandle ph(a,q,ctx);
		Out o; bool ww = s.chance(40), hh = s.chance(40);
		RDError e = a.resdetect(p.data(),n,w,h,ww ? &o.rw : nullptr,ww || s.chance(50) ? &o.cw : nullptr,hh ? &o.rh : nullptr,hh || s.chance(50) ? &o.ch : nullptr,a.resdet_get_method(METHODS[m]),ph.p);
		if(!ww) o.rw = nullptr;
		if(!hh) o.rh = nullptr;
		bool lists = o.rw || o.rh;
		if(e || bad) { PBT_CHECK(ctx,e == r.e && !lists,"error %d%s with width %d and height %d wanted, otherwise %d",e,lists ? " and a list" : "",ww,hh,r.e); }
		else {
			PBT_CHECK(ctx,!!o.rw == ww && !!o.rh == hh,"lists %p %p with width %d and height %d wanted",(void*)o.rw,(void*)o.rh,ww,hh);
			if(ww) PBT_CHECK(ctx,same(r.w,ResList(o.rw,o.rw+o.cw)),"another list of widths when height is %swanted",hh ? "" : "not ");
			if(hh) PBT_CHECK(ctx,same(r.h,ResList(o.rh,o.rh+o.ch)),"another list of heights when width is %swanted",ww ? "" : "not ");
			free(o.rw); free(o.rh);
		}
	}
	ctx.label(bad ? "bulk with a non-finite pixel" : huge ? "bulk of huge pixels" : "bulk");
	ctx.nontrivial(gen::hash(p));
}

// long sequences
static void longseq(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	static const size_t N[] = {100,127,128,129,255,256,257,258,300,512,1000,65535,65536,65537,70000};
	size_t n = N[s.pick(ctx.thorough() || s.chance(10) ? 15 : 11)];
	Group g; g.range = 1; g.w = 3+s.upto(4); g.h = 3+s.upto(4);
	g.frames.resize(2+s.upto(2));
	for(auto& f : g.frames) f.px = gen::image(s,g.w,g.h,nullptr,gen::NOISE);
	Model m; m.method = (int)s.pick(4); m.threshold = 0; m.group = 0;
	for(auto& f : g.frames) alone(ctx,a,g,f,m.method);
	Params q; q.given = true; q.range = 1; q.threshold = 0;
	ParamsHandle ph(a,q,ctx);
	RDError e;
	m.an = a.resdet_create_analysis(a.resdet_get_method(METHODS[m.method]),g.w,g.h,ph.p,&e);
	PBT_CHECK(ctx,m.an && !e,"create %d",e);
	ctx.desc(fmt("%s %s %zux%zu, %zu images",a.name.c_str(),METHODS[m.method],g.w,g.h,n));
	Rng r = s.bulk();
	for(size_t i = 0; i < n; i++) {
		int f = (int)r.below(g.frames.size());
		e = a.resdet_analyze_image(m.an,g.frames[f].px.data());
		PBT_CHECK(ctx,e == RDEOK,"image %zu: %d",i,e);
		m.accepted.push_back(f);
	}
	Out o;
	Res res = o.take(a.resdet_analysis_results(m.an,&o.rw,&o.cw,&o.rh,&o.ch),ctx);
	PBT_CHECK(ctx,res.e == RDEOK,"results %d",res.e);
	compare(ctx,"width",res.w,g,m,g.w,true);
	compare(ctx,"height",res.h,g,m,g.h,false);
	a.resdet_destroy_analysis(m.an);
	ctx.nontrivial(gen::hash(g.frames[0].px)^n);
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"history",history,60000,1000000},
		{"long",longseq,1000,15000},
		{"bulk",bulk_reject,10000,100000},
	},[]{ apis = load_apis(); });
}
