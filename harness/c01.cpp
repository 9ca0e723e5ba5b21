// C01: every reported confidence equals the documented measure of the image's 2-D DCT.
#include "measures.hpp"
using namespace pbt;
static std::vector<Api> apis;

static void run_case(Src& s, Ctx& ctx, size_t maxd, bool multi) {
	int mi = (int)s.pick(4);
	Params q; q.given = true; q.threshold = 0;
	bool defrange = s.chance(25);
	size_t range = defrange ? 12 : gen::range(s);
	if(!defrange) q.range = range;
	size_t w = gen::dim(s,std::min<size_t>(maxd,220),range), h = gen::dim(s,std::min<size_t>(maxd,220),range);
	if(w*h > maxd*maxd/2 && s.chance(50)) h = 1+s.upto(20);
	if(maxd == 600) { w = 300+s.upto(300); h = 300+s.upto(300); }
	if(maxd > 1000) { w = maxd/5+s.upto(maxd-maxd/5); h = 1+s.upto(23); if(s.chance(50)) std::swap(w,h); }
	size_t nimg = multi ? 1+s.upto(3) : 1;
	std::vector<float> buf;
	std::string kinds;
	model::Both acc;
	for(size_t i = 0; i < nimg; i++) {
		int kind;
		std::vector<float> p = gen::image(s,w,h,&kind);
		kinds += std::string(i ? "," : "") + gen::KINDNAME[kind];
		ctx.label(std::string("kind:") + gen::KINDNAME[kind]);
		buf.insert(buf.end(),p.begin(),p.end());
		model::Both b = model::analyse(p.data(),w,h,range,(model::Method)mi);
		if(i) { model::add(acc.w,b.w); model::add(acc.h,b.h); } else acc = b;
	}
	model::scale(acc.w,nimg); model::scale(acc.h,nimg);
	ctx.desc(fmt("method=%s %zux%zu images=%zu (%s) range=%zu%s",METHODS[mi],w,h,nimg,kinds.c_str(),range,defrange ? " (default)" : ""));
	ctx.label(std::string("method:") + METHODS[mi]);
	for(const Api& a : apis) {
		Res r = detect(a,buf.data(),nimg,w,h,METHODS[mi],q,ctx);
		PBT_CHECK(ctx,r.e == RDEOK,"%s: error %d",a.name.c_str(),r.e);
		check_dim(ctx,a.name,"width",r.w,acc.w,w);
		check_dim(ctx,a.name,"height",r.h,acc.h,h);
	}
	double amb = std::max(acc.w.any ? acc.w.ambiguous : 0,acc.h.any ? acc.h.ambiguous : 0);
	bool positive = false;
	for(auto* d : {&acc.w,&acc.h}) for(auto& c : d->conf) if(c.lo > 0) positive = true;
	ctx.label(amb > .02 ? "ambiguous>2%" : "decided");
	if((acc.w.any || acc.h.any) && positive && amb <= .02) ctx.nontrivial(gen::hash(buf)^mix(w*1000+mi,range));
}

// counts beyond 16 bits: many lines times a long range, a few positions
static void counts(Src& s, Ctx& ctx) {
	int mi = (int)s.weighted({45,45,5,5});
	Params q; q.given = true; q.threshold = 0; q.range = 130+s.upto(70);
	size_t a = 2*q.range+1+s.upto(3), b = 600+s.upto(100);
	bool tall = s.chance(50);
	size_t w = tall ? a : b, h = tall ? b : a;
	Rng r = s.bulk();
	// odd extension about the middle of the long-range dimension, so that most comparisons count
	int flips = (int)s.upto(30);
	size_t c = q.range;
	std::vector<float> p(w*h);
	{
		// one dimension is synthesised, noise along the other
		const auto& t = model::costable(a);
		std::vector<double> v(a), line(a);
		for(size_t k = 0; k < b; k++) {
			for(size_t i = 0; i < a; i++) v[i] = r.gauss();
			for(size_t i = 1; i <= c && c+i < a; i++) v[c-i] = v[c+i]*1.1*((int)r.below(100) < flips ? 1 : -1);
			for(size_t j = 0; j < a; j++) { double x = v[0]/2; for(size_t i = 1; i < a; i++) x += v[i]*(double)t(i,j); line[j] = x/a; }
			for(size_t j = 0; j < a; j++) p[tall ? k*w+j : j*w+k] = (float)line[j];
		}
	}
	ctx.desc(fmt("method=%s %zux%zu range=%zu flips=%d%%",METHODS[mi],w,h,(size_t)q.range,flips));
	ctx.label(std::string("counts, method:") + METHODS[mi]);
	model::Both m = model::analyse(p.data(),w,h,q.range,(model::Method)mi);
	model::scale(m.w,1); model::scale(m.h,1);
	for(const Api& x : apis) {
		Res got = detect(x,p.data(),1,w,h,METHODS[mi],q,ctx);
		PBT_CHECK(ctx,got.e == RDEOK,"%s: error %d",x.name.c_str(),got.e);
		check_dim(ctx,x.name,"width",got.w,m.w,w);
		check_dim(ctx,x.name,"height",got.h,m.h,h);
	}
	bool big = false;
	double amb = std::max(m.w.any ? m.w.ambiguous : 0,m.h.any ? m.h.ambiguous : 0);
	for(auto* d : {&m.w,&m.h}) for(auto& v : d->conf) if(v.lo*q.range*b > 65536) big = true;
	if(big && amb <= .02) ctx.nontrivial(gen::hash(p));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"single",[](Src& s, Ctx& c){ run_case(s,c,72,false); },30000,400000},
		{"sequence",[](Src& s, Ctx& c){ run_case(s,c,40,true); },7000,100000},
		{"large",[](Src& s, Ctx& c){ run_case(s,c,220,false); },700,12000},
		{"elongated",[](Src& s, Ctx& c){ run_case(s,c,2400,false); },500,12000},
		{"huge",[](Src& s, Ctx& c){ run_case(s,c,600,false); },40,1500},
		{"counts",counts,24,500},
	},[]{ apis = load_apis(); });
}
