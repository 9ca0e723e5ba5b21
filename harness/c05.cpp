// C05: metamorphic relations between detections: transposition, scaling, negation, repetition, mirroring.
#include "gen.hpp"
using namespace pbt;
static std::vector<Api> apis;

// complete lists by position
static std::vector<double> table(Ctx& ctx, const ResList& r, size_t length) {
	PBT_CHECK(ctx,!r.empty() && r.back().index == length,"bad list %s",str(r).c_str());
	std::vector<double> c(length,-2);
	for(size_t i = 0; i+1 < r.size(); i++) {
		PBT_CHECK(ctx,r[i].index < length && c[r[i].index] == -2,"bad index in %s",str(r).c_str());
		c[r[i].index] = r[i].confidence;
	}
	return c;
}
// each confidence may move only by the share of comparisons that rounding can decide either way
static void close_to(Ctx& ctx, const std::string& what, const std::vector<double>& a, const std::vector<double>& b, const model::Dim& m, double widen) {
	PBT_CHECK(ctx,a.size() == b.size(),"%s: sizes differ",what.c_str());
	for(size_t i = 0; i < a.size(); i++) {
		double tol = 2e-6;
		if(m.any && i >= m.first && i < m.last) tol += widen*(m.conf[i-m.first].hi-m.conf[i-m.first].lo);
		PBT_CHECK(ctx,std::fabs(a[i]-b[i]) <= tol,"%s: confidence of position %zu is %.9g, but %.9g for the original image",what.c_str(),i,b[i],a[i]);
	}
}
static bool exact(const ResList& a, const ResList& b) { // same entries; ties may come in any order
	if(a.size() != b.size()) return false;
	auto key = [](const RDResolution& x, const RDResolution& y){ return x.index < y.index; };
	ResList p = a, q = b;
	std::sort(p.begin(),p.end(),key); std::sort(q.begin(),q.end(),key);
	return same(p,q);
}

static void relations(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	int m = (int)s.pick(4);
	Params q; q.given = true; q.threshold = 0;
	bool def = s.chance(30);
	size_t range = def ? 12 : gen::range(s);
	if(!def) q.range = range;
	size_t w = gen::dim(s,64,range), h = gen::dim(s,64,range);
	int kind;
	std::vector<float> p = gen::image(s,w,h,&kind);
	ctx.desc(fmt("%s method=%s %zux%zu %s range=%zu",a.name.c_str(),METHODS[m],w,h,gen::KINDNAME[kind],range));
	ctx.label(std::string("method:") + METHODS[m]);
	std::vector<float> orig = p;
	Res r0 = detect(a,p.data(),1,w,h,METHODS[m],q,ctx);
	PBT_CHECK(ctx,r0.e == RDEOK,"error %d",r0.e);
	PBT_CHECK(ctx,!memcmp(p.data(),orig.data(),w*h*sizeof(float)),"detection modified the caller's pixels");
	auto cw = table(ctx,r0.w,w), ch = table(ctx,r0.h,h);
	model::Both mod = model::analyse(p.data(),w,h,range,(model::Method)m);
	std::vector<float> t(w*h);
	auto run = [&](const std::vector<float>& img, size_t W, size_t H) {
		std::vector<float> copy = img;
		Res r = detect(a,copy.data(),1,W,H,METHODS[m],q,ctx);
		PBT_CHECK(ctx,r.e == RDEOK,"error %d on the transformed image",r.e);
		PBT_CHECK(ctx,!memcmp(copy.data(),img.data(),img.size()*sizeof(float)),"detection modified the caller's pixels");
		return r;
	};
	int which = (int)s.pick(7);
	static const char* const REL[] = {"transpose","power of two","constant","negate","repeat","mirror","mirror+transpose"};
	ctx.desc(fmt(" relation: %s",REL[which]));
	ctx.label(std::string("relation:") + REL[which]);
	float maxabs = 0, minabs = 1e30f;
	for(float v : p) { float x = std::fabs(v); maxabs = std::max(maxabs,x); if(x > 0) minabs = std::min(minabs,x); }
	switch(which) {
		case 0: {
			for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) t[x*h+y] = p[y*w+x];
			Res r = run(t,h,w);
			close_to(ctx,"transposed, width",cw,table(ctx,r.h,w),mod.w,1);
			close_to(ctx,"transposed, height",ch,table(ctx,r.w,h),mod.h,1);
			break;
		}
		case 1: {
			int e = (int)s.range(1,40);
			if(m != 1 && s.chance(50)) e = -e;
			ctx.desc(fmt(" 2^%d",e));
			if(std::ldexp(maxabs,e) > 1e15f || (minabs < 1e30f && std::ldexp(minabs,e) < 1e-15f) || kind == gen::CONSTANT || kind == gen::SMOOTH || kind == gen::SPARSE) { // denormal intermediate values could round differently
				for(size_t i = 0; i < w*h; i++) t[i] = -p[i];
				e = 0;
			}
			else for(size_t i = 0; i < w*h; i++) t[i] = std::ldexp(p[i],e);
			Res r = run(t,w,h);
			if(m == 1 || e == 0) {
				close_to(ctx,"scaled, width",cw,table(ctx,r.w,w),mod.w,1);
				close_to(ctx,"scaled, height",ch,table(ctx,r.h,h),mod.h,1);
			}
			else {
				PBT_CHECK(ctx,exact(r0.w,r.w),"scaling by 2^%d changed the width results: %s, was %s",e,str(r.w).c_str(),str(r0.w).c_str());
				PBT_CHECK(ctx,exact(r0.h,r.h),"scaling by 2^%d changed the height results: %s, was %s",e,str(r.h).c_str(),str(r0.h).c_str());
			}
			break;
		}
		case 2: {
			float c = (float)(s.chance(50) ? -1 : 1)*(1+s.upto(1000)/97.f);
			ctx.desc(fmt(" %g",c));
			for(size_t i = 0; i < w*h; i++) t[i] = p[i]*c;
			// rounding of the products moves coefficients by about as much as the transform's own rounding
			Res r = run(t,w,h);
			model::Precision wide; wide.eps *= 4;
			model::Both mw = model::analyse(p.data(),w,h,range,(model::Method)m,wide);
			close_to(ctx,"multiplied, width",cw,table(ctx,r.w,w),mw.w,1);
			close_to(ctx,"multiplied, height",ch,table(ctx,r.h,h),mw.h,1);
			break;
		}
		case 3: {
			for(size_t i = 0; i < w*h; i++) t[i] = -p[i];
			Res r = run(t,w,h);
			close_to(ctx,"negated, width",cw,table(ctx,r.w,w),mod.w,1);
			close_to(ctx,"negated, height",ch,table(ctx,r.h,h),mod.h,1);
			break;
		}
		case 4: {
			size_t n = 2+s.upto(4);
			ctx.desc(fmt(" %zu times",n));
			std::vector<float> big;
			for(size_t i = 0; i < n; i++) big.insert(big.end(),p.begin(),p.end());
			Res r = detect(a,big.data(),n,w,h,METHODS[m],q,ctx);
			PBT_CHECK(ctx,r.e == RDEOK,"error %d",r.e);
			close_to(ctx,"repeated, width",cw,table(ctx,r.w,w),mod.w,0);
			close_to(ctx,"repeated, height",ch,table(ctx,r.h,h),mod.h,0);
			break;
		}
		default: {
			bool fx = s.chance(50), fy = !fx || s.chance(50);
			ctx.desc(fmt(" x=%d y=%d",fx,fy));
			for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) {
				size_t i = (fy ? h-1-y : y)*w+(fx ? w-1-x : x);
				if(which == 6) t[x*h+y] = p[i]; else t[y*w+x] = p[i];
			}
			Res r = which == 6 ? run(t,h,w) : run(t,w,h);
			if(which == 6) std::swap(r.w,r.h);
			// zerox compares with the middle coefficient, whose sign alternates under mirroring along the same axis
			if(m != 3 || !fx) close_to(ctx,"mirrored, width",cw,table(ctx,r.w,w),mod.w,1);
			if(m != 3 || !fy) close_to(ctx,"mirrored, height",ch,table(ctx,r.h,h),mod.h,1);
			break;
		}
	}
	bool pos = false;
	for(double v : cw) if(v > 0) pos = true;
	for(double v : ch) if(v > 0) pos = true;
	double amb = std::max(mod.w.any ? mod.w.ambiguous : 0,mod.h.any ? mod.h.ambiguous : 0);
	if(pos && amb < .02) ctx.nontrivial(mix(gen::hash(p),m*100+which)^range);
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"relations",relations,100000,1800000},
	},[]{ apis = load_apis(); });
}
