// C07: parameters, arguments and error reporting.
#include "gen.hpp"
#include "bigspace.hpp"
#include <cerrno>
#include <set>
#include <unistd.h>
#include <climits>
#include <sys/stat.h>
using namespace pbt;
static std::vector<Api> apis;

static std::string file(Ctx& ctx, const std::string& name, const std::string& data) {
	std::string p = ctx.scratch() + "/" + name;
	FILE* f = fopen(p.c_str(),"wb");
	fwrite(data.data(),1,data.size(),f);
	fclose(f);
	return p;
}
static std::string pgm(Src& s, size_t w, size_t h) {
	std::string d = fmt("P5\n%zu %zu\n255\n",w,h);
	Rng r = s.bulk();
	for(size_t i = 0; i < w*h; i++) d += (char)r.below(256);
	return d;
}
static std::string pfm(size_t w, size_t h) { return fmt("Pf\n%zu %zu\n-1\n",w,h) + std::string(w*h*4,'\0'); }
static void message(Ctx& ctx, const Api& a, RDError e) {
	const char* m = a.resdet_error_str(e);
	PBT_CHECK(ctx,m && (e == 0 || *m),"no message for error %d",e);
}

// setter histories against a model; the effect is observed through detection
static void setters(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	RDParameters* p = a.resdet_alloc_default_parameters();
	ctx.check(p,"no parameters");
	Params model; model.given = true;
	int n = 1+(int)s.upto(7), refused = 0;
	ctx.desc(a.name + ": ");
	for(int i = 0; i < n; i++) {
		RDError e, want;
		switch(s.pick(3)) {
			case 0: {
				size_t v;
				v = s.chance(20) ? 0 : gen::anysize(s);
				e = a.resdet_parameters_set_range(p,v); want = v ? RDEOK : RDEPARAM;
				ctx.desc(fmt("range %zu, ",v));
				if(v) model.range = v;
				break;
			}
			case 1: {
				float v;
				switch(s.pick(6)) {
					case 0: v = s.chance(70) ? s.upto(100)/100.f : 0; break;
					case 1: { static const float x[] = {0,1,-0.f,1e-45f,-1e-45f,1.0000001f,.99999994f,-1,2,1e30f}; v = x[s.pick(10)]; break; }
					case 2: { static const float x[] = {INFINITY,-INFINITY,NAN,-NAN}; v = x[s.pick(4)]; break; }
					case 3: { uint32_t b = (uint32_t)s.upto(UINT32_MAX); memcpy(&v,&b,4); break; }
					case 4: v = 1+s.upto(1000)/100.f; break;
					default: v = -(float)s.upto(1000)/100.f; break;
				}
				e = a.resdet_parameters_set_threshold(p,v); want = v >= 0 && v <= 1 ? RDEOK : RDEPARAM;
				ctx.desc(fmt("threshold %.9g, ",v));
				if(!want) model.threshold = v == 0 ? 0 : v;
				break;
			}
			default: {
				uint8_t v = (uint8_t)(s.chance(50) ? s.upto(255) : s.chance(50) ? s.upto(5) : 28+s.upto(8));
				e = a.resdet_parameters_set_compression_filter(p,v); want = v <= 31 ? RDEOK : RDEPARAM;
				ctx.desc(fmt("filter %u, ",v));
				if(!want) model.filter = v;
				break;
			}
		}
		if(want) refused++;
		if(e != want) { free(p); ctx.fail(fmt("setter returned %d, expected %d",e,want)); }
	}
	size_t w = gen::dim(s,40,12), h = gen::dim(s,40,12);
	std::vector<float> img = gen::image(s,w,h,nullptr,gen::NOISE);
	int m = (int)s.pick(4);
	Out o;
	RDError e = a.resdetect(img.data(),1,w,h,&o.rw,&o.cw,&o.rh,&o.ch,a.resdet_get_method(METHODS[m]),p);
	free(p);
	Res r = o.take(e,ctx);
	Res want = detect(a,img.data(),1,w,h,METHODS[m],model,ctx);
	PBT_CHECK(ctx,r.e == 0 && want.e == 0 && same(r.w,want.w) && same(r.h,want.h),"results with the parameters after these calls are not those for the accepted values (%s): %s %s, expected %s %s",model.str().c_str(),str(r.w).c_str(),str(r.h).c_str(),str(want.w).c_str(),str(want.h).c_str());
	// the accepted range, independently of the library
	size_t range = m == 3 ? 1 : model.range ? model.range : 12;
	for(auto& d : {std::make_pair(w,&r.w),std::make_pair(h,&r.h)}) {
		size_t candidates = (unsigned __int128)range*2 >= d.first ? 0 : d.first-2*range;
		PBT_CHECK(ctx,d.second->size() <= candidates+1,"%zu entries, range %zu leaves %zu positions of %zu: %s",d.second->size(),range,candidates,d.first,str(*d.second).c_str());
		if(model.threshold == 0 && model.filter <= 0) PBT_CHECK(ctx,d.second->size() == candidates+1,"%zu entries at threshold 0, range %zu leaves %zu positions of %zu: %s",d.second->size(),range,candidates,d.first,str(*d.second).c_str());
	}
	if(n > 1 && refused) ctx.nontrivial(hash_bytes(ctx.description.data(),ctx.description.size()));
	ctx.label(refused ? "setters: some refused" : "setters: all accepted");
}

// argument combinations of every call: some of them bad; the error must be one that applies
static void arguments(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	size_t w = 1+s.upto(30), h = 1+s.upto(30);
	std::vector<float> img = gen::image(s,w,h,nullptr,gen::NOISE);
	ParamsHandle ph(a,Params(),ctx);
	std::set<int> want; // empty: success
	RDMethod* m = a.resdet_get_method(METHODS[s.pick(4)]);
	if(s.chance(30)) m = nullptr;
	int call = (int)s.pick(8);
	Out o;
	RDError e = 12345;
	bool wh = s.chance(70);
	auto outs = [&](RDResolution**& rw, size_t*& cw, RDResolution**& rh, size_t*& ch) {
		rw = s.chance(80) ? &o.rw : nullptr; cw = s.chance(80) ? &o.cw : nullptr;
		rh = s.chance(80) ? &o.rh : nullptr; ch = s.chance(80) ? &o.ch : nullptr;
		if((rw && !cw) || (rh && !ch)) want.insert(RDEPARAM);
		if(!rw) o.rw = nullptr;
		if(!rh) o.rh = nullptr;
	};
	auto verify = [&](RDResolution** rw, size_t* cw, RDResolution** rh, size_t* ch) {
		if(want.empty()) {
			PBT_CHECK(ctx,e == RDEOK,"valid call gave error %d",e);
			if(rw) { PBT_CHECK(ctx,o.rw && *cw >= 1 && o.rw[*cw-1].index == w && o.rw[*cw-1].confidence == -1,"width list missing"); free(o.rw); }
			else if(cw) PBT_CHECK(ctx,*cw == 0,"count %zu of skipped widths",*cw);
			if(rh) { PBT_CHECK(ctx,o.rh && *ch >= 1 && o.rh[*ch-1].index == h && o.rh[*ch-1].confidence == -1,"height list missing"); free(o.rh); }
			else if(ch) PBT_CHECK(ctx,*ch == 0,"count %zu of skipped heights",*ch);
		}
		else {
			PBT_CHECK(ctx,want.count(e),"error %d, which none of the bad arguments calls for",e);
			message(ctx,a,e);
			PBT_CHECK(ctx,(!rw || !*rw) && (!rh || !*rh) && (!cw || !*cw) && (!ch || !*ch),"outputs not nulled: %p %zu %p %zu",(void*)o.rw,cw ? *cw : 0,(void*)o.rh,ch ? *ch : 0);
		}
	};
	RDResolution** rw,** rh; size_t* cw,* ch;
	switch(call) {
		case 0: { // resdetect
			outs(rw,cw,rh,ch);
			float* im = s.chance(80) ? img.data() : nullptr; if(!im) want.insert(RDEPARAM);
			size_t n = s.chance(80) ? 1 : 0; if(!n) want.insert(RDENOIMG);
			size_t W = w, H = h;
			if(s.chance(20)) { (s.chance(50) ? W : H) = 0; want.insert(RDEINVAL); }
			if(s.chance(20)) { static const float bad[] = {NAN,INFINITY,-INFINITY}; img[s.pick(img.size())] = bad[s.pick(3)]; want.insert(RDEINVAL); ctx.desc("non-finite "); }
			ctx.desc(fmt("resdetect(%s,%zu,%zu,%zu,%d,%d,%d,%d)",im ? "img" : "NULL",n,W,H,!!rw,!!cw,!!rh,!!ch));
			e = a.resdetect(im,n,W,H,rw,cw,rh,ch,m,nullptr);
			verify(rw,cw,rh,ch);
			break;
		}
		case 1: { // resdetect_file
			outs(rw,cw,rh,ch);
			std::string f = file(ctx,"a.pgm",pgm(s,w,h)), name = f; const char* type = nullptr;
			switch(s.pick(5)) {
				case 0: name = ctx.scratch() + "/missing.pgm"; want.insert(-ENOENT); break;
				case 1: name = ctx.scratch() + "/a.pgm/x.pgm"; want.insert(-ENOTDIR); break;
				case 2: file(ctx,"bad.pgm","P5\n3 x\n"); name = ctx.scratch() + "/bad.pgm"; want.insert(RDEINVAL); break;
				case 3: type = "pgm"; break;
				default: break;
			}
			const char* fn = s.chance(90) ? name.c_str() : nullptr; if(!fn) want.insert(RDEPARAM);
			ctx.desc(fmt("resdetect_file(%s,%s,%d,%d,%d,%d)",fn ? fn : "NULL",type ? type : "NULL",!!rw,!!cw,!!rh,!!ch));
			e = a.resdetect_file(fn,type,rw,cw,rh,ch,m,nullptr);
			verify(rw,cw,rh,ch);
			break;
		}
		case 2: case 3: { // create_analysis, analyze_image, analysis_results
			size_t W = w, H = h;
			if(s.chance(25)) { (s.chance(50) ? W : H) = 0; want.insert(RDEINVAL); }
			e = 12345;
			bool ep = s.chance(70);
			ctx.desc(fmt("create_analysis(%zu,%zu,%s)",W,H,ep ? "&e" : "NULL"));
			RDAnalysis* an = a.resdet_create_analysis(m,W,H,nullptr,ep ? &e : nullptr);
			if(!want.empty()) { PBT_CHECK(ctx,!an,"analysis for %zux%zu",W,H); if(ep) PBT_CHECK(ctx,want.count(e),"error %d",e); break; }
			PBT_CHECK(ctx,an && (!ep || e == RDEOK),"create_analysis: %p %d",(void*)an,e);
			int images = 0;
			for(int i = (int)s.upto(2); i > 0; i--) {
				std::vector<float> x = img;
				float* im = x.data(); RDAnalysis* t = an; RDError we = RDEOK;
				switch(s.pick(5)) { case 0: im = nullptr; we = RDEPARAM; break; case 1: t = nullptr; we = RDEPARAM; break; case 2: { static const float bad[] = {NAN,INFINITY,-INFINITY}; x[s.pick(x.size())] = bad[s.pick(3)]; we = RDEINVAL; break; } default: images++; break; }
				RDError g = a.resdet_analyze_image(t,im);
				PBT_CHECK(ctx,g == we,"analyze_image gave %d, expected %d",g,we);
			}
			outs(rw,cw,rh,ch);
			if(!images) want.insert(RDENOIMG);
			RDAnalysis* t = s.chance(85) ? an : nullptr; if(!t) want.insert(RDEPARAM);
			ctx.desc(fmt(" images=%d results(%s,%d,%d,%d,%d)",images,t ? "an" : "NULL",!!rw,!!cw,!!rh,!!ch));
			e = a.resdet_analysis_results(t,rw,cw,rh,ch);
			verify(rw,cw,rh,ch);
			a.resdet_destroy_analysis(an);
			a.resdet_destroy_analysis(nullptr);
			break;
		}
		case 4: case 5: { // open, read, seek
			std::string f = file(ctx,"a.pgm",pgm(s,w,h)), name = f;
			bool withreader = call == 5;
			const char* kind = withreader ? "PGM" : nullptr;
			size_t W = 777, H = 777; float* buf = (float*)(uintptr_t)0x5a5a5a50;
			switch(s.pick(6)) {
				case 0: name = ctx.scratch() + "/missing.pgm"; want.insert(-ENOENT); break;
				case 1: file(ctx,"bad.pgm","P5\n"); name = ctx.scratch() + "/bad.pgm"; want.insert(RDEINVAL); break;
				case 2: if(withreader) { kind = "no such reader"; want.insert(RDEUNSUPP); } else kind = "image/x-portable-graymap"; break;
				case 3: if(withreader) { kind = nullptr; want.insert(RDEPARAM); } break;
				default: break;
			}
			const char* fn = s.chance(90) ? name.c_str() : nullptr; if(!fn) want.insert(RDEPARAM);
			size_t* pw = s.chance(90) ? &W : nullptr,* phh = s.chance(90) ? &H : nullptr; if(!pw || !phh) want.insert(RDEPARAM);
			float** pb = s.chance(60) ? &buf : nullptr;
			bool ep = s.chance(70);
			ctx.desc(fmt("open%s(%s,%s,%d,%d,%d,%d)",withreader ? "_with_reader" : "",fn ? fn : "NULL",kind ? kind : "NULL",!!pw,!!phh,!!pb,ep));
			RDImage* im = withreader ? a.resdet_open_image_with_reader(fn,kind,pw,phh,pb,ep ? &e : nullptr) : a.resdet_open_image(fn,kind,pw,phh,pb,ep ? &e : nullptr);
			if(!want.empty()) {
				PBT_CHECK(ctx,!im,"opened");
				PBT_CHECK(ctx,!ep || want.count(e),"error %d",e);
				if(ep) message(ctx,a,e);
				PBT_CHECK(ctx,(!pw || !W) && (!phh || !H) && (!pb || !buf),"outputs not nulled: %zu %zu %p",W,H,(void*)buf);
				break;
			}
			PBT_CHECK(ctx,im && (!ep || e == RDEOK) && W == w && H == h && (!pb || (buf && buf != (float*)(uintptr_t)0x5a5a5a50)),"open: %p %d %zux%zu %p",(void*)im,e,W,H,(void*)buf);
			std::vector<float> own(w*h);
			float* dst = pb ? buf : own.data();
			e = 12345;
			bool ok;
			ok = a.resdet_read_image_frame(im,nullptr,ep ? &e : nullptr); PBT_CHECK(ctx,!ok && (!ep || e == RDEPARAM),"read into NULL: %d %d",ok,e);
			ok = a.resdet_read_image_frame(nullptr,dst,ep ? &e : nullptr); PBT_CHECK(ctx,!ok && (!ep || e == RDEPARAM),"read from NULL: %d %d",ok,e);
			ok = a.resdet_seek_frame(nullptr,0,nullptr,nullptr,ep ? &e : nullptr); PBT_CHECK(ctx,!ok && (!ep || e == RDEPARAM),"seek in NULL: %d %d",ok,e);
			e = 12345;
			ok = a.resdet_seek_frame(im,0,nullptr,nullptr,ep ? &e : nullptr); PBT_CHECK(ctx,ok && (!ep || e == RDEOK),"seek by 0: %d %d",ok,e);
			e = 12345;
			ok = a.resdet_read_image_frame(im,dst,ep ? &e : nullptr); PBT_CHECK(ctx,ok && (!ep || e == RDEOK),"read: %d %d",ok,e);
			e = 12345;
			ok = a.resdet_read_image_frame(im,dst,ep ? &e : nullptr); PBT_CHECK(ctx,!ok && (!ep || e == RDEOK),"read after the end: %d %d",ok,e);
			a.resdet_close_image(im);
			a.resdet_close_image(nullptr);
			if(pb) free(buf);
			break;
		}
		case 6: { // bulk reading
			std::string f = file(ctx,"a.pgm",pgm(s,w,h)), name = f;
			size_t W = 777, H = 777, n = 777; float* buf = (float*)(uintptr_t)0x5a5a5a50;
			switch(s.pick(7)) {
				case 3: file(ctx,"two.pfm",pfm(w,h) + pfm(w,h).substr(0,1+s.upto(w*h*4))); name = ctx.scratch() + "/two.pfm"; want.insert(RDEINVAL); break; // bad later frame
				case 4: file(ctx,"two.pfm",pfm(w,h) + pfm(w,h) + pfm(w+1,h)); name = ctx.scratch() + "/two.pfm"; want.insert(RDEINVAL); break;
				case 0: name = ctx.scratch() + "/missing.pgm"; want.insert(-ENOENT); break;
				case 1: file(ctx,"bad.pgm","P5\n4 4\n256\n"); name = ctx.scratch() + "/bad.pgm"; want.insert(RDEINVAL); break;
				case 2: file(ctx,"short.pgm","P5\n4 4\n255\n0123456789"); name = ctx.scratch() + "/short.pgm"; want.insert(RDEINVAL); break;
				default: break;
			}
			ctx.desc("read_image(" + name + ")");
			e = a.resdet_read_image(name.c_str(),nullptr,&buf,&n,&W,&H);
			if(!want.empty()) {
				PBT_CHECK(ctx,want.count(e),"error %d",e);
				PBT_CHECK(ctx,!buf && !n,"outputs not nulled: %p %zu",(void*)buf,n);
				message(ctx,a,e);
			}
			else {
				PBT_CHECK(ctx,e == RDEOK && buf && n == 1 && W == w && H == h,"read_image: %d %p %zu %zux%zu",e,(void*)buf,n,W,H);
				free(buf);
			}
			break;
		}
		default: { // setters without parameters
			ctx.desc("setters(NULL)");
			want.insert(RDEPARAM);
			PBT_CHECK(ctx,a.resdet_parameters_set_range(nullptr,s.upto(20)) == RDEPARAM,"set_range(NULL)");
			PBT_CHECK(ctx,a.resdet_parameters_set_threshold(nullptr,s.upto(20)/20.f) == RDEPARAM,"set_threshold(NULL)");
			PBT_CHECK(ctx,a.resdet_parameters_set_compression_filter(nullptr,(uint8_t)s.upto(31)) == RDEPARAM,"set_compression_filter(NULL)");
			break;
		}
	}
	static const char* const C[] = {"resdetect","resdetect_file","analysis","analysis","open_image","open_image_with_reader","read_image","setters"};
	ctx.label(std::string(C[call]) + (want.empty() ? ": valid" : ": bad arguments"));
	if(!want.empty()) ctx.nontrivial(hash_bytes(ctx.description.data(),ctx.description.size()));
}

// sizes whose pixel data cannot be addressed
static void sizes(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	size_t w, h;
	const size_t lim = SIZE_MAX/sizeof(float);
	switch(s.pick(4)) {
		case 0: w = 1ull << s.range(20,63); h = 1ull << s.range(20,63); break;
		case 1: w = 1+s.upto(UINT64_MAX-1); h = 1+s.upto(UINT64_MAX-1); break;
		case 2: w = 1+s.upto(1ull << 40); h = lim/w; h = h + s.upto(4) - 2; if(!h) h = 1; break;          // around the limit
		default: w = 1ull << s.range(1,63); h = (1ull << (64 - __builtin_ctzll(w))) + s.upto(8); if(!h) h = 1; break; // products that wrap around to small values
	}
	if(s.chance(50)) std::swap(w,h);
	bool toobig = (unsigned __int128)w*h > lim;
	if(!toobig && (unsigned __int128)w*h < (1ull << 46)) throw Discard(); // could really be allocated
	int call = (int)s.pick(3);
	ctx.desc(fmt("%s %zux%zu ",a.name.c_str(),w,h));
	RDError e = 12345;
	float dummy = 0;
	Out o;
	switch(call) {
		case 0: { RDAnalysis* an = a.resdet_create_analysis(nullptr,w,h,nullptr,&e); PBT_CHECK(ctx,!an,"analysis of %zux%zu",w,h); ctx.desc("create_analysis"); break; }
		case 1: e = a.resdetect(&dummy,1,w,h,&o.rw,&o.cw,&o.rh,&o.ch,nullptr,nullptr); o.take(e,ctx); ctx.desc("resdetect"); break;
		default: {
			bool pfm = s.chance(50);
			std::string f = file(ctx,pfm ? "big.pfm" : "big.pgm",pfm ? fmt("Pf\n%zu %zu\n-1.0\nxxxx",w,h) : fmt("P5\n%zu %zu\n255\nxxxx",w,h));
			size_t W = 7, H = 7; float* b = (float*)8;
			RDImage* im = a.resdet_open_image(f.c_str(),nullptr,&W,&H,&b,&e);
			PBT_CHECK(ctx,!im && !W && !H && !b,"opened an image of %zux%zu: %p %zux%zu",w,h,(void*)im,W,H);
			ctx.desc(pfm ? "PFM" : "PGM");
		}
	}
	if(toobig) PBT_CHECK(ctx,e == RDETOOBIG,"error %d for %zux%zu, expected the size limit error",e,w,h);
	else PBT_CHECK(ctx,e == RDENOMEM || e == RDETOOBIG,"error %d for %zux%zu",e,w,h);
	ctx.label(toobig ? "over the limit" : "under the limit, no memory");
	ctx.nontrivial(mix(w,h)^call);
}

// dimensions beyond what the transform can address, though their pixels would fit in memory
static void oversized(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	bool kiss = a.name.compare(0,4,"kiss") == 0;
	size_t lim = kiss ? INT_MAX/2 : INT_MAX, extra; // KISS transforms twice the length
	switch(s.pick(3)) { case 0: extra = s.upto(3); break; case 1: extra = (1ull << s.upto(30)) - s.upto(1); break; default: extra = s.upto(INT_MAX/2); }
	size_t w = lim+1+extra, h = 1+s.upto(kiss ? 2 : 1);
	if(s.chance(20)) { w = ((size_t)1 << 32) + s.upto(4); h = 1; } // low bits look like a small size
	if(s.chance(50)) std::swap(w,h);
	bool direct = s.chance(70);
	RDMethod* m = a.resdet_get_method(METHODS[s.pick(4)]);
	ctx.desc(fmt("%s %s(%zux%zu, %s)",a.name.c_str(),direct ? "create_analysis" : "resdetect",w,h,m ? m->name : "none"));
	auto* space = new BigSpace(120ull << 30);
	// whether there is room for the pixels and several lists of the length; volatile, or they would be optimised away
	bool fits = true;
	void* volatile probe[4];
	for(int i = 0; i < 4; i++) { probe[i] = malloc(i ? std::max(w,h)*8 : w*h*sizeof(float)); if(!probe[i]) fits = false; }
	for(int i = 0; i < 4; i++) free(probe[i]);
	RDError e = 12345;
	Out o;
	float dummy = 0;
	RDAnalysis* an = nullptr;
	if(direct) an = a.resdet_create_analysis(m,w,h,nullptr,&e);
	else e = a.resdetect(&dummy,1,w,h,&o.rw,&o.cw,&o.rh,&o.ch,m,nullptr);
	if(an) a.resdet_destroy_analysis(an);
	delete space;
	PBT_CHECK(ctx,!an,"analysis of %zux%zu",w,h);
	PBT_CHECK(ctx,e == RDETOOBIG || (e == RDENOMEM && !fits),"error %d for %zux%zu, expected the size limit error%s",e,w,h,fits ? "" : " or no memory");
	if(!direct) o.take(e,ctx);
	ctx.label(e == RDETOOBIG ? "beyond the transform" : "beyond the transform, no memory");
	if(e == RDETOOBIG) ctx.nontrivial(mix(w,h)^direct);
}

// messages, methods, readers
static void tables(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	int max = a.resdet_get_max_error();
	PBT_CHECK(ctx,max >= RDENOIMG && max < 1000,"max error %d",max);
	for(int i = 0; i < 8; i++) {
		RDError e = s.chance(50) ? (RDError)s.range(-140,20) : (RDError)s.range(-INT32_MAX,INT32_MAX);
		const char* m = a.resdet_error_str(e);
		if(e > max) PBT_CHECK(ctx,!m,"message \"%s\" for error %d above the maximum %d",m,e,max);
		else if(e >= 0) {
			message(ctx,a,e);
			for(RDError f = 0; f <= max; f++) PBT_CHECK(ctx,f == e || strcmp(a.resdet_error_str(f),m),"errors %d and %d have the same message \"%s\"",e,f,m);
		}
		else {
			std::string want = strerror(-e);
			m = a.resdet_error_str(e);
			PBT_CHECK(ctx,m && want == m,"message \"%s\" for %d, expected \"%s\"",m ? m : "NULL",e,want.c_str());
		}
		ctx.desc(fmt("%d ",e));
	}
	RDMethod* first = a.resdet_methods();
	PBT_CHECK(ctx,a.resdet_get_method(nullptr) == first && first->name,"default method is not the first");
	std::set<std::string> names;
	for(RDMethod* m = first; m->name; m++) {
		PBT_CHECK(ctx,names.insert(m->name).second,"method %s listed twice",m->name);
		PBT_CHECK(ctx,a.resdet_get_method(std::string(m->name).c_str()) == m,"lookup of %s",m->name);
		PBT_CHECK(ctx,m->func && m->threshold > 0 && m->threshold <= 1,"method %s: threshold %g",m->name,m->threshold);
	}
	for(int i = 0; i < 4; i++) {
		// near misses of existing names and arbitrary strings
		std::string n = METHODS[s.pick(4)];
		switch(s.pick(5)) {
			case 0: n.pop_back(); break;
			case 1: n += (char)(32+s.upto(90)); break;
			case 2: n[s.pick(n.size())] ^= 32; break;
			case 3: n = n.substr(1); break;
			default: n.clear(); for(size_t k = s.upto(6); k; k--) n += (char)(1+s.upto(254)); break;
		}
		RDMethod* m = a.resdet_get_method(n.c_str());
		if(names.count(n)) PBT_CHECK(ctx,m && n == m->name,"lookup of \"%s\"",n.c_str());
		else PBT_CHECK(ctx,!m,"lookup of \"%s\" found %s",n.c_str(),m->name);
		for(char& c : n) if((unsigned char)c >= 127 || c < 32) c = '?';
		ctx.desc("\"" + n + "\" ");
	}
	PBT_CHECK(ctx,a.resdet_default_range() >= 1,"default range");
	// the default range and method are the ones used when nothing is given
	size_t w = 2*a.resdet_default_range()+2+s.upto(10), h = 1+s.upto(10);
	std::vector<float> img = gen::image(s,w,h,nullptr,gen::NOISE);
	Params none, q; q.given = true; q.range = a.resdet_default_range(); q.threshold = first->threshold;
	Res r0 = detect(a,img.data(),1,w,h,nullptr,none,ctx), r1 = detect(a,img.data(),1,w,h,first->name,q,ctx);
	PBT_CHECK(ctx,!r0.e && !r1.e && same(r0.w,r1.w) && same(r0.h,r1.h),"defaults: %s, explicitly %s",str(r0.w).c_str(),str(r1.w).c_str());
	ctx.nontrivial(hash_bytes(ctx.description.data(),ctx.description.size()));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"setters",setters,100000,1500000},
		{"arguments",arguments,250000,4000000},
		{"sizes",sizes,30000,400000},
		{"oversized",oversized,4000,40000,5},
		{"tables",tables,12000,150000},
	},[]{ apis = load_apis(); });
}
