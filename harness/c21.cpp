// C21: build options change only what they document.
#include "measures.hpp"
#include "readcheck.hpp"
#include <sys/stat.h>
using namespace pbt;
using files::File;

// a build, named by its options (see tools/vbuild.py)
struct Build {
	Api a; bool fftw = false, big = false; model::Precision pr; char coeff = 'F', inter = 'D';
	size_t range = 12, limit = 0; std::string suffix; std::vector<std::string> readers;
};
static std::vector<Build> builds;
static const Build* plain = nullptr,* plain_fftw = nullptr;
static double eps_of(char c) { return c == 'F' ? 6e-8 : c == 'D' ? 1.2e-16 : 6e-20; }
static void init() {
	for(const Api& a : load_apis()) {
		Build b; b.a = a;
		b.readers = {"PGM","PFM","Y4M","libjpeg","libpng","FFmpeg","MagickWand"};
		auto drop = [&](const std::string& n) { b.readers.erase(std::remove(b.readers.begin(),b.readers.end(),n),b.readers.end()); };
		std::string s = a.name + "-";
		for(size_t i = 0; i < s.size();) {
			size_t j = s.find('-',i); std::string p = s.substr(i,j-i); i = j+1;
			if(p == "fftw") b.fftw = true;
			else if(p == "kiss" || p == "o3") {}
			else if(p == "native") { drop("libjpeg"); drop("libpng"); drop("FFmpeg"); drop("MagickWand"); }
			else if(p == "still") { drop("FFmpeg"); drop("MagickWand"); }
			else if(p == "noff") drop("FFmpeg");
			else if(p == "nomw") drop("MagickWand");
			else if(p == "nojpeg") drop("libjpeg");
			else if(p == "nopng") drop("libpng");
			else if(p == "noPGM" || p == "noPFM" || p == "noY4M") drop(p.substr(2));
			else if(p[0] == 'c') b.coeff = p[1];
			else if(p[0] == 'i') b.inter = p[1];
			else if(p[0] == 'r') b.range = strtoul(p.c_str()+1,nullptr,10);
			else if(p[0] == 'p') b.limit = strtoul(p.c_str()+1,nullptr,10);
			else if(p[0] == 's') b.suffix = p.substr(1);
			else { fprintf(stderr,"unknown build %s\n",a.name.c_str()); exit(3); }
		}
		auto rank = [](char c) { return c == 'F' ? 0 : c == 'D' ? 1 : 2; };
		if(rank(b.inter) < rank(b.coeff)) b.inter = b.coeff;
		b.pr.eps = eps_of(b.coeff == 'L' && !b.fftw ? 'D' : b.coeff); // KISS FFT has no long double transform
		b.pr.epsi = eps_of(b.inter);
		b.pr.epsilon = b.inter == 'F' ? 1.1920929e-7 : b.inter == 'D' ? 2.220446049250313e-16 : 1.0842021724855044e-19;
		builds.push_back(b);
	}
	for(const Build& b : builds) {
		if(b.a.name == "kiss-native") plain = &b;
		if(b.a.name == "fftw-native") plain_fftw = &b;
	}
	if(!plain || !plain_fftw) { fprintf(stderr,"no plain builds\n"); exit(3); }
}
static const Api& reference(const Build& b) { return (b.fftw ? plain_fftw : plain)->a; }
static bool same_transform(const Build& b) { return b.coeff == 'F' && b.inter == 'D'; }
static std::vector<const Build*> select(const std::function<bool(const Build&)>& f) {
	std::vector<const Build*> v;
	for(const Build& b : builds) if(f(b)) v.push_back(&b);
	return v;
}

// any precision: the documented measure, up to the rounding of that precision
static void precision(Src& s, Ctx& ctx) {
	static const auto pool = select([](const Build& b) { return b.coeff != 'F' || b.inter != 'D'; });
	const Build& b = *s.of(pool);
	int mi = (int)s.pick(4);
	Params q; q.given = true; q.threshold = 0;
	bool defrange = s.chance(20);
	size_t range = defrange ? b.range : gen::range(s);
	if(!defrange) q.range = range;
	size_t w = gen::dim(s,56,range), h = gen::dim(s,56,range), nimg = 1+(s.chance(25) ? s.upto(2) : 0);
	if(nimg > 1) { w = 1+w/2; h = 1+h/2; }
	std::vector<float> buf; model::Both acc; std::string kinds;
	for(size_t i = 0; i < nimg; i++) {
		int kind;
		std::vector<float> p = gen::image(s,w,h,&kind);
		kinds += std::string(i ? "," : "") + gen::KINDNAME[kind];
		buf.insert(buf.end(),p.begin(),p.end());
		model::Both m = model::analyse(p.data(),w,h,range,(model::Method)mi,b.pr);
		if(i) { model::add(acc.w,m.w); model::add(acc.h,m.h); } else acc = m;
	}
	model::scale(acc.w,nimg); model::scale(acc.h,nimg);
	ctx.desc(fmt("%s method=%s %zux%zu images=%zu (%s) range=%zu%s",b.a.name.c_str(),METHODS[mi],w,h,nimg,kinds.c_str(),range,defrange ? " (default)" : ""));
	ctx.label("build:" + b.a.name);
	if(b.limit && w*h > b.limit) return;
	Res r = detect(b.a,buf.data(),nimg,w,h,METHODS[mi],q,ctx);
	PBT_CHECK(ctx,r.e == RDEOK,"error %d",r.e);
	check_dim(ctx,b.a.name,"width",r.w,acc.w,w);
	check_dim(ctx,b.a.name,"height",r.h,acc.h,h);
	double amb = std::max(acc.w.any ? acc.w.ambiguous : 0,acc.h.any ? acc.h.ambiguous : 0);
	bool positive = false;
	for(auto* d : {&acc.w,&acc.h}) for(auto& c : d->conf) if(c.lo > 0) positive = true;
	if((acc.w.any || acc.h.any) && positive && amb <= .02) ctx.nontrivial(gen::hash(buf)^mix(w*1000+mi,range));
}

// the default range: reported, and used whenever none is given
static void ranges(Src& s, Ctx& ctx) {
	const Build& b = s.chance(70) ? *s.of(select([](const Build& b) { return b.range != 12; })) : s.of(builds);
	PBT_CHECK(ctx,b.a.resdet_default_range() == b.range,"default range %zu instead of %zu",b.a.resdet_default_range(),b.range);
	int mi = (int)s.pick(4);
	size_t w = gen::dim(s,90,b.range), h = gen::dim(s,60,b.range);
	if(b.limit && w*h > b.limit) { w = 1+s.upto(b.limit-1); h = b.limit/w; }
	int kind; auto img = gen::image(s,w,h,&kind);
	ctx.desc(fmt("%s method=%s %zux%zu %s default range %zu",b.a.name.c_str(),METHODS[mi],w,h,gen::KINDNAME[kind],b.range));
	ctx.label("build:" + b.a.name);
	Params none, thr, both; // threshold 0 cannot be had without parameters
	if(s.chance(60)) { thr.given = both.given = true; thr.threshold = both.threshold = 0; }
	both.given = true; both.range = b.range;
	const Params& q = thr.given ? thr : none;
	Res r = detect(b.a,img.data(),1,w,h,METHODS[mi],q,ctx), e = detect(b.a,img.data(),1,w,h,METHODS[mi],both,ctx);
	PBT_CHECK(ctx,r.e == RDEOK && e.e == RDEOK,"errors %d %d",r.e,e.e);
	PBT_CHECK(ctx,same(r.w,e.w) && same(r.h,e.h),"without range %s %s, with range %zu %s %s",str(r.w).c_str(),str(r.h).c_str(),b.range,str(e.w).c_str(),str(e.h).c_str());
	if(same_transform(b)) {
		Res p = detect(reference(b),img.data(),1,w,h,METHODS[mi],both,ctx);
		PBT_CHECK(ctx,same(r.w,p.w) && same(r.h,p.h),"default range %zu gives %s %s, the same range in a plain build %s %s",b.range,str(r.w).c_str(),str(r.h).c_str(),str(p.w).c_str(),str(p.h).c_str());
	}
	if(r.w.size()+r.h.size() > 2) ctx.nontrivial(gen::hash(img)^mix(w*1000+mi,b.range));
}

// the pixel limit
static size_t area(Src& s, size_t limit) {
	switch(s.weighted({4,4,2,2,2,2,3})) {
		case 0: return limit;
		case 1: return limit+1;
		case 2: return limit > 1 ? limit-1 : 1;
		case 3: return limit/2+s.upto(2);
		case 4: return limit/4+s.upto(2);
		case 5: return 1+s.upto(limit);
		default: return limit+2+s.upto(limit);
	}
}
static void sized(Src& s, size_t area, size_t& w, size_t& h) { // a rectangle of exactly or nearly that many pixels
	if(!area) area = 1;
	size_t d = 1+s.upto(std::min<size_t>(area,300)-1);
	while(area % d) d--;
	w = d; h = area/d;
	if(s.chance(50)) std::swap(w,h);
	if(s.chance(15)) w++;
}
// KISS FFT takes quadratic time in prime factors
static bool slow(size_t w, size_t h) {
	auto lp = [](size_t n) { size_t m = 1; for(size_t p = 2; p*p <= n; p++) while(n % p == 0) { m = p; n /= p; } return std::max(m,n); };
	return (double)w*h*(lp(w)+lp(h)) > 3e7;
}
static void limits(Src& s, Ctx& ctx) {
	static const auto pool = select([](const Build& b) { return b.limit; });
	const Build& b = *s.of(pool);
	size_t w, h;
	size_t L = b.limit > 4000000 ? 20000 : b.limit; // limits beyond 32 bits only have to admit
	sized(s,area(s,L),w,h);
	bool admit = w*h <= b.limit;
	int mi = (int)s.pick(4);
	Params q; if(s.chance(50)) { q.given = true; q.threshold = s.chance(50) ? 0 : .5; q.range = 1+s.upto(12); }
	size_t n = 1+(w*h < 3000 ? s.upto(2) : 0);
	std::vector<float> buf; for(size_t i = 0; i < n; i++) { auto p = gen::image(s,w,h,nullptr,w*h > 3000 ? gen::QUANT8 : -1); buf.insert(buf.end(),p.begin(),p.end()); }
	ctx.desc(fmt("%s limit=%zu %zux%zu=%zu images=%zu method=%s %s",b.a.name.c_str(),b.limit,w,h,w*h,n,METHODS[mi],q.str().c_str()));
	ctx.label(admit ? "admitted" : "refused"); ctx.label("build:" + b.a.name);
	RDError e = 12345;
	RDAnalysis* an = b.a.resdet_create_analysis(nullptr,w,h,nullptr,&e);
	b.a.resdet_destroy_analysis(an);
	PBT_CHECK(ctx,(an != nullptr) == admit && e == (admit ? RDEOK : RDETOOBIG),"resdet_create_analysis gave %p, error %d",(void*)an,e);
	if(admit && slow(w,h)) { ctx.label("not transformed"); return; }
	Res r = detect(b.a,buf.data(),n,w,h,METHODS[mi],q,ctx);
	PBT_CHECK(ctx,r.e == (admit ? RDEOK : RDETOOBIG),"resdetect gave error %d",r.e);
	if(admit && same_transform(b)) {
		Params pq = q; if(!q.range) { pq.given = true; pq.range = b.range; }
		Res p = detect(reference(b),buf.data(),n,w,h,METHODS[mi],pq,ctx);
		PBT_CHECK(ctx,same(r.w,p.w) && same(r.h,p.h),"%s %s, without limit %s %s",str(r.w).c_str(),str(r.h).c_str(),str(p.w).c_str(),str(p.h).c_str());
	}
	ctx.nontrivial(mix(mix(w,h),mix(b.limit,mi+n*4)));
}
// sizes whose product does not fit, or fits just so
static void huge(Src& s, Ctx& ctx) {
	static const auto pool = select([](const Build& b) { return b.limit; });
	const Build& b = *s.of(pool);
	size_t w, h;
	switch(s.pick(4)) {
		case 0: w = (size_t)1 << (20+s.upto(43)); h = (size_t)1 << (64-std::min<size_t>(64,(size_t)__builtin_ctzll(w))+s.upto(1)); if(!h) h = 1; break;
		case 1: w = ~(size_t)0 - s.upto(3); h = 1+s.upto(3); break;
		case 2: w = b.limit+1+s.upto(2); h = 1; break;
		default: w = ((size_t)1 << 32)+s.upto(9); h = ((size_t)1 << 32)+s.upto(9); break;
	}
	if(s.chance(50)) std::swap(w,h);
	if(w <= b.limit/h && w <= 5000000 && h <= 5000000) { ctx.desc("small"); return; }
	unsigned __int128 prod = (unsigned __int128)w*h;
	ctx.desc(fmt("%s limit=%zu %zux%zu",b.a.name.c_str(),b.limit,w,h));
	if(prod <= b.limit) return; // would take the memory
	RDError e = 12345;
	RDAnalysis* an = b.a.resdet_create_analysis(nullptr,w,h,nullptr,&e);
	PBT_CHECK(ctx,!an && e == RDETOOBIG,"resdet_create_analysis gave %p, error %d",(void*)an,e);
	float px[4] = {0};
	Res r = detect(b.a,px,1,w,h,nullptr,Params(),ctx);
	PBT_CHECK(ctx,r.e == RDETOOBIG,"resdetect gave error %d",r.e);
	// headers only: the size is refused before anything is read
	static const char* const T[] = {"pgm","pfm","y4m"}; int t = (int)s.pick(3);
	if(std::find(b.readers.begin(),b.readers.end(),t == 0 ? "PGM" : t == 1 ? "PFM" : "Y4M") != b.readers.end()) {
		std::string d = t == 0 ? fmt("P5 %zu %zu 255\n",w,h) : t == 1 ? fmt("Pf %zu %zu -1.0\n",w,h) : fmt("YUV4MPEG2 W%zu H%zu\n",w,h);
		std::string path = files::write(ctx,std::string("huge.") + T[t],d);
		Opened o(b.a,path,nullptr);
		PBT_CHECK(ctx,!o.im && o.e == RDETOOBIG && o.w == 0 && o.h == 0 && !o.buf,"%s of that size: %p, error %d, %zux%zu",T[t],(void*)o.im,o.e,o.w,o.h);
	}
	ctx.nontrivial(mix(w,h)^b.limit);
}
// files: opened if an image is within the limit, read in bulk if the sequence is
static File make_file(Src& s, int t, size_t w, size_t h, size_t n) {
	File f; f.w = w; f.h = h;
	if(t == 0) return files::pgm(s,w,h);
	if(t == 3) return files::png(s,w,h);
	if(t == 4) return files::jpeg(s,nullptr,nullptr,w,h);
	if(t == 1) return files::pfm(s,w,h,true,n);
	if(t == 2) return files::y4m(s,w,h,n);
	auto g = files::grays(s,w,h,n);
	for(auto& x : g) { x[0] = 0; x.back() = 255; }
	f.tol = 2e-5;
	if(t == 5) { f.type = "gif"; f.data = files::gif_bytes(g,w,h); }
	else { f.type = "ppm"; for(auto& x : g) f.data += files::pgm_bytes(x,w,h); }
	files::set_frames(f,g);
	return f;
}
static const char* const READER_OF[] = {"PGM","PFM","Y4M","libpng","libjpeg","MagickWand","FFmpeg"};
static bool has(const Build& b, const std::string& r) { return std::find(b.readers.begin(),b.readers.end(),r) != b.readers.end(); }
static void file_limits(Src& s, Ctx& ctx) {
	static const auto pool = select([](const Build& b) { return b.limit && b.limit < 4000000; });
	const Build& b = *s.of(pool);
	std::vector<int> types;
	for(int t = 0; t < 7; t++) if(has(b,READER_OF[t])) types.push_back(t);
	int t = s.of(types);
	size_t w, h, n = 1+s.upto(3);
	size_t a = area(s,b.limit);
	if(s.chance(50)) a = a/n+(s.chance(30) ? s.upto(1) : 0);
	sized(s,a,w,h);
	if((t == 5 || t == 6) && w*h < 2) w = 2, h = 1;
	if(t >= 3 && (w > 60000 || h > 60000)) t = (int)s.pick(3); // beyond what JPEG and GIF can have
	File f = make_file(s,t,w,h,n);
	std::string ext = f.type == "ppm" ? "pgm" : f.type;
	std::string path = files::write(ctx,"image." + ext,f.data);
	size_t frames = f.frames.size();
	bool one = w*h <= b.limit, all = w*h <= b.limit/std::max<size_t>(frames,1);
	ctx.desc(fmt("%s limit=%zu %s %zux%zu frames=%zu",b.a.name.c_str(),b.limit,ext.c_str(),w,h,frames));
	ctx.label(std::string("type:") + ext); ctx.label(!one ? "too big" : !all ? "sequence too long" : "admitted"); ctx.label("build:" + b.a.name);
	const char* reader = READER_OF[t];
	{
		Opened o(b.a,path,nullptr,reader);
		PBT_CHECK(ctx,(o.im != nullptr) == one && o.e == (one ? RDEOK : RDETOOBIG),"opened as %p with error %d",(void*)o.im,o.e);
		if(!one) PBT_CHECK(ctx,o.w == 0 && o.h == 0 && !o.buf,"refused with %zux%zu %p",o.w,o.h,(void*)o.buf);
	}
	if(one) { std::string d = reads_as(b.a,f,path,nullptr,reader); PBT_CHECK(ctx,d.empty(),"frame by frame: %s",d.c_str()); }
	if(t <= 4 || (t == 5 && !has(b,"FFmpeg")) ) { // else the extension may select another reader
		float* img = (float*)(uintptr_t)0x5a5a5a50; size_t rn = 777, rw = 777, rh = 777;
		RDError e = b.a.resdet_read_image(path.c_str(),nullptr,&img,&rn,&rw,&rh);
		if(all) {
			if(e == RDEOK) free(img);
			PBT_CHECK(ctx,e == RDEOK && rn == frames && rw == w && rh == h,"bulk reading within the limit: error %d, %zu of %zux%zu",e,rn,rw,rh);
			std::string d = bulk_as(b.a,f,path);
			PBT_CHECK(ctx,d.empty(),"bulk: %s",d.c_str());
		}
		else PBT_CHECK(ctx,e == RDETOOBIG && !img && !rn,"bulk reading beyond the limit: error %d, %p %zu",e,(void*)img,rn);
		if(one && slow(w,h)) { ctx.label("not transformed"); return; }
		Out o;
		e = b.a.resdetect_file(path.c_str(),nullptr,&o.rw,&o.cw,&o.rh,&o.ch,nullptr,nullptr);
		bool finite = true;
		for(auto& fr : f.frames) for(float v : fr) if(!std::isfinite(v)) finite = false;
		RDError want = !one ? RDETOOBIG : !finite ? RDEINVAL : !frames ? RDENOIMG : RDEOK;
		o.take(e,ctx);
		PBT_CHECK(ctx,e == want,"resdetect_file: error %d instead of %d",e,want);
	}
	ctx.nontrivial(hash_bytes(f.data.data(),f.data.size()));
	unlink(path.c_str());
}

// readers left out
static void readers(Src& s, Ctx& ctx) {
	const Build& b = s.of(builds);
	std::string got;
	size_t k = 0;
	const char* const* l = b.a.resdet_list_image_readers();
	for(; l[k]; k++) { got += std::string(l[k]) + " "; if(k >= b.readers.size() || b.readers[k] != l[k]) break; }
	PBT_CHECK(ctx,!l[k] && k == b.readers.size(),"readers listed: %s",got.c_str());
	int t = (int)s.pick(7);
	size_t w = 2+s.upto(20), h = 1+s.upto(20), n = 1+s.upto(2);
	if(b.limit && w*h*n > b.limit) return;
	File f = make_file(s,t,w,h,n);
	std::string ext = f.type == "ppm" ? "pgm" : f.type;
	std::string path = files::write(ctx,"image." + ext,f.data);
	int how = (int)s.pick(3); // by reader name, by extension, by MIME type
	const char* mime = t == 0 ? "image/x-portable-graymap" : t == 1 ? "image/x-portable-floatmap" : t == 2 ? "video/yuv4mpeg" : t == 3 ? "image/png" : t == 4 ? "image/jpeg" : nullptr;
	if(how == 2 && !mime) how = 0;
	ctx.desc(fmt("%s %s %s",b.a.name.c_str(),ext.c_str(),how == 0 ? READER_OF[t] : how == 1 ? "by extension" : mime));
	bool there = has(b,READER_OF[t]), general = has(b,"FFmpeg") || has(b,"MagickWand");
	ctx.label(there ? "there" : "left out"); ctx.label("build:" + b.a.name);
	if(how == 0 ? there : there && t <= 4) {
		std::string d = reads_as(b.a,f,path,how == 2 ? mime : nullptr,how == 0 ? READER_OF[t] : nullptr);
		PBT_CHECK(ctx,d.empty(),"%s",d.c_str());
	}
	else if(how == 0 || !general || t == 5 || t == 6) {
		if(how && (general || (t == 6 && has(b,"PGM")))) return; // others may take it
		Opened o(b.a,path,how == 2 ? mime : nullptr,how == 0 ? READER_OF[t] : nullptr);
		PBT_CHECK(ctx,!o.im && o.e == RDEUNSUPP && !o.w && !o.h && !o.buf,"no reader for it, but %p with error %d, %zux%zu, buffer %p",(void*)o.im,o.e,o.w,o.h,(void*)o.buf);
	}
	else if(t == 0 || t == 3) { // the general readers take it over
		if(t == 0) { std::string d = fmt("P5\n%zu %zu\n255\n",w,h); d.append(w*h,'x'); files::write(ctx,"image.pgm",d); } // in its plainest form
		Opened o(b.a,path,nullptr);
		PBT_CHECK(ctx,o.im && o.e == RDEOK && o.w == f.w && o.h == f.h,"%s without its reader: %p, error %d, %zux%zu",ext.c_str(),(void*)o.im,o.e,o.w,o.h);
	}
	ctx.nontrivial(hash_bytes(f.data.data(),f.data.size())^mix(k,how));
	unlink(path.c_str());
}

// version, methods, error table and parameter rules are everybody's
static void tables(Src& s, Ctx& ctx) {
	const Build& b = s.of(builds);
	const Api& p = plain->a;
	ctx.desc(b.a.name);
	std::string v = b.a.resdet_libversion(), pv = p.resdet_libversion();
	PBT_CHECK(ctx,v == pv + b.suffix,"version %s, plain version %s, suffix %s",v.c_str(),pv.c_str(),b.suffix.c_str());
	PBT_CHECK(ctx,b.a.resdet_get_max_error() == p.resdet_get_max_error(),"largest error");
	RDError e = (RDError)s.range(-140,20);
	auto text = [&](const Api& a) { const char* m = a.resdet_error_str(e); return std::string(m ? m : "(null)"); };
	std::string m = text(b.a), pm = text(p);
	PBT_CHECK(ctx,m == pm,"error %d: %s, plain: %s",e,m.c_str(),pm.c_str());
	RDMethod* x = b.a.resdet_methods(),* y = p.resdet_methods();
	size_t i = 0;
	for(; x[i].name && y[i].name; i++) PBT_CHECK(ctx,!strcmp(x[i].name,y[i].name) && x[i].threshold == y[i].threshold,"method %zu: %s %g",i,x[i].name,x[i].threshold);
	PBT_CHECK(ctx,!x[i].name && !y[i].name && i == 4,"%zu methods",i);
	PBT_CHECK(ctx,b.a.resdet_get_method(nullptr) == x || !strcmp(b.a.resdet_get_method(nullptr)->name,p.resdet_get_method(nullptr)->name),"default method");
	RDParameters* q = b.a.resdet_alloc_default_parameters();
	PBT_CHECK(ctx,q,"no parameters");
	size_t r = s.upto(40); float t = (int)s.range(-5,25)/10.f;
	RDError e1 = b.a.resdet_parameters_set_range(q,r), e2 = b.a.resdet_parameters_set_threshold(q,t);
	free(q);
	PBT_CHECK(ctx,(e1 == RDEOK) == (r > 0) && (e2 == RDEOK) == (t >= 0 && t <= 1),"range %zu gives %d, threshold %g gives %d",r,e1,t,e2);
	ctx.nontrivial(mix(hash_bytes(v.data(),v.size(),hash_bytes(b.a.name.data(),b.a.name.size())),mix(e,r)));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"precision",precision,30000,700000},
		{"ranges",ranges,16000,300000},
		{"limits",limits,8000,150000},
		{"huge",huge,1500,20000},
		{"file-limits",file_limits,14000,250000},
		{"readers",readers,12000,200000},
		{"tables",tables,2000,20000},
	},init);
}
