// C16: malformed image input. Built with address and undefined-behaviour sanitizers (stage 1), and
// without, where the allocator's fill byte is varied to show uninitialised data (stage 2).
#include "readcheck.hpp"
#include "mutate.hpp"
#include <malloc.h>
using namespace pbt;
using files::File;
static std::vector<Api> apis;
static const size_t READ_MAX = 1u << 20, DETECT_MAX = 20000;

static bool defined_error(const Api& a, RDError e) { return e == RDEINVAL || e == RDETOOBIG || e == RDENOMEM || (e < 0 && a.resdet_error_str(e)); }

static void set_fill(int v) {
#ifndef SANITIZED
	mallopt(M_PERTURB,v);
#endif
}

struct Got { RDError e = RDEOK; size_t w = 0, h = 0; std::vector<std::vector<float>> frames; RDError end = RDEOK; bool whole = false; };
static Got read_all(Ctx& ctx, const Api& a, const std::string& path, const char* type, int fill) {
	Got g; float* ib = nullptr;
	g.e = 12345; g.w = g.h = 77;
	set_fill(fill);
	RDImage* im = a.resdet_open_image(path.c_str(),type,&g.w,&g.h,nullptr,&g.e);
	if(!im) {
		PBT_CHECK(ctx,defined_error(a,g.e) && !g.w && !g.h,"refused with error %d, %zux%zu",g.e,g.w,g.h);
		return g;
	}
	PBT_CHECK(ctx,g.e == RDEOK && g.w && g.h && g.w <= SIZE_MAX/g.h/4,"opened with error %d, %zux%zu",g.e,g.w,g.h);
	if(g.w*g.h > READ_MAX) { a.resdet_close_image(im); return g; }
	// a buffer of exactly the announced size, with a different background each time
	float* buf = (float*)malloc(g.w*g.h*sizeof(float));
	for(;;) {
		memset(buf,fill,g.w*g.h*sizeof(float));
		g.end = 12345;
		if(!a.resdet_read_image_frame(im,buf,&g.end)) break;
		if(g.end) { a.resdet_close_image(im); ctx.fail(fmt("a frame with error %d",g.end)); }
		g.frames.push_back(std::vector<float>(buf,buf+g.w*g.h));
		if(g.frames.size() > 3000) { a.resdet_close_image(im); ctx.fail("frames do not end"); }
	}
	if(g.end) PBT_CHECK(ctx,defined_error(a,g.end),"reading ended with error %d",g.end);
	g.whole = true;
	free(buf);
	a.resdet_close_image(im);
	return g;
}

static void examine(Src& s, Ctx& ctx, const std::string& data, const std::string& type, const File* orig, size_t firstbad) {
	const Api& a = apis[0];
	std::string path = files::write(ctx,"f." + type,data);
	Got g = read_all(ctx,a,path,nullptr,0x11);
	if(orig && (type == "pgm" || type == "pfm" || type == "y4m")) {
		size_t intact = 0;
		while(intact < orig->frames.size() && orig->end[intact] <= firstbad) intact++;
		if(intact && orig->w*orig->h <= READ_MAX) {
			PBT_CHECK(ctx,g.e == RDEOK && g.w == orig->w && g.h == orig->h && g.frames.size() >= intact,"%zu frames precede the damage but %zu were delivered (open error %d)",intact,g.frames.size(),g.e);
			for(size_t i = 0; i < intact; i++) { std::string d = files::differ(*orig,i,g.frames[i].data()); if(!d.empty()) ctx.fail("before the damage: " + d); }
			ctx.label("frames before the damage");
		}
	}
	if(g.e == RDEOK && g.whole) {
		// the same again over other memory contents
		Got k = read_all(ctx,a,path,nullptr,0xee);
		PBT_CHECK(ctx,k.e == g.e && k.end == g.end && k.w == g.w && k.h == g.h && k.frames.size() == g.frames.size(),"second reading: errors %d %d instead of %d %d, %zu frames instead of %zu",k.e,k.end,g.e,g.end,k.frames.size(),g.frames.size());
		for(size_t i = 0; i < g.frames.size(); i++)
			for(size_t j = 0; j < g.w*g.h; j++)
				PBT_CHECK(ctx,!memcmp(&k.frames[i][j],&g.frames[i][j],4),"frame %zu pixel %zu of %zux%zu is %.9g or %.9g depending on what was in memory",i,j,g.w,g.h,g.frames[i][j],k.frames[i][j]);
		// seeking
		RDError e = 12345; size_t w, h;
		if(RDImage* im = a.resdet_open_image(path.c_str(),nullptr,&w,&h,nullptr,&e)) {
			uint64_t off = s.small(0,5);
			bool ok = a.resdet_seek_frame(im,off,nullptr,nullptr,&e);
			PBT_CHECK(ctx,ok ? e == RDEOK : e == RDEOK || defined_error(a,e),"seek: %d, error %d",ok,e);
			std::vector<float> b(w*h);
			a.resdet_read_image_frame(im,b.data(),&e);
			a.resdet_close_image(im);
		}
		// bulk
		float* img = (float*)8; size_t n = 7;
		set_fill(0x33);
		e = a.resdet_read_image(path.c_str(),nullptr,&img,&n,&w,&h);
		if(g.end) PBT_CHECK(ctx,e == g.end && !img && !n,"bulk: error %d, %p, %zu images; frame by frame: error %d",e,(void*)img,n,g.end);
		else {
			PBT_CHECK(ctx,!e && n == g.frames.size() && w == g.w && h == g.h,"bulk: error %d, %zu images of %zux%zu",e,n,w,h);
			for(size_t i = 0; i < n; i++) PBT_CHECK(ctx,!memcmp(img+i*w*h,g.frames[i].data(),w*h*4),"bulk: image %zu differs",i);
		}
		free(img);
		ctx.label(fmt("%s %s",type.c_str(),g.end ? "damaged later" : "readable"));
	}
	else ctx.label(fmt("%s %s",type.c_str(),g.e == RDEOK ? "too large to read" : g.e == RDETOOBIG ? "over the size limit" : "refused"));
	if(g.e != RDEOK || (g.whole && g.w*g.h <= DETECT_MAX && g.frames.size() < 8)) {
		Out o; RDError e = a.resdetect_file(path.c_str(),nullptr,&o.rw,&o.cw,&o.rh,&o.ch,s.chance(50) ? nullptr : a.resdet_get_method(METHODS[s.pick(4)]),nullptr);
		PBT_CHECK(ctx,g.e == RDEOK || e == g.e,"resdetect_file: error %d, opening: %d",e,g.e);
		PBT_CHECK(ctx,e == RDEOK || e == RDENOIMG || defined_error(a,e),"resdetect_file: error %d",e);
		if(g.e == RDEOK && g.end) PBT_CHECK(ctx,e != RDEOK,"resdetect_file succeeded with a damaged file (error %d frame by frame)",g.end);
		o.take(e,ctx);
		if(s.chance(30)) {
			RDError e2 = a.resdetect_file(path.c_str(),nullptr,nullptr,nullptr,nullptr,nullptr,nullptr,nullptr);
			PBT_CHECK(ctx,e2 == e,"resdetect_file: error %d with the lists wanted, %d without",e,e2);
		}
	}
	set_fill(0);
	unlink(path.c_str());
}

static void mutated(Src& s, Ctx& ctx) {
	File f = files::any(s);
	std::string d = f.data, what;
	size_t first = (size_t)-1, n = 1+s.small(0,5);
	for(size_t i = 0; i < n; i++) first = std::min(first,mutate::once(s,d,what));
	if(s.chance(6)) { File g = files::any(s); d += g.data; what += " + " + g.what; }
	std::string type = f.type;
	if(s.chance(4)) { type = s.of(std::vector<std::string>{"pgm","pfm","y4m","png","jpg"}); }
	ctx.desc(fmt("%s as %s:%s",f.what.c_str(),type.c_str(),what.c_str()));
	examine(s,ctx,d,type,type == f.type ? &f : nullptr,first);
	ctx.nontrivial(hash_bytes(d.data(),d.size()));
}

// bytes from nothing, with a plausible beginning
static void bytes(Src& s, Ctx& ctx) {
	std::string type = s.of(std::vector<std::string>{"pgm","pfm","y4m","png","jpg"}), d;
	if(type == "pgm") { if(s.chance(90)) d = "P5"; for(size_t n = s.upto(5); n; n--) d += " \n\t#"[s.pick(4)] + mutate::number(s); d += "\n"; }
	else if(type == "pfm") { if(s.chance(90)) d = s.chance(50) ? "Pf" : "PF"; for(size_t n = s.upto(5); n; n--) d += " \n\t#"[s.pick(4)] + mutate::number(s); d += "\n"; }
	else if(type == "y4m") {
		d = "YUV4MPEG2 ";
		static const char* const t[] = {"W","H","C420","C444alpha","C411","C422p","Cmono","C444p","C","X","F25:1","Cmono16","C420p16","C4","C4200000000000000000000"};
		for(size_t n = s.upto(6); n; n--) { d += t[s.pick(15)]; if(s.chance(60)) d += mutate::number(s); d += " \n"[s.chance(10)]; }
		d += "\n";
		if(s.chance(70)) d += s.chance(80) ? "FRAME\n" : "FRAMES";
	}
	else if(type == "png") { d = std::string("\x89PNG\r\n\x1a\n",8); if(s.chance(80)) { std::string ih; files::be32(ih,(uint32_t)s.upto(70000)); files::be32(ih,s.chance(50) ? (uint32_t)s.upto(50) : (uint32_t)s.upto(UINT32_MAX)); ih += (char)(1 << s.upto(4)); ih += (char)s.upto(6); ih += '\0'; ih += '\0'; ih += (char)s.upto(1); files::chunk(d,"IHDR",ih); } if(s.chance(40)) files::chunk(d,"PLTE",std::string(s.upto(9),'x')); if(s.chance(60)) { std::string raw(s.upto(900),'\0'); Rng r = s.bulk(); for(auto& c : raw) c = (char)r.next(); files::chunk(d,"IDAT",s.chance(80) ? files::zip(raw,3) : raw); } }
	else { d = "\xff\xd8"; for(size_t n = s.upto(4); n; n--) { d += '\xff'; d += (char)s.of(std::vector<int>{0xe0,0xfe,0xdb,0xc0,0xc2,0xc4,0xda,0xdd,0xd0,0xd9,0xc3,0xc9}); size_t len = s.upto(30); d += '\0'; d += (char)(len+2); for(size_t i = 0; i < len; i++) d += (char)s.upto(255); } }
	size_t n = s.chance(30) ? 0 : s.upto(s.chance(80) ? 300 : 3000);
	Rng r = s.bulk(); int kind = (int)s.pick(3);
	for(size_t i = 0; i < n; i++) d += (char)(kind == 0 ? r.next() : kind == 1 ? "FRAME\nPf 5#-1\xff"[r.below(15)] : 0);
	ctx.desc(fmt("%zu bytes as %s: %s",d.size(),type.c_str(),std::string(d.c_str(),std::min<size_t>(60,strlen(d.c_str()))).c_str()));
	examine(s,ctx,d,type,nullptr,0);
	ctx.nontrivial(hash_bytes(d.data(),d.size(),type[0]*7+type[1]));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"mutated",mutated,60000,900000,40},
		{"bytes",bytes,60000,900000,40},
	},[]{ apis = load_apis(); });
}
