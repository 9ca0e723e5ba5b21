// C09: Y4M decoding.
#include "readcheck.hpp"
using namespace pbt;
using files::File;
static std::vector<Api> apis;
static uint64_t hs(const std::string& s) { return hash_bytes(s.data(),s.size()); }

static void valid(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	File f = files::y4m(s,0,0,5);
	if(f.frames.empty()) {
		ctx.desc(f.what);
		std::string p = files::write(ctx,"f.y4m",f.data);
		std::string d = reads_as(a,f,p);
		if(!d.empty()) ctx.fail(d);
		return;
	}
	ctx.desc(f.what);
	ctx.label(f.what.substr(f.what.find('C'),f.what.find(" frames")-f.what.find('C')));
	std::string path = files::write(ctx,"f.y4m",f.data);
	std::string d = reads_as(a,f,path);
	if(!d.empty()) ctx.fail(d);
	d = bulk_as(a,f,path);
	if(!d.empty()) ctx.fail("in bulk: " + d);
	if(f.frames.size() > 1 && f.w*f.h > 1) ctx.nontrivial(hs(f.data));
}

static void invalid(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	File f = files::y4m(s,0,0,4);
	size_t hdr = f.data.find('\n')+1;
	std::string what;
	size_t n = 0; // intact frames
	bool toobig = false;
	std::string tail = f.data.substr(hdr);
	switch(s.pick(8)) {
		case 0: { size_t i = s.upto(9); char c = (char)s.upto(255); if(c == f.data[i]) c ^= 1; f.data[i] = c; what = fmt("magic byte %zu is %d",i,(unsigned char)c); break; }
		case 1: f.data = fmt("YUV4MPEG2 %c%zu F25:1\n",s.chance(50) ? 'W' : 'H',f.w) + tail; what = "missing dimension"; break;
		case 2: { bool w = s.chance(50); f.data = fmt("YUV4MPEG2 W%zu H%zu\n",w ? 0 : f.w,w ? f.h : 0) + tail; what = "zero dimension"; toobig = true; break; }
		case 3: { static const char* const m[] = {"410","rgb","43","42","4","yuv420","XYZ","gray","o"}; std::string c = m[s.pick(9)]; f.data = fmt("YUV4MPEG2 W%zu H%zu C%s\n",f.w,f.h,c.c_str()) + tail; what = "chroma layout " + c; break; }
		case 4: { static const char* const m[] = {"420p","422p","444p","mono"}; static const int d[] = {0,1,7,17,24,32,64,256,999}; std::string c = m[s.pick(4)] + std::to_string(d[s.pick(9)]); f.data = fmt("YUV4MPEG2 W%zu H%zu C%s\n",f.w,f.h,c.c_str()) + tail; what = "depth " + c; break; }
		case 5: { size_t cut = s.upto(hdr-1); f.data = f.data.substr(0,cut); what = fmt("header cut at %zu",cut); break; }
		case 6: { // frame header
			if(f.frames.empty()) throw Discard();
			n = s.pick(f.frames.size());
			size_t st = n ? f.end[n-1] : hdr;
			if(s.chance(50)) { size_t i = st+s.upto(4); char c = (char)s.upto(255); if(c == f.data[i]) c ^= 1; f.data[i] = c; what = fmt("frame %zu header byte %zu is %d",n,i-st,(unsigned char)c); }
			else { size_t cut = st+1+s.upto(f.begin[n]-st-2); f.data = f.data.substr(0,cut); what = fmt("frame %zu header cut at %zu",n,cut-st); }
			break;
		}
		default: {
			if(f.frames.empty()) throw Discard();
			n = s.pick(f.frames.size());
			size_t depth16 = 0;
			size_t p = f.what.find(" C"); std::string c = f.what.substr(p+2,f.what.find(" frames")-p-2);
			if((c.size() > 4 && c[3] == 'p' && isdigit(c[4])) || (c.compare(0,4,"mono") == 0 && c.size() > 4)) depth16 = 1;
			size_t luma = f.w*f.h*(depth16 ? 2 : 1);
			size_t cut = f.begin[n]+s.upto(luma-1);
			f.data = f.data.substr(0,cut); what = fmt("frame %zu luma cut at %zu of %zu",n,cut-f.begin[n],luma);
		}
	}
	ctx.desc(f.what + ", " + what);
	ctx.label(what.substr(0,what.find(' ')));
	std::string path = files::write(ctx,"f.y4m",f.data);
	Opened o(a,path,nullptr);
	auto bad = [&](RDError e) { return e == RDEINVAL || (toobig && e == RDETOOBIG); };
	if(!o.im) {
		PBT_CHECK(ctx,what.compare(0,5,"frame"),"open failed with error %d although the header is intact",o.e);
		PBT_CHECK(ctx,bad(o.e) && !o.buf && !o.w && !o.h,"open: error %d, outputs %p %zux%zu",o.e,(void*)o.buf,o.w,o.h);
	}
	else {
		PBT_CHECK(ctx,!what.compare(0,5,"frame"),"opened");
		for(size_t i = 0; i < n; i++) {
			RDError e = 12345;
			bool ok = a.resdet_read_image_frame(o.im,o.buf,&e);
			PBT_CHECK(ctx,ok && e == RDEOK,"intact frame %zu: error %d",i,e);
			std::string d = files::differ(f,i,o.buf);
			if(!d.empty()) ctx.fail(d);
		}
		RDError e = 12345;
		bool ok = a.resdet_read_image_frame(o.im,o.buf,&e);
		PBT_CHECK(ctx,!ok && bad(e),"damaged frame %zu: %s with error %d, expected the invalid image error",n,ok ? "read" : "refused",e);
	}
	float* img = (float*)8; size_t c = 7, w, h;
	RDError e = a.resdet_read_image(path.c_str(),nullptr,&img,&c,&w,&h);
	PBT_CHECK(ctx,bad(e) && !img,"bulk reading: error %d, images %p",e,(void*)img);
	ctx.nontrivial(hs(f.data));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"valid",valid,600000,15000000},
		{"invalid",invalid,400000,9000000},
	},[]{ files::WIDEST = 300000; apis = load_apis(); });
}
