// C12: the general-purpose readers on gray content.
#include "readcheck.hpp"
#include "avenc.hpp"
using namespace pbt;
using files::File; using files::Gray;
static std::vector<Api> apis;

static File make(Src& s, int k, const std::vector<Gray>& g, size_t w, size_t h) {
	File f; f.w = w; f.h = h; f.tol = 2e-5;
	size_t n = g.size();
	switch(k) {
		case 0: f.type = "pgm"; for(auto& x : g) { f.begin.push_back(f.data.size()); f.data += files::pgm_bytes(x,w,h); f.end.push_back(f.data.size()); } break;
		case 1: f.type = "y4m"; f.data = files::y4m_bytes(g,w,h); break;
		case 2: f.type = "gif"; f.data = files::gif_bytes(g,w,h); break;
		case 3: f.type = "tiff"; f.data = files::tiff_bytes(g[0],w,h); n = 1; break;
		case 6: { f.type = "avi"; auto audio = files::avi_audio(s,n); int v = (int)s.pick(2); f.data = files::avi_bytes(g,w,h,v,audio); f.what = audio.empty() ? "avi" : "avi with audio"; files::set_frames(f,g); return f; }
		case 7: case 8: { // other depths
			unsigned max = k == 8 ? s.chance(40) ? 255 : 65535 : 65535;
			std::vector<std::vector<unsigned>> v(n);
			for(size_t i = 0; i < n; i++) {
				for(size_t j = 0; j < w*h; j++) v[i].push_back(max == 255 ? g[i][j] : (unsigned)((g[i][j]*256u+(j*151u & 255))%(max+1)));
				files::Frame p(w*h); for(size_t j = 0; j < w*h; j++) p[j] = (float)v[i][j]/max;
				f.frames.push_back(p);
			}
			if(k == 8) { f.type = "tiff"; f.data = files::tiff_pages(s,v,w,h,max == 255 ? 8 : 16); }
			else {
				f.type = "pgm";
				for(auto& x : v) { f.data += fmt("P5\n%zu %zu\n%u\n",w,h,max); for(unsigned q : x) { f.data += (char)(q >> 8); f.data += (char)q; } }
			}
			f.what = fmt("%s of %u bits%s",f.type.c_str(),max == 255 ? 8 : 16,k == 8 ? ", pages" : "");
			return f;
		}
		case 4: f.type = "bmp"; f.data = files::bmp_bytes(g[0],w,h); n = 1; break;
		default: f = files::png(s,w,h,true); f.tol = 2e-5; f.what = "png"; return f;
	}
	std::vector<Gray> used(g.begin(),g.begin()+n);
	files::set_frames(f,used);
	f.what = f.type;
	return f;
}

// reader, format, multiple frames possible
static const struct { const char* reader; int fmt; bool multi; } COMBO[] = {
	{"FFmpeg",0,true},{"FFmpeg",1,true},{"MagickWand",2,true},{"MagickWand",0,true},{"FFmpeg",3,false},{"FFmpeg",5,false},{"MagickWand",3,false},{"MagickWand",4,false},{"MagickWand",5,false},{"FFmpeg",6,true},{"FFmpeg",6,true},{"MagickWand",7,true},{"MagickWand",8,true},{"MagickWand",8,true},
};
static void lossless(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	auto& c = COMBO[s.pick(sizeof COMBO/sizeof *COMBO)];
	size_t w = 0, h = 0;
	files::dims(s,w,h,40,4000);
	size_t n = c.multi ? files::many(s,w,h,1+s.small(0,4)) : 1;
	auto g = files::grays(s,w,h,n);
	File f = make(s,c.fmt,g,w,h);
	std::string name = s.of(std::vector<std::string>{"", "other", "with space"}) + "." + (s.chance(70) ? f.type : s.of(std::vector<std::string>{"pgm","png","y4m","dat"}));
	if(c.reader[0] == 'M') name = "f." + f.type; // MagickWand goes by the name
	ctx.desc(fmt("%s %s %zux%zu, %zu frames, as \"%s\", %s",c.reader,f.what.c_str(),w,h,f.frames.size(),name.c_str(),a.name.c_str()));
	ctx.label(fmt("%s %s",c.reader,f.what.c_str()));
	std::string p = files::write(ctx,name,f.data);
	std::string d = reads_as(a,f,p,nullptr,c.reader);
	if(!d.empty()) ctx.fail(d);
	// the native readers read the same
	if(f.type == "png" || (f.type == "pgm" && n == 1 && c.fmt != 7) || f.type == "y4m") {
		d = reads_as(a,f,p,f.type.c_str());
		if(!d.empty()) ctx.fail("native reader: " + d);
		d = bulk_as(a,f,p,f.type.c_str());
		if(!d.empty()) ctx.fail("native reader in bulk: " + d);
	}
	unlink(p.c_str());
	if(w*h > 1) ctx.nontrivial(hash_bytes(f.data.data(),f.data.size()));
}

// concatenated PGM frames whose size or depth changes on the way, read by FFmpeg
static void changing(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	size_t w = files::dim(s,30), h = files::dim(s,30), n = 2+s.upto(3);
	auto g = files::grays(s,w,h,n);
	File f; f.w = w; f.h = h; f.tol = 3e-5; f.type = "pgm";
	bool size = s.chance(50);
	size_t k = 1+s.pick(n-1), nw = w, nh = h;
	std::vector<bool> deep;
	if(size) {
		switch(s.pick(4)) { case 0: nw = w+1+s.upto(40); break; case 1: nh = h+1+s.upto(40); break; case 2: if(w > 1) nw = 1+s.pick(w-1); else nh++; break; default: if(h > 1) nh = 1+s.pick(h-1); else nw++; break; }
		if(s.chance(20)) { nw = h; nh = w; if(w == h) nh++; }
	}
	for(size_t i = 0; i < n; i++) {
		if(size && i == k) {
			Gray x(nw*nh,200);
			f.data += files::pgm_bytes(x,nw,nh);
			continue;
		}
		if(!size && (i == k || s.chance(30))) {
			f.data += fmt("P5\n%zu %zu\n65535\n",w,h);
			files::Frame p(w*h);
			for(size_t j = 0; j < w*h; j++) { unsigned v = g[i][j]*257u ^ (j*91u & 255); f.data += (char)(v >> 8); f.data += (char)v; p[j] = v/65535.f; }
			f.frames.push_back(p); deep.resize(f.frames.size()); deep.back() = true;
			continue;
		}
		f.data += files::pgm_bytes(g[i],w,h);
		if(!size || i < k) files::set_frames(f,{g[i]});
	}
	ctx.desc(fmt("FFmpeg %zux%zu, %zu PGM frames, %s at frame %zu%s",w,h,n,size ? "size changes" : "depth changes",k,size ? fmt(" to %zux%zu",nw,nh).c_str() : ""));
	ctx.label(size ? "size change" : "depth change");
	std::string p = files::write(ctx,"f.pgm",f.data);
	deep.resize(f.frames.size());
	Opened o(a,p,nullptr,"FFmpeg");
	PBT_CHECK(ctx,o.im && o.e == RDEOK && ((o.w == w && o.h == h) || (size && o.w == nw && o.h == nh)),"open: error %d, %zux%zu",o.e,o.w,o.h);
	if(o.w != w || o.h != h) { // probing went past the change: the announced size is the later one and the first frame differs from it
		ctx.label("announced the later size");
		std::vector<float> b(o.w*o.h);
		RDError e = 12345;
		PBT_CHECK(ctx,!a.resdet_read_image_frame(o.im,b.data(),&e) && e == RDEINVAL,"first frame of %zux%zu read as %zux%zu, error %d",w,h,o.w,o.h,e);
		ctx.nontrivial(hash_bytes(f.data.data(),f.data.size()));
		return;
	}
	// the caller's buffer has room for one frame of the size announced at its opening
	std::vector<float> buf(w*h);
	for(size_t i = 0; i < f.frames.size(); i++) {
		RDError e = 12345;
		for(auto& v : buf) v = NAN;
		PBT_CHECK(ctx,a.resdet_read_image_frame(o.im,buf.data(),&e) && e == RDEOK,"frame %zu: error %d",i,e);
		if(!deep[i]) { std::string d = files::differ(f,i,buf.data()); if(!d.empty()) ctx.fail(d); continue; }
		// swscale maps 16-bit gray to the limited range; either range is accepted
		double full = 0, lim = 0;
		for(size_t j = 0; j < w*h; j++) { double v = f.frames[i][j]; full = std::max(full,std::fabs(buf[j]-v)); lim = std::max(lim,std::fabs(buf[j]-(16+219*v)/255)); if(std::isnan(buf[j])) lim = full = 1; }
		PBT_CHECK(ctx,full < 2e-3 || lim < 2e-3,"16-bit frame %zu differs by %g (full range) or %g (limited range)",i,full,lim);
	}
	RDError e = 12345;
	bool more = a.resdet_read_image_frame(o.im,buf.data(),&e);
	PBT_CHECK(ctx,!more && e == (size ? RDEINVAL : RDEOK),"after frame %zu: %s, error %d",f.frames.size(),more ? "one more" : "none",e);
	ctx.nontrivial(hash_bytes(f.data.data(),f.data.size()));
}

// videos whose decoder delays and reorders frames, among the packets of other streams
static void videos(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	size_t w = 1+s.small(0,s.chance(90) ? 40 : 300), h = 1+s.small(0,40);
	size_t n = 1+s.small(0,s.chance(80) ? 8 : 60);
	auto g = files::grays(s,w,h,n);
	File f = avenc::encode(s,g,w,h);
	if(f.data.empty()) throw Discard();
	ctx.desc(fmt("FFmpeg %zux%zu %s",w,h,f.what.c_str()));
	ctx.label(f.what.substr(0,f.what.find(',')));
	std::string p = files::write(ctx,"f." + f.type,f.data);
	bool bulk = s.chance(40);
	std::string d = bulk ? bulk_as(a,f,p,s.chance(50) ? f.type.c_str() : nullptr) : reads_as(a,f,p,nullptr,s.chance(50) ? "FFmpeg" : nullptr);
	if(!d.empty()) ctx.fail((bulk ? "in bulk: " : "") + d);
	unlink(p.c_str());
	ctx.nontrivial(hash_bytes(f.data.data(),f.data.size()));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"lossless",lossless,9000,150000},
		{"changing",changing,4000,60000},
		{"videos",videos,6000,100000},
	},[]{ files::WIDEST = 65000; apis = load_apis(); });
}
