// Generators of valid image files together with the pixels they must decode to.
// All encoders are written here (zlib and libjpeg do the entropy coding of PNG and JPEG).
#pragma once
#include "pbt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <csetjmp>
#include <string>
#include <vector>
#include <algorithm>
#ifdef WITH_ZLIB
#include <zlib.h>
#endif
#ifdef WITH_JPEG
#include <jpeglib.h>
#endif

namespace files {
using pbt::Src; using pbt::Rng; using pbt::fmt;
typedef std::vector<float> Frame;

struct File {
	std::string type, data, what;
	size_t w = 0, h = 0;
	std::vector<Frame> frames;
	std::vector<size_t> begin, end; // byte ranges that frame i needs: everything before end[i]
	double tol = 1e-6;
	bool bits = false;              // floats are to be reproduced bit for bit
};

inline std::string write(pbt::Ctx& ctx, const std::string& name, const std::string& data) {
	std::string p = ctx.scratch() + "/" + name;
	FILE* f = fopen(p.c_str(),"wb");
	if(!f || fwrite(data.data(),1,data.size(),f) != data.size()) { perror(p.c_str()); exit(3); }
	fclose(f);
	return p;
}

inline size_t dim(Src& s, size_t max = 40) { if(s.upto(99) == 99) return 1+s.upto(600); return s.chance(70) ? 1+s.upto(std::min<size_t>(max,12)-1) : 1+s.upto(max-1); }

// two dimensions; rarely very wide or very tall
static size_t WIDEST = 1600; // readers take more, detection would take too long
inline void dims(Src& s, size_t& w, size_t& h, size_t max = 40, size_t most = WIDEST) {
	size_t W = dim(s,max), H = dim(s,max);
	if(s.upto(249) == 249) { W = std::min<size_t>(most,200+(s.chance(70) ? s.upto(1400) : s.chance(75) ? s.upto(64800) : 65300+s.upto(200000))); H = 1+s.upto(2); if(s.chance(50)) std::swap(W,H); }
	if(!w) w = W;
	if(!h) h = H;
}
// length of something optional in a header: mostly short, sometimes beyond the usual buffer sizes
inline size_t length(Src& s, size_t usual) { return s.upto(39) < 39 ? s.upto(usual) : s.chance(85) ? 50+s.upto(250) : 1000+s.upto(9000); }
// number of frames: mostly few, sometimes more than any fixed number of buffers
inline size_t many(Src& s, size_t w, size_t h, size_t n) { return w*h <= 64 && s.upto(39) == 39 ? 10+s.upto(s.chance(80) ? 120 : 600) : n; }

// compares one decoded frame; returns an explanation or ""
inline std::string differ(const File& f, size_t frame, const float* got) {
	const Frame& e = f.frames[frame];
	for(size_t i = 0; i < e.size(); i++) {
		bool ok = f.bits && !memcmp(&e[i],&got[i],4);
		if(!ok && std::isnan(e[i]) && std::isnan(got[i])) ok = true;
		if(!ok && !f.bits) ok = std::fabs((double)e[i]-got[i]) <= f.tol*std::max(1.,std::fabs((double)e[i])) || e[i] == got[i];
		if(!ok) return fmt("frame %zu of %zux%zu, pixel (%zu,%zu) is %.9g instead of %.9g",frame,f.w,f.h,i%f.w,i/f.w,got[i],e[i]);
	}
	return "";
}

inline std::string whitespace(Src& s, bool many = true) {
	static const char ws[] = "\n \t\r\v\f";
	std::string o(1,ws[s.pick(6)]);
	while(many && s.chance(20)) o += ws[s.pick(6)];
	if(many && s.upto(199) == 199) o += std::string(length(s,40),ws[s.pick(6)]);
	return o;
}
inline std::string comments(Src& s) {
	std::string o;
	while(s.chance(25)) {
		o += '#';
		size_t n = length(s,12);
		if(n > 40) o += std::string(n,'#');
		else for(; n; n--) { char c = (char)s.upto(255); if(c == '\n') c = ' '; o += c; }
		o += '\n';
	}
	return o;
}
inline std::string number(Src& s, size_t v) { return (s.chance(10) ? std::string(s.upto(3),'0') : s.upto(499) == 499 ? std::string(length(s,30),'0') : "") + std::to_string(v); }

inline File pgm(Src& s, size_t w = 0, size_t h = 0) {
	File f; f.type = "pgm";
	f.w = w; f.h = h; dims(s,f.w,f.h);
	size_t maxval = s.chance(50) ? 255 : 1+s.upto(254);
	std::string c = comments(s);
	f.data = "P5" + (c.empty() || s.chance(80) ? whitespace(s) : "") + c + number(s,f.w) + whitespace(s) + number(s,f.h) + whitespace(s) + number(s,maxval) + whitespace(s,false);
	f.begin = {f.data.size()};
	Rng r = s.bulk();
	int kind = (int)s.pick(4); // some contents look like headers or whitespace
	Frame p(f.w*f.h);
	for(auto& v : p) {
		unsigned b;
		switch(kind) { case 0: case 1: b = (unsigned)r.below(maxval+1); break; case 2: b = (unsigned char)" \n#0159P"[r.below(8)]; break; default: b = r.below(2) ? (unsigned)maxval : 0; break; }
		if(b > maxval) b = (unsigned)maxval;
		f.data += (char)b;
		v = (float)((double)b/maxval);
	}
	f.frames = {p};
	f.end = {f.data.size()};
	f.what = fmt("PGM %zux%zu maxval %zu",f.w,f.h,maxval);
	return f;
}

inline float any_float(Rng& r, bool wild) {
	if(wild && r.below(4) == 0) {
		static const float x[] = {0,-0.f,1e-45f,-1e-40f,3.4028235e38f,-3.4028235e38f,INFINITY,-INFINITY,NAN,1.17549435e-38f};
		return x[r.below(10)];
	}
	if(wild && r.below(3) == 0) { uint32_t b = (uint32_t)r.next(); float v; memcpy(&v,&b,4); return v; }
	return (float)r.unit();
}
inline void put32(std::string& o, float v, bool big) {
	unsigned char b[4]; memcpy(b,&v,4);
	for(int i = 0; i < 4; i++) o += (char)b[big ? 3-i : i];
}
// A scale whose integer part, decimals or exponent has so many digits
inline std::string long_scale(Src& s) {
	std::string digits(s.chance(50) ? length(s,30) : s.of(std::vector<int>{254,255,256,257,511,512,1024,65536}),'0');
	switch(s.pick(3)) {
		case 0: return "1." + digits;
		case 1: return (digits.empty() ? "" : digits.substr(1)) + "1";
		default: return "1e" + (digits.empty() ? "0" : digits);
	}
}
inline File pfm(Src& s, size_t w = 0, size_t h = 0, bool wild = true, size_t maxframes = 4) {
	File f; f.type = "pfm"; f.bits = true;
	f.w = w; f.h = h; dims(s,f.w,f.h,24);
	size_t n = s.chance(50) ? 1 : 1+s.upto(maxframes-1);
	if(maxframes > 1) n = many(s,f.w,f.h,n);
	if(wild) wild = s.chance(50);
	f.what = fmt("PFM %zux%zu frames",f.w,f.h);
	Rng r = s.bulk();
	bool color = s.chance(40), big = s.chance(50);
	for(size_t k = 0; k < n; k++) {
		if(k && s.chance(40)) color = !color;
		if(k && s.chance(40)) big = !big;
		if(k < 6) f.what += fmt(" %s%s",color ? "PF" : "Pf",big ? "/BE" : "/LE");
		else if(k == 6) f.what += fmt("... (%zu)",n);
		static const char* const scale[] = {"1.0","1","0.5","1e0","2.000000","1000","1.0000000000000000","0.003921568627450980392156862745098","000000000000000000000001.5","1.000000e+000","1E-5"};
		size_t sc = s.pick(sizeof scale/sizeof *scale);
		std::string c = comments(s);
		f.data += std::string(color ? "PF" : "Pf") + (c.empty() || s.chance(80) ? whitespace(s) : "") + c + number(s,f.w) + whitespace(s) + number(s,f.h) + whitespace(s) + (big ? s.chance(10) ? "+" : "" : "-") + (s.upto(499) == 499 ? long_scale(s) : scale[sc]) + whitespace(s,false);
		f.begin.push_back(f.data.size());
		Frame p(f.w*f.h);
		for(size_t y = f.h; y-- > 0; ) for(size_t x = 0; x < f.w; x++) {
			if(!color) { float v = any_float(r,wild); put32(f.data,v,big); p[y*f.w+x] = v; }
			else {
				double sum = 0;
				for(int c = 0; c < 3; c++) { float v = (float)(r.unit()*4-1); sum += v; put32(f.data,v,big); }
				p[y*f.w+x] = (float)(sum/3);
			}
		}
		if(color) f.bits = false;
		f.frames.push_back(p);
		f.end.push_back(f.data.size());
	}
	return f;
}

inline std::string note(Src& s) {
	if(s.chance(50)) { // things that mean something elsewhere
		static const char* const t[] = {"W9","H3","Cmono","C444p16","FRAME","F25:1","+",",","(",")","%","=","\"","~","\\","#","P5","\xc3\xa9","\x80","\x01","Ip","x","1","-","*",";","|","'","_"};
		std::string o;
		for(size_t n = 1+s.upto(5); n; n--) o += t[s.pick(sizeof t/sizeof *t)];
		return o;
	}
	size_t n = length(s,20);
	char c = (char)(33+s.upto(93));
	std::string o(n,c);
	if(n && n < 40) for(auto& x : o) x = (char)(33+s.upto(93));
	return o;
}
struct Y4mOpt { int depth; std::string csp; };
inline File y4m(Src& s, size_t w = 0, size_t h = 0, size_t maxframes = 4) {
	File f; f.type = "y4m";
	f.w = w; f.h = h; dims(s,f.w,f.h,30);
	size_t n = s.chance(40) ? 1 : s.upto(maxframes);
	if(maxframes > 1) n = many(s,f.w,f.h,n);
	int depth = 8;
	std::string csp;
	switch(s.pick(9)) {
		case 0: csp = ""; break; // default 420
		case 1: { static const char* const a[] = {"420jpeg","420paldv","420mpeg2","420"}; csp = a[s.pick(4)]; break; }
		case 2: csp = "411"; break;
		case 3: csp = "422"; break;
		case 4: csp = "444"; break;
		case 5: csp = "444alpha"; break;
		case 6: csp = "mono"; if(s.chance(60)) { depth = 9+(int)s.upto(7); csp += std::to_string(depth); } break;
		default: { static const char* const a[] = {"420p","422p","444p"}; depth = 9+(int)s.upto(7); csp = a[s.pick(3)] + std::to_string(depth); break; }
	}
	std::vector<std::string> tags = {"W" + number(s,f.w),"H" + number(s,f.h)};
	if(!csp.empty()) tags.push_back("C" + csp);
	if(s.chance(60)) tags.push_back("F25:1");
	if(s.chance(40)) tags.push_back("Ip");
	if(s.chance(40)) tags.push_back("A1:1");
	if(s.chance(25)) tags.push_back("XYSCSS=420JPEG");
	if(s.chance(15)) tags.push_back("XCOLORRANGE=FULL");
	if(s.chance(25)) tags.push_back("X" + note(s));
	for(size_t i = tags.size(); i-- > 1; ) std::swap(tags[i],tags[s.chance(50) ? s.pick(i+1) : i]);
	f.data = "YUV4MPEG2";
	for(auto& t : tags) f.data += " " + t;
	f.data += "\n";
	std::string k = csp.empty() ? "420" : csp;
	size_t cw = 0, ch = 0, planes = 2;
	if(k.compare(0,3,"420") == 0) { cw = (f.w+1)/2; ch = (f.h+1)/2; }
	else if(k == "411") { cw = (f.w+3)/4; ch = f.h; }
	else if(k.compare(0,3,"422") == 0) { cw = (f.w+1)/2; ch = f.h; }
	else if(k == "444alpha") { cw = f.w; ch = f.h; planes = 3; }
	else if(k.compare(0,3,"444") == 0) { cw = f.w; ch = f.h; }
	f.what = fmt("Y4M %zux%zu C%s frames=%zu",f.w,f.h,csp.empty() ? "(none)" : csp.c_str(),n);
	Rng r = s.bulk();
	unsigned max = (1u << depth)-1;
	for(size_t i = 0; i < n; i++) {
		f.data += "FRAME";
		if(s.chance(25)) f.data += " Ip";
		if(s.chance(15)) f.data += s.chance(40) ? " Xnote=FRAME" : " X" + note(s);
		f.data += "\n";
		f.begin.push_back(f.data.size());
		Frame p(f.w*f.h);
		for(auto& v : p) {
			unsigned x = r.below(20) == 0 ? (r.below(2) ? max : 0) : (unsigned)r.below(max+1);
			f.data += (char)(x & 255);
			if(depth > 8) f.data += (char)(x >> 8);
			v = (float)((double)x/max);
		}
		size_t chroma = cw*ch*planes*(depth > 8 ? 2 : 1);
		if(s.chance(20)) for(size_t c = 0; c < chroma; c++) f.data += "FRAME\n"[c%6]; // chroma that looks like headers
		else for(size_t c = 0; c < chroma; c++) f.data += (char)r.below(256);
		f.frames.push_back(p);
		f.end.push_back(f.data.size());
	}
	return f;
}

#ifdef WITH_ZLIB
inline void be32(std::string& o, uint32_t v) { for(int i = 3; i >= 0; i--) o += (char)(v >> (8*i)); }
inline void chunk(std::string& o, const char* type, const std::string& d) {
	be32(o,(uint32_t)d.size());
	std::string t = std::string(type,4) + d;
	o += t;
	be32(o,(uint32_t)crc32(0,(const Bytef*)t.data(),(uInt)t.size()));
}
inline std::string zip(const std::string& raw, int level) {
	uLongf n = compressBound((uLong)raw.size());
	std::string z(n,'\0');
	if(compress2((Bytef*)&z[0],&n,(const Bytef*)raw.data(),(uLong)raw.size(),level) != Z_OK) exit(3);
	z.resize(n);
	return z;
}
static bool MUCH = true; // also ancillary information that takes more memory than the image
// only_gray8: 8-bit grayscale without ancillary information
inline File png(Src& s, size_t w = 0, size_t h = 0, bool only_gray8 = false) {
	File f; f.type = "png";
	f.w = w; f.h = h; dims(s,f.w,f.h);
	static const int COMBO[][2] = {{0,8},{0,1},{0,2},{0,4},{0,16},{2,8},{2,16},{3,8},{3,4},{3,2},{3,1},{4,8},{4,16},{6,8},{6,16}};
	int k = only_gray8 ? 0 : (int)s.pick(15), color = COMBO[k][0], depth = COMBO[k][1];
	bool interlace = !only_gray8 && s.chance(35), trns = !only_gray8 && (color == 0 || color == 2 || color == 3) && s.chance(30);
	int channels = color == 0 || color == 3 ? 1 : color == 2 ? 3 : color == 4 ? 2 : 4;
	Rng r = s.bulk();
	int kind = (int)s.pick(3); // noise, smooth, few values
	size_t ncol = color == 3 ? 1+s.upto((1u << depth)-1) : 0;
	std::vector<int> pal(ncol*3);
	for(auto& v : pal) v = (int)r.below(256);
	unsigned max = (1u << depth)-1;
	std::vector<unsigned> smp(f.w*f.h*channels);
	for(size_t y = 0; y < f.h; y++) for(size_t x = 0; x < f.w; x++) for(int c = 0; c < channels; c++) {
		unsigned v = kind == 0 ? (unsigned)r.below(max+1ull) : kind == 1 ? (unsigned)((x*7+y*13+c*31)*(max/97+1)) & max : (r.below(2) ? max : (unsigned)r.below(3)) & max;
		if(color == 3) v %= ncol;
		smp[(y*f.w+x)*channels+c] = v;
	}
	Frame p(f.w*f.h);
	for(size_t i = 0; i < p.size(); i++) {
		double v = 0;
		auto val = [&](unsigned q) -> double { return depth == 16 ? q >> 8 : depth == 8 ? q : q*(255/max); };
		if(color == 3) for(int c = 0; c < 3; c++) v += pal[smp[i]*3+c]/3.;
		else if(color == 2 || color == 6) for(int c = 0; c < 3; c++) v += val(smp[i*channels+c])/3.;
		else v = val(smp[i*channels]);
		p[i] = (float)(v/255);
	}
	f.tol = 3e-6;
	// serialise rows per pass, with a filter per row
	size_t bpp = std::max(1,channels*depth/8);
	std::string raw;
	int filterkind = only_gray8 ? (int)s.upto(5) : (int)s.upto(5); // 5: any per row
	auto pass = [&](size_t x0, size_t y0, size_t dx, size_t dy) {
		if(x0 >= f.w || y0 >= f.h) return;
		size_t pw = (f.w-x0+dx-1)/dx;
		std::string prev((pw*channels*depth+7)/8,'\0');
		for(size_t y = y0; y < f.h; y += dy) {
			std::string row(prev.size(),'\0');
			size_t bit = 0;
			for(size_t x = x0; x < f.w; x += dx) for(int c = 0; c < channels; c++) {
				unsigned v = smp[(y*f.w+x)*channels+c];
				if(depth == 16) { row[bit/8] = (char)(v >> 8); row[bit/8+1] = (char)v; }
				else row[bit/8] |= (char)(v << (8-depth-bit%8));
				bit += depth;
			}
			int ft = filterkind == 5 ? (int)r.below(5) : filterkind;
			raw += (char)ft;
			for(size_t i = 0; i < row.size(); i++) {
				int a = i >= bpp ? (unsigned char)row[i-bpp] : 0, b = (unsigned char)prev[i], c = i >= bpp ? (unsigned char)prev[i-bpp] : 0, q = 0;
				switch(ft) {
					case 1: q = a; break;
					case 2: q = b; break;
					case 3: q = (a+b)/2; break;
					case 4: { int e = a+b-c, pa = abs(e-a), pb = abs(e-b), pc = abs(e-c); q = pa <= pb && pa <= pc ? a : pb <= pc ? b : c; break; }
				}
				raw += (char)((unsigned char)row[i]-q);
			}
			prev = row;
		}
	};
	if(!interlace) pass(0,0,1,1);
	else { pass(0,0,8,8); pass(4,0,8,8); pass(0,4,4,8); pass(2,0,4,4); pass(0,2,2,4); pass(1,0,2,2); pass(0,1,1,2); }
	std::string z = zip(raw,(int)s.upto(9));
	f.data = std::string("\x89PNG\r\n\x1a\n",8);
	std::string ih;
	be32(ih,(uint32_t)f.w); be32(ih,(uint32_t)f.h);
	ih += (char)depth; ih += (char)color; ih += '\0'; ih += '\0'; ih += (char)interlace;
	chunk(f.data,"IHDR",ih);
	if(!only_gray8 && s.chance(20)) { std::string g; be32(g,45455+(uint32_t)s.upto(60000)); chunk(f.data,"gAMA",g); }
	if(!only_gray8 && s.chance(20)) chunk(f.data,"tEXt",std::string("Comment\0some text",17));
	bool more = !only_gray8 && s.chance(35); // ancillary chunks of which none changes the samples
	auto some = [&] { return more && r.below(2); };
	auto words = [&](size_t n) { std::string q; for(size_t i = 0; i < n; i++) { unsigned v = (unsigned)r.below(max+1ull); q += (char)(v >> 8); q += (char)v; } return q; };
	if(some()) { std::string q; static const uint32_t v[] = {31270,32900,64000,33000,30000,60000,15000,6000}; for(uint32_t x : v) be32(q,x); chunk(f.data,"cHRM",q); }
	if(some()) chunk(f.data,"sRGB",std::string(1,(char)r.below(4)));
	if(some()) { std::string q; for(int c = 0; c < (color == 3 ? 3 : channels); c++) q += (char)(1+r.below(color == 3 ? 8 : depth)); chunk(f.data,"sBIT",q); }
	if(some() && (color == 2 || color == 6)) chunk(f.data,"PLTE",std::string("\1\2\3\xff\x80\0",6)); // suggested palette
	if(color == 3) { std::string q; for(int v : pal) q += (char)v; chunk(f.data,"PLTE",q); }
	if(some()) chunk(f.data,"bKGD",color == 3 ? std::string(1,(char)r.below(ncol)) : words(color & 2 ? 3 : 1));
	if(some() && color == 3) chunk(f.data,"hIST",words(ncol));
	if(some()) { std::string q; be32(q,(uint32_t)r.below(50)); be32(q,(uint32_t)r.below(50)); q += '\0'; chunk(f.data,"oFFs",q); }
	if(some()) chunk(f.data,"tIME",std::string("\x07\xe8\2\x1d\x0c\0\0",7));
	if(some()) chunk(f.data,"sPLT",std::string("pal\0\x08\1\2\3\4\0\5",11));
	if(some()) chunk(f.data,"zTXt",std::string("Key\0\0",5)+zip("text",6));
	if(some() && r.below(4) == 0) { std::string q("MM\0*\0\0\0\x08\0\1\1\x12\0\3\0\0\0\1\0\0\0\0\0\0\0\0",26); q[19] = (char)(1+r.below(8)); chunk(f.data,"eXIf",q); } // orientation, which does not turn the samples
	if(some() && r.below(8) == 0 && MUCH) switch(r.below(4)) { // much of it
		case 0: chunk(f.data,"tEXt",std::string("Comment\0",8) + std::string(1000+r.below(100000),'t')); break;
		case 1: chunk(f.data,"zTXt",std::string("Key\0\0",5)+zip(std::string(10000+r.below(2000000),'z'),6)); break;
		case 2: for(size_t n = 30+r.below(1200); n; n--) chunk(f.data,"tEXt",fmt("K%zu",n) + std::string("\0v",2)); break;
		default: for(size_t n = 30+r.below(300); n; n--) chunk(f.data,"prVt",std::string(r.below(9),'p')); break;
	}
	if(some()) chunk(f.data,"prVt",words(r.below(40))); // private
	if(!only_gray8 && s.chance(15)) { std::string q; be32(q,2835); be32(q,2835); q += '\1'; chunk(f.data,"pHYs",q); }
	if(trns) {
		std::string t;
		if(color == 3) for(size_t i = 0, n = 1+r.below(ncol); i < n; i++) t += (char)r.below(256);
		else for(int c = 0; c < channels; c++) { unsigned v = smp[r.below(f.w*f.h)*channels+c]; t += (char)(v >> 8); t += (char)v; }
		chunk(f.data,"tRNS",t);
	}
	f.begin = {f.data.size()};
	int split = only_gray8 ? 0 : (int)s.upto(2);
	for(size_t i = 0; i < z.size(); ) {
		if(some() && split) chunk(f.data,"IDAT","");
		size_t n = split == 0 ? z.size() : split == 1 ? 1+r.below(z.size()) : 1+r.below(z.size() > 20000 ? 700 : 7);
		chunk(f.data,"IDAT",z.substr(i,n));
		i += n;
	}
	if(!only_gray8 && s.chance(15)) chunk(f.data,"tEXt",std::string("Title\0x",7));
	chunk(f.data,"IEND","");
	f.frames = {p};
	f.end = {f.data.size()};
	f.what = fmt("PNG %zux%zu colour type %d depth %d%s%s filter %d split %d",f.w,f.h,color,depth,interlace ? " interlaced" : "",trns ? " tRNS" : more ? " ancillary chunks" : "",filterkind,split);
	return f;
}
#endif

#ifdef WITH_JPEG
inline void jpeg_exit(j_common_ptr c) { longjmp(*(jmp_buf*)c->client_data,1); }
inline void jpeg_msg(j_common_ptr, int) {}
struct JpegSpec { int comps, quality, hs, vs, restart; bool progressive, optimize, rgb, cmyk; };
// samples: comps bytes per pixel
inline std::string jpeg_encode(const std::vector<unsigned char>& px, size_t w, size_t h, const JpegSpec& q) {
	jpeg_compress_struct c; jpeg_error_mgr e; jmp_buf jb;
	c.err = jpeg_std_error(&e); e.error_exit = jpeg_exit; e.emit_message = jpeg_msg;
	c.client_data = &jb;
	unsigned char* mem = nullptr; unsigned long len = 0;
	if(setjmp(jb)) { fprintf(stderr,"jpeg encoding failed\n"); exit(3); }
	jpeg_create_compress(&c);
	jpeg_mem_dest(&c,&mem,&len);
	c.image_width = (JDIMENSION)w; c.image_height = (JDIMENSION)h; c.input_components = q.comps;
	c.in_color_space = q.comps == 1 ? JCS_GRAYSCALE : q.cmyk ? JCS_CMYK : q.rgb ? JCS_RGB : JCS_YCbCr;
	jpeg_set_defaults(&c);
	jpeg_set_colorspace(&c,q.comps == 1 ? JCS_GRAYSCALE : q.cmyk ? JCS_CMYK : q.rgb ? JCS_RGB : JCS_YCbCr);
	jpeg_set_quality(&c,q.quality,TRUE);
	if(q.comps == 3 && !q.rgb) { c.comp_info[0].h_samp_factor = q.hs; c.comp_info[0].v_samp_factor = q.vs; }
	if(q.progressive) jpeg_simple_progression(&c);
	c.optimize_coding = q.optimize;
	c.restart_interval = q.restart;
	jpeg_start_compress(&c,TRUE);
	for(size_t y = 0; y < h; y++) { JSAMPROW row = (JSAMPROW)&px[y*w*q.comps]; jpeg_write_scanlines(&c,&row,1); }
	jpeg_finish_compress(&c);
	std::string s((char*)mem,len);
	jpeg_destroy_compress(&c);
	free(mem);
	return s;
}
// the luma plane according to a plain decode without colour conversion
inline bool jpeg_luma(const std::string& d, std::vector<unsigned char>& luma, size_t& w, size_t& h) {
	jpeg_decompress_struct c; jpeg_error_mgr e; jmp_buf jb;
	c.err = jpeg_std_error(&e); e.error_exit = jpeg_exit; e.emit_message = jpeg_msg;
	c.client_data = &jb;
	std::vector<unsigned char> row;
	if(setjmp(jb)) { jpeg_destroy_decompress(&c); return false; }
	jpeg_create_decompress(&c);
	jpeg_mem_src(&c,(unsigned char*)d.data(),d.size());
	jpeg_read_header(&c,TRUE);
	c.out_color_space = c.jpeg_color_space; // as coded
	jpeg_start_decompress(&c);
	w = c.output_width; h = c.output_height;
	luma.resize(w*h); row.resize(w*c.output_components);
	while(c.output_scanline < c.output_height) {
		size_t y = c.output_scanline;
		JSAMPROW p = row.data();
		jpeg_read_scanlines(&c,&p,1);
		for(size_t x = 0; x < w; x++) {
			const unsigned char* q = &row[x*c.output_components];
			luma[y*w+x] = c.jpeg_color_space == JCS_RGB ? (unsigned char)std::lround(.299*q[0]+.587*q[1]+.114*q[2]) : q[0];
		}
	}
	jpeg_finish_decompress(&c);
	jpeg_destroy_decompress(&c);
	return true;
}
// kind of content may be forced; original gray samples are returned for comparison
inline File jpeg(Src& s, std::vector<unsigned char>* gray_original = nullptr, JpegSpec* spec = nullptr, size_t w = 0, size_t h = 0) {
	File f; f.type = s.chance(70) ? "jpg" : "jpeg";
	f.w = w; f.h = h; dims(s,f.w,f.h,70);
	JpegSpec q;
	q.comps = s.chance(45) ? 1 : 3;
	q.rgb = q.comps == 3 && s.chance(15); q.cmyk = false;
	q.quality = s.chance(40) ? 100 : 20+(int)s.upto(80);
	static const int SS[][2] = {{1,1},{2,1},{2,2},{1,2},{4,1}};
	size_t k = s.pick(5); q.hs = SS[k][0]; q.vs = SS[k][1];
	q.progressive = s.chance(30); q.optimize = s.chance(40); q.restart = s.chance(25) ? 1+(int)s.upto(4) : 0;
	int kind = (int)s.pick(3);
	Rng r = s.bulk();
	std::vector<unsigned char> px(f.w*f.h*q.comps);
	double a = r.unit(), b = r.unit();
	for(size_t y = 0; y < f.h; y++) for(size_t x = 0; x < f.w; x++) for(int c = 0; c < q.comps; c++)
		px[(y*f.w+x)*q.comps+c] = (unsigned char)(kind == 0 ? r.below(256) : kind == 1 ? 127+60*std::sin(a*x+c)+60*std::cos(b*y) : ((x/5+y/3+c)&1)*200+20);
	f.data = jpeg_encode(px,f.w,f.h,q);
	if(s.chance(15)) { // a comment segment after SOI
		std::string text(length(s,20),'c');
		size_t n = 2+text.size();
		f.data.insert(2,std::string("\xff\xfe") + (char)(n >> 8) + (char)n + text);
	}
	if(s.chance(15)) { // application segments, among them an orientation, which does not turn the samples
		std::string seg;
		auto app = [&](int n, const std::string& d) { seg += (char)0xff; seg += (char)(0xe0+n); seg += (char)((2+d.size()) >> 8); seg += (char)(2+d.size()); seg += d; };
		std::string x("Exif\0\0MM\0*\0\0\0\x08\0\1\1\x12\0\3\0\0\0\1\0\0\0\0\0\0\0\0",32);
		x[25] = (char)(1+s.upto(7));
		if(s.chance(60)) app(1,x);
		if(s.chance(30)) app(13,std::string(length(s,60),'p'));
		if(s.chance(30)) { size_t n = 1+s.upto(s.chance(80) ? 3 : 40); while(n--) app(2,std::string("ICC_PROFILE\0",12) + std::string(s.chance(20) ? 65000 : 300,'i')); }
		if(!seg.empty()) f.data.insert(f.data[2] == '\xff' && (unsigned char)f.data[3] == 0xe0 ? 4+(unsigned char)f.data[4]*256+(unsigned char)f.data[5] : 2,seg); // after the JFIF segment
	}
	if(q.comps == 1 && gray_original) *gray_original = px;
	if(spec) *spec = q;
	std::vector<unsigned char> luma; size_t W, H;
	if(!jpeg_luma(f.data,luma,W,H) || W != f.w || H != f.h) { fprintf(stderr,"jpeg decoding failed\n"); exit(3); }
	Frame p(f.w*f.h);
	for(size_t i = 0; i < p.size(); i++) p[i] = luma[i]/255.f;
	f.frames = {p};
	f.tol = q.rgb ? 1.01/255 : 1e-6;
	f.begin = {0};
	f.end = {f.data.size()};
	f.what = fmt("JPEG %zux%zu %s q%d %dx%d%s%s restart %d",f.w,f.h,q.comps == 1 ? "gray" : q.rgb ? "RGB" : "YCbCr",q.quality,q.hs,q.vs,q.progressive ? " progressive" : "",q.optimize ? " optimised" : "",q.restart);
	return f;
}
#endif

// ---- lossless gray files for the general readers ----
inline void le16(std::string& o, unsigned v) { o += (char)v; o += (char)(v >> 8); }
inline void le32(std::string& o, unsigned v) { le16(o,v & 65535); le16(o,v >> 16); }

typedef std::vector<unsigned char> Gray; // w*h samples
inline std::vector<Gray> grays(Src& s, size_t w, size_t h, size_t n) {
	std::vector<Gray> v(n);
	Rng r = s.bulk();
	int kind = (int)s.pick(3);
	for(auto& g : v) {
		g.resize(w*h);
		double a = r.unit(), b = r.unit();
		for(size_t i = 0; i < w*h; i++) g[i] = (unsigned char)(kind == 0 ? r.below(256) : kind == 1 ? 127+100*std::sin(a*(i%w)+b*(i/w)) : r.below(2)*255);
	}
	return v;
}
inline void set_frames(File& f, const std::vector<Gray>& g) {
	for(auto& x : g) { Frame p(x.size()); for(size_t i = 0; i < x.size(); i++) p[i] = x[i]/255.f; f.frames.push_back(p); }
}
inline std::string pgm_bytes(const Gray& g, size_t w, size_t h) { return fmt("P5\n%zu %zu\n255\n",w,h) + std::string(g.begin(),g.end()); }
// LZW with literal codes only, a clear code often enough to keep the code size
inline std::string gif_bytes(const std::vector<Gray>& g, size_t w, size_t h) {
	std::string o = "GIF89a";
	le16(o,(unsigned)w); le16(o,(unsigned)h);
	o += (char)0xf7; o += '\0'; o += '\0';
	for(int i = 0; i < 256; i++) o += std::string(3,(char)i);
	if(g.size() > 1) o += std::string("\x21\xff\x0bNETSCAPE2.0\x03\x01\0\0\0",19);
	for(auto& x : g) {
		o += std::string("\x21\xf9\x04\x04\x0a\0\0\0",8);
		o += ','; le16(o,0); le16(o,0); le16(o,(unsigned)w); le16(o,(unsigned)h); o += '\0';
		o += (char)8;
		std::string bits; unsigned acc = 0, n = 0;
		auto put = [&](unsigned code) { acc |= code << n; n += 9; while(n >= 8) { bits += (char)acc; acc >>= 8; n -= 8; } };
		size_t since = 0;
		put(256);
		for(unsigned char v : x) { if(since == 250) { put(256); since = 0; } put(v); since++; }
		put(257);
		if(n) bits += (char)acc;
		for(size_t i = 0; i < bits.size(); i += 255) { size_t k = std::min<size_t>(255,bits.size()-i); o += (char)k; o += bits.substr(i,k); }
		o += '\0';
	}
	return o + ";";
}
inline std::string bmp_bytes(const Gray& g, size_t w, size_t h) {
	std::string o = "BM";
	size_t stride = (w+3)/4*4, off = 14+40+1024;
	le32(o,(unsigned)(off+stride*h)); le32(o,0); le32(o,(unsigned)off);
	le32(o,40); le32(o,(unsigned)w); le32(o,(unsigned)h); le16(o,1); le16(o,8); le32(o,0); le32(o,(unsigned)(stride*h)); le32(o,2835); le32(o,2835); le32(o,256); le32(o,0);
	for(int i = 0; i < 256; i++) { o += std::string(3,(char)i); o += '\0'; }
	for(size_t y = h; y-- > 0; ) { for(size_t x = 0; x < stride; x++) o += x < w ? (char)g[y*w+x] : '\0'; }
	return o;
}
inline std::string tiff_bytes(const Gray& g, size_t w, size_t h) {
	std::string o = std::string("II*\0",4);
	size_t off = 8, ifd = (off+w*h+1)/2*2;
	le32(o,(unsigned)ifd);
	o += std::string(g.begin(),g.end());
	o.resize(ifd,'\0');
	auto ent = [&](unsigned tag, unsigned type, unsigned v) { le16(o,tag); le16(o,type); le32(o,1); le32(o,v); };
	le16(o,9);
	ent(256,4,(unsigned)w); ent(257,4,(unsigned)h); ent(258,3,8); ent(259,3,1); ent(262,3,1); ent(273,4,(unsigned)off); ent(277,3,1); ent(278,4,(unsigned)h); ent(279,4,(unsigned)(w*h));
	le32(o,0);
	return o;
}
// pages of 8 or 16 bits, little-endian, each in up to a few strips
inline std::string tiff_pages(Src& s, const std::vector<std::vector<unsigned>>& g, size_t w, size_t h, int bits) {
	std::string o = std::string("II*\0",4);
	size_t link = o.size(); le32(o,0);
	auto patch = [&](size_t at, size_t v) { std::string d; le32(d,(unsigned)v); o.replace(at,4,d); };
	for(auto& x : g) {
		size_t rows = s.chance(50) ? h : 1+s.upto(h-1), strips = (h+rows-1)/rows, row = w*bits/8;
		size_t start = o.size();
		for(unsigned v : x) { o += (char)(v & 255); if(bits == 16) o += (char)(v >> 8); }
		if(o.size()%2) o += '\0';
		size_t offs = o.size();
		if(strips > 1) { for(size_t i = 0; i < strips; i++) le32(o,(unsigned)(start+i*rows*row)); for(size_t i = 0; i < strips; i++) le32(o,(unsigned)(std::min(rows,h-i*rows)*row)); }
		patch(link,o.size());
		auto ent = [&](unsigned tag, unsigned type, unsigned n, unsigned v) { le16(o,tag); le16(o,type); le32(o,n); le32(o,v); };
		le16(o,9);
		ent(256,4,1,(unsigned)w); ent(257,4,1,(unsigned)h); ent(258,3,1,bits); ent(259,3,1,1); ent(262,3,1,1);
		ent(273,4,(unsigned)strips,(unsigned)(strips > 1 ? offs : start)); ent(277,3,1,1); ent(278,4,1,(unsigned)rows); ent(279,4,(unsigned)strips,(unsigned)(strips > 1 ? offs+4*strips : h*row));
		link = o.size(); le32(o,0);
	}
	return o;
}
inline std::string y4m_bytes(const std::vector<Gray>& g, size_t w, size_t h) {
	std::string o = fmt("YUV4MPEG2 W%zu H%zu F25:1 Ip A1:1 Cmono XCOLORRANGE=FULL\n",w,h);
	for(auto& x : g) o += "FRAME\n" + std::string(x.begin(),x.end());
	return o;
}
// uncompressed gray AVI, with up to two further streams of PCM audio and text, which readers of images have to pass over
inline std::string avi_bytes(const std::vector<Gray>& g, size_t w, size_t h, int video = 0, const std::vector<size_t>& audio = {}, std::vector<size_t>* ends = nullptr) {
	auto ck = [](const std::string& id, const std::string& d) { std::string o = id; le32(o,(unsigned)d.size()); o += d; if(d.size() & 1) o += '\0'; return o; };
	auto list = [&](const char* t, const std::string& d) { return ck("LIST",std::string(t) + d); };
	size_t size = w*h; unsigned streams = audio.empty() ? 1 : 2;
	if(audio.empty()) video = 0;
	size_t samples = 0;
	for(size_t i = 0; i < audio.size(); i++) samples += audio[i];
	std::string avih; le32(avih,40000); le32(avih,0); le32(avih,0); le32(avih,0x110); le32(avih,(unsigned)g.size()); le32(avih,0); le32(avih,streams); le32(avih,(unsigned)size); le32(avih,(unsigned)w); le32(avih,(unsigned)h); avih += std::string(16,'\0');
	std::string strh = "vids"; strh += "Y800"; le32(strh,0); le32(strh,0); le32(strh,0); le32(strh,1); le32(strh,25); le32(strh,0); le32(strh,(unsigned)g.size()); le32(strh,(unsigned)size); le32(strh,0xffffffffu); le32(strh,0); le16(strh,0); le16(strh,0); le16(strh,(unsigned)w); le16(strh,(unsigned)h);
	std::string strf; le32(strf,40); le32(strf,(unsigned)w); le32(strf,(unsigned)h); le16(strf,1); le16(strf,8); strf += "Y800"; le32(strf,(unsigned)size); le32(strf,0); le32(strf,0); le32(strf,0); le32(strf,0);
	std::string auds = "auds"; le32(auds,0); le32(auds,0); le32(auds,0); le32(auds,0); le32(auds,1); le32(auds,8000); le32(auds,0); le32(auds,(unsigned)samples); le32(auds,4096); le32(auds,0xffffffffu); le32(auds,1); le32(auds,0); le32(auds,0);
	std::string wave; le16(wave,1); le16(wave,1); le32(wave,8000); le32(wave,8000); le16(wave,1); le16(wave,8); le16(wave,0);
	std::string vs = list("strl",ck("strh",strh) + ck("strf",strf)), as = audio.empty() ? "" : list("strl",ck("strh",auds) + ck("strf",wave));
	std::string head = list("hdrl",ck("avih",avih) + (video ? as + vs : vs + as));
	std::string vid = fmt("0%ddb",video), aud = fmt("0%dwb",1-video);
	std::string movi, idx;
	auto packet = [&](const std::string& id, const std::string& d) { idx += id; le32(idx,0x10); le32(idx,(unsigned)(4+movi.size())); le32(idx,(unsigned)d.size()); movi += ck(id,d); };
	// audio[i]: samples before frame i, in packets of at most 7 or 1000; the last entry after all frames
	auto sound = [&](size_t n) { size_t most = n%2 ? 7 : 1000; while(n) { size_t k = std::min(n,most); packet(aud,std::string(k,(char)(128+k))); n -= k; } };
	for(size_t i = 0; i < g.size(); i++) {
		if(i < audio.size()) sound(audio[i]);
		packet(vid,std::string(g[i].begin(),g[i].end()));
		if(ends) ends->push_back(20+head.size()+4+movi.size()); // RIFF, its size and kind, LIST, its size and kind
	}
	if(audio.size() > g.size()) sound(audio[g.size()]);
	return ck("RIFF","AVI " + head + list("movi",movi) + ck("idx1",idx));
}
// drawn audio for it
inline std::vector<size_t> avi_audio(Src& s, size_t frames) {
	std::vector<size_t> a;
	if(!s.chance(70)) return a;
	for(size_t i = 0; i <= frames; i++) a.push_back(s.chance(60) ? s.small(0,s.chance(80) ? 60 : 6000) : 0);
	size_t sum = 0; for(size_t x : a) sum += x;
	if(!sum) a[0] = 1;
	return a;
}
#if defined(WITH_ZLIB) && defined(WITH_JPEG)
inline File any(Src& s) {
	switch(s.pick(5)) { case 0: return pgm(s); case 1: return pfm(s); case 2: return y4m(s); case 3: return png(s); default: return jpeg(s); }
}
#endif
}
