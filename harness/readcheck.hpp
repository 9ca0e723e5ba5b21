// Reading helpers shared by the file format checks.
#pragma once
#include "rapi.hpp"
#include "files.hpp"

struct Opened {
	const Api& a; RDImage* im = nullptr; size_t w = 777, h = 777; float* buf = (float*)(uintptr_t)0x5a5a5a50; RDError e = 12345;
	Opened(const Api& api, const std::string& path, const char* type, const char* reader = nullptr) : a(api) {
		im = reader ? a.resdet_open_image_with_reader(path.c_str(),reader,&w,&h,&buf,&e) : a.resdet_open_image(path.c_str(),type,&w,&h,&buf,&e);
	}
	~Opened() { if(im) { a.resdet_close_image(im); free(buf); } }
	Opened(const Opened&) = delete;
};

// the whole file must read as f says, frame by frame; returns what is wrong
inline std::string reads_as(const Api& a, const files::File& f, const std::string& path, const char* type = nullptr, const char* reader = nullptr, size_t nframes = (size_t)-1, RDError end = RDEOK) {
	Opened o(a,path,type,reader);
	if(nframes > f.frames.size()) nframes = f.frames.size();
	if(!o.im) return pbt::fmt("open failed with error %d",o.e);
	if(o.e != RDEOK) return pbt::fmt("open succeeded with error %d",o.e);
	if(o.w != f.w || o.h != f.h) return pbt::fmt("size %zux%zu instead of %zux%zu",o.w,o.h,f.w,f.h);
	for(size_t i = 0; i < nframes; i++) {
		memset(o.buf,0xff,o.w*o.h*sizeof(float));
		RDError e = 12345;
		if(!a.resdet_read_image_frame(o.im,o.buf,&e) || e != RDEOK) return pbt::fmt("frame %zu of %zu: error %d",i,nframes,e);
		std::string d = files::differ(f,i,o.buf);
		if(!d.empty()) return d;
	}
	RDError e = 12345;
	if(a.resdet_read_image_frame(o.im,o.buf,&e)) return pbt::fmt("a frame after the %zu there are",nframes);
	if(e != end) return pbt::fmt("error %d instead of %d after frame %zu",e,end,nframes);
	return "";
}
// the same in bulk
inline std::string bulk_as(const Api& a, const files::File& f, const std::string& path, const char* type = nullptr) {
	float* img = (float*)(uintptr_t)0x5a5a5a50; size_t n = 777, w = 777, h = 777;
	RDError e = a.resdet_read_image(path.c_str(),type,&img,&n,&w,&h);
	if(e) return img || n ? pbt::fmt("error %d with outputs %p %zu",e,(void*)img,n) : pbt::fmt("error %d",e);
	std::string d;
	if(w != f.w || h != f.h || n != f.frames.size()) d = pbt::fmt("%zu images of %zux%zu instead of %zu of %zux%zu",n,w,h,f.frames.size(),f.w,f.h);
	for(size_t i = 0; i < n && d.empty(); i++) d = files::differ(f,i,img+i*w*h);
	free(img);
	return d;
}
