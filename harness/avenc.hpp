// Encodes gray frames (H.264 nearly losslessly, as it has no B-frames otherwise) with libavcodec into various containers, with and without reordered and delayed frames.
#pragma once
#include "files.hpp"
extern "C" {
#include <libavcodec/avcodec.h>
#include <libavformat/avformat.h>
#include <libavutil/opt.h>
}
namespace avenc {
using files::File; using files::Gray;
struct Stream { AVCodecContext* c = nullptr; AVStream* st = nullptr; };
struct Choice { const char* codec; const char* formats[6]; };
// pure containers of the codec that keep the frames' number and order
static const Choice CHOICES[] = {
	{"libx264",{"matroska","mp4","mov","nut",nullptr}},
	{"libx264",{"mov","matroska","nut","mp4",nullptr}},
	{"ffv1",{"matroska","nut","mov",nullptr}},
	{"ffvhuff",{"matroska","nut",nullptr}},
	{"png",{"matroska","mov","nut",nullptr}},
	{"rawvideo",{"nut","matroska",nullptr}},
	{"jpegls",{"nut","matroska",nullptr}},
};
static const char* ext(const std::string& fmt) { return fmt == "matroska" ? "mkv" : fmt.c_str(); }
inline bool drain(AVFormatContext* f, Stream& s, AVPacket* p) {
	for(;;) {
		int r = avcodec_receive_packet(s.c,p);
		if(r == AVERROR(EAGAIN) || r == AVERROR_EOF) return true;
		if(r < 0) return false;
		p->stream_index = s.st->index;
		if(!p->duration) p->duration = 1;
		av_packet_rescale_ts(p,s.c->time_base,s.st->time_base);
		if(av_interleaved_write_frame(f,p) < 0) return false;
	}
}
// returns a file without data if this combination cannot be encoded
inline File encode(pbt::Src& s, const std::vector<Gray>& g, size_t w, size_t h) {
	av_log_set_level(AV_LOG_QUIET);
	File out; out.w = w; out.h = h; out.tol = 2e-5;
	const Choice& ch = CHOICES[s.pick(sizeof CHOICES/sizeof *CHOICES)];
	size_t nf = 0; while(ch.formats[nf]) nf++;
	std::string fmtname = ch.formats[s.pick(nf)], codec = ch.codec;
	bool h264 = codec == "libx264";
	if(h264) out.tol = .12; // swscale may compress the range of what the decoder calls YUV; this still tells one frame from another
	int bf = h264 ? (int)s.upto(4) : 0, gop = 1+(int)s.upto(12), refs = 1+(int)s.upto(3); bool pyramid = s.chance(50);
	size_t audio = s.chance(60) ? 1+s.small(0,40) : 0; bool audio_first = s.chance(50);
	out.type = ext(fmtname);
	out.what = pbt::fmt("%s in %s, %zu frames, b-frames %d, group %d, refs %d, audio %zu%s",codec.c_str(),fmtname.c_str(),g.size(),bf,gop,refs,audio,audio_first ? " first" : "");
	struct Clean { AVFormatContext* f = nullptr; Stream v, a; AVPacket* p = nullptr; AVFrame* fr = nullptr; bool io = false;
		~Clean() { avcodec_free_context(&v.c); avcodec_free_context(&a.c); av_packet_free(&p); av_frame_free(&fr); if(f) { if(io) { uint8_t* b; avio_close_dyn_buf(f->pb,&b); av_free(b); } avformat_free_context(f); } } } k;
	if(avformat_alloc_output_context2(&k.f,nullptr,fmtname.c_str(),nullptr) < 0) return out;
	auto video = [&](Stream& st, const char* name, int vw, int vh) {
		const AVCodec* e = avcodec_find_encoder_by_name(name);
		if(!e || !(st.st = avformat_new_stream(k.f,nullptr)) || !(st.c = avcodec_alloc_context3(e))) return false;
		st.c->width = vw; st.c->height = vh; st.c->pix_fmt = AV_PIX_FMT_GRAY8; st.c->color_range = AVCOL_RANGE_JPEG;
		st.c->time_base = {1,25}; st.c->framerate = {25,1}; st.c->gop_size = gop; st.c->max_b_frames = bf; st.c->thread_count = 1;
		if(k.f->oformat->flags & AVFMT_GLOBALHEADER) st.c->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
		if(!strcmp(name,"libx264")) {
			st.c->refs = refs;
			av_opt_set(st.c->priv_data,"preset","ultrafast",0); av_opt_set(st.c->priv_data,"qp","4",0);
			av_opt_set(st.c->priv_data,"x264-params",pbt::fmt("bframes=%d:b-pyramid=%s:b-adapt=0:scenecut=0:ref=%d:rc-lookahead=4:log=-1",bf,pyramid ? "normal" : "none",refs).c_str(),0);
		}
		if(avcodec_open2(st.c,e,nullptr) < 0) return false;
		st.st->time_base = st.c->time_base; st.st->avg_frame_rate = {25,1};
		return avcodec_parameters_from_context(st.st->codecpar,st.c) >= 0;
	};
	auto sound = [&]() {
		const AVCodec* e = avcodec_find_encoder_by_name(fmtname == "mp4" ? "mp2" : "pcm_s16le");
		if(!e || !(k.a.st = avformat_new_stream(k.f,nullptr)) || !(k.a.c = avcodec_alloc_context3(e))) return false;
		k.a.c->sample_rate = 16000; k.a.c->sample_fmt = AV_SAMPLE_FMT_S16; k.a.c->time_base = {1,16000};
		if(e->id == AV_CODEC_ID_MP2) { k.a.c->bit_rate = 32000; }
		av_channel_layout_default(&k.a.c->ch_layout,1);
		if(avcodec_open2(k.a.c,e,nullptr) < 0) return false;
		k.a.st->time_base = k.a.c->time_base;
		return avcodec_parameters_from_context(k.a.st->codecpar,k.a.c) >= 0;
	};
	if(audio && audio_first && !sound()) return out;
	if(!video(k.v,codec.c_str(),(int)w,(int)h)) return out;
	if(audio && !audio_first && !sound()) return out;
	if(avio_open_dyn_buf(&k.f->pb) < 0) return out;
	k.io = true;
	if(avformat_write_header(k.f,nullptr) < 0) return out;
	k.p = av_packet_alloc();
	auto send = [&](Stream& st, const unsigned char* px, size_t pw, size_t ph, int64_t pts) {
		av_frame_free(&k.fr); k.fr = av_frame_alloc();
		k.fr->width = (int)pw; k.fr->height = (int)ph; k.fr->format = AV_PIX_FMT_GRAY8; k.fr->color_range = AVCOL_RANGE_JPEG; k.fr->pts = pts;
		if(av_frame_get_buffer(k.fr,0) < 0) return false;
		for(size_t y = 0; y < ph; y++) memcpy(k.fr->data[0]+y*k.fr->linesize[0],px+y*pw,pw);
		return avcodec_send_frame(st.c,k.fr) >= 0 && drain(k.f,st,k.p);
	};
	int fsize = k.a.c && k.a.c->frame_size ? k.a.c->frame_size : 640; int64_t apts = 0; size_t asent = 0;
	auto samples = [&](double until) {
		while(asent < audio && apts/16000. <= until) {
			av_frame_free(&k.fr); k.fr = av_frame_alloc();
			k.fr->nb_samples = fsize; k.fr->format = AV_SAMPLE_FMT_S16; k.fr->sample_rate = 16000; av_channel_layout_copy(&k.fr->ch_layout,&k.a.c->ch_layout); k.fr->pts = apts;
			if(av_frame_get_buffer(k.fr,0) < 0) return false;
			memset(k.fr->data[0],(int)asent,fsize*2);
			apts += fsize; asent++;
			if(avcodec_send_frame(k.a.c,k.fr) < 0 || !drain(k.f,k.a,k.p)) return false;
		}
		return true;
	};
	for(size_t i = 0; i < g.size(); i++) {
		if(audio && !samples(i/25.)) return out;
		if(!send(k.v,g[i].data(),w,h,i)) return out;
	}
	if(avcodec_send_frame(k.v.c,nullptr) < 0 || !drain(k.f,k.v,k.p)) return out;
	if(audio && (!samples(1e9) || avcodec_send_frame(k.a.c,nullptr) < 0 || !drain(k.f,k.a,k.p))) return out;
	if(av_write_trailer(k.f) < 0) return out;
	uint8_t* b = nullptr; int n = avio_close_dyn_buf(k.f->pb,&b); k.io = false; k.f->pb = nullptr;
	out.data.assign((char*)b,n); av_free(b);
	files::set_frames(out,g);
	return out;
}
}
