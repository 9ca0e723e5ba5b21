// Ways to hand a file's bytes to the library.
#pragma once
#include "files.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <cstdio>

// a name under which the bytes can be opened: a regular file, a pipe holding them all, or standard input (from either)
struct Route {
	enum Kind { REGULAR, PIPE, STDIN_FILE, STDIN_PIPE };
	std::string name, path; int fd = -1; Kind kind;
	bool ok = true;
	int back = -1;
	// relative: a regular file is named by its file name alone, from its own directory
	Route(pbt::Ctx& ctx, Kind k, const std::string& filename, const std::string& data, bool relative = false) : kind(k) {
		if(k == REGULAR || k == STDIN_FILE) path = files::write(ctx,filename,data);
		else {
			int p[2];
			if(pipe(p)) { perror("pipe"); exit(3); }
			if(data.size() > 60000 && fcntl(p[1],F_SETPIPE_SZ,1 << 20) < (int)data.size()) { close(p[0]); close(p[1]); ok = false; return; }
			if(write(p[1],data.data(),data.size()) != (ssize_t)data.size()) { perror("pipe write"); exit(3); }
			close(p[1]);
			fd = p[0];
		}
		if(k == REGULAR && relative) {
			name = filename;
			if((back = open(".",O_RDONLY|O_CLOEXEC)) < 0 || chdir(ctx.scratch().c_str())) { perror("chdir"); exit(3); }
		}
		else if(k == REGULAR) name = path;
		else if(k == PIPE) name = pbt::fmt("/proc/self/fd/%d",fd);
		else {
			std::string src = fd >= 0 ? pbt::fmt("/proc/self/fd/%d",fd) : path;
			if(!freopen(src.c_str(),"rb",stdin)) { perror("freopen"); exit(3); }
			name = "-";
		}
	}
	bool stdin_open() const { return fcntl(0,F_GETFD) >= 0 && fileno(stdin) == 0; }
	~Route() {
		if(kind == STDIN_FILE || kind == STDIN_PIPE) if(!freopen("/dev/null","rb",stdin)) exit(3);
		if(fd >= 0) close(fd);
		if(!path.empty()) unlink(path.c_str());
		if(back >= 0) { if(fchdir(back)) exit(3); close(back); }
	}
	Route(const Route&) = delete;
	const char* what() const { static const char* const n[] = {"file","pipe","stdin from a file","stdin from a pipe"}; return n[kind]; }
};
