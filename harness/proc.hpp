// Running a program and collecting what it prints.
#pragma once
#include "pbt.hpp"
#include <fcntl.h>
#include <spawn.h>
#include <unistd.h>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>
extern char** environ;

namespace proc {
inline std::string slurp(const std::string& p) {
	std::string o; char b[65536]; size_t n;
	FILE* f = fopen(p.c_str(),"rb");
	if(!f) return o;
	while((n = fread(b,1,sizeof b,f))) o.append(b,n);
	fclose(f);
	return o;
}
struct Ran { int status = -1; bool exited = false; std::string out, err; };
inline std::string quote(const std::vector<std::string>& a) {
	std::string o;
	for(size_t i = 1; i < a.size(); i++) { o += i > 1 ? " " : ""; o += a[i].empty() || a[i].find_first_of(" \t\n'\"*") != std::string::npos ? "'" + a[i] + "'" : a[i]; }
	return o;
}
inline std::string brief(const std::string& s, size_t n = 300) { return s.size() <= n ? s : s.substr(0,n) + pbt::fmt("...(%zu bytes)",s.size()); }
// in: path to be opened as standard input, or "" for none
inline Ran run(pbt::Ctx& ctx, const std::vector<std::string>& argv, const std::string& in = "", int seconds = 60) {
	std::string o = ctx.scratch() + "/stdout", e = ctx.scratch() + "/stderr";
	posix_spawn_file_actions_t fa;
	posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa,0,in.empty() ? "/dev/null" : in.c_str(),O_RDONLY,0);
	posix_spawn_file_actions_addopen(&fa,1,o.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600);
	posix_spawn_file_actions_addopen(&fa,2,e.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600);
	std::vector<char*> av;
	for(auto& a : argv) av.push_back((char*)a.c_str());
	av.push_back(nullptr);
	pid_t pid;
	int r = posix_spawn(&pid,argv[0].c_str(),&fa,nullptr,av.data(),environ);
	posix_spawn_file_actions_destroy(&fa);
	if(r) { fprintf(stderr,"cannot run %s: %s\n",argv[0].c_str(),strerror(r)); exit(3); }
	Ran x; int st = 0;
	timespec t0, t; clock_gettime(CLOCK_MONOTONIC,&t0);
	for(long wait = 200000;; wait = wait < 5000000 ? wait*2 : wait) {
		pid_t w = waitpid(pid,&st,WNOHANG);
		if(w == pid) break;
		if(w < 0 && errno != EINTR) { perror("waitpid"); exit(3); }
		clock_gettime(CLOCK_MONOTONIC,&t);
		if(t.tv_sec-t0.tv_sec > seconds) { kill(pid,SIGKILL); waitpid(pid,&st,0); ctx.fail(pbt::fmt("%s did not end within %d s",quote(argv).c_str(),seconds)); }
		timespec d = {0,wait}; nanosleep(&d,nullptr);
	}
	x.exited = WIFEXITED(st);
	x.status = x.exited ? WEXITSTATUS(st) : WTERMSIG(st);
	x.out = slurp(o); x.err = slurp(e);
	unlink(o.c_str()); unlink(e.c_str());
	if(!x.exited) ctx.fail(pbt::fmt("%s ended by signal %d",quote(argv).c_str(),x.status));
	if(x.status == 99) ctx.fail(pbt::fmt("%s: sanitizer report: %s",quote(argv).c_str(),brief(x.err,3000).c_str()));
	return x;
}
}
