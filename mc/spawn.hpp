// run a program of the repository: in the current directory, bounded CPU time
#ifndef SPAWN_HPP
#define SPAWN_HPP
#include "mc.hpp"
#include <sys/resource.h>
#include <sys/wait.h>
struct Ran { int status = -1; bool crashed = false; int sig = 0; std::string out, err; };
inline std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline Ran spawn(const std::string &exe, const std::vector<std::string> &args, const std::string &in, int cpu = 20)
{
	std::ofstream("stdin.txt", std::ios::binary) << in;
	std::vector<char *> av; av.push_back(const_cast<char *>(exe.c_str())); for (auto &a : args) av.push_back(const_cast<char *>(a.c_str())); av.push_back(nullptr);
	pid_t p = fork();
	if (p == 0) {
		int i = open("stdin.txt", O_RDONLY), o = open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open("stderr.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(i, 0); dup2(o, 1); dup2(e, 2);
		rlimit l{(rlim_t)cpu, (rlim_t)cpu + 2}; setrlimit(RLIMIT_CPU, &l); rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
		rlimit fs{1u << 29, 1u << 29}; setrlimit(RLIMIT_FSIZE, &fs);
		execv(exe.c_str(), av.data()); _exit(126);
	}
	int st = 0; waitpid(p, &st, 0);
	Ran r; r.crashed = WIFSIGNALED(st); r.sig = r.crashed ? WTERMSIG(st) : 0; r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
	if (r.status == 126) { std::fprintf(stderr, "cannot run %s\n", exe.c_str()); _exit(78); }
	r.out = slurp("stdout.txt"); r.err = slurp("stderr.txt");
	return r;
}
inline std::string driver(const char *name) { const char *s = getenv((std::string("MC_DRIVER_") + name).c_str()); if (!s) { std::fprintf(stderr, "no driver %s\n", name); _exit(78); } return s; }
#endif
