// Running one generated scenario in a child process of its own
#pragma once
#include "pbt.hpp"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <poll.h>
#include <signal.h>

namespace HW {

// ---- child processes -------------------------------------------------------------------------
struct ChildFail { std::string msg; };
struct Out { // what the child reports
	std::vector<std::string> labels;
	std::string obs;
	void label(std::string const &l) { labels.push_back(l); }
};
#define CREQ(COND, ...) do { if (!(COND)) { std::ostringstream o__; o__ << std::setprecision(17); HW::put_all(o__, "[" #COND "] ", __VA_ARGS__); throw HW::ChildFail{o__.str()}; } } while (0)
template<typename... A> void put_all(std::ostream &o, A const &... a) { (void)std::initializer_list<int>{((o << a), 0)...}; }

// choices made before a child is started, to be used there
inline std::vector<uint64_t> ahead(pbt::Ctx &c, std::size_t n) { std::vector<uint64_t> v; for (std::size_t i = 0; i < n; i++) v.push_back(c.raw(1u << 20)); return v; }

inline void in_child(pbt::Ctx &c, double timeout_s, std::function<void(Out &)> body) {
	int fd[2];
	if (::pipe(fd) != 0) c.discard();
	std::cout.flush(); std::cerr.flush(); std::fflush(nullptr);
	pid_t pid = ::fork();
	if (pid < 0) { ::close(fd[0]); ::close(fd[1]); c.discard(); }
	if (pid == 0) {
		::close(fd[0]);
		::prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (!std::getenv("H_VERBOSE")) {
			int dn = ::open("/dev/null", O_RDWR);
			::dup2(dn, 1); ::dup2(dn, 2);
		}
		std::string res;
		Out out;
		try { body(out); res = "O"; }
		catch (ChildFail const &f) { res = "F" + f.msg; }
		catch (std::exception const &e) { res = std::string("Funexpected exception: ") + typeid(e).name() + ": " + std::string(e.what()).substr(0, 1500); }
		catch (...) { res = "Funexpected exception of unknown type"; }
		std::string all;
		for (auto &l: out.labels) all += "L" + l + '\0';
		if (!out.obs.empty()) all += "N" + out.obs.substr(0, 3000) + '\0';
		for (auto &ch: res) if (ch == '\0') ch = ' ';
		all += res + '\0';
		std::size_t off = 0;
		while (off < all.size()) { ssize_t w = ::write(fd[1], all.data() + off, all.size() - off); if (w <= 0) break; off += (std::size_t)w; }
		::_exit(0);
	}
	::close(fd[1]);
	std::string data;
	auto t0 = std::chrono::steady_clock::now();
	bool hung = false;
	for (;;) {
		double left = timeout_s - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		if (left <= 0) { hung = true; break; }
		pollfd p{fd[0], POLLIN, 0};
		int r = ::poll(&p, 1, (int)(left * 1000) + 1);
		if (r > 0) {
			char b[4096];
			ssize_t n = ::read(fd[0], b, sizeof b);
			if (n <= 0) break;
			data.append(b, (std::size_t)n);
		}
	}
	if (hung) ::kill(pid, SIGKILL);
	::close(fd[0]);
	int st = 0;
	::waitpid(pid, &st, 0);
	std::string fail;
	bool ok = false;
	std::size_t pos = 0;
	while (pos < data.size()) {
		std::size_t e = data.find('\0', pos);
		if (e == std::string::npos) break;
		std::string m = data.substr(pos, e - pos);
		pos = e + 1;
		if (m.empty()) continue;
		if (m[0] == 'L') c.label(m.substr(1));
		else if (m[0] == 'N') c.note(m.substr(1));
		else if (m[0] == 'F') fail = m.substr(1);
		else if (m[0] == 'O') ok = true;
	}
	if (!fail.empty()) c.fail(fail);
	if (hung) c.fail("did not end within ", timeout_s, " s");
	if (!ok) {
		if (WIFSIGNALED(st)) c.fail("the process was ended by signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")");
		c.fail("the process ended with status ", WEXITSTATUS(st), " before the work was done");
	}
}

} // namespace HW
