// Support for the hand-written programs: verdict lines, counters, a seeded source of randomness.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace h {

inline std::uint64_t seed = 1;
inline long scale = 1;              // thorough runs are longer
inline std::mt19937_64 rng;
inline long evals = 0, violations = 0;
inline std::unordered_set<std::uint64_t> distinct;
inline std::map<std::string, long> seen;
inline std::vector<std::string> samples;
inline std::string current = "start";

inline std::uint64_t fnv(std::string_view s, std::uint64_t x = 1469598103934665603ull) { for (char c : s) { x ^= static_cast<unsigned char>(c); x *= 1099511628211ull; } return x; }
inline long below(long n) { return n <= 0 ? 0 : static_cast<long>(rng() % static_cast<std::uint64_t>(n)); }
inline bool coin(int pct = 50) { return below(100) < pct; }
template <class C> auto& pick(C& c) { return c[static_cast<std::size_t>(below(static_cast<long>(std::size(c))))]; }

inline std::string clean(std::string s, std::size_t n = 700)
{
	std::string o;
	for (char c : s) { if (c == '\t') o += "\\t"; else if (c == '\n') o += "\\n"; else if (c == '\0') o += "\\0"; else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned char>(c)); o += b; } else o += c; }
	if (o.size() > n) o = o.substr(0, n) + "...";
	return o;
}

inline void bad(const std::string& key, const std::string& detail)
{
	static std::map<std::string, int> told;      // a few of each kind, so that none hides another
	++violations;
	if (told.size() > 60 && !told.count(key)) return;
	if (++told[key] <= 4) { printf("V\t%s\t%s\n", clean(key, 120).c_str(), clean(detail).c_str()); fflush(stdout); }
}

// run something that may end the process in a child; what it wrote, or how it died
inline std::string aside(const std::function<std::string()>& f)
{
	fflush(stdout);
	int fd[2];
	if (pipe(fd)) return "no pipe";
	pid_t pid = fork();
	if (pid == 0)
	{
		close(fd[0]);
		int null = open("/dev/null", O_WRONLY);
		if (null >= 0) { dup2(null, 1); dup2(null, 2); }
		for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) signal(s, SIG_DFL);
		std::string r = "=" + f();
		for (std::size_t k = 0; k < r.size();) { auto w = write(fd[1], r.data() + k, r.size() - k); if (w <= 0) break; k += std::size_t(w); }
		_exit(0);
	}
	close(fd[1]);
	std::string out; char b[4096];
	for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) out.append(b, std::size_t(k));
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	return WIFSIGNALED(st) ? "died" : WEXITSTATUS(st) ? "ended with " + std::to_string(WEXITSTATUS(st)) : out;
}

// one observed case: what distinguishes it, and whether it exercised anything
inline void saw(const std::string& what, const std::string& id, bool nontrivial = true)
{
	++evals; ++seen[what];
	if (nontrivial) distinct.insert(fnv(id, fnv(what)));
	if (samples.size() < 12 && evals % 211 == 1) samples.push_back(clean(what + ": " + id, 200));
	current = what + ": " + id;
}

inline void expect(bool ok, const std::string& key, const std::string& detail) { if (!ok) bad(key, detail); }

inline void json_str(const std::string& s) { putchar('"'); for (char c : clean(s)) { if (c == '"' || c == '\\') putchar('\\'); putchar(c); } putchar('"'); }

inline void on_death(int sig)
{
	std::string m = "V\tcrash\tsignal " + std::to_string(sig) + " in " + clean(current) + "\n";
	[[maybe_unused]] auto r = write(1, m.data(), m.size());
	_exit(70);
}

inline void begin(int argc, char** argv)
{
	if (argc > 1) seed = std::stoull(argv[1]);
	if (argc > 2) scale = std::stol(argv[2]);
	rng.seed(seed);
#if !defined(__SANITIZE_ADDRESS__) && !defined(VF_SAN)
	for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) signal(s, on_death);
#endif
}

inline int end()
{
	printf("S\t{\"evals\":%ld,\"distinct_nontrivial\":%zu,\"violations\":%ld,\"seen\":{", evals, distinct.size(), violations);
	bool first = true;
	for (auto& [k, v] : seen) { if (!first) putchar(','); first = false; json_str(k); printf(":%ld", v); }
	printf("},\"samples\":[");
	for (std::size_t i = 0; i < samples.size(); i++) { if (i) putchar(','); json_str(samples[i]); }
	printf("]}\n");
	return 0;
}

} // namespace h
