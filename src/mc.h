// Exhaustive explorer used by every check in /verif.
//
// A harness is straight-line code that asks the explorer for every answer of its environment:
//     int c = mc::choose(n);          // all n answers are explored, exhaustively
// and reports a broken property with MC_FAIL(key, "text ...").
//
// Two engines share that interface:
//  * ODOMETER: stateless search; the body is re-executed from its start once for each choice vector, in
//    lexicographic order (for bodies that cost microseconds). Work is split over processes by prefix.
//  * FORK: at a choice point the process forks, so every branch continues from a byte-exact snapshot of the
//    whole process (object under test, its heap, library statics, the C library) - used for the full EKF,
//    whose steps are expensive. No state is shared between branches.
// Replay mode re-runs one recorded choice vector in a fresh process and prints the narrated steps.
#pragma once

#include <atomic>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc
{

constexpr int MAX_TRACE = 4096;
constexpr int MAX_VIOL = 48;
constexpr int MAX_SAMPLES = 8;
constexpr uint64_t STATE_SLOTS = 1ull << 23;

struct Violation {
	std::atomic<int> used;
	char key[128];
	char text[768];
	char part[64];
	int len;
	int trace[MAX_TRACE];
};

struct Shared {
	std::atomic<uint64_t> transitions, executions, states, outcomes, viol_total, evals, nontrivial, pruned, capped, machine_error;
	std::atomic<int> tokens;
	std::atomic<int> nviol;
	std::atomic<int> nsamples;
	Violation viol[MAX_VIOL];
	char samples[MAX_SAMPLES][512];
	std::atomic<uint64_t> table[STATE_SLOTS];
	std::atomic<uint64_t> otable[1 << 16];
};

struct Prune {};   // thrown to end one path of the odometer engine

enum Engine { ODOMETER, FORK, REPLAY };

inline Shared *&sh() { static Shared *s = nullptr; return s; }
struct State {
	Engine engine{ODOMETER};
	std::string property, part, only_part;
	bool thorough{false};
	uint64_t seed{1};
	int nproc{8};
	std::vector<int> trace;       // choices made on this path
	std::vector<int> arity;       // odometer: arities
	std::vector<int> prefix;      // odometer/replay: forced choices
	size_t pos{0};
	int worker{0}, workers{1}, split_depth{0};
	uint64_t split_index{0};
	bool has_token{false};
	bool in_body{false};
	std::vector<pid_t> kids;
	std::string narr;             // narrated steps, replay only
	std::vector<std::string> rules, assumptions;
	std::string extra;            // further JSON members of coverage
};
inline State &st() { static State s; return s; }
inline bool replaying() { return st().engine == REPLAY; }
inline bool mode(const char *m)
{
	const char *a = getenv("MC_ARGS");
	return a && std::string(a) == m;
}
inline bool thorough() { return st().thorough; }

inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 32;
	return h;
}
template<typename T> uint64_t hash_pod(uint64_t h, const T &v)
{
	const unsigned char *p = reinterpret_cast<const unsigned char *>(&v);

	for (size_t i = 0; i < sizeof(T); i++) { h = (h ^ p[i]) * 0x100000001b3ull; }

	return mix(h, sizeof(T));
}
inline uint64_t hash_bytes(uint64_t h, const void *d, size_t n)
{
	const unsigned char *p = static_cast<const unsigned char *>(d);

	for (size_t i = 0; i < n; i++) { h = (h ^ p[i]) * 0x100000001b3ull; }

	return mix(h, n);
}

// counts a distinct (hashed) state; returns true when it had not been seen
inline bool visit(uint64_t h)
{
	if (h == 0) { h = 1; }

	for (uint64_t k = 0, i = h & (STATE_SLOTS - 1); k < 64; k++, i = (i + 1) & (STATE_SLOTS - 1)) {
		uint64_t cur = sh()->table[i].load(std::memory_order_relaxed);

		if (cur == h) { return false; }

		if (cur == 0) {
			if (sh()->table[i].compare_exchange_strong(cur, h)) { sh()->states++; return true; }

			if (cur == h) { return false; }
		}
	}

	return true; // table crowded: not counted
}
inline void outcome(uint64_t h)
{
	h = mix(h, 77);

	if (h == 0) { h = 1; }

	for (uint64_t k = 0, i = h & 0xffff; k < 64; k++, i = (i + 1) & 0xffff) {
		uint64_t cur = sh()->otable[i].load(std::memory_order_relaxed);

		if (cur == h) { return; }

		if (cur == 0) {
			if (sh()->otable[i].compare_exchange_strong(cur, h)) { sh()->outcomes++; return; }

			if (cur == h) { return; }
		}
	}
}
inline void transition(uint64_t n = 1) { sh()->transitions.fetch_add(n, std::memory_order_relaxed); }
inline void states(uint64_t n) { sh()->states.fetch_add(n, std::memory_order_relaxed); }
inline void evaluation(bool nontrivial_case = true)
{
	sh()->evals.fetch_add(1, std::memory_order_relaxed);

	if (nontrivial_case) { sh()->nontrivial.fetch_add(1, std::memory_order_relaxed); }
}
// local counters for hot loops
struct Count {
	uint64_t n{0}, nt{0};
	void add(bool nontrivial_case = true) { n++; nt += nontrivial_case; }
	uint64_t tr{0}, states{0};
	~Count() { sh()->transitions.fetch_add(tr); sh()->states.fetch_add(states); sh()->evals.fetch_add(n); sh()->nontrivial.fetch_add(nt); }
};
inline void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char *fmt, ...)
{
	if (sh()->nsamples.load() >= MAX_SAMPLES) { return; }

	const int i = sh()->nsamples.fetch_add(1);

	if (i >= MAX_SAMPLES) { return; }

	va_list ap;
	va_start(ap, fmt);
	vsnprintf(sh()->samples[i], sizeof(sh()->samples[i]), fmt, ap);
	va_end(ap);
}
inline void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char *fmt, ...)
{
	if (!replaying()) { return; }

	char buf[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	st().narr += buf;
	st().narr += "\n";
}

inline void record(const char *key, const char *text)
{
	Shared *s = sh();
	s->viol_total++;
	const int have = s->nviol.load();

	for (int i = 0; i < have && i < MAX_VIOL; i++) {
		if (s->viol[i].used.load() == 2 && strcmp(s->viol[i].key, key) == 0) {
			return; // one witness per key
		}
	}

	const int i = s->nviol.fetch_add(1);

	if (i >= MAX_VIOL) { s->nviol.store(MAX_VIOL); return; }

	Violation &v = s->viol[i];
	snprintf(v.key, sizeof(v.key), "%s", key);
	snprintf(v.text, sizeof(v.text), "%s", text);
	snprintf(v.part, sizeof(v.part), "%s", st().part.c_str());
	v.len = int(st().trace.size()) < MAX_TRACE ? int(st().trace.size()) : MAX_TRACE;

	for (int k = 0; k < v.len; k++) { v.trace[k] = st().trace[k]; }

	v.used.store(2);
}

[[noreturn]] inline void end_path();

// report a violation of the property on the current path; the path continues (use MC_FAIL_STOP to end it)
inline void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
inline void fail(const char *key, const char *fmt, ...)
{
	char buf[768];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	note("  !! %s: %s", key, buf);
	record(key, buf);

	// development aid: tell the mutation sweep that something was found
	if (const char *f = getenv("MC_FIRST")) {
		if (FILE *o = fopen(f, "a")) { fprintf(o, "%s | %s\n", key, buf); fclose(o); }
	}
}
#define MC_FAIL(key, ...) do { mc::fail(key, __VA_ARGS__); } while (0)
#define MC_CHECK(cond, key, ...) do { if (!(cond)) { mc::fail(key, __VA_ARGS__); } } while (0)

// a problem of the machinery itself (never a verdict about the code)
[[noreturn]] inline void machine_error(const char *text)
{
	fprintf(stderr, "MACHINERY ERROR: %s\n", text);
	sh()->machine_error++;
	_exit(9);
}

inline void arm_hang_timer(int seconds = 120)
{
	itimerval t{};
	t.it_value.tv_sec = seconds;
	setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

inline int run_children_wait()
{
	State &s = st();

	for (pid_t p : s.kids) { int status = 0; waitpid(p, &status, 0); if (WIFSIGNALED(status)) { sh()->machine_error++; } }

	s.kids.clear();
	return 0;
}

[[noreturn]] inline void fork_exit()
{
	State &s = st();

	if (s.has_token) { sh()->tokens++; s.has_token = false; }

	run_children_wait();
	_exit(0);
}

inline int choose(int n)
{
	State &s = st();

	if (n <= 0) { machine_error("choose(0)"); }

	if (s.engine == REPLAY) {
		int c = 0;

		if (s.pos < s.prefix.size()) { c = s.prefix[s.pos]; }

		if (c < 0 || c >= n) { machine_error("replay diverged: recorded choice out of range"); }

		s.pos++;
		s.trace.push_back(c);
		return c;
	}

	if (s.engine == ODOMETER) {
		int c;

		if (s.pos < s.prefix.size()) {
			c = s.prefix[s.pos];

			if (c >= n) { machine_error("divergence: recorded choice out of range on re-execution"); }

			if (s.arity[s.pos] != n) { machine_error("divergence: arity changed on re-execution"); }

		} else {
			c = 0;
			s.prefix.push_back(0);
			s.arity.push_back(n);
		}

		s.pos++;
		s.trace.push_back(c);

		if (s.workers > 1 && int(s.pos) <= s.split_depth) {
			s.split_index = s.split_index * 31 + c;

			if (int(s.pos) == s.split_depth && int(mix(s.split_index, 5) % s.workers) != s.worker) { throw Prune(); }
		}

		return c;
	}

	// FORK
	if (n == 1) { s.trace.push_back(0); return 0; }

	for (int c = 0; c < n - 1; c++) {
		bool async = false;
		int t = sh()->tokens.load();

		while (t > 0) { if (sh()->tokens.compare_exchange_weak(t, t - 1)) { async = true; break; } }

		fflush(nullptr);
		const pid_t p = fork();

		if (p < 0) {
			// out of processes: wait for our own and try again
			if (async) { sh()->tokens++; }

			run_children_wait();
			usleep(20000);
			c--;
			continue;
		}

		if (p == 0) {
			s.kids.clear();
			s.has_token = async;
			s.trace.push_back(c);
			arm_hang_timer();
			return c;
		}

		if (async) {
			s.kids.push_back(p);

		} else {
			int status = 0;
			waitpid(p, &status, 0);

			if (WIFSIGNALED(status)) { sh()->machine_error++; }
		}
	}

	s.trace.push_back(n - 1);
	arm_hang_timer();
	return n - 1;
}

[[noreturn]] inline void end_path()
{
	if (st().engine == FORK) { fork_exit(); }

	throw Prune();
}

inline void crash_handler(int sig)
{
	char buf[96];

	if (!st().in_body) { _exit(8); }

	const char *what = sig == SIGVTALRM ? "hang" : "crash";
	snprintf(buf, sizeof(buf), "the code under test %s (signal %d) on this path", sig == SIGVTALRM ? "did not return" : "crashed", sig);

	if (replaying()) { fprintf(stdout, "%s\n  !! %s: %s\n", st().narr.c_str(), what, buf); fflush(stdout); }

	record(what, buf);

	if (st().engine == FORK) { fork_exit(); }

	_exit(replaying() ? 3 : 4);
}

inline void install_handlers()
{
	static char alt[1 << 16];
	stack_t ss{};
	ss.ss_sp = alt;
	ss.ss_size = sizeof(alt);
	sigaltstack(&ss, nullptr);

	for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGTRAP}) {
		struct sigaction sa {};
		sa.sa_handler = crash_handler;
		sa.sa_flags = SA_ONSTACK | SA_NODEFER;
		sigaction(sig, &sa, nullptr);
	}
}

inline void init(int argc, char **argv, const char *property)
{
	State &s = st();
	s.property = property;
	void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

	if (m == MAP_FAILED) { perror("mmap"); exit(9); }

	sh() = static_cast<Shared *>(m);
	const char *tier = getenv("VERIF_TIER");
	s.thorough = tier && strcmp(tier, "thorough") == 0;
	const char *seed = getenv("VERIF_SEED");

	if (seed) { s.seed = strtoull(seed, nullptr, 10); }

	s.nproc = int(sysconf(_SC_NPROCESSORS_ONLN));

	if (s.nproc < 1) { s.nproc = 1; }

	if (s.nproc > 16) { s.nproc = 16; }

	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--replay") && i + 1 < argc) {
			FILE *f = fopen(argv[++i], "r");

			if (!f) { perror("replay file"); exit(9); }

			char line[1 << 16];

			while (fgets(line, sizeof(line), f)) {
				if (!strncmp(line, "part ", 5)) { s.only_part = std::string(line + 5); while (!s.only_part.empty() && s.only_part.back() == '\n') { s.only_part.pop_back(); } }

				if (!strncmp(line, "choices", 7)) {
					char *p = line + 7;

					while (true) { char *e; long v = strtol(p, &e, 10); if (e == p) { break; } s.prefix.push_back(int(v)); p = e; }
				}

				if (!strncmp(line, "tier thorough", 13)) { s.thorough = true; }
			}

			fclose(f);
			s.engine = REPLAY;
		}
	}

	install_handlers();
}

// explore one named part of a check with the given engine
inline void explore(const char *part, Engine engine, const std::function<void()> &body, int split_depth = 2)
{
	State &s = st();
	s.part = part;

	if (replaying()) {
		if (s.only_part != part) { return; }

		s.trace.clear();
		s.pos = 0;
		s.in_body = true;
		arm_hang_timer();

		try { body(); } catch (Prune &) {}

		s.in_body = false;
		return;
	}

	fflush(nullptr);

	if (engine == FORK) {
		sh()->tokens.store(s.nproc - 1);
		const pid_t p = fork();

		if (p == 0) {
			s.engine = FORK;
			s.has_token = false;
			s.trace.clear();
			s.kids.clear();
			s.in_body = true;
			arm_hang_timer();
			body();
			sh()->executions++;
			fork_exit();
		}

		int status = 0;
		waitpid(p, &status, 0);

		if (p < 0 || WIFSIGNALED(status)) { sh()->machine_error++; }

		return;
	}

	std::vector<pid_t> kids;
	const int workers = split_depth > 0 ? s.nproc : 1;

	for (int w = 0; w < workers; w++) {
		const pid_t p = fork();

		if (p == 0) {
			s.engine = ODOMETER;
			s.worker = w;
			s.workers = workers;
			s.split_depth = split_depth;
			s.prefix.clear();
			s.arity.clear();
			s.in_body = true;
			arm_hang_timer(3000);

			while (true) {
				s.trace.clear();
				s.pos = 0;
				s.split_index = 0;
				bool complete = true;

				try { body(); } catch (Prune &) { complete = false; }

				if (complete) {
					// a path shorter than the split depth belongs to worker 0
					if (workers > 1 && int(s.pos) < split_depth && w != 0) { /* counted by worker 0 */ }

					else { sh()->executions++; }
				}

				if (s.pos < s.prefix.size()) { s.prefix.resize(s.pos); s.arity.resize(s.pos); }

				while (!s.prefix.empty() && s.prefix.back() + 1 >= s.arity.back()) { s.prefix.pop_back(); s.arity.pop_back(); }

				if (s.prefix.empty()) { break; }

				s.prefix.back()++;
			}

			_exit(0);
		}

		kids.push_back(p);
	}

	for (pid_t p : kids) {
		int status = 0;
		waitpid(p, &status, 0);

		if (WIFSIGNALED(status) || (WIFEXITED(status) && WEXITSTATUS(status) != 0 && WEXITSTATUS(status) != 4)) { sh()->machine_error++; }
	}
}

// Enumerate a finite grid [0,n) in parallel; fn(i) is called for every i (contiguous blocks, deterministic).
// The failing index is the replay witness.
inline void for_all(const char *part, uint64_t n, const std::function<void(uint64_t)> &fn)
{
	State &s = st();
	s.part = part;

	if (replaying()) {
		if (s.only_part != part) { return; }

		uint64_t i = 0;

		for (int d : s.prefix) { i = i * 65536 + uint64_t(d); }

		s.in_body = true;
		arm_hang_timer();

		if (i < n) { try { fn(i); } catch (Prune &) {} }

		s.in_body = false;
		return;
	}

	fflush(nullptr);
	std::vector<pid_t> kids;

	for (int w = 0; w < s.nproc; w++) {
		const pid_t p = fork();

		if (p == 0) {
			s.in_body = true;
			s.trace.assign(3, 0);
			arm_hang_timer(3000);

			for (uint64_t i = n * w / s.nproc; i < n * (w + 1) / s.nproc; i++) {
				s.trace[0] = int(i >> 32);
				s.trace[1] = int((i >> 16) & 0xffff);
				s.trace[2] = int(i & 0xffff);

				try { fn(i); } catch (Prune &) {}

				sh()->executions.fetch_add(1, std::memory_order_relaxed);
			}

			_exit(0);
		}

		kids.push_back(p);
	}

	for (pid_t p : kids) {
		int status = 0;
		waitpid(p, &status, 0);

		if (WIFSIGNALED(status) || (WIFEXITED(status) && WEXITSTATUS(status) != 0 && WEXITSTATUS(status) != 4)) { sh()->machine_error++; }
	}
}

inline std::string jstr(const std::string &in)
{
	std::string o = "\"";

	for (char c : in) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }

		else if (c == '\n') { o += "\\n"; }

		else if ((unsigned char)c < 32 || (unsigned char)c > 126) { o += ' '; }

		else { o += c; }
	}

	return o + "\"";
}

inline void rule(const char *text) { st().rules.push_back(text); }
inline void assume(const char *text) { st().assumptions.push_back(text); }

// write the raw result for check.py; returns the process exit code
inline int finish()
{
	State &s = st();
	Shared *h = sh();

	if (replaying()) {
		printf("%s", s.narr.c_str());
		const int n = h->nviol.load();

		for (int i = 0; i < n && i < MAX_VIOL; i++) {
			if (h->viol[i].used.load() == 2) { printf("REPRODUCED key=%s %s\n", h->viol[i].key, h->viol[i].text); }
		}

		fflush(stdout);
		return n ? 1 : 0;
	}

	std::string o = "{";
	auto num = [&](const char *k, uint64_t v) { o += std::string(o.size() > 1 ? "," : "") + "\"" + k + "\":" + std::to_string(v); };
	num("transitions", h->transitions);
	num("executions", h->executions);
	num("states", h->states);
	num("outcomes", h->outcomes);
	num("evaluations", h->evals);
	num("nontrivial", h->nontrivial);
	num("capped", h->capped);
	num("machine_error", h->machine_error);
	num("violation_count", h->viol_total);
	o += ",\"rules\":[";

	for (size_t i = 0; i < s.rules.size(); i++) { o += (i ? "," : "") + jstr(s.rules[i]); }

	o += "],\"assumptions\":[";

	for (size_t i = 0; i < s.assumptions.size(); i++) { o += (i ? "," : "") + jstr(s.assumptions[i]); }

	o += "],\"samples\":[";

	for (int i = 0; i < h->nsamples && i < MAX_SAMPLES; i++) { o += (i ? "," : "") + jstr(h->samples[i]); }

	o += "],\"violations\":[";
	bool first = true;

	for (int i = 0; i < h->nviol && i < MAX_VIOL; i++) {
		const Violation &v = h->viol[i];

		if (v.used.load() != 2) { continue; }

		o += first ? "" : ",";
		first = false;
		o += "{\"key\":" + jstr(v.key) + ",\"text\":" + jstr(v.text) + ",\"part\":" + jstr(v.part) + ",\"trace\":[";

		for (int k = 0; k < v.len; k++) { o += (k ? "," : "") + std::to_string(v.trace[k]); }

		o += "]}";
	}

	o += "]}";
	const char *path = getenv("MC_RESULT");
	FILE *f = path ? fopen(path, "w") : stdout;

	if (!f) { perror("result"); return 9; }

	fprintf(f, "%s\n", o.c_str());

	if (path) { fclose(f); }

	return h->machine_error ? 9 : (h->nviol ? 1 : 0);
}

} // namespace mc
