#include "vf.hpp"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
extern "C" void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));
#ifdef VF_TSAN
#include <sanitizer/tsan_interface.h>
#include <sanitizer/tsan_interface_atomic.h>
#endif

namespace vf {

uint64_t g_seed = 1;
bool g_thorough = false;
uint64_t g_case = 0;
bool g_replay = false;

static std::string g_out;
static std::set<std::string> g_known;
static const char* volatile g_scen = "main";
static std::mutex& mtx() { static std::mutex* m = new std::mutex; return *m; }
static std::map<std::string, uint64_t>& counters() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
static std::map<std::string, uint64_t>& floors() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
static std::map<std::string, std::unordered_set<uint64_t>>& sets() { static auto* m = new std::map<std::string, std::unordered_set<uint64_t>>; return *m; }
static std::vector<std::string>& samples() { static auto* m = new std::vector<std::string>; return *m; }
static std::string& trc() { static auto* m = new std::string; return *m; }
static std::map<std::string, uint64_t>& known_hits() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
static bool g_later = false;
static char g_later_key[128], g_later_msg[2048];

void scenario(const char* name) { g_scen = name; }

void trace(const char* fmt, ...)
{
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	std::lock_guard<std::mutex> l(mtx());
	std::string& t = trc();
	if (t.size() > (1u << 16)) t.erase(0, 1u << 15);
	t += b;
	t += '\n';
}

void trace_clear() { std::lock_guard<std::mutex> l(mtx()); trc().clear(); }

static void write_all(int fd, const std::string& s)
{
	size_t o = 0;
	while (o < s.size()) {
		ssize_t n = ::write(fd, s.data() + o, s.size() - o);
		if (n <= 0) break;
		o += (size_t)n;
	}
}

static std::string json_str(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

static void report(const char* key, const char* msg)
{
	char b[4096];
	snprintf(b, sizeof b, "VF-FAIL key=%s case=%llu scenario=%s :: %s\n", key,
			(unsigned long long)g_case, g_scen, msg);
	std::string s = b;
	const std::string& t = trc();
	if (!t.empty()) {
		size_t from = t.size() > 6000 ? t.size() - 6000 : 0;
		s += "VF-TRACE (last steps)\n" + t.substr(from) + "VF-TRACE-END\n";
	}
	write_all(2, s);
}

void fail(const char* key, const char* fmt, ...)
{
	char m[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(m, sizeof m, fmt, ap);
	va_end(ap);
	if (g_known.count(key)) {
		{ std::lock_guard<std::mutex> l(mtx()); known_hits()[key]++; }
		throw KnownFail();
	}
	report(key, m);
	_exit(10);
}

void fail_later(const char* key, const char* fmt, ...)
{
	std::lock_guard<std::mutex> l(mtx());
	if (g_later) return;
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(g_later_msg, sizeof g_later_msg, fmt, ap);
	va_end(ap);
	snprintf(g_later_key, sizeof g_later_key, "%s", key);
	g_later = true;
}

void check_later()
{
	if (g_later) {
		g_later = false;
		fail(g_later_key, "%s", g_later_msg);
	}
}

void count(const char* name, uint64_t n) { std::lock_guard<std::mutex> l(mtx()); counters()[name] += n; }
void seen(const char* set, uint64_t h)
{
	std::lock_guard<std::mutex> l(mtx());
	auto& s = sets()[set];
	if (s.size() < 400000) s.insert(h);
}
void floor_of(const char* name, uint64_t n) { std::lock_guard<std::mutex> l(mtx()); floors()[name] = n; }
void sample(const char* fmt, ...)
{
	char m[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(m, sizeof m, fmt, ap);
	va_end(ap);
	std::lock_guard<std::mutex> l(mtx());
	if (samples().size() < 4) samples().push_back(m);
}

// ---------------------------------------------------------------- allocations
// All relaxed: the ledger must not order the threads it watches (race detection).
#define RLX std::memory_order_relaxed
static std::atomic<int64_t> a_live{0};
static std::atomic<uint64_t> a_count{0};
static std::atomic<int64_t> a_fail_at{-1};
static std::atomic<int64_t> a_fail_times{0};
static std::atomic<uint64_t> a_injected{0};
static std::atomic<size_t> a_max{0};

int64_t live_allocs() { return a_live.load(RLX); }
uint64_t alloc_count() { return a_count.load(); }
void fail_alloc_at(int64_t n) { a_fail_times = n >= 0 ? 1 : 0; a_fail_at = n; }
void fail_alloc_from(int64_t n, int64_t times) { a_fail_times = times; a_fail_at = n; }
uint64_t injected_failures() { return a_injected.load(); }
void max_single_alloc(size_t n) { a_max = n; }

static bool deny(size_t n)
{
	a_count.fetch_add(1, RLX);
	size_t mx = a_max.load(std::memory_order_relaxed);
	if (mx && n > mx) { a_injected.fetch_add(1, RLX); return true; }
	if (a_fail_at.load(std::memory_order_relaxed) < 0) return false;
	int64_t k = a_fail_at.load();
	if (k > 0) { a_fail_at--; return false; }
	if (a_fail_times.load() > 0) {
		a_fail_times--;
		a_injected.fetch_add(1, RLX);
		if (a_fail_times.load() == 0) a_fail_at = -1;
		return true;
	}
	a_fail_at = -1;
	return false;
}

// ---------------------------------------------------------------- scheduling
static std::atomic<int> c_level{0};
static std::atomic<bool> c_spurious{false}, c_storm{false};
static std::atomic<uint64_t> c_sig{0};
static std::atomic<uint64_t> c_spur{0};
static std::atomic<int> c_blocked{0};
int blocked_waiters() { return c_blocked.load(RLX); }
static std::atomic<uint32_t> c_next_tid{1};
static std::atomic<int64_t> c_threads{0};
static std::atomic<int64_t> c_fail_thread{-1};
static std::atomic<int64_t> c_fail_sync{-1};
static std::atomic<uint64_t> c_failed_sync{0};
static thread_local uint32_t t_id = 0;
static thread_local uint64_t t_rng = 0;

static uint64_t trnd()
{
	if (!t_id) t_id = c_next_tid.fetch_add(1, RLX);
	if (!t_rng) t_rng = Rng::mix(g_seed * 1000003 + g_case * 7919 + t_id) | 1;
	t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17;
	return t_rng;
}
void chaos(int level, bool spurious) { c_level = level; c_spurious = spurious; }
void chaos_thread_seed(uint64_t s) { t_rng = Rng::mix(s) | 1; }
static void ev(int kind)
{
	if (!c_level.load(std::memory_order_relaxed)) return;
	if (!t_id) t_id = c_next_tid.fetch_add(1, RLX);
	uint64_t o = c_sig.load(std::memory_order_relaxed);
	c_sig.store(hash2(o, ((uint64_t)t_id << 8) | (uint64_t)kind), std::memory_order_relaxed);
}
void perturb()
{
	int lv = c_level.load(std::memory_order_relaxed);
	if (!lv) return;
	uint64_t r = trnd();
	if (lv >= 2 && r % 61 == 0) { usleep((useconds_t)(r >> 32) % 60); return; }
	if (lv >= 3 && r % 257 == 0) { usleep((useconds_t)(r >> 32) % 600); return; }
	if (r % 5 == 0) sched_yield();
	else if (r % 7 == 0) for (volatile int i = 0; i < (int)((r >> 20) % 200); i = i + 1) ;
}
uint64_t schedule_signature() { return c_sig.load(); }
void schedule_reset() { c_sig = 0; c_next_tid = 1; t_id = 0; }
uint64_t spurious_wakeups() { return c_spur.load(); }
void wake_storm(bool on) { c_storm = on; }
int64_t threads_created() { return c_threads.load(); }
void fail_thread_create_at(int64_t n) { c_fail_thread = n; }
void fail_sync_init_at(int64_t n) { c_fail_sync = n; }
uint64_t failed_sync_inits() { return c_failed_sync; }

// ---------------------------------------------------------------- clock
static std::atomic<bool> k_on{false};
static std::atomic<int64_t> k_sec{0}, k_nsec{0}, k_msec{0}, k_mnsec{0};
void set_clock(bool on, int64_t s, int64_t n, int64_t ms, int64_t mn)
{
	k_sec = s;
	k_nsec = n;
	k_msec = ms < 0 ? s : ms;
	k_mnsec = ms < 0 ? n : mn;
	k_on = on;
}

void* plain_malloc(size_t n) { return malloc(n); }
void* plain_realloc(void* p, size_t n) { return realloc(p, n); }
void plain_free(void* p) { free(p); }

// ---------------------------------------------------------------- watchdog
static std::atomic<uint64_t> w_prog{0};
static std::atomic<int> w_limit{60};
static std::atomic<bool> w_stop{false};
void progress() { w_prog++; }
void watchdog_limit(int s) { w_limit = s; }

// The last words of a dying or stalled process.  Sanitizer runtimes hold locks while they report, so nothing here
// allocates, formats through libc or is instrumented.
#define VF_BARE __attribute__((disable_sanitizer_instrumentation, noinline))
static const std::string* g_trace_now = &trc();
VF_BARE static void raw(const char* p, size_t n)
{
	while (n) {
		long k = syscall(SYS_write, 2, p, n);
		if (k <= 0) return;
		p += k;
		n -= (size_t)k;
	}
}
VF_BARE static void raw_str(const char* p)
{
	size_t n = 0;
	while (((const volatile char*)p)[n]) n++;
	raw(p, n);
}
VF_BARE static void last_words(const char* tag)
{
	char b[24];
	int i = 24;
	uint64_t v = g_case;
	do b[--i] = (char)('0' + v % 10); while (v /= 10);
	raw_str("\n");
	raw_str(tag);
	raw_str(" case=");
	raw(b + i, (size_t)(24 - i));
	raw_str(" scenario=");
	raw_str(g_scen);
	raw_str("\nVF-TRACE (last steps)\n");
	size_t n = g_trace_now->size(), k = n > 4000 ? 4000 : n;
	raw(g_trace_now->data() + (n - k), k);
	raw_str("VF-TRACE-END\n");
}

static void* watchdog(void*)
{
	uint64_t last = w_prog.load(std::memory_order_relaxed);
	int idle = 0;
	while (!w_stop.load(std::memory_order_relaxed)) {
		struct timespec ts = {0, 250 * 1000 * 1000};
		syscall(SYS_nanosleep, &ts, NULL);
		uint64_t now = w_prog.load(std::memory_order_relaxed);
		if (now != last) { last = now; idle = 0; continue; }
		if (++idle > w_limit.load(std::memory_order_relaxed) * 4) {
			last_words("VF-HANG");
			syscall(SYS_exit_group, 11);
		}
	}
	return NULL;
}

static void on_death() { last_words("VF-CRASH"); }

static void on_signal(int s)
{
	on_death();
	signal(s, SIG_DFL);
	raise(s);
}

bool in_child(const std::function<void()>& fn, std::string& why, int timeout_s)
{
	int fd[2];
	if (pipe(fd) != 0) { perror("pipe"); _exit(2); }
	fflush(NULL);
	pid_t p = fork();
	if (p < 0) { perror("fork"); _exit(2); }
	if (p == 0) {
		close(fd[0]);
		dup2(fd[1], 2);
		alarm((unsigned)timeout_s);
		try { fn(); } catch (KnownFail&) { _exit(0); }
		_exit(0);
	}
	close(fd[1]);
	std::string out;
	char b[4096];
	ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) if (out.size() < (1u << 20)) out.append(b, (size_t)n);
	close(fd[0]);
	int st = 0;
	waitpid(p, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "a child was killed from outside\n"); _exit(2); }	// no answer
	size_t q;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 10 && (q = out.find("VF-FAIL key=")) != std::string::npos) {
		size_t e = out.find(' ', q + 12);
		why = out.substr(q + 12, e - q - 12);
		trace("child: %.400s", out.c_str() + q);
	}
	else if ((q = out.find("AddressSanitizer: ")) != std::string::npos) {
		size_t e = out.find_first_of(" \n:", q + 18);
		why = out.substr(q + 18, e - q - 18);
		trace("child: %.400s", out.c_str() + q);
	}
	else if (WIFSIGNALED(st)) why = WTERMSIG(st) == SIGALRM ? "timeout" : WTERMSIG(st) == SIGSEGV ? "SEGV" : "signal";
	else why = "exit";
	return false;
}

static void write_stats()
{
	std::string j = "{\"counters\":{";
	bool f = true;
	for (auto& c : counters()) { j += (f ? "" : ",") + json_str(c.first) + ":" + std::to_string(c.second); f = false; }
	j += "},\"floors\":{";
	f = true;
	for (auto& c : floors()) { j += (f ? "" : ",") + json_str(c.first) + ":" + std::to_string(c.second); f = false; }
	j += "},\"known\":{";
	f = true;
	for (auto& c : known_hits()) { j += (f ? "" : ",") + json_str(c.first) + ":" + std::to_string(c.second); f = false; }
	j += "},\"sets\":[";
	f = true;
	for (auto& s : sets()) { j += (f ? "" : ",") + json_str(s.first); f = false; }
	j += "],\"samples\":[";
	f = true;
	for (auto& s : samples()) { j += (f ? "" : ",") + json_str(s); f = false; }
	j += "]}\n";
	for (auto& s : sets()) {
		std::string fn = g_out + "." + s.first + ".set";
		FILE* fp = fopen(fn.c_str(), "wb");
		if (!fp) { perror(fn.c_str()); _exit(2); }
		for (uint64_t h : s.second) fwrite(&h, 8, 1, fp);
		fclose(fp);
	}
	FILE* fp = fopen(g_out.c_str(), "w");
	if (!fp) { perror(g_out.c_str()); _exit(2); }
	fputs(j.c_str(), fp);
	fclose(fp);
}

int run(int argc, char** argv, uint64_t nq, uint64_t nt,
		const std::function<void(uint64_t, Rng&)>& one)
{
	uint64_t shard = 0, shards = 1;
	int64_t only = -1;
	double scale = 1;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string a = argv[i], v = argv[i + 1];
		if (a == "--seed") g_seed = strtoull(v.c_str(), NULL, 10);
		else if (a == "--tier") g_thorough = v == "thorough";
		else if (a == "--shard") { shard = strtoull(v.c_str(), NULL, 10); }
		else if (a == "--shards") shards = strtoull(v.c_str(), NULL, 10);
		else if (a == "--only") only = strtoll(v.c_str(), NULL, 10);
		else if (a == "--out") g_out = v;
		else if (a == "--scale") scale = atof(v.c_str());
		else if (a == "--limit") w_limit = atoi(v.c_str());
		else if (a == "--known") {
			size_t o = 0;
			while (o < v.size()) {
				size_t e = v.find(',', o);
				if (e == std::string::npos) e = v.size();
				g_known.insert(v.substr(o, e - o));
				o = e + 1;
			}
		}
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
	else for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, on_signal);
	signal(SIGPIPE, SIG_IGN);
	pthread_t wt;
	pthread_create(&wt, NULL, watchdog, NULL);
	uint64_t n = (uint64_t)((double)(g_thorough ? nt : nq) * scale);
	if (n < 1) n = 1;
	if (only >= 0 && n <= (uint64_t)only) n = (uint64_t)only + 1;
	for (uint64_t i = 0; i < n; i++) {
		if (only >= 0) { if ((uint64_t)only != i) continue; g_replay = true; }
		else if ((i + i / shards) % shards != shard) continue;	// kinds of case often go by i % 8: spread each over the shards
		g_case = i;
		Rng r(Rng::mix(g_seed * 0x9e3779b97f4a7c15ULL) ^ Rng::mix(i * 2 + 1));
		trace_clear();
		scenario("main");
		fail_alloc_at(-1);
		t_rng = 0;
		progress();
		try { one(i, r); }
		catch (KnownFail&) { }
		check_later();
		count("cases");
	}
	w_stop = true;
	pthread_join(wt, NULL);
	if (!g_out.empty()) write_stats();
	return 0;
}
} // namespace vf

using namespace vf;

extern "C" {
void* vf_malloc(size_t n)
{
	if (deny(n)) return NULL;
	void* p = malloc(n);
	if (p) a_live.fetch_add(1, RLX);
	return p;
}
void* vf_calloc(size_t a, size_t b)
{
	size_t t;
	if (deny(__builtin_mul_overflow(a, b, &t) ? SIZE_MAX : t)) return NULL;
	void* p = calloc(a, b);
	if (p) a_live.fetch_add(1, RLX);
	return p;
}
void* vf_realloc(void* q, size_t n)
{
	if (deny(n)) return NULL;
	if (q && n == 0) { a_live.fetch_sub(1, RLX); free(q); return NULL; }
	void* p = realloc(q, n);
	if (p && !q) a_live.fetch_add(1, RLX);
	return p;
}
void vf_free(void* p)
{
	if (p) a_live.fetch_sub(1, RLX);
	free(p);
}
char* vf_strdup(const char* s)
{
	if (deny(strlen(s) + 1)) return NULL;
	char* p = strdup(s);
	if (p) a_live.fetch_add(1, RLX);
	return p;
}
char* vf_strndup(const char* s, size_t n)
{
	size_t l = strnlen(s, n);
	if (deny(l + 1)) return NULL;
	char* p = (char*)malloc(l + 1);
	if (p) { memcpy(p, s, l); p[l] = 0; a_live.fetch_add(1, RLX); }
	return p;
}
void* vf_valloc(size_t n)
{
	if (deny(n)) return NULL;
	void* p = NULL;
	if (posix_memalign(&p, 4096, n) != 0) return NULL;
	a_live.fetch_add(1, RLX);
	return p;
}
int vf_posix_memalign(void** out, size_t a, size_t n)
{
	if (deny(n)) return ENOMEM;
	int r = posix_memalign(out, a, n);
	if (r == 0) a_live.fetch_add(1, RLX);
	return r;
}
void* vf_aligned_alloc(size_t a, size_t n)
{
	if (deny(n)) return NULL;
	void* p = aligned_alloc(a, n);
	if (p) a_live.fetch_add(1, RLX);
	return p;
}
void* vf_memalign(size_t a, size_t n)
{
	if (deny(n)) return NULL;
	void* p = NULL;
	if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n) != 0) return NULL;
	a_live.fetch_add(1, RLX);
	return p;
}
void* vf_reallocarray(void* q, size_t k, size_t n)
{
	size_t t;
	if (__builtin_mul_overflow(k, n, &t)) { errno = ENOMEM; return NULL; }
	return vf_realloc(q, t);
}
int vf_vasprintf(char** out, const char* f, va_list a)
{
	va_list b;
	va_copy(b, a);
	int n = vsnprintf(NULL, 0, f, b);
	va_end(b);
	char* p = n < 0 || deny((size_t)n + 1) ? NULL : (char*)malloc((size_t)n + 1);
	if (!p) return -1;
	a_live.fetch_add(1, RLX);
	vsnprintf(p, (size_t)n + 1, f, a);
	*out = p;
	return n;
}
int vf_asprintf(char** out, const char* f, ...)
{
	va_list a;
	va_start(a, f);
	int n = vf_vasprintf(out, f, a);
	va_end(a);
	return n;
}
int vf_clock_gettime(clockid_t c, struct timespec* ts)
{
	if (k_on.load(RLX)) {
		bool wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
		ts->tv_sec = wall ? k_sec : k_msec;
		ts->tv_nsec = wall ? k_nsec : k_mnsec;
		return 0;
	}
	return clock_gettime(c, ts);
}
int vf_pthread_mutex_lock(pthread_mutex_t* m) { perturb(); int r = pthread_mutex_lock(m); ev(1); return r; }
int vf_pthread_mutex_trylock(pthread_mutex_t* m) { perturb(); int r = pthread_mutex_trylock(m); ev(r ? 6 : 1); return r; }
int vf_pthread_mutex_unlock(pthread_mutex_t* m) { ev(2); int r = pthread_mutex_unlock(m); perturb(); return r; }
static bool spur()
{
	if (!c_spurious.load(std::memory_order_relaxed)) return false;
	if (trnd() % 3 != 0) return false;
	c_spur.fetch_add(1, RLX);
	return true;
}
int vf_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (spur()) {
		pthread_mutex_unlock(m);
		sched_yield();
		pthread_mutex_lock(m);
		return 0;
	}
	ev(3);
	c_blocked.fetch_add(1, RLX);
	int r = pthread_cond_wait(c, m);
	c_blocked.fetch_sub(1, RLX);
	ev(4);
	return r;
}
int vf_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
	if (spur()) {
		pthread_mutex_unlock(m);
		sched_yield();
		pthread_mutex_lock(m);
		return 0;
	}
	if (c_storm.load(RLX)) {			// woken for nothing again and again, until the time given
		struct timespec n;
		clock_gettime(CLOCK_REALTIME, &n);
		n.tv_nsec += 300000;
		if (n.tv_nsec >= 1000000000) { n.tv_nsec -= 1000000000; n.tv_sec++; }
		if (n.tv_sec < t->tv_sec || (n.tv_sec == t->tv_sec && n.tv_nsec < t->tv_nsec)) {
			pthread_cond_timedwait(c, m, &n);
			c_spur.fetch_add(1, RLX);
			return 0;
		}
	}
	ev(3);
	c_blocked.fetch_add(1, RLX);
	int r = pthread_cond_timedwait(c, m, t);
	c_blocked.fetch_sub(1, RLX);
	ev(r ? 7 : 4);
	return r;
}
int vf_pthread_cond_signal(pthread_cond_t* c) { ev(5); perturb(); return pthread_cond_signal(c); }
int vf_pthread_cond_broadcast(pthread_cond_t* c) { ev(5); perturb(); return pthread_cond_broadcast(c); }
static bool sync_init_fails()
{
	int64_t k = c_fail_sync.load(RLX);
	if (k < 0) return false;
	c_fail_sync = k - 1;
	if (k == 0) c_failed_sync.fetch_add(1, RLX);
	return k == 0;
}
int vf_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { return sync_init_fails() ? EAGAIN : pthread_mutex_init(m, a); }
int vf_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { return sync_init_fails() ? EAGAIN : pthread_cond_init(c, a); }
int vf_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	int64_t k = c_fail_thread.load(RLX);
	if (k >= 0) {
		c_fail_thread = k - 1;
		if (k == 0) return EAGAIN;
	}
	int r = pthread_create(t, a, fn, arg);
	if (r == 0) c_threads.fetch_add(1, RLX);
	return r;
}

#ifdef VF_TSAN
// ThreadSanitizer does not model stand-alone fences.  The library's atomics are
// routed through these wrappers, which remember the atomics a thread touched and
// turn a fence into the acquire/release edges the memory model gives it.
static thread_local const volatile void* t_last[8];
static thread_local unsigned t_pos;
static thread_local bool t_rel;
static inline void note(const volatile void* p) { t_last[t_pos++ & 7] = p; }
static inline void pre(const volatile void* p) { perturb(); if (t_rel) __tsan_release((void*)p); }
void vf_tsan_fence(int mo)
{
	if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME)
		for (int i = 0; i < 8; i++) if (t_last[i]) __tsan_acquire((void*)t_last[i]);
	if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) t_rel = true;
	__tsan_atomic_thread_fence((__tsan_memory_order)mo);
}
#define W(N, T) \
T vf_tsan_##N##_load(const volatile T* a, int mo) { T r = __tsan_atomic##N##_load(a, (__tsan_memory_order)mo); note(a); ev(8); return r; } \
void vf_tsan_##N##_store(volatile T* a, T v, int mo) { pre(a); __tsan_atomic##N##_store(a, v, (__tsan_memory_order)mo); ev(9); } \
T vf_tsan_##N##_exchange(volatile T* a, T v, int mo) { pre(a); T r = __tsan_atomic##N##_exchange(a, v, (__tsan_memory_order)mo); note(a); ev(8); return r; } \
T vf_tsan_##N##_fetch_add(volatile T* a, T v, int mo) { pre(a); T r = __tsan_atomic##N##_fetch_add(a, v, (__tsan_memory_order)mo); note(a); ev(8); return r; } \
T vf_tsan_##N##_fetch_sub(volatile T* a, T v, int mo) { pre(a); T r = __tsan_atomic##N##_fetch_sub(a, v, (__tsan_memory_order)mo); note(a); ev(8); return r; } \
T vf_tsan_##N##_fetch_and(volatile T* a, T v, int mo) { pre(a); T r = __tsan_atomic##N##_fetch_and(a, v, (__tsan_memory_order)mo); note(a); ev(8); return r; } \
T vf_tsan_##N##_fetch_or(volatile T* a, T v, int mo) { pre(a); T r = __tsan_atomic##N##_fetch_or(a, v, (__tsan_memory_order)mo); note(a); ev(8); return r; } \
int vf_tsan_##N##_cas(volatile T* a, T* e, T v, int mo, int fmo) { pre(a); T x = *e; int ok = __tsan_atomic##N##_compare_exchange_strong(a, &x, v, (__tsan_memory_order)mo, (__tsan_memory_order)fmo); note(a); ev(8); if (!ok) *e = x; return ok; } \
int vf_tsan_##N##_casw(volatile T* a, T* e, T v, int mo, int fmo) { pre(a); T x = *e; int ok = __tsan_atomic##N##_compare_exchange_strong(a, &x, v, (__tsan_memory_order)mo, (__tsan_memory_order)fmo); note(a); ev(8); if (!ok) *e = x; return ok; } \
T vf_tsan_##N##_cas_val(volatile T* a, T e, T v, int mo, int fmo) { pre(a); T r = __tsan_atomic##N##_compare_exchange_val(a, e, v, (__tsan_memory_order)mo, (__tsan_memory_order)fmo); note(a); ev(8); return r; }
W(8, __tsan_atomic8)
W(16, __tsan_atomic16)
W(32, __tsan_atomic32)
W(64, __tsan_atomic64)
#endif
}
