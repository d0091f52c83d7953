// Shared runtime of all harnesses: deterministic generator, case loop, verdicts,
// measured counters, allocation ledger and fault injector, schedule perturbation.
#pragma once
#include <alloca.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <string>
#include <vector>

namespace vf {

struct Rng {
	uint64_t s[2];
	explicit Rng(uint64_t seed = 1) { reseed(seed); }
	static uint64_t mix(uint64_t z)
	{
		z += 0x9e3779b97f4a7c15ULL;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	void reseed(uint64_t x) { s[0] = mix(x); s[1] = mix(x ^ 0xdeadbeefcafef00dULL); }
	uint64_t u64()
	{
		uint64_t a = s[0], b = s[1];
		s[0] = b;
		a ^= a << 23;
		s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
		return s[1] + b;
	}
	uint32_t u32() { return (uint32_t)(u64() >> 32); }
	// uniform in [0,n)
	uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
	// uniform in [lo,hi]
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
	bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	void fill(void* p, size_t n)
	{
		uint8_t* b = (uint8_t*)p;
		for (size_t i = 0; i < n; i++) b[i] = (uint8_t)u64();
	}
};

struct KnownFail {};	// thrown when a listed finding ends a case

// ---- run parameters
extern uint64_t g_seed;
extern bool g_thorough;
extern uint64_t g_case;			// index of the running case
extern bool g_replay;			// a single case was asked for

// ---- verdicts.  key identifies the failure; a key listed as known ends the
// case by exception, any other ends the process.
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// For use where an exception may not cross (C callbacks): remembers the first.
void fail_later(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void check_later();
#define VF_CHECK(cond, key, ...) do { if (!(cond)) ::vf::fail(key, __VA_ARGS__); } while (0)

// Name of what is being exercised; part of the key of crashes and hangs.
void scenario(const char* name);
// Append to the trace of the current case (printed on failure).
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void trace_clear();

// Run fn in a forked child.  Returns true if it exited 0; otherwise 'why' holds a
// short class such as "stack-overflow", "heap-buffer-overflow", "exit", "signal".
bool in_child(const std::function<void()>& fn, std::string& why, int timeout_s = 60);

// ---- measured evidence
void count(const char* name, uint64_t n = 1);		// thread-safe
void seen(const char* set, uint64_t hash);			// distinct items observed (thread-safe)
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// The run is vacuous (an error, not a verdict) unless the counter reached n.
void floor_of(const char* name, uint64_t n);
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL)
{
	const uint8_t* b = (const uint8_t*)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; h ^= h >> 29; }
	return h;
}
inline uint64_t hash2(uint64_t a, uint64_t b) { return Rng::mix(a * 0x9e3779b97f4a7c15ULL ^ b); }

// ---- allocation ledger (covers the library and the harness's C allocations)
// Memory outside the ledger.
void* plain_malloc(size_t n);
void* plain_realloc(void* p, size_t n);
void plain_free(void* p);
int64_t live_allocs();
uint64_t alloc_count();					// allocations made so far
void fail_alloc_at(int64_t n);			// n-th allocation from now fails; <0 = off
void fail_alloc_from(int64_t n, int64_t times);
uint64_t injected_failures();
size_t live_bytes();
void max_single_alloc(size_t n);		// allocations above this return NULL (0 = off)
// On-demand fault mode: allocations only fail for the thread that armed it.

// ---- clock substitution for objects whose clock_gettime is redirected
// The second pair is the time the monotonic clock shows (by default the same).
void set_clock(bool on, int64_t sec = 0, int64_t nsec = 0, int64_t mono_sec = -1, int64_t mono_nsec = 0);

// ---- schedule perturbation
void chaos(int level, bool spurious);	// 0 = off
void chaos_thread_seed(uint64_t s);		// give the calling thread its own stream
void perturb();							// a perturbation point in harness code
uint64_t schedule_signature();			// hash of the observed order of sync events
void schedule_reset();
uint64_t spurious_wakeups();
void wake_storm(bool on);				// timed waits are woken for nothing several times a millisecond
int blocked_waiters();					// threads inside a condition wait of the library right now
int64_t threads_created();				// by the library
void fail_thread_create_at(int64_t n);
void fail_sync_init_at(int64_t n);		// the n-th initialisation of a lock or condition from now fails (-1 = off)
uint64_t failed_sync_inits();

// ---- progress (watchdog)
void progress();
void watchdog_limit(int seconds);

int run(int argc, char** argv, uint64_t n_quick, uint64_t n_thorough,
		const std::function<void(uint64_t, Rng&)>& one_case);
} // namespace vf

// The library's stack-allocation macros assign alloca()'s void* to typed pointers.
struct VfAny {
	void* p;
	template <class T> operator T*() const { return (T*)p; }
};
#undef alloca
#define alloca(n) (VfAny{__builtin_alloca(n)})

extern "C" {
void* vf_malloc(size_t);
void* vf_calloc(size_t, size_t);
void* vf_realloc(void*, size_t);
void vf_free(void*);
char* vf_strdup(const char*);
char* vf_strndup(const char*, size_t);
}
