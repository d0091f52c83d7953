// P25: spin locks, reader/writer spin lock, monitor and atomic operations.
#include "conc.hpp"
#include <float.h>
#include <thread>
extern "C" {
#include <aerospike/as_atomic.h>
#include <aerospike/as_monitor.h>
}
using namespace vf;
using namespace conc;

static void team(int nt, Rng& r, const std::function<void(int, Rng&)>& fn)
{
	Barrier b(nt);
	std::vector<uint64_t> s;
	for (int i = 0; i < nt; i++) s.push_back(r.u64());
	std::vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back([&, t] { chaos_thread_seed(s[t]); Rng q(s[t]); b.wait(); fn(t, q); });
	for (auto& t : th) t.join();
	check_later();
}

// ---------------------------------------------------------------- spin lock
static void spin(Rng& r)
{
	scenario("spinlock");
	int nt = 2 + (int)r.below(3), n = 2 + (int)r.below(20);
	struct { as_spinlock l; int inside; uint64_t data[4]; } x;
	as_spinlock l0 = AS_SPINLOCK_INIT;
	x.l = l0;
	if (r.chance(1, 2)) as_spinlock_init(&x.l);
	x.inside = 0;
	memset(x.data, 0, sizeof x.data);
	team(nt, r, [&](int, Rng& q) {
		for (int i = 0; i < n; i++) {
			as_spinlock_lock(&x.l);
			if (x.inside++ != 0) fail_later("two-holders", "two holders of a spin lock");
			for (auto& d : x.data) { uint64_t v = d; if (q.chance(1, 4)) perturb(); d = v + 1; }
			if (--x.inside != 0) fail_later("two-holders", "two holders of a spin lock");
			as_spinlock_unlock(&x.l);
			if (q.chance(1, 3)) perturb();
		}
	});
	for (auto& d : x.data) VF_CHECK(d == (uint64_t)nt * n, "lost-update", "%lu updates under the lock, %d made", (long)d, nt * n);
	as_spinlock_destroy(&x.l);
	count("spin_sections", (uint64_t)nt * n);
}

static void swl(Rng& r)
{
	scenario("swlock");
	int readers = 1 + (int)r.below(3), n = 2 + (int)r.below(12);
	as_swlock l = AS_SWLOCK_INIT;
	if (r.chance(1, 2)) as_swlock_init(&l);
	// readers share
	if (r.chance(1, 8)) {
		as_swlock_read_lock(&l);
		as_swlock_read_lock(&l);
		as_swlock_read_unlock(&l);
		as_swlock_read_unlock(&l);
		as_swlock_write_lock(&l);
		as_swlock_write_unlock(&l);
		as_swlock_read_lock(&l);
		as_swlock_read_unlock(&l);
	}
	uint64_t a = 0, b = ~0ull, c[3] = {0, 0, 0};		// plain data guarded by the lock
	std::atomic<int> writing{0}, reading{0};
	team(readers + 1, r, [&](int t, Rng& q) {
		uint64_t last = 0;
		for (int i = 0; i < n; i++) {
			if (t == 0) {
				as_swlock_write_lock(&l);
				writing.store(1, std::memory_order_relaxed);
				if (reading.load(std::memory_order_relaxed) != 0) fail_later("reader-with-writer", "the writer entered with a reader inside");
				a = a + 1;
				if (q.chance(1, 2)) perturb();
				b = ~a;
				for (auto& x : c) x = a;
				if (reading.load(std::memory_order_relaxed) != 0) fail_later("reader-with-writer", "a reader entered with the writer inside");
				writing.store(0, std::memory_order_relaxed);
				as_swlock_write_unlock(&l);
			}
			else {
				as_swlock_read_lock(&l);
				reading.fetch_add(1, std::memory_order_relaxed);
				if (writing.load(std::memory_order_relaxed) != 0) fail_later("reader-with-writer", "a reader entered with the writer inside");
				uint64_t v = a;
				if (q.chance(1, 2)) perturb();
				if (b != ~v || a != v || c[2] != v) fail_later("torn", "a reader saw a half-made update");
				if (v < last) fail_later("stale", "a reader saw version %lu after %lu", (long)v, (long)last);
				last = v;
				reading.fetch_sub(1, std::memory_order_relaxed);
				as_swlock_read_unlock(&l);
			}
			if (q.chance(1, 3)) perturb();
		}
	});
	VF_CHECK(a == (uint64_t)n, "lost-update", "%lu writes, %d made", (long)a, n);
	as_swlock_write_lock(&l);		// free again for everybody
	as_swlock_write_unlock(&l);
	as_swlock_read_lock(&l);
	as_swlock_read_unlock(&l);
	as_swlock_destroy(&l);
	count("sw_sections", (uint64_t)(readers + 1) * n);
}

// ---------------------------------------------------------------- monitor
static void monitor(Rng& r)
{
	scenario("monitor");
	as_monitor m;
	memset(&m, 0xa5, sizeof m);
	as_monitor_init(&m);
	int rounds = 1 + (int)r.below(6);
	uint64_t data = 0;					// written by the notifier, read after the wait
	std::atomic<int> round{-1}, notified{-1};
	uint64_t s1 = r.u64(), s2 = r.u64();
	std::vector<uint64_t> val;
	std::vector<int> lag, early;
	for (int i = 0; i < rounds; i++) { val.push_back(r.u64()); lag.push_back((int)r.below(3)); early.push_back(r.chance(1, 4)); }
	std::thread w([&] {
		chaos_thread_seed(s1);
		for (int i = 0; i < rounds; i++) {
			while (round.load(std::memory_order_acquire) < i) std::this_thread::yield();
			if (lag[i]) for (int k = 0; k < 20 * lag[i]; k++) std::this_thread::yield();
			data = val[i];
			notified.store(i, std::memory_order_relaxed);
			as_monitor_notify(&m);
		}
	});
	bool first = r.chance(1, 2);
	chaos_thread_seed(s2);
	for (int i = 0; i < rounds; i++) {
		if (i || first) as_monitor_begin(&m);		// a fresh monitor is ready without it
		round.store(i, std::memory_order_release);
		if (early[i]) while (notified.load(std::memory_order_relaxed) < i) std::this_thread::yield();
		as_monitor_wait(&m);
		if (notified.load(std::memory_order_relaxed) < i) fail_later("early-return", "a waiter returned before the notification");
		else if (data != val[i]) fail_later("stale", "what the notifier wrote was not seen by the waiter");
		if (r.chance(1, 4)) as_monitor_wait(&m);		// stays notified until the next begin
	}
	w.join();
	check_later();
	as_monitor_destroy(&m);
	count("monitor_rounds", (uint64_t)rounds);
}

// Whoever waited may take the monitor away as soon as the wait ends.
static void monitor_handed_over(Rng& r)
{
	scenario("monitor-handed-over");
	int rounds = 1 + (int)r.below(4);
	for (int i = 0; i < rounds; i++) {
		as_monitor* m = (as_monitor*)malloc(sizeof *m);
		memset(m, 0xa5, sizeof *m);
		as_monitor_init(m);
		uint64_t data = 0, want = r.u64(), s1 = r.u64(), s2 = r.u64();
		int lag = (int)r.below(3);
		std::thread w([&, m] {
			chaos_thread_seed(s1);
			for (int k = 0; k < 20 * lag; k++) std::this_thread::yield();
			data = want;
			as_monitor_notify(m);
		});
		chaos_thread_seed(s2);
		for (uint64_t k = r.below(40); k; k--) std::this_thread::yield();
		as_monitor_wait(m);
		uint64_t got = data;
		as_monitor_destroy(m);
		memset(m, 0x5a, sizeof *m);
		free(m);
		w.join();
		VF_CHECK(got == want, "stale", "what the notifier wrote was not seen by the waiter");
	}
	count("monitor_rounds", (uint64_t)rounds);
	count("handed_over", (uint64_t)rounds);
}

// ---------------------------------------------------------------- arithmetic
template <class T, class F> static void sum_of(const char* what, Rng& r, T by, F f)
{
	scenario(what);
	int nt = 2 + (int)r.below(3), n = 4 + (int)r.below(40);
	T start = (T)r.u64();
	struct { T before, x, after; } m = {(T)0x5a, start, (T)0x5a};
	team(nt, r, [&](int, Rng&) { for (int i = 0; i < n; i++) f(&m.x, by); });
	T want = (T)((uint64_t)start + (uint64_t)by * (uint64_t)(nt * n));
	VF_CHECK(m.x == want, "lost-update", "%s: %d updates by %ld from %ld gave %ld, expected %ld", what, nt * n, (long)by, (long)start, (long)m.x, (long)want);
	VF_CHECK(m.before == (T)0x5a && m.after == (T)0x5a, "neighbour", "%s touched its neighbours", what);
	count("atomic_ops", (uint64_t)nt * n);
}

// results of additions by one: all different, consecutive
template <class T, class F> static void tickets(const char* what, Rng& r, bool after, F f)
{
	scenario(what);
	int nt = 2 + (int)r.below(3), n = 4 + (int)r.below(30);
	T start = (T)r.u64(), x = start;
	std::vector<std::vector<T>> got(nt);
	team(nt, r, [&](int t, Rng&) { for (int i = 0; i < n; i++) got[t].push_back(f(&x, 1)); });
	std::vector<char> hit((size_t)nt * n, 0);
	for (auto& g : got) {
		uint64_t prev = 0;
		for (size_t i = 0; i < g.size(); i++) {
			uint64_t k = (uint64_t)(typename std::make_unsigned<T>::type)(T)((uint64_t)g[i] - (uint64_t)start - (after ? 1 : 0));
			VF_CHECK(k < hit.size() && !hit[k], "repeated-result", "%s returned %ld, which is repeated or impossible (start %ld)", what, (long)g[i], (long)start);
			hit[k] = 1;
			VF_CHECK(i == 0 || k > prev, "result-order", "%s went backwards", what);
			prev = k;
		}
	}
	count("atomic_ops", (uint64_t)nt * n);
}

template <class T, class F> static void swaps(const char* what, Rng& r, F f)
{
	scenario(what);
	int nt = 2 + (int)r.below(3), n = 3 + (int)r.below(20);
	if (sizeof(T) == 1) { nt = 2; n = 3 + (int)r.below(15); }
	T x = (T)1;
	std::vector<std::vector<T>> got(nt);
	team(nt, r, [&](int t, Rng&) { for (int i = 0; i < n; i++) got[t].push_back(f(&x, (T)(2 + t * n + i))); });
	std::vector<int> seenv((size_t)nt * n + 3, 0);
	seenv[(size_t)x]++;
	for (auto& g : got) for (T v : g) { VF_CHECK((uint64_t)v >= 1 && (uint64_t)v < (uint64_t)nt * n + 2, "swap-value", "%s returned %ld, never stored", what, (long)v); seenv[(size_t)v]++; }
	for (int v = 1; v < nt * n + 2; v++) VF_CHECK(seenv[v] == 1, "swap-count", "%s: value %d handed over %d times", what, v, seenv[v]);
	count("atomic_ops", (uint64_t)nt * n);
}

template <class T, class F, class L> static void casloop(const char* what, Rng& r, F cas, L load)
{
	scenario(what);
	int nt = 2 + (int)r.below(3), n = 3 + (int)r.below(15);
	T start = (T)r.u64();
	struct { T before, x, after; } m = {(T)0x5a, start, (T)0x5a};
	std::vector<int> failed(nt);
	team(nt, r, [&](int t, Rng&) {
		for (int i = 0; i < n; i++)
			while (true) {
				T o = load(&m.x);
				if (cas(&m.x, o, (T)(o + 1))) break;
				failed[t]++;
			}
	});
	T want = (T)((uint64_t)start + (uint64_t)(nt * n));
	VF_CHECK(m.x == want, "lost-update", "%s: %d successful swaps from %ld gave %ld", what, nt * n, (long)start, (long)m.x);
	VF_CHECK(m.before == (T)0x5a && m.after == (T)0x5a, "neighbour", "%s touched its neighbours", what);
	T other = (T)(m.x + 1);
	VF_CHECK(!cas(&m.x, other, (T)0) && m.x == want, "cas-mismatch", "%s succeeded with a wrong old value", what);
	int f = 0;
	for (int k : failed) f += k;
	count("cas_contended", (uint64_t)f);
	count("atomic_ops", (uint64_t)nt * n);
}

template <class T, class F> static void setmax(const char* what, Rng& r, F f)
{
	scenario(what);
	int nt = 2 + (int)r.below(3), n = 3 + (int)r.below(15);
	T x = (T)r.below(50);
	T start = x;
	std::vector<std::vector<T>> ok(nt), no(nt);
	std::vector<std::vector<T>> prop(nt);
	T best = start;
	int shift = r.chance(1, 3) ? (int)sizeof(T) * 8 - 8 : 0;		// also where the top bit is set
	for (auto& p : prop) for (int i = 0; i < n; i++) { T v = (T)((T)r.below(200) << shift); p.push_back(v); best = std::max(best, v); }
	team(nt, r, [&](int t, Rng&) { for (T v : prop[t]) (f(&x, v) ? ok : no)[t].push_back(v); });
	VF_CHECK(x == best, "setmax", "%s: maximum %ld, expected %ld", what, (long)x, (long)best);
	std::vector<T> all;
	for (auto& g : ok) all.insert(all.end(), g.begin(), g.end());
	std::sort(all.begin(), all.end());
	for (size_t i = 0; i < all.size(); i++) VF_CHECK(all[i] > start && (i == 0 || all[i] != all[i - 1]), "setmax-result", "%s reported value %ld as new maximum twice or wrongly", what, (long)all[i]);
	VF_CHECK(best == start ? all.empty() : !all.empty() && all.back() == best, "setmax-result", "%s: nobody was told to have set the maximum %ld", what, (long)best);
	count("atomic_ops", (uint64_t)nt * n);
}

// stores and loads are whole and in order
template <class T, class S, class L> static void whole(const char* what, Rng& r, S store, L load)
{
	scenario(what);
	int n = 5 + (int)r.below(40);
	struct { T before, x, after; } m;
	memset(&m, 0x5a, sizeof m);
	memset((void*)&m.x, 1, sizeof(T));
	team(3, r, [&](int t, Rng&) {
		uint8_t last = 0;
		for (int i = 0; i < n; i++) {
			T v;
			if (t == 0) { memset((void*)&v, 1 + (i & 0x3f), sizeof v); store(&m.x, v); }
			else {
				v = load(&m.x);
				uint8_t b[sizeof(T)];
				memcpy(b, (void*)&v, sizeof v);
				for (uint8_t c : b) if (c != b[0]) fail_later("torn", "%s: a load saw half a store", what);
				if (b[0] < 1 || b[0] > 0x40) fail_later("load-value", "%s: a load gave %d, never stored", what, b[0]);
				if (n < 0x40 && b[0] < last) fail_later("load-order", "%s: an older value seen after a newer one", what);
				last = b[0];
			}
		}
	});
	uint8_t g[sizeof m.before];
	memset(g, 0x5a, sizeof g);
	VF_CHECK(memcmp((void*)&m.before, g, sizeof g) == 0 && memcmp((void*)&m.after, g, sizeof g) == 0, "neighbour", "%s touched its neighbours", what);
	count("atomic_ops", (uint64_t)3 * n);
}

// what is written before publishing is seen after (plain data, race detector)
template <class P, class S> static void publish(const char* what, Rng& r, P post, S sawn)
{
	scenario(what);
	uint64_t d[3] = {0, 0, 0}, v = r.u64() | 1;
	team(2, r, [&](int t, Rng& q) {
		if (t == 0) {
			for (auto& x : d) x = v;
			if (q.chance(1, 2)) perturb();
			post();
		}
		else {
			while (!sawn()) std::this_thread::yield();
			for (auto& x : d) if (x != v) fail_later("stale", "%s: published data not seen", what);
		}
	});
	count("published");
}

#define EACH(M) M(uint64) M(int64) M(uint32) M(int32) M(uint16) M(int16)

static void arithmetic(Rng& r)
{
	switch (r.below(6)) {
#define SUMS(t, op) { int64_t by = r.chance(1, 2) ? (int64_t)r.u64() : r.range(-3, 3); sum_of<t##_t>("as_" #op "_" #t, r, (t##_t)by, [](t##_t* p, t##_t b) { as_##op##_##t(p, b); }); }
#define M(t) if (k-- == 0) { switch (r.below(3)) { case 0: SUMS(t, faa) break; case 1: SUMS(t, aaf) break; default: SUMS(t, add) } }
	case 0: case 1: { uint64_t k = r.below(6); EACH(M) break; }
#undef M
#define M(t) if (k-- == 0) { switch (r.below(4)) { \
	case 0: sum_of<t##_t>("as_incr_" #t, r, 1, [](t##_t* p, t##_t) { as_incr_##t(p); }); break; \
	case 1: sum_of<t##_t>("as_decr_" #t, r, (t##_t)-1, [](t##_t* p, t##_t) { as_decr_##t(p); }); break; \
	case 2: sum_of<t##_t>("as_incr_" #t "_rls", r, 1, [](t##_t* p, t##_t) { as_incr_##t##_rls(p); }); break; \
	default: sum_of<t##_t>("as_decr_" #t "_rls", r, (t##_t)-1, [](t##_t* p, t##_t) { as_decr_##t##_rls(p); }); } }
	case 2: { uint64_t k = r.below(6); EACH(M) break; }
#undef M
#define M(t) if (k-- == 0) { switch (r.below(3)) { \
	case 0: tickets<t##_t>("as_faa_" #t, r, false, [](t##_t* p, t##_t v) { return as_faa_##t(p, v); }); break; \
	case 1: tickets<t##_t>("as_aaf_" #t, r, true, [](t##_t* p, t##_t v) { return as_aaf_##t(p, v); }); break; \
	default: tickets<t##_t>("as_aaf_" #t "_rls", r, true, [](t##_t* p, t##_t v) { return as_aaf_##t##_rls(p, v); }); } }
	case 3: { uint64_t k = r.below(6); EACH(M) break; }
#undef M
	case 4:
		if (r.chance(1, 2)) setmax<uint64_t>("as_setmax_uint64", r, [](uint64_t* p, uint64_t v) { return as_setmax_uint64(p, v); });
		else setmax<uint32_t>("as_setmax_uint32", r, [](uint32_t* p, uint32_t v) { return as_setmax_uint32(p, v); });
		break;
	default:
		switch (r.below(8)) {
		case 0: tickets<uint32_t>("as_faa_rlx", r, false, [](uint32_t* p, uint32_t v) { return as_faa_rlx(p, v); }); break;
		case 1: tickets<uint64_t>("as_faa_acq", r, false, [](uint64_t* p, uint64_t v) { return as_faa_acq(p, v); }); break;
		case 2: tickets<uint16_t>("as_faa_rls", r, false, [](uint16_t* p, uint16_t v) { return as_faa_rls(p, v); }); break;
		case 3: tickets<uint32_t>("as_faa_seq", r, false, [](uint32_t* p, uint32_t v) { return as_faa_seq(p, v); }); break;
		case 4: tickets<uint32_t>("as_aaf_rlx", r, true, [](uint32_t* p, uint32_t v) { return as_aaf_rlx(p, v); }); break;
		case 5: tickets<uint64_t>("as_aaf_acq", r, true, [](uint64_t* p, uint64_t v) { return as_aaf_acq(p, v); }); break;
		case 6: tickets<uint16_t>("as_aaf_rls", r, true, [](uint16_t* p, uint16_t v) { return as_aaf_rls(p, v); }); break;
		default: tickets<uint32_t>("as_aaf_seq", r, true, [](uint32_t* p, uint32_t v) { return as_aaf_seq(p, v); }); break;
		}
	}
}

static void exchange(Rng& r)
{
	uint64_t k = r.below(12);
#define M(t) if (k-- == 0) { swaps<t##_t>("as_fas_" #t, r, [](t##_t* p, t##_t v) { return as_fas_##t(p, v); }); return; }
	EACH(M)
#undef M
	if (k == 0) swaps<uint32_t>("as_fas_rlx", r, [](uint32_t* p, uint32_t v) { return as_fas_rlx(p, v); });
	if (k == 1) swaps<uint32_t>("as_fas_acq", r, [](uint32_t* p, uint32_t v) { return as_fas_acq(p, v); });
	if (k == 2) swaps<uint64_t>("as_fas_rls", r, [](uint64_t* p, uint64_t v) { return as_fas_rls(p, v); });
	if (k == 3) swaps<uint64_t>("as_fas_ptr", r, [](uint64_t* p, uint64_t v) { return (uint64_t)as_fas_ptr((void**)p, (void*)v); });
	if (k == 4) swaps<double>("as_fas_double", r, [](double* p, double v) { return as_fas_double(p, v); });
	if (k == 5) swaps<float>("as_fas_float", r, [](float* p, float v) { return as_fas_float(p, v); });
}

static void compare_swap(Rng& r)
{
	uint64_t k = r.below(16);
#define M(t) if (k-- == 0) { casloop<t##_t>("as_cas_" #t, r, [](t##_t* p, t##_t o, t##_t n) { return as_cas_##t(p, o, n); }, [](t##_t* p) { return as_load_##t(p); }); return; }
	EACH(M) M(uint8) M(int8)
#undef M
#define G(mo, T, t) casloop<T>("as_cas_" #mo, r, [](T* p, T o, T n) { T was = o; bool ok = as_cas_##mo(p, &o, n); if (!ok && o == was) fail_later("cas-old", "as_cas_" #mo " failed without giving the present value"); return ok; }, [](T* p) { return as_load_##t(p); })
	if (k == 0) G(rlx, uint32_t, uint32);
	if (k == 1) G(acq, uint64_t, uint64);
	if (k == 2) G(rls, uint16_t, uint16);
	if (k == 3) G(seq, uint32_t, uint32);
	if (k == 4) casloop<uint64_t>("as_cas_ptr", r, [](uint64_t* p, uint64_t o, uint64_t n) { return as_cas_ptr((void**)p, (void*)o, (void*)n); }, [](uint64_t* p) { return (uint64_t)as_load_ptr((void* const*)p); });
	auto fl = [&](auto zero, const char* what, auto cas, auto load) {
		scenario(what);
		typedef decltype(zero) T;
		T x = 0;
		int nt = 3, n = 10;
		team(nt, r, [&](int, Rng&) { for (int i = 0; i < n; i++) while (true) { T o = load(&x); if (cas(&x, o, o + 1)) break; } });
		VF_CHECK(x == nt * n, "lost-update", "%s: %d successful swaps gave %f", what, nt * n, (double)x);
		VF_CHECK(!cas(&x, (T)5, (T)6) && x == nt * n, "cas-mismatch", "%s succeeded with a wrong old value", what);
		count("atomic_ops", (uint64_t)nt * n);
	};
	if (k == 5) fl((double)0, "as_cas_double", [](double* p, double o, double n) { return as_cas_double(p, o, n); }, [](double* p) { return as_load_double(p); });
	if (k >= 6) fl((float)0, "as_cas_float", [](float* p, float o, float n) { return as_cas_float(p, o, n); }, [](float* p) { return as_load_float(p); });
}

static void loads_stores(Rng& r)
{
	uint64_t k = r.below(22);
#define M(t) if (k-- == 0) { whole<t##_t>("as_store_" #t, r, [](t##_t* p, t##_t v) { as_store_##t(p, v); }, [](t##_t* p) { return as_load_##t(p); }); return; } \
	if (k-- == 0) { whole<t##_t>("as_store_" #t "_rls", r, [](t##_t* p, t##_t v) { as_store_##t##_rls(p, v); }, [](t##_t* p) { return as_load_##t##_acq(p); }); return; }
	EACH(M) M(uint8) M(int8)
#undef M
	if (k == 0) whole<void*>("as_store_ptr", r, [](void** p, void* v) { as_store_ptr(p, v); }, [](void** p) { return as_load_ptr(p); });
	if (k == 1) whole<void*>("as_store_ptr_rls", r, [](void** p, void* v) { as_store_ptr_rls(p, v); }, [](void** p) { return as_load_ptr_acq(p); });
	if (k == 2) whole<double>("as_store_double", r, [](double* p, double v) { as_store_double(p, v); }, [](double* p) { return as_load_double(p); });
	if (k == 3) whole<float>("as_store_float", r, [](float* p, float v) { as_store_float(p, v); }, [](float* p) { return as_load_float(p); });
	if (k == 4) whole<uint64_t>("as_store_seq", r, [](uint64_t* p, uint64_t v) { as_store_seq(p, v); }, [](uint64_t* p) { return as_load_seq(p); });
	if (k == 5) {
		bool b = false;
		as_store_bool(&b, true);
		VF_CHECK(b && as_load_bool(&b), "bool", "stored true, got false");
		as_store_bool_rls(&b, false);
		VF_CHECK(!b && !as_load_bool_acq(&b), "bool", "stored false, got true");
		count("atomic_ops", 4);
	}
}

static void publication(Rng& r)
{
	uint64_t k = r.below(24 + 18 + 12);
#define M(t) if (k-- == 0) { t##_t f = 0; publish("publish as_store_" #t "_rls", r, [&] { as_store_##t##_rls(&f, 1); }, [&] { return as_load_##t##_acq(&f) == 1; }); return; }
	EACH(M) M(uint8) M(int8)
#undef M
#define M(t) if (k-- == 0) { t##_t f = 0; publish("publish as_aaf_" #t "_rls", r, [&] { as_aaf_##t##_rls(&f, 1); }, [&] { return as_load_##t##_acq(&f) == 1; }); return; } \
	if (k-- == 0) { t##_t f = 0; publish("publish as_incr_" #t "_rls", r, [&] { as_incr_##t##_rls(&f); }, [&] { return as_load_##t##_acq(&f) == 1; }); return; } \
	if (k-- == 0) { t##_t f = 1; publish("publish as_decr_" #t "_rls", r, [&] { as_decr_##t##_rls(&f); }, [&] { return as_load_##t##_acq(&f) == 0; }); return; }
	EACH(M)
#undef M
	uint32_t f = 0;
	uint64_t g = 0;
	bool b = false;
	void* p = NULL;
	switch (k % 16) {
	case 0: publish("publish as_store_rls", r, [&] { as_store_rls(&f, 1); }, [&] { return as_load_acq(&f) == 1; }); break;
	case 1: publish("publish as_store_seq", r, [&] { as_store_seq(&f, 1); }, [&] { return as_load_seq(&f) == 1; }); break;
	case 2: publish("publish as_store_bool_rls", r, [&] { as_store_bool_rls(&b, true); }, [&] { return as_load_bool_acq(&b); }); break;
	case 3: publish("publish as_store_ptr_rls", r, [&] { as_store_ptr_rls(&p, &f); }, [&] { return as_load_ptr_acq(&p) == &f; }); break;
	case 4: publish("publish as_faa_rls", r, [&] { as_faa_rls(&g, 1); }, [&] { return as_faa_acq(&g, 0) == 1; }); break;
	case 5: publish("publish as_faa_seq", r, [&] { as_faa_seq(&g, 1); }, [&] { return as_faa_seq(&g, 0) == 1; }); break;
	case 6: publish("publish as_aaf_rls", r, [&] { as_aaf_rls(&g, 1); }, [&] { return as_aaf_acq(&g, 0) == 1; }); break;
	case 7: publish("publish as_aaf_seq", r, [&] { as_aaf_seq(&g, 1); }, [&] { return as_aaf_seq(&g, 0) == 1; }); break;
	case 8: publish("publish as_fas_rls", r, [&] { as_fas_rls(&f, 1); }, [&] { return as_fas_acq(&f, 0) == 1; }); break;
	case 9: publish("publish as_fas_seq", r, [&] { as_fas_seq(&f, 1); }, [&] { return as_fas_seq(&f, 0) == 1; }); break;
	case 10: publish("publish as_cas_rls", r, [&] { uint32_t o = 0; as_cas_rls(&f, &o, 1); }, [&] { uint32_t o = 1; return as_cas_acq(&f, &o, 2); }); break;
	case 11: publish("publish as_cas_seq", r, [&] { uint32_t o = 0; as_cas_seq(&f, &o, 1); }, [&] { uint32_t o = 1; return as_cas_seq(&f, &o, 2); }); break;
	case 12: publish("publish fences", r, [&] { as_fence_rls(); as_store_rlx(&f, 1); }, [&] { bool ok = as_load_rlx(&f) == 1; as_fence_acq(); return ok; }); break;
	case 13: publish("publish full fences", r, [&] { as_fence_seq(); as_store_rlx(&f, 1); }, [&] { bool ok = as_load_rlx(&f) == 1; as_fence_seq(); return ok; }); break;
	case 14: publish("publish spinlock", r, [&] { as_store_rls(&f, 1); }, [&] { return as_load_seq(&f) == 1; }); break;
	default: publish("publish wide", r, [&] { as_store_uint64_rls(&g, 1); }, [&] { return as_load_uint64_acq(&g) == 1; }); break;
	}
}

// arguments are ordinary expressions
static void expressions(Rng& r)
{
	scenario("expressions");
	double v = (double)r.below(1000), nv = v + 1, ov = v + 2, d[2] = {0, 0};
	as_store_double(&d[0], v);
	VF_CHECK(d[0] == v && as_load_double(d) == v, "argument", "as_store_double stored %g, given %g", d[0], v);
	as_store_double(d + 1, v + 1);
	VF_CHECK(d[1] == v + 1 && as_load_double(d + 1) == v + 1, "argument", "as_store_double to the second element");
	VF_CHECK(as_fas_double(d, nv) == v && d[0] == nv, "argument", "as_fas_double exchanged the wrong value");
	VF_CHECK(as_cas_double(d, nv, ov) && d[0] == ov, "argument", "as_cas_double compared the wrong value");
	VF_CHECK(as_cas_double(d, ov, nv) && d[0] == nv && d[1] == v + 1, "argument", "as_cas_double compared the wrong value");
	{
		float v = (float)r.below(1000), nv = v + 1, ov = v + 2, d[2] = {0, 0};
		as_store_float(&d[0], v);
		VF_CHECK(d[0] == v && as_load_float(d) == v, "argument", "as_store_float stored %g, given %g", d[0], v);
		as_store_float(d + 1, v + 1);
		VF_CHECK(d[1] == v + 1 && as_load_float(d + 1) == v + 1, "argument", "as_store_float to the second element");
		VF_CHECK(as_fas_float(d, nv) == v && d[0] == nv, "argument", "as_fas_float exchanged the wrong value");
		VF_CHECK(as_cas_float(d, nv, ov) && d[0] == ov, "argument", "as_cas_float compared the wrong value");
		VF_CHECK(as_cas_float(d, ov, nv) && d[0] == nv && d[1] == v + 1, "argument", "as_cas_float compared the wrong value");
	}
	bool b[2] = {false, true};
	uint32_t flags = 0x100;
	as_store_bool(b, flags & 0x100);
	VF_CHECK(b[0] && b[1] && as_load_bool(b), "argument", "as_store_bool of a set flag");
	as_store_bool_rls(b + 1, flags & 1);
	VF_CHECK(b[0] && !b[1] && !as_load_bool_acq(b + 1), "argument", "as_store_bool_rls of a clear flag");
	int a[4];
	void* p = &a[1];
	VF_CHECK(as_cas_ptr(&p, a + 1, a + 2) && p == &a[2], "argument", "as_cas_ptr compared another address");
	VF_CHECK(as_fas_ptr(&p, a + 3) == &a[2] && p == &a[3], "argument", "as_fas_ptr exchanged another address");
	count("atomic_ops", 16);
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
	static const int levels[] = {0, 1, 2, 3};
	chaos(levels[r.below(4)], r.chance(1, 2));
	schedule_reset();
	uint64_t kind = idx % 16;
	if (idx % 64 == 0) expressions(r);
	if (kind < 3) spin(r);
	else if (kind < 7) swl(r);
	else if (kind < 9) { if (r.chance(1, 2)) monitor(r); else monitor_handed_over(r); }
	else if (kind < 11) arithmetic(r);
	else if (kind == 11) exchange(r);
	else if (kind == 12) compare_swap(r);
	else if (kind == 13) loads_stores(r);
	else publication(r);
	chaos(0, false);
	seen("distinct", hash2(schedule_signature(), kind));
}

int main(int argc, char** argv)
{
	floor_of("spin_sections", 1000);
	floor_of("sw_sections", 1000);
	floor_of("monitor_rounds", 300);
	floor_of("handed_over", 100);
	floor_of("atomic_ops", 1000);
	sample("spin lock, reader/writer lock, monitor, atomic arithmetic, exchange, compare-and-swap, load/store, publication");
	return run(argc, argv, 11200, 500000, one);
}
