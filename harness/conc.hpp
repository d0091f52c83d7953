// Concurrent queue histories: recording, a linearizability checker, delivery and wake-up scenarios.
#pragma once
#include "vf.hpp"
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <thread>
#include <time.h>
#include <unordered_set>
#include <vector>

namespace conc {
using namespace vf;

// Tickets order invocations and responses; relaxed, so that they do not order the threads for the race detector.
inline std::atomic<uint64_t> g_ticket{1};
inline uint64_t ticket() { return g_ticket.fetch_add(1, std::memory_order_relaxed); }

struct Barrier {
	std::atomic<int> n{0};
	int want;
	explicit Barrier(int w) : want(w) {}
	void wait() { n.fetch_add(1); while (n.load() < want) sched_yield(); }
};

inline int64_t now_ns(clockid_t c = CLOCK_MONOTONIC) { struct timespec t; clock_gettime(c, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }

// Wait until pred holds; false after the given time.
template <class F> bool wait_for(F pred, int ms)
{
	int64_t end = now_ns() + ms * 1000000LL;
	while (!pred()) { if (now_ns() > end) return false; struct timespec t = {0, 20000}; nanosleep(&t, NULL); progress(); }
	return true;
}

enum Kind { PUSH, PUSH_HEAD, PUSH_LIMIT, PUSH_HEAD_LIMIT, PUSH_INDEX, PUSH_UNIQUE, POP, POP_TAIL, PEEK, SIZE, EMPTY,
	DEL_ONE, DEL_EVERY, DEL_ALL, VISIT, VISIT_REV, VISIT_DEL, POP_BEST, POP_FIRST, NKIND };
static const char* const kind_name[] = {"push", "push_head", "push_limit", "push_head_limit", "push_index", "push_unique", "pop", "pop_tail", "peek", "size", "empty",
	"delete_one", "delete_every", "delete_all", "visit", "visit_reverse", "visit_delete", "pop_best", "pop_first"};

struct Op {
	Kind k;
	uint32_t arg = 0;		// value, or the value looked for
	uint32_t lim = 0;		// limit or index
	int wait = 0;			// for pops
	bool ok = false;
	uint32_t val = 0;		// popped value or number reported
	std::vector<uint32_t> seq;	// what a visitor saw
	uint64_t inv = 0, ret = 0;
	int64_t waited = 0;		// ns, by the wall clock
	bool torn = false;
	int th = 0;
};

inline std::string show(const Op& o)
{
	char b[160];
	snprintf(b, sizeof b, "t%d %s(%u,%u,wait %d) -> %s %u [%llu,%llu]", o.th, kind_name[o.k], o.arg, o.lim, o.wait, o.ok ? "ok" : "no", o.val, (unsigned long long)o.inv, (unsigned long long)o.ret);
	std::string t = b;
	if (o.k == VISIT || o.k == VISIT_REV) { t += " saw"; for (uint32_t v : o.seq) t += " " + std::to_string(v); }
	return t;
}

typedef std::vector<uint32_t> St;

// Is this result what an ideal sequence gives, and its effect.
inline bool apply(St& s, const Op& o)
{
	switch (o.k) {
	case PUSH: if (!o.ok) return false; s.push_back(o.arg); return true;
	case PUSH_HEAD: if (!o.ok) return false; s.insert(s.begin(), o.arg); return true;
	case PUSH_LIMIT: if (o.ok != (s.size() < o.lim)) return false; if (o.ok) s.push_back(o.arg); return true;
	case PUSH_HEAD_LIMIT: if (o.ok != (s.size() < o.lim)) return false; if (o.ok) s.insert(s.begin(), o.arg); return true;
	case PUSH_INDEX: if (!o.ok) return false; s.insert(s.begin() + (long)std::min<size_t>(o.lim, s.size()), o.arg); return true;
	case PUSH_UNIQUE: { bool there = std::find(s.begin(), s.end(), o.arg) != s.end(); if (o.ok == there) return false; if (o.ok) s.push_back(o.arg); return true; }
	case POP: if (o.ok != !s.empty()) return false; if (o.ok) { if (s.front() != o.val) return false; s.erase(s.begin()); } return true;
	case POP_TAIL: if (o.ok != !s.empty()) return false; if (o.ok) { if (s.back() != o.val) return false; s.pop_back(); } return true;
	case PEEK: if (o.ok != !s.empty()) return false; return !o.ok || s.front() == o.val;
	case SIZE: return o.val == s.size();
	case EMPTY: return o.ok == s.empty();
	case DEL_ONE: { auto p = std::find(s.begin(), s.end(), o.arg); if (o.ok != (p != s.end())) return false; if (o.ok) s.erase(p); return true; }
	case DEL_EVERY: { auto p = std::remove(s.begin(), s.end(), o.arg); if (o.ok != (p != s.end())) return false; s.erase(p, s.end()); return true; }
	case DEL_ALL: if (o.ok != !s.empty()) return false; s.clear(); return true;
	case VISIT: return o.seq == s;
	case VISIT_REV: return std::equal(s.rbegin(), s.rend(), o.seq.begin(), o.seq.end());
	case VISIT_DEL: { auto p = std::find(s.begin(), s.end(), o.arg); if (o.ok != (p != s.end())) return false; if (o.ok) s.erase(p); return true; }
	case POP_BEST: { if (o.ok != !s.empty()) return false; if (!o.ok) return true; auto p = std::max_element(s.begin(), s.end()); if (*p != o.val) return false; s.erase(p); return true; }
	case POP_FIRST: {	// first odd value, or the last value if there is none
		if (o.ok != !s.empty()) return false;
		if (!o.ok) return true;
		auto p = std::find_if(s.begin(), s.end(), [](uint32_t v) { return v & 1; });
		if (p == s.end()) --p;
		if (*p != o.val) return false;
		s.erase(p);
		return true;
	}
	default: return false;
	}
}

struct Lin {
	const std::vector<Op>& ops;
	std::unordered_set<uint64_t> dead;
	uint64_t states = 0;
	explicit Lin(const std::vector<Op>& o) : ops(o) {}
	bool go(uint64_t mask, const St& s)
	{
		uint64_t n = ops.size();
		if (mask == (n == 64 ? ~0ULL : (1ULL << n) - 1)) return true;
		uint64_t key = hash2(hash2(mask, s.size()), hash_bytes(s.data(), s.size() * 4));
		if (dead.count(key)) return false;
		states++;
		uint64_t first = UINT64_MAX;
		for (uint64_t i = 0; i < n; i++) if (!(mask >> i & 1)) first = std::min(first, ops[i].ret);
		for (uint64_t i = 0; i < n; i++) {
			if ((mask >> i & 1) || ops[i].inv > first) continue;
			St t = s;
			if (apply(t, ops[i]) && go(mask | 1ULL << i, t)) return true;
		}
		dead.insert(key);
		return false;
	}
};

// An element: the value, then bytes derived from it.
struct Elem {
	uint32_t sz;
	std::vector<uint8_t> b;
	explicit Elem(uint32_t n) : sz(n), b(n + 8, 0x5a) {}
	void set(uint32_t v) { memcpy(&b[0], &v, 4); for (uint32_t i = 4; i < sz; i++) b[i] = (uint8_t)(v * 31 + i); }
	uint32_t get() const { uint32_t v; memcpy(&v, &b[0], 4); return v; }
	static bool good(const uint8_t* p, uint32_t n) { uint32_t v; memcpy(&v, p, 4); for (uint32_t i = 4; i < n; i++) if (p[i] != (uint8_t)(v * 31 + i)) return false; return true; }
	bool good() const { if (!good(&b[0], sz)) return false; for (uint32_t i = sz; i < sz + 8; i++) if (b[i] != 0x5a) return false; return true; }
};

struct Queue {
	uint32_t esz;
	explicit Queue(uint32_t e) : esz(e) {}
	virtual ~Queue() {}
	virtual void run(Op& o) = 0;		// performs the operation, filling ok, val, seq and torn
};

inline void perform(Queue& q, Op& o)
{
	int64_t t0 = o.wait > 0 ? now_ns(CLOCK_REALTIME) : 0;
	o.inv = ticket();
	q.run(o);
	o.ret = ticket();
	if (o.wait > 0) o.waited = now_ns(CLOCK_REALTIME) - t0;
}

inline void judge_wait(const Op& o)
{
	VF_CHECK(!o.torn, "torn", "%s returned a damaged element", show(o).c_str());
	if (o.wait > 0 && !o.ok) {
		VF_CHECK(o.waited >= o.wait * 1000000LL, "early", "%s gave up after %.3f ms", show(o).c_str(), (double)o.waited / 1e6);
		VF_CHECK(o.waited < 30 * 1000000000LL, "late", "%s gave up after %.3f ms", show(o).c_str(), (double)o.waited / 1e6);
		count("timeouts");
	}
}

struct Config {
	std::vector<Kind> kinds;
	bool unique;		// values never repeat
	uint32_t limit;		// for limited pushes
	int waits;			// 0: none, else ms bound of timed pops
};

// A short history by a few threads, judged by the linearizability checker.
inline void history(Queue& q, const Config& c, Rng& r, const char* name)
{
	scenario(name);
	int nt = (int)r.range(2, 4);
	int per = nt == 2 ? (int)r.range(2, 7) : nt == 3 ? (int)r.range(2, 5) : (int)r.range(2, 4);
	std::vector<std::vector<Op>> prog((size_t)nt);
	uint32_t next = 1;
	std::vector<Op> all;
	auto gen = [&](int th) {
		Op o;
		o.th = th;
		o.k = c.kinds[r.below(c.kinds.size())];
		bool pushy = o.k <= PUSH_UNIQUE;
		o.arg = pushy ? (c.unique ? next++ : (uint32_t)r.below(4)) : (uint32_t)r.below(c.unique ? next + 1 : 4);
		o.lim = o.k == PUSH_INDEX ? (uint32_t)r.below(5) : c.limit;
		if ((o.k == POP || o.k == POP_TAIL || o.k == POP_BEST || o.k == POP_FIRST) && c.waits && r.chance(1, 3)) o.wait = (int)r.range(1, c.waits);
		return o;
	};
	for (uint64_t k = r.below(4); k; k--) {		// starting contents
		Op o = gen(0);
		o.wait = 0;
		perform(q, o);
		judge_wait(o);
		all.push_back(o);
	}
	for (int t = 0; t < nt; t++) for (int k = 0; k < per; k++) prog[(size_t)t].push_back(gen(t + 1));
	chaos((int)r.range(1, 3), r.chance(1, 2));
	schedule_reset();
	Barrier b(nt);
	std::vector<uint64_t> seeds;
	for (int t = 0; t < nt; t++) seeds.push_back(r.u64());
	std::vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
		chaos_thread_seed(seeds[(size_t)t]);
		b.wait();
		for (Op& o : prog[(size_t)t]) { perform(q, o); perturb(); }
	});
	for (auto& t : th) t.join();
	seen("distinct", schedule_signature());
	chaos(0, false);
	uint64_t overlap = 0;
	for (auto& p : prog) for (Op& o : p) all.push_back(o);
	for (size_t i = 0; i < all.size(); i++) for (size_t j = i + 1; j < all.size(); j++) if (all[i].inv < all[j].ret && all[j].inv < all[i].ret) overlap++;
	for (int guard = 0; guard < 64; guard++) {		// what is left
		Op o;
		o.k = POP;
		perform(q, o);
		all.push_back(o);
		if (!o.ok) break;
	}
	for (Op& o : all) { trace("%s", show(o).c_str()); count(kind_name[o.k]); }
	for (Op& o : all) judge_wait(o);
	if (all.size() <= 60) {
		Lin l(all);
		VF_CHECK(l.go(0, St()), "not-linearizable", "%zu operations by %d threads have no sequential explanation", all.size(), nt);
		count("lin_states", l.states);
	}
	count("histories");
	count("ops", all.size());
	count("overlapping_pairs", overlap);
	count("evals");
}

// Waiters blocked on an empty queue, then exactly as many elements: everyone must be served promptly.
inline void wakeups(Queue& q, const std::vector<Kind>& pushes, const std::vector<Kind>& pops, uint32_t limit, Rng& r, const char* name)
{
	scenario(name);
	int nw = (int)r.range(1, 4);
	int np = (int)r.range(1, 2);
	std::vector<Op> w((size_t)nw), p((size_t)nw);
	for (int i = 0; i < nw; i++) {
		w[(size_t)i].k = pops[r.below(pops.size())];
		w[(size_t)i].wait = r.chance(1, 2) ? -1 : 60000;
		w[(size_t)i].th = i + 1;
		p[(size_t)i].k = pushes[r.below(pushes.size())];
		p[(size_t)i].arg = (uint32_t)i + 1;
		p[(size_t)i].lim = p[(size_t)i].k == PUSH_INDEX ? (uint32_t)r.below(4) : limit;
	}
	chaos((int)r.range(1, 3), r.chance(1, 3));
	schedule_reset();
	std::vector<uint64_t> seeds;
	for (int t = 0; t < nw + np; t++) seeds.push_back(r.u64());
	std::atomic<int> done{0};
	std::vector<std::thread> th;
	for (int t = 0; t < nw; t++) th.emplace_back([&, t] { chaos_thread_seed(seeds[(size_t)t]); perform(q, w[(size_t)t]); done.fetch_add(1); });
	bool blocked = r.chance(3, 4);
	if (blocked && wait_for([&] { return blocked_waiters() >= nw; }, 20)) count("all_blocked_first");
	for (int t = 0; t < np; t++) th.emplace_back([&, t] {
		chaos_thread_seed(seeds[(size_t)(nw + t)]);
		for (int i = t; i < nw; i += np) perform(q, p[(size_t)i]);
	});
	bool all = wait_for([&] { return done.load() == nw; }, 20000);
	if (!all) {
		for (auto& o : p) trace("%s", show(o).c_str());
		fail("lost-wakeup", "%d of %d waiting threads still wait 20 s after an element for each was pushed", nw - done.load(), nw);
	}
	for (auto& t : th) t.join();
	seen("distinct", schedule_signature());
	chaos(0, false);
	std::vector<uint32_t> got;
	for (auto& o : p) { trace("%s", show(o).c_str()); VF_CHECK(o.ok, "push-refused", "%s", show(o).c_str()); }
	for (auto& o : w) {
		trace("%s", show(o).c_str());
		VF_CHECK(o.ok, "wait-empty", "%s although an element was pushed for every waiter", show(o).c_str());
		VF_CHECK(!o.torn, "torn", "%s returned a damaged element", show(o).c_str());
		got.push_back(o.val);
	}
	std::sort(got.begin(), got.end());
	for (int i = 0; i < nw; i++) VF_CHECK(got[(size_t)i] == (uint32_t)i + 1, "once", "elements were not handed out exactly once");
	count("wakeups", (uint64_t)nw);
	count("evals");
}

// More elements than sixteen bits count, from two producers: the size is exact, and every
// element comes out once, those of one producer in order.
inline void backlog(Queue& q, Rng& r, const char* name, bool sized)
{
	scenario(name);
	uint32_t n = (uint32_t)r.range(32769, 36000);
	std::vector<std::thread> th;
	std::atomic<uint32_t> refused{0};
	for (uint32_t t = 0; t < 2; t++) th.emplace_back([&, t] {
		for (uint32_t i = 0; i < n; i++) { Op o; o.k = PUSH; o.arg = (t << 24) + i + 1; q.run(o); if (!o.ok) refused.fetch_add(1); }
	});
	for (auto& t : th) t.join();
	VF_CHECK(refused.load() == 0, "push-refused", "%u of %u pushes refused", refused.load(), 2 * n);
	uint32_t next[2] = {1, 1};
	uint32_t left = 2 * n;
	for (;;) {
		if (sized && (left % 4096 < 3 || left > 2 * n - 4)) {
			Op z; z.k = SIZE; q.run(z);
			VF_CHECK(z.val == left, "backlog-size", "size %u with %u elements", (unsigned)z.val, left);
		}
		Op o; o.k = POP; q.run(o);
		if (!o.ok) break;
		VF_CHECK(left > 0 && !o.torn, "backlog-element", "element %u after the last one or damaged", (unsigned)o.val);
		uint32_t t = (uint32_t)o.val >> 24, x = (uint32_t)o.val & 0xffffff;
		VF_CHECK(t < 2 && x == next[t], "backlog-order", "element %u of producer %u, expected %u", x, t, t < 2 ? next[t] : 0);
		next[t]++;
		left--;
	}
	VF_CHECK(left == 0, "backlog-once", "%u of %u elements never delivered", left, 2 * n);
	count("backlogs");
	count("evals");
}

// Timed pops woken for nothing all the time, while others take what arrives: each must still end near its limit.
inline void storm(Queue& q, const std::vector<Kind>& pops, Rng& r, const char* name)
{
	scenario(name);
	int nw = (int)r.range(1, 3);
	std::vector<Op> w((size_t)nw);
	for (int i = 0; i < nw; i++) {
		w[(size_t)i].k = pops[r.below(pops.size())];
		w[(size_t)i].wait = (int)r.range(2, 6);
		w[(size_t)i].th = i + 1;
	}
	int items = (int)r.below((uint64_t)nw);
	wake_storm(true);
	std::atomic<int> done{0};
	std::vector<std::thread> th;
	for (int t = 0; t < nw; t++) th.emplace_back([&, t] { perform(q, w[(size_t)t]); done.fetch_add(1); });
	for (int i = 0; i < items; i++) { Op o; o.k = PUSH; o.arg = (uint32_t)i + 1; perform(q, o); VF_CHECK(o.ok, "push-refused", "%s", show(o).c_str()); }
	if (!wait_for([&] { return done.load() == nw; }, 20000)) fail("endless", "%d of %d timed pops of at most 6 ms, woken for nothing all the time, still wait after 20 s", nw - done.load(), nw);
	for (auto& t : th) t.join();
	wake_storm(false);
	int got = 0;
	for (auto& o : w) { trace("%s", show(o).c_str()); judge_wait(o); got += o.ok; }
	for (int guard = 0; guard < 8; guard++) { Op o; o.k = POP; perform(q, o); if (!o.ok) break; got++; }
	VF_CHECK(got == items, "once", "%d elements pushed, %d taken", items, got);
	count("storms");
	count("evals");
}

// Producers and consumers with many elements: exactly once, and in order per producer where the kinds promise it.
inline void delivery(Queue& q, const std::vector<Kind>& pushes, const std::vector<Kind>& pops, bool ordered, Rng& r, const char* name, uint32_t limit, bool forever_only = false)
{
	scenario(name);
	int np = (int)r.range(1, 4), nc = (int)r.range(1, 4);
	uint32_t per = (uint32_t)r.range(20, 120);
	uint32_t total = per * (uint32_t)np;
	chaos((int)r.range(1, 2), r.chance(1, 2));
	schedule_reset();
	std::vector<uint64_t> seeds;
	for (int t = 0; t < np + nc; t++) seeds.push_back(r.u64());
	std::vector<std::vector<uint32_t>> got((size_t)nc);
	std::atomic<uint32_t> taken{0};
	std::atomic<int> bad{0};
	Barrier b(np + nc);
	std::vector<std::thread> th;
	for (int t = 0; t < np; t++) th.emplace_back([&, t] {
		chaos_thread_seed(seeds[(size_t)t]);
		Rng q2(seeds[(size_t)t]);
		b.wait();
		for (uint32_t i = 0; i < per; ) {
			Op o;
			o.k = pushes[q2.below(pushes.size())];
			o.arg = (uint32_t)t << 20 | i;
			o.lim = o.k == PUSH_INDEX ? (uint32_t)q2.below(6) : limit;
			perform(q, o);
			if (o.ok) i++;
			else if (o.k != PUSH_LIMIT && o.k != PUSH_HEAD_LIMIT) { bad.fetch_add(1); i++; }
			else sched_yield();
			progress();
		}
	});
	for (int t = 0; t < nc; t++) th.emplace_back([&, t] {
		uint64_t seed = seeds[(size_t)(np + t)];
		chaos_thread_seed(seed);
		Rng q2(seed);
		// fixed quotas: an endless wait is allowed because the elements are guaranteed
		uint32_t quota = total / (uint32_t)nc + ((uint32_t)t < total % (uint32_t)nc ? 1 : 0);
		b.wait();
		while (quota) {
			Op o;
			o.k = pops[q2.below(pops.size())];
			o.wait = forever_only || q2.chance(1, 2) ? -1 : q2.chance(1, 2) ? 0 : (int)q2.range(1, 3);
			o.arg = q2.chance(1, 2) ? (uint32_t)q2.below((uint64_t)np) << 20 | (uint32_t)q2.below(per) : 0;
			if (o.k == DEL_ONE || o.k == VISIT_DEL) o.arg = (uint32_t)q2.below((uint64_t)np) << 20 | (uint32_t)q2.below(per);
			perform(q, o);
			if (o.torn) bad.fetch_add(1);
			if (o.ok) { got[(size_t)t].push_back(o.k == DEL_ONE || o.k == VISIT_DEL ? o.arg : o.val); quota--; taken.fetch_add(1); }
			else if (o.wait == -1 && o.k != DEL_ONE && o.k != VISIT_DEL) bad.fetch_add(1);
			else sched_yield();
			progress();
		}
	});
	uint32_t last = 0;
	int64_t since = now_ns();
	while (taken.load() < total) {
		struct timespec ts = {0, 50000};
		nanosleep(&ts, NULL);
		progress();
		if (taken.load() != last) { last = taken.load(); since = now_ns(); }
		else if (now_ns() - since > 25 * 1000000000LL) fail("stalled", "%u of %u elements delivered, then nothing for 25 s", last, total);
	}
	for (auto& t : th) t.join();
	seen("distinct", schedule_signature());
	chaos(0, false);
	VF_CHECK(bad.load() == 0, "bad-result", "%d operations failed or returned damaged elements", bad.load());
	std::vector<uint32_t> all;
	for (auto& g : got) {
		std::map<uint32_t, uint32_t> last_of;
		for (uint32_t v : g) {
			all.push_back(v);
			if (ordered) {
				uint32_t p = v >> 20, s = v & 0xfffff;
				auto it = last_of.find(p);
				VF_CHECK(it == last_of.end() || it->second < s, "order", "producer %u: element %u taken after %u by the same consumer", p, s, it->second);
				last_of[p] = s;
			}
		}
	}
	std::sort(all.begin(), all.end());
	VF_CHECK(all.size() == total, "once", "%zu elements delivered of %u", all.size(), total);
	for (uint32_t i = 0; i < total; i++) VF_CHECK(all[i] == ((i / per) << 20 | i % per), "once", "element %x missing or delivered twice", (i / per) << 20 | i % per);
	Op o;
	o.k = POP;
	perform(q, o);
	VF_CHECK(!o.ok, "left-over", "an element %x is left after all were delivered", o.val);
	count("delivered", total);
	count("deliveries");
	count("evals");
}
} // namespace conc
