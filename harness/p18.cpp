// P18: buffer pool, exclusive ownership and limits.
#include "conc.hpp"
#include <set>
extern "C" {
#include <aerospike/as_buffer_pool.h>
#include <citrusleaf/alloc.h>
}
using namespace conc;

struct Held { uint8_t* p; uint32_t cap; uint64_t tag; };
static void stamp(Held& h, uint32_t hdr) { uint64_t n = (uint64_t)h.cap + hdr; for (uint64_t i = 0; i < n; i++) h.p[i] = (uint8_t)(h.tag * 131 + i * 7); }
static bool intact(const Held& h, uint32_t hdr) { uint64_t n = (uint64_t)h.cap + hdr; for (uint64_t i = 0; i < n; i++) if (h.p[i] != (uint8_t)(h.tag * 131 + i * 7)) return false; return true; }

static void sequential(Rng& r, uint64_t idx)
{
	scenario("sequential");
	int64_t live0 = live_allocs();
	uint32_t hdr = r.chance(1, 3) ? 0 : (uint32_t)r.range(1, 40);
	uint32_t bsz = hdr + (uint32_t)r.below(100);
	as_buffer_pool pool;
	VF_CHECK(as_buffer_pool_init(&pool, hdr, bsz) == 0, "init", "init failed");
	int64_t base = live_allocs();
	if (idx < 4) sample("header %u buffer %u", hdr, bsz);
	std::set<void*> idle;
	std::vector<Held> held;
	uint64_t tag = r.below(100), sig = hash2(hdr, bsz);
	int nops = (int)r.range(10, 150);
	for (int k = 0; k < nops; k++) {
		int op = (int)r.below(9);
		sig = hash2(sig, (uint64_t)op);
		if (op < 4) {
			uint32_t want = (uint32_t)r.below(bsz - hdr + 20);
			if (r.chance(1, 4)) want = bsz - hdr + (uint32_t)r.below(2);
			bool giant = r.chance(1, 40);
			if (giant) { want = UINT32_MAX - (uint32_t)r.below(60); max_single_alloc(1u << 30); }
			as_buffer_result b;
			b.data = (void*)0x5a5a; b.capacity = 0x5a5a;
			int rc = as_buffer_pool_pop(&pool, want, &b);
			max_single_alloc(0);
			trace("pop %u -> %d (header %u buffer %u idle %zu)", want, rc, hdr, bsz, idle.size());
			bool big = (uint64_t)want + hdr > bsz;
			if (giant) { VF_CHECK(rc == -1, "giant", "a request for %u bytes in a pool of %u (header %u) returned %d when memory for it was refused", want, bsz, hdr, rc); count("giant"); continue; }
			VF_CHECK(rc == (big ? 2 : idle.empty() ? 1 : 0), "pop-result", "pop of %u bytes (buffer %u, header %u, %zu idle) returned %d", want, bsz, hdr, idle.size(), rc);
			VF_CHECK(b.capacity >= want, "too-small", "capacity %u for a request of %u", b.capacity, want);
			for (auto& h : held) VF_CHECK(h.p != b.data, "shared", "a buffer in use was handed out again");
			if (rc == 0) { VF_CHECK(idle.count(b.data), "unknown", "a pooled buffer is not one that was returned"); idle.erase(b.data); count("reused"); }
			else VF_CHECK(!idle.count(b.data), "fresh", "a fresh buffer is also idle in the pool");
			Held h = {(uint8_t*)b.data, b.capacity, ++tag};
			stamp(h, hdr);
			held.push_back(h);
			count(rc == 2 ? "large" : "regular");
		}
		else if (op < 8 && !held.empty()) {
			size_t i = r.below(held.size());
			Held h = held[i];
			held.erase(held.begin() + (long)i);
			VF_CHECK(intact(h, hdr), "overwritten", "a buffer in use was overwritten");
			bool big = (uint64_t)h.cap + hdr > bsz;
			int rc;
			bool keeps;
			if (op < 6) {
				rc = as_buffer_pool_push(&pool, h.p, h.cap);
				VF_CHECK(rc == (big ? -2 : 0), "push-result", "push of capacity %u returned %d", h.cap, rc);
				keeps = !big;
			}
			else {
				uint32_t lim = (uint32_t)r.below(idle.size() + 3);
				rc = as_buffer_pool_push_limit(&pool, h.p, h.cap, lim);
				VF_CHECK(rc == (big ? -2 : idle.size() < lim ? 0 : -1), "push_limit-result", "limited push of capacity %u with %zu idle, limit %u returned %d", h.cap, idle.size(), lim, rc);
				keeps = rc == 0;
				if (rc == -1) count("over_limit");
			}
			trace("push capacity %u -> %d", h.cap, rc);
			if (keeps) idle.insert(h.p);
		}
		else if (op == 8 && r.chance(1, 3)) {
			int want = (int)r.range(-1, (int64_t)idle.size() + 2);
			int rc = as_buffer_pool_drop_buffers(&pool, want);
			int can = std::max(0, std::min(want, (int)idle.size()));
			VF_CHECK(rc == can, "drop-result", "dropping %d of %zu returned %d", want, idle.size(), rc);
			count("dropped", (uint64_t)rc);
			VF_CHECK(live_allocs() == base + (int64_t)(idle.size() - (size_t)rc + held.size()), "drop-ledger", "dropping %d changed the number of buffers by another amount", rc);
			// which ones went is not specified: drain and refill to learn
			std::vector<as_buffer_result> keep;
			for (size_t n = idle.size() - (size_t)rc; n; n--) {
				as_buffer_result b;
				VF_CHECK(as_buffer_pool_pop(&pool, 0, &b) == 0, "drop-left", "fewer buffers left than reported");
				VF_CHECK(idle.count(b.data), "unknown", "a pooled buffer is not one that was returned");
				keep.push_back(b);
			}
			idle.clear();
			for (auto& b : keep) { VF_CHECK(as_buffer_pool_push(&pool, b.data, b.capacity) == 0, "push-result", "returning a buffer failed"); idle.insert(b.data); }
		}
		VF_CHECK(live_allocs() == base + (int64_t)(idle.size() + held.size()), "ledger", "%lld buffers allocated, %zu idle and %zu in use", (long long)(live_allocs() - base), idle.size(), held.size());
		count("ops");
	}
	if (idx % 5000 < 4 && hdr) {
		// a buffer of almost 4 GB (never touched) goes back as an oversized one
		as_buffer_result b;
		uint32_t want = UINT32_MAX - (uint32_t)r.below(hdr);
		int rc = as_buffer_pool_pop(&pool, want, &b);
		VF_CHECK(rc == 2 || rc == -1, "giant", "a request for %u bytes returned %d", want, rc);
		if (rc == 2) {
			VF_CHECK(b.capacity >= want, "too-small", "capacity %u for a request of %u", b.capacity, want);
			rc = as_buffer_pool_push(&pool, b.data, b.capacity);
			VF_CHECK(rc == -2, "giant-kept", "returning a buffer of %u bytes to a pool of %u returned %d", want, bsz, rc);
			count("giant_returned");
		}
	}
	for (auto& h : held) { VF_CHECK(intact(h, hdr), "overwritten", "a buffer in use was overwritten"); if (r.chance(1, 2)) as_buffer_pool_push(&pool, h.p, h.cap); else cf_free(h.p); }
	as_buffer_pool_destroy(&pool);
	VF_CHECK(live_allocs() == live0, "destroy-ledger", "%+lld blocks left after destroy", (long long)(live_allocs() - live0));
	seen("distinct", sig);
	count("evals");
}

static void concurrent(Rng& r)
{
	scenario("concurrent");
	int64_t live0 = live_allocs();
	uint32_t hdr = (uint32_t)r.below(20), bsz = hdr + (uint32_t)r.range(8, 80);
	as_buffer_pool pool;
	VF_CHECK(as_buffer_pool_init(&pool, hdr, bsz) == 0, "init", "init failed");
	int nt = (int)r.range(2, 5);
	std::vector<uint64_t> seeds;
	for (int t = 0; t < nt; t++) seeds.push_back(r.u64());
	std::atomic<int> bad{0}, dup{0}, res{0};
	std::atomic<int64_t> dropped{0}, kept{0};
	bool limited = r.chance(1, 2);
	uint32_t lim = (uint32_t)r.range(0, 4);
	chaos((int)r.range(1, 3), false);
	schedule_reset();
	Barrier b(nt);
	std::vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
		chaos_thread_seed(seeds[(size_t)t]);
		Rng q(seeds[(size_t)t]);
		std::vector<Held> mine;
		b.wait();
		for (int k = 0; k < 25; k++) {
			if (mine.size() < 4 && q.chance(1, 2)) {
				uint32_t want = (uint32_t)q.below(bsz - hdr + (q.chance(1, 5) ? 30 : 1));
				as_buffer_result x;
				int rc = as_buffer_pool_pop(&pool, want, &x);
				bool big = (uint64_t)want + hdr > bsz;
				if (rc < 0 || (rc == 2) != big || x.capacity < want) { res.fetch_add(1, std::memory_order_relaxed); continue; }
				if (rc == 0) kept.fetch_sub(1, std::memory_order_relaxed);
				Held h = {(uint8_t*)x.data, x.capacity, q.u64()};
				stamp(h, hdr);
				mine.push_back(h);
			}
			else if (!mine.empty()) {
				Held h = mine.back();
				mine.pop_back();
				if (!intact(h, hdr)) bad.fetch_add(1, std::memory_order_relaxed);
				int rc = limited ? as_buffer_pool_push_limit(&pool, h.p, h.cap, lim) : as_buffer_pool_push(&pool, h.p, h.cap);
				bool big = (uint64_t)h.cap + hdr > bsz;
				if (big ? rc != -2 : rc != 0 && !(limited && rc == -1)) res.fetch_add(1, std::memory_order_relaxed);
				if (rc == 0) kept.fetch_add(1, std::memory_order_relaxed);
			}
			else if (q.chance(1, 4)) { int d = as_buffer_pool_drop_buffers(&pool, (int)q.below(3)); dropped.fetch_add(d, std::memory_order_relaxed); kept.fetch_sub(d, std::memory_order_relaxed); }
			for (auto& h : mine) if (!intact(h, hdr)) bad.fetch_add(1, std::memory_order_relaxed);
			perturb();
		}
		for (auto& h : mine) { if (!intact(h, hdr)) bad.fetch_add(1, std::memory_order_relaxed); cf_free(h.p); }
	});
	for (auto& t : th) t.join();
	seen("distinct", schedule_signature());
	chaos(0, false);
	VF_CHECK(bad.load() == 0, "overwritten", "a buffer was changed %d times while one thread held it", bad.load());
	VF_CHECK(res.load() == 0, "results", "%d calls returned an unexpected result", res.load());
	VF_CHECK(kept.load() >= 0 && (!limited || kept.load() <= (int64_t)lim), "limit", "%lld idle buffers with a limit of %u", (long long)kept.load(), lim);
	int left = as_buffer_pool_drop_buffers(&pool, 1000000);
	VF_CHECK(left == kept.load(), "idle", "%d idle buffers in the pool, %lld by the threads' count", left, (long long)kept.load());
	as_buffer_pool_destroy(&pool);
	VF_CHECK(live_allocs() == live0, "destroy-ledger", "%+lld blocks left after destroy", (long long)(live_allocs() - live0));
	count("concurrent");
	count("evals");
}

static void one(uint64_t idx, Rng& r)
{
	if (idx % 3 == 0) concurrent(r);
	else sequential(r, idx);
}

int main(int argc, char** argv)
{
	floor_of("reused", 500); floor_of("large", 200); floor_of("over_limit", 50); floor_of("dropped", 50); floor_of("concurrent", 200); floor_of("giant", 50);
	return run(argc, argv, 60000, 900000, one);
}
