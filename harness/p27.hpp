// P27: doubly linked list against a reference sequence, sequentially and under concurrent use.
#include "conc.hpp"
#include <limits.h>
#include <list>
#include <set>
#include <thread>
extern "C" {
#include <citrusleaf/cf_ll.h>
}
using namespace vf;
using namespace conc;

struct El { cf_ll_element ll; uint32_t id; uint32_t key; int owner; };

static thread_local std::vector<uint32_t>* t_destroyed;
static bool g_free;
static void destroy(cf_ll_element* e)
{
	El* x = (El*)e;
	if (t_destroyed) t_destroyed->push_back(x->id);
	if (g_free) free(x);
}

static El* make(uint32_t id, uint32_t key, int owner)
{
	El* e = (El*)malloc(sizeof(El));
	memset((void*)e, 0xa5, sizeof *e);
	e->id = id;
	e->key = key;
	e->owner = owner;
	return e;
}

typedef std::function<int(El*)> Fn;
static int visit(cf_ll_element* e, void* u) { return (*(Fn*)u)((El*)e); }
static thread_local Fn* t_search;
static int match(cf_ll_element* e, void*) { return (*t_search)((El*)e); }

static void compare(cf_ll* ll, const std::vector<El*>& m, const char* after)
{
	size_t i = 0;
	for (cf_ll_element* e = cf_ll_get_head(ll); e; e = cf_ll_get_next(e), i++) VF_CHECK(i < m.size() && e == &m[i]->ll, "forward", "after %s element %zu of %zu differs going forward", after, i, m.size());
	VF_CHECK(i == m.size(), "forward", "after %s %zu elements going forward, expected %zu", after, i, m.size());
	i = m.size();
	for (cf_ll_element* e = cf_ll_get_tail(ll); e; e = cf_ll_get_prev(e), i--) VF_CHECK(i > 0 && e == &m[i - 1]->ll, "backward", "after %s element %zu of %zu differs going backward", after, i, m.size());
	VF_CHECK(i == 0, "backward", "after %s %zu elements missing going backward", after, i);
	VF_CHECK(cf_ll_size(ll) == m.size(), "size", "after %s size %u, expected %zu", after, cf_ll_size(ll), m.size());
}

static void sequential(Rng& r, uint64_t idx)
{
	scenario("sequential");
	cf_ll ll;
	memset((void*)&ll, 0xa5, sizeof ll);
	bool destr = r.chance(3, 4);
	g_free = destr && r.chance(3, 4);
	std::vector<uint32_t> gone;
	t_destroyed = &gone;
	cf_ll_init(&ll, destr ? destroy : NULL, r.chance(1, 2));
	std::vector<El*> m, out;			// out: removed, memory still ours
	uint32_t next = 1;
	int steps = 1 + (int)r.below(60), grow = (int)r.below(3);
	uint64_t sig = 0;
	auto taken = [&](El* e, uint32_t id, const char* op) {		// e was removed by op
		if (destr) {
			VF_CHECK(gone.size() == 1 && gone[0] == id, "destructor", "%s ran the destructor %zu times", op, gone.size());
			gone.clear();
		}
		if (!g_free) out.push_back(e);
	};
	for (int s = 0; s < steps; s++) {
		uint64_t op = r.below(18);
		if (grow == 0 && op < 4 && m.size() > 3) op = 6;
		size_t n = m.size(), at = n ? r.below(n) : 0;
		if (n && r.chance(1, 4)) at = r.chance(1, 2) ? 0 : n - 1;
		bool fwd = r.chance(1, 2);
		const char* name = "";
		sig = hash2(sig, hash2(op, n * 64 + at));
		auto fresh = [&] { return make(next++, r.below(30), 0); };
		switch (op) {
		case 0: { name = "prepend"; El* e = fresh(); cf_ll_prepend(&ll, &e->ll); m.insert(m.begin(), e); break; }
		case 1: case 2: { name = "append"; El* e = fresh(); cf_ll_append(&ll, &e->ll); m.push_back(e); break; }
		case 3: case 4:
			if (n) {
				El* e = fresh();
				if (op == 3) { name = "insert_after"; cf_ll_insert_after(&ll, &m[at]->ll, &e->ll); m.insert(m.begin() + at + 1, e); }
				else { name = "insert_before"; cf_ll_insert_before(&ll, &m[at]->ll, &e->ll); m.insert(m.begin() + at, e); }
			}
			break;
		case 5: case 6: case 7:
			if (n) {
				name = "delete";
				El* e = m[at];
				uint32_t id = e->id;
				cf_ll_delete(&ll, &e->ll);
				m.erase(m.begin() + at);
				taken(e, id, name);
			}
			else { El x; cf_ll_delete(&ll, &x.ll); VF_CHECK(gone.empty(), "destructor", "deleting from an empty list ran the destructor"); }
			break;
		case 8: case 9: case 10: {
			name = fwd ? "reduce" : "reverse reduce";
			size_t stop = r.chance(1, 3) && n ? r.below(n) : n;
			int stopv = -(int)(1 + r.below(5)), odds = (int)r.below(5);
			std::vector<El*> keep, order(m);
			if (!fwd) std::reverse(order.begin(), order.end());
			std::vector<uint32_t> ids, del;
			std::vector<El*> delp;
			size_t k = 0;
			Fn f = [&](El* e) -> int {
				if (k >= order.size() || k > stop) fail("visit-order", "a visit went on beyond element %zu", k);
				VF_CHECK(e == order[k], "visit-order", "visit %zu of %zu saw another element", k, order.size());
				size_t me = k++;
				if (me == stop) { keep.push_back(e); return stopv; }
				if (r.below(5) < (uint64_t)odds) { del.push_back(e->id); delp.push_back(e); return CF_LL_REDUCE_DELETE; }
				keep.push_back(e);
				return 0;
			};
			int rv = cf_ll_reduce(&ll, fwd, visit, &f);
			if (stop < n) {
				VF_CHECK(k == stop + 1, "visit-order", "a visit stopped at %zu, asked at %zu", k, stop);
				VF_CHECK(rv == stopv, "visit-result", "a visit ended with %d returned %d", stopv, rv);
				for (size_t i = k; i < n; i++) keep.push_back(order[i]);
			}
			else {
				VF_CHECK(k == n, "visit-order", "a visit saw %zu of %zu elements", k, n);
				VF_CHECK(rv >= 0, "visit-result", "a completed visit returned %d", rv);
			}
			if (!fwd) std::reverse(keep.begin(), keep.end());
			m = keep;
			if (destr) VF_CHECK(gone == del, "destructor", "a visit removing %zu elements ran the destructor %zu times", del.size(), gone.size());
			gone.clear();
			if (!g_free) for (El* e : delp) out.push_back(e);
			count("visit_deletes", del.size());
			break;
		}
		case 11: case 12: {
			name = fwd ? "insert_reduce" : "reverse insert_reduce";
			El* e = fresh();
			std::vector<El*> order(m);
			if (!fwd) std::reverse(order.begin(), order.end());
			size_t where = r.below(n + 1);		// n: at the end
			int how = (int)r.below(4);		// 0: bail out with a negative, 1: never insert
			if (how == 1) where = n;
			size_t k = 0;
			int bail = -(int)(1 + r.below(9));
			Fn f = [&](El* x) -> int {
				VF_CHECK(k <= n && x == (k < n ? order[k] : (El*)NULL), "visit-order", "ordered insert: visit %zu of %zu saw another element", k, n);
				size_t me = k++;
				if (me < where) return 0;
				return how == 0 ? bail : how == 1 ? 0 : CF_LL_REDUCE_INSERT;
			};
			int rv = cf_ll_insert_reduce(&ll, &e->ll, fwd, visit, &f);
			VF_CHECK(k == where + 1, "visit-order", "ordered insert made %zu visits, expected %zu", k, where + 1);
			VF_CHECK(rv == (how == 0 ? bail : 0), "visit-result", "ordered insert returned %d (%d)", rv, how);
			if (how >= 2) m.insert(m.begin() + (fwd ? where : n - where), e);
			else free(e);
			break;
		}
		case 13: {
			name = "search";
			uint32_t want = (uint32_t)r.below(next + 2);
			size_t giveup = r.chance(1, 4) && n ? r.below(n) : n, k = 0;
			Fn f = [&](El* e) -> int { size_t me = k++; if (me == giveup) return -1; return e->id == want ? CF_LL_REDUCE_MATCHED : CF_LL_REDUCE_NOT_MATCHED; };
			t_search = &f;
			El key;
			cf_ll_element* e = cf_ll_search(&ll, &key.ll, fwd, match);
			cf_ll_element* x = NULL;
			for (size_t i = 0; i < n && i < giveup; i++) { El* c = m[fwd ? i : n - 1 - i]; if (c->id == want) { x = &c->ll; break; } }
			VF_CHECK(e == x, "search", "search for %u found %s", want, e ? "another element" : "nothing");
			break;
		}
		case 14: {
			name = "index";
			int i = r.chance(1, 10) ? (r.chance(1, 2) ? INT_MIN : INT_MAX) : (int)r.range(-(int64_t)n - 2, (int64_t)n + 1);
			cf_ll_element* e = cf_ll_index(&ll, i);
			int64_t j = i < 0 ? (int64_t)n + i : i;
			VF_CHECK(e == (j >= 0 && j < (int64_t)n ? &m[j]->ll : NULL), "index", "index %d of %zu gave another element", i, n);
			break;
		}
		default: {
			name = "iterator";
			cf_ll_iterator* it = cf_ll_getIterator(&ll, fwd);
			VF_CHECK(it, "iterator", "no iterator");
			for (size_t i = 0; i < n; i++) VF_CHECK(cf_ll_getNext(it) == &m[fwd ? i : n - 1 - i]->ll, "iterator", "iterator element %zu of %zu differs", i, n);
			VF_CHECK(cf_ll_getNext(it) == NULL && cf_ll_getNext(it) == NULL, "iterator", "iterator goes on after the end");
			cf_ll_releaseIterator(it);
		}
		}
		if (destr && !gone.empty()) fail("destructor", "%s ran the destructor", name);
		compare(&ll, m, name);
		count("ops");
	}
	if (idx < 3) sample("%d operations, final size %zu, destructor %d freeing %d", steps, m.size(), destr, g_free);
	// emptying visit
	Fn all = [](El*) { return CF_LL_REDUCE_DELETE; };
	std::vector<El*> rest(m);
	std::vector<uint32_t> ids;
	for (El* e : rest) ids.push_back(e->id);
	cf_ll_reduce(&ll, true, visit, &all);
	compare(&ll, {}, "removing all");
	if (destr) VF_CHECK(gone == ids, "destructor", "removing all ran the destructor %zu times for %zu elements", gone.size(), ids.size());
	if (!g_free) { for (El* e : rest) free(e); for (El* e : out) free(e); }
	t_destroyed = NULL;
	seen("distinct", sig);
}

// More elements than 16 bits count.
static void long_list(Rng& r)
{
	scenario("long-list");
	cf_ll ll;
	std::vector<uint32_t> gone;
	t_destroyed = &gone;
	g_free = true;
	cf_ll_init(&ll, destroy, r.chance(1, 2));
	std::vector<El*> m;
	uint32_t n = 65530 + (uint32_t)r.below(3000);
	for (uint32_t i = 0; i < n; i++) { m.push_back(make(i, i, 0)); cf_ll_append(&ll, &m.back()->ll); }
	compare(&ll, m, "filling");
	for (int k = 0; k < 30; k++) {
		int64_t i = k & 1 ? (int64_t)r.range(-(int64_t)n - 1, -65530) : (int64_t)r.range(65530, n + 1);
		int64_t j = i < 0 ? (int64_t)n + i : i;
		VF_CHECK(cf_ll_index(&ll, (int)i) == (j >= 0 && j < (int64_t)n ? &m[j]->ll : NULL), "index", "index %ld of %u gave another element", (long)i, n);
	}
	size_t at = r.below(n);
	cf_ll_delete(&ll, &m[at]->ll);
	m.erase(m.begin() + (long)at);
	compare(&ll, m, "delete");
	bool fwd = r.chance(1, 2);
	uint64_t k = 0;
	Fn f = [&](El* e) -> int { VF_CHECK(e == m[fwd ? k : m.size() - 1 - k], "visit-order", "visit %lu of %zu saw another element", (long)k, m.size()); k++; return CF_LL_REDUCE_DELETE; };
	cf_ll_reduce(&ll, fwd, visit, &f);
	VF_CHECK(k == m.size() && gone.size() == n, "destructor", "removing all of %u elements visited %lu and ran the destructor %zu times", n, (long)k, gone.size());
	compare(&ll, {}, "removing all");
	t_destroyed = NULL;
	count("long_lists");
}

static void concurrent(Rng& r)
{
	scenario("concurrent");
	cf_ll ll;
	g_free = true;
	cf_ll_init(&ll, destroy, true);
	int nt = 2 + (int)r.below(3), n = 3 + (int)r.below(14);
	bool sorted = r.chance(1, 2);
	std::vector<uint64_t> sd;
	for (int t = 0; t < nt; t++) sd.push_back(r.u64());
	std::vector<std::vector<uint32_t>> destroyed(nt), deleted(nt);
	std::vector<std::vector<El*>> mine(nt);
	{
		Barrier b(nt);
		std::vector<std::thread> th;
		for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
			chaos_thread_seed(sd[t]);
			Rng q(sd[t]);
			t_destroyed = &destroyed[t];
			auto& own = mine[t];
			uint32_t seq = 0;
			b.wait();
			for (int i = 0; i < n; i++) {
				uint64_t op = q.below(10);
				if (op < 5) {
					El* e = make((uint32_t)t << 16 | seq, sorted ? (uint32_t)q.below(20) : seq, t);
					seq++;
					if (sorted) {
						bool fwd = q.chance(1, 2);
						uint32_t k = e->key;
						Fn f = [&](El* x) -> int { return !x || (fwd ? x->key >= k : x->key <= k) ? CF_LL_REDUCE_INSERT : 0; };
						cf_ll_insert_reduce(&ll, &e->ll, fwd, visit, &f);
					}
					else if (own.size() && q.chance(1, 4)) cf_ll_insert_after(&ll, &own.back()->ll, &e->ll);
					else cf_ll_append(&ll, &e->ll);
					own.push_back(e);
				}
				else if (op < 7 && own.size()) {
					size_t at = q.below(own.size());
					El* e = own[at];
					deleted[t].push_back(e->id);
					own.erase(own.begin() + at);
					cf_ll_delete(&ll, &e->ll);
				}
				else if (op < 9) {
					bool fwd = q.chance(1, 2), rem = q.chance(1, 2);
					size_t k = 0, sawn = 0;
					std::vector<int64_t> last(nt, fwd ? -1 : INT64_MAX);
					int64_t lastkey = fwd ? -1 : INT64_MAX;
					std::vector<uint32_t> del;
					Fn f = [&](El* e) -> int {
						sawn++;
						if (sawn > 1000) { fail_later("cycle", "a visit does not end"); return -1; }
						if (sorted) {
							if (fwd ? e->key < lastkey : e->key > lastkey) fail_later("unsorted", "a visit saw keys out of order");
							lastkey = e->key;
						}
						else {
							if (fwd ? (int64_t)e->key <= last[e->owner] : (int64_t)e->key >= last[e->owner]) fail_later("order", "a visit saw one thread's elements out of order");
							last[e->owner] = e->key;
						}
						if (e->owner != t) return 0;
						k++;
						if (rem && e->id % 3 == 0) { del.push_back(e->id); return CF_LL_REDUCE_DELETE; }
						return 0;
					};
					cf_ll_reduce(&ll, fwd, visit, &f);
					if (k != own.size()) fail_later("missing", "a visit saw %zu of the thread's %zu elements", k, own.size());
					for (uint32_t d : del) {
						deleted[t].push_back(d);
						for (size_t j = 0; j < own.size(); j++) { uint32_t id = own[j] ? own[j]->id : 0; (void)id; }
					}
					own.clear();
					Fn g = [&](El* e) -> int { if (e->owner == t) own.push_back(e); return 0; };
					cf_ll_reduce(&ll, true, visit, &g);
					if (own.size() != k - del.size()) fail_later("missing", "%zu of the thread's elements left, expected %zu", own.size(), k - del.size());
				}
				else {
					if (cf_ll_size(&ll) < own.size()) fail_later("size", "size below the number of the thread's own elements");
					if (own.size()) {
						El* want = own[q.below(own.size())];
						Fn f = [&](El* e) -> int { return e == want ? CF_LL_REDUCE_MATCHED : CF_LL_REDUCE_NOT_MATCHED; };
						t_search = &f;
						if (cf_ll_search(&ll, NULL, q.chance(1, 2), match) != &want->ll) fail_later("search", "an element in the list was not found");
					}
				}
			}
			t_destroyed = NULL;
		});
		for (auto& t : th) t.join();
	}
	check_later();
	size_t total = 0;
	for (int t = 0; t < nt; t++) {
		VF_CHECK(destroyed[t] == deleted[t], "destructor", "thread %d removed %zu elements, the destructor ran %zu times", t, deleted[t].size(), destroyed[t].size());
		total += mine[t].size();
	}
	std::set<El*> want;
	for (auto& o : mine) want.insert(o.begin(), o.end());
	std::vector<El*> f;
	for (cf_ll_element* e = cf_ll_get_head(&ll); e && f.size() <= total; e = cf_ll_get_next(e)) f.push_back((El*)e);
	VF_CHECK(f.size() == total && std::set<El*>(f.begin(), f.end()) == want, "contents", "%zu elements in the list, expected %zu", f.size(), total);
	compare(&ll, f, "concurrent use");
	std::vector<uint32_t> gone;
	t_destroyed = &gone;
	Fn all = [](El*) { return CF_LL_REDUCE_DELETE; };
	cf_ll_reduce(&ll, r.chance(1, 2), visit, &all);
	VF_CHECK(gone.size() == total, "destructor", "removing all ran the destructor %zu times for %zu elements", gone.size(), total);
	compare(&ll, {}, "removing all");
	t_destroyed = NULL;
	count("concurrent");
	count("ops", (uint64_t)nt * n);
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
#ifdef VF_CONC
	bool conc = true;
#else
	bool conc = idx % 16 == 0;
#endif
	size_t live = live_allocs();
	if (!conc && idx % 5000 == 11) { long_list(r); VF_CHECK(live_allocs() == (int64_t)live, "leak", "%ld allocations left", (long)(live_allocs() - (int64_t)live)); return; }
	if (conc) {
		chaos((int)r.below(4), false);
		schedule_reset();
		concurrent(r);
		chaos(0, false);
		seen("distinct", schedule_signature());
	}
	else { sequential(r, idx); VF_CHECK(live_allocs() == live, "leak", "%zu allocations left", (size_t)(live_allocs() - live)); }
}

int main(int argc, char** argv)
{
	floor_of("ops", 2000);
#ifdef VF_CONC
	return run(argc, argv, 12000, 400000, one);
#else
	floor_of("long_lists", 5);
	return run(argc, argv, 60000, 3000000, one);
#endif
}
