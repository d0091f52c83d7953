// P30: every allocation of every growing operation fails once, and from there on.
#include "gen.hpp"
#include <alloca.h>
#include <deque>
#include <atomic>
#include <functional>
#include <thread>
#include <unistd.h>
extern "C" {
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_aerospike.h>
#include <aerospike/as_buffer.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_stream.h>
#include <aerospike/as_buffer_pool.h>
#include <aerospike/as_msgpack_serializer.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_queue.h>
#include <aerospike/as_queue_mt.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_string_builder.h>
#include <aerospike/as_stringmap.h>
#include <aerospike/as_thread_pool.h>
#include <citrusleaf/cf_queue.h>
#include <citrusleaf/alloc.h>
}
using namespace vf;
using namespace gen;

struct Fault {
	int64_t n;
	bool forever;
	uint64_t before = 0;
	bool hit = false;
	void arm() { before = injected_failures(); if (forever) fail_alloc_from(n, 1 << 30); else fail_alloc_at(n); }
	void disarm() { fail_alloc_at(-1); if (injected_failures() != before) hit = true; }
	template <class F> auto call(F f) { arm(); auto x = f(); disarm(); return x; }
};

// Repeats the body, which arms the fault around one call, for one allocation after the other.
static void sweep(Rng& r, const char* name, const std::function<void(Fault&, Rng&)>& body, uint64_t skip = 0)
{
	scenario(name);
	uint64_t s = r.u64();
	for (int forever = 0; forever < 2; forever++)
		for (int64_t n = 0; n < 100000; n += 1 + (skip ? (int64_t)r.below(skip) : 0)) {
			Fault f{n, forever != 0};
			Rng q(s);
			int64_t live = live_allocs();
			trace("%s: allocation %ld fails%s", name, (long)n, forever ? " and all after it" : "");
			body(f, q);
			VF_CHECK(live_allocs() == live, "leak", "%s with allocation %ld failing%s leaves %ld allocations", name, (long)n, forever ? " and all after it" : "", (long)(live_allocs() - live));
			count("points");
			if (!f.hit) break;
			count("injected");
			seen("distinct", hash2(hash_bytes(name, strlen(name)), hash2((uint64_t)n * 2 + (uint64_t)forever, s)));
		}
}
#define REPORTED(ok, f, what) VF_CHECK((ok) || (f).hit, "refused", what " refused although no allocation failed")

// ---------------------------------------------------------------- queues
// Locks and conditions are resources, too: their initialisation can fail.
static void t_sync_init(Rng& r)
{
	scenario("sync_init");
	for (int how = 0; how < 4; how++) {
		uint32_t cap = 1 + (uint32_t)r.below(40);
		for (int64_t n = 0; n < 20; n++) {
			int64_t live = live_allocs();
			uint64_t before = failed_sync_inits();
			cf_queue c, *cp = NULL;
			as_queue_mt m, *mp = NULL;
			bool ok = false;
			fail_sync_init_at(n);
			switch (how) {
			case 0: ok = cf_queue_init(&c, 8, cap, true); cp = &c; break;
			case 1: ok = (cp = cf_queue_create(8, true)) != NULL; break;
			case 2: ok = as_queue_mt_init(&m, 8, cap); mp = &m; break;
			default: ok = (mp = as_queue_mt_create(8, cap)) != NULL; break;
			}
			fail_sync_init_at(-1);
			bool hit = failed_sync_inits() != before;
			VF_CHECK(ok != hit, "sync-init", "queue creation %s although initialising its lock or condition %s", ok ? "succeeded" : "failed", hit ? "failed" : "did not fail");
			if (ok) {
				uint64_t v = r.u64(), w = 0;
				if (cp) VF_CHECK(cf_queue_push(cp, &v) == CF_QUEUE_OK && cf_queue_pop(cp, &w, CF_QUEUE_NOWAIT) == CF_QUEUE_OK && v == w, "contents", "another value popped");
				else VF_CHECK(as_queue_mt_push(mp, &v) && as_queue_mt_pop(mp, &w, AS_QUEUE_NOWAIT) && v == w, "contents", "another value popped");
				if (cp) cf_queue_destroy(cp); else as_queue_mt_destroy(mp);
			}
			VF_CHECK(live_allocs() == live, "leak", "creating a queue whose lock or condition cannot be initialised leaves %ld allocations", (long)(live_allocs() - live));
			if (!hit) break;
			count("sync_inits");
			seen("distinct", hash2((uint64_t)how, (uint64_t)n));
		}
	}
}

static void t_as_queue(Rng& r)
{
	sweep(r, "as_queue", [](Fault& f, Rng& q) {
		uint32_t cap = 1 + (uint32_t)q.below(6);
		int how = (int)q.below(4);
		as_queue st, *p = &st;
		as_queue_mt mt;
		std::deque<uint64_t> m;
		bool ok = true, isq = true;
		if (how == 0) ok = as_queue_init(p, 8, cap);
		else if (how == 1) ok = (p = as_queue_create(8, cap)) != NULL;
		else if (how == 2) { as_queue_inita(p, 8, cap); }
		else { ok = as_queue_mt_init(&mt, 8, cap); isq = false; }
		VF_CHECK(ok, "refused", "queue creation refused");
		int n = (int)q.below(14);
		uint64_t v = 0;
		auto push = [&](bool head) { v++; bool k = isq ? (head ? as_queue_push_head(p, &v) : as_queue_push(p, &v)) : (head ? as_queue_mt_push_head(&mt, &v) : as_queue_mt_push(&mt, &v)); return k; };
		auto pop = [&](uint64_t* x) { return isq ? as_queue_pop(p, x) : as_queue_mt_pop(&mt, x, AS_QUEUE_NOWAIT); };
		auto fill = [&](int k) { for (int i = 0; i < k; i++) {
			if (m.size() && q.chance(1, 3)) { uint64_t x; VF_CHECK(pop(&x) && x == m.front(), "contents", "popped another value"); m.pop_front(); continue; }
			bool h = q.chance(1, 3);
			VF_CHECK(push(h), "refused", "push refused");
			if (h) m.push_front(v); else m.push_back(v);
		} };
		fill(n);
		// to the brim, then the growing push
		while (m.size() < (isq ? p->capacity : mt.queue.capacity)) { VF_CHECK(push(false), "refused", "push refused"); m.push_back(v); }
		bool h = q.chance(1, 2);
		ok = f.call([&] { return push(h); });
		REPORTED(ok, f, "push");
		if (ok) { if (h) m.push_front(v); else m.push_back(v); }
		VF_CHECK((isq ? as_queue_size(p) : as_queue_mt_size(&mt)) == m.size(), "size", "size after a failed push");
		if (q.chance(1, 2)) fill((int)q.below(20));		// works again
		while (m.size()) { uint64_t x = 0; VF_CHECK(pop(&x) && x == m.front(), "contents", "after a failed push an element is lost or changed"); m.pop_front(); }
		uint64_t x;
		VF_CHECK(!pop(&x), "contents", "after a failed push there is an extra element");
		if (isq) as_queue_destroy(p); else as_queue_mt_destroy(&mt);
	});
	sweep(r, "as_queue_create", [](Fault& f, Rng& q) {
		uint32_t cap = 1 + (uint32_t)q.below(6);
		if (q.chance(1, 2)) { as_queue* p = f.call([&] { return as_queue_create(16, cap); }); REPORTED(p, f, "creation"); VF_CHECK(!p || !f.hit, "reported", "creation succeeded without memory"); if (p) as_queue_destroy(p); }
		else { as_queue_mt* p = f.call([&] { return as_queue_mt_create(16, cap); }); REPORTED(p, f, "creation"); if (p) as_queue_mt_destroy(p); }
	});
}

static void t_cf_queue(Rng& r)
{
	sweep(r, "cf_queue", [](Fault& f, Rng& q) {
		cf_queue c;
		uint32_t cap = 1 + (uint32_t)q.below(6);
		VF_CHECK(cf_queue_init(&c, 8, cap, q.chance(1, 2)), "refused", "queue creation refused");
		std::deque<uint64_t> m;
		uint64_t v = 0;
		auto pop = [&](uint64_t* x) { return cf_queue_pop(&c, x, CF_QUEUE_NOWAIT) == CF_QUEUE_OK; };
		auto push = [&](int how, uint32_t ix) {
			v++;
			switch (how) {
			case 0: return cf_queue_push(&c, &v) == CF_QUEUE_OK;
			case 1: return cf_queue_push_head(&c, &v) == CF_QUEUE_OK;
			case 2: return cf_queue_push_limit(&c, &v, 1000);
			case 3: return cf_queue_push_unique(&c, &v) == CF_QUEUE_OK;
			default: return cf_queue_push_index(&c, &v, ix) == CF_QUEUE_OK;
			}
		};
		auto model = [&](int how, uint32_t ix) { if (how == 1) m.push_front(v); else if (how == 4 && ix < m.size()) m.insert(m.begin() + ix, v); else m.push_back(v); };
		auto fill = [&](int k) { for (int i = 0; i < k; i++) {
			if (m.size() && q.chance(1, 3)) { uint64_t x; VF_CHECK(pop(&x) && x == m.front(), "contents", "popped another value"); m.pop_front(); continue; }
			int how = (int)q.below(5);
			uint32_t ix = (uint32_t)q.below(m.size() + 1);
			VF_CHECK(push(how, ix), "refused", "push refused");
			model(how, ix);
		} };
		fill((int)q.below(14));
		int how = (int)q.below(5), tries = 0;
		// push until the queue must have grown
		for (; tries < 40 && !f.hit; tries++) {
			uint32_t ix = (uint32_t)q.below(m.size() + 1);
			bool ok = f.call([&] { return push(how, ix); });
			REPORTED(ok, f, "push");
			if (ok) model(how, ix);
			VF_CHECK(cf_queue_sz(&c) == (int)m.size(), "size", "size after a failed push");
		}
		if (q.chance(1, 2)) fill((int)q.below(20));
		while (m.size()) { uint64_t x = 0; VF_CHECK(pop(&x) && x == m.front(), "contents", "after a failed push an element is lost or changed"); m.pop_front(); }
		uint64_t x;
		VF_CHECK(!pop(&x), "contents", "after a failed push there is an extra element");
		cf_queue_destroy(&c);
	});
	sweep(r, "cf_queue_create", [](Fault& f, Rng&) {
		cf_queue* p = f.call([&] { return cf_queue_create(16, true); });
		REPORTED(p, f, "creation");
		if (p) cf_queue_destroy(p);
	});
	sweep(r, "as_buffer_pool", [](Fault& f, Rng& q) {
		as_buffer_pool bp;
		int rc = f.call([&] { return as_buffer_pool_init(&bp, 8, 64); });
		REPORTED(rc == 0, f, "pool creation");
		if (rc != 0) return;
		std::vector<void*> have;
		int n = 70;			// more than the pool's queue holds at first
		for (int i = 0; i < n; i++) {
			as_buffer_result b;
			b.data = NULL;
			rc = f.call([&] { return as_buffer_pool_pop(&bp, 40, &b); });
			VF_CHECK(rc >= 0 || f.hit, "refused", "pop refused although no allocation failed");
			if (rc >= 0) { memset(b.data, 1, 64); have.push_back(b.data); }
			if (f.hit && f.n > 90) break;
		}
		for (void* p : have) { rc = f.call([&] { return as_buffer_pool_push(&bp, p, 40); }); REPORTED(rc == 0, f, "push"); }
		(void)q;
		as_buffer_pool_destroy(&bp);
	}, 6);
}

// ---------------------------------------------------------------- list
static void same_list(as_arraylist* l, const std::vector<Node>& m, const char* what)
{
	VF_CHECK(as_arraylist_size(l) == m.size(), "size", "%s: %u elements, expected %zu", what, as_arraylist_size(l), m.size());
	std::string why;
	for (size_t i = 0; i < m.size(); i++) VF_CHECK(same(m[i], as_arraylist_get(l, (uint32_t)i), why), "contents", "%s: element %zu: %s", what, i, why.c_str());
}

static void t_list(Rng& r)
{
	sweep(r, "as_arraylist", [](Fault& f, Rng& q) {
		as_arraylist st, *l = &st;
		uint32_t cap = (uint32_t)q.below(5), blk = 1 + (uint32_t)q.below(4);
		if (q.chance(1, 2)) as_arraylist_init(l, cap, blk);
		else l = as_arraylist_new(cap, blk);
		std::vector<Node> m;
		Opt o;
		o.maxdepth = 1;
		o.maxlen = 20;
		int n = (int)q.below(10);
		for (int i = 0; i < n; i++) { Node x = gen_tree(q, o); VF_CHECK(as_arraylist_append(l, to_val(x)) == 0, "refused", "append refused"); m.push_back(x); }
		Node x;
		x.t = INT;
		x.i = 4711;
		as_val* v = NULL;			// ours until it is taken
		int op = (int)q.below(16), rc = 0;
		uint32_t at = (uint32_t)q.below(m.size() + 4);
		auto place = [&](uint32_t i, bool insert) {
			if (i >= m.size()) { m.resize(i); m.push_back(x); }
			else if (insert) m.insert(m.begin() + i, x);
			else m[i] = x;
		};
		auto grown = [&](as_arraylist* s, uint32_t from, uint32_t cnt) {
			REPORTED(s, f, "sub-list");
			VF_CHECK(!s || !f.hit, "reported", "a sub-list was returned without memory");
			if (s) { std::vector<Node> w(m.begin() + from, m.begin() + from + cnt); same_list(s, w, "sub-list"); as_arraylist_destroy(s); }
		};
		switch (op) {
		case 0: v = to_val(x); rc = f.call([&] { return as_arraylist_append(l, v); }); if (rc == 0) place((uint32_t)m.size(), true); break;
		case 1: v = to_val(x); rc = f.call([&] { return as_arraylist_prepend(l, v); }); if (rc == 0) place(0, true); break;
		case 2: v = to_val(x); rc = f.call([&] { return as_arraylist_insert(l, at, v); }); if (rc == 0) place(at, true); break;
		case 3: v = to_val(x); rc = f.call([&] { return as_arraylist_set(l, at, v); }); if (rc == 0) place(at, false); break;
		case 4: rc = f.call([&] { return as_arraylist_append_int64(l, 4711); }); if (rc == 0) place((uint32_t)m.size(), true); break;
		case 5: x.t = DBL; x.d = 1.5; rc = f.call([&] { return as_arraylist_append_double(l, 1.5); }); if (rc == 0) place((uint32_t)m.size(), true); break;
		case 6: x.t = STR; x.s = "text"; rc = f.call([&] { return as_arraylist_append_str(l, "text"); }); if (rc == 0) place((uint32_t)m.size(), true); break;
		case 7: rc = f.call([&] { return as_arraylist_set_int64(l, at, 4711); }); if (rc == 0) place(at, false); break;
		case 8: x.t = STR; x.s = "text"; rc = f.call([&] { return as_arraylist_set_str(l, at, "text"); }); if (rc == 0) place(at, false); break;
		case 9: x.t = STR; x.s = "text"; rc = f.call([&] { return as_arraylist_insert_str(l, at, "text"); }); if (rc == 0) place(at, true); break;
		case 10: x.t = DBL; x.d = 1.5; rc = f.call([&] { return as_arraylist_prepend_double(l, 1.5); }); if (rc == 0) place(0, true); break;
		case 11: {
			as_arraylist o2;
			as_arraylist_init(&o2, 4, 4);
			std::vector<Node> m2;
			for (int i = 0; i < 6; i++) { Node y; y.t = INT; y.i = i; as_arraylist_append_int64(&o2, i); m2.push_back(y); }
			rc = f.call([&] { return as_arraylist_concat(l, &o2); });
			same_list(&o2, m2, "the concatenated list");
			as_arraylist_destroy(&o2);
			if (rc == 0) m.insert(m.end(), m2.begin(), m2.end());
			break;
		}
		case 12: { as_arraylist* s = f.call([&] { return as_arraylist_take(l, at); }); grown(s, 0, std::min<uint32_t>(at, (uint32_t)m.size())); break; }
		case 13: { as_arraylist* s = f.call([&] { return as_arraylist_drop(l, at); }); uint32_t c = std::min<uint32_t>(at, (uint32_t)m.size()); grown(s, c, (uint32_t)m.size() - c); break; }
		case 14: if (m.size()) { as_arraylist* s = f.call([&] { return as_arraylist_tail(l); }); grown(s, 1, (uint32_t)m.size() - 1); } break;
		default: { as_arraylist_iterator* it = f.call([&] { return as_arraylist_iterator_new(l); }); REPORTED(it, f, "iterator"); if (it) as_arraylist_iterator_destroy(it); }
		}
		REPORTED(rc == 0, f, "list operation");
		if (rc != 0 && v) as_val_destroy(v);
		if (rc != 0) v = NULL;
		same_list(l, m, "after a failed operation");
		// usable again
		VF_CHECK(as_arraylist_append_int64(l, 7) == 0, "refused", "append refused although there is memory again");
		x = Node();
		x.t = INT;
		x.i = 7;
		m.push_back(x);
		same_list(l, m, "with memory again");
		as_arraylist_destroy(l);
	});
	sweep(r, "as_arraylist_new", [](Fault& f, Rng& q) {
		uint32_t cap = (uint32_t)q.below(5), blk = 1 + (uint32_t)q.below(4);
		as_arraylist st;
		bool heap = q.chance(1, 2);
		as_arraylist* l = f.call([&] { return heap ? as_arraylist_new(cap, blk) : as_arraylist_init(&st, cap, blk); });
		REPORTED(l, f, "list creation");
		if (!l) return;
		// what is returned is a usable list
		for (int i = 0; i < 9; i++) VF_CHECK(as_arraylist_append_int64(l, i) == 0, "refused", "append to a new list refused");
		for (int i = 0; i < 9; i++) VF_CHECK(as_arraylist_get_int64(l, (uint32_t)i) == i, "contents", "element of a new list differs");
		as_arraylist_destroy(l);
	});
}

// ---------------------------------------------------------------- map
static void same_map(as_orderedmap* map, const std::map<int64_t, int64_t>& m, const char* what)
{
	VF_CHECK(as_orderedmap_size(map) == m.size(), "size", "%s: %u entries, expected %zu", what, as_orderedmap_size(map), m.size());
	for (auto& e : m) {
		as_integer k;
		as_integer_init(&k, e.first);
		as_integer* v = as_integer_fromval(as_orderedmap_get(map, (as_val*)&k));
		VF_CHECK(v && as_integer_get(v) == e.second, "contents", "%s: key %ld is lost or changed", what, (long)e.first);
	}
	MapWalk w;
	VF_CHECK(as_orderedmap_foreach(map, [](const as_val* k, const as_val* v, void* u) { ((MapWalk*)u)->v.emplace_back(k, v); return true; }, &w), "contents", "%s: walk ended early", what);
	VF_CHECK(w.v.size() == m.size(), "contents", "%s: walk saw %zu of %zu", what, w.v.size(), m.size());
	size_t i = 0;
	for (auto& e : m) { VF_CHECK(as_integer_get((as_integer*)w.v[i].first) == e.first && as_integer_get((as_integer*)w.v[i].second) == e.second, "contents", "%s: entry %zu of the walk differs", what, i); i++; }
}

static void t_map(Rng& r, bool big)
{
	sweep(r, big ? "as_orderedmap-large" : "as_orderedmap", [&](Fault& f, Rng& q) {
		as_orderedmap st, *map = &st;
		bool heap = q.chance(1, 2);
		uint32_t cap = (uint32_t)q.below(20);
		if (heap) map = as_orderedmap_new(cap); else as_orderedmap_init(map, cap);
		std::map<int64_t, int64_t> m;
		auto put = [&](int64_t k, int64_t v) {
			as_val *a = (as_val*)as_integer_new(k), *b = (as_val*)as_integer_new(v);
			int rc = f.call([&] { return as_orderedmap_set(map, a, b); });
			if (rc == 0) m[k] = v;
			else { as_val_destroy(a); as_val_destroy(b); }
			return rc;
		};
		Fault none{-1, false};
		std::swap(f, none);
		int n = big ? 2000 + (int)q.below(600) : (int)q.below(40);
		for (int i = 0; i < n; i++) VF_CHECK(put(big ? i * 10 : (int64_t)q.below(100), i) == 0, "refused", "set refused");
		int more = big ? (int)q.below(3) * 999 : 0;
		for (int i = 0; i < more; i++) put(3 + 10 * (int64_t)q.below(n / 2 - 100), i);
		std::swap(f, none);
		// growing operations until one fails
		int64_t fresh = 100000;
		int tries = big ? 1500 : 60, kind = (int)q.below(4);
		for (int i = 0; i < tries && !f.hit; i++) {
			int64_t k = kind == 0 ? fresh++ : kind == 1 && !big ? -(int64_t)i - 1 : 4 + 10 * (int64_t)q.below((uint64_t)n / 2 + 1) + (int64_t)q.below(5);
			int rc = put(k, i);
			REPORTED(rc == 0, f, "set");
			if (!big) { std::swap(f, none); same_map(map, m, "after a set"); std::swap(f, none); }
		}
		bool hit = f.hit;
		if (q.chance(1, 3)) {
			// the walk may need memory too
			as_orderedmap_iterator* it = f.call([&] { return as_orderedmap_iterator_new(map); });
			REPORTED(it, f, "iterator");
			if (it) { size_t k = 0; while (as_orderedmap_iterator_has_next(it)) { as_orderedmap_iterator_next(it); k++; } VF_CHECK(k == m.size(), "contents", "an iterator saw %zu of %zu", k, m.size()); as_orderedmap_iterator_destroy(it); }
		}
		else if (q.chance(1, 2) && m.size()) {
			int64_t k = m.begin()->first;
			as_integer key;
			as_integer_init(&key, k);
			int rc = f.call([&] { return as_orderedmap_remove(map, (as_val*)&key); });
			REPORTED(rc == 0, f, "remove");
			if (rc == 0) m.erase(k);
		}
		f.hit |= hit;
		bool keep = f.hit;
		// with memory again every kind of set works
		Fault ok{-1, false};
		std::swap(f, ok);
		for (int i = 0; i < (big ? 30 : 3); i++) {
			VF_CHECK(put(fresh++, 1) == 0, "refused", "set at the end refused although there is memory again");
			VF_CHECK(put(7 + 10 * (int64_t)q.below((uint64_t)n / 2 + 1), 2) == 0, "refused", "set in the middle refused although there is memory again");
		}
		same_map(map, m, "with memory again");
		std::swap(f, ok);
		f.hit = keep;
		as_orderedmap_destroy(map);
	}, big ? 3 : 0);
	if (big) return;
	sweep(r, "as_orderedmap_new", [](Fault& f, Rng& q) {
		as_orderedmap st;
		bool heap = q.chance(1, 2);
		uint32_t cap = (uint32_t)q.below(20);
		as_orderedmap* map = f.call([&] { return heap ? as_orderedmap_new(cap) : as_orderedmap_init(&st, cap); });
		REPORTED(map, f, "map creation");
		if (!map) return;
		VF_CHECK(as_stringmap_set_int64((as_map*)map, "a", 1) == 0 && as_stringmap_get_int64((as_map*)map, "a") == 1, "contents", "a new map does not keep its entry");
		as_orderedmap_destroy(map);
	});
	sweep(r, "as_stringmap", [](Fault& f, Rng& q) {
		as_orderedmap map;
		as_orderedmap_init(&map, 0);
		int n = 7 + (int)q.below(3);
		char b[20];
		for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "k%03d", i); VF_CHECK(as_stringmap_set_int64((as_map*)&map, b, i) == 0, "refused", "set refused"); }
		int op = (int)q.below(5), at = (int)q.below((uint64_t)n + 3);
		snprintf(b, sizeof b, "k%03d", at);
		as_list* l = NULL;
		if (op == 4) l = (as_list*)as_arraylist_new(1, 1);
		int rc = 0;
		switch (op) {
		case 0: rc = f.call([&] { return as_stringmap_set_int64((as_map*)&map, b, 77); }); break;
		case 1: rc = f.call([&] { return as_stringmap_set_double((as_map*)&map, b, 7.5); }); break;
		case 2: rc = f.call([&] { return as_stringmap_set_str((as_map*)&map, b, "seven"); }); break;
		case 3: rc = f.call([&] { return as_stringmap_set((as_map*)&map, b, (as_val*)&as_nil); }); break;
		default: rc = f.call([&] { return as_stringmap_set_list((as_map*)&map, b, l); }); if (rc != 0) { as_list_destroy(l); l = NULL; }
		}
		REPORTED(rc == 0, f, "set");
		bool isnew = at >= n;
		VF_CHECK(as_orderedmap_size(&map) == (uint32_t)n + (isnew && rc == 0), "size", "size after setting %s with result %d", b, rc);
		as_val* v = as_stringmap_get((as_map*)&map, b);
		if (rc == 0) switch (op) {
		case 0: VF_CHECK(as_integer_fromval(v) && as_integer_get((as_integer*)v) == 77, "contents", "integer reported as set is not there"); break;
		case 1: VF_CHECK(as_double_fromval(v) && as_double_get((as_double*)v) == 7.5, "contents", "double reported as set is not there"); break;
		case 2: VF_CHECK(as_string_fromval(v) && as_string_get((as_string*)v) && !strcmp(as_string_get((as_string*)v), "seven"), "contents", "text reported as set is not there"); break;
		case 3: VF_CHECK(v == (as_val*)&as_nil, "contents", "nil reported as set is not there"); break;
		default: VF_CHECK(v == (as_val*)l, "contents", "list reported as set is not there");
		}
		else if (isnew) VF_CHECK(v == NULL, "contents", "a refused entry is there");
		else VF_CHECK(as_integer_fromval(v) && as_integer_get((as_integer*)v) == at, "contents", "the value before a refused set is gone");
		for (int i = 0; i < n; i++) if (i != at) { char c[20]; snprintf(c, sizeof c, "k%03d", i); VF_CHECK(as_stringmap_get_int64((as_map*)&map, c) == i, "contents", "another entry changed"); }
		as_orderedmap_destroy(&map);
	});
}

// ---------------------------------------------------------------- byte buffer, values, text
static void t_bytes(Rng& r)
{
	sweep(r, "as_bytes", [](Fault& f, Rng& q) {
		as_bytes st, *b = &st;
		int how = (int)q.below(3);
		uint32_t cap = 1 + (uint32_t)q.below(20);
		if (how == 0) as_bytes_init(b, cap);
		else if (how == 1) b = as_bytes_new(cap);
		else { as_bytes_inita(b, cap); }
		Bytes m = gen_blob(q, q.below(cap + 1));
		VF_CHECK(as_bytes_append(b, (const uint8_t*)m.data(), (uint32_t)m.size()), "refused", "append refused");
		uint32_t to = (uint32_t)q.below(60);
		bool ok = f.call([&] { return as_bytes_ensure(b, to, true); });
		REPORTED(ok, f, "growing");
		VF_CHECK(!ok || b->capacity >= to, "reported", "growing to %u reported but capacity is %u", to, b->capacity);
		VF_CHECK(b->size == m.size() && (m.empty() || memcmp(b->value, m.data(), m.size()) == 0), "contents", "bytes changed by a failed growth");
		VF_CHECK(as_bytes_ensure(b, 80, true) && as_bytes_append(b, (const uint8_t*)"xyz", 3), "refused", "growing refused although there is memory again");
		m += "xyz";
		VF_CHECK(b->size == m.size() && memcmp(b->value, m.data(), m.size()) == 0, "contents", "bytes changed");
		as_bytes_destroy(b);
	});
	sweep(r, "as_bytes_new", [](Fault& f, Rng& q) {
		as_bytes st;
		bool heap = q.chance(1, 2);
		uint32_t cap = 1 + (uint32_t)q.below(20);
		as_bytes* b = f.call([&] { return heap ? as_bytes_new(cap) : as_bytes_init(&st, cap); });
		REPORTED(b, f, "creation");
		if (!b) return;
		uint8_t z[4] = {1, 2, 3, 4};
		bool ok = as_bytes_set(b, 0, z, 1);
		VF_CHECK(!ok || (b->size == 1 && b->value[0] == 1), "contents", "a byte written is not there");
		VF_CHECK(as_bytes_ensure(b, 60, true) && as_bytes_append(b, z, 4) && memcmp(b->value + b->size - 4, z, 4) == 0, "contents", "a new buffer does not keep its bytes");
		as_bytes_destroy(b);
	});
	sweep(r, "values", [](Fault& f, Rng& q) {
		int k = (int)q.below(13);
		as_val* v = NULL;
		switch (k) {
		case 0: v = (as_val*)f.call([&] { return as_integer_new(5); }); VF_CHECK(!v || as_integer_get((as_integer*)v) == 5, "contents", "value differs"); break;
		case 1: v = (as_val*)f.call([&] { return as_double_new(5); }); VF_CHECK(!v || as_double_get((as_double*)v) == 5, "contents", "value differs"); break;
		case 2: v = (as_val*)f.call([&] { return as_boolean_new(true); }); VF_CHECK(!v || as_boolean_get((as_boolean*)v), "contents", "value differs"); break;
		case 3: v = (as_val*)f.call([&] { return as_string_new_strdup("five"); }); VF_CHECK(!v || (as_string_get((as_string*)v) && !strcmp(as_string_get((as_string*)v), "five")), "contents", "a string was returned without its text"); break;
		case 4: v = (as_val*)f.call([&] { return as_geojson_new_strdup("five"); }); VF_CHECK(!v || (as_geojson_get((as_geojson*)v) && !strcmp(as_geojson_get((as_geojson*)v), "five")), "contents", "a geojson was returned without its text"); break;
		case 5: { uint8_t raw[3] = {1, 2, 3}; v = (as_val*)f.call([&] { return as_bytes_new_wrap(raw, 3, false); }); VF_CHECK(!v || as_bytes_size((as_bytes*)v) == 3, "contents", "value differs"); break; }
		case 6: {
			as_val *a = (as_val*)as_integer_new(1), *b = (as_val*)as_integer_new(2);
			v = (as_val*)f.call([&] { return as_pair_new(a, b); });
			if (!v) { as_val_destroy(a); as_val_destroy(b); }
			break;
		}
		case 7: {
			v = (as_val*)as_integer_new(3);
			as_result* res = f.call([&] { return as_success_new(v); });
			REPORTED(res, f, "result");
			if (res) { VF_CHECK(res->is_success && as_result_value(res) == v, "contents", "result differs"); as_result_destroy(res); }
			else as_val_destroy(v);
			return;
		}
		case 8: {
			v = (as_val*)as_integer_new(3);
			as_result* res = f.call([&] { return as_failure_new(v); });
			REPORTED(res, f, "result");
			if (res) { VF_CHECK(!res->is_success && as_result_value(res) == v, "contents", "result differs"); as_result_destroy(res); }
			else as_val_destroy(v);
			return;
		}
		case 9: {
			as_aerospike* a = f.call([&] { return as_aerospike_new(&f, NULL); });
			REPORTED(a, f, "service object");
			if (a) { VF_CHECK(a->source == &f, "contents", "service object differs"); as_aerospike_destroy(a); }
			return;
		}
		case 10: v = (as_val*)f.call([&] { return as_rec_new(&f, NULL); }); VF_CHECK(!v || as_rec_source((as_rec*)v) == &f, "contents", "value differs"); break;
		case 11: {
			as_stream* t = f.call([&] { return as_stream_new(&f, NULL); });
			REPORTED(t, f, "stream");
			if (t) { VF_CHECK(as_stream_source(t) == &f, "contents", "stream differs"); as_stream_destroy(t); }
			return;
		}
		default: {
			void* p = f.call([&] { return cf_rc_alloc(40); });
			REPORTED(p, f, "reference-counted allocation");
			if (p) { memset(p, 1, 40); VF_CHECK(cf_rc_reserve(p) == 2 && cf_rc_releaseandfree(p) == 1 && cf_rc_releaseandfree(p) == 0, "contents", "counts differ"); }
			return;
		}
		}
		REPORTED(v, f, "value");
		if (v) as_val_destroy(v);
	});
	sweep(r, "string_builder", [](Fault& f, Rng& q) {
		as_string_builder sb;
		uint32_t cap = 1 + (uint32_t)q.below(10);
		bool heap = q.chance(1, 2);
		if (heap) { f.arm(); as_string_builder_init(&sb, cap, true); f.disarm(); }
		else { as_string_builder_inita(&sb, cap, true); }
		Bytes m;
		for (int i = 0; i < 12; i++) {
			Bytes t = gen_text(q, q.below(9));
			bool was = f.hit, ok;
			if (was) ok = as_string_builder_append(&sb, t.c_str());
			else ok = f.call([&] { return as_string_builder_append(&sb, t.c_str()); });
			VF_CHECK(ok || !was, "refused", "append refused although there is memory again");
			REPORTED(ok, f, "append");
			if (ok) m += t;
			else { m += t.substr(0, sb.length - std::min<size_t>(m.size(), sb.length)); }
			VF_CHECK(sb.length == m.size() && !memcmp(sb.data, m.data(), m.size()) && sb.data[sb.length] == 0, "contents", "text changed by a failed append");
		}
		if (sb.data) as_string_builder_destroy(&sb);
	});
	sweep(r, "basename", [](Fault& f, Rng&) {
		as_string s;
		const char* b = f.call([&] { return as_basename(&s, "/a/b/name///"); });
		REPORTED(b, f, "basename");
		if (b) { VF_CHECK(!strcmp(b, "name"), "contents", "basename is %s", b); as_string_destroy(&s); }
	});
}

// ---------------------------------------------------------------- serializer
static void t_serializer(Rng& r)
{
	Opt o;
	o.maxdepth = 4;
	o.maxlen = r.chance(1, 3) ? 9000 : 200;
	o.maxkids = 6;
	o.nan = false;
	Node n = gen_tree(r, o);
	if (n.kids.empty() && n.ents.empty() && r.chance(3, 4)) { Node l; l.t = LIST; for (int i = 0; i < 5; i++) l.kids.push_back(gen_tree(r, o)); n = l; }
	Bytes want = enc(n);
	uint64_t skip = count_nodes(n) > 20 ? count_nodes(n) / 12 : 0;
	sweep(r, "serialize", [&](Fault& f, Rng&) {
		as_serializer s;
		as_msgpack_init(&s);
		as_val* v = to_val(n);
		as_buffer b;
		as_buffer_init(&b);
		int rc = f.call([&] { return as_serializer_serialize(&s, v, &b); });
		REPORTED(rc == 0, f, "serializing");
		if (rc == 0) VF_CHECK(Bytes((char*)b.data, b.size) == want, "contents", "wrong bytes reported as serialized");
		if (rc == 0) as_buffer_destroy(&b);
		as_buffer_init(&b);
		std::string why;
		VF_CHECK(same(n, v, why), "contents", "the value was changed by a failed serialization: %s", why.c_str());
		VF_CHECK(as_serializer_serialize(&s, v, &b) == 0 && Bytes((char*)b.data, b.size) == want, "refused", "serializing failed although there is memory again");
		as_buffer_destroy(&b);
		as_val_destroy(v);
		as_serializer_destroy(&s);
	});
	sweep(r, "deserialize", [&](Fault& f, Rng&) {
		as_serializer s;
		as_msgpack_init(&s);
		as_buffer b;
		as_buffer_init(&b);
		b.data = (uint8_t*)cf_malloc(want.size());
		memcpy(b.data, want.data(), want.size());
		b.size = b.capacity = (uint32_t)want.size();
		as_val* v = NULL;
		int rc = f.call([&] { return as_serializer_deserialize(&s, &b, &v); });
		REPORTED(rc == 0, f, "deserializing");
		std::string why;
		if (rc == 0) { VF_CHECK(same(n, v, why), "contents", "a wrong value was reported as deserialized: %s", why.c_str()); as_val_destroy(v); }
		v = NULL;
		VF_CHECK(as_serializer_deserialize(&s, &b, &v) == 0 && same(n, v, why), "refused", "deserializing failed although there is memory again %s", why.c_str());
		as_val_destroy(v);
		as_buffer_destroy(&b);
		as_serializer_destroy(&s);
	}, skip);
	sweep(r, "serializer_new", [&](Fault& f, Rng&) {
		as_serializer* s = f.call([&] { return as_msgpack_new(); });
		REPORTED(s, f, "serializer creation");
		if (s) as_serializer_destroy(s);
	});
	// measuring and comparing encodings of deep values needs memory
	Bytes deep;
	int depth = 20 + (int)r.below(200);
	bool maps = r.chance(1, 2);
	for (int i = 0; i < depth; i++) { if (maps) { deep += (char)0x81; deep += (char)5; } else deep += (char)0x91; }
	deep += (char)7;
	sweep(r, "measure", [&](Fault& f, Rng&) {
		as_unpacker u;
		memset(&u, 0, sizeof u);
		u.buffer = (const unsigned char*)deep.data();
		u.length = (uint32_t)deep.size();
		int64_t k = f.call([&] { return as_unpack_size(&u); });
		REPORTED(k == (int64_t)deep.size(), f, "measuring");
		VF_CHECK(k < 0 || k == (int64_t)deep.size(), "contents", "measured %ld of %zu bytes", (long)k, deep.size());
	});
	Bytes more = deep;
	more[more.size() - 1] = 8;
	sweep(r, "compare", [&](Fault& f, Rng& q) {
		bool eq = q.chance(1, 2);
		const Bytes& b = eq ? deep : more;
		msgpack_compare_t c = f.call([&] { return as_unpack_buf_compare((const uint8_t*)deep.data(), (uint32_t)deep.size(), (const uint8_t*)b.data(), (uint32_t)b.size()); });
		REPORTED(c == (eq ? MSGPACK_COMPARE_EQUAL : MSGPACK_COMPARE_LESS), f, "comparing");
		VF_CHECK(c == MSGPACK_COMPARE_ERROR || c == (eq ? MSGPACK_COMPARE_EQUAL : MSGPACK_COMPARE_LESS), "contents", "compared as %d", (int)c);
	});
	// text forms: produced or refused
	sweep(r, "text", [&](Fault& f, Rng& q) {
		as_val* v = to_val(n);
		as_val* p = NULL;
		if (q.chance(1, 2)) { as_val_reserve(v); as_val_reserve(v); p = (as_val*)as_pair_new(v, v); }
		char* t = f.call([&] { return as_val_tostring(p ? p : v); });
		as_val_destroy(p);
		if (t) { count("text", strlen(t) > 0); cf_free(t); }
		std::string why;
		VF_CHECK(same(n, v, why), "contents", "the value was changed: %s", why.c_str());
		as_val_destroy(v);
	}, skip);
}

// ---------------------------------------------------------------- thread pool
struct PoolTask { std::atomic<int>* gate; std::atomic<int> ran{0}; };
static void pool_task(void* p)
{
	PoolTask* t = (PoolTask*)p;
	if (t->gate) while (!t->gate->load()) usleep(50);
	t->ran++;
	progress();
}

static void t_pool(Rng& r)
{
	int phase = (int)r.below(3);		// where memory runs out: starting, submitting, closing
	sweep(r, phase == 0 ? "pool-start" : phase == 1 ? "pool-submit" : "pool-close", [&](Fault& f, Rng& q) {
		as_thread_pool pool;
		memset(&pool, 0xa5, sizeof pool);
		uint32_t nt = 1 + (uint32_t)q.below(3);
		int rc = phase == 0 ? f.call([&] { return as_thread_pool_init(&pool, nt); }) : as_thread_pool_init(&pool, nt);
		VF_CHECK(rc == 0 || (rc < 0 && f.hit), "refused", "starting %u threads gave %d", nt, rc);
		std::atomic<int> gate{0};
		std::deque<PoolTask> tasks;
		std::vector<int> res;
		int n = phase == 0 ? 3 : 62 + (int)q.below(6), from = (int)q.below(4);
		for (int i = 0; i < (int)nt + n; i++) {
			tasks.emplace_back();
			tasks.back().gate = i < (int)nt ? &gate : NULL;
			bool armed = phase == 1 && i >= (int)nt + from;
			res.push_back(armed && !f.hit ? f.call([&] { return as_thread_pool_queue_task(&pool, pool_task, &tasks.back()); }) : as_thread_pool_queue_task(&pool, pool_task, &tasks.back()));
			VF_CHECK(res.back() == 0 || rc != 0 || (phase == 1 && f.hit), "refused", "task %d refused with %d", i, res.back());
			if (rc != 0 && res.back() == 0) fail("accepted", "a pool that did not start took a task");
		}
		std::thread opener([&] { usleep(300); gate = 1; });
		if (phase == 2 && f.n < 4) f.call([&] { return as_thread_pool_destroy(&pool); });
		else as_thread_pool_destroy(&pool);
		opener.join();
		for (size_t i = 0; i < tasks.size(); i++) VF_CHECK(tasks[i].ran.load() == (res[i] == 0), "lost", "task %zu was answered %d and ran %d times", i, res[i], tasks[i].ran.load());
		count("pools");
	});
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
	if (idx % 20 == 9) { t_pool(r); fail_alloc_at(-1); return; }
	switch (idx % 8) {
	case 0: case 1: t_as_queue(r); t_sync_init(r); break;
	case 2: t_cf_queue(r); break;
	case 3: t_list(r); break;
	case 4: t_map(r, idx % 160 == 4); break;
	case 5: t_bytes(r); break;
	default: t_serializer(r);
	}
	fail_alloc_at(-1);
}

int main(int argc, char** argv)
{
	floor_of("injected", 2000);
	return run(argc, argv, 8000, 300000, one);
}
