// P10: as_orderedmap (concrete functions, as_map interface, as_hashmap and string-key helpers)
// against an ideal sorted dictionary.
#include "gen.hpp"
extern "C" {
#include <aerospike/as_hashmap.h>
#include <aerospike/as_hashmap_iterator.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_stringmap.h>
}
using namespace vf;
using namespace gen;

// inserts deferred so far, where the map tells
template <class M> static auto held_(const M* m, int) -> decltype(m->hold_count) { return m->hold_count; }
template <class M> static uint32_t held_(const M*, ...) { return 0; }
static uint32_t held(const as_orderedmap* m) { return held_(m, 0); }

struct KeyLess { bool operator()(const Node& a, const Node& b) const { return ref_cmp(a, b) < 0; } };
typedef std::map<Node, Node, KeyLess> Dict;

// A temporary key for lookups, sometimes on the stack.
struct Key {
	as_val* v;
	as_integer i;
	as_string s;
	as_bytes b;
	Bytes keep;
	bool heap;
	Key(const Node& n, Rng& r) : keep(n.s)
	{
		heap = r.chance(1, 2);
		if (heap) v = to_val(n);
		else if (n.t == INT) v = (as_val*)as_integer_init(&i, n.i);
		else if (n.t == STR) v = (as_val*)(r.chance(1, 2) ? as_string_init(&s, (char*)keep.c_str(), false) : as_string_init_wlen(&s, (char*)keep.c_str(), keep.size(), false));
		else v = (as_val*)as_bytes_init_wrap(&b, (uint8_t*)keep.data(), (uint32_t)keep.size(), false);
	}
	~Key() { as_val_destroy(v); }
};

static Node val(Rng& r)
{
	Opt o;
	o.maxlen = 8;
	o.maxdepth = 2;
	o.maxkids = 2;
	o.nan = false;
	if (r.chance(3, 4)) { Node n; n.t = INT; n.i = r.range(0, 1LL << 40); return n; }
	return gen_tree(r, o);
}

struct Universe {
	int kind;			// 0 small mixed, 1 wide mixed, 2 integers only, 3 strings only, 4 blobs only
	int64_t span;
	Node key(Rng& r) const
	{
		Opt o;
		Node n;
		int k = kind == 1 || kind == 0 ? (int)r.below(3) + 2 : kind;
		if (kind == 1 && r.chance(1, 2)) { o.maxlen = 40; return gen_key(r, o); }
		int64_t x = r.range(0, span - 1);
		return nth(k, x);
	}
	// x-th key of a type; order by x is not the key order for strings and blobs
	static Node nth(int k, int64_t x)
	{
		Node n;
		char b[32];
		if (k == 2) { n.t = INT; n.i = x * 7 - 1000; }
		else if (k == 3) { n.t = STR; snprintf(b, sizeof b, "%llx", (unsigned long long)x); n.s = b; }
		else { n.t = BLOB; while (x) { n.s += (char)(x & 0xff); x >>= 8; } }
		return n;
	}
};

struct Walk { std::vector<std::pair<const as_val*, const as_val*>> v; size_t stop; };
static bool visit(const as_val* k, const as_val* v, void* u)
{
	Walk* w = (Walk*)u;
	w->v.emplace_back(k, v);
	return w->v.size() != w->stop;
}

static void get_check(const as_orderedmap* m, const Dict& d, const Node& k, Rng& r, const char* op)
{
	Key key(k, r);
	as_val* v;
	switch (r.below(3)) {
	case 0: v = as_orderedmap_get(m, key.v); break;
	case 1: v = as_map_get((const as_map*)m, key.v); break;
	default: v = k.t == STR && k.s.find('\0') == Bytes::npos ? as_stringmap_get((as_map*)m, k.s.c_str()) : as_hashmap_get((const as_hashmap*)m, key.v); break;
	}
	auto it = d.find(k);
	std::string why;
	if (it == d.end()) VF_CHECK(v == NULL, "get-absent", "after %s: absent key %s reads as a value", op, show(k).c_str());
	else VF_CHECK(same(it->second, v, why), "get", "after %s: key %s in a map of %zu: %s", op, show(k).c_str(), d.size(), why.c_str());
	if (it == d.end()) count("absent_gets"); else count("gets");
	if (k.t == STR && r.chance(1, 4)) {
		as_map* mm = (as_map*)m;
		const char* s = k.s.c_str();
		Node n = it == d.end() ? Node() : it->second;
		VF_CHECK(as_stringmap_get_int64(mm, s) == (n.t == INT ? n.i : 0), "get-int", "typed get of an integer");
		VF_CHECK(dbits(as_stringmap_get_double(mm, s)) == dbits(n.t == DBL ? n.d : 0), "get-double", "typed get of a double");
		char* t = as_stringmap_get_str(mm, s);
		VF_CHECK(n.t == STR ? t && n.s == t : t == NULL, "get-str", "typed get of a string");
		VF_CHECK((as_val*)as_stringmap_get_integer(mm, s) == (n.t == INT ? v : NULL) && (as_val*)as_stringmap_get_as_double(mm, s) == (n.t == DBL ? v : NULL)
				&& (as_val*)as_stringmap_get_string(mm, s) == (n.t == STR ? v : NULL) && (as_val*)as_stringmap_get_bytes(mm, s) == (n.t == BLOB ? v : NULL)
				&& (as_val*)as_stringmap_get_list(mm, s) == (n.t == LIST ? v : NULL) && (as_val*)as_stringmap_get_map(mm, s) == (n.t == MAP ? v : NULL),
				"get-typed", "typed get disagrees with the value's type");
		count("typed_gets");
	}
}

static void size_check(const as_orderedmap* m, const Dict& d, Rng& r, const char* op)
{
	uint32_t n = r.chance(1, 2) ? as_orderedmap_size(m) : as_map_size((const as_map*)m);
	VF_CHECK(n == d.size(), "size", "after %s: size %u, ideal %zu", op, n, d.size());
}

static void walk_check(const as_orderedmap* m, const Dict& d, Rng& r)
{
	std::string why;
	int how = (int)r.below(5);
	size_t i = 0;
	if (how == 0) {
		Walk w;
		w.stop = r.chance(1, 2) ? (size_t)-1 : r.below(d.size() + 2);
		bool stops = w.stop >= 1 && w.stop <= d.size();
		bool ok = r.chance(1, 2) ? as_orderedmap_foreach(m, visit, &w) : as_map_foreach((const as_map*)m, visit, &w);
		VF_CHECK(ok == !stops, "foreach-result", "foreach returned %d", ok);
		VF_CHECK(w.v.size() == (stops ? w.stop : d.size()), "foreach", "visitor saw %zu of %zu entries", w.v.size(), d.size());
		for (auto& e : d) {
			if (i >= w.v.size()) break;
			VF_CHECK(same(e.first, w.v[i].first, why), "foreach", "entry %zu of %zu: key: %s", i, d.size(), why.c_str());
			VF_CHECK(same(e.second, w.v[i].second, why), "foreach", "entry %zu of %zu: value: %s", i, d.size(), why.c_str());
			i++;
		}
	}
	else {
		as_orderedmap_iterator oi;
		as_map_iterator mi;
		as_iterator* it = how == 1 ? (as_iterator*)as_orderedmap_iterator_init(&oi, m) : how == 2 ? (as_iterator*)as_orderedmap_iterator_new(m)
			: how == 3 ? (as_iterator*)as_map_iterator_init(&mi, (const as_map*)m) : (as_iterator*)as_map_iterator_new((const as_map*)m);
		VF_CHECK(it, "iterator", "no iterator");
		for (auto& e : d) {
			VF_CHECK(as_iterator_has_next(it), "iterator", "iterator ends after %zu of %zu", i, d.size());
			as_pair* p = as_pair_fromval((as_val*)as_iterator_next(it));
			VF_CHECK(p, "iterator", "no pair at %zu of %zu", i, d.size());
			VF_CHECK(same(e.first, as_pair_1(p), why), "iterator", "entry %zu of %zu: key: %s", i, d.size(), why.c_str());
			VF_CHECK(same(e.second, as_pair_2(p), why), "iterator", "entry %zu of %zu: value: %s", i, d.size(), why.c_str());
			i++;
		}
		VF_CHECK(!as_iterator_has_next(it) && as_iterator_next(it) == NULL, "iterator-end", "iterator goes on after %zu entries", d.size());
		as_iterator_destroy(it);
	}
	count("walks");
}

static void set_one(as_orderedmap* m, Dict& d, const Node& k, Rng& r)
{
	Node v = val(r);
	int rc;
	as_map* mm = (as_map*)m;
	bool over = d.count(k) != 0;
	bool strk = k.t == STR && k.s.find('\0') == Bytes::npos;
	int form = strk ? (int)r.below(9) : (int)r.below(4);
	const char* s = k.s.c_str();
	switch (form) {
	case 0: rc = as_orderedmap_set(m, to_val(k), to_val(v)); break;
	case 1: rc = as_map_set(mm, to_val(k), to_val(v)); break;
	case 2: rc = as_hashmap_set((as_hashmap*)m, to_val(k), to_val(v)); break;
	case 3: v = Node(); rc = as_orderedmap_set(m, to_val(k), NULL); break;
	case 4: v = Node(); v.t = INT; v.i = gen_int(r); rc = r.chance(1, 2) ? as_stringmap_set_int64(mm, s, v.i) : as_stringmap_set_integer(mm, s, as_integer_new(v.i)); break;
	case 5: v = Node(); v.t = DBL; v.d = gen_double(r, false); rc = r.chance(1, 2) ? as_stringmap_set_double(mm, s, v.d) : as_stringmap_set_as_double(mm, s, as_double_new(v.d)); break;
	case 6: v = Node(); v.t = STR; v.s = gen_text(r, r.below(9)); rc = r.chance(1, 2) ? as_stringmap_set_str(mm, s, v.s.c_str()) : as_stringmap_set_string(mm, s, (as_string*)to_val(v)); break;
	case 7:
		v = Node();
		switch (r.below(3)) {
		case 0: v.t = LIST; rc = as_stringmap_set_list(mm, s, (as_list*)to_val(v)); break;
		case 1: v.t = MAP; rc = as_stringmap_set_map(mm, s, (as_map*)to_val(v)); break;
		default: v.t = BLOB; v.s = gen_blob(r, r.below(9)); rc = as_stringmap_set_bytes(mm, s, (as_bytes*)to_val(v)); break;
		}
		break;
	default: rc = as_stringmap_set(mm, s, to_val(v)); break;
	}
	VF_CHECK(rc == 0, "set", "set of key %s in a map of %zu returned %d", show(k).c_str(), d.size(), rc);
	d[k] = v;
	count(over ? "overwrites" : "inserts");
	if (held(m)) count("sets_with_deferred_inserts");
}

static void bad_key(as_orderedmap* m, Rng& r)
{
	Node n;
	switch (r.below(8)) {
	case 0: n.t = DBL; n.d = 1; break;
	case 1: n.t = BOOL; break;
	case 2: break;
	case 3: n.t = LIST; break;
	case 4: n.t = MAP; break;
	case 5: n.t = GEO; n.s = "x"; break;
	case 6: n.t = BLOB; n.s = "x"; do n.bt = gen_btype(r); while (n.bt == AS_BYTES_BLOB); break;
	default: {
		as_val* v = to_val(val(r));
		VF_CHECK(as_orderedmap_set(m, NULL, v) != 0, "bad-key", "a NULL key was accepted");
		VF_CHECK(as_orderedmap_get(m, NULL) == NULL, "bad-key", "a NULL key was found");
		VF_CHECK(as_orderedmap_remove(m, NULL) != 0, "bad-key", "a NULL key was removed");
		as_val_destroy(v);
		count("bad_keys");
		return;
	}
	}
	as_val* k = to_val(n);
	as_val* v = to_val(val(r));
	VF_CHECK((r.chance(1, 2) ? as_orderedmap_set(m, k, v) : as_map_set((as_map*)m, k, v)) != 0, "bad-key", "key %s was accepted", show(n).c_str());
	VF_CHECK(as_orderedmap_get(m, k) == NULL, "bad-key", "key %s was found", show(n).c_str());
	VF_CHECK(as_map_remove((as_map*)m, k) != 0, "bad-key", "removing key %s succeeded", show(n).c_str());
	as_val_destroy(k);
	as_val_destroy(v);
	count("bad_keys");
}

static void history(as_orderedmap* m, const Universe& u, Rng& r, int nops, bool big, bool huge, uint32_t flags)
{
	Dict d;
	VF_CHECK(((as_map*)m)->flags == flags, "flags", "a new map has flags %u, not %u", ((as_map*)m)->flags, flags);
	uint64_t sig = hash2((uint64_t)u.kind, (uint64_t)u.span);
	if (big) {
		// fill in an order that defers inserts: a base in ascending order, then gaps
		size_t n = huge ? 65000 + r.below(3000) : r.chance(1, 5) ? 5000 + r.below(9000) : 1100 + r.below(2500);
		int pat = (int)r.below(4);
		trace("fill %zu pattern %d kind %d", n, pat, u.kind);
		int k = u.kind >= 2 ? u.kind : 2;
		for (size_t i = 0; i < n; i++) {
			int64_t x = pat == 0 ? (int64_t)i * 2 : pat == 1 ? (int64_t)(n - i) * 2 : pat == 2 ? (int64_t)r.below(n * 4) : (int64_t)(i < n / 2 ? i * 4 : (i - n / 2) * 4 + 2);
			set_one(m, d, Universe::nth(k, x), r);
		}
		sig = hash2(sig, hash2(n, (uint64_t)pat));
		size_check(m, d, r, "fill");
		if (held(m)) count("fills_with_deferred_inserts");
	}
	int cmp_every = big ? 150 : 1;
	for (int i = 0; i < nops; i++) {
		Node k = u.key(r);
		if (!d.empty() && r.chance(1, 3)) {		// an existing key
			auto it = d.lower_bound(k);
			if (it == d.end()) it = d.begin();
			k = it->first;
		}
		int op = (int)r.below(20);
		sig = hash2(sig, (uint64_t)op);
		const char* name;
		if (op < 9) { name = "set"; trace("set %s", show(k).c_str()); set_one(m, d, k, r); }
		else if (op < (big ? 10 : 13)) {
			name = "remove";
			trace("remove %s", show(k).c_str());
			Key key(k, r);
			if (held(m)) count("removes_with_deferred_inserts");
			int rc = r.chance(1, 2) ? as_orderedmap_remove(m, key.v) : as_map_remove((as_map*)m, key.v);
			VF_CHECK(rc == 0, "remove", "remove returned %d", rc);
			count(d.erase(k) ? "removes" : "removes_absent");
		}
		else if (op < 17) { name = "get"; get_check(m, d, k, r, name); }
		else if (op == 17) { name = "bad key"; bad_key(m, r); }
		else if (op == 18 && r.chance(1, big ? 200 : 10)) {
			name = "clear";
			trace("clear");
			VF_CHECK((r.chance(1, 2) ? as_orderedmap_clear(m) : as_map_clear((as_map*)m)) == 0, "clear", "clear failed");
			d.clear();
			count("clears");
		}
		else if (op == 18) {
			name = "flags";
			// unknown bits are dropped, and every kind of order includes order by key
			uint32_t f = r.chance(1, 6) ? r.u32() : (uint32_t)r.below(32);
			if (r.chance(1, 2)) as_orderedmap_set_flags(m, f); else as_map_set_flags((as_map*)m, f);
			flags = f & 0x13;
			if (flags) flags |= 1;
			count("flags");
		}
		else { name = "walk"; if (!big || r.chance(1, 8)) walk_check(m, d, r); }
		size_check(m, d, r, name);
		VF_CHECK(((as_map*)m)->flags == flags, "flags", "after %s: flags %u, not %u", name, ((as_map*)m)->flags, flags);
		if (i % cmp_every == cmp_every - 1) {
			if (big) for (int t = 0; t < 20 && !d.empty(); t++) { auto it = d.lower_bound(u.key(r)); if (it != d.end()) get_check(m, d, Node(it->first), r, name); }
			else for (auto& e : d) get_check(m, d, e.first, r, name);
		}
		count("ops");
	}
	// with deferred inserts still pending, every key must be found; then in order
	for (auto& e : d) get_check(m, d, e.first, r, "history");
	walk_check(m, d, r);
	for (auto& e : d) get_check(m, d, e.first, r, "walk");
	seen("distinct", sig);
	count("evals");
}

static void one(uint64_t idx, Rng& r)
{
	int64_t live = live_allocs();
	bool huge = idx % 4000 == 47, big = idx % 40 == 7;
	scenario(big ? "large" : "small");
	Universe u;
	u.kind = (int)r.below(5);
	u.span = huge ? 130000 : big ? r.chance(1, 2) ? 12000 : 28000 : r.chance(1, 2) ? r.range(1, 8) : r.range(1, 60);
	uint32_t cap = r.chance(1, 3) ? 0 : (uint32_t)r.below(big ? 3000 : 40);
	int nops = big ? (int)r.range(200, 2500) : (int)r.range(5, 80);
	if (idx < 4) sample("kind=%d span=%lld capacity=%u ops=%d", u.kind, (long long)u.span, cap, nops);
	if (idx % 3 == 0) {
		as_orderedmap m;
		bool hash = r.chance(1, 3);
		VF_CHECK((hash ? (as_orderedmap*)as_hashmap_init((as_hashmap*)&m, cap) : as_orderedmap_init(&m, cap)) == &m, "init", "init failed");
		history(&m, u, r, nops, big, huge, hash ? 0 : 1);
		as_orderedmap_destroy(&m);
	}
	else {
		as_orderedmap* m = idx % 3 == 1 ? as_orderedmap_new(cap) : (as_orderedmap*)as_hashmap_new(cap);
		VF_CHECK(m, "new", "no map");
		history(m, u, r, nops, big, huge, idx % 3 == 1 ? 1 : 0);
		if (r.chance(1, 2)) as_orderedmap_destroy(m); else as_map_destroy((as_map*)m);
	}
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks after destroy", (long long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("overwrites", 100); floor_of("removes", 100); floor_of("bad_keys", 100); floor_of("clears", 10); floor_of("walks", 100);
	return run(argc, argv, 25000, 400000, one);
}
