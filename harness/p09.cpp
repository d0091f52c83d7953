// P09: as_arraylist (concrete functions and the as_list interface) against an ideal sequence.
#include "gen.hpp"
extern "C" {
#include <aerospike/as_arraylist_iterator.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_iterator.h>
}
using namespace vf;
using namespace gen;

typedef std::vector<Node> Seq;

static Node nil() { return Node(); }
static Node elem(Rng& r)
{
	Opt o;
	o.maxlen = 12;
	o.maxdepth = 2;
	o.maxkids = 3;
	o.nan = false;
	if (r.chance(2, 3)) { Node n; n.t = INT; n.i = r.range(0, 1 << 30); return n; }
	return gen_tree(r, o);
}

static const as_val* at(bool gen_if, const as_arraylist* l, uint32_t i) { return gen_if ? as_list_get((const as_list*)l, i) : as_arraylist_get(l, i); }

struct Walk { std::vector<const as_val*> v; size_t stop; };
static bool visit(as_val* v, void* u)
{
	Walk* w = (Walk*)u;
	w->v.push_back(v);
	return w->v.size() != w->stop;
}

static void compare(const as_arraylist* l, const Seq& m, Rng& r, const char* op)
{
	std::string why;
	bool g = r.chance(1, 2);
	uint32_t n = g ? as_list_size((const as_list*)l) : as_arraylist_size(l);
	VF_CHECK(n == m.size(), "size", "after %s: size %u, ideal %zu", op, n, m.size());
	for (size_t i = 0; i < m.size(); i++)
		VF_CHECK(same(m[i], at(g, l, (uint32_t)i), why), "get", "after %s: element %zu of %zu differs: %s", op, i, m.size(), why.c_str());
	static const uint32_t out[] = {0, 1, 2, 7, 1000, 0x7fffffffu, 0x80000000u};
	for (uint32_t d : out) if ((uint64_t)n + d <= UINT32_MAX)
		VF_CHECK(at(g, l, n + d) == NULL, "get-outside", "after %s: get of index %u in a list of %u is not NULL", op, n + d, n);
	VF_CHECK(at(g, l, UINT32_MAX) == NULL, "get-outside", "get of index UINT32_MAX is not NULL");
	count("comparisons");
}

static void typed(const as_arraylist* l, const Seq& m, Rng& r)
{
	for (int k = 0; k < 4; k++) {
		uint32_t i = (uint32_t)r.below(m.size() + 2);
		Node n = i < m.size() ? m[i] : nil();
		bool g = r.chance(1, 2);
		const as_list* li = (const as_list*)l;
		int64_t x = g ? as_list_get_int64(li, i) : as_arraylist_get_int64(l, i);
		VF_CHECK(x == (n.t == INT ? n.i : 0), "get-int", "integer at %u is %lld", i, (long long)x);
		double d = g ? as_list_get_double(li, i) : as_arraylist_get_double(l, i);
		VF_CHECK(dbits(d) == dbits(n.t == DBL ? n.d : 0.0), "get-double", "double at %u is %g", i, d);
		char* s = g ? as_list_get_str(li, i) : as_arraylist_get_str(l, i);
		VF_CHECK(n.t == STR ? (s && n.s == s) : s == NULL, "get-str", "string at %u wrong", i);
		const as_val* v = as_arraylist_get(l, i);
		const as_val *a, *b, *c, *e, *f, *h;
		if (g) {
			a = (as_val*)as_list_get_integer(li, i); b = (as_val*)as_list_get_as_double(li, i); c = (as_val*)as_list_get_string(li, i);
			e = (as_val*)as_list_get_bytes(li, i); f = (as_val*)as_list_get_list(li, i); h = (as_val*)as_list_get_map(li, i);
		}
		else {
			a = (as_val*)as_arraylist_get_integer(l, i); b = (as_val*)as_arraylist_get_as_double(l, i); c = (as_val*)as_arraylist_get_string(l, i);
			e = (as_val*)as_arraylist_get_bytes(l, i); f = (as_val*)as_arraylist_get_list(l, i); h = (as_val*)as_arraylist_get_map(l, i);
		}
		T t = n.t;
		VF_CHECK(a == (t == INT ? v : NULL) && b == (t == DBL ? v : NULL) && c == (t == STR ? v : NULL) && e == (t == BLOB ? v : NULL)
				&& f == (t == LIST ? v : NULL) && h == (t == MAP ? v : NULL), "get-typed", "typed get at %u disagrees with the element's type", i);
		count("typed_gets");
	}
}

static void iterate(const as_arraylist* l, const Seq& m, Rng& r)
{
	std::string why;
	Walk w;
	w.stop = r.chance(1, 2) ? (size_t)-1 : r.below(m.size() + 2);
	bool ok = r.chance(1, 2) ? as_arraylist_foreach(l, visit, &w) : as_list_foreach((const as_list*)l, visit, &w);
	size_t want = w.stop >= 1 && w.stop <= m.size() ? w.stop : m.size();
	VF_CHECK(ok == !(w.stop >= 1 && w.stop <= m.size()), "foreach-result", "foreach returned %d", ok);
	VF_CHECK(w.v.size() == want, "foreach", "visitor saw %zu elements of %zu (stop at %zu)", w.v.size(), m.size(), w.stop);
	for (size_t i = 0; i < want; i++) VF_CHECK(same(m[i], w.v[i], why), "foreach", "visitor element %zu: %s", i, why.c_str());
	// iterators: stack or heap, concrete or generic
	int how = (int)r.below(4);
	as_arraylist_iterator ai;
	as_list_iterator li;
	as_iterator* it = how == 0 ? (as_iterator*)as_arraylist_iterator_init(&ai, l) : how == 1 ? (as_iterator*)as_arraylist_iterator_new(l)
		: how == 2 ? (as_iterator*)as_list_iterator_init(&li, (const as_list*)l) : (as_iterator*)as_list_iterator_new((const as_list*)l);
	VF_CHECK(it, "iterator", "no iterator");
	for (size_t i = 0; i < m.size(); i++) {
		bool direct = how < 2 && r.chance(1, 2);
		VF_CHECK(direct ? as_arraylist_iterator_has_next((as_arraylist_iterator*)it) : as_iterator_has_next(it), "has-next", "iterator ends after %zu of %zu", i, m.size());
		const as_val* v = direct ? as_arraylist_iterator_next((as_arraylist_iterator*)it) : as_iterator_next(it);
		VF_CHECK(same(m[i], v, why), "iterator", "iterator element %zu: %s", i, why.c_str());
	}
	for (int k = 0; k < 2; k++) {
		VF_CHECK(!as_iterator_has_next(it), "iterator-end", "iterator has more than %zu elements", m.size());
		VF_CHECK(as_iterator_next(it) == NULL, "iterator-end", "next past the end is not NULL");
	}
	as_iterator_destroy(it);
	count("iterations");
}

static as_arraylist* derived(as_arraylist* l, Seq& m, Rng& r, Seq& out)
{
	bool g = r.chance(1, 2);
	const as_list* li = (const as_list*)l;
	uint32_t n = (uint32_t)r.below(m.size() + 3);
	if (r.chance(1, 20)) n = UINT32_MAX - (uint32_t)r.below(3);
	as_arraylist* d;
	out.clear();
	switch (r.below(3)) {
	case 0:
		trace("tail of %zu", m.size());
		d = g ? (as_arraylist*)as_list_tail(li) : as_arraylist_tail(l);
		if (m.empty()) { VF_CHECK(d == NULL, "tail-empty", "tail of an empty list is a list"); return NULL; }
		out.assign(m.begin() + 1, m.end());
		count("tails");
		break;
	case 1:
		trace("take %u of %zu", n, m.size());
		d = g ? (as_arraylist*)as_list_take(li, n) : as_arraylist_take(l, n);
		out.assign(m.begin(), m.begin() + std::min<size_t>(n, m.size()));
		count("takes");
		break;
	default:
		trace("drop %u of %zu", n, m.size());
		d = g ? (as_arraylist*)as_list_drop(li, n) : as_arraylist_drop(l, n);
		out.assign(m.begin() + std::min<size_t>(n, m.size()), m.end());
		count("drops");
		break;
	}
	VF_CHECK(d, "derived", "derived list is NULL");
	if (l->block_size > 0 && l->block_size <= 4096 && r.chance(1, 2)) {		// grows as the list it came from would
		uint32_t more = 1 + (uint32_t)r.below(3);
		for (uint32_t i = 0; i < more; i++) {
			int rc = as_arraylist_append_int64(d, (int64_t)i);
			VF_CHECK(rc == AS_ARRAYLIST_OK, "derived-growth", "appending to a list derived from one that may grow: %d", rc);
			Node e;
			e.t = INT; e.i = (int64_t)i;
			out.push_back(e);
		}
		count("derived_growths");
	}
	return d;
}

// The list may or may not be able to grow: what the caller configured.
static bool fits(const as_arraylist* l, uint64_t need) { return l->block_size > 0 ? need <= UINT32_MAX : need <= l->capacity; }

// ... and certainly gets the memory (a growth step may itself be huge)
static bool sure(const as_arraylist* l, uint64_t need) { return fits(l, need) && (need <= l->capacity || (need + l->block_size) * 8 <= (4u << 20)); }

// the form for the value's own type, or the general one
#define TYPED(op, ...) [&] { if (v && r.chance(1, 2)) switch (e.t) { \
		case INT: return as_arraylist_##op##_integer(__VA_ARGS__, (as_integer*)v); \
		case DBL: return as_arraylist_##op##_as_double(__VA_ARGS__, (as_double*)v); \
		case STR: return as_arraylist_##op##_string(__VA_ARGS__, (as_string*)v); \
		case BLOB: return as_arraylist_##op##_bytes(__VA_ARGS__, (as_bytes*)v); \
		case LIST: return as_arraylist_##op##_list(__VA_ARGS__, (as_list*)v); \
		case MAP: return as_arraylist_##op##_map(__VA_ARGS__, (as_map*)v); \
		default: break; } \
	return as_arraylist_##op(__VA_ARGS__, v); }()

static void history(as_arraylist* l, Rng& r, int nops, const Seq& start)
{
	Seq m = start;
	uint64_t sig = hash2(l->capacity, l->block_size);
	max_single_alloc(16u << 20);
	for (int k = 0; k < nops; k++) {
		bool g = r.chance(1, 2);
		as_list* li = (as_list*)l;
		Node e = elem(r);
		uint32_t idx = (uint32_t)(r.chance(4, 5) ? r.below(m.size() + 1) : r.below(m.size() + 12));
		bool huge = r.chance(1, 40);
		if (huge) {
			static const uint32_t h[] = {UINT32_MAX, UINT32_MAX - 1, 0x80000000u, 0x7fffffffu, 0x40000000u, 0x20000000u, 0x10000000u};
			idx = h[r.below(7)];
		}
		int op = (int)r.below(14);
		if (m.size() > 40 && start.empty() && op <= 5 && r.chance(1, 2)) op = 8 + (int)r.below(2);
		sig = hash2(sig, hash2((uint64_t)op, idx));
		int rc;
		uint32_t oldcap = l->capacity;
		const char* name = "";
		int conv = (int)r.below(5);			// which convenience form
		if (conv == 1 && e.t != INT) conv = 0;
		if (conv == 2) { e = Node(); e.t = DBL; e.d = gen_double(r, false); }
		if (conv == 3) { e = Node(); e.t = STR; e.s = gen_text(r, r.below(12)); }
		if (conv == 4) { e = nil(); }
		as_val* v = conv == 0 ? to_val(e) : NULL;		// conv 4: NULL pointer stands for nil
		uint64_t need;
		switch (op) {
		case 0: case 1: case 2: case 3: case 4: case 5: {
			int kind = op <= 1 ? 0 : op == 2 ? 1 : op == 3 || op == 4 ? 2 : 3;	// append, prepend, insert, set
			static const char* names[] = {"append", "prepend", "insert", "set"};
			name = names[kind];
			if (kind == 0) idx = (uint32_t)m.size();
			if (kind == 1) idx = 0;
			trace("%s[%u] form %d %s (size %zu capacity %u block %u)", name, idx, conv, show(e).c_str(), m.size(), l->capacity, l->block_size);
			if (kind == 3) need = (uint64_t)idx + 1 > m.size() ? (uint64_t)idx + 1 : m.size();
			else need = idx <= m.size() ? m.size() + 1 : (uint64_t)idx + 1;
			if (kind == 0) {
				rc = conv == 1 ? (g ? as_list_append_int64(li, e.i) : as_arraylist_append_int64(l, e.i))
					: conv == 2 ? (g ? as_list_append_double(li, e.d) : as_arraylist_append_double(l, e.d))
					: conv == 3 ? (g ? as_list_append_str(li, e.s.c_str()) : as_arraylist_append_str(l, e.s.c_str()))
					: (g ? as_list_append(li, v) : TYPED(append, l));
			}
			else if (kind == 1) {
				rc = conv == 1 ? (g ? as_list_prepend_int64(li, e.i) : as_arraylist_prepend_int64(l, e.i))
					: conv == 2 ? (g ? as_list_prepend_double(li, e.d) : as_arraylist_prepend_double(l, e.d))
					: conv == 3 ? (g ? as_list_prepend_str(li, e.s.c_str()) : as_arraylist_prepend_str(l, e.s.c_str()))
					: (g ? as_list_prepend(li, v) : TYPED(prepend, l));
			}
			else if (kind == 2) {
				rc = conv == 1 ? (g ? as_list_insert_int64(li, idx, e.i) : as_arraylist_insert_int64(l, idx, e.i))
					: conv == 2 ? (g ? as_list_insert_double(li, idx, e.d) : as_arraylist_insert_double(l, idx, e.d))
					: conv == 3 ? (g ? as_list_insert_str(li, idx, e.s.c_str()) : as_arraylist_insert_str(l, idx, e.s.c_str()))
					: (g ? as_list_insert(li, idx, v) : TYPED(insert, l, idx));
			}
			else {
				rc = conv == 1 ? (g ? as_list_set_int64(li, idx, e.i) : as_arraylist_set_int64(l, idx, e.i))
					: conv == 2 ? (g ? as_list_set_double(li, idx, e.d) : as_arraylist_set_double(l, idx, e.d))
					: conv == 3 ? (g ? as_list_set_str(li, idx, e.s.c_str()) : as_arraylist_set_str(l, idx, e.s.c_str()))
					: (g ? as_list_set(li, idx, v) : TYPED(set, l, idx));
			}
			bool can = sure(l, need);
			bool may = fits(l, need);
			VF_CHECK(rc == 0 || !can, "refused", "%s at %u refused (%d) with size %zu capacity %u block %u", name, idx, rc, m.size(), oldcap, l->block_size);
			VF_CHECK(rc != 0 || may, "accepted", "%s at %u accepted with size %zu capacity %u block %u", name, idx, m.size(), oldcap, l->block_size);
			if (rc == 0) {
				if (kind == 3 && idx < m.size()) m[idx] = e;
				else {
					bool gap = m.size() < idx;
					while (m.size() < idx) m.push_back(nil());
					m.insert(m.begin() + idx, e);
					if (gap) count("gaps");
				}
				count("writes");
				if (l->capacity != oldcap) count("growths");
			}
			else {
				if (v) as_val_destroy(v);
				count("refusals");
				if (huge) count("huge_refusals");
			}
			break;
		}
		case 6: case 7:
			rc = g ? as_list_remove(li, idx) : as_arraylist_remove(l, idx);
			name = "remove";
			trace("remove %u of %zu", idx, m.size());
			VF_CHECK((rc == 0) == (idx < m.size()), "remove", "remove %u of %zu returned %d", idx, m.size(), rc);
			if (rc == 0) { m.erase(m.begin() + idx); count("removes"); }
			as_val_destroy(v);
			break;
		case 8:
			rc = g ? as_list_trim(li, idx) : as_arraylist_trim(l, idx);
			name = "trim";
			trace("trim %u of %zu", idx, m.size());
			VF_CHECK((rc == 0) == (idx < m.size()), "trim", "trim %u of %zu returned %d", idx, m.size(), rc);
			if (rc == 0) { m.resize(idx); count("trims"); }
			as_val_destroy(v);
			break;
		case 9: case 10: {
			name = "concat";
			as_val_destroy(v);
			if (r.chance(1, 6) && (m.size() < 60 || (!start.empty() && m.size() < 100000))) {
				trace("concat with itself, size %zu", m.size());
				rc = g ? as_list_concat(li, li) : as_arraylist_concat(l, l);
				VF_CHECK(rc == 0 ? fits(l, 2 * m.size()) : !sure(l, 2 * m.size()), "concat-self", "self concat of %zu returned %d", m.size(), rc);
				if (rc == 0) { Seq c = m; m.insert(m.end(), c.begin(), c.end()); count("self_concats"); }
				break;
			}
			Seq o;
			as_arraylist* d;
			if (r.chance(1, 2)) {
				d = derived(l, m, r, o);
				if (!d) break;
			}
			else {
				d = as_arraylist_new((uint32_t)r.below(5), 1 + (uint32_t)r.below(4));
				for (uint64_t n = r.below(6); n; n--) { Node x = elem(r); as_arraylist_append(d, to_val(x)); o.push_back(x); }
			}
			trace("concat %zu with %zu", m.size(), o.size());
			compare(d, o, r, "derivation");
			if (m.size() + o.size() < (start.empty() ? 200 : 200000)) {
				rc = g ? as_list_concat(li, (as_list*)d) : as_arraylist_concat(l, d);
				VF_CHECK(rc == 0 ? fits(l, m.size() + o.size()) : !sure(l, m.size() + o.size()), "concat", "concat of %zu and %zu returned %d", m.size(), o.size(), rc);
				if (rc == 0) { m.insert(m.end(), o.begin(), o.end()); count("concats"); }
			}
			compare(d, o, r, "concat (source)");
			as_arraylist_destroy(d);
			break;
		}
		case 11: {
			name = "derive";
			as_val_destroy(v);
			Seq o;
			as_arraylist* d = derived(l, m, r, o);
			if (!d) break;
			compare(d, o, r, "derivation");
			iterate(d, o, r);
			// derived lists are independent sequences
			if (r.chance(1, 2)) {
				Node x = elem(r);
				as_val* xv = to_val(x);
				rc = as_arraylist_append(d, xv);
				if (rc == 0) o.push_back(x); else as_val_destroy(xv);
				if (!o.empty()) { as_arraylist_remove(d, 0); o.erase(o.begin()); }
				compare(d, o, r, "change of a derived list");
			}
			as_arraylist_destroy(d);
			break;
		}
		case 12: {
			name = "head";
			as_val_destroy(v);
			std::string why;
			trace("head of %zu", m.size());
			as_val* h = g ? as_list_head(li) : as_arraylist_head(l);
			if (m.empty()) { VF_CHECK(h == NULL, "head-empty", "head of an empty list is a value"); count("heads_of_empty"); }
			else VF_CHECK(same(m[0], h, why), "head", "head differs: %s", why.c_str());
			count("heads");
			break;
		}
		default:
			as_val_destroy(v);
			name = "read";
			typed(l, m, r);
			iterate(l, m, r);
			break;
		}
		count("ops");
		compare(l, m, r, name);
	}
	typed(l, m, r);
	iterate(l, m, r);
	seen("distinct", sig);
	count("evals");
	max_single_alloc(0);
}

// Lists long enough for counts and positions to pass 8 and 16 bits.
static void long_list(Rng& r, bool very)
{
	scenario("long-arraylist");
	uint32_t n = very ? 65000 + (uint32_t)r.below(2000) : 200 + (uint32_t)r.below(1200);
	as_arraylist* l = as_arraylist_new(r.chance(1, 2) ? n : (uint32_t)r.below(16), 1 + (uint32_t)r.below(very ? 70000 : 300));
	VF_CHECK(l, "new", "no list");
	Seq m;
	for (uint32_t i = 0; i < n; i++) {
		Node e;
		e.t = INT;
		e.i = (int64_t)i * 3 + 1;
		m.push_back(e);
		VF_CHECK(as_arraylist_append_int64(l, e.i) == 0, "refused", "append %u refused", i);
	}
	history(l, r, very ? 6 : 14, m);
	as_arraylist_destroy(l);
	count(very ? "very_long_lists" : "long_lists");
}

static void one(uint64_t idx, Rng& r)
{
	scenario("arraylist");
	int64_t live = live_allocs();
	if (idx % 60 == 31 || idx % 4000 == 17) {
		long_list(r, idx % 4000 == 17);
		VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks after destroy", (long long)(live_allocs() - live));
		return;
	}
	uint32_t cap = r.chance(1, 3) ? 0 : (uint32_t)r.below(20);
	uint32_t blk = r.chance(1, 4) ? 0 : r.chance(1, 8) ? (uint32_t)r.u64() : (uint32_t)r.range(1, 40);
	int nops = (int)r.range(5, 60);
	if (idx < 4) sample("capacity=%u block=%u ops=%d construction=%d", cap, blk, nops, (int)(idx % 3));
	if (idx % 3 == 0) {
		as_arraylist* l = as_arraylist_new(cap, blk);
		VF_CHECK(l, "new", "no list");
		history(l, r, nops, Seq());
		as_arraylist_destroy(l);
	}
	else if (idx % 3 == 1) {
		as_arraylist l;
		VF_CHECK(as_arraylist_init(&l, cap, blk) == &l, "init", "init failed");
		history(&l, r, nops, Seq());
		if (r.chance(1, 2)) as_arraylist_destroy(&l); else as_list_destroy((as_list*)&l);
	}
	else {
		as_arraylist l;
		uint32_t n = (uint32_t)r.range(1, 20);
		as_arraylist_inita(&l, n);
		history(&l, r, nops, Seq());
		as_arraylist_destroy(&l);
	}
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks after destroy", (long long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("gaps", 50); floor_of("growths", 100); floor_of("refusals", 100); floor_of("self_concats", 20); floor_of("tails", 50);
	floor_of("long_lists", 50); floor_of("very_long_lists", 1); floor_of("huge_refusals", 20); floor_of("heads_of_empty", 5); floor_of("removes", 100); floor_of("trims", 50); floor_of("iterations", 100);
	return run(argc, argv, 120000, 2000000, one);
}
