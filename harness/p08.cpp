// P08: who holds how many references.  The harness keeps one reference of every element it
// hands out and compares each element's count with 1 + its occurrences in live containers,
// computed from an ideal model of the containers.
#include "gen.hpp"
#include <set>
extern "C" {
#include <aerospike/as_hashmap.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list_iterator.h>
#include <aerospike/as_map_iterator.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_stringmap.h>
}
using namespace vf;
using namespace gen;

struct Elem {
	as_val* v;
	int kind;
	uint64_t id;
	int destroyed = 0;		// records only
};
static bool rec_destroy(as_rec* rec) { ((Elem*)rec->data)->destroyed++; return true; }

// A container: list, map, pair or result.  Containers are elements too.
struct Box {
	int kind;				// 0 list, 1 map, 2 pair, 3 result
	as_val* v = NULL;
	as_result* res = NULL;
	std::vector<int> items;						// element numbers (-1: not tracked)
	std::map<int64_t, std::pair<int, int>> ents;	// map: id -> key element (-1), value element
	int self = -1;			// element number when the container is itself an element
	bool alive = true;
};

struct World {
	Rng& r;
	std::vector<Elem*> el;
	std::vector<Box*> box;
	explicit World(Rng& q) : r(q) {}
	~World() { for (auto e : el) delete e; for (auto b : box) delete b; }

	int fresh()
	{
		Elem* e = new Elem;
		e->id = el.size();
		e->kind = (int)r.below(8);
		Node n;
		switch (e->kind) {
		case 0: n.t = INT; n.i = (int64_t)e->id; e->v = to_val(n); break;
		case 1: n.t = DBL; n.d = (double)e->id; e->v = to_val(n); break;
		case 2: n.t = STR; n.s = "s" + std::to_string(e->id); e->v = to_val(n); break;
		case 3: n.t = GEO; n.s = "g" + std::to_string(e->id); e->v = to_val(n); break;
		case 4: n.t = BLOB; n.s = "b" + std::to_string(e->id); e->v = to_val(n); break;
		case 5: n.t = BOOL; n.b = e->id & 1; e->v = to_val(n); break;
		case 6: {
			static as_rec_hooks h;
			h.destroy = rec_destroy;
			e->v = (as_val*)as_rec_new(e, &h);
			break;
		}
		default: n.t = LIST; n.kids.resize(1); n.kids[0].t = INT; n.kids[0].i = 3; e->v = to_val(n); break;
		}
		el.push_back(e);
		return (int)el.size() - 1;
	}
	// an element, with one reference for the container to take over
	int given()
	{
		int i = el.empty() || r.chance(2, 3) ? fresh() : (int)r.below(el.size());
		as_val_reserve(el[i]->v);
		return i;
	}
	std::vector<int> expected() const
	{
		std::vector<int> c(el.size(), 1);
		for (auto b : box) if (b->alive) {
			for (int i : b->items) if (i >= 0) c[i]++;
			for (auto& e : b->ents) { if (e.second.first >= 0) c[e.second.first]++; if (e.second.second >= 0) c[e.second.second]++; }
		}
		return c;
	}
	void check(const char* op)
	{
		std::vector<int> c = expected();
		for (size_t i = 0; i < el.size(); i++) {
			VF_CHECK((int)el[i]->v->count == c[i], "count", "after %s: element %zu (kind %d) has %u references, ideal %d", op, i, el[i]->kind, el[i]->v->count, c[i]);
			VF_CHECK(el[i]->destroyed == 0, "destroyed-early", "after %s: element %zu destroyed while held", op, i);
		}
		count("count_checks", el.size());
	}
	Box* pick(int kind)
	{
		std::vector<Box*> v;
		for (auto b : box) if (b->alive && b->kind == kind) v.push_back(b);
		return v.empty() ? NULL : v[r.below(v.size())];
	}
};

static void key_of(Node& n, int64_t id)
{
	n = Node();
	switch (id % 3) {
	case 0: n.t = INT; n.i = id; break;
	case 1: n.t = STR; n.s = "k" + std::to_string(id); break;
	default: n.t = BLOB; n.s = "k" + std::to_string(id); break;
	}
}
// a tracked key element
static int key_elem(World& w, int64_t id)
{
	Elem* e = new Elem;
	e->id = w.el.size();
	e->kind = 100;
	Node n;
	key_of(n, id);
	e->v = to_val(n);
	w.el.push_back(e);
	as_val_reserve(e->v);
	return (int)w.el.size() - 1;
}

static void list_op(World& w, Box* b)
{
	Rng& r = w.r;
	as_list* li = (as_list*)b->v;
	as_arraylist* al = (as_arraylist*)b->v;
	uint32_t n = (uint32_t)b->items.size();
	uint32_t idx = (uint32_t)r.below(n + 3);
	if (r.chance(1, 30)) idx = UINT32_MAX - (uint32_t)r.below(3);
	bool g = r.chance(1, 2);
	int rc;
	switch (r.below(12)) {
	case 0: case 1: case 2: case 3: {
		int e = w.given();
		as_val* v = w.el[e]->v;
		int k = (int)r.below(4);
		trace("list op %d index %u size %u", k, idx, n);
		rc = k == 0 ? (g ? as_list_append(li, v) : as_arraylist_append(al, v)) : k == 1 ? (g ? as_list_prepend(li, v) : as_arraylist_prepend(al, v))
			: k == 2 ? (g ? as_list_insert(li, idx, v) : as_arraylist_insert(al, idx, v)) : (g ? as_list_set(li, idx, v) : as_arraylist_set(al, idx, v));
		if (rc != 0) { as_val_destroy(v); count("refused_given"); break; }
		if (k == 0) idx = n;
		if (k == 1) idx = 0;
		while (b->items.size() < idx) b->items.push_back(-1);
		if (k == 3 && idx < b->items.size()) { if (b->items[idx] >= 0) count("overwritten"); b->items[idx] = e; }
		else b->items.insert(b->items.begin() + idx, e);
		break;
	}
	case 4: {
		// values created by the call itself
		int k = (int)r.below(12);
		trace("typed list op %d index %u size %u", k, idx, n);
		const char* s = "made by the call";
		switch (k) {
		case 0: rc = as_list_append_int64(li, 5); break;
		case 1: rc = as_list_append_double(li, 5); break;
		case 2: rc = as_list_append_str(li, s); break;
		case 3: rc = as_list_prepend_int64(li, 5); break;
		case 4: rc = as_list_prepend_double(li, 5); break;
		case 5: rc = as_list_prepend_str(li, s); break;
		case 6: rc = as_list_insert_int64(li, idx, 5); break;
		case 7: rc = as_list_insert_double(li, idx, 5); break;
		case 8: rc = as_list_insert_str(li, idx, s); break;
		case 9: rc = as_list_set_int64(li, idx, 5); break;
		case 10: rc = as_list_set_double(li, idx, 5); break;
		default: rc = as_list_set_str(li, idx, s); break;
		}
		if (rc != 0) { count("refused_typed"); break; }
		if (k < 3) idx = n;
		else if (k < 6) idx = 0;
		while (b->items.size() < idx) b->items.push_back(-1);
		if (k >= 9 && idx < b->items.size()) b->items[idx] = -1;
		else b->items.insert(b->items.begin() + idx, -1);
		break;
	}
	case 5: case 6:
		trace("remove %u of %u", idx, n);
		rc = g ? as_list_remove(li, idx) : as_arraylist_remove(al, idx);
		if (rc == 0) { b->items.erase(b->items.begin() + idx); count("removed"); }
		break;
	case 7:
		if (!r.chance(1, 3)) break;
		trace("trim %u of %u", idx, n);
		rc = g ? as_list_trim(li, idx) : as_arraylist_trim(al, idx);
		if (rc == 0) { b->items.resize(idx); count("trimmed"); }
		break;
	case 8: {
		Box* o = w.pick(0);
		if (b->items.size() + o->items.size() > 60) break;
		trace("concat %u with %zu%s", n, o->items.size(), o == b ? " (itself)" : "");
		rc = g ? as_list_concat(li, (as_list*)o->v) : as_arraylist_concat(al, (as_arraylist*)o->v);
		if (rc == 0) { std::vector<int> c = o->items; b->items.insert(b->items.end(), c.begin(), c.end()); count("concatenated"); }
		break;
	}
	case 9: {
		if (w.box.size() > 12) break;
		Box* d = new Box;
		d->kind = 0;
		int k = (int)r.below(3);
		trace("derive %d %u of %u", k, idx, n);
		uint32_t c = std::min(idx, n);
		d->v = (as_val*)(k == 0 ? as_list_tail(li) : k == 1 ? as_list_take(li, idx) : as_list_drop(li, idx));
		if (k == 0 && n) d->items.assign(b->items.begin() + 1, b->items.end());
		if (k == 1) d->items.assign(b->items.begin(), b->items.begin() + c);
		if (k == 2) d->items.assign(b->items.begin() + c, b->items.end());
		if (!d->v) { delete d; break; }
		w.box.push_back(d);
		count("derived");
		break;
	}
	case 10: {
		as_list_iterator it;
		as_iterator* p = r.chance(1, 2) ? (as_iterator*)as_list_iterator_init(&it, li) : (as_iterator*)as_list_iterator_new(li);
		for (uint64_t k = r.below(n + 2); k; k--) as_iterator_next(p);
		as_iterator_destroy(p);
		count("iterated");
		break;
	}
	default: (void)as_list_get(li, idx); (void)as_list_head(li); break;
	}
}

static void map_op(World& w, Box* b)
{
	Rng& r = w.r;
	as_map* m = (as_map*)b->v;
	int64_t id = r.range(0, 15);
	bool g = r.chance(1, 2);
	Node kn;
	key_of(kn, id);
	switch (r.below(8)) {
	case 0: case 1: case 2: {
		int k = key_elem(w, id);
		int v = w.given();
		trace("map set key %lld, present %zu", (long long)id, b->ents.count(id));
		int rc = g ? as_map_set(m, w.el[k]->v, w.el[v]->v) : as_orderedmap_set((as_orderedmap*)m, w.el[k]->v, w.el[v]->v);
		VF_CHECK(rc == 0, "map-set", "map set returned %d", rc);
		if (b->ents.count(id)) count("map_overwritten");
		b->ents[id] = {k, v};
		break;
	}
	case 3: {
		// string helper: key made by the call
		int64_t sid = id - id % 3 + 1;
		int v = w.given();
		trace("stringmap set key %lld", (long long)sid);
		as_stringmap_set(m, ("k" + std::to_string(sid)).c_str(), w.el[v]->v);
		b->ents[sid] = {-1, v};
		break;
	}
	case 4: {
		as_val* k = to_val(kn);
		trace("map remove %lld", (long long)id);
		as_map_remove(m, k);
		if (b->ents.erase(id)) count("map_removed");
		as_val_destroy(k);
		break;
	}
	case 5:
		if (r.chance(1, 6)) { trace("map clear"); as_map_clear(m); b->ents.clear(); count("map_cleared"); }
		else {
			as_map_iterator it;
			as_iterator* p = r.chance(1, 2) ? (as_iterator*)as_map_iterator_init(&it, m) : (as_iterator*)as_map_iterator_new(m);
			for (uint64_t k = r.below(b->ents.size() + 2); k; k--) as_iterator_next(p);
			as_iterator_destroy(p);
			count("iterated");
		}
		break;
	case 6: {
		// refused key: nothing is taken over
		int v = w.given();
		as_val* k = r.chance(1, 2) ? (as_val*)as_double_new(1) : (as_val*)as_arraylist_new(2, 0);
		trace("map set with an unsupported key");
		VF_CHECK(as_map_set(m, k, w.el[v]->v) != 0, "map-bad-key", "unsupported key accepted");
		as_val_destroy(k);
		as_val_destroy(w.el[v]->v);
		count("map_refused");
		break;
	}
	default: {
		as_val* k = to_val(kn);
		(void)as_map_get(m, k);
		as_val_destroy(k);
		break;
	}
	}
}

static void make_box(World& w)
{
	Rng& r = w.r;
	Box* b = new Box;
	b->kind = (int)r.below(4);
	switch (b->kind) {
	case 0: b->v = (as_val*)as_arraylist_new((uint32_t)r.below(8), r.chance(1, 4) ? 0 : (uint32_t)r.range(1, 8)); break;
	case 1: b->v = (as_val*)as_orderedmap_new((uint32_t)r.below(8)); break;
	case 2: {
		int x = w.given(), y = w.given();
		b->v = (as_val*)as_pair_new(w.el[x]->v, w.el[y]->v);
		b->items = {x, y};
		break;
	}
	default: {
		int x = w.given();
		b->res = r.chance(1, 2) ? as_success_new(w.el[x]->v) : as_failure_new(w.el[x]->v);
		b->items = {x};
		break;
	}
	}
	w.box.push_back(b);
	count("containers");
}

static void drop_box(World& w, Box* b)
{
	trace("destroy container of kind %d", b->kind);
	if (b->res) as_result_destroy(b->res);
	else VF_CHECK(as_val_val_destroy(b->v) == NULL, "container-kept", "destroying a container of kind %d left it alive", b->kind);
	b->alive = false;
	count("destroyed");
}

// Maps large enough to defer inserts, elements shared between two of them.
static void large(Rng& r)
{
	scenario("large map");
	int64_t live = live_allocs();
	size_t n = 1050 + r.below(2200);
	as_orderedmap* m = as_orderedmap_new((uint32_t)r.below(2000));
	std::vector<as_integer*> val;
	std::map<int64_t, int> holder;		// key -> value number
	auto set = [&](int64_t k, int v) {
		as_val_reserve((as_val*)val[v]);
		VF_CHECK(as_orderedmap_set(m, (as_val*)as_integer_new(k), (as_val*)val[v]) == 0, "map-set", "set failed");
		holder[k] = v;
	};
	for (int i = 0; i < 40; i++) val.push_back(as_integer_new(i));
	for (size_t i = 0; i < n; i++) set((int64_t)i * 2, (int)r.below(val.size()));
	for (uint64_t k = r.below(2500); k; k--) set((int64_t)r.below(n * 2), (int)r.below(val.size()));
	auto verify = [&](const char* op) {
		std::vector<uint32_t> c(val.size(), 1);
		for (auto& h : holder) c[(size_t)h.second]++;
		for (size_t i = 0; i < val.size(); i++)
			VF_CHECK(((as_val*)val[i])->count == c[i], "large-count", "after %s: value %zu has %u references, ideal %u", op, i, ((as_val*)val[i])->count, c[i]);
	};
	verify("filling");
	if (r.chance(1, 2)) {
		for (int k = 0; k < 30; k++) {
			as_integer key;
			int64_t x = (int64_t)r.below(n * 2);
			as_integer_init(&key, x);
			as_orderedmap_remove(m, (as_val*)&key);
			holder.erase(x);
			set((int64_t)r.below(n * 2), (int)r.below(val.size()));
		}
		verify("removals");
	}
	if (r.chance(1, 2)) {
		as_orderedmap_clear(m);
		holder.clear();
		verify("clear");
		for (int k = 0; k < 20; k++) set((int64_t)r.below(50), (int)r.below(val.size()));
		verify("refilling");
	}
	as_orderedmap_destroy(m);
	holder.clear();
	verify("destroy");
	for (auto v : val) as_integer_destroy(v);
	VF_CHECK(live_allocs() == live, "large-ledger", "%+lld blocks remain", (long long)(live_allocs() - live));
	count("large_maps");
	count("evals");
}

static void one(uint64_t idx, Rng& r)
{
	if (idx % 60 == 59) { large(r); return; }
	scenario("ownership");
	int64_t live = live_allocs();
	uint64_t sig = 1;
	{
		World w(r);
		int nops = (int)r.range(20, 120);
		if (idx < 3) sample("history of %d operations over lists, maps, pairs and results sharing elements", nops);
		make_box(w);
		for (int i = 0; i < nops; i++) {
			int op = (int)r.below(12);
			sig = hash2(sig, (uint64_t)op);
			if (op == 0 && w.box.size() < 12) make_box(w);
			else if (op == 1) {
				std::vector<Box*> v;
				for (auto b : w.box) if (b->alive) v.push_back(b);
				if (!v.empty()) drop_box(w, v[r.below(v.size())]);
			}
			else if (op == 2) {
				Box* b = w.pick(3);
				if (b) {
					int x = w.given();
					trace("result set");
					if (r.chance(1, 2)) as_result_setsuccess(b->res, w.el[x]->v); else as_result_setfailure(b->res, w.el[x]->v);
					b->items = {x};
					count("results_replaced");
				}
			}
			else if (op < 8) { Box* b = w.pick(0); if (b) list_op(w, b); }
			else { Box* b = w.pick(1); if (b) map_op(w, b); }
			w.check("operation");
			count("ops");
		}
		for (auto b : w.box) if (b->alive) { drop_box(w, b); w.check("destroy"); }
		for (auto e : w.el) {
			VF_CHECK(as_val_val_destroy(e->v) == NULL, "kept", "an element outlived its last reference");
			if (e->kind == 6) VF_CHECK(e->destroyed == 1, "destroyed", "a record was destroyed %d times", e->destroyed);
		}
		VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks remain", (long long)(live_allocs() - live));
	}
	// nested containers built from a model, with stack-based parts, released in one go
	{
		Opt o;
		o.maxlen = 30;
		o.maxdepth = 6;
		Node n = gen_tree(r, o);
		as_val* v = to_val(n);
		as_arraylist st;
		as_arraylist_init(&st, 2, 1);
		as_arraylist_append(&st, v);
		as_val_reserve(v);
		as_arraylist_append(&st, v);
		as_orderedmap om;
		as_orderedmap_init(&om, 1);
		as_val_reserve(v);
		as_orderedmap_set(&om, (as_val*)as_integer_new(1), v);
		as_pair pr;
		as_val_reserve(v);
		as_pair_init(&pr, v, (as_val*)as_integer_new(9));
		switch (r.below(3)) {
		case 0: as_arraylist_destroy(&st); as_orderedmap_destroy(&om); as_pair_destroy(&pr); break;
		case 1: as_pair_destroy(&pr); as_arraylist_destroy(&st); as_orderedmap_destroy(&om); break;
		default: as_orderedmap_destroy(&om); as_pair_destroy(&pr); as_arraylist_destroy(&st); break;
		}
		VF_CHECK(live_allocs() == live, "nested-ledger", "%+lld blocks remain after nested containers", (long long)(live_allocs() - live));
		count("nested");
	}
	seen("distinct", sig);
	count("evals");
}

int main(int argc, char** argv)
{
	floor_of("overwritten", 50); floor_of("removed", 50); floor_of("trimmed", 20); floor_of("concatenated", 20); floor_of("derived", 50);
	floor_of("refused_given", 20); floor_of("refused_typed", 10); floor_of("map_overwritten", 50); floor_of("map_removed", 20);
	floor_of("map_refused", 20); floor_of("results_replaced", 20); floor_of("map_cleared", 5); floor_of("count_checks", 10000); floor_of("large_maps", 20);
	return run(argc, argv, 90000, 1500000, one);
}
