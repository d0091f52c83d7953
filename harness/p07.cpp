// P07: concurrent reserve/release of every value type and of cf_rc allocations.
#include "gen.hpp"
#include <atomic>
#include <pthread.h>
#include <thread>
extern "C" {
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_vector.h>
}
using namespace vf;
using namespace gen;

// A record whose destroy hook is the observer: it reads what every thread wrote.
struct RecData {
	uint64_t slot[8];
	uint64_t want[8];
	std::atomic<int> destroyed{0};
	std::atomic<int> bad{0};
};
static bool rec_destroy(as_rec* rec)
{
	RecData* d = (RecData*)rec->data;
	d->destroyed++;
	for (int i = 0; i < 8; i++) if (d->slot[i] != d->want[i]) d->bad++;
	return true;
}
static uint32_t rec_hash(const as_rec*) { return 7; }
static as_rec_hooks* hooks()
{
	static as_rec_hooks h;
	memset(&h, 0, sizeof h);
	h.destroy = rec_destroy;
	h.hashcode = rec_hash;
	return &h;
}

struct Barrier {
	std::atomic<int> n{0};
	int want;
	explicit Barrier(int w) : want(w) {}
	void wait() { n++; while (n.load() < want) { } }
};

enum Kind { K_INT, K_DBL, K_STR, K_GEO, K_BYTES, K_BOOL, K_LIST, K_MAP, K_PAIR, K_REC, K_TREE, K_NKIND };
static const char* kname[] = {"integer", "double", "string", "geojson", "bytes", "boolean", "list", "map", "pair", "rec", "tree"};

struct Val {
	as_val* v;
	Node n;
	RecData* rd = NULL;
};

static Val make(int kind, Rng& r)
{
	Val x;
	Opt o;
	o.maxlen = 60;
	o.maxdepth = 3;
	o.nan = false;
	Node& n = x.n;
	switch (kind) {
	case K_INT: n.t = INT; n.i = gen_int(r); break;
	case K_DBL: n.t = DBL; n.d = gen_double(r, false); break;
	case K_STR: n.t = STR; n.s = gen_text(r, r.below(60)); break;
	case K_GEO: n.t = GEO; n.s = gen_text(r, r.below(60)); break;
	case K_BYTES: n.t = BLOB; n.s = gen_blob(r, r.below(60)); break;
	case K_BOOL: n.t = BOOL; n.b = r.chance(1, 2); break;
	case K_LIST: n.t = LIST; for (uint64_t k = r.below(5); k; k--) n.kids.push_back(gen_scalar(r, o)); break;
	case K_MAP: n.t = MAP; for (uint64_t k = r.below(5); k; k--) n.ents.emplace_back(gen_key(r, o), gen_scalar(r, o)); sort_map(n); break;
	case K_TREE: n = gen_tree(r, o); if (n.t == NIL) { n.t = INT; n.i = 5; } break;
	case K_PAIR: {
		Node a = gen_scalar(r, o), b = gen_scalar(r, o);
		n.t = LIST;
		n.kids = {a, b};
		x.v = (as_val*)as_pair_new(to_val(a), to_val(b));
		return x;
	}
	case K_REC:
		x.rd = new RecData;
		for (int i = 0; i < 8; i++) x.rd->slot[i] = x.rd->want[i] = 0;
		x.v = (as_val*)as_rec_new(x.rd, hooks());
		return x;
	}
	x.v = to_val(n);
	return x;
}

// readable and intact?
static bool intact(const Val& x, int kind, std::string& why)
{
	if (kind == K_REC) return as_val_type(x.v) == AS_REC && as_val_hashcode(x.v) == 7;
	if (kind == K_PAIR) {
		as_pair* p = as_pair_fromval(x.v);
		return p && same(x.n.kids[0], as_pair_1(p), why) && same(x.n.kids[1], as_pair_2(p), why);
	}
	return same(x.n, x.v, why);
}

static void values(int kind, int nt, Rng& r)
{
	scenario(kname[kind]);
	int64_t live = live_allocs();
	Val x = make(kind, r);
	RecData* rd = x.rd;
	for (int i = 1; i < nt; i++) VF_CHECK(as_val_reserve(x.v) == x.v, "reserve-result", "reserve returned another pointer");
	if (rd) for (int i = 0; i < nt; i++) rd->want[i] = r.u64() | 1;
	std::atomic<int> gone{0}, corrupt{0}, other{0};
	std::string where;
	Barrier b(nt);
	uint64_t seeds[8];
	for (auto& s : seeds) s = r.u64();
	std::vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
		chaos_thread_seed(seeds[t]);
		Rng q(seeds[t]);
		int held = 1;
		b.wait();
		for (uint64_t steps = q.below(6); steps; steps--) {
			std::string why;
			switch (q.below(4)) {
			case 0: case 1: if (as_val_reserve(x.v) != x.v) other++; held++; break;
			case 2: if (!intact(x, kind, why)) corrupt++; break;
			default: if (held > 1) { held--; if (as_val_val_destroy(x.v) != x.v) other++; } break;
			}
		}
		if (rd) rd->slot[t] = rd->want[t];
		while (held--) { as_val* e = as_val_val_destroy(x.v); if (e == NULL) gone++; else if (e != x.v) other++; }
	});
	for (auto& t : th) t.join();
	VF_CHECK(corrupt.load() == 0, "corrupt", "%s changed while a reference was held", kname[kind]);
	VF_CHECK(other.load() == 0, "early", "%s: reserve/release returned an unexpected pointer while references were held", kname[kind]);
	VF_CHECK(gone.load() == 1, "last", "%s: %d releases reported the last reference (expected 1)", kname[kind], gone.load());
	if (rd) {
		VF_CHECK(rd->destroyed.load() == 1, "destroy-count", "destroy hook ran %d times", rd->destroyed.load());
		VF_CHECK(rd->bad.load() == 0, "visible", "destructor saw %d stale slots", rd->bad.load());
		delete rd;
	}
	VF_CHECK(live_allocs() == live, "ledger", "%s: %+lld blocks after the last release", kname[kind], (long long)(live_allocs() - live));
	count("values");
	count(kname[kind]);
}

static void rc(int nt, Rng& r)
{
	scenario("cf_rc");
	int64_t live = live_allocs();
	size_t sz = 64 + r.below(200);
	uint64_t* p = (uint64_t*)cf_rc_alloc(sz);
	bool combined = r.chance(1, 2);
	for (int i = 0; i < 8; i++) p[i] = 0;
	for (int i = 1; i < nt; i++) { uint32_t c = cf_rc_reserve(p); VF_CHECK(c == (uint32_t)i + 1, "rc-reserve", "cf_rc_reserve returned %u, expected %d", c, i + 1); }
	uint64_t want[8], seeds[8];
	for (int i = 0; i < 8; i++) { want[i] = i < nt ? r.u64() : 0; seeds[i] = r.u64(); }
	std::atomic<int> last{0}, bad{0};
	Barrier b(nt);
	std::vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
		chaos_thread_seed(seeds[t]);
		Rng q(seeds[t]);
		int held = 1;
		b.wait();
		for (uint64_t k = q.below(5); k; k--) {
			if (q.chance(2, 3)) { if (cf_rc_reserve(p) < 2) bad++; held++; }
			else if (held > 1) { held--; if (cf_rc_release(p) == 0) bad++; }
		}
		p[t] = want[t];
		while (held--) {
			if (combined) { if (cf_rc_releaseandfree(p) == 0) last++; }
			else if (cf_rc_release(p) == 0) {
				last++;
				for (int i = 0; i < 8; i++) if (p[i] != want[i]) bad++;
				cf_rc_free(p);
			}
		}
	});
	for (auto& t : th) t.join();
	VF_CHECK(last.load() == 1, "rc-last", "%d threads saw the last release", last.load());
	VF_CHECK(bad.load() == 0, "rc-bad", "stale contents or early zero count (%d)", bad.load());
	VF_CHECK(live_allocs() == live, "rc-ledger", "%+lld blocks after the last release", (long long)(live_allocs() - live));
	count("rc_blocks");
}

// results shared between threads; one of them replaces the value before letting go
static void results(int nt, Rng& r)
{
	scenario("result");
	int64_t live = live_allocs();
	as_result* x = as_success_new((as_val*)as_integer_new(1));
	for (int i = 1; i < nt; i++) as_result_reserve(x);
	uint64_t seeds[8];
	for (auto& s : seeds) s = r.u64();
	Barrier b(nt);
	std::vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
		chaos_thread_seed(seeds[t]);
		b.wait();
		if (t == 0) as_result_setfailure(x, (as_val*)as_string_new(strdup("late"), true));
		as_result_destroy(x);
	});
	for (auto& t : th) t.join();
	VF_CHECK(live_allocs() == live, "result-ledger", "result: %+lld blocks after the last release", (long long)(live_allocs() - live));
	count("results");
}

static void constants(Rng& r)
{
	scenario("constants");
	as_val* c[] = {(as_val*)&as_nil, (as_val*)&as_true, (as_val*)&as_false, (as_val*)&as_cmp_wildcard, (as_val*)&as_cmp_inf};
	as_val before[5];
	for (int i = 0; i < 5; i++) before[i] = *c[i];
	std::vector<std::thread> th;
	for (int t = 0; t < 3; t++) th.emplace_back([&] { for (int k = 0; k < 10; k++) for (auto v : c) { as_val_reserve(v); as_val_val_destroy(v); as_val_val_destroy(v); } });
	for (auto& t : th) t.join();
	for (int i = 0; i < 5; i++) VF_CHECK(memcmp(&before[i], c[i], sizeof(as_val)) == 0, "constant", "shared constant %d changed", i);
	VF_CHECK(as_boolean_get(&as_true) && !as_boolean_get(&as_false), "constant", "boolean constants changed");
	count("constants");
}

// one thread: exact counts, owned and borrowed memory, stack objects
static void sequential(Rng& r)
{
	scenario("sequential");
	int64_t live = live_allocs();
	for (int kind = 0; kind < K_NKIND; kind++) {
		Val x = make(kind, r);
		int held = 1;
		std::string why;
		for (int k = 0; k < 20; k++) {
			if (r.chance(1, 2)) { as_val_reserve(x.v); held++; }
			else if (held > 1) { VF_CHECK(as_val_val_destroy(x.v) == x.v, "seq-early", "%s freed with %d references left", kname[kind], held - 1); held--; }
			VF_CHECK(intact(x, kind, why), "seq-corrupt", "%s changed with %d references held: %s", kname[kind], held, why.c_str());
		}
		while (held > 1) { as_val_val_destroy(x.v); held--; VF_CHECK(intact(x, kind, why), "seq-corrupt", "%s changed: %s", kname[kind], why.c_str()); }
		VF_CHECK(as_val_val_destroy(x.v) == NULL, "seq-last", "%s: last release did not report it", kname[kind]);
		if (x.rd) { VF_CHECK(x.rd->destroyed.load() == 1, "seq-destroy", "destroy hook ran %d times", x.rd->destroyed.load()); delete x.rd; }
		VF_CHECK(live_allocs() == live, "seq-ledger", "%s left %+lld blocks", kname[kind], (long long)(live_allocs() - live));
	}
	// caller memory handed over or only lent
	char* own = (char*)malloc(10);
	strcpy(own, "owned");
	as_string s;
	as_string_init(&s, own, true);
	as_string_destroy(&s);
	char lent[10] = "lent";
	as_string_init(&s, lent, false);
	as_val_reserve((as_val*)&s);
	as_string_destroy(&s);
	VF_CHECK(strcmp(as_string_get(&s), "lent") == 0, "lent", "lent string changed");
	as_string_destroy(&s);
	VF_CHECK(strcmp(lent, "lent") == 0, "lent", "lent memory changed");
	own = strdup("{}");
	as_geojson g;
	as_geojson_init(&g, own, true);
	as_geojson_destroy(&g);
	as_string* hs = as_string_new(strdup("x"), true);
	as_string_destroy(hs);
	as_bytes bb;
	uint8_t raw[8] = {1, 2, 3, 4, 5, 6, 7, 8};
	as_bytes_init_wrap(&bb, raw, 8, false);
	as_bytes_destroy(&bb);
	VF_CHECK(raw[0] == 1 && raw[7] == 8, "lent", "lent bytes changed");
	as_bytes_init_wrap(&bb, (uint8_t*)malloc(8), 8, true);
	as_bytes_destroy(&bb);
	as_bytes* hb = as_bytes_new_wrap((uint8_t*)malloc(8), 8, true);
	as_bytes_destroy(hb);
	as_bytes_init(&bb, 16);
	as_bytes_destroy(&bb);
	// results take over one reference of their value
	as_integer* v = as_integer_new(5);
	as_val_reserve((as_val*)v);
	as_result* res = as_success_new((as_val*)v);
	as_result_destroy(res);
	VF_CHECK(as_integer_get(v) == 5, "result", "value changed after its result was destroyed");
	VF_CHECK(as_val_val_destroy((as_val*)v) == NULL, "result", "result did not drop exactly one reference");
	res = as_failure_new((as_val*)as_string_new(strdup("e"), true));
	as_result_destroy(res);
	as_result st;
	as_success_init(&st, (as_val*)as_integer_new(1));
	as_result_setfailure(&st, (as_val*)as_integer_new(2));
	VF_CHECK(!st.is_success && as_integer_get((as_integer*)as_result_value(&st)) == 2, "result", "result does not hold the value set");
	as_result_reserve(&st);
	as_result_destroy(&st);
	VF_CHECK(as_integer_get((as_integer*)as_result_value(&st)) == 2, "result", "result lost its value while referenced");
	as_result_destroy(&st);
	VF_CHECK(live_allocs() == live, "owned-ledger", "%+lld blocks left", (long long)(live_allocs() - live));
	count("sequential");
}

static void one(uint64_t idx, Rng& r)
{
	if (idx % 16 == 0) { sequential(r); constants(r); return; }
	schedule_reset();
	chaos((int)r.range(1, 3), false);
	int nt = (int)r.range(2, 4);
	for (int k = 0; k < 3; k++) {
		if (r.chance(1, 4)) rc(nt, r);
		else if (r.chance(1, 8)) results(nt, r);
		else values((int)r.below(K_NKIND), nt, r);
	}
	if (schedule_signature()) seen("distinct", schedule_signature());
	if (idx < 6) sample("%d threads, order of atomic operations %016llx", nt, (unsigned long long)schedule_signature());
	count("evals");
}

int main(int argc, char** argv)
{
	floor_of("rc_blocks", 50); floor_of("results", 50); floor_of("constants", 10); floor_of("sequential", 10);
	for (auto k : kname) floor_of(k, 20);
	return run(argc, argv, 3000, 60000, one);
}
