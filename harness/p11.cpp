// P11: text form and hash of every value against an independent reader of the text.
#include <sys/mman.h>
#include "gen.hpp"
extern "C" {
#include <aerospike/as_rec.h>
}
using namespace vf;
using namespace gen;

static bool lit(const char*& p, const std::string& s, std::string& why)
{
	if (strncmp(p, s.c_str(), s.size()) == 0) { p += s.size(); return true; }
	char b[200];
	snprintf(b, sizeof b, "expected '%.40s' at '%.40s'", s.c_str(), p);
	why = b;
	return false;
}

static int64_t g_cells;
// Read the text of n at p.
static bool read(const char*& p, const Node& n, std::string& why)
{
	g_cells++;
	switch (n.t) {
	case NIL: return lit(p, "NIL", why);
	case BOOL: return lit(p, n.b ? "true" : "false", why);
	case WILD: return lit(p, "*", why);
	case INF: return lit(p, "INF", why);
	case INT: {
		char b[32];
		snprintf(b, sizeof b, "%lld", (long long)n.i);
		return lit(p, b, why);
	}
	case DBL: {
		char* e;
		double d = strtod(p, &e);
		bool ok = e != p && (isnan(n.d) ? isnan(d) : isinf(n.d) ? d == n.d : signbit(d) == signbit(n.d) && fabs(d - n.d) <= fabs(n.d) * 1e-15);
		if (!isnan(n.d) && !isinf(n.d) && isinf(d) && fabs(n.d) > 1.797e308) ok = signbit(d) == signbit(n.d);	// rounds up at the very end of the range
		if (!ok) { char b[160]; snprintf(b, sizeof b, "double %a reads as %a from '%.40s'", n.d, d, p); why = b; return false; }
		p = e;
		return true;
	}
	case STR: case GEO: return lit(p, "\"" + n.s + "\"", why);
	case BLOB: {
		if (n.s.empty()) return lit(p, "<NULL>", why);
		std::string s;
		char b[4];
		for (size_t i = 0; i < n.s.size(); i++) { snprintf(b, sizeof b, i ? " %02X" : "%02X", (uint8_t)n.s[i]); s += b; }
		return lit(p, s, why);
	}
	case LIST:
		if (!lit(p, "[", why)) return false;
		for (size_t i = 0; i < n.kids.size(); i++) {
			if (i && !lit(p, ", ", why)) return false;
			if (!read(p, n.kids[i], why)) return false;
		}
		return lit(p, "]", why);
	case MAP:
		if (!lit(p, "{", why)) return false;
		for (size_t i = 0; i < n.ents.size(); i++) {
			if (i && !lit(p, ", ", why)) return false;
			if (!read(p, n.ents[i].first, why) || !lit(p, ":", why) || !read(p, n.ents[i].second, why)) return false;
		}
		return lit(p, "}", why);
	}
	return false;
}

// The same value built another way.
static as_val* other(const Node& n, Rng& r)
{
	switch (n.t) {
	case BOOL: return r.chance(1, 2) ? (as_val*)(n.b ? &as_true : &as_false) : to_val(n);
	case STR: return r.chance(1, 2) ? (as_val*)as_string_new_strdup(n.s.c_str()) : (as_val*)as_string_new(dup(n.s), true);
	case GEO: return r.chance(1, 2) ? (as_val*)as_geojson_new_strdup(n.s.c_str()) : (as_val*)as_geojson_new(dup(n.s), true);
	case BLOB: {
		as_bytes* b = as_bytes_new((uint32_t)(n.s.size() + r.below(9) + 1));
		if (!n.s.empty()) as_bytes_set(b, 0, (const uint8_t*)n.s.data(), (uint32_t)n.s.size());
		b->type = (as_bytes_type)n.bt;
		return (as_val*)b;
	}
	case LIST: {
		as_arraylist* l = as_arraylist_new((uint32_t)r.below(4), (uint32_t)r.range(1, 5));
		for (size_t i = n.kids.size(); i; i--) as_arraylist_prepend(l, other(n.kids[i - 1], r));
		return (as_val*)l;
	}
	case MAP: {
		as_orderedmap* m = as_orderedmap_new((uint32_t)r.below(4));
		for (size_t i = n.ents.size(); i; i--) as_orderedmap_set(m, other(n.ents[i - 1].first, r), other(n.ents[i - 1].second, r));
		as_orderedmap_set_flags(m, n.flags);
		return (as_val*)m;
	}
	default: return to_val(n);
	}
}

static void text_of(const Node& n, as_val* v, const char* what)
{
	uint64_t before = alloc_count();
	char* s = as_val_tostring(v);
	(void)before;
	if (n.t == BLOB && n.s.empty()) {
		VF_CHECK(s == NULL || *s == 0, "empty-bytes", "text of empty bytes is '%.20s'", s);
		if (s) cf_free(s);
		return;
	}
	VF_CHECK(s, "null", "%s: no text for %s", what, show(n).c_str());
	const char* p = s;
	std::string why;
	VF_CHECK(read(p, n, why), "text", "%s: text of %s: %s", what, show(n).c_str(), why.c_str());
	VF_CHECK(*p == 0, "tail", "%s: text of %s goes on with '%.40s'", what, show(n).c_str(), p);
	cf_free(s);
	count("texts");
}

static void whole(const Node& n, Rng& r, const char* what)
{
	int64_t live = live_allocs();
	as_val* v = to_val(n);
	as_val* w = other(n, r);
	text_of(n, v, what);
	text_of(n, w, what);
	uint32_t h = as_val_hashcode(v), h2 = as_val_hashcode(w);
	VF_CHECK(h == h2, "hash", "equal values hash to %u and %u: %s", h, h2, show(n).c_str());
	VF_CHECK(h == as_val_hashcode(v), "hash-stable", "hash changes between calls");
	count("hashes");
	std::string why;
	VF_CHECK(same(n, v, why), "changed", "value changed by printing or hashing: %s", why.c_str());
	// as part of a pair
	as_pair* p = as_pair_new(v, w);
	char* s = as_val_tostring(p);
	VF_CHECK(s, "null", "no text for a pair");
	const char* q = s;
	VF_CHECK(lit(q, "(", why) && read(q, n, why) && lit(q, ", ", why) && read(q, n, why) && lit(q, ")", why), "pair", "text of a pair of %s: %s", show(n).c_str(), why.c_str());
	VF_CHECK(*q == 0, "pair-tail", "text of a pair goes on with '%.40s'", q);
	cf_free(s);
	as_val_destroy(p);
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks left", (long long)(live_allocs() - live));
}

// Containers whose text length passes every size around the growth points.
static Node sized(uint64_t i, Rng& r)
{
	Node n;
	size_t total = i % 1600;
	int parts = 1 + (int)(i / 1600 % 4);
	bool map = (i / 6400) & 1;
	n.t = map ? MAP : LIST;
	if (map) n.flags = 1;
	for (int k = 0; k < parts; k++) {
		Node s;
		s.t = STR;
		size_t len = k + 1 < parts ? r.below(total / (size_t)parts + 1) : total;
		if (k + 1 < parts) total -= std::min(total, len);
		s.s = Bytes(len, (char)('a' + k));
		if (map) {
			Node key;
			key.t = INT;
			key.i = k;
			if (r.chance(1, 2)) { key = Node(); key.t = STR; key.s = Bytes(1, (char)('a' + k)) + Bytes(s.s.size() / 2, 'k'); s.s.resize(s.s.size() - s.s.size() / 2); }
			n.ents.emplace_back(key, s);
		}
		else n.kids.push_back(s);
	}
	if (map) sort_map(n);
	if (r.chance(1, 5)) { Node o; o.t = LIST; o.kids.push_back(n); o.kids.push_back(n); return o; }
	return n;
}

static void one(uint64_t idx, Rng& r)
{
	Node n;
	g_cells = 0;
	if (idx % 3 == 0) {
		scenario("sizes");
		n = sized(idx / 3, r);
		whole(n, r, "sized");
	}
	else {
		scenario("values");
		Opt o;
		o.maxlen = r.chance(1, 60) ? 70000 : r.chance(1, 8) ? 3000 : 60;
		o.maxdepth = (int)r.range(1, o.maxlen > 60 ? 2 : 4);
		o.maxkids = r.chance(1, 30) && o.maxlen == 60 && o.maxdepth < 3 ? 60 : 5;
		o.wild = true;
		n = gen_tree(r, o);
		whole(n, r, "generated");
	}
	if (idx < 6) sample("%s", show(n).substr(0, 120).c_str());
	if (idx % 50 == 1) {
		scenario("deep");
		Node d;
		d.t = INT;
		d.i = 7;
		for (uint64_t k = r.below(300); k; k--) {
			Node o;
			if (r.chance(1, 2)) { o.t = LIST; o.kids.push_back(d); }
			else { o.t = MAP; Node key; key.t = INT; key.i = (int64_t)k; o.ents.emplace_back(key, d); }
			d = std::move(o);
		}
		whole(d, r, "deep");
		count("deep");
	}
	if (idx % 400 == 3) {
		scenario("record");
		as_rec* rec = as_rec_new(NULL, NULL);
		char* s = as_val_tostring(rec);
		VF_CHECK(s && *s, "rec", "no text for a record");
		cf_free(s);
		as_rec_destroy(rec);
		VF_CHECK(as_val_tostring(NULL) == NULL && as_val_hashcode(NULL) == 0, "null-value", "text or hash of no value");
	}
	if (idx % 500 == 4) {
		// more bytes than a 32-bit text length can express; memory for the text is refused
		scenario("giant");
		static const uint32_t sizes[] = {1u << 30, (1u << 30) + 1, 1u << 31, UINT32_MAX, UINT32_MAX / 3 + 1, UINT32_MAX / 4 + 1, UINT32_MAX / 3, (1u << 30) + 4096};
		uint32_t sz = r.chance(1, 2) ? sizes[r.below(8)] : (uint32_t)r.range(1 << 28, UINT32_MAX);
		void* p = mmap(NULL, sz, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p != MAP_FAILED) {
			as_bytes b;
			as_bytes_init_wrap(&b, (uint8_t*)p, sz, false);
			max_single_alloc(16u << 20);
			char* s = as_val_tostring(&b);
			max_single_alloc(0);
			VF_CHECK(!s, "giant", "the text of %u bytes fitted into 16 MB", sz);
			as_bytes_destroy(&b);
			munmap(p, sz);
			count("giant");
		}
	}
	count("cells", (uint64_t)g_cells);
	seen("distinct", hash_bytes(enc(n).data(), enc(n).size()));
	count("evals");
}

int main(int argc, char** argv)
{
	floor_of("texts", 2000); floor_of("hashes", 1000); floor_of("deep", 20);
	return run(argc, argv, 60000, 1000000, one);
}
