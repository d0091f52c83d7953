// P32: checked conversions and accessors of values. One value of a random kind
// is made one of the ways the library offers, and everything that can be asked
// of it is compared with what it was made from.
#include "vf.hpp"
extern "C" {
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_msgpack_ext.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_string.h>
#include <aerospike/as_val.h>
#include <citrusleaf/alloc.h>
}
#include <string>
#include <vector>
using namespace vf;

enum Kind { NIL, BOOL_CONST, BOOL, INT, DBL, STR, GEO, BYTES, LIST, MAP, REC, PAIR, WILD, INF, NKIND };
static const as_val_type_e TYPE[NKIND] = { AS_NIL, AS_BOOLEAN, AS_BOOLEAN, AS_INTEGER, AS_DOUBLE, AS_STRING, AS_GEOJSON, AS_BYTES, AS_LIST, AS_MAP, AS_REC, AS_PAIR, AS_CMP_WILDCARD, AS_CMP_INF };
static const char* const NAME[NKIND] = { "nil", "boolean constant", "boolean", "integer", "double", "string", "geojson", "bytes", "list", "map", "record", "pair", "wildcard", "infinity" };

struct Made {
	Kind k;
	as_val* v;
	bool heap;			// made by _new
	int64_t i = 0;
	double d = 0;
	bool b = false;
	std::string text;
	bool none = false;	// made without contents
	char* buf = nullptr;	// what was handed over
	bool owned = false;
	as_val* a1 = nullptr;
	as_val* a2 = nullptr;
	as_bytes_type bt = AS_BYTES_BLOB;
	uint32_t size = 0;
};

static int64_t number(Rng& r)
{
	switch (r.below(6)) {
	case 0: return 0;
	case 1: return (int64_t)r.below(3) - 1;
	case 2: return (int64_t)(1ULL << r.below(64));
	case 3: return (int64_t)(r.u64() << (8 * r.below(8)));	// only high bytes set
	case 4: return (int64_t)r.u32();
	default: return (int64_t)r.u64();
	}
}
static double real(Rng& r)
{
	static const double t[] = { 0.0, -0.0, 1.0, -1.5, 1e308, 5e-324, 9007199254740993.0, -1e-9 };
	if (r.chance(1, 2)) return t[r.below(8)];
	uint64_t u = r.u64(); double d; memcpy(&d, &u, 8);
	return d == d ? d : 0.25;
}

// The storage of values made in place; one of each is enough.
union Room { as_boolean b; as_integer i; as_double d; as_string s; as_geojson g; as_bytes y; as_arraylist l; as_orderedmap m; as_rec c; as_pair p; };

static Made make(Rng& r, Room& at)
{
	Made m;
	m.k = (Kind)r.below(NKIND);
	m.heap = r.chance(1, 2);
	memset((void*)&at, r.chance(1, 2) ? 0xa5 : 0xff, sizeof at);
	switch (m.k) {
	case NIL: m.v = (as_val*)&as_nil; break;
	case WILD: m.v = (as_val*)&as_cmp_wildcard; break;
	case INF: m.v = (as_val*)&as_cmp_inf; break;
	case BOOL_CONST: m.b = r.chance(1, 2); m.v = (as_val*)(m.b ? &as_true : &as_false); break;
	case BOOL: m.b = r.chance(1, 2); m.v = (as_val*)(m.heap ? as_boolean_new(m.b) : as_boolean_init(&at.b, m.b)); break;
	case INT: m.i = number(r); m.v = (as_val*)(m.heap ? as_integer_new(m.i) : as_integer_init(&at.i, m.i)); break;
	case DBL: m.d = real(r); m.v = (as_val*)(m.heap ? as_double_new(m.d) : as_double_init(&at.d, m.d)); break;
	case STR: case GEO: {
		size_t n = r.chance(1, 8) ? r.range(200, 70000) : r.below(40);
		for (size_t i = 0; i < n; i++) m.text.push_back((char)r.range(1, 255));
		m.none = r.chance(1, 12);
		bool wlen = r.chance(1, 2), dup = !m.none && r.chance(1, 4);
		if (dup) {
			m.v = m.k == STR ? (as_val*)as_string_new_strdup(m.text.c_str()) : (as_val*)as_geojson_new_strdup(m.text.c_str());
			m.heap = true;
			m.owned = true;
			break;
		}
		m.owned = !m.none && r.chance(1, 2);
		m.buf = m.none ? nullptr : (char*)cf_malloc(n + 1);
		if (m.buf) memcpy(m.buf, m.text.c_str(), n + 1);
		size_t len = m.none ? 0 : n;
		if (m.k == STR) m.v = (as_val*)(m.heap ? (wlen ? as_string_new_wlen(m.buf, len, m.owned) : as_string_new(m.buf, m.owned)) : (wlen ? as_string_init_wlen(&at.s, m.buf, len, m.owned) : as_string_init(&at.s, m.buf, m.owned)));
		else m.v = (as_val*)(m.heap ? (wlen ? as_geojson_new_wlen(m.buf, len, m.owned) : as_geojson_new(m.buf, m.owned)) : (wlen ? as_geojson_init_wlen(&at.g, m.buf, len, m.owned) : as_geojson_init(&at.g, m.buf, m.owned)));
		break;
	}
	case BYTES:
		m.size = r.chance(1, 8) ? (uint32_t)r.range(200, 70000) : (uint32_t)r.range(1, 40);
		if (r.chance(1, 2)) {
			m.owned = r.chance(1, 2);
			m.buf = (char*)cf_malloc(m.size);
			r.fill(m.buf, m.size);
			m.text.assign(m.buf, m.size);
			m.v = (as_val*)(m.heap ? as_bytes_new_wrap((uint8_t*)m.buf, m.size, m.owned) : as_bytes_init_wrap(&at.y, (uint8_t*)m.buf, m.size, m.owned));
		}
		else {
			m.owned = true;
			as_bytes* y = m.heap ? as_bytes_new(m.size) : as_bytes_init(&at.y, m.size);
			VF_CHECK(y, "make", "no byte buffer");
			VF_CHECK(as_bytes_size(y) == 0, "bytes-size", "a new byte buffer has size %u", as_bytes_size(y));
			std::vector<uint8_t> c(m.size);
			r.fill(c.data(), m.size);
			m.text.assign((char*)c.data(), m.size);
			VF_CHECK(as_bytes_append(y, c.data(), m.size), "make", "append");
			m.v = (as_val*)y;
		}
		break;
	case LIST: { as_arraylist* l = m.heap ? as_arraylist_new(4, 4) : as_arraylist_init(&at.l, 4, 4); m.v = (as_val*)l; for (uint64_t n = r.below(4); n; n--) { as_arraylist_append_int64(l, 7); m.size++; } break; }
	case MAP: {
		as_orderedmap* p = r.chance(1, 2) ? (m.heap ? as_orderedmap_new(4) : as_orderedmap_init(&at.m, 4)) : (m.heap ? as_hashmap_new(4) : as_hashmap_init(&at.m, 4));
		m.v = (as_val*)p;
		for (uint64_t n = r.below(4); n; n--) { as_orderedmap_set(p, (as_val*)as_integer_new((int64_t)n), (as_val*)as_integer_new(1)); m.size++; }
		break;
	}
	case REC: m.v = (as_val*)(m.heap ? as_rec_new(&at, nullptr) : as_rec_init(&at.c, &at, nullptr)); break;
	case PAIR:
		m.a1 = r.chance(1, 8) ? nullptr : (as_val*)as_integer_new(1);
		m.a2 = r.chance(1, 8) ? nullptr : (as_val*)as_string_new_strdup("two");
		m.v = (as_val*)(m.heap ? as_pair_new(m.a1, m.a2) : as_pair_init(&at.p, m.a1, m.a2));
		break;
	default: m.v = nullptr;
	}
	VF_CHECK(m.v, "make", "no %s", NAME[m.k]);
	return m;
}

// Every conversion, of this value or of nothing.
static void conversions(const as_val* v, as_val_type_e t)
{
	struct { const char* name; as_val_type_e t; const void* got; } c[] = {
		{ "boolean", AS_BOOLEAN, as_boolean_fromval(v) }, { "integer", AS_INTEGER, as_integer_fromval(v) }, { "double", AS_DOUBLE, as_double_fromval(v) },
		{ "string", AS_STRING, as_string_fromval(v) }, { "geojson", AS_GEOJSON, as_geojson_fromval(v) }, { "bytes", AS_BYTES, as_bytes_fromval(v) },
		{ "list", AS_LIST, as_list_fromval((as_val*)v) }, { "map", AS_MAP, as_map_fromval(v) }, { "record", AS_REC, as_rec_fromval(v) }, { "pair", AS_PAIR, as_pair_fromval(v) },
	};
	for (auto& x : c) {
		const void* want = x.t == t ? v : nullptr;
		VF_CHECK(x.got == want, "conversion", "a value of type %d taken as %s gave %s", (int)t, x.name, x.got == v ? "the value" : x.got ? "something else" : "nothing");
		count(want ? "accepted" : "refused");
	}
	VF_CHECK(as_val_type(v) == t, "type", "type is %d, expected %d", (int)as_val_type(v), (int)t);
}

static void contents(Rng& r, Made& m)
{
	int64_t fi = number(r);
	double fd = real(r);
	char fs[] = "fallback";
	bool fb = r.chance(1, 2);
	const as_val* v = m.v;
	switch (m.k) {
	case BOOL_CONST: case BOOL: {
		const as_boolean* b = as_boolean_fromval(v);
		VF_CHECK(as_boolean_get(b) == m.b && as_boolean_tobool(b) == m.b && as_boolean_getorelse(b, !m.b) == m.b, "boolean", "boolean made as %d", m.b);
		VF_CHECK(as_boolean_toval(b) == v, "toval", "boolean to value");
		break;
	}
	case INT: {
		const as_integer* i = as_integer_fromval(v);
		VF_CHECK(as_integer_get(i) == m.i && as_integer_toint(i) == m.i && as_integer_getorelse(i, ~m.i) == m.i, "integer", "integer made as %ld reads as %ld", (long)m.i, (long)as_integer_get(i));
		VF_CHECK(as_integer_toval(i) == v, "toval", "integer to value");
		break;
	}
	case DBL: {
		const as_double* d = as_double_fromval(v);
		double g = as_double_get(d), e = as_double_getorelse(d, m.d + 1);
		VF_CHECK(!memcmp(&g, &m.d, 8) && !memcmp(&e, &m.d, 8), "double", "double made as %.17g reads as %.17g", m.d, g);
		VF_CHECK(as_double_toval(d) == v, "toval", "double to value");
		break;
	}
	case STR: {
		as_string* s = as_string_fromval(v);
		size_t n = as_string_len(s);
		VF_CHECK(n == (m.none ? 0 : m.text.size()), "length", "string of %zu bytes has length %zu", m.text.size(), n);
		VF_CHECK(as_string_len(s) == n, "length", "string length changed");
		const char* p = as_string_get(s);
		VF_CHECK(p == as_string_tostring(s) && p == as_string_getorelse(s, fs), "string", "the accessors disagree");
		VF_CHECK(m.none ? !p : (p && !strcmp(p, m.text.c_str())), "string", "string contents");
		if (m.buf) VF_CHECK(p == m.buf, "string", "a string does not refer to the text it was given");
		VF_CHECK(as_string_toval(s) == v, "toval", "string to value");
		break;
	}
	case GEO: {
		as_geojson* s = as_geojson_fromval(v);
		size_t n = as_geojson_len(s);
		VF_CHECK(n == (m.none ? 0 : m.text.size()), "length", "geojson of %zu bytes has length %zu", m.text.size(), n);
		const char* p = as_geojson_get(s);
		VF_CHECK(p == as_geojson_getorelse(s, fs), "geojson", "the accessors disagree");
		VF_CHECK(m.none ? !p : (p && !strcmp(p, m.text.c_str())), "geojson", "geojson contents");
		VF_CHECK(as_geojson_toval(s) == v, "toval", "geojson to value");
		break;
	}
	case BYTES: {
		as_bytes* y = as_bytes_fromval(v);
		VF_CHECK(as_bytes_get_type(y) == m.bt, "bytes-type", "kind %d, expected %d", (int)as_bytes_get_type(y), (int)m.bt);
		static const as_bytes_type K[] = { AS_BYTES_UNDEF, AS_BYTES_INTEGER, AS_BYTES_DOUBLE, AS_BYTES_STRING, AS_BYTES_BLOB, AS_BYTES_JAVA, AS_BYTES_PYTHON, AS_BYTES_BOOL, AS_BYTES_HLL, AS_BYTES_MAP, AS_BYTES_LIST, AS_BYTES_GEOJSON };
		m.bt = K[r.below(sizeof K / sizeof *K)];
		as_bytes_set_type(y, m.bt);
		VF_CHECK(as_bytes_get_type(y) == m.bt, "bytes-type", "kind %d set, %d read", (int)m.bt, (int)as_bytes_get_type(y));
		uint32_t n = 0;
		const uint8_t* p = as_bytes_tobytes(y, &n);
		VF_CHECK(n == m.text.size() && as_bytes_size(y) == n && as_bytes_capacity(y) >= n, "bytes-size", "size %u of %zu", n, m.text.size());
		VF_CHECK(p == as_bytes_get(y) && p == as_bytes_getorelse(y, (uint8_t*)fs), "bytes", "the accessors disagree");
		VF_CHECK(!memcmp(p, m.text.data(), n), "bytes", "bytes contents");
		VF_CHECK(as_bytes_toval(y) == v, "toval", "bytes to value");
		break;
	}
	case LIST: VF_CHECK(as_list_size(as_list_fromval((as_val*)v)) == m.size && as_list_toval(as_list_fromval((as_val*)v)) == v, "toval", "list"); break;
	case MAP: VF_CHECK(as_map_size(as_map_fromval(v)) == m.size && as_map_toval(as_map_fromval(v)) == v, "toval", "map"); break;
	case REC: VF_CHECK(as_rec_toval(as_rec_fromval(v)) == v, "toval", "record"); break;
	case PAIR: {
		as_pair* p = as_pair_fromval(v);
		VF_CHECK(as_pair_1(p) == m.a1 && as_pair_2(p) == m.a2, "pair", "pair members");
		VF_CHECK(as_pair_toval(p) == v, "toval", "pair to value");
		break;
	}
	default: break;
	}
	bool truth = (m.k == BOOL || m.k == BOOL_CONST) ? m.b : m.k == INT ? m.i != 0 : false;
	VF_CHECK(as_val_tobool(v) == truth, "truth", "%s (%ld) counts as %s", NAME[m.k], (long)m.i, truth ? "false" : "true");
	// nothing gives the fallback
	VF_CHECK(as_boolean_getorelse(nullptr, fb) == fb && !as_boolean_get(nullptr) && !as_boolean_tobool(nullptr), "fallback", "boolean");
	VF_CHECK(as_integer_getorelse(nullptr, fi) == fi && as_integer_get(nullptr) == 0 && as_integer_toint(nullptr) == 0, "fallback", "integer");
	double gd = as_double_getorelse(nullptr, fd);
	VF_CHECK(!memcmp(&gd, &fd, 8) && as_double_get(nullptr) == 0.0, "fallback", "double");
	VF_CHECK(as_string_getorelse(nullptr, fs) == fs && !as_string_get(nullptr) && !as_string_tostring(nullptr), "fallback", "string");
	VF_CHECK(as_geojson_getorelse(nullptr, fs) == fs && !as_geojson_get(nullptr), "fallback", "geojson");
	VF_CHECK(as_bytes_getorelse(nullptr, (uint8_t*)fs) == (uint8_t*)fs && !as_bytes_get(nullptr), "fallback", "bytes");
	VF_CHECK(!as_pair_1(nullptr) && !as_pair_2(nullptr), "fallback", "pair");
	VF_CHECK(!as_val_tobool(nullptr), "fallback", "truth of nothing");
	VF_CHECK(!as_val_reserve(nullptr) && !as_val_destroy(nullptr) && as_val_hashcode(nullptr) == 0 && !as_val_tostring(nullptr), "fallback", "nothing as a value");
	uint32_t z = 77;
	VF_CHECK(!as_bytes_tobytes(nullptr, &z), "fallback", "bytes of nothing");
}

// Each type has a release of its own; none of them differs from the general one.
static void typed_destroy(Kind k, as_val* v)
{
	switch (k) {
	case BOOL_CONST: case BOOL: as_boolean_destroy((as_boolean*)v); break;
	case INT: as_integer_destroy((as_integer*)v); break;
	case DBL: as_double_destroy((as_double*)v); break;
	case STR: as_string_destroy((as_string*)v); break;
	case GEO: as_geojson_destroy((as_geojson*)v); break;
	case BYTES: as_bytes_destroy((as_bytes*)v); break;
	case LIST: as_list_destroy((as_list*)v); break;
	case MAP: as_map_destroy((as_map*)v); break;
	case REC: as_rec_destroy((as_rec*)v); break;
	case PAIR: as_pair_destroy((as_pair*)v); break;
	default: as_val_destroy(v); break;
	}
	count("typed");
}

static void one(uint64_t idx, Rng& r)
{
	int64_t live = live_allocs();
	scenario("value");
	Room at;
	Made m = make(r, at);
	trace("%s %s", NAME[m.k], m.heap ? "new" : "in place");
	if (idx < 4) sample("%s made %s, %zu bytes of contents", NAME[m.k], m.heap ? "on the heap" : "in place", m.text.size());
	conversions(m.v, TYPE[m.k]);
	conversions(nullptr, AS_UNDEF);
	contents(r, m);
	bool constant = m.k == NIL || m.k == BOOL_CONST || m.k == WILD || m.k == INF;
	// references: each destroy but the last leaves the value as it is
	int refs = (int)r.below(4);
	for (int i = 0; i < refs; i++) VF_CHECK(as_val_reserve(m.v) == m.v, "reserve", "reserving gave another value");
	for (int i = 0; i < refs; i++) {
		if (r.chance(1, 3)) { typed_destroy(m.k, m.v); continue; }
		as_val* left = as_val_destroy(m.v);
		VF_CHECK(left == m.v, "kept", "%s gone with %d references left", NAME[m.k], refs - i);
	}
	conversions(m.v, TYPE[m.k]);
	contents(r, m);
	as_val* left = NULL;
	if (!constant && r.chance(1, 3)) typed_destroy(m.k, m.v);
	else left = as_val_destroy(m.v);
	if (constant) {
		VF_CHECK(left == m.v, "constant", "the constant %s was destroyed", NAME[m.k]);
		for (int i = 0; i < 3; i++) as_val_destroy(m.v);
		conversions(m.v, TYPE[m.k]);
		contents(r, m);
		VF_CHECK(as_val_reserve(m.v) == m.v, "reserve", "reserving gave another value");
		VF_CHECK(as_val_destroy(m.v) == m.v, "constant", "the constant %s was destroyed", NAME[m.k]);
	}
	else VF_CHECK(!left, "last", "destroying the last reference to a %s left it", NAME[m.k]);
	if (m.buf && !m.owned) {
		VF_CHECK(!memcmp(m.buf, m.text.data(), m.text.size()), "borrowed", "borrowed contents of a %s were changed", NAME[m.k]);
		cf_free(m.buf);
	}
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks left after a %s", (long long)(live_allocs() - live), NAME[m.k]);
	seen("distinct", hash2(hash2((uint64_t)m.k, (uint64_t)m.heap * 8 + m.owned * 4 + m.none * 2), hash2(hash_bytes(m.text.data(), m.text.size()), hash2((uint64_t)m.i, (uint64_t)m.b))));
	seen("kinds", (uint64_t)m.k);
	count(NAME[m.k]);
	count("evals");
}

int main(int argc, char** argv)
{
	floor_of("accepted", 1000); floor_of("refused", 1000);
	return run(argc, argv, 40000, 2000000, one);
}
