// Value trees: an independent model, generators, a reference MessagePack encoder,
// construction of as_val trees and structural comparison with them.
#pragma once
#include "vf.hpp"
#include <algorithm>
#include <map>
#include <math.h>
extern "C" {
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_list.h>
#include <aerospike/as_map.h>
#include <aerospike/as_msgpack.h>
#include <aerospike/as_msgpack_ext.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_pair.h>
#include <aerospike/as_string.h>
#include <aerospike/as_val.h>
#include <citrusleaf/alloc.h>
}

namespace gen {
using vf::Rng;
typedef std::string Bytes;

enum T { NIL, BOOL, INT, DBL, STR, GEO, BLOB, LIST, MAP, WILD, INF };

struct Node {
	T t = NIL;
	bool b = false;
	int64_t i = 0;
	double d = 0;
	Bytes s;
	uint8_t bt = AS_BYTES_BLOB;
	std::vector<Node> kids;							// LIST
	std::vector<std::pair<Node, Node>> ents;		// MAP, ascending by key
	uint32_t flags = 0;								// MAP
};

inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

inline int rank(T t)
{
	switch (t) {
	case NIL: return 1; case BOOL: return 2; case INT: return 3; case STR: return 4; case LIST: return 5;
	case MAP: return 6; case BLOB: return 9; case DBL: return 10; case GEO: return 11; case WILD: return 13; case INF: return 14;
	}
	return 0;
}

// Reference order: -1, 0, 1.  'wild' is set when a wildcard decided.
inline int cmp_bytes(const Bytes& a, const Bytes& b)
{
	size_t n = std::min(a.size(), b.size());
	int c = n ? memcmp(a.data(), b.data(), n) : 0;
	if (c) return c < 0 ? -1 : 1;
	return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
inline int ref_cmp(const Node& a, const Node& b)
{
	if (a.t == WILD || b.t == WILD) return 0;
	if (a.t != b.t) return rank(a.t) < rank(b.t) ? -1 : 1;
	switch (a.t) {
	case NIL: case INF: case WILD: return 0;
	case BOOL: return a.b == b.b ? 0 : a.b < b.b ? -1 : 1;
	case INT: return a.i == b.i ? 0 : a.i < b.i ? -1 : 1;
	case DBL: return a.d < b.d ? -1 : a.d > b.d ? 1 : 0;
	case STR: case GEO: case BLOB: return cmp_bytes(a.s, b.s);
	case LIST: {
		size_t n = std::min(a.kids.size(), b.kids.size());
		for (size_t i = 0; i < n; i++) {
			if (a.kids[i].t == WILD || b.kids[i].t == WILD) return 0;
			int c = ref_cmp(a.kids[i], b.kids[i]);
			if (c) return c;
		}
		return a.kids.size() < b.kids.size() ? -1 : a.kids.size() > b.kids.size() ? 1 : 0;
	}
	case MAP: {
		if (a.ents.size() != b.ents.size()) return a.ents.size() < b.ents.size() ? -1 : 1;
		for (size_t i = 0; i < a.ents.size(); i++) {
			int c = ref_cmp(a.ents[i].first, b.ents[i].first);
			if (c) return c;
			const Node& x = a.ents[i].second;
			const Node& y = b.ents[i].second;
			if (x.t == WILD || y.t == WILD) return 0;
			c = ref_cmp(x, y);
			if (c) return c;
		}
		return 0;
	}
	}
	return 0;
}
inline bool key_less(const Node& a, const Node& b) { return ref_cmp(a, b) < 0; }

// ------------------------------------------------------------------ generators
inline int64_t gen_int(Rng& r)
{
	switch (r.below(4)) {
	case 0: {
		static const int sh[] = {0, 5, 6, 7, 8, 15, 16, 31, 32, 62, 63};
		uint64_t v = 1ULL << sh[r.below(sizeof sh / sizeof sh[0])];
		v += (uint64_t)r.range(-2, 2);
		return (int64_t)(r.chance(1, 2) ? v : 0 - v);
	}
	case 1: return r.range(-40, 140);
	case 2: { uint64_t v = r.u64() >> r.below(64); return (int64_t)(r.chance(1, 2) ? v : 0 - v); }
	default: { static const int64_t k[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, UINT32_MAX, 127, 128, 255, 256, -32, -33, -128, -129, 65535, 65536, -32768, -32769};
		return k[r.below(sizeof k / sizeof k[0])]; }
	}
}
inline double gen_double(Rng& r, bool nan_ok = true)
{
	for (;;) {
		double d;
		switch (r.below(5)) {
		case 0: { uint64_t u = r.u64(); memcpy(&d, &u, 8); break; }
		case 1: { static const double k[] = {0.0, -0.0, 1, -1, 0.5, 1e300, -1e300, 5e-324, INFINITY, -INFINITY, NAN, 3.14, 1e15, 123456789.125};
			d = k[r.below(sizeof k / sizeof k[0])]; break; }
		case 2: { float f; uint32_t u = r.u32(); memcpy(&f, &u, 4); d = f; break; }
		case 3: d = (double)r.range(-1000, 1000); break;
		default: d = (double)r.range(-1000000, 1000000) / 64.0; break;
		}
		if (isnan(d)) {
			if (!nan_ok) continue;
			uint64_t u = dbits(d) | 0x0008000000000000ULL;	// quiet: loads must not be expected to keep signalling NaNs
			memcpy(&d, &u, 8);
		}
		return d;
	}
}
inline size_t gen_len(Rng& r, size_t maxlen)
{
	size_t n;
	switch (r.below(10)) {
	case 0: n = 0; break;
	case 1: n = (size_t)r.range(28, 34); break;
	case 2: n = (size_t)r.range(252, 258); break;
	case 3: n = (size_t)r.range(8180, 8195); break;
	case 4: n = (size_t)r.range(65530, 65538); break;
	case 5: n = (size_t)r.below(300); break;
	case 6: n = (size_t)r.below(20000); break;
	default: n = (size_t)r.below(40); break;
	}
	return n > maxlen ? (size_t)r.below(maxlen + 1) : n;
}
inline Bytes gen_text(Rng& r, size_t n)
{
	Bytes s(n, 0);
	int mode = (int)r.below(3);
	for (auto& c : s) {
		if (mode == 0) c = (char)('a' + r.below(26));
		else if (mode == 1) c = (char)(1 + r.below(255));
		else c = (char)('a' + r.below(2));
	}
	return s;
}
inline Bytes gen_blob(Rng& r, size_t n)
{
	Bytes s(n, 0);
	if (n) r.fill(&s[0], n);
	return s;
}
inline uint8_t gen_btype(Rng& r)
{
	for (;;) {
		uint8_t t = r.chance(1, 2) ? AS_BYTES_BLOB : r.chance(1, 4) ? (uint8_t)r.u64() : (uint8_t)r.below(25);
		if (t != AS_BYTES_STRING && t != AS_BYTES_GEOJSON) return t;
	}
}

struct Opt {
	size_t maxlen = 300;		// string/blob length
	int maxkids = 6;
	int maxdepth = 5;
	bool nan = true;
	bool wild = false;
	bool geo = true;
	int map_flags = -1;			// -1: any
	bool small = false;			// draw from a small universe so that equal values occur
	int big = 0;				// 1/big chance of a container across a header-width boundary
};

inline uint32_t gen_flags(Rng& r, const Opt& o)
{
	if (o.map_flags >= 0) return (uint32_t)o.map_flags;
	static const uint32_t k[] = {0, 0, 1, 3, 0x11, 0x13};
	return k[r.below(6)];
}

inline Node gen_scalar(Rng& r, const Opt& o)
{
	Node n;
	switch (r.below(o.geo ? 8 : 7)) {
	case 0: n.t = NIL; break;
	case 1: n.t = BOOL; n.b = r.chance(1, 2); break;
	case 2: case 3: n.t = INT; n.i = o.small ? r.range(-2, 2) : gen_int(r); break;
	case 4: n.t = DBL; n.d = o.small ? (double)r.range(-2, 2) / 2 : gen_double(r, o.nan); break;
	case 5: n.t = STR; n.s = gen_text(r, o.small ? r.below(3) : gen_len(r, o.maxlen)); if (o.small) for (auto& c : n.s) c = (char)('a' + r.below(2)); break;
	case 6: n.t = BLOB; n.s = gen_blob(r, o.small ? r.below(3) : gen_len(r, o.maxlen)); if (o.small) for (auto& c : n.s) c = (char)r.below(2); n.bt = gen_btype(r); break;
	default: n.t = GEO; n.s = gen_text(r, o.small ? r.below(3) : gen_len(r, o.maxlen)); if (o.small) for (auto& c : n.s) c = (char)('a' + r.below(2)); break;
	}
	if (o.wild && r.chance(1, 12)) { n = Node(); n.t = r.chance(1, 2) ? WILD : INF; }
	return n;
}
inline Node gen_key(Rng& r, const Opt& o)
{
	Node n;
	switch (r.below(3)) {
	case 0: n.t = INT; n.i = o.small ? r.range(-2, 2) : gen_int(r); break;
	case 1: n.t = STR; n.s = gen_text(r, o.small ? r.below(3) : gen_len(r, std::min<size_t>(o.maxlen, 70))); if (o.small) for (auto& c : n.s) c = (char)('a' + r.below(2)); break;
	default: n.t = BLOB; n.s = gen_blob(r, o.small ? r.below(3) : gen_len(r, std::min<size_t>(o.maxlen, 70))); if (o.small) for (auto& c : n.s) c = (char)r.below(2); n.bt = AS_BYTES_BLOB; break;
	}
	return n;
}
inline void sort_map(Node& m)
{
	std::stable_sort(m.ents.begin(), m.ents.end(), [](const std::pair<Node, Node>& a, const std::pair<Node, Node>& b) { return key_less(a.first, b.first); });
	std::vector<std::pair<Node, Node>> u;
	for (auto& e : m.ents) if (u.empty() || ref_cmp(u.back().first, e.first) != 0) u.push_back(std::move(e));
	m.ents.swap(u);
}
inline Node gen_tree(Rng& r, const Opt& o, int depth = 0)
{
	if (depth >= o.maxdepth || r.chance(1, depth == 0 ? 5 : 2)) return gen_scalar(r, o);
	Node n;
	size_t k = r.below((uint64_t)o.maxkids + 1);
	bool big = o.big && r.chance(1, (uint32_t)o.big);
	if (big) {
		static const size_t w[] = {14, 15, 16, 17, 65534, 65535, 65536, 65537};
		k = w[r.below(8)];
	}
	if (r.chance(1, 2)) {
		n.t = LIST;
		for (size_t i = 0; i < k; i++) {
			if (big) { Node c; c.t = INT; c.i = r.range(-40, 300); n.kids.push_back(c); }
			else n.kids.push_back(gen_tree(r, o, depth + 1));
		}
	}
	else {
		n.t = MAP;
		n.flags = gen_flags(r, o);
		for (size_t i = 0; i < k; i++) {
			if (big) { Node c, v; c.t = INT; c.i = (int64_t)i - 50; v.t = BOOL; v.b = i & 1; n.ents.emplace_back(c, v); }
			else { Node key = gen_key(r, o); n.ents.emplace_back(std::move(key), gen_tree(r, o, depth + 1)); }
		}
		sort_map(n);
	}
	return n;
}

// ------------------------------------------------------------------ wire format
inline void put(Bytes& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) o += (char)(v >> (8 * i)); }
inline void hdr_str(Bytes& o, uint64_t n, int w = 0)
{
	if (!w) w = n < 32 ? 1 : n < 256 ? 2 : n < 65536 ? 3 : 5;
	if (w == 1) o += (char)(0xa0 | n);
	else if (w == 2) { o += (char)0xd9; put(o, n, 1); }
	else if (w == 3) { o += (char)0xda; put(o, n, 2); }
	else { o += (char)0xdb; put(o, n, 4); }
}
inline void hdr_bin(Bytes& o, uint64_t n, int w = 0)
{
	if (!w) w = n < 256 ? 2 : n < 65536 ? 3 : 5;
	if (w == 2) { o += (char)0xc4; put(o, n, 1); }
	else if (w == 3) { o += (char)0xc5; put(o, n, 2); }
	else { o += (char)0xc6; put(o, n, 4); }
}
inline void hdr_list(Bytes& o, uint64_t n, int w = 0)
{
	if (!w) w = n < 16 ? 1 : n < 65536 ? 3 : 5;
	if (w == 1) o += (char)(0x90 | n);
	else if (w == 3) { o += (char)0xdc; put(o, n, 2); }
	else { o += (char)0xdd; put(o, n, 4); }
}
inline void hdr_map(Bytes& o, uint64_t n, int w = 0)
{
	if (!w) w = n < 16 ? 1 : n < 65536 ? 3 : 5;
	if (w == 1) o += (char)(0x80 | n);
	else if (w == 3) { o += (char)0xde; put(o, n, 2); }
	else { o += (char)0xdf; put(o, n, 4); }
}
inline void enc_uint(Bytes& o, uint64_t v)
{
	if (v < 128) o += (char)v;
	else if (v < 256) { o += (char)0xcc; put(o, v, 1); }
	else if (v < 65536) { o += (char)0xcd; put(o, v, 2); }
	else if (v < (1ULL << 32)) { o += (char)0xce; put(o, v, 4); }
	else { o += (char)0xcf; put(o, v, 8); }
}
inline void enc_int(Bytes& o, int64_t v)
{
	if (v >= 0) enc_uint(o, (uint64_t)v);
	else if (v >= -32) o += (char)(0xe0 | (v & 0x1f));
	else if (v >= -128) { o += (char)0xd0; put(o, (uint64_t)v, 1); }
	else if (v >= -32768) { o += (char)0xd1; put(o, (uint64_t)v, 2); }
	else if (v >= -2147483648LL) { o += (char)0xd2; put(o, (uint64_t)v, 4); }
	else { o += (char)0xd3; put(o, (uint64_t)v, 8); }
}
inline void hdr_ext(Bytes& o, uint64_t n, uint8_t type)
{
	switch (n) {
	case 1: o += (char)0xd4; break; case 2: o += (char)0xd5; break; case 4: o += (char)0xd6; break;
	case 8: o += (char)0xd7; break; case 16: o += (char)0xd8; break;
	default:
		if (n < 256) { o += (char)0xc7; put(o, n, 1); }
		else if (n < 65536) { o += (char)0xc8; put(o, n, 2); }
		else { o += (char)0xc9; put(o, n, 4); }
	}
	o += (char)type;
}
inline uint8_t type_byte(const Node& n) { return n.t == STR ? AS_BYTES_STRING : n.t == GEO ? AS_BYTES_GEOJSON : n.bt; }

// The standard shortest form.
inline void enc(Bytes& o, const Node& n)
{
	switch (n.t) {
	case NIL: o += (char)0xc0; break;
	case BOOL: o += (char)(n.b ? 0xc3 : 0xc2); break;
	case INT: enc_int(o, n.i); break;
	case DBL: o += (char)0xcb; put(o, dbits(n.d), 8); break;
	case STR: case GEO: case BLOB: hdr_str(o, n.s.size() + 1); o += (char)type_byte(n); o += n.s; break;
	case LIST: hdr_list(o, n.kids.size()); for (auto& k : n.kids) enc(o, k); break;
	case MAP:
		if (n.flags & 1) { hdr_map(o, n.ents.size() + 1); o += (char)0xc7; o += (char)0; o += (char)n.flags; o += (char)0xc0; }
		else hdr_map(o, n.ents.size());
		for (auto& e : n.ents) { enc(o, e.first); enc(o, e.second); }
		break;
	case WILD: o += "\xd4\xff"; o += (char)0; break;
	case INF: o += "\xd4\xff\x01"; break;
	}
}
inline Bytes enc(const Node& n) { Bytes o; enc(o, n); return o; }

inline int wider(Rng& r, int w)		// a legal width not below w, of {1,2,3,5}
{
	static const int ws[] = {1, 2, 3, 5};
	for (;;) { int x = ws[r.below(4)]; if (x >= w) return x; }
}
// Any legal encoding of the same value.
inline void enc_alt(Bytes& o, const Node& n, Rng& r, bool shuffle = true)
{
	switch (n.t) {
	case INT: {
		int64_t v = n.i;
		std::vector<int> f;	// usable formats
		if (v >= 0 && v < 128) f.push_back(0);
		if (v < 0 && v >= -32) f.push_back(0);
		if (v >= 0 && v < 256) f.push_back(0xcc);
		if (v >= 0 && v < 65536) f.push_back(0xcd);
		if (v >= 0 && v < (1LL << 32)) f.push_back(0xce);
		if (v >= 0) f.push_back(0xcf);
		if (v >= -128 && v < 128) f.push_back(0xd0);
		if (v >= -32768 && v < 32768) f.push_back(0xd1);
		if (v >= -2147483648LL && v < 2147483648LL) f.push_back(0xd2);
		f.push_back(0xd3);
		int k = f[r.below(f.size())];
		if (k == 0) { o += (char)v; break; }
		o += (char)k;
		put(o, (uint64_t)v, 1 << ((k - 0xcc) & 3));
		break;
	}
	case DBL: {
		float f = (float)n.d;
		if (!isnan(n.d) && dbits((double)f) == dbits(n.d) && r.chance(1, 2)) { uint32_t u; memcpy(&u, &f, 4); o += (char)0xca; put(o, u, 4); }
		else { o += (char)0xcb; put(o, dbits(n.d), 8); }
		break;
	}
	case STR: case GEO: case BLOB: {
		uint64_t k = n.s.size() + 1;
		int w = k < 32 ? 1 : k < 256 ? 2 : k < 65536 ? 3 : 5;
		w = wider(r, w);
		if (w > 1 && r.chance(1, 2)) hdr_bin(o, k, w); else hdr_str(o, k, w);
		o += (char)type_byte(n);
		o += n.s;
		break;
	}
	case LIST: {
		uint64_t k = n.kids.size();
		int w = k < 16 ? 1 : k < 65536 ? 3 : 5;
		do w = wider(r, w); while (w == 2);
		hdr_list(o, k, w);
		for (auto& c : n.kids) enc_alt(o, c, r, shuffle);
		break;
	}
	case MAP: {
		uint64_t k = n.ents.size() + ((n.flags & 1) ? 1 : 0);
		int w = k < 16 ? 1 : k < 65536 ? 3 : 5;
		do w = wider(r, w); while (w == 2);
		hdr_map(o, k, w);
		if (n.flags & 1) {
			// extension of any size as the leading entry, any value with it
			size_t xs = r.chance(2, 3) ? 0 : r.below(20);
			hdr_ext(o, xs, (uint8_t)n.flags);
			o += gen_blob(r, xs);
			if (r.chance(2, 3)) o += (char)0xc0; else enc_int(o, gen_int(r));
		}
		std::vector<size_t> ix(n.ents.size());
		for (size_t i = 0; i < ix.size(); i++) ix[i] = i;
		if (shuffle) for (size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[r.below(i)]);
		for (size_t i : ix) { enc_alt(o, n.ents[i].first, r, shuffle); enc_alt(o, n.ents[i].second, r, shuffle); }
		break;
	}
	default: enc(o, n);
	}
}

// ------------------------------------------------------------------ as_val side
inline char* dup(const Bytes& s)
{
	char* p = (char*)cf_malloc(s.size() + 1);
	memcpy(p, s.data(), s.size());
	p[s.size()] = 0;
	return p;
}
inline as_val* to_val(const Node& n)
{
	switch (n.t) {
	case NIL: return (as_val*)&as_nil;
	case BOOL: return (as_val*)as_boolean_new(n.b);
	case INT: return (as_val*)as_integer_new(n.i);
	case DBL: return (as_val*)as_double_new(n.d);
	case STR: return (as_val*)as_string_new_wlen(dup(n.s), n.s.size(), true);
	case GEO: return (as_val*)as_geojson_new_wlen(dup(n.s), n.s.size(), true);
	case BLOB: {
		as_bytes* b;
		if (n.s.empty()) b = as_bytes_new_wrap(NULL, 0, false);
		else {
			uint8_t* p = (uint8_t*)cf_malloc(n.s.size());
			memcpy(p, n.s.data(), n.s.size());
			b = as_bytes_new_wrap(p, (uint32_t)n.s.size(), true);
		}
		b->type = (as_bytes_type)n.bt;
		return (as_val*)b;
	}
	case LIST: {
		as_arraylist* l = as_arraylist_new((uint32_t)n.kids.size(), 8);
		for (auto& k : n.kids) as_arraylist_append(l, to_val(k));
		return (as_val*)l;
	}
	case MAP: {
		as_orderedmap* m = as_orderedmap_new((uint32_t)n.ents.size());
		for (auto& e : n.ents) as_orderedmap_set(m, to_val(e.first), to_val(e.second));
		as_orderedmap_set_flags(m, n.flags);
		return (as_val*)m;
	}
	case WILD: return (as_val*)&as_cmp_wildcard;
	case INF: return (as_val*)&as_cmp_inf;
	}
	return NULL;
}

struct MapWalk { std::vector<std::pair<const as_val*, const as_val*>> v; };
inline bool map_collect(const as_val* k, const as_val* v, void* u) { ((MapWalk*)u)->v.emplace_back(k, v); return true; }

// Does the as_val equal the model?  On a difference 'why' says where.
inline bool same(const Node& n, const as_val* v, std::string& why)
{
	char b[160];
	if (!v) { why = "NULL value"; return false; }
	int t = as_val_type(v);
	static const int want[] = {AS_NIL, AS_BOOLEAN, AS_INTEGER, AS_DOUBLE, AS_STRING, AS_GEOJSON, AS_BYTES, AS_LIST, AS_MAP, AS_CMP_WILDCARD, AS_CMP_INF};
	if (t != want[n.t]) { snprintf(b, sizeof b, "type %d instead of %d", t, want[n.t]); why = b; return false; }
	switch (n.t) {
	case NIL: case WILD: case INF: return true;
	case BOOL: if (as_boolean_get((const as_boolean*)v) != n.b) { why = "boolean differs"; return false; } return true;
	case INT: {
		int64_t x = as_integer_get((const as_integer*)v);
		if (x != n.i) { snprintf(b, sizeof b, "integer %lld instead of %lld", (long long)x, (long long)n.i); why = b; return false; }
		return true;
	}
	case DBL: {
		double x = as_double_get((const as_double*)v);
		if (dbits(x) != dbits(n.d)) { snprintf(b, sizeof b, "double bits %llx instead of %llx", (unsigned long long)dbits(x), (unsigned long long)dbits(n.d)); why = b; return false; }
		return true;
	}
	case STR: {
		size_t l = as_string_len((as_string*)v);
		const char* p = as_string_get((const as_string*)v);
		if (l != n.s.size() || strlen(p) != l || memcmp(p, n.s.data(), l)) { snprintf(b, sizeof b, "string of %zu differs from string of %zu", l, n.s.size()); why = b; return false; }
		return true;
	}
	case GEO: {
		size_t l = as_geojson_len((as_geojson*)v);
		const char* p = as_geojson_get((const as_geojson*)v);
		if (l != n.s.size() || strlen(p) != l || memcmp(p, n.s.data(), l)) { snprintf(b, sizeof b, "geojson of %zu differs from geojson of %zu", l, n.s.size()); why = b; return false; }
		return true;
	}
	case BLOB: {
		const as_bytes* x = (const as_bytes*)v;
		size_t l = as_bytes_size(x);
		if (l != n.s.size() || (l && memcmp(as_bytes_get(x), n.s.data(), l))) { snprintf(b, sizeof b, "blob of %zu differs from blob of %zu", l, n.s.size()); why = b; return false; }
		if ((uint8_t)as_bytes_get_type(x) != n.bt) { snprintf(b, sizeof b, "blob type %d instead of %d", as_bytes_get_type(x), n.bt); why = b; return false; }
		return true;
	}
	case LIST: {
		const as_list* l = (const as_list*)v;
		if (as_list_size(l) != n.kids.size()) { snprintf(b, sizeof b, "list of %u instead of %zu", as_list_size(l), n.kids.size()); why = b; return false; }
		for (size_t i = 0; i < n.kids.size(); i++)
			if (!same(n.kids[i], as_list_get(l, (uint32_t)i), why)) { snprintf(b, sizeof b, "[%zu] ", i); why = b + why; return false; }
		return true;
	}
	case MAP: {
		const as_map* m = (const as_map*)v;
		if (as_map_size(m) != n.ents.size()) { snprintf(b, sizeof b, "map of %u instead of %zu", as_map_size(m), n.ents.size()); why = b; return false; }
		if (m->flags != n.flags) { snprintf(b, sizeof b, "map flags %x instead of %x", m->flags, n.flags); why = b; return false; }
		MapWalk w;
		as_map_foreach(m, map_collect, &w);
		if (w.v.size() != n.ents.size()) { why = "map visit count"; return false; }
		for (size_t i = 0; i < w.v.size(); i++) {
			if (!same(n.ents[i].first, w.v[i].first, why)) { snprintf(b, sizeof b, "{key %zu} ", i); why = b + why; return false; }
			if (!same(n.ents[i].second, w.v[i].second, why)) { snprintf(b, sizeof b, "{val %zu} ", i); why = b + why; return false; }
		}
		return true;
	}
	}
	return false;
}

inline size_t count_nodes(const Node& n)
{
	size_t c = 1;
	for (auto& k : n.kids) c += count_nodes(k);
	for (auto& e : n.ents) c += 1 + count_nodes(e.second);
	return c;
}

inline std::string show(const Node& n, int depth = 0)
{
	char b[64];
	switch (n.t) {
	case NIL: return "nil";
	case BOOL: return n.b ? "true" : "false";
	case INT: snprintf(b, sizeof b, "%lld", (long long)n.i); return b;
	case DBL: snprintf(b, sizeof b, "dbl(%a)", n.d); return b;
	case STR: snprintf(b, sizeof b, "str[%zu]", n.s.size()); return b;
	case GEO: snprintf(b, sizeof b, "geo[%zu]", n.s.size()); return b;
	case BLOB: snprintf(b, sizeof b, "blob%d[%zu]", n.bt, n.s.size()); return b;
	case WILD: return "*";
	case INF: return "INF";
	case LIST: {
		std::string s = "[";
		for (size_t i = 0; i < n.kids.size() && i < 8 && depth < 6; i++) s += (i ? "," : "") + show(n.kids[i], depth + 1);
		if (n.kids.size() > 8) { snprintf(b, sizeof b, "...%zu", n.kids.size()); s += b; }
		return s + "]";
	}
	case MAP: {
		snprintf(b, sizeof b, "%x{", n.flags);
		std::string s = b;
		for (size_t i = 0; i < n.ents.size() && i < 8 && depth < 6; i++) s += (i ? "," : "") + show(n.ents[i].first, depth + 1) + ":" + show(n.ents[i].second, depth + 1);
		if (n.ents.size() > 8) { snprintf(b, sizeof b, "...%zu", n.ents.size()); s += b; }
		return s + "}";
	}
	}
	return "?";
}
inline std::string hex(const Bytes& s, size_t max = 64)
{
	std::string o;
	char b[4];
	for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%02x", (uint8_t)s[i]); o += b; }
	if (s.size() > max) o += "...";
	return o;
}
} // namespace gen
