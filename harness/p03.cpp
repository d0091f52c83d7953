// P03: announced sizes are exact; direct packing into a fixed buffer stays inside it.
#include "gen.hpp"
extern "C" {
#include <aerospike/as_buffer.h>
#include <aerospike/as_msgpack_serializer.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_serializer.h>
}
using namespace vf;
using namespace gen;

typedef std::function<int(as_packer*)> Fn;

// Try a direct pack at every capacity around its size, at some starting offset.
static void fixed(const char* name, const Fn& fn, uint32_t announced, const Bytes& want, Rng& r)
{
	scenario(name);
	as_packer sz = {0};
	int rc = fn(&sz);
	VF_CHECK(rc == 0 && sz.offset == want.size(), "null-size", "%s: sizing without a buffer gives rc %d size %u, expected %zu", name, rc, sz.offset, want.size());
	VF_CHECK(announced == want.size(), "announced", "%s: announced %u, encoding has %zu bytes", name, announced, want.size());
	uint32_t start = (uint32_t)r.below(9);
	uint32_t full = start + (uint32_t)want.size();
	std::vector<uint32_t> caps;
	if (want.size() < 64) for (uint32_t c = start; c <= full + 2; c++) caps.push_back(c);
	else {
		for (uint32_t c = start; c < start + 8; c++) caps.push_back(c);
		for (int i = -3; i <= 2; i++) caps.push_back((uint32_t)((int64_t)full + i));
		for (int i = 0; i < 4; i++) caps.push_back(start + (uint32_t)r.below(want.size()));
	}
	for (uint32_t cap : caps) {
		uint8_t* b = (uint8_t*)malloc(cap ? cap : 1);		// ASan red zone is the guard
		memset(b, 0xa5, cap ? cap : 1);
		if (cap == 0) { free(b); continue; }
		as_packer pk = {0};
		pk.buffer = b;
		pk.capacity = cap;
		pk.offset = start;
		trace("%s capacity %u offset %u needs %zu", name, cap, start, want.size());
		rc = fn(&pk);
		VF_CHECK(pk.buffer == b && pk.capacity == cap && !pk.head && !pk.tail, "replaced",
				"%s: caller's buffer of %u bytes at offset %u was replaced (rc %d)", name, cap, start, rc);
		for (uint32_t i = 0; i < start; i++) VF_CHECK(b[i] == 0xa5, "before", "%s: byte %u before the start offset was changed", name, i);
		if (cap >= full) {
			VF_CHECK(rc == 0, "refused", "%s: refused although %u bytes at offset %u suffice for %zu", name, cap, start, want.size());
			VF_CHECK(pk.offset == full, "offset", "%s: offset %u, expected %u", name, pk.offset, full);
			VF_CHECK(memcmp(b + start, want.data(), want.size()) == 0, "content", "%s: wrote different bytes", name);
			for (uint32_t i = full; i < cap; i++) VF_CHECK(b[i] == 0xa5, "after", "%s: byte %u after the encoding was changed", name, i);
			count("fitting");
		}
		else {
			VF_CHECK(rc != 0, "accepted", "%s: reported success with %u bytes at offset %u for an encoding of %zu", name, cap, start, want.size());
			count("too_small");
		}
		free(b);
	}
	count(name);
	scenario("main");
}

static void sizes_of_tree(const Node& n)
{
	Bytes want = enc(n);
	as_val* v = to_val(n);
	as_serializer ser;
	as_msgpack_init(&ser);
	uint32_t g = as_serializer_serialize_getsize(&ser, v);
	VF_CHECK(g == want.size(), "getsize", "getsize %u, encoding has %zu bytes: %s", g, want.size(), show(n).c_str());
	as_packer sz = {0};
	VF_CHECK(as_pack_val(&sz, v) == 0 && sz.offset == g && !sz.buffer && !sz.head, "val-size", "sizing pack gives %u, getsize %u", sz.offset, g);
	uint8_t* p = (uint8_t*)malloc(g);
	int32_t w = as_serializer_serialize_presized(&ser, v, p);
	VF_CHECK(w == (int32_t)g, "presized", "presized wrote %d of announced %u", w, g);
	free(p);
	as_buffer buf;
	as_buffer_init(&buf);
	VF_CHECK(as_serializer_serialize(&ser, v, &buf) == 0 && buf.size == g && buf.capacity >= buf.size, "serialize-size", "serialize wrote %u, announced %u", buf.size, g);
	as_buffer_destroy(&buf);
	// exact capacity never needs another block; one byte less does
	as_packer pk = {0};
	pk.buffer = p = (uint8_t*)malloc(g);
	pk.capacity = g;
	VF_CHECK(as_pack_val(&pk, v) == 0 && pk.buffer == p && pk.offset == g && !pk.head, "exact-fit", "value of %u bytes does not fit its announced size", g);
	free(p);
	as_serializer_destroy(&ser);
	as_val_destroy(v);
	seen("distinct", hash_bytes(want.data(), want.size()));
	count("trees");
}

// A value holding something that has no encoding (a record) is refused as a
// whole, wherever in it the record is.
static void unencodable(Rng& r)
{
	scenario("unencodable");
	int64_t live = live_allocs();
	static as_rec_hooks h;
	Opt o;
	o.maxlen = r.chance(1, 4) ? 20000 : 60;
	auto side = [&](as_val* v) -> as_val* {
		bool list = r.chance(1, 2);
		size_t n = r.below(4), at = r.below(n + 1);
		if (list) {
			as_arraylist* l = as_arraylist_new((uint32_t)n + 1, 4);
			for (size_t i = 0; i <= n; i++) as_arraylist_append(l, i == at ? v : to_val(gen_scalar(r, o)));
			return (as_val*)l;
		}
		as_orderedmap* m = as_orderedmap_new((uint32_t)n + 1);
		for (size_t i = 0; i <= n; i++) as_orderedmap_set(m, (as_val*)as_integer_new((int64_t)i), i == at ? v : to_val(gen_scalar(r, o)));
		return (as_val*)m;
	};
	as_val* v = (as_val*)as_rec_new(NULL, &h);
	for (uint64_t d = r.below(5); d; d--) v = side(v);
	if (r.chance(1, 6)) v = (as_val*)as_pair_new(r.chance(1, 2) ? (as_val*)as_integer_new(1) : (as_val*)as_string_new_strdup("x"), v);
	as_serializer ser;
	as_msgpack_init(&ser);
	as_packer sz = {0};
	VF_CHECK(as_pack_val(&sz, v) != 0, "unencodable", "sizing a value without encoding succeeded with %u bytes", sz.offset);
	VF_CHECK(as_serializer_serialize_getsize(&ser, v) == 0, "unencodable", "a value without encoding has a size");
	as_buffer buf;
	as_buffer_init(&buf);
	int rc = as_serializer_serialize(&ser, v, &buf);
	VF_CHECK(rc != 0, "unencodable", "a value without encoding was serialized to %u bytes", buf.size);
	as_buffer_destroy(&buf);
	uint8_t* p = (uint8_t*)malloc(o.maxlen > 60 ? 600000 : 20000);
	int32_t w = as_serializer_serialize_presized(&ser, v, p);
	VF_CHECK(w < 0, "unencodable", "a value without encoding was serialized to %d bytes", w);
	free(p);
	as_serializer_destroy(&ser);
	as_val_destroy(v);
	VF_CHECK(live_allocs() == live, "leak", "%lld blocks left", (long long)(live_allocs() - live));
	count("unencodable");
}

static void one(uint64_t idx, Rng& r)
{
	unencodable(r);
	scenario("main");
	int64_t live = live_allocs();
	for (int k = 0; k < 3; k++) {
		int64_t x = gen_int(r);
		Bytes w;
		enc_int(w, x);
		fixed("int64", [&](as_packer* p) { return as_pack_int64(p, x); }, as_pack_int64_size(x), w, r);
		w.clear(); enc_uint(w, (uint64_t)x);
		fixed("uint64", [&](as_packer* p) { return as_pack_uint64(p, (uint64_t)x); }, as_pack_uint64_size((uint64_t)x), w, r);
		uint32_t c = (uint32_t)gen_int(r);
		w.clear(); hdr_list(w, c);
		fixed("list_header", [&](as_packer* p) { return as_pack_list_header(p, c); }, as_pack_list_header_get_size(c), w, r);
		w.clear(); hdr_map(w, c);
		fixed("map_header", [&](as_packer* p) { return as_pack_map_header(p, c); }, as_pack_map_header_get_size(c), w, r);
		uint32_t es = r.chance(1, 2) ? c : (uint32_t)r.below(20);
		uint8_t et = (uint8_t)r.u64();
		w.clear(); hdr_ext(w, es, et);
		fixed("ext_header", [&](as_packer* p) { return as_pack_ext_header(p, es, et); }, as_pack_ext_header_get_size(es), w, r);
		for (uint32_t cap = 1; cap <= 8; cap++) {
			uint8_t* b = (uint8_t*)malloc(cap);
			int rc = as_pack_buf_ext_header(b, cap, es, et);
			VF_CHECK((rc == 0) == (cap >= w.size()), "buf-ext", "buf_ext_header into %u bytes returned %d for a header of %zu", cap, rc, w.size());
			if (rc == 0) VF_CHECK(memcmp(b, w.data(), w.size()) == 0, "buf-ext-bytes", "buf_ext_header wrote different bytes");
			free(b);
		}
	}
	bool bv = r.chance(1, 2);
	Bytes w;
	w = bv ? "\xc3" : "\xc2";
	fixed("bool", [&](as_packer* p) { return as_pack_bool(p, bv); }, as_pack_bool_size(), w, r);
	fixed("nil", [&](as_packer* p) { return as_pack_nil(p); }, as_pack_nil_size(), "\xc0", r);
	fixed("inf", [&](as_packer* p) { return as_pack_cmp_inf(p); }, as_pack_cmp_inf_size(), "\xd4\xff\x01", r);
	fixed("wildcard", [&](as_packer* p) { return as_pack_cmp_wildcard(p); }, as_pack_cmp_wildcard_size(), Bytes("\xd4\xff\0", 3), r);
	double d = gen_double(r);
	w = "\xcb"; put(w, dbits(d), 8);
	fixed("double", [&](as_packer* p) { return as_pack_double(p, d); }, as_pack_double_size(), w, r);
	float f = (float)d;
	uint32_t fu;
	memcpy(&fu, &f, 4);
	w = "\xca"; put(w, fu, 4);
	fixed("float", [&](as_packer* p) { return as_pack_float(p, f); }, as_pack_float_size(), w, r);

	size_t len = gen_len(r, idx % 4 == 0 ? 70000 : 300);
	Bytes data = gen_blob(r, len);
	const uint8_t* dp = (const uint8_t*)data.data();
	uint32_t dn = (uint32_t)len;
	w.clear(); hdr_str(w, len); w += data;
	fixed("str", [&](as_packer* p) { return as_pack_str(p, dp, dn); }, as_pack_str_size(dn), w, r);
	w.clear(); hdr_bin(w, len); w += data;
	fixed("bin", [&](as_packer* p) { return as_pack_bin(p, dp, dn); }, as_pack_bin_size(dn), w, r);
	w.clear(); hdr_str(w, len + 1); w += (char)AS_BYTES_BLOB; w += data;
	fixed("bytes", [&](as_packer* p) { return as_pack_bytes(p, dp, dn); }, as_pack_str_size(dn + 1), w, r);
	w.clear(); hdr_str(w, len);
	fixed("str_header", [&](as_packer* p) { return as_pack_str(p, NULL, dn); }, as_pack_str_size(dn) - dn, w, r);
	w.clear(); hdr_bin(w, len);
	fixed("bin_header", [&](as_packer* p) { return as_pack_bin(p, NULL, dn); }, as_pack_bin_size(dn) - dn, w, r);
	fixed("append", [&](as_packer* p) { return as_pack_append(p, dp, dn); }, dn, data, r);

	Opt o;
	switch (idx % 6) {
	case 0: o.maxdepth = 0; o.maxlen = 70000; break;
	case 1: o.maxkids = 20; o.maxdepth = 3; break;
	case 2: o.maxlen = 9000; break;
	case 3: o.big = 8; o.maxdepth = 2; break;
	case 4: o.small = true; break;
	default: break;
	}
	for (int i = 0; i < (idx % 6 == 3 ? 1 : 5); i++) {
		o.wild = i & 1;
		Node n = gen_tree(r, o);
		if (idx < 12 && i == 0) sample("%s: %zu bytes", show(n).c_str(), enc(n).size());
		sizes_of_tree(n);
	}
	VF_CHECK(live_allocs() == live, "leak", "%lld blocks left", (long long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("too_small", 2000); floor_of("fitting", 2000); floor_of("trees", 1000); floor_of("unencodable", 500);
	return run(argc, argv, 4000, 60000, one);
}
