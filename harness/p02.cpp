// P02: packed bytes equal an independent encoder's; every legal encoding decodes.
#include "gen.hpp"
extern "C" {
#include <aerospike/as_buffer.h>
#include <aerospike/as_msgpack_serializer.h>
#include <aerospike/as_serializer.h>
}
using namespace vf;
using namespace gen;

static Bytes chain(as_packer& pk)
{
	Bytes o;
	for (as_packer_buffer* p = pk.head; p;) {
		o.append((char*)p->buffer, p->length);
		as_packer_buffer* q = p;
		p = p->next;
		cf_free(q->buffer);
		cf_free(q);
	}
	o.append((char*)pk.buffer, pk.offset);
	cf_free(pk.buffer);
	return o;
}

static void eq(const Bytes& got, const Bytes& want, const char* key, const Node& n)
{
	if (got == want) return;
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	size_t a = i > 8 ? i - 8 : 0;
	fail(key, "%s: %zu bytes instead of %zu, first difference at %zu: got ..%s want ..%s", show(n).c_str(), got.size(), want.size(), i,
			hex(got.substr(a, 24)).c_str(), hex(want.substr(a, 24)).c_str());
}

static void pack_all_ways(const Node& n, Rng& r)
{
	Bytes want = enc(n);
	as_val* v = to_val(n);
	as_serializer ser;
	as_msgpack_init(&ser);
	as_buffer buf;
	as_buffer_init(&buf);
	VF_CHECK(as_serializer_serialize(&ser, v, &buf) == 0, "serialize", "serialize of %s failed", show(n).c_str());
	eq(Bytes((char*)buf.data, buf.size), want, "serialize-bytes", n);
	as_buffer_destroy(&buf);

	uint8_t* p = (uint8_t*)malloc(want.size());
	int32_t k = as_serializer_serialize_presized(&ser, v, p);
	VF_CHECK(k == (int32_t)want.size(), "presized-size", "presized wrote %d, expected %zu for %s", k, want.size(), show(n).c_str());
	eq(Bytes((char*)p, want.size()), want, "presized-bytes", n);
	free(p);

	as_packer pk = {0};
	pk.capacity = (uint32_t)r.range(1, 40);
	pk.buffer = (unsigned char*)cf_malloc(pk.capacity);
	VF_CHECK(as_pack_val(&pk, v) == 0, "chained", "chained pack of %s failed", show(n).c_str());
	if (pk.head) count("chained");
	eq(chain(pk), want, "chained-bytes", n);
	as_serializer_destroy(&ser);
	as_val_destroy(v);
	count("packed");
}

static void decode(const Bytes& b, const Node& n, const char* key)
{
	uint8_t* p = (uint8_t*)malloc(b.size());
	memcpy(p, b.data(), b.size());
	as_unpacker up = {p, 0, (uint32_t)b.size()};
	as_val* v = NULL;
	std::string why;
	int rc = as_unpack_val(&up, &v);
	VF_CHECK(rc == 0, key, "%s encoded as %s: decode returned %d", show(n).c_str(), hex(b).c_str(), rc);
	VF_CHECK(same(n, v, why), key, "%s encoded as %s decodes differently: %s", show(n).c_str(), hex(b).c_str(), why.c_str());
	VF_CHECK(up.offset == b.size(), key, "%s encoded as %s: consumed %u of %zu", show(n).c_str(), hex(b).c_str(), up.offset, b.size());
	as_val_destroy(v);
	free(p);
	count("decoded");
}

static Bytes via(int (*fn)(as_packer*, void*), void* u)
{
	uint8_t b[200];
	as_packer pk = {0};
	pk.buffer = b;
	pk.capacity = sizeof b;
	int rc = fn(&pk, u);
	VF_CHECK(rc == 0, "direct-rc", "direct pack function returned %d", rc);
	return Bytes((char*)b, pk.offset);
}

static void exact(const Bytes& got, const Bytes& want, const char* key, unsigned long long arg)
{
	VF_CHECK(got == want, key, "argument %lld (0x%llx): got %s want %s", (long long)arg, arg, hex(got).c_str(), hex(want).c_str());
	count("direct");
}

static void direct_int(int64_t x)
{
	Bytes w;
	enc_int(w, x);
	exact(via([](as_packer* p, void* u) { return as_pack_int64(p, *(int64_t*)u); }, &x), w, "direct-int64", (unsigned long long)x);
	Bytes wu;
	enc_uint(wu, (uint64_t)x);
	exact(via([](as_packer* p, void* u) { return as_pack_uint64(p, *(uint64_t*)u); }, &x), wu, "direct-uint64", (unsigned long long)x);
}

static void direct_count(uint32_t c)
{
	Bytes w;
	hdr_list(w, c);
	exact(via([](as_packer* p, void* u) { return as_pack_list_header(p, *(uint32_t*)u); }, &c), w, "direct-list-header", c);
	w.clear();
	hdr_map(w, c);
	exact(via([](as_packer* p, void* u) { return as_pack_map_header(p, *(uint32_t*)u); }, &c), w, "direct-map-header", c);
	w.clear();
	hdr_str(w, c);
	exact(via([](as_packer* p, void* u) { return as_pack_str(p, NULL, *(uint32_t*)u); }, &c), w, "direct-str-header", c);
	w.clear();
	hdr_bin(w, c);
	exact(via([](as_packer* p, void* u) { return as_pack_bin(p, NULL, *(uint32_t*)u); }, &c), w, "direct-bin-header", c);
	w.clear();
	hdr_ext(w, c, (uint8_t)(c * 7));
	exact(via([](as_packer* p, void* u) { uint32_t c = *(uint32_t*)u; return as_pack_ext_header(p, c, (uint8_t)(c * 7)); }, &c), w, "direct-ext-header", c);
	uint8_t b[8];
	VF_CHECK(as_pack_buf_ext_header(b, sizeof b, c, (uint8_t)(c * 7)) == 0 && memcmp(b, w.data(), w.size()) == 0, "direct-buf-ext", "ext header for %u", c);
}

struct Sp { const uint8_t* p; uint32_t n; };
static void direct_misc(Rng& r)
{
	exact(via([](as_packer* p, void*) { return as_pack_nil(p); }, NULL), Bytes("\xc0"), "direct-nil", 0);
	exact(via([](as_packer* p, void*) { return as_pack_bool(p, true); }, NULL), Bytes("\xc3"), "direct-bool", 1);
	exact(via([](as_packer* p, void*) { return as_pack_bool(p, false); }, NULL), Bytes("\xc2"), "direct-bool", 0);
	exact(via([](as_packer* p, void*) { return as_pack_cmp_inf(p); }, NULL), Bytes("\xd4\xff\x01"), "direct-inf", 0);
	exact(via([](as_packer* p, void*) { return as_pack_cmp_wildcard(p); }, NULL), Bytes("\xd4\xff\0", 3), "direct-wildcard", 0);
	double d = gen_double(r);
	Bytes w("\xcb");
	put(w, dbits(d), 8);
	exact(via([](as_packer* p, void* u) { return as_pack_double(p, *(double*)u); }, &d), w, "direct-double", dbits(d));
	float f = (float)r.range(-100000, 100000) / 7.0f;
	uint32_t fu;
	memcpy(&fu, &f, 4);
	w = "\xca";
	put(w, fu, 4);
	exact(via([](as_packer* p, void* u) { return as_pack_float(p, *(float*)u); }, &f), w, "direct-float", fu);
	Bytes data = gen_blob(r, r.below(120));
	Sp s = {(const uint8_t*)data.data(), (uint32_t)data.size()};
	w.clear(); hdr_str(w, data.size()); w += data;
	exact(via([](as_packer* p, void* u) { Sp* s = (Sp*)u; return as_pack_str(p, s->p, s->n); }, &s), w, "direct-str", s.n);
	w.clear(); hdr_bin(w, data.size()); w += data;
	exact(via([](as_packer* p, void* u) { Sp* s = (Sp*)u; return as_pack_bin(p, s->p, s->n); }, &s), w, "direct-bin", s.n);
	w.clear(); hdr_str(w, data.size() + 1); w += (char)AS_BYTES_BLOB; w += data;
	exact(via([](as_packer* p, void* u) { Sp* s = (Sp*)u; return as_pack_bytes(p, s->p, s->n); }, &s), w, "direct-bytes", s.n);
	exact(via([](as_packer* p, void* u) { Sp* s = (Sp*)u; return as_pack_append(p, s->p, s->n); }, &s), data, "direct-append", s.n);
}

static void one(uint64_t idx, Rng& r)
{
	int64_t live = live_allocs();
	if (idx < 64) {
		// exhaustive blocks of small integers and counts
		scenario("exhaustive");
		int64_t span = g_thorough ? 40000 : 2300;
		for (int64_t i = 0; i < span; i++) {
			int64_t x = (int64_t)idx * span + i - 32 * span;
			direct_int(x);
			direct_count((uint32_t)((int64_t)idx * span + i));
			Node n;
			n.t = INT;
			n.i = x;
			decode(enc(n), n, "decode-int");
			if ((i & 0xfff) == 0) progress();
		}
		count("exhaustive_blocks");
	}
	scenario("trees");
	for (int i = 0; i < 20; i++) direct_int(gen_int(r));
	for (int i = 0; i < 10; i++) direct_count((uint32_t)gen_int(r));
	direct_misc(r);
	Opt o;
	switch (idx % 6) {
	case 0: o.maxdepth = 0; o.maxlen = 70000; break;
	case 1: o.maxkids = 20; o.maxdepth = 3; break;
	case 2: o.maxlen = 9000; break;
	case 3: o.big = 8; o.maxdepth = 2; break;
	case 4: o.small = true; break;
	default: break;
	}
	int k = idx % 6 == 3 ? 1 : 6;
	for (int i = 0; i < k; i++) {
		Node n = gen_tree(r, o);
		if (idx >= 64 && idx < 80 && i == 0) sample("%s = %s", show(n).c_str(), hex(enc(n), 40).c_str());
		pack_all_ways(n, r);
		if (i == 0 && idx % 6 != 3) {
			Opt q = o;		// the markers used in ranges are only ever encoded
			q.wild = true;
			pack_all_ways(gen_tree(r, q), r);
		}
		for (int j = 0; j < 3; j++) {
			Bytes b;
			enc_alt(b, n, r);
			if (b != enc(n)) count("alternate_encodings");
			decode(b, n, "decode-alt");
			seen("distinct", hash_bytes(b.data(), b.size()));
		}
		if (n.t == LIST) {
			// a list may carry a leading extension element with its ordering flag
			Bytes b;
			uint8_t fl = (uint8_t)r.below(3);
			hdr_list(b, n.kids.size() + 1);
			hdr_ext(b, 0, fl);
			for (auto& c : n.kids) enc_alt(b, c, r);
			as_unpacker up = {(const unsigned char*)b.data(), 0, (uint32_t)b.size()};
			as_val* v = NULL;
			std::string why;
			VF_CHECK(as_unpack_val(&up, &v) == 0 && same(n, v, why), "list-ext", "list with flag element decodes differently: %s", why.c_str());
			VF_CHECK(((as_list*)v)->flags == fl, "list-ext-flag", "list flag %u instead of %u", ((as_list*)v)->flags, fl);
			as_val_destroy(v);
			count("list_ext");
		}
		if (n.t == MAP) {
			// preserve-order maps decode as the flat list of keys and values, in order
			Node l;
			l.t = LIST;
			Bytes b;
			hdr_map(b, n.ents.size() + 1);
			hdr_ext(b, 0, AS_PACKED_MAP_FLAG_PRESERVE_ORDER);
			b += (char)0xc0;
			std::vector<size_t> ix(n.ents.size());
			for (size_t x = 0; x < ix.size(); x++) ix[x] = x;
			for (size_t x = ix.size(); x > 1; x--) std::swap(ix[x - 1], ix[r.below(x)]);
			for (size_t x : ix) {
				enc_alt(b, n.ents[x].first, r);
				enc_alt(b, n.ents[x].second, r);
				l.kids.push_back(n.ents[x].first);
				l.kids.push_back(n.ents[x].second);
			}
			decode(b, l, "preserve-order");
			count("preserve_order");
		}
	}
	VF_CHECK(live_allocs() == live, "leak", "%lld blocks left", (long long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("alternate_encodings", 1000); floor_of("chained", 500); floor_of("exhaustive_blocks", 64); floor_of("list_ext", 100); floor_of("preserve_order", 100);
	return run(argc, argv, 4000, 60000, one);
}
