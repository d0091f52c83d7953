// P01: serialize -> deserialize is the identity; decoding consumes exactly what was encoded.
#include "gen.hpp"
extern "C" {
#include <aerospike/as_buffer.h>
#include <aerospike/as_msgpack_serializer.h>
#include <aerospike/as_serializer.h>
}
using namespace vf;
using namespace gen;

static void roundtrip(const Node& n, as_serializer* ser)
{
	std::string why;
	as_val* v = to_val(n);
	as_buffer buf;
	as_buffer_init(&buf);
	int rc = as_serializer_serialize(ser, v, &buf);
	VF_CHECK(rc == 0, "serialize", "serialize of %s returned %d", show(n).c_str(), rc);
	as_val* back = NULL;
	// exactly-sized copy so that reads past the encoding are seen
	uint8_t* copy = (uint8_t*)malloc(buf.size ? buf.size : 1);
	memcpy(copy, buf.data, buf.size);
	as_buffer in;
	as_buffer_init(&in);
	in.data = copy; in.size = buf.size; in.capacity = buf.size;
	rc = as_serializer_deserialize(ser, &in, &back);
	VF_CHECK(rc == 0, "deserialize", "deserialize of %s returned %d, bytes %s", show(n).c_str(), rc, hex(Bytes((char*)copy, buf.size)).c_str());
	VF_CHECK(same(n, back, why), "roundtrip", "%s came back different: %s", show(n).c_str(), why.c_str());
	VF_CHECK(same(n, v, why), "original", "serializing %s changed the value: %s", show(n).c_str(), why.c_str());
	count("bytes", buf.size);
	if (buf.size > AS_PACKER_BUFFER_SIZE) count("multi_block");
	as_val_destroy(back);
	as_val_destroy(v);
	free(copy);
	as_buffer_destroy(&buf);
	count("roundtrips");
}

static void sequence(Rng& r, const Opt& o)
{
	// several values packed back to back into one packer, then decoded one after another
	std::vector<Node> ns;
	int k = (int)r.range(2, 6);
	for (int i = 0; i < k; i++) ns.push_back(gen_tree(r, o));
	as_packer pk = {0};
	std::vector<uint32_t> sizes;
	uint32_t total = 0;
	for (auto& n : ns) {
		as_val* v = to_val(n);
		as_packer sz = {0};
		VF_CHECK(as_pack_val(&sz, v) == 0, "pack-size", "sizing %s failed", show(n).c_str());
		sizes.push_back(sz.offset);
		total += sz.offset;
		as_val_destroy(v);
	}
	uint8_t* b = (uint8_t*)malloc(total);
	pk.buffer = b;
	pk.capacity = total;
	for (auto& n : ns) {
		as_val* v = to_val(n);
		VF_CHECK(as_pack_val(&pk, v) == 0, "pack", "pack of %s failed", show(n).c_str());
		as_val_destroy(v);
	}
	VF_CHECK(pk.offset == total && pk.buffer == b && !pk.head, "pack-total", "packed %u bytes, expected %u", pk.offset, total);
	as_unpacker up = {b, 0, total};
	uint32_t at = 0;
	for (size_t i = 0; i < ns.size(); i++) {
		as_val* v = NULL;
		std::string why;
		int rc = as_unpack_val(&up, &v);
		VF_CHECK(rc == 0 && v, "seq-unpack", "value %zu %s: unpack returned %d", i, show(ns[i]).c_str(), rc);
		VF_CHECK(same(ns[i], v, why), "seq-value", "value %zu %s differs: %s", i, show(ns[i]).c_str(), why.c_str());
		at += sizes[i];
		VF_CHECK(up.offset == at, "seq-consumed", "value %zu %s: cursor %u, expected %u", i, show(ns[i]).c_str(), up.offset, at);
		as_val_destroy(v);
		count("roundtrips");
	}
	free(b);
	count("sequences");
}

static void pairs(Rng& r, const Opt& o)
{
	// a pair is packed as a two-element list
	Node l;
	l.t = LIST;
	l.kids.push_back(gen_tree(r, o));
	l.kids.push_back(gen_tree(r, o));
	as_val* p = (as_val*)as_pair_new(to_val(l.kids[0]), to_val(l.kids[1]));
	as_packer sz = {0};
	VF_CHECK(as_pack_val(&sz, p) == 0, "pair-size", "sizing a pair failed");
	Bytes b(sz.offset, 0);
	as_packer pk = {0};
	pk.buffer = (unsigned char*)&b[0];
	pk.capacity = sz.offset;
	VF_CHECK(as_pack_val(&pk, p) == 0, "pair-pack", "packing a pair failed");
	as_unpacker up = {(const unsigned char*)b.data(), 0, sz.offset};
	as_val* v = NULL;
	std::string why;
	VF_CHECK(as_unpack_val(&up, &v) == 0 && same(l, v, why), "pair", "pair came back different: %s", why.c_str());
	as_val_destroy(v);
	as_val_destroy(p);
	count("pairs");
}

static void one(uint64_t idx, Rng& r)
{
	int64_t live = live_allocs();
	Opt o;
	switch (idx % 8) {
	case 0: o.maxdepth = 0; o.maxlen = 70000; break;				// scalars across every width
	case 1: o.maxkids = 20; o.maxdepth = 3; break;
	case 2: o.maxlen = 20000; o.maxkids = 5; break;				// crosses packing blocks
	case 3: o.maxdepth = 12; o.maxkids = 3; break;
	case 4: o.big = 6; o.maxdepth = 2; break;
	case 5: o.small = true; o.maxkids = 8; break;
	default: break;
	}
	as_serializer ser;
	as_serializer* sp = &ser;
	if (idx & 1) as_msgpack_init(&ser); else sp = as_msgpack_new();
	int k = idx % 8 == 4 ? 1 : 6;
	for (int i = 0; i < k; i++) {
		Node n = gen_tree(r, o);
		if (idx % 8 == 3 && i == 0) {
			// a deep spine
			int d = (int)r.range(200, 900);
			for (int j = 0; j < d; j++) {
				Node up;
				if (r.chance(1, 2)) { up.t = LIST; if (r.chance(1, 3)) { Node x; x.t = INT; x.i = j; up.kids.push_back(x); } up.kids.push_back(std::move(n)); }
				else { up.t = MAP; up.flags = gen_flags(r, o); Node key; key.t = INT; key.i = j; up.ents.emplace_back(std::move(key), std::move(n)); }
				n = std::move(up);
			}
			count("deep");
		}
		if (count_nodes(n) > 1) count("trees");
		if (idx < 16 && i == 0) sample("%s", show(n).c_str());
		seen("distinct", vf::hash_bytes(enc(n).data(), enc(n).size()));
		roundtrip(n, sp);
	}
	sequence(r, o.big ? Opt() : o);
	pairs(r, Opt());
	if (idx & 1) as_serializer_destroy(&ser); else as_serializer_destroy(sp);
	VF_CHECK(live_allocs() == live, "leak", "%lld blocks left", (long long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("multi_block", 50); floor_of("sequences", 100); floor_of("trees", 500); floor_of("deep", 20);
	return run(argc, argv, 6000, 100000, one);
}
