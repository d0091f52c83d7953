// P04: decoding, skipping, sizing, peeking and comparing arbitrary bytes.
#include "gen.hpp"
extern "C" {
#include <aerospike/as_buffer.h>
#include <aerospike/as_msgpack_serializer.h>
#include <aerospike/as_serializer.h>
}
using namespace vf;
using namespace gen;

struct Buf {	// exactly sized heap copy: any outside read hits a red zone
	uint8_t* p;
	uint32_t n;
	explicit Buf(const Bytes& b) : p((uint8_t*)malloc(b.size() ? b.size() : 1)), n((uint32_t)b.size())
	{
		memcpy(p, b.data(), b.size());
		if (!n) { free(p); p = (uint8_t*)malloc(1); base = p; p = base + 1; } else base = p;
	}
	~Buf() { free(base); }
	uint8_t* base;
};

static uint64_t g_ok, g_err;
#define CUR(name, ok) do { \
	if (ok) { g_ok++; VF_CHECK(up.offset <= up.length && up.offset > at, "cursor", "%s succeeded on %s at %u but left the cursor at %u of %u", name, hex(in).c_str(), at, up.offset, up.length); } \
	else g_err++; } while (0)

static void probe(const Bytes& in, uint32_t at, Rng& r)
{
	Buf b(in);
	int64_t live = live_allocs();
	as_unpacker base = {b.p, at, b.n}, up;

	scenario("decode");
	up = base;
	as_val* v = NULL;
	int rc = as_unpack_val(&up, &v);
	uint32_t consumed = up.offset - at;
	CUR("as_unpack_val", rc == 0);
	if (rc == 0) {
		count("decode_ok");
		scenario("decode-use");
		if (v) {
			// everything in the result must be readable, and it must be packable
			as_packer sz = {0};
			as_pack_val(&sz, v);
			as_val_destroy(v);
		}
	}
	else count("decode_refused");
	VF_CHECK(live_allocs() == live, "leak", "decoding %s (result %d) left %lld blocks", hex(in, 200).c_str(), rc, (long long)(live_allocs() - live));

	scenario("size");
	up = base;
	int64_t s = as_unpack_size(&up);
	CUR("as_unpack_size", s >= 0);
	if (s >= 0) VF_CHECK(s == (int64_t)(up.offset - at), "size-consumed", "as_unpack_size of %s returned %lld but moved %u", hex(in).c_str(), (long long)s, up.offset - at);
	if (rc == 0) VF_CHECK(s == (int64_t)consumed, "size-vs-decode", "%s decodes in %u bytes but is sized as %lld", hex(in).c_str(), consumed, (long long)s);

	scenario("peek");
	up = base;
	as_val_t t = as_unpack_peek_type(&up);
	VF_CHECK(t < AS_VAL_T_MAX && up.offset == at, "peek-type", "peek_type of %s gave %d", hex(in).c_str(), t);
	(void)as_unpack_peek_is_ext(&up);
	if (at == 0) {
		VF_CHECK(as_unpack_buf_peek_type(b.p, b.n) == t, "buf-peek-type", "buf_peek_type differs");
		(void)as_unpack_buf_list_element_count(b.p, b.n);
		(void)as_unpack_buf_map_element_count(b.p, b.n);
	}
	if (b.n <= at) VF_CHECK(t == AS_UNDEF && rc != 0 && s < 0, "empty", "empty input decoded");

	scenario("scalar");
	bool bv; int64_t i64; uint64_t u64; double d; uint32_t n32; as_msgpack_ext ext;
	up = base; rc = as_unpack_boolean(&up, &bv); CUR("boolean", rc == 0);
	up = base; rc = as_unpack_nil(&up); CUR("nil", rc == 0);
	up = base; rc = as_unpack_int64(&up, &i64); CUR("int64", rc == 0);
	up = base; rc = as_unpack_uint64(&up, &u64); CUR("uint64", rc == 0);
	up = base; rc = as_unpack_double(&up, &d); CUR("double", rc == 0);
	scenario("blob");
	up = base; s = as_unpack_blob_size(&up); CUR("blob_size", s >= 0);
	for (int k = 0; k < 2; k++) {
		up = base;
		const uint8_t* q = k ? as_unpack_bin(&up, &n32) : as_unpack_str(&up, &n32);
		CUR("str/bin", q != NULL);
		if (q) {
			VF_CHECK(q >= b.p && q + n32 <= b.p + b.n && n32 <= b.n, "str-range", "str/bin of %s returned %u bytes at %ld", hex(in).c_str(), n32, (long)(q - b.p));
			volatile uint8_t x = 0;
			for (uint32_t i = 0; i < n32; i++) x = x + q[i];
		}
	}
	scenario("ext");
	up = base; rc = as_unpack_ext(&up, &ext); CUR("ext", rc == 0);
	if (rc == 0) VF_CHECK(ext.data >= b.p && ext.data + ext.size <= b.p + b.n && ext.type_offset < b.n, "ext-range", "ext of %s returned %u bytes at %ld", hex(in).c_str(), ext.size, (long)(ext.data - b.p));
	scenario("header");
	up = base; s = as_unpack_list_header_element_count(&up); CUR("list header", s >= 0);
	up = base; s = as_unpack_map_header_element_count(&up); CUR("map header", s >= 0);
	VF_CHECK(live_allocs() == live, "leak", "inspecting %s left %lld blocks", hex(in, 200).c_str(), (long long)(live_allocs() - live));
	count("probes");
}

static void compare(const Bytes& x, const Bytes& y)
{
	Buf a(x), b(y);
	int64_t live = live_allocs();
	scenario("compare");
	as_unpacker u1 = {a.p, 0, a.n}, u2 = {b.p, 0, b.n};
	msgpack_compare_t c = as_unpack_compare(&u1, &u2);
	VF_CHECK(c == MSGPACK_COMPARE_ERROR || c == MSGPACK_COMPARE_END || (c >= MSGPACK_COMPARE_LESS && c <= MSGPACK_COMPARE_GREATER), "compare-result", "compare returned %d", c);
	if (c >= MSGPACK_COMPARE_LESS) {
		count("compare_ok");
		VF_CHECK(u1.offset <= a.n && u2.offset <= b.n, "compare-cursor", "compare of %s and %s left cursors %u/%u of %u/%u", hex(x).c_str(), hex(y).c_str(), u1.offset, u2.offset, a.n, b.n);
	}
	else count("compare_error");
	msgpack_compare_t c2 = as_unpack_buf_compare(a.p, a.n, b.p, b.n);
	VF_CHECK(c2 == c, "compare-differs", "as_unpack_compare %d, as_unpack_buf_compare %d", c, c2);
	VF_CHECK(live_allocs() == live, "leak", "comparing left %lld blocks", (long long)(live_allocs() - live));
	count("compares");
}

static void mutate(Bytes& b, Rng& r)
{
	int k = (int)r.range(1, 4);
	for (int i = 0; i < k; i++) {
		switch (r.below(9)) {
		case 0: b.resize(r.below(b.size() + 1)); break;
		case 1: if (b.size()) b[r.below(b.size())] = (char)r.u64(); break;
		case 2: if (b.size()) b[r.below(b.size())] ^= (char)(1 << r.below(8)); break;
		case 3: b.insert(r.below(b.size() + 1), 1, (char)r.u64()); break;
		case 4: if (b.size()) b.erase(r.below(b.size()), 1 + r.below(3)); break;
		case 5: {	// hostile header
			static const uint8_t h[] = {0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xd4, 0xd5, 0xd8, 0xcb, 0xcf, 0xca};
			Bytes x(1, (char)h[r.below(sizeof h)]);
			static const uint8_t e[] = {0xff, 0x00, 0x80, 0x7f, 0xfe, 0x01};
			int n = (int)r.below(6);
			uint8_t first = e[r.below(6)];
			for (int j = 0; j < n; j++) x += (char)(j == 0 ? first : r.chance(1, 2) ? (uint8_t)0xff : e[r.below(6)]);
			if (r.chance(1, 2)) b.insert(r.below(b.size() + 1), x);
			else if (b.size()) b.replace(r.below(b.size()), x.size(), x);
			else b = x;
			break;
		}
		case 6: if (b.size()) { size_t o = r.below(b.size()); b.insert(r.below(b.size() + 1), b.substr(o, r.below(20))); } break;
		case 7: if (b.size()) for (size_t j = r.below(b.size()), n = 0; j < b.size() && n < 4; j++, n++) b[j] = (char)0xff; break;
		default: if (b.size()) { size_t o = r.below(b.size()); b[o] = (char)(0x80 + r.below(32)); } break;
		}
	}
	if (b.size() > 3000) b.resize(3000);		// bounds nesting of the recursive decoder
}

static void deep(uint64_t which, Rng& r)
{
	// Nesting far beyond anything reasonable.  Skipping and comparing must cope;
	// decoding builds the nested value recursively (separate scenario).
	static const int N = 300000;
	Bytes l, m, mk;
	for (int i = 0; i < N; i++) { l += (char)0x91; m += "\x81\x01"; mk += (char)0x81; }
	Bytes lv = l + "\xc0", mv = m + "\xc0", lw = l + "\x05";
	Bytes kv = mk;
	for (int i = 0; i <= N; i++) kv += "\xc0";	// maps nested in key position
	struct { const char* name; Bytes a, b; } in[] = {{"deep-list", lv, lw}, {"deep-map", mv, mv}, {"deep-key", kv, kv}, {"deep-truncated", l, m}};
	auto& x = in[which % 4];
	std::string why;
	const char* key;
	scenario(x.name);
	bool ok = in_child([&] { Buf b(x.a); as_unpacker up = {b.p, 0, b.n}; int64_t live = live_allocs(); int64_t s = as_unpack_size(&up);
		VF_CHECK(live_allocs() == live, "leak", "sizing %s left %lld blocks", x.name, (long long)(live_allocs() - live));
		VF_CHECK((which % 4 == 3) ? s < 0 : s == (int64_t)x.a.size(), "deep-size", "%s sized as %lld", x.name, (long long)s); }, why);
	key = "deep-size";
	VF_CHECK(ok, key, "sizing %s (%d levels): %s", x.name, N, why.c_str());
	ok = in_child([&] { compare(x.a, x.b); }, why);
	VF_CHECK(ok, "deep-compare", "comparing %s (%d levels): %s", x.name, N, why.c_str());
	count("deep");
	ok = in_child([&] { Buf b(x.a); as_unpacker up = {b.p, 0, b.n}; as_val* v = NULL; int rc = as_unpack_val(&up, &v); if (rc == 0 && v) as_val_destroy(v); }, why);
	std::string k = why == "stack-overflow" ? std::string("stack-overflow-decoding-") + x.name : "deep-decode";
	VF_CHECK(ok, k.c_str(), "decoding %s (%d levels): %s", x.name, N, why.c_str());
}

// A value nested in a few hundred lists and maps, where skipping and comparing
// turn from recursion to a stack of their own, damaged deep inside.
static void buried(Rng& r)
{
	Opt o;
	o.maxlen = 12;
	o.maxkids = 3;
	o.maxdepth = 2;
	o.wild = true;
	size_t depth = r.chance(1, 2) ? (size_t)r.range(250, 262) : r.chance(1, 2) ? (size_t)r.below(250) : (size_t)r.range(262, 600);
	Bytes head, tail;
	auto leaf = [&] { Bytes x; Opt q = o; q.maxdepth = r.chance(1, 6) ? 1 : 0; enc_alt(x, gen_tree(r, q), r); return x; };
	int kind = (int)r.below(3);
	for (size_t i = 0; i < depth; i++) {
		bool list = kind == 0 || (kind == 2 && r.chance(1, 2));
		int n = r.chance(1, 3) ? (int)r.range(1, 3) : 1, at = (int)r.below((uint64_t)n);
		Bytes after;
		if (list) {
			if (r.chance(1, 12)) { head += (char)0xdc; head += (char)0; head += (char)n; } else head += (char)(0x90 | n);
			for (int k = 0; k < n; k++) if (k < at) head += leaf(); else if (k > at) after += leaf();
		}
		else {
			bool key = r.chance(1, 4);
			if (r.chance(1, 12)) { head += (char)0xde; head += (char)0; head += (char)n; } else head += (char)(0x80 | n);
			for (int k = 0; k < n; k++) {
				if (k < at) { head += leaf(); head += leaf(); }
				else if (k > at) { after += leaf(); after += leaf(); }
				else if (key) after += leaf();
				else head += leaf();
			}
		}
		tail = after + tail;
	}
	Bytes inner;
	o.maxdepth = 3;
	enc_alt(inner, gen_tree(r, o), r);
	auto damage = [&](Bytes core) {
		Bytes b = head, m = std::move(core), t = tail;
		if (r.chance(1, 4)) m = b.substr(b.size() - std::min<size_t>(b.size(), 12)) + m, b.resize(b.size() - std::min<size_t>(b.size(), 12));
		switch (r.below(4)) {
		case 0: b += m + t; b.resize(b.size() - r.below(std::min<size_t>(b.size(), t.size() + m.size() + 6) + 1)); return b;
		case 1: { Bytes x = t.substr(0, 24); mutate(x, r); return b + m + x + (t.size() > 24 ? t.substr(24) : Bytes()); }
		case 2: mutate(m, r); return b + m + t;
		default: mutate(m, r); return b + m;
		}
	};
	Bytes whole = head + inner + tail;
	if (whole.size() > 20000) return;
	trace("buried %zu levels down: %s", depth, hex(whole, 4000).c_str());
	{
		Buf x(whole);
		as_unpacker up = {x.p, 0, x.n};
		int64_t live = live_allocs();
		int64_t s = as_unpack_size(&up);
		VF_CHECK(s == (int64_t)whole.size() && up.offset == whole.size(), "buried-size", "%zu levels: %zu bytes sized as %lld", depth, whole.size(), (long long)s);
		VF_CHECK(live_allocs() == live, "leak", "sizing left %lld blocks", (long long)(live_allocs() - live));
	}
	compare(whole, whole);
	for (int k = 0; k < 4; k++) {
		Bytes b = damage(inner);
		probe(b, 0, r);
		compare(b, b);
		compare(b, whole);
		compare(whole, b);
		Bytes c = damage(inner);
		compare(b, c);
		count("buried");
		seen("distinct", hash_bytes(b.data(), b.size()));
	}
}

static void one(uint64_t idx, Rng& r)
{
	max_single_alloc(64u << 20);
	if (idx < 4) { deep(idx, r); return; }
	if (idx < 4 + 256) {
		// every input of one and two bytes (thorough: three)
		uint8_t a = (uint8_t)(idx - 4);
		probe(Bytes(1, (char)a), 0, r);
		for (int b = 0; b < 256; b++) {
			Bytes x(1, (char)a);
			x += (char)b;
			probe(x, 0, r);
			probe(x, 1, r);
			probe(x, 2, r);
			compare(x, x);
			seen("distinct", hash_bytes(x.data(), x.size()));
			if (g_thorough) for (int c = 0; c < 256; c++) { Bytes y = x + (char)c; probe(y, 0, r); if ((c & 7) == 0) compare(y, x); }
			progress();
		}
		count("exhaustive_first_bytes");
		return;
	}
	if (idx % 10 == 3) { buried(r); return; }
	Opt o;
	o.maxlen = 40;
	o.maxkids = 5;
	o.maxdepth = 4;
	o.wild = true;
	Bytes prev;
	for (int k = 0; k < 12; k++) {
		Bytes b;
		int mode = (int)r.below(10);
		if (mode == 0) b = gen_blob(r, r.below(40));
		else {
			Node n = gen_tree(r, o);
			enc_alt(b, n, r);
			if (b.size() > 3000) b.resize(3000);
			if (mode < 8) mutate(b, r);
			if (mode == 8 && b.size() < 200) {
				// every truncation
				for (size_t t = 0; t < b.size(); t++) probe(b.substr(0, t), 0, r);
				count("all_truncations");
			}
		}
		trace("input %s", hex(b, 400).c_str());
		probe(b, 0, r);
		if (b.size() > 1) probe(b, (uint32_t)r.below(b.size() + 1), r);
		compare(b, b);
		compare(b, prev);
		Bytes c = b;
		mutate(c, r);
		compare(b, c);
		compare(c, b);
		seen("distinct", hash_bytes(b.data(), b.size()));
		if (idx == 300 && k < 4) sample("%s", hex(b).c_str());
		prev = b;
	}
	count("api_ok", g_ok); count("api_refused", g_err);
	g_ok = g_err = 0;
}

int main(int argc, char** argv)
{
	floor_of("decode_ok", 3000); floor_of("decode_refused", 3000); floor_of("compare_ok", 3000); floor_of("compare_error", 1000);
	floor_of("all_truncations", 100); floor_of("buried", 300);
	return run(argc, argv, 60000, 600000, one);
}
