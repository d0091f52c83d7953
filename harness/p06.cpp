// P06: skipping, peeking, counting and direct scalar access agree with an
// independent parser and with decoding, for every element of well-formed data.
#include "gen.hpp"
#include <sys/mman.h>
using namespace vf;
using namespace gen;

struct El {	// one element as read by the independent parser
	char k;				// 'n'il 'b'ool 'i'nt 'd'ouble 's'tr/bin/raw 'l'ist 'm'ap 'x' ext
	size_t off, hdr;	// start, header bytes
	uint64_t len;		// payload bytes or element count
	int64_t i;
	double d;
	bool b;
	uint8_t xt;
	size_t end;
};

static uint64_t be(const Bytes& s, size_t o, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (uint8_t)s[o + (size_t)i]; return v; }

// header only; 'end' is set for leaves
static El head(const Bytes& s, size_t o)
{
	El e = {};
	uint8_t c = (uint8_t)s[o];
	e.off = o;
	auto leaf = [&](char k, size_t h, uint64_t n) { e.k = k; e.hdr = h; e.len = n; e.end = o + h + n; };
	auto cont = [&](char k, size_t h, uint64_t n) { e.k = k; e.hdr = h; e.len = n; };
	auto num = [&](int n, bool sg) {
		uint64_t v = be(s, o + 1, n);
		if (sg && n < 8 && (v >> (8 * n - 1) & 1)) v |= ~0ULL << (8 * n);
		e.i = (int64_t)v;
		leaf('i', 1 + (size_t)n, 0);
	};
	auto ext = [&](size_t h, uint64_t n) { e.xt = (uint8_t)s[o + h]; leaf('x', h + 1, n); };
	if (c < 0x80 || c >= 0xe0) { e.i = (int8_t)c; leaf('i', 1, 0); }
	else if (c < 0x90) cont('m', 1, c & 15);
	else if (c < 0xa0) cont('l', 1, c & 15);
	else if (c < 0xc0) leaf('s', 1, c & 31);
	else switch (c) {
	case 0xc0: leaf('n', 1, 0); break;
	case 0xc2: case 0xc3: e.b = c == 0xc3; leaf('b', 1, 0); break;
	case 0xc4: case 0xd9: leaf('s', 2, be(s, o + 1, 1)); break;
	case 0xc5: case 0xda: leaf('s', 3, be(s, o + 1, 2)); break;
	case 0xc6: case 0xdb: leaf('s', 5, be(s, o + 1, 4)); break;
	case 0xc7: ext(2, be(s, o + 1, 1)); break;
	case 0xc8: ext(3, be(s, o + 1, 2)); break;
	case 0xc9: ext(5, be(s, o + 1, 4)); break;
	case 0xca: { uint32_t u = (uint32_t)be(s, o + 1, 4); float f; memcpy(&f, &u, 4); e.d = f; leaf('d', 5, 0); break; }
	case 0xcb: { uint64_t u = be(s, o + 1, 8); memcpy(&e.d, &u, 8); leaf('d', 9, 0); break; }
	case 0xcc: num(1, false); break; case 0xcd: num(2, false); break; case 0xce: num(4, false); break; case 0xcf: num(8, false); break;
	case 0xd0: num(1, true); break; case 0xd1: num(2, true); break; case 0xd2: num(4, true); break; case 0xd3: num(8, true); break;
	case 0xd4: ext(1, 1); break; case 0xd5: ext(1, 2); break; case 0xd6: ext(1, 4); break; case 0xd7: ext(1, 8); break; case 0xd8: ext(1, 16); break;
	case 0xdc: cont('l', 3, be(s, o + 1, 2)); break; case 0xdd: cont('l', 5, be(s, o + 1, 4)); break;
	case 0xde: cont('m', 3, be(s, o + 1, 2)); break; case 0xdf: cont('m', 5, be(s, o + 1, 4)); break;
	default: fail("harness", "unexpected byte %02x", c);
	}
	return e;
}

// all elements of s in preorder with their ends (explicit stack)
static std::vector<El> parse(const Bytes& s)
{
	std::vector<El> v;
	std::vector<std::pair<size_t, uint64_t>> st;	// element, remaining children
	size_t o = 0;
	while (o < s.size() || !st.empty()) {
		if (!st.empty() && st.back().second == 0) { v[st.back().first].end = o; st.pop_back(); continue; }
		if (o >= s.size()) fail("harness", "generated bytes are truncated");
		if (!st.empty()) st.back().second--;
		El e = head(s, o);
		v.push_back(e);
		if (e.k == 'l' || e.k == 'm') { o += e.hdr; st.emplace_back(v.size() - 1, e.k == 'm' ? 2 * e.len : e.len); }
		else o = e.end;
	}
	return v;
}

static void element(const Bytes& s, const uint8_t* p, const El& e, bool decode)
{
	as_unpacker base = {p, (uint32_t)e.off, (uint32_t)s.size()}, up = base;
	int64_t n = as_unpack_size(&up);
	VF_CHECK(n == (int64_t)(e.end - e.off) && up.offset == e.end, "skip", "element '%c' at %zu: as_unpack_size %lld, cursor %u; expected %zu, %zu (%s)", e.k, e.off, (long long)n, up.offset, e.end - e.off, e.end,
			hex(s.substr(e.off, 40)).c_str());
	as_val_t t = as_unpack_peek_type(&base), want = AS_UNDEF;
	switch (e.k) {
	case 'n': want = AS_NIL; break; case 'b': want = AS_BOOLEAN; break; case 'i': want = AS_INTEGER; break; case 'd': want = AS_DOUBLE; break;
	case 'l': want = AS_LIST; break; case 'm': want = AS_MAP; break;
	case 'x': want = AS_CMP_EXT; if ((uint8_t)s[e.off] == 0xd4 && e.xt == 0xff) { uint8_t m = p[e.off + 2]; want = m == 0 ? AS_CMP_WILDCARD : m == 1 ? AS_CMP_INF : AS_CMP_EXT; } break;
	case 's': { uint8_t bt = e.len ? p[e.off + e.hdr] : 0; want = bt == AS_BYTES_STRING ? AS_STRING : bt == AS_BYTES_GEOJSON ? AS_GEOJSON : AS_BYTES; break; }
	}
	VF_CHECK(t == want, "peek-type", "element '%c' at %zu (%s): peeked %d, expected %d", e.k, e.off, hex(s.substr(e.off, 8)).c_str(), t, want);
	VF_CHECK(as_unpack_buf_peek_type(p + e.off, (uint32_t)(s.size() - e.off)) == want, "peek-type", "as_unpack_buf_peek_type differs");
	VF_CHECK(as_unpack_peek_is_ext(&base) == (e.k == 'x'), "peek-ext", "element '%c' at %zu: is_ext %d", e.k, e.off, e.k != 'x');

	bool b = !e.b; int64_t i = 0; uint64_t u = 0; double d = 0; uint32_t sz = 0; as_msgpack_ext x;
	up = base; bool ok = as_unpack_boolean(&up, &b) == 0;
	VF_CHECK(ok == (e.k == 'b') && (!ok || (b == e.b && up.offset == e.end)), "boolean", "as_unpack_boolean on '%c': %s, value %d", e.k, ok ? "accepted" : "refused", b);
	up = base; ok = as_unpack_nil(&up) == 0;
	VF_CHECK(ok == (e.k == 'n') && (!ok || up.offset == e.end), "nil", "as_unpack_nil on '%c': %s", e.k, ok ? "accepted" : "refused");
	up = base; ok = as_unpack_int64(&up, &i) == 0;
	VF_CHECK(ok == (e.k == 'i') && (!ok || (i == e.i && up.offset == e.end)), "int64", "as_unpack_int64 on '%c' (%s): %s, value %lld, expected %lld", e.k, hex(s.substr(e.off, 9)).c_str(), ok ? "accepted" : "refused", (long long)i, (long long)e.i);
	up = base; ok = as_unpack_uint64(&up, &u) == 0;
	VF_CHECK(ok == (e.k == 'i') && (!ok || (u == (uint64_t)e.i && up.offset == e.end)), "uint64", "as_unpack_uint64 on '%c': %s, value %llu", e.k, ok ? "accepted" : "refused", (unsigned long long)u);
	up = base; ok = as_unpack_double(&up, &d) == 0;
	VF_CHECK(ok == (e.k == 'd') && (!ok || ((dbits(d) == dbits(e.d) || (isnan(d) && isnan(e.d))) && up.offset == e.end)), "double", "as_unpack_double on '%c': %s, value %a, expected %a", e.k, ok ? "accepted" : "refused", d, e.d);
	for (int k = 0; k < 2; k++) {
		up = base;
		const uint8_t* q = k ? as_unpack_bin(&up, &sz) : as_unpack_str(&up, &sz);
		VF_CHECK((q != NULL) == (e.k == 's') && (!q || (q == p + e.off + e.hdr && sz == e.len && up.offset == e.end)), "str-bin", "as_unpack_%s on '%c' (%s): %s, size %u, expected %llu", k ? "bin" : "str", e.k,
				hex(s.substr(e.off, 6)).c_str(), q ? "accepted" : "refused", sz, (unsigned long long)e.len);
	}
	up = base; n = as_unpack_blob_size(&up);
	VF_CHECK(e.k == 's' ? n == (int64_t)e.len && up.offset == e.off + e.hdr : n < 0, "blob-size", "as_unpack_blob_size on '%c': %lld, expected %llu", e.k, (long long)n, (unsigned long long)e.len);
	up = base; ok = as_unpack_ext(&up, &x) == 0;
	if (e.k == 'x' || ok) VF_CHECK(ok && e.k == 'x' && x.type == e.xt && x.size == e.len && x.data == p + e.off + e.hdr && x.type_offset == e.off + e.hdr - 1 && up.offset == e.end, "ext",
			"as_unpack_ext on '%c' (%s): %s type %u size %u, expected %u %llu", e.k, hex(s.substr(e.off, 6)).c_str(), ok ? "accepted" : "refused", ok ? x.type : 0, ok ? x.size : 0, e.xt, (unsigned long long)e.len);
	up = base; n = as_unpack_list_header_element_count(&up);
	VF_CHECK(e.k == 'l' ? n == (int64_t)e.len && up.offset == e.off + e.hdr : n < 0, "list-count", "list header count on '%c': %lld, expected %llu", e.k, (long long)n, (unsigned long long)e.len);
	VF_CHECK(as_unpack_buf_list_element_count(p + e.off, (uint32_t)(s.size() - e.off)) == n, "list-count", "as_unpack_buf_list_element_count differs");
	up = base; n = as_unpack_map_header_element_count(&up);
	VF_CHECK(e.k == 'm' ? n == (int64_t)e.len && up.offset == e.off + e.hdr : n < 0, "map-count", "map header count on '%c': %lld, expected %llu", e.k, (long long)n, (unsigned long long)e.len);
	VF_CHECK(as_unpack_buf_map_element_count(p + e.off, (uint32_t)(s.size() - e.off)) == n, "map-count", "as_unpack_buf_map_element_count differs");
	if (decode) {
		as_val* v = NULL;
		up = base;
		int rc = as_unpack_val(&up, &v);
		VF_CHECK(rc == 0 && up.offset == e.end, "decode-end", "element '%c' at %zu: decode %d, cursor %u, expected %zu", e.k, e.off, rc, up.offset, e.end);
		// a map flagged preserve-order decodes to a list of pairs
		bool list_of_pairs = e.k == 'm' && v && as_val_type(v) == AS_LIST;
		if (e.k != 'x') VF_CHECK(v && (as_val_type(v) == t || list_of_pairs), "decode-type", "element '%c' at %zu: decoded type %d, peeked %d", e.k, e.off, v ? as_val_type(v) : -1, t);
		if (v) as_val_destroy(v);
		count("decoded_elements");
	}
	char nm[] = "kind_?";
	nm[5] = e.k;
	count(nm);
	count("evals");
}

static bool plain(const Node& n)	// no wildcard/infinity inside containers (those do not decode)
{
	if (n.t == WILD || n.t == INF) return false;
	for (auto& k : n.kids) if (!plain(k)) return false;
	for (auto& e : n.ents) if (!plain(e.second)) return false;
	return true;
}

static void stream(const Bytes& s, Rng& r, bool decode)
{
	std::vector<El> v = parse(s);
	uint8_t* p = (uint8_t*)malloc(s.size());
	memcpy(p, s.data(), s.size());
	int64_t live = live_allocs();
	size_t step = v.size() > 400 ? v.size() / 200 : 1;	// big containers: a sample of elements
	for (size_t i = 0; i < v.size(); i += (size_t)(step == 1 ? 1 : 1 + r.below(2 * step))) {
		element(s, p, v[i], decode && (i == 0 || v[i].k != 'x'));
		if (v.size() > 400) progress();
	}
	VF_CHECK(live_allocs() == live, "leak", "inspection left blocks");
	free(p);
	seen("distinct", hash_bytes(s.data(), s.size()));
	count("streams");
}

// Lists of more than 2^31 elements: one small integer per byte, the pages all
// being the zero page.
static void vast(Rng& r)
{
	scenario("vast");
	size_t room = 0x100000000ull;
	uint8_t* p = (uint8_t*)mmap(NULL, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { count("vast_skipped"); return; }
	for (int i = 0; i < 40; i++) {
		uint64_t n = 0xffffffffull - 6 - (r.chance(1, 2) ? r.below(3) : r.below(0x7ffffff0));
		if (r.chance(1, 6)) n = 0x80000000u - r.below(3);
		p[1] = 0xdd; p[2] = (uint8_t)(n >> 24); p[3] = (uint8_t)(n >> 16); p[4] = (uint8_t)(n >> 8); p[5] = (uint8_t)n;
		as_unpacker u = {p, 1, (uint32_t)(n + 6)};
		VF_CHECK(as_unpack_peek_type(&u) == AS_LIST, "peek-type", "a list of %llu elements is not one", (unsigned long long)n);
		int64_t k = as_unpack_list_header_element_count(&u);
		VF_CHECK(k == (int64_t)n && u.offset == 6, "list-count", "list header count %lld, expected %llu", (long long)k, (unsigned long long)n);
		k = as_unpack_buf_list_element_count(p + 1, (uint32_t)(n + 5));
		VF_CHECK(k == (int64_t)n, "list-count", "list element count %lld, expected %llu", (long long)k, (unsigned long long)n);
		p[1] = 0xdf;			// only counted: so many pairs would not fit
		u.offset = 1;
		k = as_unpack_map_header_element_count(&u);
		VF_CHECK(k == (int64_t)n && u.offset == 6, "map-count", "map header count %lld, expected %llu", (long long)k, (unsigned long long)n);
		k = as_unpack_buf_map_element_count(p + 1, (uint32_t)(n + 5));
		VF_CHECK(k == (int64_t)n, "map-count", "map element count %lld, expected %llu", (long long)k, (unsigned long long)n);
		seen("distinct", n);
		// a text or blob as long
		p[1] = r.chance(1, 2) ? 0xdb : 0xc6;
		u.offset = 1;
		uint32_t sz = 0;
		const uint8_t* q = r.chance(1, 2) ? as_unpack_str(&u, &sz) : as_unpack_bin(&u, &sz);
		VF_CHECK(q == p + 6 && sz == n && u.offset == n + 6, "str-bin", "a text of %llu bytes: %s, %u bytes, cursor %u", (unsigned long long)n, q ? "accepted" : "refused", sz, u.offset);
		u.offset = 1;
		VF_CHECK(as_unpack_blob_size(&u) == (int64_t)n && u.offset == 6, "blob-size", "blob size of %llu bytes", (unsigned long long)n);
		u.offset = 1;
		k = as_unpack_size(&u);
		VF_CHECK(k == (int64_t)n + 5 && u.offset == n + 6, "skip", "skipping a text of %llu bytes: %lld, cursor %u", (unsigned long long)n, (long long)k, u.offset);
		// an extension as long
		p[1] = 0xc9;
		n--;
		p[2] = (uint8_t)(n >> 24); p[3] = (uint8_t)(n >> 16); p[4] = (uint8_t)(n >> 8); p[5] = (uint8_t)n;
		u.offset = 1;
		as_msgpack_ext x;
		memset(&x, 0, sizeof x);
		VF_CHECK(as_unpack_ext(&u, &x) == 0 && x.size == n && x.data == p + 7 && u.offset == n + 7, "ext", "an extension of %llu bytes: size %u, cursor %u", (unsigned long long)n, x.size, u.offset);
		u.offset = 1;
		k = as_unpack_size(&u);
		VF_CHECK(k == (int64_t)n + 6 && u.offset == n + 7, "skip", "skipping an extension of %llu bytes: %lld, cursor %u", (unsigned long long)n, (long long)k, u.offset);
		count("vast");
	}
	munmap(p, room);
}

static void one(uint64_t idx, Rng& r)
{
	if (idx % 2000 == 7) vast(r);
	Opt o;
	o.maxlen = r.chance(1, 30) ? 70000 : 40;
	o.maxkids = 5;
	o.maxdepth = 4;
	o.wild = r.chance(1, 4);
	o.big = r.chance(1, 100) ? 3 : 0;
	scenario("stream");
	Bytes s;
	bool dec = true;
	for (uint64_t k = r.range(1, 4); k; k--) {
		Node n = gen_tree(r, o);
		dec = dec && plain(n);
		if (r.chance(1, 3)) enc(s, n); else enc_alt(s, n, r);
	}
	if (r.chance(1, 3)) {
		size_t n = r.chance(1, 20) ? (size_t)r.range(250, 70000) : (size_t)r.below(40);
		hdr_ext(s, n, (uint8_t)r.u64());
		s += gen_blob(r, n);
	}
	stream(s, r, dec);

	if (r.chance(1, 8)) {
		scenario("deep");
		o.wild = false;
		static const int ds[] = {254, 255, 256, 257, 258, 511, 512, 513, 514, 768, 1030, 3000};
		int d = ds[r.below(12)] + (int)r.below(3);
		Bytes pre, post;
		std::vector<Bytes> posts;
		bool flagged = r.chance(1, 2);
		for (int i = 0; i < d; i++) {
			Node a = gen_scalar(r, Opt()), k;
			if (a.s.size() > 20) a.s.resize(20);
			if (r.chance(1, 2)) {
				int before = (int)r.below(2), after = (int)r.below(2);
				hdr_list(pre, (uint64_t)(1 + before + after), r.chance(1, 5) ? 3 : 0);
				if (before) enc(pre, a);
				post.clear();
				if (after) enc(post, a);
			}
			else {
				k.t = INT; k.i = 5;
				int before = (int)r.below(2), after = (int)r.below(2), f = flagged ? 1 : 0;
				hdr_map(pre, (uint64_t)(1 + before + after + f), r.chance(1, 5) ? 3 : 0);
				if (f) { hdr_ext(pre, 0, 1); pre += (char)0xc0; }
				if (before) { k.i = 4; enc(pre, k); enc(pre, a); k.i = 5; }
				enc(pre, k);
				post.clear();
				if (after) { k.i = 6; enc(post, k); enc(post, a); }
			}
			posts.push_back(post);
		}
		enc(pre, gen_scalar(r, o));
		for (size_t i = posts.size(); i--;) pre += posts[i];
		if (r.chance(1, 2)) enc(pre, gen_scalar(r, o));		// a following element
		stream(pre, r, d < 1200);
		count("deep_streams");
	}
}

int main(int argc, char** argv)
{
	for (const char* k : {"kind_n", "kind_b", "kind_i", "kind_d", "kind_s", "kind_l", "kind_m", "kind_x"}) floor_of(k, 500);
	floor_of("deep_streams", 50); floor_of("decoded_elements", 5000);
	return run(argc, argv, 16000, 300000, one);
}
