// P05: packed comparison, value comparison and the reference order agree.
#include "gen.hpp"
using namespace vf;
using namespace gen;

static int sign(msgpack_compare_t c)
{
	switch (c) {
	case MSGPACK_COMPARE_LESS: return -1;
	case MSGPACK_COMPARE_EQUAL: return 0;
	case MSGPACK_COMPARE_GREATER: return 1;
	default: return 9;
	}
}

static int packed(const Bytes& x, const Bytes& y, const Bytes& tail, const Node& a, const Node& b)
{
	Bytes xs = x + tail, ys = y + tail;
	uint8_t* p = (uint8_t*)malloc(xs.size());
	uint8_t* q = (uint8_t*)malloc(ys.size());
	memcpy(p, xs.data(), xs.size());
	memcpy(q, ys.data(), ys.size());
	as_unpacker u1 = {p, 0, (uint32_t)xs.size()}, u2 = {q, 0, (uint32_t)ys.size()};
	int64_t live = live_allocs();
	int c = sign(as_unpack_compare(&u1, &u2));
	VF_CHECK(live_allocs() == live, "leak", "comparison left blocks");
	if (c != 9) VF_CHECK(u1.offset == x.size() && u2.offset == y.size(), "cursor", "comparing %s with %s (result %d): cursors at %u and %u instead of %zu and %zu",
			show(a).c_str(), show(b).c_str(), c, u1.offset, u2.offset, x.size(), y.size());
	int c2 = sign(as_unpack_buf_compare(p, (uint32_t)xs.size(), q, (uint32_t)ys.size()));
	VF_CHECK(c == c2, "buf-compare", "as_unpack_compare %d, as_unpack_buf_compare %d", c, c2);
	bool less = as_unpack_buf_is_less(p, (uint32_t)xs.size(), q, (uint32_t)ys.size());
	VF_CHECK(less == (c == -1), "buf-less", "compare gives %d but is_less %d", c, less);
	free(p);
	free(q);
	return c;
}

static void pair_check(const Node& a, const Node& b, Rng& r, bool alt)
{
	int want = ref_cmp(a, b);
	as_val* va = to_val(a);
	as_val* vb = to_val(b);
	int v1 = sign(as_val_cmp(va, vb)), v2 = sign(as_val_cmp(vb, va));
	as_val_destroy(va);
	as_val_destroy(vb);
	VF_CHECK(v1 == want && v2 == -want, "value-compare", "as_val_cmp(%s, %s) = %d, reversed %d, expected %d", show(a).c_str(), show(b).c_str(), v1, v2, want);
	Bytes x, y;
	if (alt) { enc_alt(x, a, r, false); enc_alt(y, b, r, false); count("alternate_encodings"); }
	else { x = enc(a); y = enc(b); }
	Bytes tail;
	if (r.chance(2, 3)) tail = Bytes("\x93\x01\xc0\xc3", r.below(5));
	int p1 = packed(x, y, tail, a, b), p2 = packed(y, x, tail, b, a);
	VF_CHECK(p1 == want && p2 == -want, "packed-compare", "packed compare of %s and %s = %d, reversed %d, expected %d (%s / %s)", show(a).c_str(), show(b).c_str(), p1, p2, want,
			hex(x).c_str(), hex(y).c_str());
	VF_CHECK(packed(x, x, tail, a, a) == 0, "packed-reflexive", "%s differs from itself", show(a).c_str());
	count(want < 0 ? "less" : want > 0 ? "greater" : "equal");
	count("evals");
	seen("distinct", hash2(hash_bytes(x.data(), x.size()), hash_bytes(y.data(), y.size())));
}

// a copy with one small change somewhere
static void tweak(Node& n, Rng& r, const Opt& o)
{
	if (n.t == LIST && !n.kids.empty() && r.chance(3, 4)) {
		switch (r.below(4)) {
		case 0: n.kids.erase(n.kids.begin() + (long)r.below(n.kids.size())); break;
		case 1: n.kids.insert(n.kids.begin() + (long)r.below(n.kids.size() + 1), gen_scalar(r, o)); break;
		default: tweak(n.kids[r.below(n.kids.size())], r, o); break;
		}
		return;
	}
	if (n.t == MAP && !n.ents.empty() && r.chance(3, 4)) {
		size_t i = r.below(n.ents.size());
		switch (r.below(5)) {
		case 0: n.ents.erase(n.ents.begin() + (long)i); break;
		case 1: n.ents[i].first = gen_key(r, o); sort_map(n); break;
		case 2: n.ents.emplace_back(gen_key(r, o), gen_scalar(r, o)); sort_map(n); break;
		default: tweak(n.ents[i].second, r, o); break;
		}
		return;
	}
	if ((n.t == STR || n.t == BLOB || n.t == GEO) && !n.s.empty() && r.chance(1, 2)) {
		if (r.chance(1, 2)) n.s.resize(r.below(n.s.size()));
		else { char& c = n.s[r.below(n.s.size())]; c = (char)(c == 'z' ? 'y' : 'z'); }
		return;
	}
	if (n.t == INT && r.chance(1, 2)) { n.i = (int64_t)((uint64_t)n.i + (uint64_t)r.range(-2, 2)); return; }
	n = gen_scalar(r, o);
}

// Wrap both sides in 'depth' levels.  'noise' is the chance (per mille) of a level
// whose later siblings differ; one level 'focus' (1 = outermost) always does.
static void wrap(Node& a, Node& b, int depth, int noise, int focus, Rng& r, const Opt& o)
{
	for (int d = 0; d < depth; d++) {
		Node x, y;
		bool odd = depth - d == focus || r.chance((uint32_t)noise, 1000);
		bool lead = r.chance(1, 4);
		if (r.chance(1, 2)) {
			x.t = y.t = LIST;
			if (lead) { Node s = gen_scalar(r, o); if (s.t == WILD) s.t = NIL; x.kids.push_back(s); y.kids.push_back(s); }
			if (odd && o.wild && r.chance(1, 3)) { Node w; w.t = WILD; (r.chance(1, 2) ? x : y).kids.push_back(w); }
			x.kids.push_back(std::move(a));
			y.kids.push_back(std::move(b));
			if (odd) {
				for (uint64_t k = r.below(3); k; k--) x.kids.push_back(gen_scalar(r, o));
				for (uint64_t k = r.below(3); k; k--) y.kids.push_back(gen_scalar(r, o));
			}
		}
		else {
			x.t = y.t = MAP;
			x.flags = y.flags = (uint32_t)o.map_flags;
			Node k;
			k.t = INT;
			if (lead) { k.i = 1; Node s = gen_scalar(r, o); if (s.t == WILD) s.t = NIL; x.ents.emplace_back(k, s); y.ents.emplace_back(k, s); }
			if (odd && o.wild && r.chance(1, 4)) { k.i = 2; Node w, z; w.t = WILD; z = gen_scalar(r, o); x.ents.emplace_back(k, w); y.ents.emplace_back(k, z); }
			k.i = 3;
			x.ents.emplace_back(k, std::move(a));
			y.ents.emplace_back(k, std::move(b));
			if (odd) {
				uint64_t n = r.below(3), m = r.chance(1, 2) ? n : r.below(3);
				for (uint64_t q = 0; q < n; q++) { k.i = 4 + (int64_t)q; x.ents.emplace_back(k, gen_scalar(r, o)); }
				for (uint64_t q = 0; q < m; q++) { k.i = 4 + (int64_t)q; y.ents.emplace_back(k, gen_scalar(r, o)); }
			}
		}
		a = std::move(x);
		b = std::move(y);
	}
}

static bool has_wild(const Node& n)
{
	if (n.t == WILD) return true;
	for (auto& k : n.kids) if (has_wild(k)) return true;
	for (auto& e : n.ents) if (has_wild(e.second)) return true;
	return false;
}

// Extension elements have no value form; packed they are ordered by type, then
// by content.
static void extensions(Rng& r)
{
	scenario("extensions");
	struct X { uint8_t t; Bytes c; };
	std::vector<X> pool;
	for (int i = 0; i < 5; i++) {
		X x;
		x.t = (uint8_t)(r.chance(1, 2) ? r.below(3) : r.below(255));		// 255 is the markers' type
		size_t n = r.chance(1, 2) ? (size_t)r.below(20) : r.chance(1, 8) ? (size_t)r.range(250, 300) : (size_t)(1u << r.below(5));
		if (r.chance(1, 60)) n = (size_t)r.range(65530, 65545);
		x.c = gen_blob(r, n);
		pool.push_back(x);
		X y = x;			// a near copy
		switch (r.below(5)) {
		case 0: y.c += (char)r.u64(); break;
		case 1: if (y.c.size()) y.c.pop_back(); break;
		case 2: if (y.c.size()) y.c[r.below(y.c.size())] ^= (char)(1u << r.below(8)); break;
		case 3: y.t ^= 1; break;
		default: break;
		}
		pool.push_back(y);
	}
	auto pack = [&](const X& x) {
		Bytes o;
		size_t n = x.c.size();
		int w = r.chance(1, 2) ? 0 : n < 256 ? 1 + (int)r.below(3) : n < 65536 ? 2 + (int)r.below(2) : 3;
		if (!w) hdr_ext(o, n, x.t);
		else { o += (char)(0xc6 + w); put(o, n, 1 << (w - 1)); o += (char)x.t; }
		return o + x.c;
	};
	auto cmp = [](uint64_t a, uint64_t b) { return a < b ? -1 : a > b ? 1 : 0; };
	Node none;
	for (auto& a : pool) for (auto& b : pool) {
		size_t m = std::min(a.c.size(), b.c.size());
		int c = cmp(a.t, b.t);
		if (!c) { int k = memcmp(a.c.data(), b.c.data(), m); c = k < 0 ? -1 : k > 0 ? 1 : cmp(a.c.size(), b.c.size()); }
		bool list = r.chance(1, 3);
		Bytes x = pack(a), y = pack(b);
		if (list) { x = "\x91" + x; y = "\x91" + y; }
		int got = packed(x, y, r.chance(1, 2) ? Bytes() : Bytes("\xc0", 1), none, none);
		VF_CHECK(got == c, "ext-compare", "extension type %u with %zu bytes against type %u with %zu bytes: %d instead of %d", a.t, a.c.size(), b.t, b.c.size(), got, c);
		count("extension_pairs");
		seen("distinct", hash2(hash_bytes(x.data(), x.size()), hash_bytes(y.data(), y.size())));
	}
}

static void one(uint64_t idx, Rng& r)
{
	if (idx % 8 == 5) extensions(r);
	Opt o;
	o.nan = false;
	o.maxlen = 30;
	o.maxkids = 4;
	o.maxdepth = 4;
	o.small = r.chance(1, 2);
	o.map_flags = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : 3;
	o.wild = r.chance(1, 3);
	bool alt = o.map_flags == 0 && r.chance(1, 2);	// ordering metadata has one form here
	scenario("shallow");
	std::vector<Node> pool;
	for (int i = 0; i < 4; i++) pool.push_back(gen_tree(r, o));
	Node t = pool[0];
	tweak(t, r, o);
	pool.push_back(t);
	tweak(t, r, o);
	pool.push_back(t);
	if (o.wild && r.chance(1, 2)) { Node w; w.t = r.chance(1, 2) ? WILD : INF; pool.push_back(w); }
	for (auto& a : pool) for (auto& b : pool) pair_check(a, b, r, alt);
	for (auto& a : pool) if (has_wild(a)) { count("with_wildcard"); break; }
	if (o.map_flags) count("ordered_maps");

	scenario("deep");
	static const int depths[] = {3, 20, 250, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 514, 515, 770, 1025, 2000};
	int d = depths[r.below(sizeof depths / sizeof depths[0])] + (int)r.below(4);
	Node a = pool[r.below(pool.size())], b = r.chance(2, 3) ? a : pool[r.below(pool.size())];
	if (r.chance(1, 2)) tweak(b, r, o);
	static const int noise[] = {0, 0, 2, 20, 250};
	static const int focus[] = {0, 1, 2, 255, 256, 257, 258, 512, 513, 514, 768, 769};
	wrap(a, b, d, noise[r.below(5)], focus[r.below(12)], r, o);
	trace("depth %d", d);
	pair_check(a, b, r, alt);
	if (d > 256) count("deep_pairs");
	if (d > 520) count("very_deep_pairs");
	if (idx < 8) sample("%s <=> %s: %d", show(pool[0]).c_str(), show(pool[4]).c_str(), ref_cmp(pool[0], pool[4]));
}

int main(int argc, char** argv)
{
	floor_of("less", 1000); floor_of("greater", 1000); floor_of("equal", 1000); floor_of("deep_pairs", 200); floor_of("very_deep_pairs", 50);
	floor_of("with_wildcard", 100); floor_of("ordered_maps", 100); floor_of("alternate_encodings", 100); floor_of("extension_pairs", 1000);
	return run(argc, argv, 12000, 240000, one);
}
