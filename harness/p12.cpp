// P12: as_bytes against an ideal bounded byte array.
#include "gen.hpp"
using namespace vf;
using namespace gen;

struct Model {
	std::vector<int> b;		// -1: never written (gap), not compared
	uint32_t cap;
};

static uint32_t odd_index(Rng& r, uint32_t n)
{
	switch (r.below(8)) {
	case 0: return n;
	case 1: return n + 1;
	case 2: return (uint32_t)r.u64();
	case 3: return UINT32_MAX - (uint32_t)r.below(12);
	default: return (uint32_t)r.below((uint64_t)n + 2);
	}
}

static void compare(const as_bytes* b, const Model& m, const char* op)
{
	VF_CHECK(as_bytes_size(b) == m.b.size(), "size", "after %s: size %u, ideal %zu", op, as_bytes_size(b), m.b.size());
	VF_CHECK(as_bytes_capacity(b) == m.cap, "capacity", "after %s: capacity %u, ideal %u", op, as_bytes_capacity(b), m.cap);
	const uint8_t* p = as_bytes_get(b);
	uint32_t sz = 77;
	VF_CHECK(as_bytes_tobytes(b, &sz) == p && sz == m.b.size(), "tobytes", "tobytes disagrees");
	VF_CHECK(as_bytes_getorelse(b, NULL) == p, "getorelse", "getorelse disagrees");
	for (size_t i = 0; i < m.b.size(); i++)
		if (m.b[i] >= 0) VF_CHECK(p[i] == m.b[i], "content", "after %s: byte %zu of %zu is %02x, ideal %02x", op, i, m.b.size(), p[i], m.b[i]);
	count("comparisons");
}

static bool model_set(Model& m, uint32_t idx, const uint8_t* p, uint32_t n)
{
	if ((uint64_t)idx + n > m.cap) return false;
	if ((uint64_t)idx + n > m.b.size()) m.b.resize((size_t)idx + n, -1);
	for (uint32_t i = 0; i < n; i++) m.b[idx + i] = p[i];
	return true;
}

static uint32_t vlen(uint32_t v) { return v < (1u << 7) ? 1 : v < (1u << 14) ? 2 : v < (1u << 21) ? 3 : v < (1u << 28) ? 4 : 5; }

static void history(as_bytes* b, Model& m, Rng& r, int nops, uint64_t sig)
{
	for (int k = 0; k < nops; k++) {
		int op = (int)r.below(12);
		sig = hash2(sig, (uint64_t)op);
		uint32_t n = (uint32_t)m.b.size();
		switch (op) {
		case 0: case 1: {			// raw set / append
			uint32_t len = r.chance(1, 6) ? 0 : (uint32_t)r.below(20);
			if (r.chance(1, 15)) len = m.cap - (uint32_t)std::min<uint64_t>(m.cap, r.below(3));
			Bytes src = gen_blob(r, len);
			bool app = op == 1;
			uint32_t idx = app ? n : odd_index(r, n);
			// lengths whose sum with the index wraps around
			uint32_t claim = len;
			if (!app && r.chance(1, 10) && idx > 0) { claim = (uint32_t)(0 - idx) + (uint32_t)r.below(4); if ((uint64_t)idx + claim <= m.cap) claim = len; }
			bool ok = app ? as_bytes_append(b, (const uint8_t*)src.data(), claim) : as_bytes_set(b, idx, (const uint8_t*)src.data(), claim);
			trace("%s %u at %u -> %d (size %u cap %u)", app ? "append" : "set", claim, idx, ok, n, m.cap);
			bool want = (uint64_t)idx + claim <= m.cap;
			VF_CHECK(ok == want, "set-result", "%s of %u bytes at %u with capacity %u returned %d", app ? "append" : "set", claim, idx, m.cap, ok);
			if (want) { model_set(m, idx, (const uint8_t*)src.data(), claim); count("sets"); } else count("refused_sets");
			break;
		}
		case 2: case 3: {			// typed set / append
			uint8_t raw[8];
			r.fill(raw, 8);
			int16_t a; int32_t c; int64_t d; double f;
			memcpy(&a, raw, 2); memcpy(&c, raw, 4); memcpy(&d, raw, 8); memcpy(&f, raw, 8);
			int t = (int)r.below(5);
			if (t == 4) { f = gen_double(r, false); memcpy(raw, &f, 8); }
			static const uint32_t w[] = {1, 2, 4, 8, 8};
			bool app = op == 3;
			uint32_t idx = app ? n : odd_index(r, n);
			bool ok;
			if (app) ok = t == 0 ? as_bytes_append_byte(b, raw[0]) : t == 1 ? as_bytes_append_int16(b, a) : t == 2 ? as_bytes_append_int32(b, c) : t == 3 ? as_bytes_append_int64(b, d) : as_bytes_append_double(b, f);
			else ok = t == 0 ? as_bytes_set_byte(b, idx, raw[0]) : t == 1 ? as_bytes_set_int16(b, idx, a) : t == 2 ? as_bytes_set_int32(b, idx, c) : t == 3 ? as_bytes_set_int64(b, idx, d) : as_bytes_set_double(b, idx, f);
			trace("typed %s %u at %u -> %d (size %u cap %u)", app ? "append" : "set", w[t], idx, ok, n, m.cap);
			bool want = (uint64_t)idx + w[t] <= m.cap;
			VF_CHECK(ok == want, "set-result", "typed write of %u bytes at %u with capacity %u returned %d", w[t], idx, m.cap, ok);
			if (want) { model_set(m, idx, raw, w[t]); count("sets"); } else count("refused_sets");
			break;
		}
		case 4: case 5: {			// reads
			int t = (int)r.below(6);
			uint32_t idx = odd_index(r, n);
			static const uint32_t w[] = {1, 2, 4, 8, 8};
			uint32_t len = t < 5 ? w[t] : (uint32_t)r.below(24);
			std::vector<uint8_t> raw(len + 8, 0xA5);
			uint32_t claim = len;
			if (t == 5 && r.chance(1, 8) && idx > 0) { claim = (uint32_t)(0 - idx) + (uint32_t)r.below(4); if ((uint64_t)idx + claim <= n) claim = len; }
			uint32_t got;
			// unaligned targets are the caller's business: use aligned locals
			uint8_t x1 = 0xA5; int16_t x2; int32_t x4; int64_t x8; double xd;
			memset(&x2, 0xA5, 2); memset(&x4, 0xA5, 4); memset(&x8, 0xA5, 8); memset(&xd, 0xA5, 8);
			switch (t) {
			case 0: got = as_bytes_get_byte(b, idx, &x1); raw[0] = x1; break;
			case 1: got = as_bytes_get_int16(b, idx, &x2); memcpy(&raw[0], &x2, 2); break;
			case 2: got = as_bytes_get_int32(b, idx, &x4); memcpy(&raw[0], &x4, 4); break;
			case 3: got = as_bytes_get_int64(b, idx, &x8); memcpy(&raw[0], &x8, 8); break;
			case 4: got = as_bytes_get_double(b, idx, &xd); memcpy(&raw[0], &xd, 8); break;
			default: got = as_bytes_copy(b, idx, &raw[0], claim); break;
			}
			trace("read %u at %u -> %u (size %u)", claim, idx, got, n);
			bool want = (uint64_t)idx + claim <= n;
			VF_CHECK(got == (want ? claim : 0), "read-result", "read of %u bytes at %u of %u returned %u", claim, idx, n, got);
			for (uint32_t i = 0; i < len + 8; i++) {
				if (want && i < claim) { if (m.b[idx + i] >= 0) VF_CHECK(raw[i] == m.b[idx + i], "read", "byte %u read from %u is %02x, ideal %02x", i, idx, raw[i], m.b[idx + i]); }
				else VF_CHECK(raw[i] == 0xA5, "read-wrote", "read of %u bytes at %u of %u touched target byte %u", claim, idx, n, i);
			}
			count(want ? "reads" : "refused_reads");
			break;
		}
		case 6: {
			uint32_t cut = r.chance(1, 3) ? odd_index(r, n) : (uint32_t)r.below((uint64_t)n + 1);
			bool ok = as_bytes_truncate(b, cut);
			trace("truncate %u of %u -> %d", cut, n, ok);
			VF_CHECK(ok == (cut <= n), "truncate", "truncating %u of %u returned %d", cut, n, ok);
			if (ok) { m.b.resize(n - cut); count("truncations"); }
			break;
		}
		case 7: {
			bool resize = r.chance(1, 2);
			uint32_t want = (uint32_t)r.below((uint64_t)m.cap + 40);
			const uint8_t* p = as_bytes_get(b);
			bool ok = as_bytes_ensure(b, want, resize);
			trace("ensure %u resize %d -> %d (cap %u)", want, resize, ok, m.cap);
			VF_CHECK(ok == (want <= m.cap || resize), "ensure", "ensure %u (resize %d) with capacity %u returned %d", want, resize, m.cap, ok);
			if (ok && want > m.cap) { m.cap = want; count("growths"); }
			else VF_CHECK(as_bytes_get(b) == p, "moved", "buffer moved without growing");
			break;
		}
		case 8: {
			uint32_t v = r.chance(1, 2) ? (uint32_t)r.u64() >> r.below(32) : (1u << r.below(32)) - (uint32_t)r.below(2);
			uint32_t idx = odd_index(r, n);
			// set_var_int writes up to the capacity and does not move the size
			std::vector<int> area;
			const uint8_t* p = as_bytes_get(b);
			std::vector<uint8_t> before(p, p + m.cap);
			uint32_t got = as_bytes_set_var_int(b, idx, v);
			uint32_t len = vlen(v);
			trace("var int %u at %u -> %u (cap %u)", v, idx, got, m.cap);
			bool want = (uint64_t)idx + len <= m.cap;
			VF_CHECK(got == (want ? len : 0), "var-set", "var int %u at %u with capacity %u wrote %u bytes, expected %u", v, idx, m.cap, got, want ? len : 0);
			for (uint32_t i = 0; i < m.cap; i++)
				if (!(want && i >= idx && i < idx + len)) VF_CHECK(p[i] == before[i], "var-outside", "var int %u at %u changed byte %u (returned %u)", v, idx, i, got);
			if (want) {
				uint32_t back = ~v;
				uint32_t n2 = as_bytes_get_var_int(b, idx, &back);
				VF_CHECK(n2 == len && back == v, "var-get", "var int %u at %u reads as %u in %u bytes", v, idx, back, n2);
				for (uint32_t i = 0; i < len; i++) if (idx + i < m.b.size()) m.b[idx + i] = p[idx + i];
				count("var_ints");
			}
			else count("refused_var_ints");
			break;
		}
		case 9: {
			// reading a variable-length integer from arbitrary contents and places
			uint32_t idx = odd_index(r, m.cap);
			uint32_t v = 0x5a5a5a5a;
			uint32_t got = as_bytes_get_var_int(b, idx, &v);
			trace("get var int at %u -> %u (cap %u)", idx, got, m.cap);
			VF_CHECK(got == 0 || (uint64_t)idx + got <= m.cap, "var-bounds", "reading a var int at %u of capacity %u used %u bytes", idx, m.cap, got);
			VF_CHECK(got <= 5, "var-length", "a var int of %u bytes", got);
			if (got) {
				const uint8_t* p = as_bytes_get(b) + idx;
				uint64_t x = 0;
				for (uint32_t i = 0; i < got; i++) x |= (uint64_t)(p[i] & 0x7f) << (7 * i);
				VF_CHECK((uint32_t)x == v, "var-value", "var int at %u reads as %u, bytes say %llu", idx, v, (unsigned long long)x);
				VF_CHECK(!(p[got - 1] & 0x80), "var-end", "var int ends inside the number");
			}
			count(got ? "var_reads" : "refused_var_reads");
			break;
		}
		case 10: {
			as_bytes_type t = (as_bytes_type)r.below(24);
			as_bytes_set_type(b, t);
			VF_CHECK(as_bytes_get_type(b) == t, "type", "type not kept");
			break;
		}
		default: break;
		}
		compare(b, m, "operation");
		count("ops");
	}
	seen("distinct", sig);
	count("evals");
}

static void one(uint64_t idx, Rng& r)
{
	scenario("bytes");
	int64_t live = live_allocs();
	int nops = (int)r.range(5, 60);
	uint32_t cap = r.chance(1, 8) ? 0 : (uint32_t)r.below(50);
	if (idx % 1000 < 6) { cap = r.chance(1, 2) ? 200 + (uint32_t)r.below(800) : 65500 + (uint32_t)r.below(70000); nops = 4 + (int)r.below(12); count("long_buffers"); }
	Model m;
	m.cap = cap;
	int kind = (int)(idx % 6);
	if (idx < 6) sample("construction=%d capacity=%u ops=%d", kind, cap, nops);
	uint64_t sig = hash2((uint64_t)kind, cap);
	if (kind == 0) {
		as_bytes b;
		VF_CHECK(as_bytes_init(&b, cap) == &b, "init", "init failed");
		history(&b, m, r, nops, sig);
		as_bytes_destroy(&b);
	}
	else if (kind == 1) {
		as_bytes* b = as_bytes_new(cap);
		VF_CHECK(b, "new", "new failed");
		history(b, m, r, nops, sig);
		as_bytes_destroy(b);
	}
	else if (kind == 2) {
		as_bytes b;
		as_bytes_inita(&b, cap + 1);
		m.cap = cap + 1;
		memset(b.value, 0, m.cap);
		history(&b, m, r, nops, sig);
		as_bytes_destroy(&b);
	}
	else {
		// wrapped memory: owned, or lent and watched
		bool own = kind == 3;
		uint8_t* p = (uint8_t*)malloc(cap ? cap : 1);
		r.fill(p, cap);
		std::vector<uint8_t> orig(p, p + cap);
		for (uint32_t i = 0; i < cap; i++) m.b.push_back(p[i]);
		as_bytes st, *b;
		if (kind == 5 || (own && r.chance(1, 2))) b = as_bytes_new_wrap(p, cap, own);
		else b = as_bytes_init_wrap(&st, p, cap, own);
		if (!own && r.chance(1, 2)) {
			// after growing, the lender's memory is out of reach
			VF_CHECK(as_bytes_ensure(b, cap + 10, true), "ensure", "growing a lent buffer failed");
			m.cap = cap + 10;
			compare(b, m, "growing a lent buffer");
			VF_CHECK(as_bytes_get(b) != p || cap == 0, "lent-kept", "a lent buffer was grown in place");
			history(b, m, r, nops, sig);
			VF_CHECK(cap == 0 || memcmp(p, orig.data(), cap) == 0, "lent-changed", "lent memory changed after the buffer had moved away");
			count("lent_moved");
		}
		else history(b, m, r, nops, sig);
		as_bytes_destroy(b);
		if (!own) {
			for (uint32_t i = 0; i < cap; i++) p[i] = (uint8_t)(p[i] + 1);		// still ours
			free(p);
		}
	}
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks remain", (long long)(live_allocs() - live));
}

// every variable-length integer near a length boundary and every short pattern
int main(int argc, char** argv)
{
	floor_of("long_buffers", 100); floor_of("refused_sets", 100); floor_of("refused_reads", 100); floor_of("growths", 100); floor_of("var_ints", 100);
	floor_of("refused_var_ints", 20); floor_of("lent_moved", 50); floor_of("truncations", 50);
	return run(argc, argv, 800000, 12000000, one);
}
