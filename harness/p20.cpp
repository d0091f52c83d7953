// P20: hex conversion, bounded copy, base name and digest printing against
// reference functions, every buffer exactly as large as stated.
#include "gen.hpp"
#include <sys/mman.h>
#include <citrusleaf/cf_digest.h>
using namespace vf;
using namespace gen;

static const char HEXU[] = "0123456789ABCDEF", HEXL[] = "0123456789abcdef";

// n bytes in their own allocation; for n == 0 a pointer one past an allocation
struct Exact {
	char* base; char* p; size_t n;
	explicit Exact(size_t len) : n(len) { base = (char*)malloc(n ? n : 8); p = n ? base : base + 8; memset(base, 0x5a, n ? n : 8); }
	~Exact() { free(base); }
	Exact(const Exact&) = delete;
};

static size_t target_size(Rng& r, size_t need)
{
	if (r.chance(1, 6)) return r.below(6);
	if (r.chance(1, 2)) { int64_t v = (int64_t)need - 3 + (int64_t)r.below(6); return v < 0 ? 0 : (size_t)v; }
	return r.below(need + 20);
}

static void hex_out(Rng& r)
{
	scenario("bytes_to_string");
	size_t n = r.chance(1, 10) ? r.below(3000) : r.below(40);
	bool pre = r.chance(1, 2);
	Exact src(n);
	r.fill(src.p, n);
	std::string want = pre ? "0x" : "";
	for (size_t i = 0; i < n; i++) { want += HEXU[(uint8_t)src.p[i] >> 4]; want += HEXU[(uint8_t)src.p[i] & 15]; }
	size_t size = target_size(r, want.size() + 1);
	Exact out(size);
	bool ok = pre ? as_bytes_to_string_with_prefix((const uint8_t*)src.p, (uint32_t)n, out.p, (uint32_t)size) : as_bytes_to_string((const uint8_t*)src.p, (uint32_t)n, out.p, (uint32_t)size);
	trace("%zu bytes to hex%s into %zu -> %d", n, pre ? " with prefix" : "", size, ok);
	bool fits = want.size() + 1 <= size;
	VF_CHECK(ok == fits, "hex-result", "%zu bytes need %zu characters, target %zu: returned %d", n, want.size() + 1, size, ok);
	if (ok) VF_CHECK(strcmp(out.p, want.c_str()) == 0, "hex-text", "text '%s', expected '%s'", out.p, want.c_str());
	else if (size) VF_CHECK(memchr(out.p, 0, size), "hex-terminator", "refused text not terminated within %zu", size);
	count(ok ? "hex_ok" : "hex_refused");
	seen("distinct", hash2(hash2(n, size), 1 + pre));
	if (ok) {
		// and back, into exactly sized and too small targets, any letter case
		std::string t = want;
		for (auto& c : t) if (c != 'x' && r.chance(1, 2)) c = (char)tolower(c);
		size_t bs = r.chance(2, 3) ? n : r.below(n + 3);
		Exact back(bs), text(t.size() + 1);
		memcpy(text.p, t.c_str(), t.size() + 1);
		int rv = as_bytes_from_string((uint8_t*)back.p, (uint32_t)bs, text.p);
		VF_CHECK(rv == (bs >= n ? (int)n : -1), "unhex-result", "%zu bytes of hex into %zu returned %d", n, bs, rv);
		if (rv >= 0) VF_CHECK(memcmp(back.p, src.p, n) == 0, "unhex-bytes", "hex text did not return the original %zu bytes", n);
		count("hex_back");
	}
}

static int hexval(unsigned char c) { const char* q; if (!c) return -1; if ((q = strchr(HEXU, c))) return (int)(q - HEXU); if ((q = strchr(HEXL, c))) return (int)(q - HEXL); return -1; }

static void hex_in(Rng& r)
{
	scenario("bytes_from_string");
	std::string t;
	if (r.chance(1, 2)) t = r.chance(1, 5) ? "0X" : "0x";
	size_t n = r.below(24);
	for (size_t i = 0; i < n; i++) t += r.chance(1, 2) ? HEXU[r.below(16)] : HEXL[r.below(16)];
	if (r.chance(1, 2) && !t.empty()) {
		size_t k = r.below(t.size());
		static const char near[] = "/:@Gg`xX -+\x80\xff" "0";
		t[k] = r.chance(1, 2) ? near[r.below(sizeof near - 1)] : (char)(1 + r.below(255));
	}
	std::string body = t.compare(0, 2, "0x") == 0 ? t.substr(2) : t;
	bool good = body.size() % 2 == 0;
	Bytes want;
	for (size_t i = 0; i < body.size() && good; i++) if (hexval((unsigned char)body[i]) < 0) good = false;
	if (good) for (size_t i = 0; i < body.size(); i += 2) want += (char)(hexval((unsigned char)body[i]) * 16 + hexval((unsigned char)body[i + 1]));
	size_t bs = target_size(r, body.size() / 2);
	Exact text(t.size() + 1), out(bs);
	memcpy(text.p, t.c_str(), t.size() + 1);
	int rv = as_bytes_from_string((uint8_t*)out.p, (uint32_t)bs, text.p);
	trace("from_string '%s' into %zu -> %d", t.c_str(), bs, rv);
	int exp = good && body.size() / 2 <= bs ? (int)(body.size() / 2) : -1;
	VF_CHECK(rv == exp, "unhex-result", "'%s' into %zu bytes returned %d, expected %d", t.c_str(), bs, rv, exp);
	if (rv >= 0) {
		VF_CHECK(memcmp(out.p, want.data(), want.size()) == 0, "unhex-bytes", "'%s' gave wrong bytes", t.c_str());
		for (size_t i = want.size(); i < bs; i++) VF_CHECK(out.p[i] == 0x5a, "unhex-extra", "byte %zu beyond the result changed", i);
		count("unhex_ok");
	}
	else count("unhex_refused");
	seen("distinct", hash2(hash_bytes(t.data(), t.size()), hash2(bs, 3)));
}

static void copy(Rng& r)
{
	scenario("strncpy");
	size_t n = r.chance(1, 10) ? r.below(2000) : r.below(30);
	Exact src(n + 1);
	for (size_t i = 0; i < n; i++) src.p[i] = (char)(1 + r.below(255));
	src.p[n] = 0;
	size_t size = target_size(r, n + 1);
	Exact out(size);
	bool null = r.chance(1, 25);
	int claim = size == 0 && r.chance(1, 2) ? -(int)r.below(3) : (int)size;
	bool t = as_strncpy(out.p, null ? NULL : src.p, claim);
	trace("strncpy of %zu into %d -> %d", n, claim, t);
	if (null) { if (size) VF_CHECK(out.p[0] == 0 && !t, "copy-null", "copy of no string gave '%.20s', %d", out.p, t); return; }
	if (size == 0) { if (n) VF_CHECK(t, "copy-result", "copying %zu characters into nothing was not reported as truncation", n); count("copy_nothing"); return; }
	size_t k = std::min(n, size - 1);
	VF_CHECK(t == (n >= size), "copy-result", "copy of %zu characters into %zu returned %d", n, size, t);
	VF_CHECK(memcmp(out.p, src.p, k) == 0 && out.p[k] == 0, "copy-text", "copy of %zu characters into %zu is not the terminated prefix", n, size);
	for (size_t i = k + 1; i < size; i++) VF_CHECK(out.p[i] == 0x5a, "copy-extra", "byte %zu beyond the terminator changed", i);
	count(t ? "copy_truncated" : "copy_whole");
	seen("distinct", hash2(hash2(n, size), 5));
}

static void base(Rng& r)
{
	scenario("basename");
	std::string path;
	int parts = (int)r.below(7);
	for (int i = 0; i < parts; i++) {
		switch (r.below(6)) {
		case 0: case 1: path += r.chance(2, 3) ? '/' : '\\'; break;
		case 2: path += std::string(1 + r.below(4), r.chance(1, 2) ? '/' : '\\'); break;
		case 3: path += r.chance(1, 2) ? "." : ".."; break;
		default: { size_t n = r.chance(1, 12) ? r.range(100, 700) : r.chance(1, 40) ? r.range(4000, 70000) : 1 + r.below(6); for (size_t k = 0; k < n; k++) path += (char)('a' + r.below(3)); }
		}
	}
	auto sep = [](char c) { return c == '/' || c == '\\'; };
	std::string want;
	if (path.empty()) want = ".";
	else {
		size_t e = path.size();
		while (e > 0 && sep(path[e - 1])) e--;
		if (e == 0) want = "/";
		else {
			size_t b = e;
			while (b > 0 && !sep(path[b - 1])) b--;
			want = path.substr(b, e - b);
		}
	}
	Exact src(path.size() + 1);
	memcpy(src.p, path.c_str(), path.size() + 1);
	int64_t live = live_allocs();
	as_string s;
	memset(&s, 0xa5, sizeof s);
	bool null = path.empty() && r.chance(1, 2);
	const char* got = as_basename(&s, null ? NULL : src.p);
	trace("basename '%s' -> '%s'", path.c_str(), got);
	VF_CHECK(strcmp(got, want.c_str()) == 0, "basename", "base name of '%s' is '%s', expected '%s'", path.c_str(), got, want.c_str());
	VF_CHECK(strcmp(as_string_get(&s), want.c_str()) == 0 && as_string_len(&s) == want.size(), "basename-string", "base name string of '%s' is '%s' with length %zu", path.c_str(), as_string_get(&s), as_string_len(&s));
	VF_CHECK(memcmp(src.p, path.c_str(), path.size() + 1) == 0, "basename-path", "the path was modified");
	as_string_destroy(&s);
	VF_CHECK(live_allocs() == live, "leak", "base name of '%s' leaked", path.c_str());
	count("basenames");
	seen("distinct", hash2(hash_bytes(path.data(), path.size()), 7));
}

static void digest(Rng& r)
{
	scenario("digest_string");
	cf_digest d;
	r.fill(&d, sizeof d);
	if (r.chance(1, 4)) memset(&d, r.chance(1, 2) ? 0 : 0xff, sizeof d);
	if (r.chance(1, 20)) {
		Exact o(5);
		cf_digest_string(NULL, o.p);
		VF_CHECK(strcmp(o.p, "null") == 0, "digest-null", "no digest printed as '%.4s'", o.p);
		return;
	}
	std::string want = "0x";
	for (uint8_t b : d.digest) { want += HEXL[b >> 4]; want += HEXL[b & 15]; }
	Exact o(2 + 2 * CF_DIGEST_KEY_SZ + 1);
	cf_digest_string(&d, o.p);
	VF_CHECK(strcmp(o.p, want.c_str()) == 0, "digest-text", "digest printed as '%s', expected '%s'", o.p, want.c_str());
	cf_digest e = d;
	VF_CHECK(cf_digest_compare(&d, &e) == 0, "digest-compare", "a digest differs from its copy");
	size_t k = r.below(CF_DIGEST_KEY_SZ);
	uint8_t x = (uint8_t)(1 + r.below(255));
	e.digest[k] ^= x;
	int c = cf_digest_compare(&d, &e);
	VF_CHECK(c != 0 && (c < 0) == (d.digest[k] < e.digest[k]) && (cf_digest_compare(&e, &d) < 0) == (c > 0), "digest-compare", "digests differing at byte %zu compare as %d", k, c);
	for (uint8_t b : cf_digest_zero.digest) VF_CHECK(b == 0, "digest-zero", "the zero digest is not zero");
	count("digests");
	seen("distinct", hash2(hash_bytes(&d, sizeof d), 9));
}

static void giant(Rng& r)
{
	scenario("giant-source");
	uint32_t n = r.chance(1, 2) ? 0x80000000u + (uint32_t)r.below(16) : 0x7ffffff0u + (uint32_t)r.below(0x80000000u);
	uint8_t* src = (uint8_t*)mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (src == MAP_FAILED) return;
	size_t size = 1 + r.below(64);
	Exact out(size);
	bool ok = r.chance(1, 2) ? as_bytes_to_string(src, n, out.p, (uint32_t)size) : as_bytes_to_string_with_prefix(src, n, out.p, (uint32_t)size);
	trace("%u bytes to hex into %zu -> %d", n, size, ok);
	VF_CHECK(!ok && memchr(out.p, 0, size), "hex-result", "%u bytes into %zu characters returned %d", n, size, ok);
	munmap(src, n);
	count("giant");
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
	if (idx % 2000 == 5) { giant(r); return; }
	int64_t live = live_allocs();
	switch (r.below(5)) {
	case 0: hex_out(r); break;
	case 1: hex_in(r); break;
	case 2: copy(r); break;
	case 3: base(r); break;
	default: digest(r); break;
	}
	VF_CHECK(live_allocs() == live, "leak", "%ld allocations left", (long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("hex_ok", 1000);
	floor_of("unhex_refused", 1000);
	floor_of("copy_truncated", 1000);
	floor_of("basenames", 1000);
	return run(argc, argv, 1500000, 30000000, one);
}
