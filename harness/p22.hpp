// P22: digests and hashes against OpenSSL and independently written definitions.
#include "gen.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <openssl/ripemd.h>
#include <openssl/sha.h>
#include <citrusleaf/cf_crypto.h>
#include <citrusleaf/cf_digest.h>
#include <citrusleaf/cf_hash_math.h>
using namespace vf;
using namespace gen;

static std::string hex(const uint8_t* p, size_t n) { std::string s; char b[3]; for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", p[i]); s += b; } return s; }

// ---- independent definitions, byte by byte
static uint64_t le(const uint8_t* p, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i]; return v; }

static void ref_murmur(const uint8_t* p, size_t n, uint8_t* out)
{
	auto rot = [](uint64_t x, int k) { return x << k | x >> (64 - k); };
	auto fin = [](uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; return k ^ k >> 33; };
	const uint64_t A = 0x87c37b91114253d5ULL, B = 0x4cf5ad432745937fULL;
	uint64_t h[2] = {0, 0};
	size_t i = 0;
	for (; i + 16 <= n; i += 16) {
		h[0] ^= rot(le(p + i, 8) * A, 31) * B;
		h[0] = (rot(h[0], 27) + h[1]) * 5 + 0x52dce729;
		h[1] ^= rot(le(p + i + 8, 8) * B, 33) * A;
		h[1] = (rot(h[1], 31) + h[0]) * 5 + 0x38495ab5;
	}
	int rest = (int)(n - i);
	if (rest > 8) h[1] ^= rot(le(p + i + 8, rest - 8) * B, 33) * A;
	if (rest > 0) h[0] ^= rot(le(p + i, rest > 8 ? 8 : rest) * A, 31) * B;
	h[0] ^= n; h[1] ^= n;
	h[0] += h[1]; h[1] += h[0];
	h[0] = fin(h[0]); h[1] = fin(h[1]);
	h[0] += h[1]; h[1] += h[0];
	for (int k = 0; k < 16; k++) out[k] = (uint8_t)(h[k / 8] >> (8 * (k % 8)));
}

static uint64_t ref_wyhash(const uint8_t* k, size_t n)
{
	static const uint64_t s[] = {0xa0761d6478bd642fULL, 0xe7037ed1a0b428dbULL, 0x8ebc6af09c88c6e3ULL, 0x589965cc75374cc3ULL};
	auto mix = [](uint64_t a, uint64_t b) { unsigned __int128 r = (unsigned __int128)a * b; return (uint64_t)r ^ (uint64_t)(r >> 64); };
	uint64_t seed = 0x29FBB14cc886fULL ^ s[0], a = 0, b = 0;
	if (n > 16) {
		size_t at = 0;
		if (n > 48) {
			uint64_t l[3] = {seed, seed, seed};
			while (n - at > 48) {
				for (int j = 0; j < 3; j++) l[j] = mix(le(k + at + 16 * j, 8) ^ s[j + 1], le(k + at + 16 * j + 8, 8) ^ l[j]);
				at += 48;
			}
			seed = l[0] ^ l[1] ^ l[2];
		}
		for (; n - at > 16; at += 16) seed = mix(le(k + at, 8) ^ s[1], le(k + at + 8, 8) ^ seed);
		a = le(k + n - 16, 8);
		b = le(k + n - 8, 8);
	}
	else if (n >= 4) {
		size_t d = n >= 8 ? (n / 8) * 4 : 0;
		a = le(k, 4) << 32 | le(k + d, 4);
		b = le(k + n - 4, 4) << 32 | le(k + n - 4 - d, 4);
	}
	else if (n > 0) a = (uint64_t)k[0] << 16 | (uint64_t)k[n / 2] << 8 | k[n - 1];
	return mix(s[1] ^ n, mix(a ^ s[1], b ^ seed));
}

template <class T> static T ref_fnv(const uint8_t* p, size_t n, T basis, T prime) { T h = basis; for (size_t i = 0; i < n; i++) h = (T)((h ^ p[i]) * prime); return h; }
template <class T> static T ref_jen(const uint8_t* p, size_t n) { T h = 0; for (size_t i = 0; i < n; i++) { h += p[i]; h += h << 10; h ^= h >> 6; } h += h << 3; h ^= h >> 11; h += h << 15; return h; }

static void anchors()
{
	// published vectors, so that the references above are anchored themselves
	uint8_t o[16];
	ref_murmur((const uint8_t*)"hello", 5, o);
	if (hex(o, 16) != "029bbd41b3a7d8cb191dae486a901e5b") fail("reference", "murmur reference gives %s", hex(o, 16).c_str());
	if (ref_fnv<uint32_t>((const uint8_t*)"foobar", 6, 2166136261u, 16777619u) != 0xbf9cf968u) fail("reference", "fnv32 reference");
	if (ref_fnv<uint64_t>((const uint8_t*)"foobar", 6, 0xcbf29ce484222325ULL, 0x100000001b3ULL) != 0x85944171f73967e8ULL) fail("reference", "fnv64 reference");
	if (ref_jen<uint32_t>((const uint8_t*)"a", 1) != 0xca2e9442u) fail("reference", "jenkins reference");
}

static void digests(const uint8_t* p, size_t n, Rng& r)
{
	uint8_t want[20];
	uint8_t* got = (uint8_t*)malloc(20);
	scenario("sha1");
	SHA1(p, n, want);
	memset(got, 0, 20);
	cf_SHA1(p, n, got);
	VF_CHECK(memcmp(got, want, 20) == 0, "sha1", "SHA-1 of %zu bytes is %s, expected %s", n, hex(got, 20).c_str(), hex(want, 20).c_str());
	scenario("ripemd160");
	RIPEMD160(p, n, want);
	memset(got, 0, 20);
	VF_CHECK(cf_RIPEMD160(p, n, got) == 0, "ripemd-result", "digest of %zu bytes failed", n);
	VF_CHECK(memcmp(got, want, 20) == 0, "ripemd160", "RIPEMD-160 of %zu bytes is %s, expected %s", n, hex(got, 20).c_str(), hex(want, 20).c_str());
	cf_digest d;
	memset(&d, 0, sizeof d);
	cf_digest_compute(p, n, &d);
	VF_CHECK(memcmp(d.digest, want, 20) == 0, "digest", "digest of %zu bytes differs", n);
	// in pieces, each piece in its own exactly sized buffer, the context as well
	scenario("ripemd160-pieces");
	int plans = 1 + (int)r.below(3);
	for (int k = 0; k < plans; k++) {
		cf_RIPEMD160_CTX* c = (cf_RIPEMD160_CTX*)malloc(sizeof *c);
		memset(c, 0xa5, sizeof *c);
		cf_RIPEMD160_Init(c);
		uint64_t plan = n;
		size_t at = 0;
		int mode = (int)r.below(4);
		while (at < n || r.chance(1, 10)) {
			size_t m = mode == 0 ? r.below(4) : mode == 1 ? 55 + r.below(20) : mode == 2 ? (r.chance(1, 2) ? 64 * r.below(4) : 64 - (at & 63) + r.below(3)) : r.below(n + 1);
			if (m > n - at) m = n - at;
			uint8_t* q = (uint8_t*)malloc(m ? m : 1);
			memcpy(q, p + at, m);
			VF_CHECK(cf_RIPEMD160_Update(c, q, m) == 0, "ripemd-result", "update failed");
			memset(q, 0xee, m);
			free(q);
			at += m;
			plan = hash2(plan, m);
			count("pieces");
		}
		memset(got, 0, 20);
		cf_RIPEMD160_Final(got, c);
		free(c);
		VF_CHECK(memcmp(got, want, 20) == 0, "ripemd-pieces", "RIPEMD-160 of %zu bytes in pieces is %s, expected %s", n, hex(got, 20).c_str(), hex(want, 20).c_str());
		seen("splits", plan);
	}
	scenario("digest_compute2");
	size_t cut = r.chance(1, 4) ? 0 : r.chance(1, 4) ? n : r.below(n + 1);
	uint8_t* a = (uint8_t*)malloc(cut ? cut : 1);
	uint8_t* b = (uint8_t*)malloc(n - cut ? n - cut : 1);
	memcpy(a, p, cut);
	memcpy(b, p + cut, n - cut);
	memset(&d, 0, sizeof d);
	cf_digest_compute2(a, cut, b, n - cut, &d);
	VF_CHECK(memcmp(d.digest, want, 20) == 0, "digest2", "digest of %zu+%zu bytes differs", cut, n - cut);
	free(a);
	free(b);
	free(got);
}

static void hashes(const uint8_t* p, size_t n)
{
	scenario("hashes");
	VF_CHECK((cf_hash_fnv32(p, n) == ref_fnv<uint32_t>(p, n, 2166136261u, 16777619u)), "fnv32", "FNV-1a 32 of %zu bytes", n);
	VF_CHECK((cf_hash_fnv64(p, n) == ref_fnv<uint64_t>(p, n, 0xcbf29ce484222325ULL, 0x100000001b3ULL)), "fnv64", "FNV-1a 64 of %zu bytes", n);
	VF_CHECK(cf_hash_jen32(p, n) == ref_jen<uint32_t>(p, n), "jen32", "Jenkins 32 of %zu bytes", n);
	VF_CHECK(cf_hash_jen64(p, n) == ref_jen<uint64_t>(p, n), "jen64", "Jenkins 64 of %zu bytes", n);
	uint8_t m[16];
	ref_murmur(p, n, m);
	uint8_t* o = (uint8_t*)malloc(16);
	murmurHash3_x64_128(p, n, o);
	VF_CHECK(memcmp(o, m, 16) == 0, "murmur3", "Murmur3 of %zu bytes is %s, expected %s", n, hex(o, 16).c_str(), hex(m, 16).c_str());
	free(o);
	uint64_t w = ref_wyhash(p, n);
	VF_CHECK(cf_wyhash64(p, n) == w, "wyhash64", "wyhash of %zu bytes is %lx, expected %lx", n, (long)cf_wyhash64(p, n), (long)w);
	VF_CHECK(cf_wyhash32(p, n) == (uint32_t)w, "wyhash32", "wyhash32 of %zu bytes", n);
	if (n == 8) {
		uint64_t v;
		memcpy(&v, p, 8);
		VF_CHECK(cf_hash_ptr32(p) == (uint32_t)((v * 0xe221f97c30e94e1dULL) >> 32), "ptr32", "pointer hash of %lx", (long)v);
	}
}

// ---- very long messages: a 1 MiB pattern mapped over and over
struct Long {
	uint8_t* p = NULL; uint64_t n;
	static const uint64_t win = 1 << 20;
	explicit Long(uint64_t len) : n(len)
	{
		uint64_t span = (n + win - 1) / win * win;
		int fd = memfd_create("long", 0);
		if (fd < 0 || ftruncate(fd, (off_t)win) != 0) return;
		uint8_t* w = (uint8_t*)mmap(NULL, win, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		for (uint64_t i = 0; i < win; i++) w[i] = (uint8_t)((i * 2654435761u) >> 13);
		munmap(w, win);
		p = (uint8_t*)mmap(NULL, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		for (uint64_t o = 0; o < span; o += win) mmap(p + o, win, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
		close(fd);
	}
	~Long() { if (p) munmap(p, (n + win - 1) / win * win); }
};

// Digests of the pattern, computed with OpenSSL (recomputed in the thorough tier).
struct Known { uint64_t n; const char* sha; const char* rmd; };
static const Known KNOWN[] = {
	{(1ull << 29) + 77, "857055468572b12b6aeddb3e9e7ea67d42205737", "a67990ef18d784c78afe41fcfc4bc9b64c8574b5"},
	{(1ull << 32) + 3, "a2ed4201b943196dcda0fa7813be45586e27e002", "abffc6a80865513a917a5f96f801ed93603c67b3"},
};

static void very_long(int which)
{
	const Known& k = KNOWN[which / 4];
	Long m(k.n);
	if (!m.p) return;
	watchdog_limit(600);
	uint8_t got[20];
	std::string want;
	int how = which % 4;
	if (how == 0) {
		scenario("sha1-long");
		cf_SHA1(m.p, m.n, got);
		want = k.sha;
		if (g_thorough) { uint8_t w[20]; SHA1(m.p, m.n, w); want = hex(w, 20); }
	}
	else {
		scenario("ripemd160-long");
		if (how == 1) cf_RIPEMD160(m.p, m.n, got);
		else if (how == 2) {
			cf_RIPEMD160_CTX c;
			cf_RIPEMD160_Init(&c);
			for (uint64_t at = 0; at < m.n; ) {
				uint64_t s = std::min<uint64_t>(m.n - at, 1000003 + (at & 0xffff));
				cf_RIPEMD160_Update(&c, m.p + at, s);
				at += s;
			}
			cf_RIPEMD160_Final(got, &c);
		}
		else {
			cf_digest d;
			cf_digest_compute2(m.p, m.n - 5000, m.p + m.n - 5000, 5000, &d);
			memcpy(got, d.digest, 20);
		}
		want = k.rmd;
		if (g_thorough) { uint8_t w[20]; RIPEMD160(m.p, m.n, w); want = hex(w, 20); }
	}
	VF_CHECK(hex(got, 20) == want, how ? "ripemd-long" : "sha1-long", "digest of a message of %lu bytes (way %d) is %s, expected %s", (long)m.n, how, hex(got, 20).c_str(), want.c_str());
	count("very_long");
	sample("%lu bytes way %d: %s", (long)m.n, how, want.c_str());
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
#ifdef VF_LONG
	if (idx < 8) { very_long((int)idx); seen("distinct", idx); return; }
#endif
	anchors();
	// every length up to 400 comes up regularly, some much longer
	size_t n = idx % 3 == 0 ? (idx / 3) % 401 : r.chance(1, 10) ? r.below(9000) : r.below(300);
	size_t off = r.chance(1, 2) ? 0 : r.below(9);
	uint8_t* base = (uint8_t*)malloc(n + off ? n + off : 1);
	uint8_t* p = base + off;
	int style = (int)r.below(5);
	for (size_t i = 0; i < n; i++) p[i] = style == 0 ? 0 : style == 1 ? 0xff : style == 2 ? (uint8_t)(0x80 | r.below(128)) : (uint8_t)r.u64();
	Bytes copy((char*)p, n);
	digests(p, n, r);
	hashes(p, n);
	VF_CHECK(memcmp(copy.data(), p, n) == 0, "input-changed", "hashing changed its input");
	free(base);
	count("messages");
	seen("lengths", n);
	seen("distinct", hash2(hash_bytes(copy.data(), n), off));
	if (r.chance(1, 4000)) sample("%zu bytes at offset %zu, style %d", n, off, style);
}

int main(int argc, char** argv)
{
#ifdef VF_LONG
	return run(argc, argv, 8, 8, one);
#else
	floor_of("messages", 5000);
	return run(argc, argv, 160000, 4000000, one);
#endif
}
