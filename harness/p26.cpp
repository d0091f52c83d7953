// P26: random bytes, integers and text.
#include "conc.hpp"
#include <ctype.h>
#include <set>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>
#include <openssl/rand.h>
extern "C" {
#include <aerospike/as_random.h>
#include <citrusleaf/cf_random.h>
}
using namespace vf;
using namespace conc;

// Exactly n bytes with red zones (address sanitizer) and pattern bytes (others) on both sides.
struct Guarded {
	std::vector<uint8_t> all;
	size_t n, pre;
	Guarded(size_t n_, size_t pre_) : all(n_ + pre_ + 24, 0xc3), n(n_), pre(pre_) {}
	uint8_t* p() { return all.data() + pre; }
	void check(const char* what, size_t len)
	{
		for (size_t i = 0; i < pre; i++) VF_CHECK(all[i] == 0xc3, "neighbour", "%s of %zu bytes wrote before its buffer", what, len);
		for (size_t i = pre + n; i < all.size(); i++) VF_CHECK(all[i] == 0xc3, "neighbour", "%s of %zu bytes wrote %zu behind its buffer", what, len, i - pre - n);
	}
};

enum Src { CF_BUF, NEXT_BYTES, GET_BYTES, NEXT_STR, GET_STR, NSRC };
static const char* src_name[] = {"cf_get_rand_buf", "as_random_next_bytes", "as_random_get_bytes", "as_random_next_str", "as_random_get_str"};

static void draw(Src s, as_random* inst, uint8_t* p, size_t len)
{
	switch (s) {
	case CF_BUF: VF_CHECK(cf_get_rand_buf(p, (int)len) == 0, "refused", "a request for %zu bytes was refused", len); break;
	case NEXT_BYTES: as_random_next_bytes(inst, p, (uint32_t)len); break;
	case GET_BYTES: as_random_get_bytes(p, (uint32_t)len); break;
	case NEXT_STR: as_random_next_str(inst, (char*)p, (uint32_t)len); break;
	default: as_random_get_str((char*)p, (uint32_t)len); break;
	}
}

static bool text(Src s) { return s >= NEXT_STR; }

static size_t gen_len(Rng& r)
{
	switch (r.below(5)) {
	case 0: return r.below(10);
	case 1: return r.below(40);
	case 2: return 8 * r.below(20);
	case 3: return r.below(600);
	default: return r.chance(1, 4) ? 8192 - 1 - r.below(40) : r.below(3000);
	}
}

// One request: exactly the bytes asked for, and every position varies between repetitions.
static void filling(Rng& r)
{
	Src s = (Src)r.below(NSRC);
	scenario(src_name[s]);
	size_t len = gen_len(r), n = len + (text(s) ? 1 : 0);
	as_random inst;
	memset(&inst, 0, sizeof inst);
	as_random_init(&inst);
	bool heap = r.chance(1, 2);
	int reps = 12;
	std::vector<std::vector<uint8_t>> got;
	for (int k = 0; k < reps; k++) {
		if (heap) {
			uint8_t* p = (uint8_t*)malloc(n ? n : 1);
			memset(p, 0xc3, n ? n : 1);
			draw(s, &inst, p, len);
			if (n == 0) VF_CHECK(p[0] == 0xc3, "neighbour", "%s of nothing wrote", src_name[s]);
			got.emplace_back(p, p + n);
			free(p);
		}
		else {
			Guarded g(n, r.below(17));
			draw(s, &inst, g.p(), len);
			g.check(src_name[s], len);
			got.emplace_back(g.p(), g.p() + n);
		}
	}
	if (text(s)) for (auto& g : got) {
		VF_CHECK(g[len] == 0, "terminator", "%s of length %zu is not terminated", src_name[s], len);
		for (size_t i = 0; i < len; i++) VF_CHECK(isalnum(g[i]), "alphanumeric", "%s of length %zu has character 0x%02x at %zu", src_name[s], len, g[i], i);
	}
	// twelve equal bytes at one position by chance: 256^-11, text: about 62^-11
	for (size_t i = 0; i < len; i++) {
		bool eq = true;
		for (auto& g : got) if (g[i] != got[0][i]) { eq = false; break; }
		VF_CHECK(!eq, "constant", "%s of length %zu: position %zu has the same value 0x%02x in %d requests", src_name[s], len, i, got[0][i], reps);
	}
	// no position follows another one
	for (size_t i = 1; i < len; i++) for (size_t lag = 1; lag <= i && lag <= (len <= 64 ? 64 : 24); lag++) {
		bool eq = true;
		for (auto& g : got) if (g[i] != g[i - lag]) { eq = false; break; }
		VF_CHECK(!eq, "copied", "%s of length %zu: position %zu has the value of position %zu in %d requests", src_name[s], len, i, i - lag, reps);
	}
	// a request does not repeat itself or an earlier one
	if (len >= 16) {
		std::set<std::string> w;
		for (auto& g : got) for (size_t i = 0; i + 16 <= len; i += 16) VF_CHECK(w.insert(std::string((char*)&g[i], 16)).second, "repeat", "%s of length %zu repeats 16 bytes", src_name[s], len);
	}
	count("requests", (uint64_t)reps);
	count("bytes", (uint64_t)reps * n);
	seen("distinct", hash2(len, (uint64_t)s));
}

static void refused(Rng& r)
{
	scenario("refused");
	int len = r.chance(1, 2) ? -(int)(1 + r.below(1000)) : (int)(8192 + r.below(3000));
	std::vector<uint8_t> b(len > 0 ? (size_t)len : 1, 0xc3);
	if (r.chance(1, 16)) len = INT32_MIN;
	int rc = cf_get_rand_buf(b.data(), len);
	if (rc != 0) for (uint8_t c : b) VF_CHECK(c == 0xc3, "refused-write", "a refused request of %d wrote", len);
	else VF_CHECK(len >= 0 && (b[0] != 0xc3 || b[1] != 0xc3 || b[2] != 0xc3) && (b[b.size() - 1] != 0xc3 || b[b.size() - 2] != 0xc3 || b[b.size() - 3] != 0xc3), "refused-write", "a request of %d bytes claimed to be filled", len);
	count("outsize");
}

// distribution of symbols, bits and bytes
static void balance(Rng& r)
{
	scenario("balance");
	as_random inst;
	as_random_init(&inst);
	std::vector<uint64_t> sym(256, 0);
	uint64_t tot = 0;
	Src s = (Src)r.below(NSRC);
	std::vector<uint8_t> b(4001);
	for (int k = 0; k < 40; k++) {
		size_t len = 3900 + r.below(100);
		draw(s, &inst, b.data(), len);
		for (size_t i = 0; i < len; i++) sym[b[i]]++;
		tot += len;
	}
	for (int c = 0; c < 256; c++) {
		double e = text(s) ? (isalnum(c) ? (double)tot / 62 : 0) : (double)tot / 256;
		VF_CHECK(sym[c] > 0.6 * e - 0.5 && sym[c] < 1.5 * e + 0.5, "unbalanced", "%s: symbol 0x%02x occurs %lu times of %lu", src_name[s], c, (long)sym[c], (long)tot);
	}
	uint64_t bits[64] = {0}, n = 4000;
	uint64_t which = r.below(6);
	for (uint64_t i = 0; i < n; i++) {
		uint64_t v = which == 0 ? cf_get_rand64() : which == 1 ? cf_get_rand32() : which == 2 ? as_random_next_uint64(&inst) : which == 3 ? as_random_next_uint32(&inst) : which == 4 ? as_random_get_uint64() : as_random_get_uint32();
		for (int k = 0; k < 64; k++) bits[k] += v >> k & 1;
	}
	for (int k = 0; k < (which % 2 ? 32 : 64); k++) VF_CHECK(bits[k] > n * 0.4 && bits[k] < n * 0.6, "unbalanced", "integer source %lu: bit %d set %lu times of %lu", (long)which, k, (long)bits[k], (long)n);
	count("balanced");
}

// Threads at once: nothing is handed out twice.
static void threads(Rng& r)
{
	scenario("threads");
	int nt = 2 + (int)r.below(5), n = 40 + (int)r.below(300);
	std::vector<std::vector<uint64_t>> got(nt);
	std::vector<uint64_t> sd;
	for (int i = 0; i < nt; i++) sd.push_back(r.u64());
	{
		Barrier b(nt);
		std::vector<std::thread> th;
		for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
			Rng q(sd[t]);
			chaos_thread_seed(sd[t]);
			auto& g = got[t];
			as_random inst, inst2;
			b.wait();
			as_random_init(&inst);
			as_random_init(&inst2);
			uint8_t buf[800];
			for (int i = 0; i < n; i++) switch (q.below(8)) {
			case 0: g.push_back(cf_get_rand64()); break;
			case 1: { uint64_t hi = cf_get_rand32(), lo = cf_get_rand32(); g.push_back(hi << 32 | lo); break; }
			case 2: g.push_back(as_random_get_uint64()); break;
			case 3: g.push_back(as_random_next_uint64(&inst)); break;
			case 4: g.push_back(as_random_next_uint64(&inst2)); break;
			case 5: case 6: {
				size_t len = 8 * (1 + q.below(20)) + (q.chance(1, 2) ? q.below(8) : 0);
				if (cf_get_rand_buf(buf, (int)len) != 0) fail_later("refused", "a request for %zu bytes was refused", len);
				for (size_t k = 0; k + 8 <= len; k += 8) { uint64_t v; memcpy(&v, buf + k, 8); g.push_back(v); }
				break;
			}
			default: as_random_get_bytes(buf, 64); for (size_t k = 0; k < 64; k += 8) { uint64_t v; memcpy(&v, buf + k, 8); g.push_back(v); }
			}
		});
		for (auto& t : th) t.join();
	}
	check_later();
	std::vector<uint64_t> all;
	for (auto& g : got) all.insert(all.end(), g.begin(), g.end());
	std::sort(all.begin(), all.end());
	for (size_t i = 1; i < all.size(); i++) VF_CHECK(all[i] != all[i - 1], "repeat", "64 random bits handed out twice among %d threads", nt);
	VF_CHECK(all[0] != 0, "repeat", "64 random bits are zero");
	count("threads", (uint64_t)nt);
	count("values", all.size());
}

// No file descriptor at the first use: refused, or random all the same; random once descriptors are there.
static void starved()
{
	std::string why;
	bool ok = in_child([] {
		scenario("starved");
		struct rlimit l, none;
		getrlimit(RLIMIT_NOFILE, &l);
		none = l;
		none.rlim_cur = 0;
		setrlimit(RLIMIT_NOFILE, &none);
		uint8_t b[16] = {0};
		int rc = cf_get_rand_buf(b, 16);
		as_random inst;
		memset(&inst, 0, sizeof inst);
		as_random_init(&inst);
		(void)as_random_get_uint64();
		setrlimit(RLIMIT_NOFILE, &l);
		uint8_t z[16] = {0};
		if (rc == 0) VF_CHECK(memcmp(b, z, 16) != 0, "starved", "random bytes reported but none given");
		VF_CHECK(cf_get_rand_buf(b, 16) == 0 && memcmp(b, z, 16) != 0, "starved", "no random bytes although descriptors are available again");
		std::set<uint64_t> got;
		for (int i = 0; i < 64; i++) got.insert(as_random_get_uint64());
		VF_CHECK(got.size() == 64, "starved", "the thread's generator gave %zu different values in 64 after its first seeding failed", got.size());
	}, why, 20);
	if (!ok) fail("starved", "%s", why.c_str());
	count("starved");
}

// The generator behind the pool stops delivering in between.  What is handed out
// meanwhile must still be fresh, a refusal must leave nothing locked, and all is
// well again once it delivers.
static int broken_bytes(unsigned char*, int) { return 0; }
static int broken_status() { return 0; }
static void interrupted(Rng& r)
{
	std::string why;
	uint64_t seed = r.u64();
	bool ok = in_child([seed] {
		scenario("interrupted");
		Rng r(seed);
		static RAND_METHOD bad;
		bad.bytes = bad.pseudorand = broken_bytes;
		bad.status = broken_status;
		std::set<uint64_t> got;
		uint64_t given = 0, refused = 0;
		auto fresh = [&](const uint8_t* b, size_t n) {
			for (size_t i = 0; i + 8 <= n; i += 8) {
				uint64_t x;
				memcpy(&x, b + i, 8);
				VF_CHECK(got.insert(x).second, "interrupted-repeat", "the same 64 bits were handed out twice around a failure of the generator");
			}
		};
		uint8_t b[8192];
		for (int round = 0; round < 6; round++) {
			bool down = round & 1;
			RAND_set_rand_method(down ? &bad : RAND_OpenSSL());
			uint64_t refused_now = 0;
			for (int i = 0; i < 60; i++) {
				size_t n = 8 * (1 + r.below(r.chance(1, 5) ? 1000 : 40));
				memset(b, 0, n);
				int rc = cf_get_rand_buf(b, (int)n);
				if (rc == 0) { fresh(b, n); given++; }
				else {
					refused_now++;
					VF_CHECK(down, "interrupted-refused", "a request for %zu bytes was refused although the generator delivers", n);
					// nothing is left locked: these would wait for ever
					(void)cf_get_rand64();
					(void)cf_get_rand32();
				}
			}
			if (!down) {
				as_random x;
				memset(&x, 0, sizeof x);
				as_random_init(&x);
				uint64_t v = as_random_next_uint64(&x), w = as_random_next_uint64(&x);
				VF_CHECK(v != w, "interrupted", "a generator set up after a failure repeats itself");
				VF_CHECK(cf_get_rand64() != 0, "interrupted", "no random number although the generator delivers again");
			}
			refused += refused_now;
			VF_CHECK(!down || refused_now > 0, "interrupted-given", "60 requests were all met by a generator that does not deliver");
		}
	}, why, 20);
	if (!ok) fail("interrupted", "%s", why.c_str());
	count("interrupted");
}

static void one(uint64_t idx, Rng& r)
{
	static bool first = true;
	count("evals");
	if (first) { first = false; starved(); interrupted(r); threads(r); return; }
	uint64_t k = idx % 32;
	if (k == 0) threads(r);
	else if (k == 1) balance(r);
	else if (k == 2) refused(r);
	else if (idx % 1024 == 3) interrupted(r);
	else filling(r);
}

int main(int argc, char** argv)
{
	floor_of("requests", 1000);
	floor_of("values", 1000);
	return run(argc, argv, 64000, 2000000, one);
}
