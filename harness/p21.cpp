// P21: base64 against OpenSSL and an independent validator.
#include "gen.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <openssl/evp.h>
#include <citrusleaf/cf_b64.h>
using namespace vf;
using namespace gen;

static int b64val(unsigned char c)
{
	if (c >= 'A' && c <= 'Z') return c - 'A';
	if (c >= 'a' && c <= 'z') return c - 'a' + 26;
	if (c >= '0' && c <= '9') return c - '0' + 52;
	return c == '+' ? 62 : c == '/' ? 63 : -1;
}

// Well-formed padded text: groups of four, at most two '=' and only at the end.
static bool well_formed(const std::string& t, Bytes& out)
{
	if (t.empty() || t.size() % 4) return false;
	size_t pad = 0;
	while (pad < 2 && t[t.size() - 1 - pad] == '=') pad++;
	uint32_t acc = 0;
	int bits = 0;
	out.clear();
	for (size_t i = 0; i < t.size() - pad; i++) {
		int v = b64val((unsigned char)t[i]);
		if (v < 0) return false;
		acc = (acc << 6) | (uint32_t)v;
		bits += 6;
		if (bits >= 8) { bits -= 8; out += (char)(acc >> bits); acc &= (1u << bits) - 1; }
	}
	return true;
}

static void decode_all(Rng& r, const std::string& t, bool good, const Bytes& want)
{
	uint32_t len = (uint32_t)t.size();
	uint32_t room = cf_b64_decoded_buf_size(len);
	uint32_t* nosize = NULL;
	for (int way = 0; way < 4; way++) {
		if ((way & 1) == 0 && !good) continue;		// unvalidated decoding is for well-formed text only
		bool inplace = way >= 2;
		uint8_t* in = (uint8_t*)malloc(len ? len : 1);
		memcpy(in, t.data(), len);
		uint8_t* out = inplace ? in : (uint8_t*)malloc(room ? room : 1);
		if (!inplace) memset(out, 0x5a, room);
		uint32_t size = 0xabcdef;
		bool noout = r.chance(1, 10);
		uint32_t* sp = noout ? nosize : &size;
		bool ok = true;
		scenario(way == 0 ? "decode" : way == 1 ? "validate_and_decode" : way == 2 ? "decode_in_place" : "validate_and_decode_in_place");
		switch (way) {
		case 0: cf_b64_decode((const char*)in, len, out, sp); break;
		case 1: ok = cf_b64_validate_and_decode((const char*)in, len, out, sp); break;
		case 2: cf_b64_decode_in_place(in, len, sp); break;
		default: ok = cf_b64_validate_and_decode_in_place(in, len, sp); break;
		}
		trace("decode way %d of '%.80s' (%u) -> %d size %u", way, t.c_str(), len, ok, size);
		if (way & 1) VF_CHECK(ok == good, "validation", "'%.80s' (%u characters) %s", t.c_str(), len, ok ? "accepted" : "refused");
		if (ok) {
			if (!noout) VF_CHECK(size == want.size(), "decoded-size", "decoded size %u, expected %zu", size, want.size());
			VF_CHECK(memcmp(out, want.data(), want.size()) == 0, "decoded-bytes", "wrong bytes from '%.80s'", t.c_str());
			count("decoded");
		}
		else {
			if (!inplace) for (uint32_t i = 0; i < room; i++) VF_CHECK(out[i] == 0x5a, "refused-written", "a refused text wrote output");
			else VF_CHECK(memcmp(in, t.data(), len) == 0, "refused-written", "a refused text was modified in place");
			count("refused");
		}
		if (!inplace) { VF_CHECK(memcmp(in, t.data(), len) == 0, "input-changed", "decoding changed its input"); free(out); }
		free(in);
	}
}

static void giant_encode()
{
	// more than 2^31 characters of output, onto a small memory area mapped repeatedly
	scenario("encode-giant");
	const uint64_t win = 1 << 21;
	uint32_t n = 0x60000000u + 6 * 4;
	uint64_t outlen = (uint64_t)(n + 2) / 3 * 4, span = (outlen + win - 1) / win * win;
	int fd = memfd_create("b64", 0);
	if (fd < 0 || ftruncate(fd, (off_t)win) != 0) return;
	char* in = (char*)mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	char* out = (char*)mmap(NULL, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (in == MAP_FAILED || out == MAP_FAILED) return;
	for (uint64_t o = 0; o < span; o += win)
		if (mmap(out + o, win, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return;
	VF_CHECK(cf_b64_encoded_len(n) == outlen, "encoded-len", "encoded length of %u is %u", n, cf_b64_encoded_len(n));
	watchdog_limit(300);
	cf_b64_encode((const uint8_t*)in, n, out);
	VF_CHECK(out[outlen - 1] == 'A' && out[0] == 'A', "encoded-text", "giant text is wrong");
	munmap(in, n);
	munmap(out, span);
	close(fd);
	count("giant_encode");
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
	if (idx == 11) { giant_encode(); return; }
	int64_t live = live_allocs();
	// announced sizes over the whole range
	for (int k = 0; k < 4; k++) {
		uint32_t n = k == 0 ? (uint32_t)r.u64() : k == 1 ? (uint32_t)r.below(4000) : k == 2 ? 0xC0000000u - 5 + (uint32_t)r.below(4) : 0x55555550u + (uint32_t)r.below(16);
		if (n <= 0xBFFFFFFDu) VF_CHECK(cf_b64_encoded_len(n) == ((uint64_t)n + 2) / 3 * 4, "encoded-len", "encoded length of %u bytes is %u", n, cf_b64_encoded_len(n));
		uint32_t l = n & ~3u;
		VF_CHECK(cf_b64_decoded_buf_size(l) == (uint64_t)l / 4 * 3, "decoded-buf-size", "buffer size for %u characters is %u", l, cf_b64_decoded_buf_size(l));
	}
	size_t n = r.chance(1, 12) ? r.below(5000) : r.below(50);
	Bytes raw(n, 0);
	int style = (int)r.below(4);
	for (auto& c : raw) c = style == 0 ? (char)r.u64() : style == 1 ? (char)0xff : style == 2 ? 0 : (char)(r.chance(1, 2) ? 0xfb : 0x3f);
	uint8_t* in = (uint8_t*)malloc(n ? n : 1);
	memcpy(in, raw.data(), n);
	uint32_t el = cf_b64_encoded_len((uint32_t)n);
	char* out = (char*)malloc(el ? el : 1);
	scenario("encode");
	cf_b64_encode(in, (uint32_t)n, out);
	std::string ref(4 * ((n + 2) / 3) + 1, 0);
	EVP_EncodeBlock((unsigned char*)&ref[0], in, (int)n);
	ref.resize(4 * ((n + 2) / 3));
	VF_CHECK(el == ref.size() && memcmp(out, ref.data(), el) == 0, "encoded-text", "%zu bytes encoded as '%.*s', expected '%s'", n, (int)std::min<uint32_t>(el, 80), out, ref.substr(0, 80).c_str());
	VF_CHECK(memcmp(in, raw.data(), n) == 0, "input-changed", "encoding changed its input");
	free(in);
	free(out);
	seen("distinct", hash_bytes(raw.data(), n));
	if (n == 0) {
		uint8_t b = 0;
		uint32_t s1 = 9, s2 = 9;
		cf_b64_decode("", 0, &b, &s1);
		cf_b64_decode_in_place(&b, 0, &s2);
		VF_CHECK(s1 == 0 && s2 == 0, "decoded-size", "empty text decodes to sizes %u and %u", s1, s2);
	}
	else decode_all(r, ref, true, raw);
	// arbitrary and damaged texts
	std::string t = r.chance(2, 3) ? ref.substr(0, std::min<size_t>(ref.size(), 4 * r.below(12))) : std::string(4 * r.below(6), 'A');
	if (r.chance(1, 3)) for (auto& c : t) c = "ABCDabcd0189+/=\x2b"[r.below(16)];
	int nmut = (int)r.below(3);
	for (int k = 0; k < nmut && !t.empty(); k++) {
		size_t p = r.chance(1, 2) ? t.size() - 1 - r.below(std::min<size_t>(t.size(), 5)) : r.below(t.size());
		t[p] = r.chance(1, 3) ? '=' : r.chance(1, 2) ? (char)r.u64() : "@[`{/:,-_.*"[r.below(11)];
	}
	if (r.chance(1, 8)) t.resize(r.below(t.size() + 4), 'B');
	Bytes want;
	bool good = well_formed(t, want);
	decode_all(r, t, good, want);
	seen("distinct", hash2(hash_bytes(t.data(), t.size()), 1));
	if (r.chance(1, 3000)) sample("text '%.40s' %s", t.c_str(), good ? "well formed" : "malformed");
	if (r.chance(1, 200)) {
		uint32_t s = 0;
		uint8_t o[4];
		VF_CHECK(!cf_b64_validate_and_decode(NULL, 4, o, &s), "validation", "no text accepted");
	}
	VF_CHECK(live_allocs() == live, "leak", "%ld allocations left", (long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("decoded", 10000);
	floor_of("refused", 10000);
	return run(argc, argv, 600000, 12000000, one);
}
