// P19: the string builder against std::string.
#include "gen.hpp"
#include <sys/mman.h>
#include <aerospike/as_string_builder.h>
using namespace vf;
using namespace gen;

static const char hexd[] = "0123456789ABCDEF";

static std::string piece_of(Rng& r, size_t max)
{
	size_t n = r.chance(1, 8) ? 0 : r.below(max + 1);
	std::string s(n, 0);
	for (auto& c : s) c = r.chance(1, 5) ? (char)(1 + r.below(255)) : (char)('a' + r.below(26));
	return s;
}

static void judge(as_string_builder* sb, const std::string& m, const char* op)
{
	VF_CHECK(sb->length == m.size(), "length", "after %s: length %u, ideal %zu", op, sb->length, m.size());
	VF_CHECK(sb->length < sb->capacity, "capacity", "after %s: length %u with capacity %u", op, sb->length, sb->capacity);
	VF_CHECK(strlen(sb->data) == m.size(), "terminator", "after %s: text of %zu characters, ideal %zu", op, strlen(sb->data), m.size());
	VF_CHECK(memcmp(sb->data, m.data(), m.size()) == 0, "content", "after %s: text '%.100s', ideal '%.100s'", op, sb->data, m.c_str());
}

static uint64_t history(as_string_builder* sb, Rng& r, bool grows, int nops, size_t maxpiece)
{
	std::string m;
	uint64_t sig = hash2(sb->capacity, grows);
	const char* fixed_at = sb->data;
	uint32_t fixed_cap = sb->capacity;
	judge(sb, m, "init");
	for (int k = 0; k < nops; k++) {
		int op = (int)r.below(10);
		sig = hash2(sig, (uint64_t)op);
		std::string p;
		bool ok = false;
		const char* name = "";
		bool starve = grows && r.chance(1, 8);		// the growth allocation fails
		uint64_t inj = injected_failures();
		uint32_t cap_before = sb->capacity;
		switch (op) {
		case 0: case 1: {
			p = piece_of(r, maxpiece);
			if (!grows && r.chance(1, 3)) p = piece_of(r, 3);
			// aim at the exact boundary
			if (r.chance(1, 4) && sb->capacity > m.size() && sb->capacity - m.size() < 400) p = std::string(std::max<int64_t>(0, (int64_t)(sb->capacity - m.size()) - 2 + (int64_t)r.below(4)), 'x');
			char* src = (char*)malloc(p.size() + 1);
			memcpy(src, p.c_str(), p.size() + 1);
			if (starve) fail_alloc_at(0);
			ok = as_string_builder_append(sb, src);
			fail_alloc_at(-1);
			free(src);
			name = "append";
			break;
		}
		case 2: case 3: {
			p = std::string(1, (char)(1 + r.below(255)));
			ok = as_string_builder_append_char(sb, p[0]);
			name = "append_char";
			break;
		}
		case 4: {
			size_t n = r.chance(1, 6) ? 0 : r.below(maxpiece / 3 + 2);
			if (!grows && r.chance(1, 2)) n = r.below(4);
			if (r.chance(1, 4) && sb->capacity > m.size() && sb->capacity - m.size() < 400) n = (sb->capacity - m.size()) / 3 + r.below(2);
			uint8_t* src = (uint8_t*)malloc(n ? n : 1);
			r.fill(src, n);
			p = "[";
			for (size_t i = 0; i < n; i++) {
				if (i) p += ' ';
				p += hexd[src[i] >> 4];
				p += hexd[src[i] & 15];
			}
			p += "]";
			if (starve) fail_alloc_at(0);
			ok = as_string_builder_append_bytes(sb, src, (uint32_t)n);
			fail_alloc_at(-1);
			free(src);
			count("byte_pieces");
			name = "append_bytes";
			break;
		}
		case 5: { int64_t v = gen_int(r); p = std::to_string((int)v); ok = as_string_builder_append_int(sb, (int)v); name = "append_int"; break; }
		case 6: { int64_t v = gen_int(r); p = std::to_string((uint32_t)v); ok = as_string_builder_append_uint(sb, (uint32_t)v); name = "append_uint"; break; }
		case 7: { int64_t v = gen_int(r); p = std::to_string(v); ok = as_string_builder_append_int64(sb, v); name = "append_int64"; break; }
		case 8: { uint64_t v = (uint64_t)gen_int(r); p = std::to_string(v); ok = as_string_builder_append_uint64(sb, v); name = "append_uint64"; break; }
		default:
			if (r.chance(1, 6)) { as_string_builder_reset(sb); m.clear(); judge(sb, m, "reset"); count("resets"); continue; }
			p = "\n"; ok = as_string_builder_append_newline(sb); name = "append_newline"; break;
		}
		trace("%s %zu '%.60s' -> %d (had %zu, capacity %u)", name, p.size(), p.c_str(), ok, m.size(), sb->capacity);
		count("appends");
		std::string want = m + p;
		bool starved = injected_failures() != inj;
		if (starved) count("starved");
		if (starved) VF_CHECK(!ok, "starved-accepted", "%s of %zu characters to %zu reported done with capacity %u", name, p.size(), m.size(), cap_before);
		else if (grows) VF_CHECK(ok, "refused-though-growable", "%s of %zu characters to %zu refused by a growable builder", name, p.size(), m.size());
		else {
			bool fits = want.size() < fixed_cap;
			VF_CHECK(sb->data == fixed_at && sb->capacity == fixed_cap, "fixed-moved", "%s moved a fixed builder", name);
			VF_CHECK(ok == fits, "fixed-result", "%s of %zu characters to %zu with capacity %u returned %d", name, p.size(), m.size(), fixed_cap, ok);
		}
		if (ok) m = want;
		else {
			count("refused");
			// a terminated prefix of the concatenation that keeps what was there
			size_t n = strnlen(sb->data, cap_before);
			VF_CHECK(n < cap_before, "terminator", "%s refused and left no terminator in %u bytes", name, cap_before);
			VF_CHECK(n >= m.size() && n <= want.size() && memcmp(sb->data, want.data(), n) == 0, "refused-prefix", "after a refused %s: text '%.100s' is no prefix of '%.100s'", name, sb->data, want.c_str());
			if (op <= 1 && !starved) VF_CHECK(n == fixed_cap - 1, "refused-short", "a refused append kept only %zu of %u characters that fit", n, fixed_cap - 1);
			m.assign(sb->data, n);
		}
		judge(sb, m, name);
		seen("fill_level", hash2(grows, sb->capacity - sb->length));
	}
	return sig;
}

static void giant(Rng& r)
{
	// byte pieces whose text length passes 2^32
	static const uint32_t sizes[] = {0x55555555u, 0x55555556u, 0x55555554u, 0x60000000u, 0xAAAAAAAAu, 0xAAAAAAABu, 0xFFFFFFFFu, 0x80000000u};
	uint32_t n = r.chance(1, 2) ? sizes[r.below(8)] : 0x50000000u + (uint32_t)r.below(0xAFFFFFFFu);
	scenario("append_bytes-giant");
	uint8_t* src = (uint8_t*)mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (src == MAP_FAILED) return;
	max_single_alloc(1 << 24);
	as_string_builder sb;
	as_string_builder_init(&sb, 16, true);
	as_string_builder_append(&sb, "abc");
	bool ok = as_string_builder_append_bytes(&sb, src, n);
	trace("append_bytes %u -> %d", n, ok);
	VF_CHECK(!ok, "giant-accepted", "%u bytes reported appended without room for their text", n);
	judge(&sb, "abc", "giant append_bytes");
	as_string_builder_append(&sb, "def");
	judge(&sb, "abcdef", "append after giant");
	as_string_builder_destroy(&sb);
	max_single_alloc(0);
	munmap(src, n);
	count("giant");
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
	int64_t base = live_allocs();
	if (idx % 500 == 3) { giant(r); seen("distinct", hash2(idx, 99)); return; }
	uint32_t cap = r.chance(1, 3) ? 1 + (uint32_t)r.below(8) : r.chance(1, 2) ? 1 + (uint32_t)r.below(64) : 1 + (uint32_t)r.below(600);
	bool grow = r.chance(1, 2);
	size_t maxp = r.chance(1, 20) ? 3000 : r.chance(1, 2) ? 12 : 60;
	int nops = 1 + (int)r.below(14);
	if (idx % 2000 == 5) { cap = 60000 + (uint32_t)r.below(90000); maxp = 90000; count("long_texts"); }
	as_string_builder sb;
	memset(&sb, 0xa5, sizeof sb);
	uint64_t sig;
	int kind = (int)r.below(3);
	if (kind == 0) {
		scenario(grow ? "heap-growable" : "heap-fixed");
		as_string_builder_init(&sb, cap, grow);
		sig = history(&sb, r, grow, nops, maxp);
		as_string_builder_destroy(&sb);
	}
	else if (kind == 1) {
		scenario(grow ? "stack-growable" : "stack-fixed");
		as_string_builder_inita(&sb, cap, grow);
		sig = history(&sb, r, grow, nops, maxp);
		as_string_builder_destroy(&sb);
	}
	else {
		scenario("lent-buffer");
		char* buf = (char*)malloc(cap);
		as_string_builder_assign(&sb, cap, buf);
		sig = history(&sb, r, false, nops, maxp);
		as_string_builder_destroy(&sb);
		buf[0] = 0;		// still ours
		free(buf);
	}
	VF_CHECK(live_allocs() == base, "leak", "%ld allocations left", (long)(live_allocs() - base));
	if (r.chance(1, 5000)) sample("kind %d capacity %u growable %d: %d appends, last capacity %u", kind, cap, grow, nops, sb.capacity);
	seen("distinct", hash2(sig, (uint64_t)kind));
}

int main(int argc, char** argv)
{
	floor_of("appends", 10000);
	floor_of("refused", 500);
	floor_of("long_texts", 100);
	return run(argc, argv, 1000000, 20000000, one);
}
