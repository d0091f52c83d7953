// P19, texts around 4 GB (optimised build, no sanitizer).
#include "vf.hpp"
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include <aerospike/as_string_builder.h>
#include <citrusleaf/alloc.h>
}
using namespace vf;

// A text of n characters: a small window of memory mapped again and again, the end in pages of its own.
struct Text {
	static const size_t W = 16u << 20;
	char* p;
	size_t all;
	static char at(size_t i) { return (char)('a' + i % W % 23); }
	explicit Text(size_t n)
	{
		int fd = memfd_create("text", 0);
		VF_CHECK(fd >= 0 && ftruncate(fd, W) == 0, "map", "no memory for the text");
		size_t whole = n / W * W;
		all = whole + W;
		p = (char*)mmap(NULL, all, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		VF_CHECK(p != MAP_FAILED, "map", "no memory for the text");
		for (size_t o = 0; o < whole; o += W) VF_CHECK(mmap(p + o, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED, "map", "no memory for the text");
		if (whole) for (size_t i = 0; i < W; i++) p[i] = at(i);
		for (size_t i = whole; i < n; i++) p[i] = at(i);
		close(fd);
	}
	~Text() { munmap(p, all); }
};

static void one(uint64_t idx, Rng& r)
{
	scenario("long-text");
	static const uint64_t LEN[] = {(1ULL << 32) + 10, (1ULL << 32) - 3, (1ULL << 32), (1ULL << 31) + 5, (1ULL << 32) - 1, (1ULL << 33) + 70000};
	uint64_t n = LEN[idx % 6];
	std::string head(1 + r.below(40), 'H'), why;
	uint32_t cap = 1 + (uint32_t)r.below(60);
	bool ok = in_child([&] {
		Text t(n);
		as_string_builder sb;
		as_string_builder_inita(&sb, cap, true);
		VF_CHECK(as_string_builder_append(&sb, head.c_str()), "refused", "a short text was refused");
		bool done = as_string_builder_append(&sb, t.p);
		uint64_t want = head.size() + n;
		VF_CHECK(done || want >= UINT32_MAX, "refused", "a text of %lu characters was refused", (long)n);
		VF_CHECK(!done || sb.length == want, "length", "a text of %lu characters accepted, length %u", (long)n, sb.length);
		VF_CHECK(sb.length >= head.size() && sb.length <= want && sb.data[sb.length] == 0, "terminator", "length %u is not terminated", sb.length);
		VF_CHECK(memcmp(sb.data, head.data(), head.size()) == 0, "content", "the first text changed");
		for (uint64_t i = head.size(); i < sb.length; i++) VF_CHECK(sb.data[i] == Text::at(i - head.size()), "content", "character %lu of %u differs", (long)i, sb.length);
		// still usable
		if (want < UINT32_MAX - 100 || !done) {
			uint32_t len = sb.length;
			bool more = as_string_builder_append(&sb, "tail");
			VF_CHECK(more && sb.length == len + 4 && !strcmp(sb.data + len, "tail"), "content", "a text after a long one is lost");
		}
		as_string_builder_destroy(&sb);
	}, why, 200);
	if (!ok && why == "map") { count("skipped"); return; }		// no room for the input: nothing was judged
	if (!ok) fail(why.empty() ? "long-text" : why.c_str(), "a text of %lu characters appended to %zu", (long)n, head.size());
	count("evals");
	count("giant_texts");
	seen("distinct", hash2(n, cap));
}

int main(int argc, char** argv)
{
	floor_of("giant_texts", 6);
	watchdog_limit(240);
	return run(argc, argv, 6, 6, one);
}
