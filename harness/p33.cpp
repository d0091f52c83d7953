// P33: platform helpers: byte order, directories, thread names, pauses.
#include "vf.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include <citrusleaf/cf_byte_order.h>
#include <aerospike/as_dir.h>
#include <aerospike/as_sleep.h>
#include <aerospike/as_thread.h>
}
#include <set>
#include <string>
#include <thread>
#include <vector>
using namespace vf;

template <class T> static T big(T n) { uint8_t b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) b[i] = (uint8_t)(n >> (8 * (sizeof(T) - 1 - i))); T x; memcpy(&x, b, sizeof x); return x; }
template <class T> static T little(T n) { uint8_t b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) b[i] = (uint8_t)(n >> (8 * i)); T x; memcpy(&x, b, sizeof x); return x; }
#define WIDTH(T, B, n) do { T x = (T)(n); \
	VF_CHECK(cf_swap_to_be##B(x) == big<T>(x), "to-big", "%llx as %d-bit big endian gave %llx", (unsigned long long)x, B, (unsigned long long)cf_swap_to_be##B(x)); \
	VF_CHECK(cf_swap_to_le##B(x) == little<T>(x), "to-little", "%llx as %d-bit little endian gave %llx", (unsigned long long)x, B, (unsigned long long)cf_swap_to_le##B(x)); \
	VF_CHECK(cf_swap_from_be##B(big<T>(x)) == x, "from-big", "%llx from %d-bit big endian gave %llx", (unsigned long long)x, B, (unsigned long long)cf_swap_from_be##B(big<T>(x))); \
	VF_CHECK(cf_swap_from_le##B(little<T>(x)) == x, "from-little", "%llx from %d-bit little endian gave %llx", (unsigned long long)x, B, (unsigned long long)cf_swap_from_le##B(little<T>(x))); \
	count("conversions", 4); seen("distinct", hash2(x, B)); } while (0)

static void orders(uint64_t idx, Rng& r)
{
	scenario("byte order");
	for (int i = 0; i < 64; i++) {
		uint64_t n = r.chance(1, 4) ? 1ULL << r.below(64) : r.chance(1, 4) ? ~(1ULL << r.below(64)) : r.u64() >> (8 * r.below(8));
		WIDTH(uint16_t, 16, n);
		WIDTH(uint32_t, 32, n);
		WIDTH(uint64_t, 64, n);
	}
	for (int i = 0; i < 16; i++) {
		// a double in the other order is only a bag of bytes, so bytes are compared
		uint64_t n = r.chance(1, 3) ? 1ULL << r.below(64) : r.u64(), b = big<uint64_t>(n), l = little<uint64_t>(n), got;
		double d, x;
#define DOUBLE(call, in, want, key) memcpy(&d, &in, 8); x = call(d); memcpy(&got, &x, 8); \
		VF_CHECK(got == want, key, "double with bits %llx gave bits %llx", (unsigned long long)in, (unsigned long long)got)
		DOUBLE(cf_swap_to_big_float64, n, b, "double-to-big");
		DOUBLE(cf_swap_to_little_float64, n, l, "double-to-little");
		DOUBLE(cf_swap_from_big_float64, b, n, "double-from-big");
		DOUBLE(cf_swap_from_little_float64, l, n, "double-from-little");
		count("conversions", 4);
	}
	uint32_t base = (uint32_t)(idx * 256);
	for (uint32_t i = 0; i < 256; i++) WIDTH(uint16_t, 16, base + i);
}

static int fds()
{
	DIR* d = opendir("/proc/self/fd");
	if (!d) return -1;
	int n = 0;
	while (readdir(d)) n++;
	closedir(d);
	return n;
}

static void directories(Rng& r)
{
	scenario("directory");
	char top[] = "/tmp/vf-dir-XXXXXX";
	if (!mkdtemp(top)) { count("no_scratch"); return; }
	int before = fds();
	std::set<std::string> want{".", ".."}, dirs;
	uint64_t n = r.chance(1, 6) ? r.range(300, 900) : r.below(12);
	for (uint64_t i = 0; i < n; i++) {
		std::string s;
		size_t len = r.chance(1, 6) ? r.range(200, 255) : r.range(1, 20);
		if (r.chance(1, 5)) s.assign(1 + r.below(4), '.');
		while (s.size() < len) { char c = (char)r.range(1, 255); if (c != '/') s.push_back(c); }
		if (s == "." || s == ".." || want.count(s)) continue;
		std::string p = std::string(top) + "/" + s;
		if (r.chance(1, 5)) { if (mkdir(p.c_str(), 0700)) continue; dirs.insert(s); }
		else { int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_EXCL, 0600); if (fd < 0) continue; close(fd); }
		want.insert(s);
	}
	bool refused = false;
	std::string why;
	auto note = [&](bool ok, const char* what) { if (!ok && !refused) { refused = true; why = what; } };
	note(as_dir_exists(top), "an existing directory is said not to exist");
	note(!as_dir_exists((std::string(top) + "/nothing/here").c_str()), "a missing directory is said to exist");
	for (auto& s : want) if (s[0] != '.' || s.size() > 2) note(as_dir_exists((std::string(top) + "/" + s).c_str()) == (dirs.count(s) > 0), "a file is said to be a directory or the other way round");
	as_dir d;
	note(!as_dir_open(&d, (std::string(top) + "/nothing").c_str()), "a missing directory was opened");
	std::multiset<std::string> got;
	int inside = 0;
	if (as_dir_open(&d, top)) {
		inside = fds();
		while (const char* e = as_dir_read(&d)) { got.insert(e); if (got.size() > want.size() + 8) break; }
		for (int i = 0; i < 2; i++) note(!as_dir_read(&d), "an entry after the end");
		as_dir_close(&d);
	}
	else note(false, "an existing directory can't be opened");
	int after = fds();
	for (auto& s : want) if (s != "." && s != "..") { std::string p = std::string(top) + "/" + s; if (dirs.count(s)) rmdir(p.c_str()); else unlink(p.c_str()); }
	rmdir(top);
	VF_CHECK(!refused, "directory", "%s (%zu entries)", why.c_str(), want.size());
	VF_CHECK(std::multiset<std::string>(want.begin(), want.end()) == got, "entries", "%zu entries read, %zu exist", got.size(), want.size());
	VF_CHECK(after == before, "descriptors", "%d descriptors before, %d after listing a directory", before, after);
	(void)inside;
	count("listings");
	count("entries", got.size());
	seen("distinct", hash2(got.size(), r.u64()));
}

static void names(Rng& r)
{
	scenario("thread name");
	std::string s;
	for (uint64_t n = r.below(15); n; n--) s.push_back((char)r.range('a', 'z'));
	uint32_t i = r.chance(1, 3) ? r.u32() : (uint32_t)r.below(1000);
	bool indexed = r.chance(1, 2);
	if (indexed && r.chance(1, 4)) s.append(40, 'x');
	std::string want = indexed ? s + std::to_string(i) : s, got;
	want = want.substr(0, AS_THREAD_NAME_MAX - 1);
	std::thread t([&] {
		if (indexed) as_thread_set_name_index(s.c_str(), i); else as_thread_set_name(s.c_str());
		char b[64] = "";
		pthread_getname_np(pthread_self(), b, sizeof b);
		got = b;
	});
	t.join();
	VF_CHECK(got == want, "thread-name", "thread named '%s', expected '%s'", got.c_str(), want.c_str());
	count("names");
	seen("distinct", hash_bytes(want.data(), want.size()));
}

static void pauses(Rng& r)
{
	scenario("pause");
	struct timespec a, b;
	uint32_t ms = (uint32_t)r.below(4);
	clock_gettime(CLOCK_MONOTONIC, &a);
	as_sleep(ms);
	clock_gettime(CLOCK_MONOTONIC, &b);
	int64_t us = (b.tv_sec - a.tv_sec) * 1000000 + (b.tv_nsec - a.tv_nsec) / 1000;
	VF_CHECK(us >= (int64_t)ms * 1000 - 1, "pause", "a pause of %u ms took %ld us", ms, (long)us);
	count("pauses");
}

static void one(uint64_t idx, Rng& r)
{
	if (idx == 0) sample("byte orders of all 16-bit and random wider numbers, scratch directories of up to 900 entries with names up to 255 bytes, thread names, pauses");
	orders(idx, r);
	if (idx % 4 == 0) directories(r);
	if (idx % 4 == 1) names(r);
	if (idx % 16 == 2) pauses(r);
	count("evals");
}

int main(int argc, char** argv)
{
	floor_of("conversions", 100000); floor_of("listings", 20); floor_of("names", 20);
	return run(argc, argv, 2000, 60000, one);
}
