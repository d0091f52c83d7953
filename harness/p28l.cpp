// P28, large: items beyond the first 4 GB of a vector.
#include "vf.hpp"
extern "C" {
#include <aerospike/as_vector.h>
#include <citrusleaf/alloc.h>
}
#include <vector>
using namespace vf;

static void one(uint64_t idx, Rng& r)
{
	scenario("large");
	const uint32_t isz = 1u << 20, n = 4096 + 8 + (uint32_t)r.below(20);
	std::vector<uint64_t> item(isz / 8, 0x5a5a5a5a5a5a5a5aULL);
	uint64_t* w = item.data();
	const size_t e = isz / 8 - 1;
	as_vector v;
	as_vector_init(&v, isz, 1 + (uint32_t)r.below(3));
	auto check = [&](uint32_t i, uint64_t id) {
		uint64_t* p = (uint64_t*)as_vector_get(&v, i);
		VF_CHECK(p[0] == id && p[e] == ~id && p[e / 2] == 0x5a5a5a5a5a5a5a5aULL, "item", "item %u of %u (1 MB each) differs", i, v.size);
	};
	for (uint32_t i = 0; i < n; i++) {
		if (r.chance(1, 8)) {
			uint64_t* p = (uint64_t*)as_vector_reserve(&v);
			VF_CHECK(p[0] == 0 && p[e] == 0, "reserve-zero", "reserved item %u not zero", i);
			w[0] = i; w[e] = ~(uint64_t)i;
			as_vector_set(&v, i, w);
		}
		else { w[0] = i; w[e] = ~(uint64_t)i; as_vector_append(&v, w); }
		progress();
	}
	for (uint32_t i = 0; i < n; i++) check(i, i);
	uint32_t at = 4096 + (uint32_t)r.below(5);
	VF_CHECK(as_vector_remove(&v, at) && v.size == n - 1, "remove", "removing item %u", at);
	for (uint32_t i = 0; i < n - 1; i++) check(i, i < at ? i : i + 1);
	w[0] = 77777; w[e] = ~77777ULL;
	VF_CHECK(!as_vector_append_unique(&v, as_vector_get(&v, n - 2)), "unique", "present item appended");
	VF_CHECK(as_vector_append_unique(&v, w), "unique", "absent item not appended");
	check(n - 1, 77777);
	check(0, 0);
	if (g_thorough) {
		uint32_t k;
		uint64_t* a = (uint64_t*)as_vector_to_array(&v, &k);
		VF_CHECK(a && k == n, "snapshot", "snapshot size %u", k);
		for (uint32_t i = 0; i + 1 < n; i++) VF_CHECK(a[(size_t)i * (isz / 8)] == (i < at ? i : i + 1), "snapshot", "snapshot item %u differs", i);
		cf_free(a);
	}
	as_vector_destroy(&v);
	count("large");
	seen("distinct", hash2(n, at));
	count("evals");
}

int main(int argc, char** argv)
{
	floor_of("large", 1);
	return run(argc, argv, 1, 2, one);
}
