// P28: growable array against a reference array.
#include "vf.hpp"
#include <alloca.h>
#include <string>
#include <vector>
extern "C" {
#include <aerospike/as_vector.h>
#include <citrusleaf/alloc.h>
}
using namespace vf;

static std::string item(Rng& r, uint32_t isz, bool few)
{
	std::string s(isz, 0);
	if (few) { memset(&s[0], (int)r.below(3), isz); if (isz > 1) s[isz - 1] = (char)r.below(3); if (isz > 2 && r.chance(1, 2)) s[r.below(isz)] = 1; }
	else r.fill(&s[0], isz);
	return s;
}

static void compare(as_vector* v, const std::vector<std::string>& m, const char* after)
{
	VF_CHECK(v->size == m.size(), "size", "after %s size %u, expected %zu", after, v->size, m.size());
	VF_CHECK(v->capacity >= v->size, "capacity", "after %s capacity %u below size %u", after, v->capacity, v->size);
	for (uint32_t i = 0; i < m.size(); i++) {
		void* p = as_vector_get(v, i);
		VF_CHECK(memcmp(p, m[i].data(), m[i].size()) == 0, "item", "after %s item %u of %zu (%zu bytes) differs", after, i, m.size(), m[i].size());
		if (m[i].size() == sizeof(void*)) { void* q; memcpy(&q, m[i].data(), sizeof q); VF_CHECK(as_vector_get_ptr(v, i) == q, "item", "after %s pointer %u of %zu differs", after, i, m.size()); }
	}
}

static void big(Rng& r)
{
	// More than 4 GB in all: refused for want of memory here, or else usable.
	scenario("big");
	max_single_alloc(1u << 28);
	uint32_t isz = 1u << (12 + r.below(8)), cap = (uint32_t)((1ULL << 32) / isz) + (uint32_t)r.below(3);
	as_vector v;
	as_vector_init(&v, isz, cap);
	if (v.list) {
		std::string a = item(r, isz, false), b = item(r, isz, false), c = item(r, isz, false);
		as_vector_append(&v, &a[0]);
		as_vector_append(&v, &b[0]);
		as_vector_append(&v, &c[0]);
		VF_CHECK(memcmp(as_vector_get(&v, 0), a.data(), isz) == 0 && memcmp(as_vector_get(&v, 2), c.data(), isz) == 0, "item", "items differ in a vector of capacity %u", cap);
	}
	as_vector_destroy(&v);
	max_single_alloc(0);
	count("big");
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
	if (idx % 500 == 0) { big(r); return; }
	scenario("sequence");
	size_t live = live_allocs();
	{
		uint32_t isz = r.chance(1, 4) ? 8 : 1 + (uint32_t)r.below(r.chance(1, 8) ? 300 : 40);
		uint32_t cap = (uint32_t)r.below(r.chance(1, 2) ? 4 : 20);
		as_vector st, *v = &st;
		memset((void*)&st, 0xa5, sizeof st);
		int how = (int)r.below(3);
		if (how == 0) as_vector_init(v, isz, cap);
		else if (how == 1) v = as_vector_create(isz, cap);
		else { as_vector_inita(v, isz, cap); }
		if (how == 2 && cap * isz) memset(v->list, 0xa5, cap * isz);
		bool few = r.chance(1, 2);
		std::vector<std::string> m;
		int steps = 1 + (int)r.below(r.chance(1, 4) ? 150 : 25);
		uint64_t sig = hash2(isz, hash2(cap, (uint64_t)how));
		if (idx % 5000 == 7 || idx % 400 == 9) {
			uint32_t pre = idx % 5000 == 7 ? 65300 + (uint32_t)r.below(400) : 220 + (uint32_t)r.below(300);
			for (uint32_t i = 0; i < pre; i++) { m.push_back(item(r, isz, false)); as_vector_append(v, &m.back()[0]); }
			steps = 1 + (int)r.below(15);
			count("long_vectors");
		}
		compare(v, m, "creation");
		for (int s = 0; s < steps; s++) {
			uint32_t n = (uint32_t)m.size();
			uint64_t op = r.below(14);
			std::string x = item(r, isz, few);
			const char* name = "";
			sig = hash2(sig, hash2(op, n));
			switch (op) {
			case 0: case 1: case 2: case 3: name = "append"; as_vector_append(v, &x[0]); m.push_back(x); break;
			case 4: case 5: {
				name = "append_unique";
				if (n && r.chance(1, 2)) x = m[r.below(n)];
				bool there = false;
				for (auto& y : m) there |= y == x;
				bool got = as_vector_append_unique(v, &x[0]);
				VF_CHECK(got == !there, "unique", "unique append of %s item returned %d", there ? "a present" : "an absent", got);
				if (!there) m.push_back(x);
				count(there ? "unique_refused" : "unique_added");
				break;
			}
			case 6: case 7: {
				name = "reserve";
				uint8_t* p = (uint8_t*)as_vector_reserve(v);
				for (uint32_t i = 0; i < isz; i++) VF_CHECK(p[i] == 0, "reserve-zero", "byte %u of a reserved item is 0x%02x", i, p[i]);
				if (r.chance(1, 2)) { memcpy(p, x.data(), isz); m.push_back(x); }
				else m.push_back(std::string(isz, 0));
				break;
			}
			case 8: if (n) { name = "set"; uint32_t i = (uint32_t)r.below(n); as_vector_set(v, i, &x[0]); m[i] = x; } break;
			case 9: case 10: {
				name = "remove";
				uint32_t i = r.chance(1, 5) ? (r.chance(1, 2) ? n : n + r.u32() % 1000) : n ? (uint32_t)r.below(n) : 0;
				if (r.chance(1, 20)) i = UINT32_MAX;
				bool ok = as_vector_remove(v, i);
				VF_CHECK(ok == (i < n), "remove", "removing %u of %u returned %d", i, n, ok);
				if (i < n) m.erase(m.begin() + i);
				break;
			}
			case 11: if (r.chance(1, 4)) { name = "clear"; as_vector_clear(v); m.clear(); } break;
			case 12: {
				name = "to_array";
				uint32_t k = 0xa5a5a5a5;
				uint8_t* a = (uint8_t*)as_vector_to_array(v, &k);
				VF_CHECK(k == n, "snapshot", "snapshot of %u items has size %u", n, k);
				for (uint32_t i = 0; i < n; i++) VF_CHECK(memcmp(a + (size_t)i * isz, m[i].data(), isz) == 0, "snapshot", "snapshot item %u of %u differs", i, n);
				if (n) a[r.below((uint64_t)n * isz)] ^= 0xff;		// independent of the vector
				cf_free(a);
				break;
			}
			default:
				if (r.chance(1, 4) && v->capacity < 2000) {
					name = "increase_capacity";
					uint32_t c = v->capacity;
					as_vector_increase_capacity(v);
					VF_CHECK(v->capacity > c, "capacity", "growing left capacity at %u (was %u)", v->capacity, c);
				}
			}
			count("ops");
			compare(v, m, name);
		}
		if (idx < 4) sample("item size %u, capacity %u, %d operations, final size %zu", isz, cap, steps, m.size());
		as_vector_destroy(v);
		seen("distinct", sig);
	}
	VF_CHECK(live_allocs() == live, "leak", "%ld allocations left", (long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("ops", 2000); floor_of("long_vectors", 50);
	return run(argc, argv, 120000, 4000000, one);
}
