// P13, long runs: more pushes than the 30-bit position counters hold.
#include "vf.hpp"
#include <deque>
extern "C" {
#include <aerospike/as_queue.h>
}
using namespace vf;

static const uint64_t LONG = 14;

// Queues whose items take 4 GB or more.
static void wide(bool grow)
{
	scenario(grow ? "wide-growth" : "wide");
	uint32_t isz = 65537, cap = grow ? 32769 : 65536;
	std::string a(isz, 0), b(isz, 0);
	as_queue q;
	VF_CHECK(as_queue_init(&q, isz, cap), "wide-init", "init failed");
	auto item = [&](uint32_t i) { memset(&a[0], (int)(i * 7), isz); memcpy(&a[0], &i, 4); memcpy(&a[isz - 4], &i, 4); return a.data(); };
	auto same = [&](uint32_t i) { item(i); return a == b; };
	if (!grow) {
		// Head pushes take the last places of the storage.
		for (uint32_t i = 0; i < 40; i++) VF_CHECK(i % 2 ? as_queue_push(&q, item(i)) : as_queue_push_head(&q, item(i)), "wide-push", "push refused");
		for (int i = 38; i >= 0; i -= 2) VF_CHECK(as_queue_pop(&q, &b[0]) && same((uint32_t)i), "wide-item", "item %d of a queue of 4 GB differs", i);
		for (int i = 39; i >= 0; i -= 2) VF_CHECK(as_queue_pop_tail(&q, &b[0]) && same((uint32_t)i), "wide-item", "item %d of a queue of 4 GB differs", i);
	}
	else {
		for (uint32_t i = 0; i < cap; i++) VF_CHECK(as_queue_push(&q, item(i)), "wide-push", "push refused");
		uint32_t from = 0;
		for (; from < 5; from++) VF_CHECK(as_queue_pop(&q, &b[0]) && same(from), "wide-item", "item %u differs", from);
		uint32_t to = cap + 8;
		for (uint32_t i = cap; i < to; i++) VF_CHECK(as_queue_push(&q, item(i)), "wide-push", "push refused");
		for (; from < to; from++) VF_CHECK(as_queue_pop(&q, &b[0]) && same(from), "wide-item", "item %u of a queue grown beyond 4 GB differs", from);
	}
	VF_CHECK(as_queue_empty(&q), "wide-item", "items left over");
	as_queue_destroy(&q);
	count("wide");
}

static void one(uint64_t idx, Rng& r)
{
	if (idx >= LONG) { wide(idx - LONG); seen("distinct", idx + 77); return; }
	scenario("long-run");
	// Every fill level between empty and full at the turn-over.
	static const uint32_t caps[] = {5, 7, 1, 12, 3, 8};
	uint32_t cap = caps[idx / 2 % 6], keep = idx % 2 ? cap : (uint32_t)r.below(cap + 1);
	as_queue q;
	VF_CHECK(as_queue_init(&q, 4, cap), "init", "init failed");
	uint32_t in = 0, out = 0;
	bool limit = idx & 2;
	for (uint32_t k = 0; k < keep; k++, in++) VF_CHECK(as_queue_push(&q, &in), "push", "push");
	uint64_t n = (1ULL << 30) - 3000;
	uint32_t v = 0;
	for (uint64_t i = 0; i < n; i++) {
		if (keep == cap) {
			if (!as_queue_pop(&q, &v) || v != out) fail("long-pop", "item %u came out as %u", out, v);
			if (!as_queue_push(&q, &in)) fail("long-push", "push refused after %u items", in);
		}
		else {
			if (!(limit ? as_queue_push_limit(&q, &in) : as_queue_push(&q, &in))) fail("long-push", "push refused after %u items", in);
			if (!as_queue_pop(&q, &v) || v != out) fail("long-pop", "item %u came out as %u", out, v);
		}
		in++;
		out++;
		if ((i & 0xfffff) == 0) { progress(); if (as_queue_size(&q) != keep) fail("long-size", "size %u", as_queue_size(&q)); }
	}
	count("long_pushes", n);
	// Through the turn-over every operation on both ends.
	std::deque<uint32_t> m;
	for (uint32_t i = out; i < in; i++) m.push_back(i);
	bool steady = idx % 4 == 3;
	for (int i = 0; i < 60000; i++) {
		uint64_t op = steady ? (m.size() >= keep ? 4 : 0) : r.below(7);
		bool ok, room = m.size() < cap;
		switch (op) {
		case 0: if (!room) break; ok = as_queue_push(&q, &in); VF_CHECK(ok, "long-push", "push refused"); m.push_back(in++); break;
		case 1: ok = as_queue_push_limit(&q, &in); VF_CHECK(ok == room, "long-limit", "limited push with %zu of %u gave %d", m.size(), cap, ok); if (ok) m.push_back(in++); break;
		case 2: if (!room) break; ok = as_queue_push_head(&q, &in); VF_CHECK(ok, "long-push", "push refused"); m.push_front(in++); break;
		case 3: ok = as_queue_push_head_limit(&q, &in); VF_CHECK(ok == room, "long-limit", "limited head push with %zu of %u gave %d", m.size(), cap, ok); if (ok) m.push_front(in++); break;
		case 6:
			ok = as_queue_pop_tail(&q, &v);
			VF_CHECK(ok == !m.empty() && (!ok || v == m.back()), "long-tail", "pop from the tail gave %d, %u", ok, v);
			if (ok) m.pop_back();
			break;
		default:
			ok = as_queue_pop(&q, &v);
			VF_CHECK(ok == !m.empty() && (!ok || v == m.front()), "long-pop", "pop gave %d, %u", ok, v);
			if (ok) m.pop_front();
		}
		VF_CHECK(as_queue_size(&q) == m.size() && as_queue_empty(&q) == m.empty(), "long-size", "size %u, ideal %zu", as_queue_size(&q), m.size());
		if (!steady && r.chance(1, 3) && m.size() + 1 < keep && as_queue_push(&q, &in)) m.push_back(in++);
	}
	// Growth after the turn-over.
	for (uint32_t i = 0; i < 2 * cap + 3; i++, in++) { VF_CHECK(as_queue_push(&q, &in), "long-push", "push refused"); m.push_back(in); }
	for (; !m.empty(); m.pop_front()) VF_CHECK(as_queue_pop(&q, &v) && v == m.front(), "long-pop", "item %u came out as %u", m.front(), v);
	VF_CHECK(as_queue_empty(&q), "long-size", "items left over");
	as_queue_destroy(&q);
	count("turn_overs");
	seen("distinct", idx + 77);
}

int main(int argc, char** argv)
{
	floor_of("long_pushes", 1u << 30);
	floor_of("wide", 2);
	return run(argc, argv, LONG + 2, LONG + 2, one);
}
