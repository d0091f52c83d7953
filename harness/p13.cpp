// P13: as_queue against an ideal double-ended queue.
#include "vf.hpp"
#include <deque>
extern "C" {
#include <aerospike/as_queue.h>
}
using namespace vf;

typedef std::string Item;
static Item mk(Rng& r, uint32_t sz) { Item s(sz, 0); r.fill(&s[0], sz); return s; }

static void verify(as_queue* q, const std::deque<Item>& m, uint32_t cap, uint32_t total, const char* op)
{
	VF_CHECK(as_queue_size(q) == m.size(), "size", "after %s size %u, model %zu", op, as_queue_size(q), m.size());
	VF_CHECK(as_queue_empty(q) == m.empty(), "empty", "after %s empty disagrees", op);
	VF_CHECK(q->capacity >= m.size() && q->capacity >= cap, "capacity", "after %s capacity %u below %u / size %zu", op, q->capacity, cap, m.size());
	(void)total;
}

static void run_ops(as_queue* q, uint32_t isz, Rng& r, int nops, uint32_t prefill)
{
	std::deque<Item> m;
	std::string got(isz + 16, '\x5a');
	uint32_t cap = q->capacity, total = 0;
	uint64_t sig = isz * 131 + cap;
	int grow = 0, refused = 0, empties = 0;
	int bias = (int)r.below(3);
	for (uint32_t i = 0; i < prefill; i++) {
		m.push_back(mk(r, isz));
		VF_CHECK(as_queue_push(q, m.back().data()), "push", "push refused at size %u", i);
	}
	for (int i = 0; i < nops; i++) {
		if ((i & 63) == 0) bias = (int)r.below(3);
		int op = (int)r.below(10);
		if (bias == 0 && op >= 6 && r.chance(2, 3)) op = (int)r.below(4);
		if (bias == 1 && op <= 3 && r.chance(2, 3)) op = 6 + (int)r.below(2);
		Item it = mk(r, isz);
		uint32_t before_cap = q->capacity;
		sig = hash2(sig, (uint64_t)op);
		bool ok;
		switch (op) {
		case 0: case 1:
			ok = as_queue_push(q, it.data());
			trace("push -> %d", ok);
			VF_CHECK(ok, "push", "push refused at size %zu", m.size());
			m.push_back(it);
			break;
		case 2:
			ok = as_queue_push_head(q, it.data());
			trace("push_head -> %d", ok);
			VF_CHECK(ok, "push_head", "push_head refused at size %zu", m.size());
			m.push_front(it);
			break;
		case 3:
			ok = as_queue_push_limit(q, it.data());
			trace("push_limit -> %d (size %zu cap %u)", ok, m.size(), before_cap);
			VF_CHECK(ok == (m.size() < before_cap), "push_limit", "push_limit returned %d at size %zu capacity %u", ok, m.size(), before_cap);
			VF_CHECK(q->capacity == before_cap, "limit-grew", "push_limit changed the capacity");
			if (ok) m.push_back(it); else refused++;
			break;
		case 4:
			ok = as_queue_push_head_limit(q, it.data());
			trace("push_head_limit -> %d (size %zu cap %u)", ok, m.size(), before_cap);
			VF_CHECK(ok == (m.size() < before_cap), "push_head_limit", "push_head_limit returned %d at size %zu capacity %u", ok, m.size(), before_cap);
			VF_CHECK(q->capacity == before_cap, "limit-grew", "push_head_limit changed the capacity");
			if (ok) m.push_front(it); else refused++;
			break;
		case 5: {
			bool want = total < q->capacity;
			if (r.chance(1, 2)) {
				ok = as_queue_incr_total(q);
				VF_CHECK(ok == want, "incr_total", "incr_total %d at total %u capacity %u", ok, total, q->capacity);
				if (ok) total++;
			}
			else if (total) { as_queue_decr_total(q); total--; }
			break;
		}
		case 6: case 7: case 8: case 9: {
			bool head = op < 8;
			memset(&got[0], 0x5a, got.size());
			ok = head ? as_queue_pop(q, &got[0]) : as_queue_pop_tail(q, &got[0]);
			trace("%s -> %d", head ? "pop" : "pop_tail", ok);
			VF_CHECK(ok == !m.empty(), "pop-result", "pop returned %d with %zu items", ok, m.size());
			VF_CHECK(got.compare(isz, 16, std::string(16, '\x5a')) == 0, "pop-overrun", "pop wrote past the item");
			if (ok) {
				const Item& want = head ? m.front() : m.back();
				VF_CHECK(got.compare(0, isz, want) == 0, "pop-item", "%s returned a different item at size %zu", head ? "pop" : "pop_tail", m.size());
				if (head) m.pop_front(); else m.pop_back();
				count("items_popped");
			}
			else {
				VF_CHECK(got == std::string(got.size(), '\x5a'), "pop-empty-wrote", "pop of an empty queue wrote to the target");
				empties++;
			}
			break;
		}
		}
		if (q->capacity != before_cap) { grow++; VF_CHECK(q->capacity > before_cap, "shrunk", "capacity shrank"); }
		verify(q, m, cap, total, "op");
		count("ops");
	}
	count("growths", grow); count("limit_refusals", refused); count("pops_of_empty", empties);
	while (!m.empty()) {
		VF_CHECK(as_queue_pop(q, &got[0]), "drain", "pop failed with %zu items left", m.size());
		VF_CHECK(got.compare(0, isz, m.front()) == 0, "drain-item", "drained item differs with %zu left", m.size());
		m.pop_front();
	}
	VF_CHECK(!as_queue_pop(q, &got[0]), "drain-extra", "pop succeeded after the last item");
	seen("distinct", sig);
}

static void one(uint64_t idx, Rng& r)
{
	int64_t live = live_allocs();
	uint32_t isz = r.chance(1, 3) ? (uint32_t)r.range(1, 3) : (uint32_t)r.range(1, 40);
	uint32_t cap = r.chance(1, 2) ? (uint32_t)r.range(0, 4) : (uint32_t)r.range(1, 33);
	int nops = (int)r.range(20, 600);
	int kind = (int)(idx % 3);
	uint32_t prefill = idx % 1000 == 7 ? 65300 + (uint32_t)r.below(400) : idx % 50 == 3 ? 200 + (uint32_t)r.below(400) : 0;
	if (prefill) { count("long_queues"); isz = 1 + isz % 8; if (r.chance(1, 4)) cap = prefill - 1; }
	if (idx < 4) sample("kind=%d item_size=%u capacity=%u ops=%d", kind, isz, cap, nops);
	if (kind == 0) {
		as_queue q;
		VF_CHECK(as_queue_init(&q, isz, cap), "init", "init failed");
		run_ops(&q, isz, r, nops, prefill);
		as_queue_destroy(&q);
	}
	else if (kind == 1) {
		as_queue* q = as_queue_create(isz, cap);
		VF_CHECK(q, "create", "create failed");
		run_ops(q, isz, r, nops, prefill);
		as_queue_destroy(q);
	}
	else {
		as_queue q;
		as_queue_inita(&q, isz, cap);
		run_ops(&q, isz, r, nops, prefill);
		as_queue_destroy(&q);
	}
	VF_CHECK(live_allocs() == live, "leak", "%lld blocks left after destroy", (long long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("long_queues", 100); floor_of("growths", 100); floor_of("limit_refusals", 50); floor_of("items_popped", 1000);
	return run(argc, argv, 12000, 200000, one);
}
