// P14: as_queue_mt under concurrency.
#include "conc.hpp"
extern "C" {
#include <aerospike/as_queue_mt.h>
}
using namespace conc;

struct MtQueue : Queue {
	as_queue_mt* q;
	as_queue_mt st;
	bool heap;
	MtQueue(uint32_t e, uint32_t cap, bool h) : Queue(e), heap(h)
	{
		if (heap) q = as_queue_mt_create(e, cap);
		else { q = &st; if (!as_queue_mt_init(q, e, cap)) q = NULL; }
		VF_CHECK(q, "create", "creating a queue failed");
	}
	~MtQueue() { as_queue_mt_destroy(q); }
	void run(Op& o) override
	{
		Elem e(esz);
		switch (o.k) {
		case PUSH: e.set(o.arg); o.ok = as_queue_mt_push(q, &e.b[0]); break;
		case PUSH_HEAD: e.set(o.arg); o.ok = as_queue_mt_push_head(q, &e.b[0]); break;
		case PUSH_LIMIT: e.set(o.arg); o.ok = as_queue_mt_push_limit(q, &e.b[0]); break;
		case PUSH_HEAD_LIMIT: e.set(o.arg); o.ok = as_queue_mt_push_head_limit(q, &e.b[0]); break;
		case POP: o.ok = as_queue_mt_pop(q, &e.b[0], o.wait); break;
		case POP_TAIL: o.ok = as_queue_mt_pop_tail(q, &e.b[0], o.wait); break;
		case SIZE: o.val = as_queue_mt_size(q); o.ok = true; break;
		case EMPTY: o.ok = as_queue_mt_empty(q); break;
		default: break;
		}
		if ((o.k == POP || o.k == POP_TAIL) && o.ok) { o.val = e.get(); o.torn = !e.good(); }
	}
};

static void one(uint64_t idx, Rng& r)
{
	int64_t live = live_allocs();
	static const uint32_t sizes[] = {4, 8, 12, 20, 33};
	uint32_t esz = sizes[r.below(5)], cap = (uint32_t)r.range(1, 5);
	bool limited = r.chance(1, 2);
	if (idx < 4) sample("element size %u, capacity %u, %s pushes", esz, cap, limited ? "limited" : "growing");
	switch (idx % 8) {
	case 0: case 1: case 2: case 3: case 4: {
		MtQueue q(esz, cap, r.chance(1, 2));
		Config c;
		if (limited) c.kinds = {PUSH_LIMIT, PUSH_LIMIT, PUSH_HEAD_LIMIT, POP, POP_TAIL, SIZE, EMPTY};
		else c.kinds = {PUSH, PUSH, PUSH_HEAD, POP, POP_TAIL, SIZE, EMPTY};
		if (r.chance(1, 2)) c.kinds = limited ? std::vector<Kind>{PUSH_LIMIT, PUSH_HEAD_LIMIT, POP, POP_TAIL} : std::vector<Kind>{PUSH, PUSH_HEAD, POP, POP, POP_TAIL};
		c.unique = true;
		c.limit = cap;
		c.waits = r.chance(1, 3) ? 3 : 0;
		history(q, c, r, "history");
		break;
	}
	case 5: case 6: {
		if (r.chance(1, 10)) {
			MtQueue q(esz, cap, r.chance(1, 2));
			storm(q, {POP, POP_TAIL}, r, "storm");
			break;
		}
		uint32_t k = 4;
		MtQueue q(esz, limited ? k : cap, r.chance(1, 2));
		wakeups(q, limited ? std::vector<Kind>{PUSH_LIMIT, PUSH_HEAD_LIMIT} : std::vector<Kind>{PUSH, PUSH_HEAD}, {POP, POP_TAIL}, k, r, "wakeup");
		break;
	}
	default: {
		MtQueue q(esz, cap, r.chance(1, 2));
		if (r.chance(1, 150)) { backlog(q, r, "backlog", true); break; }
		int v = (int)r.below(3);
		if (v == 0) delivery(q, {PUSH}, {POP}, true, r, "delivery", cap);
		else if (v == 1) delivery(q, {PUSH_LIMIT}, {POP}, true, r, "delivery-limited", cap);
		else delivery(q, limited ? std::vector<Kind>{PUSH_LIMIT, PUSH_HEAD_LIMIT} : std::vector<Kind>{PUSH, PUSH_HEAD}, {POP, POP_TAIL}, false, r, "delivery-both-ends", cap);
		break;
	}
	}
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks left", (long long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("histories", 200); floor_of("wakeups", 100); floor_of("delivered", 1000); floor_of("timeouts", 20); floor_of("storms", 50); floor_of("backlogs", 3); floor_of("overlapping_pairs", 200);
	return run(argc, argv, 24000, 400000, one);
}
