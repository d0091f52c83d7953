// P16: cf_queue under concurrency.
#include "conc.hpp"
extern "C" {
#include <citrusleaf/cf_queue.h>
}
using namespace conc;

struct Visit { Op* o; uint32_t esz; uint32_t best; bool have; };
static int visit_all(void* buf, void* u)
{
	Visit* v = (Visit*)u;
	if (!Elem::good((uint8_t*)buf, v->esz)) v->o->torn = true;
	uint32_t x;
	memcpy(&x, buf, 4);
	v->o->seq.push_back(x);
	return 0;
}
static int visit_del(void* buf, void* u)
{
	Visit* v = (Visit*)u;
	uint32_t x;
	memcpy(&x, buf, 4);
	if (x != v->o->arg) return 0;
	v->o->ok = true;
	return -2;
}
static int visit_best(void* buf, void* u)
{
	Visit* v = (Visit*)u;
	uint32_t x;
	memcpy(&x, buf, 4);
	if (v->have && x <= v->best) return 0;
	v->have = true;
	v->best = x;
	return -2;
}
static int visit_first(void* buf, void*)
{
	uint32_t x;
	memcpy(&x, buf, 4);
	return x & 1 ? -1 : -2;
}

struct CfQueue : Queue {
	cf_queue* q;
	cf_queue st;
	CfQueue(uint32_t e, uint32_t cap, bool heap) : Queue(e)
	{
		if (heap) q = cf_queue_create(e, true);
		else { q = &st; if (!cf_queue_init(q, e, cap, true)) q = NULL; }
		VF_CHECK(q, "create", "creating a queue failed");
	}
	~CfQueue() { cf_queue_destroy(q); }
	void run(Op& o) override
	{
		Elem e(esz);
		Visit v = {&o, esz, 0, false};
		e.set(o.arg);
		int rc = 0;
		bool popped = false;
		switch (o.k) {
		case PUSH: rc = cf_queue_push(q, &e.b[0]); break;
		case PUSH_HEAD: rc = cf_queue_push_head(q, &e.b[0]); break;
		case PUSH_LIMIT: rc = cf_queue_push_limit(q, &e.b[0], o.lim) ? 0 : -2; break;
		case PUSH_INDEX: rc = cf_queue_push_index(q, &e.b[0], o.lim); break;
		case PUSH_UNIQUE: rc = cf_queue_push_unique(q, &e.b[0]); break;
		case POP: rc = cf_queue_pop(q, &e.b[0], o.wait); popped = true; break;
		case PEEK: rc = cf_queue_peek(q, &e.b[0]); popped = true; break;
		case SIZE: o.val = cf_queue_sz(q); break;
		case DEL_ONE: rc = cf_queue_delete(q, &e.b[0], true); break;
		case DEL_EVERY: rc = cf_queue_delete(q, &e.b[0], false); break;
		case DEL_ALL: rc = cf_queue_delete_all(q); break;
		case VISIT: rc = cf_queue_reduce(q, visit_all, &v); break;
		case VISIT_REV: rc = cf_queue_reduce_reverse(q, visit_all, &v); break;
		case VISIT_DEL: rc = cf_queue_reduce(q, visit_del, &v); if (!o.ok) rc = -2; break;
		case POP_BEST: rc = cf_queue_reduce_pop(q, &e.b[0], o.wait, visit_best, &v); popped = true; break;
		case POP_FIRST: rc = cf_queue_reduce_pop(q, &e.b[0], o.wait, visit_first, &v); popped = true; break;
		default: rc = -1; break;
		}
		if (rc != 0 && rc != -2) fail_later("result", "%s returned %d", kind_name[o.k], rc);
		o.ok = rc == 0;
		if (popped && o.ok) { o.val = e.get(); o.torn = !e.good(); }
	}
};

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define NO_SIZE 1		// the size accessor is an unsynchronised read by design
#endif
#endif

static void one(uint64_t idx, Rng& r)
{
	int64_t live = live_allocs();
	static const uint32_t sizes[] = {4, 8, 12, 20, 33};
	uint32_t esz = sizes[r.below(5)], cap = (uint32_t)r.range(1, 5);
	bool heap = r.chance(1, 6);
	if (idx < 4) sample("element size %u, capacity %u", esz, cap);
	switch (idx % 8) {
	case 0: case 1: case 2: case 3: case 4: {
		CfQueue q(esz, cap, heap);
		Config c;
		static const std::vector<Kind> sets[] = {
			{PUSH, PUSH_HEAD, POP, POP, PEEK, SIZE},
			{PUSH, PUSH_LIMIT, PUSH_INDEX, POP, VISIT, DEL_ONE, PEEK},
			{PUSH, PUSH, POP, POP_BEST, POP_FIRST, VISIT_DEL, VISIT_REV},
			{PUSH, PUSH_UNIQUE, DEL_EVERY, DEL_ALL, POP, VISIT},
			{PUSH, PUSH_HEAD, PUSH_INDEX, PUSH_UNIQUE, PUSH_LIMIT, POP, POP_BEST, POP_FIRST, PEEK, DEL_ONE, DEL_EVERY, DEL_ALL, VISIT, VISIT_REV, VISIT_DEL},
		};
		c.kinds = sets[r.below(5)];
#ifdef NO_SIZE
		c.kinds.erase(std::remove(c.kinds.begin(), c.kinds.end(), SIZE), c.kinds.end());
#endif
		c.unique = r.chance(1, 2);
		c.limit = (uint32_t)r.range(1, 6);
		c.waits = r.chance(1, 3) ? 3 : 0;
		history(q, c, r, "history");
		break;
	}
	case 5: case 6: {
		CfQueue q(esz, cap, heap);
		if (r.chance(1, 10)) {
			storm(q, {POP, POP_BEST, POP_FIRST}, r, "storm");
			break;
		}
		wakeups(q, {PUSH, PUSH_HEAD, PUSH_LIMIT, PUSH_INDEX, PUSH_UNIQUE}, {POP, POP_BEST, POP_FIRST}, 100, r, "wakeup");
		break;
	}
	default: {
		CfQueue q(esz, cap, heap);
		if (r.chance(1, 150)) { backlog(q, r, "backlog", true); break; }
		int v = (int)r.below(3);
		if (v == 0) delivery(q, {PUSH}, {POP}, true, r, "delivery", cap);
		else if (v == 1) delivery(q, {PUSH_LIMIT, PUSH_UNIQUE}, {POP}, true, r, "delivery-limited", (uint32_t)r.range(1, 20));
		else delivery(q, {PUSH, PUSH_HEAD, PUSH_INDEX, PUSH_LIMIT, PUSH_UNIQUE}, {POP, POP_BEST, POP_FIRST, DEL_ONE, VISIT_DEL}, false, r, "delivery-selective", 30);
		break;
	}
	}
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks left", (long long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("histories", 200); floor_of("wakeups", 100); floor_of("delivered", 1000); floor_of("timeouts", 20); floor_of("overlapping_pairs", 200); floor_of("backlogs", 3);
	return run(argc, argv, 24000, 400000, one);
}
