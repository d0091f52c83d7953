// P15: cf_queue against an ideal sequence.
#include "vf.hpp"
#include <algorithm>
extern "C" {
#include <citrusleaf/cf_queue.h>
}
using namespace vf;
typedef std::string Item;

struct Walk {
	uint32_t esz;
	std::vector<Item> got;
	uint64_t stop_after;	// visit this many, then answer 'answer'
	int answer;
	std::vector<int> script;	// answers of a selective pop
};
static int walk(void* p, void* u)
{
	Walk* w = (Walk*)u;
	w->got.emplace_back((char*)p, w->esz);
	if (w->got.size() - 1 < w->script.size()) return w->script[w->got.size() - 1];
	return w->got.size() == w->stop_after ? w->answer : 0;
}

static void snapshot(cf_queue* q, const std::vector<Item>& m, uint32_t esz, const char* op, bool rev)
{
	VF_CHECK(cf_queue_sz(q) == m.size(), "size", "after %s: size %u, ideal %zu", op, cf_queue_sz(q), m.size());
	Walk w = {esz, {}, 0, 0, {}};
	int rc = rev ? cf_queue_reduce_reverse(q, walk, &w) : cf_queue_reduce(q, walk, &w);
	VF_CHECK(rc == CF_QUEUE_OK, "reduce-result", "visiting returned %d", rc);
	if (rev) std::reverse(w.got.begin(), w.got.end());
	VF_CHECK(w.got.size() == m.size(), "visited", "after %s: visitor saw %zu elements, ideal %zu", op, w.got.size(), m.size());
	for (size_t i = 0; i < m.size(); i++) VF_CHECK(w.got[i] == m[i], "content", "after %s: element %zu of %zu differs", op, i, m.size());
	count("snapshots");
}

static void history(cf_queue* q, uint32_t esz, Rng& r, int nops, uint64_t sig, std::vector<Item> m = {}, bool keep = false)
{
	uint32_t alphabet = (uint32_t)r.range(1, 6);
	bool dup = r.chance(2, 3);
	int bias = 0;
	uint64_t serial = 0;
	auto item = [&] {
		Item s(esz, 0);
		uint64_t v = dup ? r.below(alphabet) : ++serial;
		Rng g(v + 77);
		g.fill(&s[0], esz);
		return s;
	};
	std::string buf(esz + 8, 0);
	for (int k = 0; k < nops; k++) {
		if (k % 40 == 0) bias = (int)r.below(3);
		int op = (int)r.below(16);
		if (bias == 0 && op > 6 && r.chance(1, 2)) op = (int)r.below(6);
		if (bias == 1 && op < 6 && r.chance(1, 2)) op = 6 + (int)r.below(2);
		sig = hash2(sig, (uint64_t)op);
		Item it = item();
		int rc;
		const char* name = "";
		memset(&buf[0], 0x5a, buf.size());
		switch (op) {
		case 0: case 1:
			name = "push";
			rc = cf_queue_push(q, it.data());
			VF_CHECK(rc == 0, "push", "push returned %d", rc);
			m.push_back(it);
			break;
		case 2:
			name = "push_head";
			rc = cf_queue_push_head(q, it.data());
			VF_CHECK(rc == 0, "push_head", "push_head returned %d", rc);
			m.insert(m.begin(), it);
			break;
		case 3: {
			name = "push_limit";
			uint32_t lim = (uint32_t)(m.size() + r.below(3)) - (m.empty() ? 0 : 1);
			if (r.chance(1, 10)) lim = r.chance(1, 2) ? 0 : UINT32_MAX;
			bool ok = cf_queue_push_limit(q, it.data(), lim);
			VF_CHECK(ok == (m.size() < lim), "push_limit", "limited push at size %zu limit %u returned %d", m.size(), lim, ok);
			if (ok) m.push_back(it); else count("refused");
			break;
		}
		case 4: {
			name = "push_index";
			uint32_t ix = r.chance(1, 10) ? UINT32_MAX - (uint32_t)r.below(3) : (uint32_t)r.below(m.size() + 3);
			trace("push_index %u of %zu", ix, m.size());
			rc = cf_queue_push_index(q, it.data(), ix);
			VF_CHECK(rc == 0, "push_index", "push_index returned %d", rc);
			m.insert(m.begin() + (long)std::min<size_t>(ix, m.size()), it);
			count("indexed");
			break;
		}
		case 5: {
			name = "push_unique";
			bool there = std::find(m.begin(), m.end(), it) != m.end();
			rc = cf_queue_push_unique(q, it.data());
			VF_CHECK(rc == (there ? -2 : 0), "push_unique", "unique push of a %s element returned %d", there ? "queued" : "new", rc);
			if (!there) m.push_back(it); else count("refused");
			break;
		}
		case 6: case 7:
			name = "pop";
			rc = cf_queue_pop(q, &buf[0], CF_QUEUE_NOWAIT);
			VF_CHECK(rc == (m.empty() ? CF_QUEUE_EMPTY : CF_QUEUE_OK), "pop", "pop with %zu elements returned %d", m.size(), rc);
			if (rc == 0) { VF_CHECK(buf.compare(0, esz, m[0]) == 0, "popped", "popped element differs from the head"); m.erase(m.begin()); }
			VF_CHECK(buf.compare(esz, 8, std::string(8, 0x5a)) == 0, "overrun", "pop wrote past the element");
			break;
		case 8:
			name = "peek";
			rc = cf_queue_peek(q, &buf[0]);
			VF_CHECK(rc == (m.empty() ? CF_QUEUE_EMPTY : CF_QUEUE_OK), "peek", "peek with %zu elements returned %d", m.size(), rc);
			if (rc == 0) VF_CHECK(buf.compare(0, esz, m[0]) == 0, "peeked", "peeked element differs from the head");
			break;
		case 9: {
			bool one = r.chance(1, 2);
			name = one ? "delete_one" : "delete_every";
			if (!m.empty() && r.chance(2, 3)) it = m[r.below(m.size())];
			auto p = std::find(m.begin(), m.end(), it);
			bool there = p != m.end();
			trace("%s of %zu, %zu occurrences", name, m.size(), (size_t)std::count(m.begin(), m.end(), it));
			if (std::count(m.begin(), m.end(), it) > 1) count("deleted_duplicates");
			rc = cf_queue_delete(q, it.data(), one);
			VF_CHECK(rc == (there ? CF_QUEUE_OK : CF_QUEUE_EMPTY), "delete-result", "%s returned %d, element %s", name, rc, there ? "present" : "absent");
			if (there) { if (one) m.erase(p); else m.erase(std::remove(m.begin(), m.end(), it), m.end()); }
			break;
		}
		case 10: case 11: {
			// visit and delete one, from either end
			bool rev = op == 11;
			name = rev ? "reduce_reverse" : "reduce";
			Walk w = {esz, {}, r.below(m.size() + 2), r.chance(1, 2) ? -2 : -1, {}};
			rc = rev ? cf_queue_reduce_reverse(q, walk, &w) : cf_queue_reduce(q, walk, &w);
			VF_CHECK(rc == 0, "reduce-result", "%s returned %d", name, rc);
			uint64_t saw = w.stop_after && w.stop_after <= m.size() ? w.stop_after : m.size();
			VF_CHECK(w.got.size() == saw, "visited", "%s saw %zu elements, expected %llu", name, w.got.size(), (unsigned long long)saw);
			for (uint64_t i = 0; i < saw; i++) VF_CHECK(w.got[i] == (rev ? m[m.size() - 1 - i] : m[i]), "visit-content", "%s saw a different element at step %llu", name, (unsigned long long)i);
			if (w.answer == -2 && w.stop_after && w.stop_after <= m.size()) {
				trace("%s deletes step %llu of %zu", name, (unsigned long long)w.stop_after, m.size());
				m.erase(rev ? m.end() - (long)w.stop_after : m.begin() + (long)(w.stop_after - 1));
				count("visit_deletes");
			}
			break;
		}
		case 12: case 13: {
			name = "reduce_pop";
			Walk w = {esz, {}, 0, 0, {}};
			size_t want = SIZE_MAX, visits = m.size();
			for (size_t i = 0; i < m.size(); i++) {
				int a = r.chance(1, 2) ? 0 : r.chance(1, 6) ? -1 : -2;
				if (i + 1 == m.size() && want == SIZE_MAX) a = -2;
				w.script.push_back(a);
				if (a) want = i;
				if (a == -1) { visits = i + 1; break; }
			}
			rc = cf_queue_reduce_pop(q, &buf[0], CF_QUEUE_NOWAIT, walk, &w);
			VF_CHECK(rc == (m.empty() ? CF_QUEUE_EMPTY : CF_QUEUE_OK), "reduce_pop", "selective pop with %zu elements returned %d", m.size(), rc);
			VF_CHECK(w.got.size() == visits, "visited", "selective pop saw %zu elements, expected %zu", w.got.size(), visits);
			for (size_t i = 0; i < visits; i++) VF_CHECK(w.got[i] == m[i], "visit-content", "selective pop saw a different element at step %zu", i);
			if (rc == 0) { VF_CHECK(buf.compare(0, esz, m[want]) == 0, "popped", "selective pop returned another element than the chosen one"); m.erase(m.begin() + (long)want); count("selected"); }
			break;
		}
		case 14:
			name = "delete_all";
			if (!r.chance(1, keep ? 40 : 6)) break;
			rc = r.chance(1, 2) ? cf_queue_delete_all(q) : cf_queue_delete(q, NULL, false);
			VF_CHECK(rc == (m.empty() ? CF_QUEUE_EMPTY : CF_QUEUE_OK), "delete_all", "delete_all with %zu elements returned %d", m.size(), rc);
			m.clear();
			break;
		default:
			name = "delete-head";
			if (m.empty() || !r.chance(1, 4)) break;
			rc = cf_queue_delete(q, NULL, true);
			VF_CHECK(rc == 0, "delete-first", "deleting the first element returned %d", rc);
			m.erase(m.begin());
			break;
		}
		trace("%s -> size %zu", name, m.size());
		snapshot(q, m, esz, name, r.chance(1, 3));
		count("ops");
		if (m.size() > 60 && esz > 1 && !keep && r.chance(1, 2)) bias = 1;
	}
	seen("distinct", sig);
	count("evals");
}

#ifdef VF_LONG
// More pushes than the 30-bit running offsets hold, then every operation through the turn-over.
static void one(uint64_t idx, Rng& r)
{
	scenario("long-run");
	int64_t live = live_allocs();
	static const uint32_t caps[] = {5, 7, 1, 12, 3, 8};
	uint32_t cap = caps[idx / 2 % 6], keep = idx % 2 ? cap : (uint32_t)r.below(cap + 1);
	cf_queue q;
	VF_CHECK(cf_queue_init(&q, 4, cap, false), "init", "init failed");
	uint32_t in = 0, out = 0, v = 0;
	for (; in < keep; in++) VF_CHECK(cf_queue_push(&q, &in) == 0, "push", "push refused");
	uint64_t n = (1ULL << 30) - keep - 20 - r.below(80);
	for (uint64_t i = 0; i < n; i++) {
		if (keep < cap && cf_queue_push(&q, &in) != 0) fail("long-push", "push refused after %u elements", in);
		if (cf_queue_pop(&q, &v, CF_QUEUE_NOWAIT) != 0 || v != out) fail("long-pop", "element %u came out as %u", out, v);
		if (keep == cap && cf_queue_push(&q, &in) != 0) fail("long-push", "push refused after %u elements", in);
		in++;
		out++;
		if ((i & 0xfffff) == 0) { progress(); if (cf_queue_sz(&q) != keep) fail("long-size", "size %u", cf_queue_sz(&q)); }
	}
	count("long_pushes", n);
	// Straight through it with a steady fill, or with all operations.
	if (idx % 4 == 3) for (int i = 0; i < 400; i++, in++, out++) {
		VF_CHECK(cf_queue_pop(&q, &v, CF_QUEUE_NOWAIT) == 0 && v == out, "long-pop", "element %u came out as %u", out, v);
		VF_CHECK(cf_queue_push(&q, &in) == 0 && cf_queue_sz(&q) == keep, "long-push", "size %u after push", cf_queue_sz(&q));
	}
	std::vector<Item> m;
	for (uint32_t i = out; i < in; i++) m.emplace_back((char*)&i, 4);
	history(&q, 4, r, 1200, idx + 991, m, true);
	cf_queue_destroy(&q);
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks left", (long long)(live_allocs() - live));
	count("turn_overs");
}

int main(int argc, char** argv)
{
	floor_of("turn_overs", 8);
	return run(argc, argv, 14, 14, one);
}
#else
static void one(uint64_t idx, Rng& r)
{
	int64_t live = live_allocs();
	static const uint32_t sizes[] = {1, 2, 3, 4, 8, 13, 16, 40};
	uint32_t esz = sizes[r.below(8)];
	uint32_t cap = (uint32_t)r.range(1, 9);
	bool ts = r.chance(1, 3);
	int nops = (int)r.range(10, 250);
	scenario("history");
	if (idx < 4) sample("element size %u capacity %u operations %d", esz, cap, nops);
	if (idx % 20000 == 9 || idx % 800 == 5) {
		scenario("long-queue");
		uint32_t n = idx % 20000 == 9 ? 65300 + (uint32_t)r.below(300) : 230 + (uint32_t)r.below(300);
		cf_queue q;
		VF_CHECK(cf_queue_init(&q, 3, r.chance(1, 3) ? n - 1 : cap, ts), "init", "init failed");
		std::vector<Item> m;
		for (uint32_t i = 0; i < n; i++) { m.emplace_back((char*)&i, 3); VF_CHECK(cf_queue_push(&q, &i) == 0, "push", "push refused"); }
		history(&q, 3, r, n > 60000 ? 24 : 60, n, m, true);
		cf_queue_destroy(&q);
		count("long_queues");
	}
	else if (idx % 6 == 0) {
		cf_queue* q = cf_queue_create(esz, ts);
		VF_CHECK(q, "create", "create failed");
		history(q, esz, r, nops * 2, hash2(esz, 64));
		cf_queue_destroy(q);
	}
	else {
		// a very large ring puts the running offsets where they have to be folded back
		bool huge = idx % 499 == 1;
		if (huge) { scenario("huge-ring"); cap = (1u << 30) - (uint32_t)r.below(3); esz = 1; nops = 200; count("huge"); }
		cf_queue q;
		VF_CHECK(cf_queue_init(&q, esz, cap, ts), "init", "init failed");
		history(&q, esz, r, nops, hash2(esz, cap));
		cf_queue_destroy(&q);
	}
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks left", (long long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("long_queues", 20); floor_of("deleted_duplicates", 200); floor_of("indexed", 500); floor_of("visit_deletes", 200); floor_of("selected", 200); floor_of("huge", 4);
	return run(argc, argv, 80000, 1500000, one);
}
#endif
