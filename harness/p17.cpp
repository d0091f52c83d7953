// P17: thread pool, exactly-once execution and orderly shutdown.
#include "conc.hpp"
#include <dirent.h>
#include <sched.h>
#include <unistd.h>
extern "C" {
#include <aerospike/as_thread_pool.h>
}
using namespace conc;

static int tasks_alive()
{
	DIR* d = opendir("/proc/self/task");
	if (!d) return -1;
	int n = 0;
	while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') n++;
	closedir(d);
	return n;
}

static std::atomic<int> g_fini{0}, g_fini_busy{0};
static thread_local int t_busy = 0;
static void fini() { g_fini.fetch_add(1, std::memory_order_relaxed); if (t_busy) g_fini_busy.fetch_add(1, std::memory_order_relaxed); }

struct World;
struct Task {
	World* w;
	uint32_t id;
	int depth;
	std::atomic<int> accepted{0}, ran{0};
	uint64_t payload = 0;		// plain: written before submission, read by the task
	uint64_t answer = 0;		// plain: written by the task, read after destroy
	uint64_t seed;
	std::vector<uint32_t> kids;
};
struct World {
	as_thread_pool pool;
	std::vector<std::unique_ptr<Task>> tasks;
	std::atomic<int> running{0}, most{0}, wrong{0}, refused{0}, closed{0};
};

static void body(void* p);
static void submit(World& w, uint32_t id)
{
	Task& t = *w.tasks[id];
	t.payload = hash2(id, 99);
	int rc = as_thread_pool_queue_task(&w.pool, body, &t);
	if (rc == 0) t.accepted.fetch_add(1, std::memory_order_relaxed);
	else if (rc == -1) w.refused.fetch_add(1, std::memory_order_relaxed);
	else w.wrong.fetch_add(1, std::memory_order_relaxed);
}
static void body(void* p)
{
	Task& t = *(Task*)p;
	World& w = *t.w;
	t_busy++;
	int now = w.running.fetch_add(1, std::memory_order_relaxed) + 1;
	int m = w.most.load(std::memory_order_relaxed);
	while (now > m && !w.most.compare_exchange_weak(m, now, std::memory_order_relaxed)) { }
	chaos_thread_seed(t.seed);
	if (t.payload != hash2(t.id, 99)) w.wrong.fetch_add(1, std::memory_order_relaxed);
	if (w.closed.load(std::memory_order_relaxed) == 2) w.wrong.fetch_add(1000, std::memory_order_relaxed);
	perturb();
	Rng r(t.seed);
	if (r.chance(1, 8)) usleep((useconds_t)r.below(200));
	for (uint32_t k : t.kids) { submit(w, k); perturb(); }
	t.answer = hash2(t.payload, 5);
	t.ran.fetch_add(1, std::memory_order_relaxed);
	progress();
	w.running.fetch_sub(1, std::memory_order_relaxed);
	t_busy--;
}

static uint32_t add_task(World& w, Rng& r, int depth)
{
	uint32_t id = (uint32_t)w.tasks.size();
	w.tasks.emplace_back(new Task);
	w.tasks[id]->w = &w;
	w.tasks[id]->id = id;
	w.tasks[id]->depth = depth;
	w.tasks[id]->seed = r.u64();
	if (depth > 0 && r.chance(1, 2)) for (uint64_t k = r.below(4); k; k--) { uint32_t c = add_task(w, r, depth - 1); w.tasks[id]->kids.push_back(c); }
	return id;
}

// A backlog far longer than any width a count might be kept in.
static std::atomic<uint32_t> g_many{0}, g_twice{0};
static std::vector<uint8_t> g_done;
static void tiny(void* p)
{
	size_t i = (size_t)(uintptr_t)p;
	if (g_done[i]++) g_twice.fetch_add(1, std::memory_order_relaxed);
	g_many.fetch_add(1, std::memory_order_relaxed);
	if (i == 0) usleep(20000);
	if (i % 4096 == 0) progress();
}
static void backlog(Rng& r)
{
	scenario("backlog");
	int64_t live = live_allocs();
	uint32_t n = (uint32_t)r.range(65530, 66000);
	g_many = 0; g_twice = 0;
	g_done.assign(n, 0);
	as_thread_pool pool;
	VF_CHECK(as_thread_pool_init(&pool, (uint32_t)r.range(1, 3)) == 0, "init", "init failed");
	for (uint32_t i = 0; i < n; i++) {
		int rc = as_thread_pool_queue_task(&pool, tiny, (void*)(uintptr_t)i);
		VF_CHECK(rc == 0, "refused", "task %u was refused by an open pool: %d", i, rc);
		if (i % 4096 == 0) progress();
	}
	as_thread_pool_destroy(&pool);
	VF_CHECK(g_many.load() == n && !g_twice.load(), g_many.load() < n ? "lost" : "repeated", "%u of %u tasks ran, %u twice", g_many.load(), n, g_twice.load());
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks left", (long long)(live_allocs() - live));
	count("backlogs");
	count("evals");
}

static void one(uint64_t idx, Rng& r)
{
	if (idx % 2000 == 1999) { backlog(r); return; }
	scenario("pool");
	int64_t live = live_allocs();
	World w;
	int nt = r.chance(1, 20) ? 0 : (int)r.range(1, 6);
	std::vector<uint32_t> roots;
	uint64_t ntasks = r.chance(1, 8) ? r.range(70, 200) : r.below(24);
	int depth = (int)r.below(4);
	for (uint64_t i = 0; i < ntasks; i++) roots.push_back(add_task(w, r, depth));
	int submitters = r.chance(1, 2) ? 0 : (int)r.range(1, 3);
	bool settle = r.chance(1, 4), with_fini = r.chance(2, 3);
	int fail_at = r.chance(1, 6) && nt > 0 ? (int)r.below((uint64_t)nt) : -1;
	if (idx < 4) sample("threads=%d tasks=%zu submitters=%d nested depth %d thread-creation failure at %d", nt, w.tasks.size(), submitters, depth, fail_at);
	int before = tasks_alive();
	chaos((int)r.range(1, 3), r.chance(1, 3));
	schedule_reset();
	g_fini = 0;
	g_fini_busy = 0;
	memset(&w.pool, 0xA5, sizeof w.pool);
	if (fail_at >= 0) fail_thread_create_at(fail_at);
	int64_t made = threads_created();
	int rc = as_thread_pool_init(&w.pool, (uint32_t)nt);
	made = threads_created() - made;
	fail_thread_create_at(-1);
	trace("init %d threads -> %d (%lld started)", nt, rc, (long long)made);
	int up = fail_at >= 0 ? nt - 1 : nt;
	VF_CHECK(rc == (fail_at >= 0 ? -3 : 0), "init", "init of %d threads%s returned %d", nt, fail_at >= 0 ? " with one failing to start" : "", rc);
	if (with_fini) w.pool.fini_fn = fini;
	std::vector<std::thread> th;
	uint64_t seed = r.u64();
	for (int s = 0; s < submitters; s++) th.emplace_back([&, s] {
		chaos_thread_seed(seed + (uint64_t)s);
		for (size_t i = (size_t)s; i < roots.size(); i += (size_t)submitters + 1) { submit(w, roots[i]); perturb(); }
	});
	for (size_t i = (size_t)submitters; i < roots.size(); i += (size_t)submitters + 1) submit(w, roots[i]);
	for (auto& t : th) t.join();
	if (settle) wait_for([&] { return w.running.load() == 0; }, 1);
	w.closed = 1;
	// The pool may be closed from several threads; whoever comes second finds it closed.
	int closers = r.chance(1, 3) ? (int)r.range(1, 3) : 0;
	std::atomic<int> others{0}, gate{0};
	std::vector<std::thread> ct;
	for (int i = 0; i < closers; i++) ct.emplace_back([&, i] {
		chaos_thread_seed(seed + 100 + (uint64_t)i);
		gate.fetch_add(1, std::memory_order_relaxed);
		while (gate.load(std::memory_order_relaxed) <= closers) sched_yield();
		perturb();
		if (as_thread_pool_destroy(&w.pool) != 0) others.fetch_add(1, std::memory_order_relaxed);
	});
	gate.fetch_add(1, std::memory_order_relaxed);
	while (gate.load(std::memory_order_relaxed) <= closers) sched_yield();
	rc = as_thread_pool_destroy(&w.pool);
	for (auto& t : ct) t.join();
	w.closed = 2;
	trace("destroy by %d threads -> %d", closers + 1, rc);
	VF_CHECK(others.load() == 0, "destroy", "destroy returned an error in %d of %d other threads", others.load(), closers);
	if (closers) count("closed_by_several");
	seen("distinct", schedule_signature());
	chaos(0, false);
	VF_CHECK(rc == 0, "destroy", "destroy returned %d", rc);
	VF_CHECK(w.running.load() == 0, "running", "%d tasks still running after destroy", w.running.load());
	for (auto& t : w.tasks) {
		VF_CHECK(t->ran.load() == t->accepted.load(), t->ran.load() < t->accepted.load() ? "lost" : "repeated", "task %u of %zu (depth %d) was accepted %d times and ran %d times", t->id, w.tasks.size(), t->depth, t->accepted.load(), t->ran.load());
		if (t->ran.load()) VF_CHECK(t->answer == hash2(hash2(t->id, 99), 5), "argument", "task %u ran with another argument", t->id);
	}
	if (up > 0) for (uint32_t i : roots) VF_CHECK(w.tasks[i]->accepted.load() == 1, "refused", "task %u was refused by an open pool of %d threads", i, up);
	else VF_CHECK(w.refused.load() == (int)roots.size(), "accepted-by-none", "a pool without threads accepted tasks");
	VF_CHECK(w.wrong.load() == 0, "wrong", "%d submissions or arguments went wrong", w.wrong.load());
	VF_CHECK(w.most.load() <= std::max(up, 0), "too-many", "%d tasks at a time in a pool of %d threads", w.most.load(), up);
	if (with_fini) {
		VF_CHECK(g_fini.load() == up, "fini", "the thread finalizer ran %d times for %d threads", g_fini.load(), up);
		VF_CHECK(g_fini_busy.load() == 0, "fini-busy", "a finalizer ran inside a task");
	}
	VF_CHECK(wait_for([&] { return tasks_alive() <= before; }, 10000), "threads-left", "%d threads, %d before the pool", tasks_alive(), before);
	// a closed pool stays closed
	std::atomic<int> late{0};
	rc = as_thread_pool_queue_task(&w.pool, [](void* p) { ((std::atomic<int>*)p)->fetch_add(1); }, &late);
	VF_CHECK(rc == -1, "late-submit", "submitting to a destroyed pool returned %d", rc);
	rc = as_thread_pool_destroy(&w.pool);
	VF_CHECK(rc == 0 || rc == -2, "destroy-again", "destroying again returned %d", rc);
	VF_CHECK(late.load() == 0, "late-ran", "a refused task ran");
	VF_CHECK(live_allocs() == live, "ledger", "%+lld blocks left", (long long)(live_allocs() - live));
	uint64_t ran = 0, nested_refused = (uint64_t)w.refused.load();
	for (auto& t : w.tasks) ran += (uint64_t)t->ran.load();
	count("tasks_run", ran);
	count("refused_at_shutdown", nested_refused);
	count(fail_at >= 0 ? "with_failed_thread" : "all_threads");
	if (w.most.load() > 1) count("overlapping");
	seen("peak", (uint64_t)w.most.load());
	count("evals");
}

int main(int argc, char** argv)
{
	floor_of("tasks_run", 2000); floor_of("overlapping", 50); floor_of("with_failed_thread", 20); floor_of("refused_at_shutdown", 10);
	return run(argc, argv, 20000, 250000, one);
}
