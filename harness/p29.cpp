// P29: deadlines and epoch conversions under a substituted system clock.
#include "vf.hpp"
#include <time.h>
extern "C" {
#include <citrusleaf/cf_clock.h>
}
using namespace vf;
typedef __int128 big;

static const int64_t E9 = 1000000000;
static const uint64_t EPOCH = 1262304000;		// 2010-01-01T00:00:00Z

static int64_t gen_nsec(Rng& r)
{
	switch (r.below(6)) {
	case 0: return E9 - 1 - (int64_t)r.below(3);
	case 1: return (int64_t)r.below(3);
	case 2: return (int64_t)r.below(1000) * 1000000;
	case 3: return (int64_t)r.below(1000) * 1000000 + (r.chance(1, 2) ? 1 : 999999);
	default: return (int64_t)r.below(E9);
	}
}

static int64_t gen_sec(Rng& r, int64_t lo)
{
	switch (r.below(5)) {
	case 0: return lo + (int64_t)r.below(3);
	case 1: return 0x7fffffffLL + r.range(-2, 2);
	case 2: return 0xffffffffLL + r.range(-2, 2);
	case 3: return 8000000000LL + (int64_t)r.below(1000000000);
	default: return 1700000000LL + (int64_t)r.below(100000000);
	}
}

static int gen_ms(Rng& r)
{
	switch (r.below(6)) {
	case 0: return (int)r.below(3);
	case 1: return (int)(1000 * r.below(10)) + (r.chance(1, 2) ? 0 : 999);
	case 2: return INT32_MAX - (int)r.below(2000);
	case 3: return (int)r.below(1000);
	default: return (int)r.below((uint64_t)INT32_MAX + 1);
	}
}

static void deadline(Rng& r)
{
	scenario("deadline");
	int64_t sec = gen_sec(r, 0), ns = gen_nsec(r);
	int ms = gen_ms(r);
	if (r.chance(1, 3)) { ns = (int64_t)r.below(1000) * 1000000; ms = (int)((E9 - ns) / 1000000 % 1000) + 1000 * (int)r.below(5); }	// lands on a whole second
	struct timespec out;
	memset(&out, 0xa5, sizeof out);
	set_clock(true, sec, ns, gen_sec(r, 0), gen_nsec(r));
	cf_set_wait_timespec(ms, &out);
	set_clock(false, 0, 0);
	big want = (big)sec * E9 + ns + (big)ms * 1000000;
	VF_CHECK(out.tv_nsec >= 0 && out.tv_nsec < E9, "normalized", "deadline %d ms after %ld.%09ld has %ld nanoseconds", ms, (long)sec, (long)ns, out.tv_nsec);
	VF_CHECK((big)out.tv_sec * E9 + out.tv_nsec == want, "deadline", "deadline %d ms after %ld.%09ld is %ld.%09ld", ms, (long)sec, (long)ns, (long)out.tv_sec, out.tv_nsec);

	struct timespec d;
	d.tv_sec = r.chance(1, 4) ? 0 : (time_t)r.below(1u << 31);
	d.tv_nsec = r.chance(1, 3) ? (E9 - ns) % E9 : gen_nsec(r);
	struct timespec d0 = d;
	memset(&out, 0xa5, sizeof out);
	set_clock(true, sec, ns, gen_sec(r, 0), gen_nsec(r));
	cf_clock_current_add(&d, &out);
	set_clock(false, 0, 0);
	want = (big)sec * E9 + ns + (big)d0.tv_sec * E9 + d0.tv_nsec;
	VF_CHECK(out.tv_nsec >= 0 && out.tv_nsec < E9, "normalized", "%ld.%09ld plus %ld.%09ld has %ld nanoseconds", (long)sec, (long)ns, (long)d0.tv_sec, d0.tv_nsec, out.tv_nsec);
	VF_CHECK((big)out.tv_sec * E9 + out.tv_nsec == want, "deadline", "%ld.%09ld plus %ld.%09ld is %ld.%09ld", (long)sec, (long)ns, (long)d0.tv_sec, d0.tv_nsec, (long)out.tv_sec, out.tv_nsec);
	VF_CHECK(d.tv_sec == d0.tv_sec && d.tv_nsec == d0.tv_nsec, "argument", "the delay given was changed");

	memset(&out, 0xa5, sizeof out);
	cf_clock_set_timespec_ms(ms, &out);
	VF_CHECK(out.tv_nsec >= 0 && out.tv_nsec < E9 && (big)out.tv_sec * E9 + out.tv_nsec == (big)ms * 1000000, "delay", "%d ms became %ld.%09ld", ms, (long)out.tv_sec, out.tv_nsec);
	count("deadlines", 2);
	seen("distinct", hash2(hash2((uint64_t)sec, (uint64_t)ns), (uint64_t)ms));
}

static void readings(Rng& r)
{
	scenario("readings");
	int64_t sec = gen_sec(r, (int64_t)EPOCH), ns = gen_nsec(r);
	if (sec > 9000000000LL) sec = 9000000000LL;
	int64_t msec = gen_sec(r, 0), mns = gen_nsec(r);
	if (msec > 9000000000LL) msec = 9000000000LL;
	set_clock(true, sec, ns, msec, mns);
	uint64_t gns = cf_getns(), gus = cf_getus(), gms = cf_getms(), gs = cf_get_seconds();
	uint64_t abs = cf_clock_getabsolute(), cms = cf_clepoch_milliseconds(), cs = cf_secs_since_clepoch();
	uint32_t cs32 = cf_clepoch_seconds();
	set_clock(false, 0, 0);
	big t = (big)msec * E9 + mns;
	VF_CHECK((big)gns == t && (big)gus == t / 1000 && (big)gms == t / 1000000 && (big)gs == t / E9, "reading", "monotonic clock at %ld.%09ld read as %lu ns, %lu us, %lu ms, %lu s", (long)msec, (long)mns, (long)gns, (long)gus, (long)gms, (long)gs);
	t = (big)sec * E9 + ns;
	big u = t - (big)EPOCH * E9;
	VF_CHECK((big)abs == t / 1000000, "reading", "wall clock at %ld.%09ld read as %lu ms", (long)sec, (long)ns, (long)abs);
	VF_CHECK((big)cms == u / 1000000 && (big)cs == u / E9 && cs32 == (uint32_t)(u / E9), "reading", "wall clock at %ld.%09ld read as %lu ms, %lu s, %u s since the epoch", (long)sec, (long)ns, (long)cms, (long)cs, cs32);
	count("readings");
}

static void epoch(Rng& r)
{
	scenario("epoch");
	uint64_t e9 = EPOCH * (uint64_t)E9, t;
	switch (r.below(6)) {
	case 0: t = e9 + (uint64_t)r.range(-3, 3); break;
	case 1: t = r.below(e9); break;
	case 2: t = UINT64_MAX - r.below(3); break;
	case 3: t = e9 + r.below(5) * (r.chance(1, 2) ? 1000 : r.chance(1, 2) ? 1000000 : 1000000000) + (uint64_t)r.range(-1, 1); break;
	default: t = r.chance(1, 2) ? r.u64() : e9 + r.below(1ULL << 60); break;
	}
	big d = (big)t - (big)e9;
	if (d < 0) d = 0;
	static const uint64_t unit[4] = {1, 1000, 1000000, 1000000000};
	uint64_t got[4] = {cf_clepoch_ns_from_utc_ns(t), cf_clepoch_us_from_utc_ns(t), cf_clepoch_ms_from_utc_ns(t), cf_clepoch_sec_from_utc_ns(t)};
	for (int i = 0; i < 4; i++) {
		VF_CHECK((big)got[i] == d / unit[i], "from-utc", "UTC %lu ns is %lu units of %lu ns since the epoch", (long)t, (long)got[i], (long)unit[i]);
		uint64_t back = i == 0 ? cf_utc_ns_from_clepoch_ns(got[i]) : i == 1 ? cf_utc_ns_from_clepoch_us(got[i]) : i == 2 ? cf_utc_ns_from_clepoch_ms(got[i]) : cf_utc_ns_from_clepoch_sec(got[i]);
		VF_CHECK((big)back == (big)e9 + (big)got[i] * unit[i], "to-utc", "%lu units of %lu ns since the epoch is UTC %lu ns", (long)got[i], (long)unit[i], (long)back);
		if (t >= e9) VF_CHECK(back <= t && t - back < unit[i], "inverse", "UTC %lu ns came back as %lu (unit %lu)", (long)t, (long)back, (long)unit[i]);
		uint64_t again = i == 0 ? cf_clepoch_ns_from_utc_ns(back) : i == 1 ? cf_clepoch_us_from_utc_ns(back) : i == 2 ? cf_clepoch_ms_from_utc_ns(back) : cf_clepoch_sec_from_utc_ns(back);
		VF_CHECK(again == got[i], "inverse", "%lu units of %lu ns came back as %lu", (long)got[i], (long)unit[i], (long)again);
	}
	count("conversions", 4);
	seen("distinct", t);
}

static void expiry(Rng& r)
{
	scenario("expiry");
	uint32_t now, v;
	switch (r.below(4)) {
	case 0: now = 1 + (uint32_t)r.below(5); break;
	case 1: now = UINT32_MAX - (uint32_t)r.below(5); break;
	default: now = 1 + (uint32_t)r.below(UINT32_MAX); break;
	}
	switch (r.below(5)) {
	case 0: v = now + (uint32_t)r.range(-3, 3); break;
	case 1: v = (uint32_t)r.below(3); break;
	case 2: v = UINT32_MAX - (uint32_t)r.below(3); break;
	default: v = r.u32(); break;
	}
	set_clock(true, (int64_t)EPOCH + now, gen_nsec(r), gen_sec(r, 0), gen_nsec(r));
	uint32_t ttl = cf_server_void_time_to_ttl(v);
	set_clock(false, 0, 0);
	if (v == 0) VF_CHECK(ttl == UINT32_MAX, "never", "never-expires became %u s", ttl);
	else VF_CHECK(ttl == (v > now ? v - now : 1) && ttl >= 1 && ttl != UINT32_MAX, "ttl", "expiry at %u seen at %u is a time-to-live of %u", v, now, ttl);
	count("expiries");
	seen("distinct", hash2(now, v));
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
	switch (idx % 4) {
	case 0: deadline(r); break;
	case 1: readings(r); break;
	case 2: epoch(r); break;
	default: expiry(r);
	}
	if (idx < 4) sample("case kind %lu: deadline, readings, conversions or expiry", (long)(idx % 4));
}

int main(int argc, char** argv)
{
	floor_of("deadlines", 1000);
	floor_of("conversions", 1000);
	floor_of("expiries", 1000);
	return run(argc, argv, 2000000, 60000000, one);
}
