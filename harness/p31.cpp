// P31: pluggable objects and logging. Every hook is a recorder; each call must
// reach exactly its own hook with its own arguments, or give the default.
#include "vf.hpp"
#include <stdarg.h>
#include <stddef.h>
#include <type_traits>
extern "C" {
#include <aerospike/as_aerospike.h>
#include <aerospike/as_arraylist.h>
#include <aerospike/as_boolean.h>
#include <aerospike/as_bytes.h>
#include <aerospike/as_double.h>
#include <aerospike/as_geojson.h>
#include <aerospike/as_hashmap.h>
#include <aerospike/as_integer.h>
#include <aerospike/as_iterator.h>
#include <aerospike/as_list.h>
#include <aerospike/as_log_macros.h>
#include <aerospike/as_map.h>
#include <aerospike/as_module.h>
#include <aerospike/as_nil.h>
#include <aerospike/as_orderedmap.h>
#include <aerospike/as_rec.h>
#include <aerospike/as_result.h>
#include <aerospike/as_serializer.h>
#include <aerospike/as_stream.h>
#include <aerospike/as_string.h>
#include <aerospike/as_stringmap.h>
#include <aerospike/as_timer.h>
#include <citrusleaf/alloc.h>
}
#include <string>
#include <vector>
using namespace vf;

//---- recorder ----

struct Call { size_t id; const void* obj; std::vector<uint64_t> args; };
static std::vector<Call> g_calls;
static uint64_t g_ret;

template <class T> static uint64_t bits(T v)
{
	uint64_t u = 0;
	if constexpr (std::is_pointer<T>::value) u = (uint64_t)(uintptr_t)v;
	else memcpy(&u, &v, sizeof v);
	return u;
}

template <class R> static R ret()
{
	if constexpr (std::is_pointer<R>::value) return (R)(uintptr_t)g_ret;
	else if constexpr (std::is_same<R, bool>::value) return (g_ret & 1) != 0;
	else { R v; memcpy(&v, &g_ret, sizeof v); return v; }
}

template <size_t ID, class F> struct Rec;
template <size_t ID, class R, class O, class... A> struct Rec<ID, R (*)(O*, A...)> {
	static R f(O* o, A... a)
	{
		g_calls.push_back(Call{ID, o, {bits(a)...}});
		if constexpr (!std::is_void<R>::value) return ret<R>();
	}
	template <class C> static void expect(const char* name, bool present, const void* obj, std::vector<uint64_t> args, uint64_t def, C call)
	{
		g_calls.clear();
		uint64_t got = 0, want = def;
		if constexpr (std::is_void<R>::value) call();
		else { R res = call(); got = bits(res); if (present) want = bits(ret<R>()); }
		if (present) {
			VF_CHECK(g_calls.size() == 1, "once", "%s ran %zu operations", name, g_calls.size());
			VF_CHECK(g_calls[0].id == ID, "right-operation", "%s ran the operation at slot %zu", name, g_calls[0].id / sizeof(void*));
			VF_CHECK(g_calls[0].obj == obj, "object", "%s gave the operation another object", name);
			VF_CHECK(g_calls[0].args.size() == args.size(), "arguments", "%s arguments", name);
			for (size_t i = 0; i < args.size(); i++) VF_CHECK(g_calls[0].args[i] == args[i], "arguments", "%s argument %zu arrived as %lx, was %lx", name, i, (long)g_calls[0].args[i], (long)args[i]);
		}
		else {
			VF_CHECK(g_calls.empty(), "no-operation", "%s ran something although its operation is missing", name);
		}
		VF_CHECK(got == want, present ? "result" : "default", "%s returned %lx, expected %lx", name, (long)got, (long)want);
		count(present ? "dispatched" : "defaulted");
		seen("distinct", hash2(hash_bytes(name, strlen(name)), present ? 1 + (args.empty() ? 0 : args[0] % 64) : 0));
	}
};

#define FILL(H, T, hook)	H.hook = Rec<offsetof(T, hook), decltype(H.hook)>::f; if (drop == 2 || (drop == 1 && r.chance(1, 2))) H.hook = nullptr
#define D(H, T, hook, obj, def, expr, ...)	do { g_ret = gen_ret(r); \
	Rec<offsetof(T, hook), decltype(H.hook)>::expect(#expr, (obj) != nullptr && (obj)->hooks != nullptr && H.hook != nullptr, obj, std::vector<uint64_t>{__VA_ARGS__}, def, [&] { return expr; }); } while (0)

static uint64_t gen_ret(Rng& r)
{
	switch (r.below(4)) {
	case 0: return r.below(3);
	case 1: return UINT64_MAX - r.below(3);
	default: return r.u64();
	}
}

template <class T> static T* ptr(Rng& r) { return (T*)(uintptr_t)(r.chance(1, 8) ? 0 : r.u64() & 0x7ffffffffff8ULL); }
static double dbl(Rng& r) { uint64_t u = r.u64(); double d; memcpy(&d, &u, sizeof d); return d == d ? d : 0.5; }
static uint32_t num(Rng& r) { return r.chance(1, 3) ? UINT32_MAX - (uint32_t)r.below(2) : r.chance(1, 2) ? (uint32_t)r.below(4) : r.u32(); }
static uint64_t D0() { return bits(0.0); }

//---- the abstract interfaces ----

static void lists(Rng& r, int drop)
{
	scenario("list");
	as_list_hooks h;
	typedef as_list_hooks T;
	memset(&h, 0, sizeof h);
	FILL(h, T, hashcode); FILL(h, T, size); FILL(h, T, get); FILL(h, T, get_int64); FILL(h, T, get_double); FILL(h, T, get_str);
	FILL(h, T, set); FILL(h, T, set_int64); FILL(h, T, set_double); FILL(h, T, set_str);
	FILL(h, T, insert); FILL(h, T, insert_int64); FILL(h, T, insert_double); FILL(h, T, insert_str);
	FILL(h, T, append); FILL(h, T, append_int64); FILL(h, T, append_double); FILL(h, T, append_str);
	FILL(h, T, prepend); FILL(h, T, prepend_int64); FILL(h, T, prepend_double); FILL(h, T, prepend_str);
	FILL(h, T, remove); FILL(h, T, concat); FILL(h, T, trim); FILL(h, T, head); FILL(h, T, tail); FILL(h, T, drop); FILL(h, T, take);
	FILL(h, T, foreach); FILL(h, T, iterator_new); FILL(h, T, iterator_init);
	as_list store, *l = &store;
	memset(&store, 0xa5, sizeof store);
	VF_CHECK(as_list_init(l, r.chance(1, 8) ? nullptr : &h) == l, "init", "list init");
	VF_CHECK(as_list_fromval(as_list_toval(l)) == l, "type", "list type");
	if (r.chance(1, 8)) l = nullptr;
	uint32_t i = num(r);
	int64_t n = (int64_t)gen_ret(r);
	double d = dbl(r);
	as_val* v = ptr<as_val>(r);
	const char* s = ptr<const char>(r);
	D(h, T, hashcode, l, 0, as_list_hashcode(l));
	D(h, T, size, l, 0, as_list_size(l));
	D(h, T, concat, l, 1, as_list_concat(l, (as_list*)v), bits(v));
	D(h, T, trim, l, 1, as_list_trim(l, i), i);
	D(h, T, head, l, 0, as_list_head(l));
	D(h, T, tail, l, 0, as_list_tail(l));
	D(h, T, drop, l, 0, as_list_drop(l, i), i);
	D(h, T, take, l, 0, as_list_take(l, i), i);
	D(h, T, get, l, 0, as_list_get(l, i), i);
	D(h, T, get_int64, l, 0, as_list_get_int64(l, i), i);
	D(h, T, get_double, l, D0(), as_list_get_double(l, i), i);
	D(h, T, get_str, l, 0, as_list_get_str(l, i), i);
	D(h, T, set, l, 1, as_list_set(l, i, v), i, bits(v));
	D(h, T, set_int64, l, 1, as_list_set_int64(l, i, n), i, bits(n));
	D(h, T, set_double, l, 1, as_list_set_double(l, i, d), i, bits(d));
	D(h, T, set_str, l, 1, as_list_set_str(l, i, s), i, bits(s));
	D(h, T, set, l, 1, as_list_set_integer(l, i, (as_integer*)v), i, bits(v));
	D(h, T, set, l, 1, as_list_set_as_double(l, i, (as_double*)v), i, bits(v));
	D(h, T, set, l, 1, as_list_set_string(l, i, (as_string*)v), i, bits(v));
	D(h, T, set, l, 1, as_list_set_bytes(l, i, (as_bytes*)v), i, bits(v));
	D(h, T, set, l, 1, as_list_set_list(l, i, (as_list*)v), i, bits(v));
	D(h, T, set, l, 1, as_list_set_map(l, i, (as_map*)v), i, bits(v));
	D(h, T, insert, l, 1, as_list_insert(l, i, v), i, bits(v));
	D(h, T, insert_int64, l, 1, as_list_insert_int64(l, i, n), i, bits(n));
	D(h, T, insert_double, l, 1, as_list_insert_double(l, i, d), i, bits(d));
	D(h, T, insert_str, l, 1, as_list_insert_str(l, i, s), i, bits(s));
	D(h, T, insert, l, 1, as_list_insert_integer(l, i, (as_integer*)v), i, bits(v));
	D(h, T, insert, l, 1, as_list_insert_as_double(l, i, (as_double*)v), i, bits(v));
	D(h, T, insert, l, 1, as_list_insert_string(l, i, (as_string*)v), i, bits(v));
	D(h, T, insert, l, 1, as_list_insert_bytes(l, i, (as_bytes*)v), i, bits(v));
	D(h, T, insert, l, 1, as_list_insert_list(l, i, (as_list*)v), i, bits(v));
	D(h, T, insert, l, 1, as_list_insert_map(l, i, (as_map*)v), i, bits(v));
	D(h, T, append, l, 1, as_list_append(l, v), bits(v));
	D(h, T, append_int64, l, 1, as_list_append_int64(l, n), bits(n));
	D(h, T, append_double, l, 1, as_list_append_double(l, d), bits(d));
	D(h, T, append_str, l, 1, as_list_append_str(l, s), bits(s));
	D(h, T, append, l, 1, as_list_append_integer(l, (as_integer*)v), bits(v));
	D(h, T, append, l, 1, as_list_append_as_double(l, (as_double*)v), bits(v));
	D(h, T, append, l, 1, as_list_append_string(l, (as_string*)v), bits(v));
	D(h, T, append, l, 1, as_list_append_bytes(l, (as_bytes*)v), bits(v));
	D(h, T, append, l, 1, as_list_append_list(l, (as_list*)v), bits(v));
	D(h, T, append, l, 1, as_list_append_map(l, (as_map*)v), bits(v));
	D(h, T, prepend, l, 1, as_list_prepend(l, v), bits(v));
	D(h, T, prepend_int64, l, 1, as_list_prepend_int64(l, n), bits(n));
	D(h, T, prepend_double, l, 1, as_list_prepend_double(l, d), bits(d));
	D(h, T, prepend_str, l, 1, as_list_prepend_str(l, s), bits(s));
	D(h, T, prepend, l, 1, as_list_prepend_integer(l, (as_integer*)v), bits(v));
	D(h, T, prepend, l, 1, as_list_prepend_as_double(l, (as_double*)v), bits(v));
	D(h, T, prepend, l, 1, as_list_prepend_string(l, (as_string*)v), bits(v));
	D(h, T, prepend, l, 1, as_list_prepend_bytes(l, (as_bytes*)v), bits(v));
	D(h, T, prepend, l, 1, as_list_prepend_list(l, (as_list*)v), bits(v));
	D(h, T, prepend, l, 1, as_list_prepend_map(l, (as_map*)v), bits(v));
	D(h, T, remove, l, 1, as_list_remove(l, i), i);
	D(h, T, foreach, l, 0, as_list_foreach(l, (as_list_foreach_callback)(void*)v, (void*)s), bits(v), bits(s));
	D(h, T, iterator_new, l, 0, as_list_iterator_new(l));
	D(h, T, iterator_init, l, 0, as_list_iterator_init((union as_list_iterator_u*)v, l), bits(v));
}

static void maps(Rng& r, int drop)
{
	scenario("map");
	as_map_hooks h;
	typedef as_map_hooks T;
	memset(&h, 0, sizeof h);
	FILL(h, T, hashcode); FILL(h, T, size); FILL(h, T, set); FILL(h, T, get); FILL(h, T, clear); FILL(h, T, remove);
	FILL(h, T, set_flags); FILL(h, T, foreach); FILL(h, T, iterator_new); FILL(h, T, iterator_init);
	as_map store, *m = &store;
	memset(&store, 0xa5, sizeof store);
	VF_CHECK(as_map_init(m, r.chance(1, 8) ? nullptr : &h) == m, "init", "map init");
	VF_CHECK(as_map_fromval(as_map_toval(m)) == m, "type", "map type");
	if (r.chance(1, 8)) m = nullptr;
	uint32_t i = num(r);
	as_val* v = ptr<as_val>(r);
	as_val* k = ptr<as_val>(r);
	D(h, T, hashcode, m, 0, as_map_hashcode(m));
	D(h, T, size, m, 0, as_map_size(m));
	D(h, T, get, m, 0, as_map_get(m, k), bits(k));
	D(h, T, set, m, 1, as_map_set(m, k, v), bits(k), bits(v));
	D(h, T, clear, m, 1, as_map_clear(m));
	D(h, T, remove, m, 1, as_map_remove(m, k), bits(k));
	D(h, T, set_flags, m, 0, as_map_set_flags(m, i), i);
	D(h, T, foreach, m, 0, as_map_foreach(m, (as_map_foreach_callback)(void*)v, k), bits(v), bits(k));
	D(h, T, iterator_new, m, 0, as_map_iterator_new(m));
	D(h, T, iterator_init, m, 0, as_map_iterator_init((union as_map_iterator_u*)v, m), bits(v));
}

static void recs(Rng& r, int drop)
{
	scenario("record");
	as_rec_hooks h;
	typedef as_rec_hooks T;
	memset(&h, 0, sizeof h);
	FILL(h, T, hashcode); FILL(h, T, get); FILL(h, T, set); FILL(h, T, remove); FILL(h, T, ttl); FILL(h, T, last_update_time);
	FILL(h, T, gen); FILL(h, T, size); FILL(h, T, memory_size); FILL(h, T, device_size); FILL(h, T, key); FILL(h, T, setname);
	FILL(h, T, numbins); FILL(h, T, bin_names); FILL(h, T, digest); FILL(h, T, set_ttl); FILL(h, T, drop_key); FILL(h, T, foreach);
	as_rec store, *c = &store;
	memset(&store, 0xa5, sizeof store);
	void* src = ptr<void>(r);
	VF_CHECK(as_rec_init(c, src, r.chance(1, 8) ? nullptr : &h) == c, "init", "record init");
	VF_CHECK(as_rec_source(c) == src, "source", "record source");
	VF_CHECK(as_rec_fromval(as_rec_toval(c)) == c, "type", "record type");
	char* text = as_val_tostring(c);
	VF_CHECK(text && strcmp(text, "[ REC ]") == 0, "text", "record text");
	cf_free(text);
	D(h, T, hashcode, c, 0, as_val_hashcode(c));
	if (r.chance(1, 8)) { c = nullptr; VF_CHECK(as_rec_source(c) == nullptr, "source", "source of no record"); }
	uint32_t i = num(r);
	as_val* v = ptr<as_val>(r);
	const char* s = ptr<const char>(r);
	D(h, T, remove, c, 1, as_rec_remove(c, s), bits(s));
	D(h, T, ttl, c, 0, as_rec_ttl(c));
	D(h, T, last_update_time, c, 0, as_rec_last_update_time(c));
	D(h, T, gen, c, 0, as_rec_gen(c));
	D(h, T, size, c, 0, as_rec_size(c));
	D(h, T, memory_size, c, 0, as_rec_memory_size(c));
	D(h, T, device_size, c, 0, as_rec_device_size(c));
	D(h, T, key, c, 0, as_rec_key(c));
	D(h, T, setname, c, 0, as_rec_setname(c));
	D(h, T, numbins, c, 0, as_rec_numbins(c));
	D(h, T, bin_names, c, 0, as_rec_bin_names(c, (as_rec_bin_names_callback)(void*)v, (void*)s), bits(v), bits(s));
	D(h, T, digest, c, 0, as_rec_digest(c));
	D(h, T, set_ttl, c, 0, as_rec_set_ttl(c, i), i);
	D(h, T, drop_key, c, 0, as_rec_drop_key(c));
	D(h, T, get, c, 0, as_rec_get(c, s), bits(s));
	D(h, T, set, c, 1, as_rec_set(c, s, v), bits(s), bits(v));
	D(h, T, set, c, 1, as_rec_set_integer(c, s, (as_integer*)v), bits(s), bits(v));
	D(h, T, set, c, 1, as_rec_set_as_double(c, s, (as_double*)v), bits(s), bits(v));
	D(h, T, set, c, 1, as_rec_set_string(c, s, (as_string*)v), bits(s), bits(v));
	D(h, T, set, c, 1, as_rec_set_geojson(c, s, (as_geojson*)v), bits(s), bits(v));
	D(h, T, set, c, 1, as_rec_set_bytes(c, s, (as_bytes*)v), bits(s), bits(v));
	D(h, T, set, c, 1, as_rec_set_list(c, s, (as_list*)v), bits(s), bits(v));
	D(h, T, set, c, 1, as_rec_set_map(c, s, (as_map*)v), bits(s), bits(v));
	D(h, T, foreach, c, 0, as_rec_foreach(c, (as_rec_foreach_callback)(void*)v, (void*)s), bits(v), bits(s));
}

static void services(Rng& r, int drop)
{
	scenario("service");
	uint32_t i = num(r);
	as_val* v = ptr<as_val>(r);
	const char* s = ptr<const char>(r);
	const char* t = ptr<const char>(r);
	void* src = ptr<void>(r);
	{
		as_aerospike_hooks h;
		typedef as_aerospike_hooks T;
		memset(&h, 0, sizeof h);
		FILL(h, T, rec_create); FILL(h, T, rec_update); FILL(h, T, rec_remove); FILL(h, T, rec_exists); FILL(h, T, log);
		FILL(h, T, get_current_time); FILL(h, T, set_context); FILL(h, T, get_config);
		const as_aerospike_hooks* hp = r.chance(1, 8) ? nullptr : &h;
		bool heap = r.chance(1, 2);
		as_aerospike store, *a = &store;
		memset(&store, 0xa5, sizeof store);
		int64_t live = live_allocs();
		a = heap ? as_aerospike_new(src, hp) : as_aerospike_init(a, src, hp);
		VF_CHECK(a && a->source == src && a->hooks == hp, "init", "service object");
		as_aerospike* real = a;
		int refs = heap ? (int)r.below(3) : 0;
		for (int k = 0; k < refs; k++) cf_rc_reserve(a);
		if (r.chance(1, 8)) a = nullptr;
		as_rec* rec = (as_rec*)v;
		int line = (int)num(r), lvl = (int)num(r);
		D(h, T, rec_create, a, 1, as_aerospike_rec_create(a, rec), bits(rec));
		D(h, T, rec_update, a, 1, as_aerospike_rec_update(a, rec), bits(rec));
		D(h, T, rec_exists, a, 1, as_aerospike_rec_exists(a, rec), bits(rec));
		D(h, T, rec_remove, a, 1, as_aerospike_rec_remove(a, rec), bits(rec));
		D(h, T, log, a, 1, as_aerospike_log(a, s, line, lvl, t), bits(s), bits(line), bits(lvl), bits(t));
		D(h, T, get_current_time, a, 0, as_aerospike_get_current_time(a));
		D(h, T, set_context, a, 2, as_aerospike_set_context(a, rec, i), bits(rec), i);
		D(h, T, get_config, a, 0, as_aerospike_get_config(a, rec, s), bits(rec), bits(s));
		for (int k = 0; k < refs; k++) {
			as_aerospike_destroy(real);
			VF_CHECK(real->source == src && real->hooks == hp, "kept", "service object lost its contents with holders left");
		}
		as_aerospike_destroy(real);
		VF_CHECK(live_allocs() == live, "released", "service object not released: %ld", (long)(live_allocs() - live));
	}
	{
		as_module_hooks h;
		typedef as_module_hooks T;
		memset(&h, 0, sizeof h);
		FILL(h, T, destroy); FILL(h, T, update); FILL(h, T, validate); FILL(h, T, apply_record); FILL(h, T, apply_stream);
		as_module store, *m = &store;
		store.source = src;
		store.hooks = r.chance(1, 8) ? nullptr : &h;
		if (r.chance(1, 8)) m = nullptr;
		VF_CHECK(as_module_source(m) == (m ? src : nullptr), "source", "module source");
		as_module_event* e = ptr<as_module_event>(r);
		as_aerospike* as = ptr<as_aerospike>(r);
		as_udf_context* ctx = ptr<as_udf_context>(r);
		as_module_error* err = ptr<as_module_error>(r);
		as_list* args = ptr<as_list>(r);
		as_result* res = ptr<as_result>(r);
		as_stream* in = ptr<as_stream>(r);
		as_stream* out = ptr<as_stream>(r);
		D(h, T, update, m, 1, as_module_update(m, e), bits(e));
		D(h, T, validate, m, 1, as_module_validate(m, as, s, t, i, err), bits(as), bits(s), bits(t), i, bits(err));
		D(h, T, apply_record, m, 1, as_module_apply_record(m, ctx, s, t, (as_rec*)v, args, res), bits(ctx), bits(s), bits(t), bits(v), bits(args), bits(res));
		D(h, T, apply_stream, m, 1, as_module_apply_stream(m, ctx, s, t, in, args, out, res), bits(ctx), bits(s), bits(t), bits(in), bits(args), bits(out), bits(res));
		D(h, T, destroy, m, 1, as_module_destroy(m));

		// configure is an update carrying the configuration
		static as_module_event seen_event;
		static int updates;
		static int answer;
		updates = 0;
		answer = (int)r.u32();
		memset((void*)&seen_event, 0xa5, sizeof seen_event);
		as_module_hooks hc;
		memset(&hc, 0, sizeof hc);
		bool have = r.chance(3, 4);
		if (have) hc.update = [](struct as_module_s*, as_module_event* ev) -> int { seen_event = *ev; updates++; return answer; };
		store.hooks = &hc;
		int rc = as_module_configure(&store, v);
		VF_CHECK(rc == (have ? answer : 1) && updates == (have ? 1 : 0), "configure", "configure returned %d after %d updates", rc, updates);
		if (have) VF_CHECK(seen_event.type == AS_MODULE_EVENT_CONFIGURE && seen_event.data.config == v && seen_event.data.filename == nullptr, "configure", "configure event");
	}
	{
		as_serializer_hooks h;
		typedef as_serializer_hooks T;
		memset(&h, 0, sizeof h);
		FILL(h, T, serialize); FILL(h, T, serialize_presized); FILL(h, T, deserialize); FILL(h, T, serialize_getsize);
		const as_serializer_hooks* hp = r.chance(1, 8) ? nullptr : &h;
		bool heap = r.chance(1, 2);
		as_serializer store, *z = &store;
		memset(&store, 0xa5, sizeof store);
		int64_t live = live_allocs();
		z = heap ? as_serializer_new(hp) : as_serializer_init(&store, hp);
		VF_CHECK(z != nullptr, "init", "serializer");
		as_serializer* real = z;
		if (r.chance(1, 8)) z = nullptr;
		as_buffer* b = ptr<as_buffer>(r);
		as_val** pv = ptr<as_val*>(r);
		uint8_t* buf = ptr<uint8_t>(r);
		D(h, T, serialize, z, 1, as_serializer_serialize(z, v, b), bits(v), bits(b));
		D(h, T, serialize_presized, z, 1, as_serializer_serialize_presized(z, v, buf), bits(v), bits(buf));
		D(h, T, deserialize, z, 1, as_serializer_deserialize(z, b, pv), bits(b), bits(pv));
		D(h, T, serialize_getsize, z, 1, as_serializer_serialize_getsize(z, v), bits(v));
		as_serializer_destroy(real);
		VF_CHECK(live_allocs() == live, "released", "serializer not released: %ld", (long)(live_allocs() - live));
	}
}

//---- objects that own a source: released once, and the object with it ----

static const void* g_src_seen;
static int g_released;

static void streams(Rng& r, int drop)
{
	scenario("stream");
	as_stream_hooks h;
	typedef as_stream_hooks T;
	memset(&h, 0, sizeof h);
	FILL(h, T, read); FILL(h, T, write);
	g_released = 0;
	g_src_seen = nullptr;
	bool own = drop == 0 || (drop == 1 && r.chance(1, 2));
	if (own) h.destroy = [](as_stream* s) -> int { g_released++; g_src_seen = as_stream_source(s); return 0; };
	const as_stream_hooks* hp = r.chance(1, 8) ? nullptr : &h;
	int64_t live = live_allocs();
	bool heap = r.chance(1, 2);
	as_stream store;
	memset(&store, 0xa5, sizeof store);
	void* src = ptr<void>(r);
	as_stream* real = heap ? as_stream_new(src, hp) : as_stream_init(&store, src, hp);
	VF_CHECK(real != nullptr && (heap || real == &store), "init", "stream init");
	as_stream* s = r.chance(1, 8) ? nullptr : real;
	as_val* v = ptr<as_val>(r);
	VF_CHECK(as_stream_source(s) == (s ? src : nullptr), "source", "stream source");
	VF_CHECK(as_stream_readable(s) == (s && hp && h.read), "readable", "stream readable");
	VF_CHECK(as_stream_writable(s) == (s && hp && h.write), "writable", "stream writable");
	D(h, T, read, s, 0, as_stream_read(s));
	// the status travels through an enumeration: only its own values
	g_ret = r.below(2);
	Rec<offsetof(T, write), decltype(h.write)>::expect("as_stream_write", s && hp && h.write, s, {bits(v)}, bits(AS_STREAM_ERR), [&] { return as_stream_write(s, v); });
	if (!s) { as_stream_destroy(nullptr); VF_CHECK(g_released == 0, "release", "destroying no stream ran an operation"); }
	as_stream_destroy(real);
	VF_CHECK(g_released == (own && hp ? 1 : 0), "release", "stream source released %d times", g_released);
	if (own && hp) VF_CHECK(g_src_seen == src, "release", "stream released another source");
	VF_CHECK(live_allocs() == live, "released", "stream not released: %ld", (long)(live_allocs() - live));
	count("releases");
}

static void iterators(Rng& r, int drop)
{
	scenario("iterator");
	as_iterator_hooks h;
	typedef as_iterator_hooks T;
	memset(&h, 0, sizeof h);
	FILL(h, T, has_next); FILL(h, T, next);
	g_released = 0;
	g_src_seen = nullptr;
	bool own = drop == 0 || (drop == 1 && r.chance(1, 2));
	if (own) h.destroy = [](as_iterator* i) -> bool { g_released++; g_src_seen = i->data; return true; };
	const as_iterator_hooks* hp = r.chance(1, 8) ? nullptr : &h;
	int64_t live = live_allocs();
	bool heap = r.chance(1, 2);
	as_iterator store;
	memset(&store, 0xa5, sizeof store);
	void* src = ptr<void>(r);
	as_iterator* mem = heap ? (as_iterator*)cf_malloc(sizeof(as_iterator)) : &store;
	as_iterator* i = as_iterator_init(mem, heap, src, hp);
	VF_CHECK(i == mem && i->data == src, "init", "iterator init");
	as_iterator* none = nullptr;
	D(h, T, has_next, i, 0, as_iterator_has_next(i));
	D(h, T, next, i, 0, as_iterator_next(i));
	D(h, T, has_next, none, 0, as_iterator_has_next(none));
	D(h, T, next, none, 0, as_iterator_next(none));
	as_iterator_destroy(i);
	VF_CHECK(g_released == (own && hp ? 1 : 0), "release", "iterator source released %d times", g_released);
	if (own && hp) VF_CHECK(g_src_seen == src, "release", "iterator released another source");
	if (!heap) VF_CHECK(!as_iterator_has_next(&store) && as_iterator_next(&store) == nullptr, "ended", "a destroyed iterator goes on");
	VF_CHECK(live_allocs() == live, "released", "iterator not released: %ld", (long)(live_allocs() - live));
	count("releases");
}

static int g_timer_rc;

static void timers(Rng& r, int drop)
{
	scenario("timer");
	as_timer_hooks h;
	typedef as_timer_hooks T;
	memset(&h, 0, sizeof h);
	FILL(h, T, timedout); FILL(h, T, timeslice);
	g_released = 0;
	g_src_seen = nullptr;
	g_timer_rc = r.chance(3, 4) ? 0 : 1 + (int)r.below(5);
	bool own = drop == 0 || (drop == 1 && r.chance(1, 2));
	if (own) h.destroy = [](as_timer* t) -> int { g_released++; g_src_seen = as_timer_source(t); return g_timer_rc; };
	const as_timer_hooks* hp = r.chance(1, 8) ? nullptr : &h;
	int64_t live = live_allocs();
	bool heap = r.chance(1, 2);
	as_timer store;
	memset(&store, r.chance(1, 2) ? 1 : 0xa5, sizeof store);		// stale stack contents
	void* src = ptr<void>(r);
	as_timer* real = heap ? as_timer_new(src, hp) : as_timer_init(&store, src, hp);
	VF_CHECK(real != nullptr && (heap || real == &store), "init", "timer init");
	as_timer* t = r.chance(1, 8) ? nullptr : real;
	VF_CHECK(as_timer_source(t) == (t ? src : nullptr), "source", "timer source");
	D(h, T, timedout, t, 0, as_timer_timedout(t));
	D(h, T, timeslice, t, 0, as_timer_timeslice(t));
	bool runs = own && hp;
	int rc = as_timer_destroy(real);
	VF_CHECK(rc == (runs ? g_timer_rc : 1), "release", "timer destroy returned %d", rc);
	VF_CHECK(g_released == (runs ? 1 : 0), "release", "timer source released %d times", g_released);
	if (runs) VF_CHECK(g_src_seen == src, "release", "timer released another source");
	if (heap && rc != 0) {						// a timer that refused stays whole, until it agrees
		VF_CHECK(as_timer_source(real) == src && live_allocs() == live + 1, "kept", "timer that was not destroyed is gone");
		g_timer_rc = 0;
		h.destroy = [](as_timer*) -> int { return 0; };
		real->hooks = &h;
		VF_CHECK(as_timer_destroy(real) == 0, "release", "second destroy");
	}
	VF_CHECK(live_allocs() == live, "released", "timer not released: %ld", (long)(live_allocs() - live));
	count("releases");
}

static void subtypes(Rng& r, int)
{
	// a record, list or map built on user operations gives its source back with its last reference
	scenario("references");
	int which = (int)r.below(3);
	g_released = 0;
	g_src_seen = nullptr;
	static as_rec_hooks rh;
	static as_list_hooks lh;
	static as_map_hooks mh;
	memset(&rh, 0, sizeof rh);
	memset(&lh, 0, sizeof lh);
	memset(&mh, 0, sizeof mh);
	bool own = r.chance(7, 8), answer = r.chance(1, 2);
	static bool s_answer;
	s_answer = answer;
	if (own) {
		rh.destroy = [](as_rec* x) -> bool { g_released++; g_src_seen = x; return s_answer; };
		lh.destroy = [](as_list* x) -> bool { g_released++; g_src_seen = x; return s_answer; };
		mh.destroy = [](as_map* x) -> bool { g_released++; g_src_seen = x; return s_answer; };
	}
	int64_t live = live_allocs();
	bool heap = r.chance(1, 2);
	as_rec rs;
	as_list ls;
	as_map ms;
	memset(&rs, 0xa5, sizeof rs);
	memset(&ls, 0xa5, sizeof ls);
	memset(&ms, 0xa5, sizeof ms);
	as_val* v;
	switch (which) {
	case 0: v = (as_val*)(heap ? as_rec_new(nullptr, &rh) : as_rec_init(&rs, nullptr, &rh)); break;
	case 1: v = (as_val*)(heap ? as_list_new(&lh) : as_list_init(&ls, &lh)); break;
	default: v = (as_val*)(heap ? as_map_new(&mh) : as_map_init(&ms, &mh)); break;
	}
	VF_CHECK(v && as_val_type(v) == (which == 0 ? AS_REC : which == 1 ? AS_LIST : AS_MAP), "init", "abstract value");
	int refs = (int)r.below(4);
	for (int k = 0; k < refs; k++) as_val_reserve(v);
	for (int k = 0; k < refs; k++) {
		if (which == 0) as_rec_destroy((as_rec*)v); else if (which == 1) as_list_destroy((as_list*)v); else as_map_destroy((as_map*)v);
		VF_CHECK(g_released == 0, "early", "released with %d holders left", refs - k);
	}
	as_val_destroy(v);
	VF_CHECK(g_released == (own ? 1 : 0), "release", "released %d times", g_released);
	if (own) VF_CHECK(g_src_seen == (const void*)v, "release", "released another object");
	VF_CHECK(live_allocs() == live, "released", "object not released: %ld", (long)(live_allocs() - live));
	count("releases");
	seen("distinct", hash2(hash2(which, heap), hash2(refs, own)));
}

//---- typed access: the operation supplies a value of some type ----

static as_val* g_value;
static std::string g_key;
static int g_keys;
static as_val* g_set;
static int g_set_rc;

static as_val* make(Rng& r, int type, std::string& text)
{
	switch (type) {
	case 0: return (as_val*)as_integer_new((int64_t)gen_ret(r));
	case 1: return (as_val*)as_double_new(dbl(r));
	case 2: case 3:
		text.clear();
		for (uint64_t n = r.below(20); n; n--) text += (char)r.range(1, 127);
		return type == 2 ? (as_val*)as_string_new_strdup(text.c_str()) : (as_val*)as_geojson_new_strdup(text.c_str());
	case 4: { as_bytes* b = as_bytes_new(8); as_bytes_append_int64(b, (int64_t)r.u64()); return (as_val*)b; }
	case 5: return (as_val*)as_arraylist_new(1, 1);
	case 6: return (as_val*)as_orderedmap_new(4);
	case 7: return (as_val*)as_boolean_new(r.chance(1, 2));
	case 8: return (as_val*)&as_nil;
	default: return nullptr;
	}
}

static void check_typed(const char* who, int type, as_val* v, const std::string& text, int64_t gi, double gd, const char* gs, as_integer* oi, as_double* od, as_string* os, as_bytes* ob, as_list* ol, as_map* om)
{
	VF_CHECK(gi == (type == 0 ? as_integer_get((as_integer*)v) : 0), "typed", "%s integer of type %d is %ld", who, type, (long)gi);
	double wd = type == 1 ? as_double_get((as_double*)v) : 0.0;
	VF_CHECK(bits(gd) == bits(wd), "typed", "%s double of type %d is %g", who, type, gd);
	VF_CHECK((gs != nullptr) == (type == 2) && (type != 2 || text == gs), "typed", "%s string of type %d", who, type);
	VF_CHECK((void*)oi == (type == 0 ? v : nullptr), "typed", "%s as integer of type %d", who, type);
	VF_CHECK((void*)od == (type == 1 ? v : nullptr), "typed", "%s as double of type %d", who, type);
	VF_CHECK((void*)os == (type == 2 ? v : nullptr), "typed", "%s as string of type %d", who, type);
	VF_CHECK((void*)ob == (type == 4 ? v : nullptr), "typed", "%s as bytes of type %d", who, type);
	VF_CHECK((void*)ol == (type == 5 ? v : nullptr), "typed", "%s as list of type %d", who, type);
	VF_CHECK((void*)om == (type == 6 ? v : nullptr), "typed", "%s as map of type %d", who, type);
}

static bool same_scalar(as_val* v, int type, int64_t i, double d, const std::string& s)
{
	if (!v) return false;
	switch (type) {
	case 0: return as_val_type(v) == AS_INTEGER && as_integer_get((as_integer*)v) == i;
	case 1: { if (as_val_type(v) != AS_DOUBLE) return false; double x = as_double_get((as_double*)v); return bits(x) == bits(d); }
	default: return as_val_type(v) == AS_STRING && s == as_string_get((as_string*)v);
	}
}

static void typed(Rng& r, int)
{
	scenario("typed");
	int64_t live = live_allocs();
	int type = (int)r.below(10);
	std::string text;
	as_val* v = make(r, type, text);
	std::string name;
	for (uint64_t n = 1 + r.below(20); n; n--) name += (char)r.range(1, 127);
	g_value = v;

	{	// record
		static as_rec_hooks h;
		memset(&h, 0, sizeof h);
		h.get = [](const as_rec*, const char* n) -> as_val* { g_keys++; g_key = n; return g_value; };
		as_rec c;
		as_rec_init(&c, nullptr, &h);
		g_keys = 0;
		const char* n = name.c_str();
		check_typed("record", type, v, text, as_rec_get_int64(&c, n), as_rec_get_double(&c, n), as_rec_get_str(&c, n), as_rec_get_integer(&c, n), as_rec_get_as_double(&c, n), as_rec_get_string(&c, n), as_rec_get_bytes(&c, n), as_rec_get_list(&c, n), as_rec_get_map(&c, n));
		as_geojson* g = as_rec_get_geojson(&c, n);
		VF_CHECK((void*)g == (type == 3 ? v : nullptr), "typed", "record as geojson of type %d", type);
		char* gs = as_rec_get_geojson_str(&c, n);
		VF_CHECK((gs != nullptr) == (type == 3) && (type != 3 || text == gs), "typed", "record geojson text of type %d", type);
		VF_CHECK(g_keys == 11 && g_key == name, "typed", "record asked %d times", g_keys);

		// values made on the way in are the operation's to keep
		h.set = [](const as_rec*, const char* n2, const as_val* x) -> int { g_keys++; g_key = n2; if (g_set) as_val_destroy(g_set); g_set = (as_val*)x; return g_set_rc; };
		if (r.chance(1, 6)) h.set = nullptr;
		g_set = nullptr;
		g_set_rc = (int)r.below(3);
		int64_t iv = (int64_t)gen_ret(r);
		double dv = dbl(r);
		std::string sv;
		for (uint64_t k = r.below(40); k; k--) sv += (char)r.range(1, 127);
		for (int k = 0; k < 3; k++) {
			g_keys = 0;
			int rc = k == 0 ? as_rec_set_int64(&c, n, iv) : k == 1 ? as_rec_set_double(&c, n, dv) : as_rec_set_str(&c, n, sv.c_str());
			VF_CHECK(rc == (h.set ? g_set_rc : 1) && g_keys == (h.set ? 1 : 0), "typed-set", "record set returned %d", rc);
			if (h.set) VF_CHECK(g_key == name && same_scalar(g_set, k, iv, dv, sv), "typed-set", "record set passed on another value (kind %d)", k);
		}
		if (g_set) as_val_destroy(g_set);
		g_set = nullptr;
	}
	{	// string-keyed map
		static as_map_hooks h;
		memset(&h, 0, sizeof h);
		h.get = [](const as_map*, const as_val* k) -> as_val* { g_keys++; g_key = as_val_type(k) == AS_STRING ? as_string_get((as_string*)k) : "?"; return g_value; };
		as_map m;
		as_map_init(&m, &h);
		g_keys = 0;
		const char* n = name.c_str();
		VF_CHECK(as_stringmap_get(&m, n) == v, "typed", "string map get");
		check_typed("string map", type, v, text, as_stringmap_get_int64(&m, n), as_stringmap_get_double(&m, n), as_stringmap_get_str(&m, n), as_stringmap_get_integer(&m, n), as_stringmap_get_as_double(&m, n), as_stringmap_get_string(&m, n), as_stringmap_get_bytes(&m, n), as_stringmap_get_list(&m, n), as_stringmap_get_map(&m, n));
		VF_CHECK(g_keys == 10 && g_key == name, "typed", "string map asked %d times", g_keys);
	}
	{	// string-keyed access to a real map agrees with access through values
		as_map* m = r.chance(1, 2) ? (as_map*)as_orderedmap_new(4) : (as_map*)as_hashmap_new(4);
		const char* n = name.c_str();
		int64_t iv = (int64_t)gen_ret(r);
		double dv = dbl(r);
		int k = (int)r.below(3);
		std::string sv = "v" + name;
		int rc = k == 0 ? as_stringmap_set_int64(m, n, iv) : k == 1 ? as_stringmap_set_double(m, n, dv) : as_stringmap_set_str(m, n, sv.c_str());
		VF_CHECK(rc == 0, "typed-set", "string map set returned %d", rc);
		as_string key;
		as_string_init(&key, (char*)n, false);
		VF_CHECK(same_scalar(as_map_get(m, (as_val*)&key), k, iv, dv, sv), "typed-set", "string map stored another value (kind %d)", k);
		VF_CHECK(same_scalar(as_stringmap_get(m, n), k, iv, dv, sv), "typed-set", "string map finds another value (kind %d)", k);
		std::string other = name + "x";
		VF_CHECK(as_stringmap_get(m, other.c_str()) == nullptr && as_stringmap_get_int64(m, other.c_str()) == 0 && as_stringmap_get_str(m, other.c_str()) == nullptr, "typed", "string map finds a missing key");
		std::string t2;
		int ty2 = (int)r.below(7);
		if (ty2 == 3) ty2 = 2;
		as_val* nv = make(r, ty2, t2);
		switch (r.chance(1, 3) ? 9 : ty2) {
		case 0: rc = as_stringmap_set_integer(m, other.c_str(), (as_integer*)nv); break;
		case 1: rc = as_stringmap_set_as_double(m, other.c_str(), (as_double*)nv); break;
		case 2: rc = as_stringmap_set_string(m, other.c_str(), (as_string*)nv); break;
		case 4: rc = as_stringmap_set_bytes(m, other.c_str(), (as_bytes*)nv); break;
		case 5: rc = as_stringmap_set_list(m, other.c_str(), (as_list*)nv); break;
		case 6: rc = as_stringmap_set_map(m, other.c_str(), (as_map*)nv); break;
		default: rc = as_stringmap_set(m, other.c_str(), nv); break;
		}
		VF_CHECK(rc == 0 && as_stringmap_get(m, other.c_str()) == nv && as_map_size(m) == 2, "typed-set", "string map keeps another value");
		as_map_destroy(m);
	}
	{	// list
		static as_list_hooks h;
		memset(&h, 0, sizeof h);
		h.get = [](const as_list*, uint32_t) -> as_val* { return g_value; };
		as_list l;
		as_list_init(&l, &h);
		uint32_t i = num(r);
		check_typed("list", type, v, text, type == 0 ? as_integer_get((as_integer*)v) : 0, type == 1 ? as_double_get((as_double*)v) : 0.0, type == 2 ? text.c_str() : nullptr, as_list_get_integer(&l, i), as_list_get_as_double(&l, i), as_list_get_string(&l, i), as_list_get_bytes(&l, i), as_list_get_list(&l, i), as_list_get_map(&l, i));
	}
	if (v) as_val_destroy(v);
	VF_CHECK(live_allocs() == live, "released", "typed access left %ld allocations", (long)(live_allocs() - live));
	count("typed");
	seen("distinct", hash2(0x7479 + type, hash_bytes(name.data(), name.size())));
}

//---- results ----

static void results(Rng& r, int)
{
	scenario("result");
	int64_t live = live_allocs();
	std::string text;
	auto val = [&]() -> as_val* { int t = (int)r.below(8); return r.chance(1, 8) ? nullptr : make(r, t, text); };
	as_result store, *q;
	memset(&store, 0xa5, sizeof store);
	as_val* cur = nullptr;
	bool ok = false;
	int refs = 1;
	uint64_t h = 0;
	switch (r.below(6)) {
	case 0: q = as_result_init(&store); break;
	case 1: q = as_result_new(); break;
	case 2: cur = val(); ok = true; q = as_success_new(cur); break;
	case 3: cur = val(); q = as_failure_new(cur); break;
	case 4: cur = val(); ok = true; q = as_success_init(&store, cur); break;
	default: cur = val(); q = as_failure_init(&store, cur); break;
	}
	VF_CHECK(q != nullptr, "init", "result");
	as_val* held = nullptr;
	for (uint64_t n = r.below(10); n; n--) {
		VF_CHECK(as_result_value(q) == cur && q->is_success == ok, "result", "result lost its value");
		int op = (int)r.below(5);
		h = hash2(h, op);
		switch (op) {
		case 0: case 1: {
			// somebody else may hold the value being replaced
			if (cur && !held && r.chance(1, 3)) { held = cur; as_val_reserve(held); }
			as_val* nv = val();
			if (cur && r.chance(1, 3)) { if (nv) as_val_destroy(nv); nv = cur; as_val_reserve(nv); count("set_again"); }	// the value it already holds
			ok = op == 0;
			VF_CHECK((ok ? as_result_setsuccess(q, nv) : as_result_setfailure(q, nv)) == q, "result", "set");
			cur = nv;
			if (held) VF_CHECK(as_val_hashcode(held) == as_val_hashcode(held) && held->count >= 1, "held", "held value lost");
			break;
		}
		case 2: VF_CHECK(as_result_reserve(q) == q, "result", "reserve"); refs++; break;
		case 3: if (refs > 1) { as_result_destroy(q); refs--; } break;
		default: break;
		}
	}
	VF_CHECK(as_result_value(q) == cur && q->is_success == ok, "result", "result lost its value");
	for (; refs > 1; refs--) { as_result_destroy(q); VF_CHECK(as_result_value(q) == cur, "early", "value released with %d holders left", refs - 1); }
	as_result_destroy(q);
	if (held) {
		char* s = as_val_tostring(held);
		VF_CHECK(s != nullptr, "held", "held value has no text");
		cf_free(s);
		as_val_destroy(held);
	}
	VF_CHECK(live_allocs() == live, "released", "result not released: %ld", (long)(live_allocs() - live));
	count("releases");
	seen("distinct", hash2(0x7265, h));
}

//---- logging ----

struct Message { as_log_level level; std::string func, file; uint32_t line; std::string text; };
static std::vector<Message> g_log;
static int g_evaluated;

static bool on_log(as_log_level level, const char* func, const char* file, uint32_t line, const char* fmt, ...)
{
	char buf[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	g_log.push_back(Message{level, func, file, line, buf});
	return (g_ret & 1) != 0;
}

static int arg(int n) { g_evaluated++; return n; }

#define LOG(LVL, call, enabled_expr, want_text) do { \
	g_log.clear(); g_evaluated = 0; \
	bool on = cb && (int)LVL <= (int)level; \
	uint32_t line = __LINE__; call \
	VF_CHECK((enabled_expr) == on, "enabled", "level %d enabled at %d", (int)LVL, (int)level); \
	VF_CHECK(g_log.size() == (on ? 1 : 0), "delivered", "a message of level %d at level %d was delivered %zu times", (int)LVL, (int)level, g_log.size()); \
	VF_CHECK(g_evaluated == (on ? 1 : 0), "evaluated", "arguments of a message of level %d at level %d evaluated %d times", (int)LVL, (int)level, g_evaluated); \
	if (on) { Message& m = g_log[0]; \
		VF_CHECK(m.level == LVL, "level", "message of level %d arrived as %d", (int)LVL, (int)m.level); \
		VF_CHECK(m.func == __func__ && m.file == __FILE__ && m.line == line, "location", "message from %s:%u arrived from %s:%u", __FILE__, line, m.file.c_str(), m.line); \
		VF_CHECK(m.text == want_text, "text", "message text %s", m.text.c_str()); } \
	count(on ? "messages" : "suppressed"); \
	seen("distinct", hash2(hash2((uint64_t)LVL, level), hash2(cb, n))); } while (0)

static void logging(Rng& r, int)
{
	scenario("log");
	bool cb = r.chance(3, 4);
	as_log_level level = (as_log_level)r.below(5);
	as_log_set_callback(cb ? on_log : nullptr);
	as_log_set_level(level);
	static const char* names[] = {"ERROR", "WARN", "INFO", "DEBUG", "TRACE"};
	for (int k = 0; k < 5; k++) VF_CHECK(strcmp(as_log_level_tostring((as_log_level)k), names[k]) == 0, "name", "level %d is called %s", k, as_log_level_tostring((as_log_level)k));
	int n = (int)r.u32();
	g_ret = r.u64();
	char s[40];
	uint64_t len = r.below(30);
	for (uint64_t k = 0; k < len; k++) s[k] = (char)r.range('%', 'z');
	s[len] = 0;
	int64_t big = (int64_t)r.u64();
	char want[512];
	snprintf(want, sizeof want, "%d %s %ld %.3f", n, s, (long)big, 1.5);
	LOG(AS_LOG_LEVEL_ERROR, as_log_error("%d %s %ld %.3f", arg(n), s, (long)big, 1.5);, as_log_error_enabled(), want);
	LOG(AS_LOG_LEVEL_WARN, as_log_warn("%d %s %ld %.3f", arg(n), s, (long)big, 1.5);, as_log_warn_enabled(), want);
	LOG(AS_LOG_LEVEL_INFO, as_log_info("%d %s %ld %.3f", arg(n), s, (long)big, 1.5);, as_log_info_enabled(), want);
	LOG(AS_LOG_LEVEL_DEBUG, as_log_debug("%d %s %ld %.3f", arg(n), s, (long)big, 1.5);, as_log_debug_enabled(), want);
	LOG(AS_LOG_LEVEL_TRACE, as_log_trace("%d %s %ld %.3f", arg(n), s, (long)big, 1.5);, as_log_trace_enabled(), want);
	// a message without arguments
	g_log.clear();
	as_log_error("plain");
	VF_CHECK(g_log.size() == (cb ? 1 : 0) && (!cb || g_log[0].text == "plain"), "delivered", "plain message");
	as_log_set_callback(nullptr);
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
	int drop = (int)r.below(3);		// all operations, some, none
	switch (idx % 11) {
	case 0: lists(r, drop); break;
	case 1: maps(r, drop); break;
	case 2: recs(r, drop); break;
	case 3: services(r, drop); break;
	case 4: streams(r, drop); break;
	case 5: iterators(r, drop); break;
	case 6: timers(r, drop); break;
	case 7: subtypes(r, drop); break;
	case 8: typed(r, drop); break;
	case 9: results(r, drop); break;
	default: logging(r, drop); break;
	}
	static const char* kinds[] = {"list interface", "map interface", "record interface", "service, module and serializer", "stream", "iterator", "timer", "references of abstract values", "typed access", "result", "logging"};
	if (idx < 11) sample("%s: %s operations supplied", kinds[idx], drop == 0 ? "all" : drop == 1 ? "some" : "no");
}

int main(int argc, char** argv)
{
	floor_of("dispatched", 1000);
	floor_of("defaulted", 1000);
	floor_of("releases", 300);
	floor_of("typed", 100);
	floor_of("messages", 100);
	floor_of("suppressed", 100);
	return run(argc, argv, 300000, 12000000, one);
}
