// P23: password hashing against the system's bcrypt.
#include "gen.hpp"
#include <crypt.h>
#include <fcntl.h>
#include <unistd.h>
#include <thread>
#include <aerospike/as_password.h>
using namespace vf;
using namespace gen;

static const char ITOA[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";

static bool salt_ok(const std::string& s, int* cost)
{
	if (s.size() < 29 || s[0] != '$' || s[1] != '2' || !strchr("axy", s[2]) || s[3] != '$' || s[6] != '$') return false;
	if (!isdigit((unsigned char)s[4]) || !isdigit((unsigned char)s[5])) return false;
	*cost = (s[4] - '0') * 10 + s[5] - '0';
	if (*cost < 4 || *cost > 31) return false;
	for (int i = 7; i < 29; i++) if (!s[i] || !strchr(ITOA, s[i])) return false;
	return true;
}

static std::string password(Rng& r)
{
	size_t n = r.chance(1, 10) ? 0 : r.chance(1, 4) ? 68 + r.below(10) : r.chance(1, 20) ? r.below(400) : r.below(30);
	std::string p(n, 0);
	int style = (int)r.below(4);
	for (auto& c : p) c = style == 0 ? (char)(32 + r.below(95)) : style == 1 ? (char)(1 + r.below(255)) : style == 2 ? (r.chance(1, 2) ? '\xff' : (char)(0x80 + r.below(128))) : (char)(r.chance(1, 2) ? 0xa3 : '3');
	for (auto& c : p) if (!c) c = 1;
	return p;
}

static std::string good_salt(Rng& r)
{
	std::string s = "$2";
	s += r.chance(2, 3) ? 'a' : r.chance(1, 2) ? 'y' : 'x';
	s += r.chance(9, 10) ? "$04$" : "$05$";
	for (int i = 0; i < 22; i++) s += ITOA[r.below(64)];
	return s;
}

static std::string reference(const std::string& pw, const std::string& salt)
{
	std::string s = salt.substr(0, 29);
	// the last salt character carries two bits only
	s[28] = ITOA[(strchr(ITOA, s[28]) - ITOA) & 0x30];
	static thread_local struct crypt_data* cd = new crypt_data();
	memset(cd, 0, sizeof *cd);
	char* h = crypt_r(pw.c_str(), s.c_str(), cd);
	if (!h || h[0] == '*') fail("reference", "the system's bcrypt refused salt '%s'", s.c_str());
	return h;
}

static void check_hash(const std::string& pw, const std::string& salt, const char* key)
{
	char* p = (char*)malloc(pw.size() + 1);
	memcpy(p, pw.c_str(), pw.size() + 1);
	char* s = (char*)malloc(salt.size() + 1);
	memcpy(s, salt.c_str(), salt.size() + 1);
	char* h = (char*)malloc(AS_PASSWORD_HASH_SIZE);
	memset(h, 'Z', AS_PASSWORD_HASH_SIZE);
	std::string want = reference(pw, salt);
	bool ok = as_password_gen_hash(p, s, h);
	if (!ok || strnlen(h, AS_PASSWORD_HASH_SIZE) != 60 || want != h)
		fail_later(key, "hash of a %zu-character password with salt '%s' is %d '%.62s', expected '%s'", pw.size(), salt.c_str(), ok, h, want.c_str());
	if (memcmp(p, pw.c_str(), pw.size() + 1) || memcmp(s, salt.c_str(), salt.size() + 1)) fail_later("input-changed", "hashing changed its inputs");
	free(p);
	free(s);
	free(h);
}

static void hashing(Rng& r)
{
	scenario("gen_hash");
	std::string pw = password(r), salt = good_salt(r);
	trace("password of %zu, salt %s", pw.size(), salt.c_str());
	if (r.chance(1, 3)) salt = reference(pw, salt);		// a hash serves as the salt
	else if (r.chance(1, 4)) salt += std::string(r.below(6), 'q');
	check_hash(pw, salt, "hash");
	check_later();
	count("hashes");
	seen("distinct", hash2(hash_bytes(pw.data(), pw.size()), hash_bytes(salt.data(), salt.size())));
	if (r.chance(1, 300)) sample("password of %zu bytes, salt %s", pw.size(), salt.c_str());
}

static void malformed(Rng& r)
{
	scenario("malformed-salt");
	std::string s = good_salt(r);
	switch (r.below(7)) {
	case 0: s.resize(r.below(29)); break;
	case 4: { static const int cost[] = {0, 1, 2, 3, 32, 33, 34, 35, 36, 37, 38, 39, 40, 64, 68, 96, 99}; int k = cost[r.below(17)]; s[4] = (char)('0' + k / 10); s[5] = (char)('0' + k % 10); break; }
	case 5: s[r.chance(1, 2) ? 4 : 5] = "/:;?-+ ,."[r.below(9)]; break;
	case 1: s[r.below(7)] = (char)(1 + r.below(255)); break;
	case 2: s[7 + r.below(22)] = (char)(1 + r.below(255)); break;
	case 3: s[7 + r.below(22)] = ":;@[`{-!$*,\x7f\x20"[r.below(13)]; break;
	default: { std::string t; size_t n = r.below(40); for (size_t i = 0; i < n; i++) t += (char)(1 + r.below(127)); s = t; if (r.chance(1, 3)) s = r.chance(1, 2) ? "*0" : "*1"; }
	}
	int cost = 0;
	bool good = salt_ok(s, &cost);
	if (good) { if (cost <= 5) { check_hash("secret", s, "hash"); check_later(); } return; }
	char* c = (char*)malloc(s.size() + 1);
	memcpy(c, s.c_str(), s.size() + 1);
	char* h = (char*)malloc(AS_PASSWORD_HASH_SIZE);
	memset(h, 'Z', AS_PASSWORD_HASH_SIZE);
	bool ok = as_password_gen_hash("secret", c, h);
	VF_CHECK(!ok, "malformed-accepted", "malformed salt '%s' accepted, giving '%.62s'", s.c_str(), h);
	free(c);
	free(h);
	count("malformed");
	seen("distinct", hash_bytes(s.data(), s.size()));
}

static void verify(Rng& r)
{
	scenario("verify");
	char* a = (char*)malloc(60);
	char* b = (char*)malloc(60);
	for (int i = 0; i < 60; i++) a[i] = b[i] = ITOA[r.below(64)];
	VF_CHECK(as_password_verify(a, b), "verify", "identical hashes refused");
	int k = (int)r.below(60);
	b[k] ^= (char)(1 << r.below(7));
	VF_CHECK(!as_password_verify(a, b) && !as_password_verify(b, a), "verify", "hashes differing at character %d accepted", k);
	seen("verify_positions", (uint64_t)k);
	free(a);
	free(b);
	count("verifications");
}

static void salts(Rng& r)
{
	scenario("gen_salt");
	char* s = (char*)malloc(AS_PASSWORD_HASH_SIZE);
	char* t = (char*)malloc(AS_PASSWORD_HASH_SIZE);
	int cost = 0;
	VF_CHECK(as_password_gen_salt(s) && as_password_gen_salt(t), "salt", "no salt generated");
	VF_CHECK(strnlen(s, 64) == 29 && salt_ok(s, &cost) && strnlen(t, 64) == 29 && salt_ok(t, &cost), "salt-form", "generated salts '%.63s' and '%.63s'", s, t);
	VF_CHECK(strcmp(s, t) != 0, "salt-repeats", "two generated salts are both '%s'", s);
	// every position of the random part varies over the run (see the evidence)
	for (int i = 7; i < 29; i++) seen("salt_symbols", hash2((uint64_t)i, (uint64_t)s[i]));
	count("salts");
	free(s);
	free(t);
}

static void constant(Rng& r)
{
	scenario("constant-hash");
	std::string pw = r.chance(1, 4) ? "" : password(r);
	std::string want = reference(pw, "$2a$10$7EqJtq98hPqEX7fNZaFWoO");
	char* h = (char*)malloc(AS_PASSWORD_HASH_SIZE);
	VF_CHECK(as_password_gen_constant_hash(pw.c_str(), h) && want == h, "constant-hash", "constant hash '%.62s', expected '%s'", h, want.c_str());
	memset(h, 0, AS_PASSWORD_HASH_SIZE);
	VF_CHECK(as_password_get_constant_hash(pw.empty() ? NULL : pw.c_str(), h) && want == h, "constant-hash", "constant hash '%.62s', expected '%s'", h, want.c_str());
	if (!pw.empty()) {
		std::string cut = pw.substr(0, AS_PASSWORD_HASH_SIZE - 1);
		std::string w2 = cut == pw ? want : reference(cut, "$2a$10$7EqJtq98hPqEX7fNZaFWoO");
		VF_CHECK(as_password_prompt_hash(pw.c_str(), h) && w2 == h, "prompt-hash", "hash of a given password '%.62s', expected '%s'", h, w2.c_str());
	}
	free(h);
	count("constant");
}

static void together(Rng& r)
{
	scenario("concurrent");
	std::vector<std::thread> ts;
	for (int t = 0; t < 4; t++) {
		uint64_t s = r.u64();
		ts.emplace_back([s] { Rng q(s); for (int k = 0; k < 4; k++) check_hash(password(q), good_salt(q), "hash-concurrent"); });
	}
	for (auto& t : ts) t.join();
	check_later();
	count("concurrent");
}

static void prompt(Rng& r)
{
	scenario("prompt");
	size_t size = r.chance(1, 4) ? 1 + r.below(4) : 1 + r.below(40);
	std::string in;
	size_t n = r.chance(1, 6) ? 0 : r.below(45);
	for (size_t i = 0; i < n; i++) in += (char)(r.chance(1, 12) ? 0 : r.chance(1, 20) ? '\n' : 1 + r.below(255));
	if (r.chance(1, 8)) in = std::string("\0\n", 2);
	if (r.chance(2, 3)) in += '\n';
	// what a line read into that buffer holds, as a string
	std::string got = in.substr(0, std::min(size - 1, in.size()));
	size_t nl = got.find('\n');
	if (nl != std::string::npos) got.resize(nl);
	got = got.c_str();
	bool null = r.chance(1, 2);
	trace("prompt into %zu, %zu bytes offered", size, in.size());
	std::string why;
	bool ok = in_child([&] {
		int fd[2];
		if (pipe(fd) != 0 || write(fd[1], in.data(), in.size()) != (ssize_t)in.size()) _exit(9);
		close(fd[1]);
		dup2(fd[0], 0);
		int nul = open("/dev/null", O_WRONLY);
		fflush(stdout);
		dup2(nul, 1);
		char* b = (char*)malloc(size);
		memset(b, 'Z', size);
		as_password_acquire(b, null ? NULL : "", (int)size);
		if (strnlen(b, size) == size || got != b) _exit(7);
		free(b);
		_exit(0);
	}, why, 60);
	VF_CHECK(ok, "prompt", "a prompted password into %zu characters, %zu bytes typed: %s", size, in.size(), why.c_str());
	// given passwords are not prompted for
	std::string pw = password(r);
	if (pw.empty()) pw = "x";
	char* b = (char*)malloc(size);
	as_password_acquire(b, pw.c_str(), (int)size);
	VF_CHECK(pw.substr(0, size - 1) == b, "acquire", "a given password was not taken over");
	free(b);
	count("prompts");
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
	int64_t live = live_allocs();
	if (idx % 100 == 7) constant(r);
	else if (idx % 20 == 8) prompt(r);
	else if (idx % 50 == 9) together(r);
	else switch (r.below(8)) {
	case 0: malformed(r); break;
	case 1: verify(r); break;
	case 2: salts(r); break;
	default: hashing(r);
	}
	VF_CHECK(live_allocs() == live, "leak", "%ld allocations left", (long)(live_allocs() - live));
}

int main(int argc, char** argv)
{
	floor_of("hashes", 300);
	floor_of("malformed", 100);
	return run(argc, argv, 8000, 200000, one);
}
