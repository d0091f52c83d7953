// P24: TLS name matching on generated certificates against an independent matcher.
#include "gen.hpp"
#include <arpa/inet.h>
#include <openssl/crypto.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
extern "C" {
#include <aerospike/ssl_util.h>
#include <aerospike/as_log.h>
}
#include <stdarg.h>
using namespace vf;
using namespace gen;

struct San { int type; std::string bytes; };
struct Cert { std::vector<San> sans; std::vector<std::string> cns; std::vector<int> cn_types; };

static std::string label(Rng& r)
{
	static const char* L[] = {"a", "b", "www", "example", "com", "net", "db", "x1", "node-1", "xn--a"};
	return L[r.below(10)];
}

static std::string host(Rng& r)
{
	int n = 1 + (int)r.below(4);
	std::string s;
	for (int i = 0; i < n; i++) s += (i ? "." : "") + label(r);
	return s;
}

static std::string flip(Rng& r, std::string s)
{
	for (auto& c : s) if (r.chance(1, 3)) c = (char)(isupper((unsigned char)c) ? tolower(c) : toupper(c));
	return s;
}

// a certified name derived from the asked one (or not)
static std::string derive(Rng& r, const std::string& name)
{
	std::string s = r.chance(3, 4) ? name : host(r);
	size_t dot = s.find('.');
	switch (r.below(17)) {
	case 0: case 1: break;
	case 2: s = flip(r, s); break;
	case 3: case 4: s = "*" + (dot == std::string::npos ? "." + s : s.substr(dot)); break;
	case 5: s = "*." + s; break;
	case 6: if (!s.empty()) s[r.below(s.size())] = '*'; break;				// partial wildcard
	case 7: { size_t d2 = dot == std::string::npos ? dot : s.find('.', dot + 1); s = "*" + (d2 == std::string::npos ? "" : s.substr(d2)); break; }
	case 8: s = "*.*" + (dot == std::string::npos ? "" : s.substr(dot)); break;
	case 9: s.insert(r.below(s.size() + 1), 1, '\0'); break;
	case 10: s += std::string(1, '\0') + (r.chance(1, 2) ? ".evil.net" : ""); break;
	case 11: s += r.chance(1, 2) ? "." : ".com"; break;
	case 12: s = s.substr(0, r.below(s.size() + 1)); break;
	case 13: s = label(r) + "." + s; break;
	case 14: s = "*" + s.substr(r.below(s.size() + 1)); break;
	case 15: if (!s.empty()) s[r.below(s.size())] = (char)(1 + r.below(127)); break;
	default: s = flip(r, "*" + (dot == std::string::npos ? "" : s.substr(dot))); break;
	}
	if (r.chance(1, 40)) s.clear();
	for (auto& c : s) if (c == '\\') c = '_';
	return s;
}

static bool ieq(const std::string& a, const std::string& b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++) {
		unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
		if (x >= 'A' && x <= 'Z') x = (unsigned char)(x + 32);
		if (y >= 'A' && y <= 'Z') y = (unsigned char)(y + 32);
		if (x != y) return false;
	}
	return true;
}

static bool id_matches(const std::string& id, const std::string& name, bool wild)
{
	if (id.empty()) return false;
	if (id.find('\0') != std::string::npos) return false;
	for (unsigned char c : id) if (c < 32 || c == 127) return false;		// names asked for have no control characters
	if (ieq(id, name)) return true;
	if (!wild || id.size() < 2 || id[0] != '*' || id[1] != '.') return false;
	size_t dot = name.find('.');
	if (dot == std::string::npos || dot == 0) return false;
	return ieq(id.substr(1), name.substr(dot));
}

static ASN1_STRING* asn1(int type, const std::string& s)
{
	ASN1_STRING* a = ASN1_STRING_type_new(type);
	ASN1_STRING_set(a, s.data(), (int)s.size());
	return a;
}

static X509* make(const Cert& c)
{
	X509* x = X509_new();
	X509_NAME* n = X509_get_subject_name(x);
	X509_NAME_add_entry_by_txt(n, "O", MBSTRING_ASC, (const unsigned char*)"Org", -1, -1, 0);
	for (size_t i = 0; i < c.cns.size(); i++) {
		std::string b = c.cns[i];
		if (c.cn_types[i] == V_ASN1_BMPSTRING) { std::string w; for (char ch : b) { w += '\0'; w += ch; } b = w; }
		X509_NAME_ENTRY* e = X509_NAME_ENTRY_create_by_NID(NULL, NID_commonName, V_ASN1_UTF8STRING, (const unsigned char*)"t", 1);
		ASN1_STRING* d = X509_NAME_ENTRY_get_data(e);
		d->type = c.cn_types[i];
		ASN1_STRING_set(d, b.data(), (int)b.size());
		X509_NAME_add_entry(n, e, -1, 0);
		X509_NAME_ENTRY_free(e);
	}
	if (!c.sans.empty()) {
		GENERAL_NAMES* g = GENERAL_NAMES_new();
		for (auto& s : c.sans) {
			GENERAL_NAME* e = GENERAL_NAME_new();
			if (s.type == GEN_DIRNAME) {
				X509_NAME* dn = X509_NAME_new();
				X509_NAME_add_entry_by_txt(dn, "CN", MBSTRING_ASC, (const unsigned char*)s.bytes.data(), (int)s.bytes.size(), -1, 0);
				GENERAL_NAME_set0_value(e, GEN_DIRNAME, dn);
			}
			else if (s.type == GEN_IPADD) GENERAL_NAME_set0_value(e, GEN_IPADD, asn1(V_ASN1_OCTET_STRING, s.bytes));
			else GENERAL_NAME_set0_value(e, s.type, asn1(V_ASN1_IA5STRING, s.bytes));
			sk_GENERAL_NAME_push(g, e);
		}
		X509_add1_ext_i2d(x, NID_subject_alt_name, g, 0, X509V3_ADD_DEFAULT);
		GENERAL_NAMES_free(g);
	}
	return x;
}

static std::string show_cert(const Cert& c)
{
	std::string s;
	auto q = [](const std::string& b) { std::string o; for (unsigned char ch : b) if (ch < 33 || ch > 126) { char t[8]; snprintf(t, 8, "\\x%02x", ch); o += t; } else o += (char)ch; return o; };
	for (auto& a : c.sans) s += " san" + std::to_string(a.type) + ":" + q(a.bytes);
	for (auto& a : c.cns) s += " cn:" + q(a);
	return s;
}

// What OpenSSL holds on behalf of the library.
static int64_t g_ssl_live;
static void* ssl_malloc(size_t n, const char*, int) { void* p = n ? plain_malloc(n) : NULL; g_ssl_live += p != NULL; return p; }
static void* ssl_realloc(void* q, size_t n, const char*, int)
{
	if (q && n == 0) { g_ssl_live--; plain_free(q); return NULL; }
	void* p = plain_realloc(q, n);
	g_ssl_live += p && !q;
	return p;
}
static void ssl_free(void* p, const char*, int) { g_ssl_live -= p != NULL; plain_free(p); }

// A log callback that formats what it is given: what is logged must be readable.
static bool on_log(as_log_level, const char*, const char*, uint32_t, const char* fmt, ...)
{
	static char text[1 << 16];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(text, sizeof text, fmt, ap);
	va_end(ap);
	if (n < 0) fail("log-format", "a log message could not be formatted");
	count("logged");
	return true;
}

static void one(uint64_t idx, Rng& r)
{
	count("evals");
	as_log_set_callback(idx % 4 == 0 ? on_log : nullptr);
	as_log_set_level((as_log_level)r.below(5));
	int64_t live = live_allocs();
	std::string name = host(r);
	uint8_t ip[16];
	int fam = 0;
	char text[64];
	if (r.chance(1, 6)) { fam = 4; r.fill(ip, 4); if (r.chance(1, 3)) ip[1] = ip[2] = 0; inet_ntop(AF_INET, ip, text, sizeof text); name = text; }
	else if (r.chance(1, 6)) {
		fam = 6;
		r.fill(ip, 16);
		for (int i = 0; i < 16; i++) if (r.chance(1, 2)) ip[i] = 0;
		if (r.chance(1, 4)) { memset(ip, 0, 16); ip[15] = (uint8_t)r.below(3); }
		if (r.chance(1, 8)) { memset(ip, 0, 10); ip[10] = ip[11] = 0xff; }
		inet_ntop(AF_INET6, ip, text, sizeof text);
		name = text;
		if (r.chance(1, 2)) { snprintf(text, sizeof text, "%02x%02x:%x:%02X%02x:%02x%02X:%02x%02x:%02x%02x:%02x%02x:%02x%02x", ip[0], ip[1], ip[2] * 256 + ip[3], ip[4], ip[5], ip[6], ip[7], ip[8], ip[9], ip[10], ip[11], ip[12], ip[13], ip[14], ip[15]); name = text; }
	}
	else if (r.chance(1, 10)) name = "." + name;
	else if (r.chance(1, 12)) name += ".";
	else if (r.chance(1, 12)) name = "*." + name;
	else if (r.chance(1, 40)) name.clear();
	else if (r.chance(1, 8)) name = flip(r, name);
	Cert c;
	int ns = r.chance(1, 5) ? 0 : r.chance(1, 12) ? 10 + (int)r.below(40) : (int)r.below(5);
	static const int OTHER[] = {GEN_EMAIL, GEN_URI, GEN_DIRNAME};
	for (int i = 0; i < ns; i++) {
		San s;
		uint64_t k = r.below(10);
		bool near = i == ns - 1 || r.chance(1, 4);
		if (fam && k < 6) {
			s.type = GEN_IPADD;
			s.bytes = std::string((char*)ip, fam == 4 ? 4 : 16);
			if (!near || r.chance(1, 2)) s.bytes[r.below(s.bytes.size())] ^= (char)(1 << r.below(8));
			if (r.chance(1, 8)) s.bytes.resize(r.below(20), '\0');
			if (r.chance(1, 12)) { s.bytes = name; }
		}
		else if (k < 8) { s.type = GEN_DNS; s.bytes = near ? derive(r, name) : host(r); }
		else { s.type = OTHER[r.below(3)]; s.bytes = r.chance(1, 2) ? name : derive(r, name); if (s.bytes.empty() || s.type == GEN_DIRNAME) s.bytes = host(r); }
		c.sans.push_back(s);
	}
	int nc = r.chance(1, 3) ? 0 : 1 + (int)r.below(r.chance(1, 10) ? 20 : 2);
	static const int TYPES[] = {V_ASN1_UTF8STRING, V_ASN1_PRINTABLESTRING, V_ASN1_IA5STRING, V_ASN1_T61STRING, V_ASN1_BMPSTRING};
	for (int i = 0; i < nc; i++) { c.cns.push_back(r.chance(1, 2) ? derive(r, name) : host(r)); c.cn_types.push_back(TYPES[r.below(5)]); }
	X509* x = make(c);
	char* n = (char*)malloc(name.size() + 1);
	memcpy(n, name.c_str(), name.size() + 1);
	for (int w = 0; w < 2; w++) {
		bool want = false;
		for (auto& s : c.sans) if (s.type == GEN_DNS && id_matches(s.bytes, name, w)) want = true;
		for (auto& s : c.cns) if (id_matches(s, name, w)) want = true;
		scenario("match_name");
		bool got = as_tls_match_name(x, n, w);
		trace("match_name '%s' wildcard %d:%s -> %d", name.c_str(), w, show_cert(c).c_str(), got);
		VF_CHECK(got == want, got ? "accepted" : "refused", "certificate with%s %s for '%s' (wildcards %d)", show_cert(c).c_str(), got ? "accepted" : "refused", name.c_str(), w);
		count(got ? "accepted" : "refused");
	}
	bool want = false;
	struct in6_addr a6;
	bool is6 = inet_pton(AF_INET6, name.c_str(), &a6) == 1;
	for (auto& s : c.sans) {
		if (s.type == GEN_DNS && s.bytes == name) want = true;
		if (s.type == GEN_IPADD && s.bytes.size() == 4) {
			char t[32];
			snprintf(t, sizeof t, "%u.%u.%u.%u", (uint8_t)s.bytes[0], (uint8_t)s.bytes[1], (uint8_t)s.bytes[2], (uint8_t)s.bytes[3]);
			if (name == t) want = true;
		}
		if (s.type == GEN_IPADD && s.bytes.size() == 16 && is6 && memcmp(&a6, s.bytes.data(), 16) == 0) want = true;
	}
	scenario("match_san");
	bool got = as_tls_match_san(x, n);
	trace("match_san '%s':%s -> %d", name.c_str(), show_cert(c).c_str(), got);
	VF_CHECK(got == want, got ? "san-accepted" : "san-refused", "certificate with%s %s for '%s' by alternative name", show_cert(c).c_str(), got ? "accepted" : "refused", name.c_str());
	count(got ? "san_accepted" : "san_refused");
	VF_CHECK(name == n, "input-changed", "the name was modified");
	// Asking again answers the same and retains nothing (the first time OpenSSL may fill its caches).
	bool w2 = r.chance(1, 2), a1 = as_tls_match_name(x, n, w2);
	int64_t held = g_ssl_live;
	VF_CHECK(as_tls_match_name(x, n, w2) == a1, "unsteady", "the same question about '%s' is answered differently", n);
	VF_CHECK(g_ssl_live == held, "leak", "matching names of%s against '%s' retains %ld allocations", show_cert(c).c_str(), n, (long)(g_ssl_live - held));
	VF_CHECK(as_tls_match_san(x, n) == got, "unsteady", "the same question about '%s' is answered differently", n);
	VF_CHECK(g_ssl_live == held, "leak", "matching alternative names of%s against '%s' retains %ld allocations", show_cert(c).c_str(), n, (long)(g_ssl_live - held));
	count("retention_checks");
	if (idx % 1000 == 1) {
		scenario("no-certificate");
		VF_CHECK(!as_tls_match_name(NULL, n, true), "accepted", "no certificate accepted for '%s'", n);
	}
	free(n);
	X509_free(x);
	VF_CHECK(live_allocs() == live, "leak", "%ld allocations left", (long)(live_allocs() - live));
	std::string all = show_cert(c);
	seen("distinct", hash2(hash_bytes(all.data(), all.size()), hash_bytes(name.data(), name.size())));
	if (r.chance(1, 3000)) sample("'%s':%.200s", name.c_str(), all.c_str());
}

int main(int argc, char** argv)
{
	if (!CRYPTO_set_mem_functions(ssl_malloc, ssl_realloc, ssl_free)) return 2;
	floor_of("retention_checks", 1000);
	floor_of("accepted", 1000);
	floor_of("refused", 1000);
	floor_of("san_accepted", 500);
	return run(argc, argv, 160000, 3000000, one);
}
