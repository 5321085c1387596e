// pbt.hpp - a small choice-sequence based property testing / coverage-guided engine (C++11).
//
// A property is a function of G&; all its randomness comes from G, which records every draw as one "choice".
// A case is therefore a choice sequence: it replays, shrinks (delete / zero / minimise choices) and mutates
// (coverage-guided search over -fsanitize-coverage=trace-pc,trace-cmp) as one value.  Every property runs in a forked
// child with the choices in shared memory, so that a crash, a sanitizer report, a stack overflow or a non-terminating
// call is a failure that shrinks like any other.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <iomanip>
#include <stdexcept>
#include <type_traits>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>

#define PBT_NOCOV __attribute__((no_sanitize_coverage))

namespace pbt {
	enum { MAX_CHOICES = 1 << 15, MAX_MSG = 1 << 14 };
	struct Shared {
		uint64_t len;
		uint64_t evals;
		uint64_t done;
		uint64_t buf[MAX_CHOICES];
		char msg[MAX_MSG];
		char notes[MAX_MSG];
	};
	extern Shared* sh;

	struct Failure {
		std::string msg;
		explicit Failure(std::string const& m) : msg(m) {}
	};
	struct Discard {};

	// ---- dictionary and coverage map, filled by the compiler's callbacks
	struct Cov {
		enum { N = 1 << 14, D = 1024 };
		unsigned char map[N];
		unsigned char seen[N];
		uint64_t dict[D]; unsigned dn; unsigned dpos;
		double fdict[D]; unsigned fn; unsigned fpos;
		bool on;
	};
	extern Cov cov;

	struct Rng {
		uint64_t s;
		explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
		uint64_t next() {
			s += 0x9E3779B97F4A7C15ull;
			uint64_t z = s;
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		uint64_t below(uint64_t n) { return n ? next() % n : next(); }
	};

	inline uint64_t zz_of(int64_t v, int64_t lo, int64_t hi) {	// value -> choice (0 = value nearest to zero)
		int64_t o = lo > 0 ? lo : hi < 0 ? hi : 0;
		return v >= o ? uint64_t(v) - uint64_t(o) : (uint64_t(hi) - uint64_t(o)) + (uint64_t(o) - uint64_t(v));
	}
	inline int64_t zz_to(uint64_t c, int64_t lo, int64_t hi) {
		int64_t o = lo > 0 ? lo : hi < 0 ? hi : 0;
		uint64_t up = uint64_t(hi) - uint64_t(o);
		return c <= up ? int64_t(uint64_t(o) + c) : int64_t(uint64_t(o) - (c - up));
	}

	class G {
	public:
		Rng rng;
		std::vector<uint64_t> const* script;	// choices to replay first
		bool script_only;						// after the script: zeros instead of random draws
		size_t pos;
		bool nontriv;
		bool verbose;
		uint64_t hash;
		std::string notes;
		std::vector<char const*> labels;
		std::set<std::string> const* known_ids;
		G() : rng(1), script(0), script_only(false), pos(0), nontriv(false), verbose(false), hash(1469598103934665603ull), known_ids(0) {}

		// take a choice from the script, or `fresh`
		uint64_t emit(uint64_t n, uint64_t fresh) {
			uint64_t v = fresh;
			if (script && pos < script->size()) {
				v = (*script)[pos];
				if (n && v >= n) v %= n;
			} else if (script_only) {
				v = 0;
			}
			++pos;
			if (sh->len < MAX_CHOICES) sh->buf[sh->len++] = v;
			hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29;
			return v;
		}
		bool scripted() const { return script_only || (script && pos < script->size()); }
		uint64_t draw(uint64_t n) { return emit(n, scripted() ? 0 : rng.below(n)); }
		bool flag() { return draw(2) != 0; }
		bool chance(unsigned k, unsigned n) { return draw(n) >= n - k; }	// probability k/n; shrinks to false

		int64_t range(int64_t lo, int64_t hi) {
			uint64_t span = uint64_t(hi) - uint64_t(lo) + 1;	// 0: all 64 bits
			uint64_t c = 0;
			if (!scripted()) {
				uint64_t k = rng.below(16);
				if (span && span <= 4) k = 15;
				int64_t v;
				if (k < 2) {
					static const int64_t off[] = {0, 1, -1, -2};
					uint64_t j = rng.below(4);
					v = off[j] >= 0 ? int64_t(uint64_t(lo) + uint64_t(off[j])) : int64_t(uint64_t(hi) + uint64_t(off[j] + 1));
				} else if (k < 5 && cov.dn) {
					v = int64_t(cov.dict[rng.below(cov.dn)] + rng.below(3) - 1);
				} else if (k < 9) {	// log-uniform around the origin
					int64_t o = lo > 0 ? lo : hi < 0 ? hi : 0;
					uint64_t m = rng.next() >> (rng.below(64));
					v = rng.below(2) ? int64_t(uint64_t(o) + m) : int64_t(uint64_t(o) - m);
				} else {
					v = int64_t(uint64_t(lo) + rng.below(span));
				}
				if (v < lo || v > hi) v = int64_t(uint64_t(lo) + (span ? (uint64_t(v) - uint64_t(lo)) % span : uint64_t(v)));
				c = zz_of(v, lo, hi);
			}
			return zz_to(emit(span, c), lo, hi);
		}
		int irange(int lo, int hi) { return int(range(lo, hi)); }
		// container size, skewed to small but reaching max
		size_t size(size_t max) {
			uint64_t c = 0;
			if (!scripted()) {
				uint64_t k = rng.below(16);
				if (k < 3 && cov.dn) {
					c = cov.dict[rng.below(cov.dn)] + rng.below(3) - 1;
					if (c > max) c = rng.below(max + 1);
				} else if (k < 9) { c = rng.below(max < 9 ? max + 1 : 10); }
				else if (k < 10) c = max - rng.below(max < 2 ? max + 1 : 3);
				else c = rng.below(max + 1);
			}
			return size_t(emit(max + 1, c));
		}
		template<typename T> T integer() {
			if (std::is_same<T, bool>::value) return T(draw(2));
			if (std::is_signed<T>::value)
				return T(range(int64_t(std::numeric_limits<T>::min()), int64_t(std::numeric_limits<T>::max())));
			if (sizeof(T) < 8)
				return T(range(0, int64_t(std::numeric_limits<T>::max())));
			uint64_t c = 0;
			if (!scripted()) {
				uint64_t k = rng.below(8);
				c = k == 0 ? 0 - rng.below(3) : k < 3 && cov.dn ? cov.dict[rng.below(cov.dn)] + rng.below(3) - 1 : k < 6 ? rng.next() >> rng.below(64) : rng.next();
				if (rng.below(6) == 0) c = ~c;
			}
			return T(emit(0, c));
		}
		// doubles: special values, small dyadics/decimals, integers, any bit pattern
		template<typename T> T real_in(T lo, T hi) {	// finite, in [lo, hi]
			uint64_t k = draw(4);
			T u;
			if (k == 0) u = T(draw(17)) / T(16);
			else if (k == 1) u = T(draw(1001)) / T(1000);
			else u = T(draw(uint64_t(1) << 53)) / T((uint64_t(1) << 53) - 1);
			if (k == 2) { int e = int(draw(60)); u = u / std::pow(T(2), e); }
			T r = lo + (hi - lo) * u;
			return r < lo ? lo : r > hi ? hi : r;
		}
		double real() {
			static const double sp[] = {0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1.5, -1.5, 2.5, -2.5, -0.0,
				std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
				std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), -std::numeric_limits<double>::min(),
				std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::epsilon(),
				0.49999999999999994, 4503599627370496.0, 4503599627370497.5, 9007199254740992.0, -9007199254740993.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0,
				9223372036854775807.0, -9223372036854775808.0, 3.141592653589793, 1.5707963267948966, 2.718281828459045, 0.1, 1e-300, 1e300, 1e-10, 1e10};
			uint64_t k = draw(8);
			if (k == 0) return sp[draw(sizeof(sp) / sizeof(*sp))];
			if (k == 1) return double(range(-1000, 1000)) / double(uint64_t(1) << draw(12));
			if (k == 2) return double(range(-100000, 100000)) / 1000;
			if (k == 3) return double(integer<int64_t>());
			if (k == 4) { double d = double(range(-1024, 1024)) / 1024; return std::ldexp(d, int(range(-60, 60))); }
			if (k == 5) { double d = double(draw(uint64_t(1) << 53)) / double(uint64_t(1) << 52); return std::ldexp(flag() ? -d : d, int(range(-40, 40))); }
			if (k == 6 && !scripted() && cov.fn) { double d = cov.fdict[rng.below(cov.fn)]; uint64_t u; std::memcpy(&u, &d, 8); if (rng.below(2)) u += rng.below(3) - 1; u = emit(0, u); std::memcpy(&d, &u, 8); return d; }
			{ uint64_t u = draw(0); double d; std::memcpy(&d, &u, 8); return d; }
		}
		template<typename T> T pick(std::vector<T> const& v) { return v[size_t(draw(v.size()))]; }
		template<typename T, size_t N> T pick(T const (&v)[N]) { return v[size_t(draw(N))]; }
		template<typename T> T pick(std::initializer_list<T> v) { return v.begin()[size_t(draw(v.size()))]; }

		std::vector<int> ints(size_t maxn, int lo, int hi) {
			size_t n = size(maxn);
			std::vector<int> v(n);
			for (size_t i = 0; i < n; ++i) v[i] = int(range(lo, hi));
			return v;
		}
		// a vector whose value range is chosen too: many duplicates, or almost none
		std::vector<int> vec(size_t maxn) {
			size_t n = size(maxn);
			int span = pick({1, 2, 3, 6, 20, 1000});
			std::vector<int> v(n);
			for (size_t i = 0; i < n; ++i) v[i] = int(draw(span)) - span / 3;
			return v;
		}
		template<typename Str> Str str(size_t maxn, Str const& alphabet) {
			size_t n = size(maxn);
			Str s;
			for (size_t i = 0; i < n; ++i) s += alphabet[size_t(draw(alphabet.size()))];
			return s;
		}
		void nontrivial(bool b = true) { nontriv = nontriv || b; }
		void label(char const* l) { labels.push_back(l); }
		bool known(char const* id) const { return known_ids && known_ids->count(id); }
		template<typename T> void note(char const* name, T const& v);
	};

	// ---- printing
	template<typename T, typename = void> struct is_printable : std::false_type {};
	template<typename...> struct voider { typedef void type; };
	template<typename T> struct is_printable<T, typename voider<decltype(std::declval<std::ostream&>() << std::declval<T const&>())>::type> : std::true_type {};
	template<typename T, typename = void> struct is_range : std::false_type {};
	template<typename T> struct is_range<T, typename voider<decltype(std::declval<T const&>().begin()), decltype(std::declval<T const&>().end())>::type> : std::true_type {};

	template<typename T> std::string show(T const& v);
	inline std::string show_(bool v) { return v ? "true" : "false"; }
	inline std::string show_(std::string const& s) {
		std::string r = "\"";
		char b[8];
		for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c >= 32 && c < 127) r += char(c); else { std::snprintf(b, 8, "\\x%02x", c); r += b; } }
		return r + "\"";
	}
	template<typename T> typename std::enable_if<std::is_floating_point<T>::value, std::string>::type show_(T v) {
		std::ostringstream o; o << std::setprecision(std::numeric_limits<T>::max_digits10) << v; return o.str();
	}
	template<typename T> typename std::enable_if<std::is_integral<T>::value && sizeof(T) == 1 && !std::is_same<T, bool>::value, std::string>::type show_(T v) { return std::to_string(int(v)); }
	template<typename T> typename std::enable_if<std::is_same<T, wchar_t>::value || std::is_same<T, char16_t>::value || std::is_same<T, char32_t>::value, std::string>::type show_(T v) { return std::to_string((long)v); }
	template<typename T> typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 1) && !std::is_same<T, wchar_t>::value && !std::is_same<T, char16_t>::value && !std::is_same<T, char32_t>::value, std::string>::type show_(T v) { return std::to_string(v); }
	template<typename A, typename B> std::string show_(std::pair<A, B> const& p) { return "(" + show(p.first) + ", " + show(p.second) + ")"; }
	template<typename T> typename std::enable_if<std::is_enum<T>::value, std::string>::type show_(T v) { return std::to_string((long long)v); }
	template<typename T> typename std::enable_if<is_range<T>::value && !std::is_same<T, std::string>::value, std::string>::type show_(T const& r) {
		std::string s = "[";
		bool f = true;
		for (auto it = r.begin(); it != r.end(); ++it) { if (!f) s += ", "; f = false; s += show(*it); }
		return s + "]";
	}
	template<typename T> typename std::enable_if<!std::is_arithmetic<T>::value && !std::is_enum<T>::value && !is_range<T>::value && is_printable<T>::value && !std::is_convertible<T, std::string>::value, std::string>::type show_(T const& v) { std::ostringstream o; o << v; return o.str(); }
	template<typename T> typename std::enable_if<!std::is_arithmetic<T>::value && !std::is_enum<T>::value && !is_range<T>::value && !is_printable<T>::value, std::string>::type show_(T const&) { return "<value>"; }
	template<typename T> std::string show(T const& v) { return show_(v); }
	inline std::string show(char const* s) { return s ? show_(std::string(s)) : "null"; }

	template<typename T> void G::note(char const* name, T const& v) {
		if (verbose) { notes += name; notes += "="; notes += show(v); notes += "; "; size_t n = std::min(notes.size(), size_t(MAX_MSG - 1)); std::memcpy(sh->notes, notes.data(), n); sh->notes[n] = 0; }
	}

	// equality that accepts NaN == NaN, and distinguishes signed zeros only in same_bits
	template<typename T> bool same_fp(T a, T b) { return a == b || (a != a && b != b); }
	template<typename T> bool same_fp_signed(T a, T b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }

	inline std::string strip(char const* file) { std::string f(file); size_t p = f.rfind('/'); return p == std::string::npos ? f : f.substr(p + 1); }
	[[noreturn]] inline void fail(char const* file, int line, std::string const& m) {
		std::ostringstream o; o << strip(file) << ":" << line << ": " << m; throw Failure(o.str());
	}
	template<typename A, typename B> void check_eq(A const& a, B const& b, char const* ea, char const* eb, char const* file, int line) {
		if (!(a == b)) fail(file, line, std::string(ea) + " == " + eb + "  got " + show(a) + "  expected " + show(b));
	}

	// ---- registry
	typedef void (*Body)(G&);
	struct Prop { char const* name; Body body; double weight; };
	struct Known { char const* id; bool (*present)(); };
	inline std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
	inline std::vector<Known>& knowns() { static std::vector<Known> p; return p; }
	struct Reg { Reg(char const* n, Body b, double w) { Prop p = {n, b, w}; props().push_back(p); } };
	struct RegKnown { RegKnown(char const* n, bool (*f)()) { Known k = {n, f}; knowns().push_back(k); } };
}	// namespace pbt

#define PBT_CAT_(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT_(a, b)
// PROP(name, weight) { ... uses G& g ... }
#define PROP(name, weight) \
	static void PBT_CAT(prop_, name)(pbt::G& g); \
	static pbt::Reg PBT_CAT(reg_, name)(#name, PBT_CAT(prop_, name), weight); \
	static void PBT_CAT(prop_, name)(pbt::G& g)
// register a template instance
#define PROP_INST(name, weight, ...) static pbt::Reg PBT_CAT(reg_, name)(#name, __VA_ARGS__, weight);
#define KNOWN(id) \
	static bool PBT_CAT(known_, id)(); \
	static pbt::RegKnown PBT_CAT(regk_, id)(#id, PBT_CAT(known_, id)); \
	static bool PBT_CAT(known_, id)()
#define CHECK(...) do { if (!(__VA_ARGS__)) pbt::fail(__FILE__, __LINE__, #__VA_ARGS__); } while (0)
#define CHECK_EQ(a, b) pbt::check_eq((a), (b), #a, #b, __FILE__, __LINE__)
#define CHECK_MSG(c, m) do { if (!(c)) { std::ostringstream pbt_o; pbt_o << #c << "  " << m; pbt::fail(__FILE__, __LINE__, pbt_o.str()); } } while (0)
#define CHECK_THROWS(T, ...) do { bool pbt_t = false; try { (void)(__VA_ARGS__); } catch (T const&) { pbt_t = true; } if (!pbt_t) pbt::fail(__FILE__, __LINE__, "expected " #T " from " #__VA_ARGS__); } while (0)

#ifndef PBT_NO_MAIN
extern "C" {
	PBT_NOCOV inline void pbt_dict(uint64_t v) {
		using namespace pbt;
		unsigned h = unsigned((v * 0x9E3779B97F4A7C15ull) >> 54) % Cov::D;
		// keep distinct values: a slot table indexed by hash, compacted lazily
		static uint64_t slot[Cov::D]; static bool used[Cov::D];
		if (used[h]) return;
		used[h] = true; slot[h] = v;
		if (cov.dn < Cov::D) cov.dict[cov.dn++] = v;
	}
	PBT_NOCOV inline void pbt_fdict(double v) {
		using namespace pbt;
		if (cov.fn < 256) { cov.fdict[cov.fn++] = v; return; }
	}
	extern char __executable_start;
	PBT_NOCOV void __sanitizer_cov_trace_pc() {
		uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
		unsigned char& c = pbt::cov.map[(pc ^ (pc >> 16)) & (pbt::Cov::N - 1)];
		if (c != 255) ++c;
	}
	PBT_NOCOV void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { pbt_dict(a); pbt_dict(uint64_t(int64_t(int8_t(a)))); }
	PBT_NOCOV void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { pbt_dict(a); }
	PBT_NOCOV void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { pbt_dict(uint64_t(int64_t(int32_t(a)))); }
	PBT_NOCOV void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { pbt_dict(a); }
	PBT_NOCOV void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
	PBT_NOCOV void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
	PBT_NOCOV void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
	PBT_NOCOV void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
	PBT_NOCOV void __sanitizer_cov_trace_cmpf(float a, float b) { pbt_fdict(a); pbt_fdict(b); }
	PBT_NOCOV void __sanitizer_cov_trace_cmpd(double a, double b) { pbt_fdict(a); pbt_fdict(b); }
	PBT_NOCOV void __sanitizer_cov_trace_switch(uint64_t, uint64_t* cases) { for (uint64_t i = 0; i < cases[0] && i < 64; ++i) pbt_dict(cases[2 + i]); }
	// Sanitizer options: every report ends the case (abort), which the parent sees as a failure.
	PBT_NOCOV char const* __asan_default_options() { return "abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:handle_sigill=0:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:symbolize=0:use_sigaltstack=0"; }
	PBT_NOCOV char const* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0:halt_on_error=1:symbolize=0"; }
}
namespace pbt {
	Shared* sh;
	Cov cov;

	inline std::string json(std::string const& s) {
		std::string r = "\"";
		char b[8];
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if (c < 32 || c >= 127) { std::snprintf(b, 8, "\\u%04x", c); r += b; }
			else r += char(c);
		}
		return r + "\"";
	}
	inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

	static const int EX_FAIL = 42, EX_HANG = 43;
	enum { CASE_CPU = 20 };
	inline void on_alarm(int) { _exit(EX_HANG); }
	inline void on_crash(int s) { signal(s, SIG_DFL); raise(s); }
	inline void arm() {
		itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = CASE_CPU; setitimer(ITIMER_VIRTUAL, &t, 0);
	}
	inline void child_setup(char const* errfile) {
		rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		signal(SIGVTALRM, on_alarm);
		int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0) { dup2(fd, 2); close(fd); }
	}
	inline void put(char* dst, std::string const& s) { size_t n = std::min(s.size(), size_t(MAX_MSG - 1)); std::memcpy(dst, s.data(), n); dst[n] = 0; }

	// run one case in this process; true = ok or discarded
	inline bool run_case(Prop const& p, G& g, bool& discarded) {
		sh->len = 0;
		discarded = false;
		try { p.body(g); }
		catch (Failure const& f) { put(sh->msg, f.msg); return false; }
		catch (Discard const&) { discarded = true; }
		catch (std::exception const& e) { put(sh->msg, std::string("unexpected exception: ") + e.what()); return false; }
		catch (...) { put(sh->msg, "unexpected exception"); return false; }
		return true;
	}

	struct Options {
		uint64_t seed; double scale; std::string out; std::string err; std::string only; std::string replay; double maxsec;
		std::set<std::string> known; unsigned shard, shards;
		Options() : seed(1), scale(1), maxsec(120), shard(0), shards(1) {}
	};

	inline std::string hex(std::vector<uint64_t> const& v) { std::ostringstream o; o << std::hex; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; return o.str(); }
	inline std::vector<uint64_t> unhex(std::string const& s) { std::vector<uint64_t> v; std::istringstream i(s); std::string t; while (std::getline(i, t, ',')) if (!t.empty()) v.push_back(strtoull(t.c_str(), 0, 16)); return v; }

	inline std::string tail_of(std::string const& f) {
		std::string s; FILE* fp = fopen(f.c_str(), "r"); if (!fp) return s; char b[4096]; size_t n = fread(b, 1, sizeof b, fp); s.assign(b, n); fclose(fp);
		return s.substr(0, 1500);
	}
	inline std::string describe(int st, std::string const& err) {
		if (WIFEXITED(st) && WEXITSTATUS(st) == EX_FAIL) return sh->msg;
		if (WIFEXITED(st) && WEXITSTATUS(st) == EX_HANG) return "no result after 20 s of CPU time in one case (non-terminating call)";
		std::ostringstream o;
		if (WIFSIGNALED(st)) o << "crash: signal " << WTERMSIG(st) << " " << strsignal(WTERMSIG(st));
		else o << "process ended with status " << (WIFEXITED(st) ? WEXITSTATUS(st) : st);
		std::string e = tail_of(err);
		if (!e.empty()) o << " | " << e;
		return o.str();
	}
	// fork and run exactly this choice sequence. 0 = passes
	inline int attempt(Prop const& p, std::vector<uint64_t> const& c, Options const& o, bool verbose, std::vector<uint64_t>* used = 0) {
		sh->msg[0] = 0; sh->notes[0] = 0; sh->len = 0;
		fflush(0);
		pid_t pid = fork();
		if (pid == 0) {
			child_setup((o.err + ".shrink").c_str());
			arm();
			G g; g.script = &c; g.script_only = true; g.verbose = verbose; g.known_ids = &o.known;
			bool d;
			bool ok = run_case(p, g, d);
			_exit(ok ? 0 : EX_FAIL);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
		if (used) used->assign(sh->buf, sh->buf + sh->len);
		return st;
	}

	inline std::vector<uint64_t> shrink(Prop const& p, std::vector<uint64_t> best, Options const& o, bool hang, bool brief) {
		double end = now() + (hang ? (brief ? 0 : 45) : brief ? 4 : 15);
		int budget = hang ? 4 : 3000;
		std::vector<uint64_t> used;
		auto fails = [&](std::vector<uint64_t> const& c) -> bool {
			if (budget-- <= 0 || now() > end) return false;
			int st = attempt(p, c, o, false, &used);
			if (st == 0) return false;
			if (WIFEXITED(st) && WEXITSTATUS(st) == EX_HANG && !hang) { budget -= 300; }
			return true;
		};
		auto take = [&](std::vector<uint64_t> const& c) { best = used.size() <= c.size() && !used.empty() ? used : c; };
		bool progress = true;
		while (progress && budget > 0 && now() < end) {
			progress = false;
			for (size_t w = std::max<size_t>(best.size() / 2, 1); w >= 1; w /= 2) {
				for (size_t i = 0; i + w <= best.size() && budget > 0;) {
					std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + w);
					if (fails(c)) { take(c); progress = true; } else i += w;
				}
				if (w == 1) break;
			}
			for (size_t i = 0; i < best.size() && budget > 0; ++i) {
				if (!best[i]) continue;
				std::vector<uint64_t> c(best); c[i] = 0;
				if (fails(c)) { take(c); progress = true; continue; }
				uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;	// lo passes, hi fails
				while (hi - lo > 1 && budget > 0 && i < best.size()) {
					uint64_t m = lo + (hi - lo) / 2;
					c = best; c[i] = m;
					if (fails(c)) { hi = m; take(c); progress = true; } else lo = m;
				}
				// remove one element while decrementing a preceding length-like choice
				if (i < best.size() && best[i] > 0 && i + 1 < best.size()) {
					c = best; c[i] -= 1; c.erase(c.begin() + i + 1);
					if (fails(c)) { take(c); progress = true; --i; continue; }
				}
			}
		}
		return best;
	}

	inline bool new_coverage() {
		bool n = false;
		for (unsigned i = 0; i < Cov::N; i += 8) {
			uint64_t w; std::memcpy(&w, cov.map + i, 8);
			if (!w) continue;
			for (unsigned j = i; j < i + 8; ++j) {
				unsigned char c = cov.map[j];
				if (!c) continue;
				unsigned char b = c == 1 ? 1 : c == 2 ? 2 : c < 4 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
				if (!(cov.seen[j] & b)) { cov.seen[j] |= b; n = true; }
			}
		}
		return n;
	}

	inline void mutate(std::vector<uint64_t>& c, Rng& r, std::vector<std::vector<uint64_t> > const& corpus) {
		int k = 1 + int(r.below(4));
		while (k--) {
			if (c.empty()) { c.push_back(r.below(16)); continue; }
			size_t i = size_t(r.below(c.size()));
			switch (r.below(9)) {
			case 0: c[i] = r.next() >> r.below(64); break;
			case 1: c[i] += 1; break;
			case 2: c[i] -= c[i] ? 1 : 0; break;
			case 3: c[i] ^= uint64_t(1) << r.below(r.below(2) ? 8 : 64); break;
			case 4: c.erase(c.begin() + i); break;
			case 5: c.insert(c.begin() + i, r.below(2) ? c[i] : r.next() >> r.below(64)); break;
			case 6: if (cov.dn) c[i] = cov.dict[r.below(cov.dn)] + r.below(3) - 1; break;
			case 7: c[i] = c[size_t(r.below(c.size()))]; break;
			case 8: { std::vector<uint64_t> const& d = corpus[size_t(r.below(corpus.size()))]; size_t j = size_t(r.below(d.size() + 1)); c.resize(i); c.insert(c.end(), d.begin() + j, d.end()); break; }
			}
			if (c.size() > 4000) c.resize(4000);
		}
	}

	inline void child_run(Prop const& p, uint64_t n, Options const& o, std::string const& rep) {
		child_setup(o.err.c_str());
		uint64_t nontriv = 0, discards = 0, evals = 0;
		std::unordered_set<uint64_t> distinct;
		std::map<std::string, uint64_t> labels;
		std::vector<std::string> samples;
		std::vector<std::vector<uint64_t> > corpus;
		uint64_t h = 1469598103934665603ull;
		for (char const* s = p.name; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
		Rng master(o.seed * 1000003ull + o.shard * 7919ull + h);
		double end = now() + o.maxsec;
		for (uint64_t i = 0; i < n; ++i) {
			if ((i & 15) == 0 && now() > end) break;
			if ((i & 63) == 0) arm();
			G g; g.rng = Rng(master.next()); g.known_ids = &o.known;
			std::vector<uint64_t> script;
			if (corpus.size() > 1 && i > 50 && master.below(3) == 0) {
				script = corpus[size_t(master.below(corpus.size()))];
				mutate(script, master, corpus);
				g.script = &script;
			}
			bool sample = samples.size() < 3 && (i % 7 == 3);
			g.verbose = sample;
			bool d = false;
			bool ok = run_case(p, g, d);
			++evals; sh->evals = evals;
			if (!ok) _exit(EX_FAIL);
			if (d) { ++discards; }
			else {
				if (g.nontriv) { ++nontriv; if (distinct.size() < 3000000) distinct.insert(g.hash); if (sample && !g.notes.empty()) samples.push_back(g.notes.substr(0, 400)); }
				for (char const* l : g.labels) ++labels[l];
			}
			if (new_coverage() && sh->len < 4000 && corpus.size() < 4000) corpus.push_back(std::vector<uint64_t>(sh->buf, sh->buf + sh->len));
			std::memset(cov.map, 0, Cov::N);
		}
		FILE* f = fopen(rep.c_str(), "w");
		if (f) {
			fprintf(f, "{\"evals\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"discards\":%llu,\"corpus\":%llu,\"labels\":{", (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)distinct.size(), (unsigned long long)discards, (unsigned long long)corpus.size());
			bool first = true;
			for (auto const& l : labels) { fprintf(f, "%s%s:%llu", first ? "" : ",", json(l.first).c_str(), (unsigned long long)l.second); first = false; }
			fprintf(f, "},\"samples\":[");
			for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", json(samples[i]).c_str());
			fprintf(f, "]}");
			fclose(f);
		}
		sh->done = 1;
		_exit(0);
	}

	inline int main_(int argc, char** argv) {
		Options o;
		for (int i = 1; i + 1 < argc; i += 2) {
			std::string a = argv[i], v = argv[i + 1];
			if (a == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
			else if (a == "--scale") o.scale = atof(v.c_str());
			else if (a == "--out") o.out = v;
			else if (a == "--only") o.only = v;
			else if (a == "--replay") o.replay = v;
			else if (a == "--maxsec") o.maxsec = atof(v.c_str());
			else if (a == "--shard") o.shard = unsigned(atoi(v.c_str()));
			else if (a == "--shards") o.shards = unsigned(atoi(v.c_str()));
			else if (a == "--known") { std::istringstream s(v); std::string t; while (std::getline(s, t, ',')) o.known.insert(t); }
		}
		if (o.out.empty()) o.out = "/dev/stdout";
		{
			char b[64]; std::snprintf(b, sizeof b, "/tmp/pbt.%d.err", int(getpid()));
			o.err = o.out == "/dev/stdout" ? std::string(b) : o.out + ".err";
		}
		sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (sh == MAP_FAILED) { perror("mmap"); return 3; }
		bool filtered = !o.only.empty();
		if (!o.replay.empty() || (argc > 1 && std::string(argv[1]) == "--replay")) {
			std::vector<uint64_t> c = unhex(o.replay);
			for (Prop const& p : props()) if (o.only == p.name) {
				int st = attempt(p, c, o, true);
				std::string n = sh->notes;
				std::printf("%s: %s\n  case: %s\n", p.name, st == 0 ? "PASS" : describe(st, o.err + ".shrink").c_str(), n.c_str());
				unlink((o.err + ".shrink").c_str());
				return st == 0 ? 0 : 1;
			}
			return 2;
		}
		std::string res = "{\"props\":[";
		bool first = true, bad = false;
		double const started = now();
		for (size_t pi = 0; pi < props().size(); ++pi) {
			Prop const& p = props()[pi];
			if (filtered && o.only != p.name) continue;
			if (pi % o.shards != o.shard % o.shards) continue;
			if (bad && now() - started > 120) break;	// the verdict is known; do not spend the time limit on slow failures
			double t0 = now();
			std::string rep = o.err + ".rep";
			unlink(rep.c_str());
			sh->done = 0; sh->evals = 0; sh->len = 0; sh->msg[0] = 0;
			uint64_t n = uint64_t(std::max(1.0, 1000 * p.weight * o.scale));
			fflush(0);
			pid_t pid = fork();
			if (pid < 0) { perror("fork"); return 3; }
			if (pid == 0) child_run(p, n, o, rep);
			int st = 0;
			while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
			if (!first) res += ",";
			first = false;
			res += "{\"name\":" + json(p.name);
			if (st == 0 && sh->done) {
				std::string r; FILE* f = fopen(rep.c_str(), "r"); if (f) { char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k); fclose(f); }
				res += ",\"ok\":true,\"stats\":" + (r.empty() ? std::string("{}") : r);
			} else {
				bool hang = WIFEXITED(st) && WEXITSTATUS(st) == EX_HANG;
				bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;	// memory, or an outside kill: no verdict
				std::string msg0 = describe(st, o.err);
				std::vector<uint64_t> c(sh->buf, sh->buf + sh->len);
				uint64_t ev = sh->evals;
				int rst = attempt(p, c, o, false);
				bool repro = rst != 0 && !killed;
				if (repro) c = shrink(p, c, o, hang, bad);
				int fails = 0; std::string msg, notes;
				int rounds = hang ? 1 : 3;
				for (int k = 0; repro && k < rounds; ++k) { int s2 = attempt(p, c, o, k == rounds - 1); if (s2) { ++fails; msg = describe(s2, o.err + ".shrink"); notes = sh->notes; } }
				bad = true;
				res += ",\"ok\":false,\"evals\":" + std::to_string(ev) + ",\"confirmed\":" + (repro && fails == rounds ? "true" : "false")
					+ ",\"msg\":" + json(msg.empty() ? msg0 : msg) + ",\"first_msg\":" + json(msg0) + ",\"notes\":" + json(notes) + ",\"choices\":" + json(hex(c));
			}
			res += ",\"t\":" + std::to_string(now() - t0) + "}";
			unlink(rep.c_str());
		}
		res += "],\"known\":{";
		first = true;
		for (Known const& k : knowns()) {
			if (filtered || o.shard % o.shards != 0) continue;
			fflush(0);
			pid_t pid = fork();
			if (pid == 0) { child_setup(o.err.c_str()); arm(); bool r = true; try { r = k.present(); } catch (...) {} _exit(r ? 1 : 0); }
			int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
			if (!first) res += ",";
			first = false;
			res += json(k.id) + ":" + (st == 0 ? "false" : "true");
		}
		res += "}}\n";
		unlink(o.err.c_str()); unlink((o.err + ".shrink").c_str());
		FILE* f = fopen(o.out.c_str(), "w");
		if (!f) { perror(o.out.c_str()); return 3; }
		fwrite(res.data(), 1, res.size(), f); fclose(f);
		return bad ? 1 : 0;
	}
}	// namespace pbt
#ifndef PBT_CUSTOM_MAIN
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
#endif	// PBT_NO_MAIN

#endif
