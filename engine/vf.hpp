// Observation layer: element types, instrumented callbacks, canonical serialisation of results.
// Included by every generated grammar file (via a precompiled header) and by the driver.
#pragma once
#include <array>
#include <compare>
#include <limits>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <new>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace vf {

using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---------------------------------------------------------------- observation state
struct Event { char kind; int id; char cat; u64 dig; bool operator==(const Event&) const = default; };
struct Boom { long n; };

struct State
{
	std::vector<Event> events;
	long throw_at = 0;         // >0: the k-th callback throws
	void (*hook)() = nullptr;  // runs inside every callback
	const void* base = nullptr;
	long cmps = 0;             // element comparisons made on tracked elements
	const void* lo = nullptr;  // tracked element range
	const void* hi = nullptr;
	long oob = 0;
	const char* sp_low = nullptr;  // deepest stack address seen at an element comparison
	long tok_live = 0, tok_made = 0, tok_copies = 0, tok_bad = 0;
	long tok_ops = 0, tok_fail_at = 0;   // >0: the k-th construction or assignment of a value that may throw, throws
};
extern thread_local State st;

// allocation monitor (definitions in driver)
extern thread_local long alloc_count, alloc_fail_at, alloc_live;
extern thread_local bool alloc_on;

// ---------------------------------------------------------------- digests
constexpr u64 fnv_init = 1469598103934665603ull;
struct DigestSink
{
	u64 h = fnv_init;
	constexpr void put(char c) { h ^= static_cast<unsigned char>(c); h *= 1099511628211ull; }
};
struct StringSink
{
	std::string s;
	constexpr void put(char c) { s.push_back(c); }
};
struct NullSink { constexpr void put(char) {} };

template <class S>
constexpr void put_str(S& s, const char* p) { while (*p) s.put(*p++); }
template <class S>
constexpr void put_num(S& s, i64 v)
{
	char buf[24] = {};
	int n = 0;
	bool neg = v < 0;
	u64 u = neg ? 0ull - static_cast<u64>(v) : static_cast<u64>(v);
	do { buf[n++] = static_cast<char>('0' + u % 10); u /= 10; } while (u);
	if (neg) s.put('-');
	while (n) s.put(buf[--n]);
}
template <class S>
constexpr void put_hex(S& s, u64 v)
{
	for (int i = 60; i >= 0; i -= 4) s.put("0123456789abcdef"[(v >> i) & 15]);
}

// ---------------------------------------------------------------- result boxes
template <int ID> struct Box { u64 h = 0; constexpr bool operator==(const Box&) const = default; };

template <int ID> struct IBox;           // into / apply_into target
template <int ID, int Kind> struct Tok;  // instance-tracked value: 0 copy+move, 1 move-only, 2 copy-only

template <class T> struct is_box : std::false_type {};
template <int I> struct is_box<Box<I>> : std::true_type {};
template <class T> struct is_ibox : std::false_type {};
template <int I> struct is_ibox<IBox<I>> : std::true_type {};

struct Rec;  // result_type of recursive rules

// ---------------------------------------------------------------- serialisation
template <class T>
concept span_like = requires (const T& t) { { t.data() } -> std::convertible_to<const void*>; { t.size() } -> std::convertible_to<std::size_t>; t.front(); typename T::value_type; } and
	not requires (T& t) { t.push_back(*t.begin()); } and not requires { std::tuple_size<T>::value; };

// Offset of a span's data in the input.  At run time it is the distance to the buffer's start; during
// constant evaluation the sink knows the base pointer, or the elements carry their own position (Px).
template <class S, class V>
constexpr i64 offset_of(const S& s, const V* p)
{
	if constexpr (requires { s.off(p); })
		return s.off(p);
	else
	{
		if constexpr (requires { p->idx; })
			if (std::is_constant_evaluated())
				return p->idx;
		auto d = reinterpret_cast<const char*>(p) - static_cast<const char*>(st.base);
		return d % static_cast<std::ptrdiff_t>(sizeof(V)) ? -999999 : static_cast<i64>(d / static_cast<std::ptrdiff_t>(sizeof(V)));
	}
}

template <class S, span_like T> constexpr void ser(S& s, const T& v);
template <class S> constexpr void ser(S& s, const std::string& v);
template <class S, class... Ts> constexpr void ser(S& s, const std::tuple<Ts...>& v);
template <class S, class A, class B> constexpr void ser(S& s, const std::pair<A, B>& v);
template <class S, class T> constexpr void ser(S& s, const std::vector<T>& v);
template <class S, class T, std::size_t N> constexpr void ser(S& s, const std::array<T, N>& v);
template <class S, class T> constexpr void ser(S& s, const std::optional<T>& v);
template <class S, class... Ts> constexpr void ser(S& s, const std::variant<Ts...>& v);
template <class S, std::integral T> constexpr void ser(S& s, const T& v);
template <class S, int ID> constexpr void ser(S& s, const Box<ID>& v);
template <class S, int ID> constexpr void ser(S& s, const IBox<ID>& v);
template <class S, int ID, int K> constexpr void ser(S& s, const Tok<ID, K>& v);
template <class S, std::same_as<Rec> R> constexpr void ser(S& s, const R& v);
template <class S> constexpr void ser(S& s, std::nullptr_t) { s.put('n'); }

template <class S, span_like T>
constexpr void ser(S& s, const T& v)
{
	if (v.size() == 0)
	{
		s.put('<');
		if (v.data() != nullptr)
			put_num(s, offset_of(s, v.data()));
		s.put('>');
		return;
	}
	s.put('<'); put_num(s, offset_of(s, v.data())); s.put(','); put_num(s, static_cast<i64>(v.size())); s.put('>');
}
template <class S>
constexpr void ser(S& s, const std::string& v) { s.put('"'); for (char c : v) s.put(c); s.put('"'); }
template <class S, class... Ts>
constexpr void ser(S& s, const std::tuple<Ts...>& v)
{
	s.put('(');
	[&]<std::size_t... Is>(std::index_sequence<Is...>) { ((Is ? s.put(',') : void(), ser(s, std::get<Is>(v))), ...); }(std::index_sequence_for<Ts...>{});
	s.put(')');
}
template <class S, class A, class B>
constexpr void ser(S& s, const std::pair<A, B>& v) { s.put('{'); ser(s, v.first); s.put(','); ser(s, v.second); s.put('}'); }
template <class S, class T>
constexpr void ser(S& s, const std::vector<T>& v)
{
	s.put('[');
	for (std::size_t i = 0; i < v.size(); i++) { if (i) s.put(','); ser(s, v[i]); }
	s.put(']');
}
template <class S, class T, std::size_t N>
constexpr void ser(S& s, const std::array<T, N>& v)
{
	s.put('A'); s.put('[');
	for (std::size_t i = 0; i < N; i++) { if (i) s.put(','); ser(s, v[i]); }
	s.put(']');
}
template <class S, class T>
constexpr void ser(S& s, const std::optional<T>& v)
{
	s.put('?');
	if (v) { s.put('('); ser(s, *v); s.put(')'); }
	else s.put('-');
}
template <class S, class... Ts>
constexpr void ser(S& s, const std::variant<Ts...>& v)
{
	s.put('V');
	if (v.valueless_by_exception()) { put_str(s, "valueless"); return; }
	put_num(s, static_cast<i64>(v.index()));
	s.put('(');
	std::visit([&](const auto& x) { ser(s, x); }, v);
	s.put(')');
}
template <class S, std::integral T>
constexpr void ser(S& s, const T& v) { s.put('i'); put_num(s, static_cast<i64>(v)); }
template <class S, int ID>
constexpr void ser(S& s, const Box<ID>& v) { s.put('B'); put_num(s, ID); s.put('('); put_hex(s, v.h); s.put(')'); }

// ---------------------------------------------------------------- callbacks
template <class... A>
constexpr u64 digest(const A&... a)
{
	DigestSink d;
	bool first = true;
	((first ? void(first = false) : d.put(','), ser(d, a)), ...);
	return d.h;
}
template <class... A>
constexpr char category()
{
	if constexpr (sizeof...(A) == 0) return '0';
	else
	{
		char c = 0;
		((c = c ? c : (std::is_lvalue_reference_v<A> ? (std::is_const_v<std::remove_reference_t<A>> ? 'c' : 'l') : (std::is_const_v<std::remove_reference_t<A>> ? 'k' : 'R'))), ...);
		return c;
	}
}
constexpr void log_event(char kind, int id, char cat, u64 dig)
{
	if (std::is_constant_evaluated()) return;
	bool on = alloc_on; alloc_on = false;           // the monitor's own memory is not the parser's
	st.events.push_back({ kind, id, cat, dig });
	if (st.hook) st.hook();
	alloc_on = on;
	if (st.throw_at > 0 && static_cast<long>(st.events.size()) == st.throw_at)
		throw Boom{ st.throw_at };
}

template <int ID> struct cap { template <class... A> constexpr Box<ID> operator()(A&&... a) const { u64 d = digest(a...); log_event('m', ID, category<A&&...>(), d); return { d }; } };
template <int ID> struct num { template <class... A> constexpr int operator()(A&&... a) const { u64 d = digest(a...); log_event('n', ID, category<A&&...>(), d); return static_cast<int>(d % 1000); } };
template <int ID> struct vd  { template <class... A> constexpr void operator()(A&&... a) const { u64 d = digest(a...); log_event('v', ID, category<A&&...>(), d); } };
template <int ID> struct idn { template <class A> constexpr std::remove_cvref_t<A> operator()(A&& a) const { u64 d = digest(a); log_event('d', ID, category<A&&>(), d); return std::forward<A>(a); } };
// the same view or list, but narrower or in another order
template <int ID, class A>
constexpr void cut_value(A& v)
{
	if constexpr (span_like<A>)
	{
		const auto n = v.size();
		if (n == 0) return;
		if constexpr (ID % 5 == 0) v = A{ v.data() + 1, n - 1 };
		else if constexpr (ID % 5 == 1) v = A{ v.data(), n - 1 };
		else if constexpr (ID % 5 == 2) v = A{ v.data(), std::size_t{ 1 } };
		else if constexpr (ID % 5 == 3) v = A{ v.data() + n, std::size_t{ 0 } };
		else if (n >= 2) v = A{ v.data() + 1, n - 2 };
	}
	else
	{
		const auto n = v.size();
		if (n < 2) return;
		if constexpr (ID % 5 == 0) { for (std::size_t i = 0; i < n / 2; i++) { auto t = v[i]; v[i] = v[n - 1 - i]; v[n - 1 - i] = t; } }
		else if constexpr (ID % 5 == 1) { auto t = v[0]; v[0] = v[1]; v[1] = t; }
		else if constexpr (ID % 5 == 2) v[n - 1] = v[0];
		else if constexpr (ID % 5 == 3) v[0] = v[n - 1];
		else v[n / 2] = v[n / 2 - 1];
	}
}
template <int ID> struct cut { template <class A> constexpr std::remove_cvref_t<A> operator()(A&& a) const { u64 d = digest(a); log_event('w', ID, category<A&&>(), d); std::remove_cvref_t<A> v(std::forward<A>(a)); cut_value<ID>(v); return v; } };
template <int ID, int K> struct flt { template <class... A> constexpr bool operator()(A&&... a) const { u64 d = digest(a...); log_event('f', ID, category<A&&...>(), d); return K == 0 ? true : K == 1 ? false : (d / 7 + ID) % K != 0; } };

template <int ID>
struct IBox
{
	u64 h = 0;
	constexpr IBox() = default;
	template <class... A>
	requires (sizeof...(A) >= 1 and not (sizeof...(A) == 1 and (std::same_as<std::remove_cvref_t<A>, IBox> and ...)))
	explicit constexpr IBox(A&&... a) : h(digest(a...)) { log_event('i', ID, category<A&&...>(), h); }
	constexpr bool operator==(const IBox&) const = default;
};
template <class S, int ID>
constexpr void ser(S& s, const IBox<ID>& v) { s.put('I'); put_num(s, ID); s.put('('); put_hex(s, v.h); s.put(')'); }

// instance-tracked values -------------------------------------------------------------
template <int ID, int Kind>
struct TokBase
{
	static constexpr bool safe = Kind < 3;
	long serial = 0;   // 0: empty / moved from
	TokBase* self;
	static void may_throw() noexcept(safe) { if constexpr (not safe) if (++st.tok_ops == st.tok_fail_at) throw Boom{ st.tok_ops }; }
	TokBase() : self(this) { may_throw(); ++st.tok_live; }
	explicit TokBase(long s) : serial(s), self(this) { ++st.tok_live; ++st.tok_made; }
	TokBase(const TokBase& o) : serial(o.serial), self(this) { o.check(); may_throw(); ++st.tok_live; ++st.tok_copies; }
	TokBase& operator=(const TokBase& o) { check(); o.check(); may_throw(); serial = o.serial; ++st.tok_copies; return *this; }
	TokBase(TokBase&& o) noexcept(safe) : serial(o.serial), self(this) { o.check(); may_throw(); o.serial = 0; ++st.tok_live; }
	TokBase& operator=(TokBase&& o) noexcept(safe) { check(); o.check(); may_throw(); if (this != &o) { serial = o.serial; o.serial = 0; } return *this; }
	~TokBase() { check(); self = nullptr; --st.tok_live; }
	void check() const noexcept { if (self != this) ++st.tok_bad; }
};
template <int ID> struct Tok<ID, 0> : TokBase<ID, 0> { using TokBase<ID, 0>::TokBase; };
template <int ID> struct Tok<ID, 1> : TokBase<ID, 1>
{
	using TokBase<ID, 1>::TokBase;
	Tok() = default;
	Tok(Tok&&) noexcept = default;
	Tok& operator=(Tok&&) noexcept = default;
};
template <int ID> struct Tok<ID, 2> : TokBase<ID, 2>
{
	using TokBase<ID, 2>::TokBase;
	Tok() = default;
	Tok(const Tok&) = default;
	Tok& operator=(const Tok&) = default;
};
// the same two, but every construction and assignment may throw
template <int ID> struct Tok<ID, 3> : TokBase<ID, 3>
{
	using TokBase<ID, 3>::TokBase;
	Tok() = default;
	Tok(Tok&&) = default;
	Tok& operator=(Tok&&) = default;
};
template <int ID> struct Tok<ID, 4> : TokBase<ID, 4>
{
	using TokBase<ID, 4>::TokBase;
	Tok() = default;
	Tok(const Tok&) = default;
	Tok& operator=(const Tok&) = default;
};
template <class S, int ID, int K>
constexpr void ser(S& s, const Tok<ID, K>& v) { s.put('T'); put_num(s, ID); s.put('('); put_num(s, v.serial); s.put(')'); }
template <int ID, int K> struct tok { template <class... A> Tok<ID, K> operator()(A&&... a) const { u64 d = digest(a...); log_event('t', ID, category<A&&...>(), d); return Tok<ID, K>(static_cast<long>(st.events.size())); } };
// gives back the token it is handed (takes ownership), so ownership passes through user code
template <int ID> struct pass { template <class A> std::remove_cvref_t<A> operator()(A&& a) const { u64 d = digest(a); log_event('p', ID, category<A&&>(), d); return std::forward<A>(a); } };

// recursive rules' result ----------------------------------------------------------------
// what a result may be made of; spelt out so that overload resolution on other types stays well-formed
template <class T> struct is_value : std::bool_constant<span_like<T> || std::integral<T>> {};
template <> struct is_value<Rec> : std::true_type {};
template <int I> struct is_value<Box<I>> : std::true_type {};
template <int I> struct is_value<IBox<I>> : std::true_type {};
template <int I, int K> struct is_value<Tok<I, K>> : std::true_type {};
template <class... Ts> struct is_value<std::tuple<Ts...>> : std::bool_constant<(is_value<Ts>::value && ...)> {};
template <class... Ts> struct is_value<std::variant<Ts...>> : std::bool_constant<(is_value<Ts>::value && ...)> {};
template <class A, class B> struct is_value<std::pair<A, B>> : std::bool_constant<is_value<A>::value && is_value<B>::value> {};
template <class T> struct is_value<std::vector<T>> : is_value<T> {};
template <class T> struct is_value<std::optional<T>> : is_value<T> {};
template <class T, std::size_t N> struct is_value<std::array<T, N>> : is_value<T> {};

struct Rec
{
	u64 h = 0;
	constexpr Rec() = default;
	template <class T>
	requires (not std::same_as<std::remove_cvref_t<T>, Rec> and is_value<std::remove_cvref_t<T>>::value)
	constexpr Rec(T&& t) : h(digest(t)) {}
};
template <class S, std::same_as<Rec> R>
constexpr void ser(S& s, const R& v) { s.put('R'); s.put('('); put_hex(s, v.h); s.put(')'); }

// ---------------------------------------------------------------- element types
enum class E8 : unsigned char {};
enum class E32 : int {};
struct St { int a; unsigned char b; constexpr auto operator<=>(const St&) const = default; };
// equality coarser than identity and than the order: only `==` may decide a match
struct Fi { int v; int tie; friend constexpr bool operator==(const Fi& a, const Fi& b) { return a.v == b.v; } friend constexpr auto operator<=>(const Fi& a, const Fi& b) { return a.v != b.v ? a.v <=> b.v : a.tie <=> b.tie; } };
// heterogeneous pair: grammar symbols and input elements of different types, with a lossy-looking equality
struct Gs { int v; constexpr auto operator<=>(const Gs&) const = default; };
struct Vs { long long hi; int v; };
constexpr bool operator==(const Gs& g, const Vs& v) { return g.v == v.v; }
constexpr bool operator==(const Vs& v, const Gs& g) { return g.v == v.v; }
// tracked element: counts comparisons and notices any access outside the live input
struct Trk
{
	int v;
	static void touch(const Trk* p) { ++st.cmps; char here; if (!st.sp_low || &here < st.sp_low) st.sp_low = &here; if (st.lo && (p < st.lo || p >= st.hi)) ++st.oob; }
	friend bool operator==(char g, const Trk& t) { touch(&t); return static_cast<int>(g) == t.v; }
	friend bool operator==(const Trk& t, char g) { touch(&t); return static_cast<int>(g) == t.v; }
};

// element that knows its own position, for callbacks during constant evaluation
struct Px
{
	int v; int idx;
	friend constexpr bool operator==(char g, const Px& t) { return static_cast<int>(g) == t.v; }
	friend constexpr bool operator==(const Px& t, char g) { return static_cast<int>(g) == t.v; }
};

template <class T> struct mk_impl { static constexpr T f(i64 c) { return static_cast<T>(c); } };
template <> struct mk_impl<St> { static constexpr St f(i64 c) { return St{ static_cast<int>(c >> 8), static_cast<unsigned char>(c & 255) }; } };
template <> struct mk_impl<Fi> { static constexpr Fi f(i64 c) { return Fi{ static_cast<int>(c & 0xffff), static_cast<int>(c >> 16) }; } };
template <> struct mk_impl<double> { static constexpr double f(i64 c) { return c == 99999 ? std::numeric_limits<double>::quiet_NaN() : c == 99998 ? -0.0 : static_cast<double>(c); } };
template <> struct mk_impl<float> { static constexpr float f(i64 c) { return c == 99999 ? std::numeric_limits<float>::quiet_NaN() : c == 99998 ? -0.0f : static_cast<float>(c); } };
template <> struct mk_impl<Gs> { static constexpr Gs f(i64 c) { return Gs{ static_cast<int>(c) }; } };
template <> struct mk_impl<Vs> { static constexpr Vs f(i64 c) { return Vs{ c * 1000003, static_cast<int>(c) }; } };
template <> struct mk_impl<Trk> { static constexpr Trk f(i64 c) { return Trk{ static_cast<int>(c) }; } };
template <> struct mk_impl<Px> { static constexpr Px f(i64 c) { return Px{ static_cast<int>(c), 0 }; } };
template <class T> constexpr T mk(i64 c) { return mk_impl<T>::f(c); }

// ---------------------------------------------------------------- per-grammar entry points
struct Real
{
	bool ok = false, threw = false;
	long boom = 0;
	bool bad_alloc = false;
	i64 off = -1, size = -1;      // remaining()
	std::string val;
	std::string note;             // contract breaches seen while reading the result
	long allocs = 0, cmps = 0, stack = 0;
	std::vector<Event> events;
	long tok_live = 0, tok_made = 0, tok_copies = 0, tok_bad = 0, tok_ops = 0, oob = 0;
	long leaked = 0;
};

struct Codec
{
	const char* name;
	std::size_t size, align;
	void (*fill)(void* dst, const i64* codes, std::size_t n);
	bool (*eq)(i64 g, i64 v);
	bool tracked;
};
template <class G, class V>
struct codec_for
{
	static void fill(void* dst, const i64* c, std::size_t n) { V* p = static_cast<V*>(dst); for (std::size_t i = 0; i < n; i++) new (p + i) V(mk<V>(c[i])); }
	static bool eq(i64 g, i64 v) { return static_cast<bool>(mk<G>(g) == mk<V>(v)); }
	static inline const Codec value{ "", sizeof(V), alignof(V), &fill, &eq, std::same_as<V, Trk> };
};

struct Case
{
	const char* id;
	const char* spec;
	const char* cpp;
	void (*parse)(const void*, std::size_t, Real&);
	void (*look)(const void*, std::size_t, Real&);
	const Codec* codec;
};
std::vector<Case>& cases();

// one evaluation made by the compiler
struct CxRes { bool ok = false; i64 off = 0, size = 0; u64 h = 0; bool lok = false; i64 loff = 0, lsize = 0; };
struct CxRow { const char* id; const i64* codes; std::size_t n; CxRes r; };
std::vector<CxRow>& cx_rows();
struct CxReg { CxReg(const CxRow& c) { cx_rows().push_back(c); } };
struct Reg { Reg(const Case& c) { cases().push_back(c); } };

void begin_window(Real& r, const void* base, std::size_t bytes);
void end_window(Real& r);

template <class Res, class V>
void read_result(Real& r, const Res& res, const V* b)
{
	r.ok = res.has_value();
	if (static_cast<bool>(res) != r.ok) r.note += "bool!=has_value ";
	auto rem = res.remaining();
	r.size = static_cast<i64>(rem.size());
	r.off = rem.data() == nullptr && b != nullptr ? -888888 : static_cast<i64>(rem.data() - b);
	if constexpr (not std::same_as<typename Res::value_type, void>)
	{
		if (r.ok)
		{
			StringSink s;
			ser(s, *res);
			r.val = std::move(s.s);
		}
	}
}

template <class P, class V, bool Look>
void run(const void* p, std::size_t n, Real& r)
{
	const V* b = static_cast<const V*>(p);
	std::span<const V> in(b, n);
	begin_window(r, p, n * sizeof(V));
	try
	{
		if constexpr (Look)
		{
			alloc_on = true;
			auto res = P::lookahead(in);
			alloc_on = false;
			read_result(r, res, b);
		}
		else
		{
			alloc_on = true;
			auto res = P::parse(in);
			alloc_on = false;
			read_result(r, res, b);
		}
	}
	catch (const Boom& e) { alloc_on = false; r.threw = true; r.boom = e.n; }
	catch (const std::bad_alloc&) { alloc_on = false; r.threw = true; r.bad_alloc = true; }
	end_window(r);
}

// the same evaluation during constant evaluation
template <class V>
struct CxSink : DigestSink
{
	const V* base;
	constexpr i64 off(const V* p) const { return p - base; }
};
template <class P, class V, std::size_t N>
consteval CxRes cx_eval(const i64 (&codes)[N + 1])
{
	constexpr bool positional = requires (V v) { v.idx; };
	V* buf = new V[N + (positional ? 1 : 0)];
	for (std::size_t i = 0; i < N; i++) buf[i] = mk<V>(codes[i]);
	if constexpr (positional)
	{
		buf[N] = mk<V>(N ? codes[0] : 97);      // a plausible continuation: looking at it changes the answer
		for (std::size_t i = 0; i <= N; i++) buf[i].idx = static_cast<int>(i);
	}
	CxRes r;
	{
		auto res = P::parse(std::span<const V>(buf, N));
		r.ok = res.has_value();
		r.off = res.remaining().data() - buf;
		r.size = static_cast<i64>(res.remaining().size());
		if constexpr (not std::same_as<typename decltype(res)::value_type, void>)
			if (res.has_value())
			{
				CxSink<V> s; s.base = buf;
				ser(s, *res);
				r.h = s.h;
			}
		auto l = P::lookahead(std::span<const V>(buf, N));
		r.lok = l.has_value();
		r.loff = l.remaining().data() - buf;
		r.lsize = static_cast<i64>(l.remaining().size());
	}
	delete[] buf;
	return r;
}

} // namespace vf
