// Every way of handing the same elements to parse() and lookahead() gives the same observation.
#include <k3/tok3n.h>
#include "canon.hpp"
using namespace k3::tok3n;
using h::spanlike;

struct join2 { template <class T> constexpr std::size_t operator()(const T& t) const { if constexpr (requires { t.size(); }) return t.size(); else return 7; } };
struct odd_t { constexpr bool operator()(const auto& t) const { return *std::get<0>(t).begin() == *std::get<1>(t).begin(); } };
constexpr odd_t odd{};

struct Nest : custom_parser<Nest> { using result_type = int; static constexpr auto get_parser(); };
struct depth_of { constexpr int operator()(std::optional<int> x) const { return 1 + x.value_or(0); } };
constexpr auto Nest::get_parser() { return ("("_ign >> ~Nest{} >> ")"_ign) % map<depth_of{}>; }

static constexpr auto parsers = std::tuple{
	"a"_any, "abc"_any, "a"_none, ""_none, "abc"_all, ""_all, "ab"_ign, any<"xyz"> >> none<"a">,
	~"ab"_all, +"ab"_any, *"abc"_any, *"ab"_all, join(+"ab"_any), join(*("ab"_any | "c"_all)), join(~"abc"_all),
	exactly<3>("abc"_any), exactly<3>("abc"_any) % join, delimit("ab"_any, ","_ign), delimit_keep(+"ab"_any, ","_any),
	complete(*"abc "_any), ("ab"_all | "a"_all | "abc"_all) >> *"c"_any, ("a"_any >> ignore("b"_any) >> "c"_any),
	join("a"_any >> ~"b"_any >> *"c"_any), (+"ab"_any) % map<join2{}>, ("abc"_any >> "abc"_any) % filter<odd>,
	"a"_all >> (("b"_all >> "c"_all) | "bb"_all | "c"_ign), ignore(*"ab"_any) >> !("ab"_any), Nest{}, *Nest{} >> ~"a"_any,
	join(*!"\0"_any) >> ~"\0"_all, *("abc"_none) % join, name<"n">("abc"_any) >> *("ab"_any >> ","_any)
};
static constexpr std::size_t NP = std::tuple_size_v<decltype(parsers)>;

#ifndef PART
#define PART 0
#define PARTS 1
#endif

template <class F> void each_parser(F f)
{
	[&]<std::size_t... I>(std::index_sequence<I...>) { ([&] { if constexpr (I % PARTS == PART) f(std::get<I>(parsers), I); }(), ...); }(std::make_index_sequence<NP>{});
}

// a contiguous range of the user's own, with its own iterator
template <class V> struct It
{
	using iterator_concept = std::contiguous_iterator_tag;
	using iterator_category = std::random_access_iterator_tag;
	using value_type = V; using element_type = const V; using difference_type = std::ptrdiff_t; using pointer = const V*; using reference = const V&;
	const V* p = nullptr;
	constexpr reference operator*() const { return *p; }
	constexpr pointer operator->() const { return p; }
	constexpr reference operator[](difference_type n) const { return p[n]; }
	constexpr It& operator++() { ++p; return *this; }
	constexpr It operator++(int) { return { p++ }; }
	constexpr It& operator--() { --p; return *this; }
	constexpr It operator--(int) { return { p-- }; }
	constexpr It& operator+=(difference_type n) { p += n; return *this; }
	constexpr It& operator-=(difference_type n) { p -= n; return *this; }
	friend constexpr It operator+(It a, difference_type n) { return { a.p + n }; }
	friend constexpr It operator+(difference_type n, It a) { return { a.p + n }; }
	friend constexpr It operator-(It a, difference_type n) { return { a.p - n }; }
	friend constexpr difference_type operator-(It a, It b) { return a.p - b.p; }
	friend constexpr auto operator<=>(It, It) = default;
};
template <class V> struct UserRange { const V* b; std::size_t n; It<V> begin() const { return { b }; } It<V> end() const { return { b + n }; } };
template <class V> struct UserRangeNonConst { V* b; std::size_t n; V* begin() { return b; } V* end() { return b + n; } };
template <class V> struct Derived : std::vector<V> { using std::vector<V>::vector; };

static std::string text(long n)
{
	static const char* words[] = { "a", "b", "c", "ab", "abc", ",", "a,", "(", ")", "(())", "x", "y", " ", "cc", "abab" };
	std::string s;
	while (long(s.size()) < n) { if (h::coin(4)) s += '\0'; else s += words[h::below(15)]; }
	s.resize(std::size_t(n));
	return s;
}

template <class V> constexpr bool is_character = std::same_as<V, char> || std::same_as<V, wchar_t> || std::same_as<V, char16_t> || std::same_as<V, char32_t> || std::same_as<V, char8_t> || std::same_as<V, signed char> || std::same_as<V, unsigned char>;

template <class V, class Form>
void same(const char* form, std::size_t pi, const std::string& id, const std::string& want, const Form& got)
{
	std::string g = got();
	h::expect(g == want, std::string("input:") + form + ":p" + std::to_string(pi), std::string(form) + " of [" + id + "]: " + g + "; as a std::span: " + want);
	++h::seen[form];
}

template <class V>
void run_on(const char* vn, const std::string& s)
{
	std::vector<V> src;
	src.reserve(s.size() + 1);   // an address to compare with even when empty
	src.assign(s.begin(), s.end());
	std::string id = std::string(vn) + " " + s;
	const V* b = src.data();
	std::size_t n = src.size();
	each_parser([&](auto p, std::size_t pi)
	{
		std::string want = h::observe(p, std::span<const V>(b, n), b);
		h::saw("std::span", std::to_string(pi) + " " + id, n > 0);
		same<V>("vector&", pi, id, want, [&] { return h::observe(p, src, b); });
		same<V>("const vector&", pi, id, want, [&] { return h::observe(p, std::as_const(src), b); });
		same<V>("span of mutable", pi, id, want, [&] { return h::observe(p, std::span<V>(src), b); });
		same<V>("derived vector", pi, id, want, [&] { Derived<V> d; d.reserve(n + 1); d.assign(src.begin(), src.end()); return h::observe(p, d, static_cast<const V*>(d.data())); });
		same<V>("user range", pi, id, want, [&] { UserRange<V> u{ b, n }; return h::observe(p, u, b); });
		same<V>("user range, not iterable when const", pi, id, want, [&] { UserRangeNonConst<V> u{ src.data(), n }; return h::observe(p, u, b); });
		same<V>("middle of a bigger buffer", pi, id, want, [&]
		{
			std::vector<V> big(n + 20, V('a'));
			std::copy(src.begin(), src.end(), big.begin() + 10);
			return h::observe(p, std::span<const V>(big).subspan(10, n), static_cast<const V*>(big.data() + 10));
		});
		// what a parse leaves behind and what it returns are inputs themselves
		same<V>("remaining() of an empty parse", pi, id, want, [&] { return h::observe(p, decltype(*"z"_any)::parse(src).remaining(), b); });
		same<V>("the span of another result", pi, id, want, [&] { auto whole = join(*""_none).parse(src); return h::observe(p, *whole, b); });
		if (n >= 2)
		{
			std::size_t k = std::size_t(h::below(long(n)));
			std::string tail = h::observe(p, std::span<const V>(b + k, n - k), b + k);
			same<V>("suffix by subspan", pi, id + " from " + std::to_string(k), tail, [&] { return h::observe(p, decltype(*"z"_any)::parse(src).remaining().subspan(k), b + k); });
			std::string head = h::observe(p, std::span<const V>(b, k), b);
			same<V>("prefix by first", pi, id + " to " + std::to_string(k), head, [&] { return h::observe(p, decltype(*"z"_any)::parse(src).remaining().first(k), b); });
		}
		// continuing from remaining() is parsing the rest
		auto first = p.parse(src);
		auto rem = first.remaining();
		if (rem.size() < n)
		{
			const V* rb = b + (n - rem.size());
			std::string rest = h::observe(p, std::span<const V>(rb, rem.size()), rb);
			same<V>("remaining() of itself", pi, id, rest, [&] { return h::observe(p, rem, rb); });
		}
		// temporaries: only what does not refer to them
		auto tmp = p.lookahead(std::vector<V>(src));
		auto direct = p.lookahead(src);
		h::expect(tmp.has_value() == direct.has_value() && tmp.remaining().size() == direct.remaining().size(), "input:temporary:p" + std::to_string(pi), "a temporary vector of [" + id + "]");
		if constexpr (is_character<V>)
		{
			std::basic_string<V> str(src.begin(), src.end());
			const V* sb = str.data();
			same<V>("string&", pi, id, want, [&] { return h::observe(p, str, sb); });
			same<V>("const string&", pi, id, want, [&] { return h::observe(p, std::as_const(str), sb); });
			same<V>("string_view", pi, id, want, [&] { return h::observe(p, std::basic_string_view<V>(src.data(), n), b); });
			same<V>("const string_view&", pi, id, want, [&] { const std::basic_string_view<V> v(src.data(), n); return h::observe(p, v, b); });
			auto t2 = p.lookahead(std::basic_string<V>(str));
			h::expect(t2.has_value() == direct.has_value() && t2.remaining().size() == direct.remaining().size(), "input:temporary string:p" + std::to_string(pi), "a temporary string of [" + id + "]");
			// a pointer means the elements before the first zero
			std::size_t z = std::size_t(std::find(src.begin(), src.end(), V(0)) - src.begin());
			std::string upto = h::observe(p, std::span<const V>(b, z), b);
			const V* cp = str.c_str();
			same<V>("const pointer", pi, id, upto, [&] { return h::observe(p, cp, cp); });
			same<V>("const pointer rvalue", pi, id, upto, [&] { return h::observe(p, static_cast<const V*>(str.c_str()), cp); });
			same<V>("const pointer const", pi, id, upto, [&] { const V* const q = cp; return h::observe(p, q, q); });
		}
	});
}

// sizes known to the compiler
template <class V, std::size_t N>
void run_sized(const char* vn, const std::string& s)
{
	std::array<V, N> arr{};
	for (std::size_t i = 0; i < N; i++) arr[i] = V(s[i]);
	std::string id = std::string(vn) + " " + s;
	const V* b = arr.data();
	each_parser([&](auto p, std::size_t pi)
	{
		std::string want = h::observe(p, std::span<const V>(b, N), b);
		h::saw("std::span sized", std::to_string(pi) + " " + id, N > 0);
		same<V>("array&", pi, id, want, [&] { return h::observe(p, arr, b); });
		same<V>("const array&", pi, id, want, [&] { return h::observe(p, std::as_const(arr), b); });
		same<V>("span of fixed extent", pi, id, want, [&] { return h::observe(p, std::span<const V, N>(arr), b); });
		same<V>("span of fixed extent, mutable", pi, id, want, [&] { return h::observe(p, std::span<V, N>(arr), b); });
		if constexpr (N > 0 && !is_character<V>)
		{
			struct W { V a[N]; } w;
			for (std::size_t i = 0; i < N; i++) w.a[i] = arr[i];
			const W& cw = w;
			same<V>("C array", pi, id, want, [&] { return h::observe(p, w.a, static_cast<const V*>(w.a)); });
			same<V>("const C array", pi, id, want, [&] { return h::observe(p, cw.a, static_cast<const V*>(cw.a)); });
		}
		else if constexpr (N > 0)
		{
			// constant character arrays are read as literals: the last element is not part of the input, whatever it is
			const V last[] = { V(0), V('a'), V('b') };
			for (V end : last)
			{
				struct W { V a[N + 1]; };
				auto w = std::make_unique<W>();
				for (std::size_t i = 0; i < N; i++) w->a[i] = arr[i];
				w->a[N] = end;
				const W& cw = *w;
				same<V>("const character array, any last element", pi, id, want, [&] { return h::observe(p, cw.a, static_cast<const V*>(cw.a)); });
			}
			struct M { V a[N]; } m;
			for (std::size_t i = 0; i < N; i++) m.a[i] = arr[i];
			same<V>("mutable character array", pi, id, want, [&] { return h::observe(p, m.a, static_cast<const V*>(m.a)); });
		}
	});
}

// literals: also at compile time, and with zeros inside
template <std::size_t N>
void run_literal(const char (&lit)[N])
{
	std::string s(lit, N - 1);
	each_parser([&](auto p, std::size_t pi)
	{
		std::string want = h::observe(p, std::span<const char>(lit, N - 1), static_cast<const char*>(lit));
		h::saw("literal", std::to_string(pi) + " " + s, N > 1);
		same<char>("literal", pi, s, want, [&] { return h::observe(p, lit, static_cast<const char*>(lit)); });
	});
}
#define BOTH(L) do { run_literal(L); literal_ct<[] { return std::string_view(L, sizeof(L) - 1); }, [](auto p) { auto r = decltype(p)::parse(L); auto l = decltype(p)::lookahead(L); return std::tuple{ r.has_value(), r.remaining().size(), l.has_value(), l.remaining().size() }; }>(); } while (0)
template <auto sv, auto f>
void literal_ct()
{
	[&]<std::size_t... I>(std::index_sequence<I...>)
	{
		([&]
		{
			if constexpr (I % PARTS == PART) {
			constexpr auto p = std::get<I>(parsers);
			constexpr auto ct = f(p);
			auto r = p.parse(sv()); auto l = p.lookahead(sv());
			h::saw("literal at compile time", std::to_string(I) + " " + std::string(sv()), sv().size() > 0);
			h::expect(ct == std::tuple{ r.has_value(), r.remaining().size(), l.has_value(), l.remaining().size() }, "input:literal at compile time:p" + std::to_string(I), "literal [" + std::string(sv()) + "] at compile time");
			}
		}(), ...);
	}(std::make_index_sequence<NP - 1 - 4>{});
}

template <class V> void all_for(const char* vn)
{
	for (auto s : { "", "a", "abc", "ababab,b", "(()())a", "xyzzy", "cccc", "a,a,b,", "aab abc" }) run_on<V>(vn, s);
	using namespace std::string_literals;
	for (auto s : { "\0"s, "ab\0"s, "\0ab"s, "a\0b"s, "\0\0"s, "abc\0\0"s }) run_on<V>(vn, s);      // nulls are elements like any other
	run_sized<V, 1>(vn, "\0"s); run_sized<V, 3>(vn, "ab\0"s); run_sized<V, 4>(vn, "a\0b\0"s); run_sized<V, 3>(vn, "\0\0\0"s); run_sized<V, 4>(vn, "\0abc"s);
	for (long i = 0; i < 14 * h::scale; i++) run_on<V>(vn, text(h::below(18)));
	run_on<V>(vn, text(300 + h::below(900)));
	run_on<V>(vn, std::string(std::size_t(2000 + h::below(2000)), h::coin() ? 'a' : 'b'));
	run_sized<V, 0>(vn, ""); run_sized<V, 1>(vn, text(1)); run_sized<V, 3>(vn, "abc"); run_sized<V, 4>(vn, text(4)); run_sized<V, 7>(vn, text(7)); run_sized<V, 12>(vn, text(12));
}

#ifndef VARIANT
#define VARIANT 0
#endif

int main(int argc, char** argv)
{
	h::begin(argc, argv);
#if VARIANT == 0
	all_for<char>("char");
	BOTH(""); BOTH("a"); BOTH("abc"); BOTH("ab\0c"); BOTH("\0"); BOTH("aab"); BOTH("a,b,a"); BOTH("(())a"); BOTH("abcab cab");
	// empty inputs without storage
	each_parser([&](auto p, std::size_t pi)
	{
		std::string want;
		{ auto r = p.parse(std::string_view("")); auto l = p.lookahead(std::string_view("")); want = std::to_string(r.has_value()) + std::to_string(r.remaining().size()) + std::to_string(l.has_value()) + std::to_string(l.remaining().size()); }
		auto chk = [&](const char* form, const auto& in) { auto r = p.parse(in); auto l = p.lookahead(in); h::saw("no storage", std::string(form) + std::to_string(pi)); h::expect(want == std::to_string(r.has_value()) + std::to_string(r.remaining().size()) + std::to_string(l.has_value()) + std::to_string(l.remaining().size()), std::string("input:") + form + ":p" + std::to_string(pi), std::string("an empty ") + form); };
		chk("default string_view", std::string_view{});
		chk("default span", std::span<const char>{});
		chk("empty vector", std::vector<char>{});
		chk("empty array", std::array<char, 0>{});
	});
#elif VARIANT == 1
	all_for<wchar_t>("wchar_t"); all_for<char8_t>("char8_t"); 
#elif VARIANT == 2
	all_for<char32_t>("char32_t"); all_for<char16_t>("char16_t");
#elif VARIANT == 3
	all_for<int>("int"); all_for<signed char>("signed char");
#else
	all_for<unsigned char>("unsigned char"); all_for<long long>("long long");
#endif
	return h::end();
}
