// What a grammar yields does not depend on the type its values happen to have: every shape of grammar is run with a plain
// value type and with types that are awkward to hold (converting from anything, list-constructible, overloaded &, vector<bool>,
// optionals of optionals, ...), and has to show the same structure.
#include <k3/tok3n.h>
#include "canon.hpp"
using namespace k3::tok3n;

#ifndef PART
#define PART 0
#endif
#ifndef PARTS
#define PARTS 1
#endif

using Sp = std::remove_cvref_t<decltype(*"a"_all.parse(""))>;

static long live = 0, ill = 0, copies = 0;
struct Counted
{
	const Counted* self = this;
	Counted() { ++live; }
	Counted(const Counted& o) { o.check(); ++live; }
	Counted& operator=(const Counted& o) { check(); o.check(); return *this; }
	~Counted() { check(); self = nullptr; --live; }
	void check() const { if (self != this) ++ill; }
};

// ------------------------------------------------------------------ the plain type and the awkward ones
// each has make(char) for 'a' or 'b' and shows the character again; '.' is a default-constructed value
struct Plain { char c = '.'; };
template <class V> struct how;
#define HOW(T, MAKE, SHOW) template <> struct how<T> { static T make(char c) { (void)c; return MAKE; } static char show(const T& v) { (void)v; return SHOW; } };

HOW(Plain, Plain{ c }, v.c)

HOW(bool, c == 'b', v ? 'b' : 'a')
enum class En : short { none, a = 'a', b = 'b' };
HOW(En, static_cast<En>(c), v == En::none ? '.' : static_cast<char>(v))
inline const char txt_a[] = "a", txt_b[] = "b";
using CStr = const char*;
HOW(CStr, c == 'a' ? txt_a : txt_b, v == nullptr ? '.' : v == txt_a ? 'a' : v == txt_b ? 'b' : '?')
HOW(std::string, std::string(40, c), v.empty() ? '.' : v.size() == 40 ? v.back() : '?')
HOW(std::string_view, std::string_view(c == 'a' ? txt_a : txt_b), v.empty() ? '.' : v[0])
HOW(double, c == 'a' ? 1.5 : std::numeric_limits<double>::quiet_NaN(), v == 0 ? '.' : v == 1.5 ? 'a' : v != v ? 'b' : '?')

// holders whose own emptiness must not be taken for a parser's
HOW(std::optional<int>, c == 'a' ? std::optional<int>() : std::optional<int>(7), v ? 'b' : 'a')
HOW(std::optional<std::optional<bool>>, c == 'a' ? std::optional<std::optional<bool>>(std::in_place) : std::optional<std::optional<bool>>(std::in_place, false), !v ? '.' : *v ? 'b' : 'a')
HOW(std::vector<int>, c == 'a' ? std::vector<int>{ 1 } : std::vector<int>(3, 0), v.empty() ? '.' : v == std::vector<int>{ 1 } ? 'a' : v.size() == 3 ? 'b' : '?')
struct AnyOf { std::vector<std::any> xs; };
HOW(std::vector<std::any>, c == 'a' ? std::vector<std::any>(1, 5) : std::vector<std::any>(2, 5), v.size() == 0 ? '.' : v.size() == 1 && std::any_cast<int>(&v[0]) ? 'a' : v.size() == 2 && std::any_cast<int>(&v[0]) ? 'b' : '?')
HOW(std::any, std::any(c), !v.has_value() ? '.' : std::any_cast<char>(&v) ? *std::any_cast<char>(&v) : '?')
using Tup = std::tuple<int, char>;
HOW(Tup, (Tup{ 3, c }), std::get<1>(v) == 0 ? '.' : std::get<0>(v) == 3 ? std::get<1>(v) : '?')
using Single = std::tuple<char>;
HOW(Single, Single(c), std::get<0>(v) == 0 ? '.' : std::get<0>(v))
using Pr = std::pair<std::string, std::vector<char>>;
HOW(Pr, (Pr{ "x", { c } }), v.second.empty() ? '.' : v.first == "x" ? v.second.back() : '?')
using Arr = std::array<char, 2>;
HOW(Arr, (Arr{ c, c }), v[0] == 0 ? '.' : v[0] == v[1] ? v[0] : '?')
using Var = std::variant<std::monostate, char, int>;
HOW(Var, (c == 'a' ? Var(std::in_place_index<1>, c) : Var(std::in_place_index<2>, c)), v.index() == 0 ? '.' : v.index() == 1 ? std::get<1>(v) == 'a' ? 'a' : '?' : std::get<2>(v) == 'b' ? 'b' : '?')

// ownership
HOW(std::shared_ptr<char>, std::make_shared<char>(c), !v ? '.' : v.use_count() == 1 ? *v : '?')
HOW(std::unique_ptr<char>, std::make_unique<char>(c), !v ? '.' : *v)
struct Del { void operator()(char* p) const { delete p; } };
using Own = std::unique_ptr<char, Del>;
HOW(Own, Own(new char(c)), !v ? '.' : *v)
HOW(std::function<char()>, [c] { return c; }, !v ? '.' : v())

// greedy: takes anything
struct Greedy : Counted
{
	char c = '.'; int depth = 0;
	Greedy() = default;
	Greedy(char x, int) : c(x) {}
	template <class T> requires (!std::is_base_of_v<Greedy, std::remove_cvref_t<T>>) Greedy(T&&) : c('G') {}
	template <class T> requires (!std::is_base_of_v<Greedy, std::remove_cvref_t<T>>) Greedy& operator=(T&&) { c = 'H'; return *this; }
};
HOW(Greedy, Greedy(c, 0), v.c)
// list-constructible from itself: braces would wrap it
struct Listy : Counted
{
	char c = '.'; int wrapped = 0;
	Listy() = default;
	Listy(char x, int) : c(x) {}
	Listy(const Listy&) = default;
	Listy& operator=(const Listy&) = default;
	Listy(std::initializer_list<Listy> l) : c(l.size() == 1 ? 'L' : 'M') {}
};
HOW(Listy, Listy(c, 0), v.c)
// the operators people forget
struct Rude : Counted
{
	char c = '.';
	Rude* operator&() const = delete;
	template <class T> friend void operator,(const Rude&, T&&) = delete;
	template <class T> friend void operator,(T&&, const Rude&) = delete;
	bool operator!() const = delete;
	explicit operator bool() const = delete;
	template <class T> bool operator==(const T&) const = delete;
};
HOW(Rude, [&] { Rude r; r.c = c; return r; }(), v.c)
// size and alignment
struct alignas(64) Wide : Counted { char c = '.'; char pad[200] = {}; bool in_place() const { return reinterpret_cast<std::uintptr_t>(std::addressof(c)) % 64 == reinterpret_cast<std::uintptr_t>(&c) % 64 && reinterpret_cast<std::uintptr_t>(static_cast<const Counted*>(this)) % 64 == 0; } };
HOW(Wide, [&] { Wide w; w.c = c; return w; }(), v.in_place() ? v.c : '?')
struct Huge : Counted { std::array<char, 5000> cs; Huge() { cs.fill('.'); } };
HOW(Huge, [&] { Huge w; w.cs.fill(c); return w; }(), v.cs[0] == v.cs[4999] ? v.cs[0] : '?')
// moves and copies
struct Leaves : Counted     // a moved-from value says so
{
	char c = '.';
	Leaves() = default;
	Leaves(const Leaves& o) : Counted(o), c(o.c) { ++copies; }
	Leaves(Leaves&& o) noexcept : Counted(), c(o.c) { o.c = '-'; }
	Leaves& operator=(const Leaves& o) { c = o.c; ++copies; return *this; }
	Leaves& operator=(Leaves&& o) noexcept { if (this != &o) { c = o.c; o.c = '-'; } return *this; }
};
HOW(Leaves, [&] { Leaves l; l.c = c; return l; }(), v.c)
struct Throws : Counted     // moves that might throw, though they do not
{
	char c = '.';
	Throws() noexcept(false) {}
	Throws(const Throws& o) noexcept(false) : Counted(o), c(o.c) {}
	Throws(Throws&& o) noexcept(false) : Counted(), c(o.c) { o.c = '-'; }
	Throws& operator=(const Throws& o) noexcept(false) { c = o.c; return *this; }
	Throws& operator=(Throws&& o) noexcept(false) { if (this != &o) { c = o.c; o.c = '-'; } return *this; }
};
HOW(Throws, [&] { Throws l; l.c = c; return l; }(), v.c)
struct CopyOnly : Counted { char c = '.'; CopyOnly() = default; CopyOnly(const CopyOnly& o) : Counted(o), c(o.c) {} CopyOnly& operator=(const CopyOnly& o) { Counted::operator=(o); c = o.c; return *this; } };
HOW(CopyOnly, [&] { CopyOnly l; l.c = c; return l; }(), v.c)
struct AnyRef : Counted     // takes non-const lvalues of its own kind by a template, as careless wrappers do
{
	char c = '.';
	AnyRef() = default;
	AnyRef(const AnyRef&) = default;
	AnyRef(AnyRef&&) = default;
	AnyRef& operator=(const AnyRef&) = default;
	AnyRef& operator=(AnyRef&&) = default;
	template <class T> explicit AnyRef(T&) : c('&') {}
};
HOW(AnyRef, [&] { AnyRef l; l.c = c; return l; }(), v.c)
// a container of its own, whose elements are views as the library's are
struct Shelf : std::vector<Sp> { using std::vector<Sp>::vector; char c = '.'; };
HOW(Shelf, [&] { Shelf s; s.c = c; return s; }(), v.c)
struct Looks : Sp { char c = '.'; };
HOW(Looks, [&] { Looks s; s.c = c; return s; }(), v.c)
struct Last final { char c = '.'; private: int x = 0; };
HOW(Last, [&] { Last s; s.c = c; return s; }(), v.c)
struct Refs { std::reference_wrapper<const char> r; static constexpr char dot = '.', a = 'a', b = 'b'; Refs() : r(dot) {} explicit Refs(const char& x) : r(x) {} };
HOW(Refs, Refs(c == 'a' ? Refs::a : Refs::b), v.r.get())
// only for places that need no default value
struct NoDefault : Counted { const char c; explicit NoDefault(char x) : c(x) {} NoDefault(const NoDefault&) = default; NoDefault& operator=(const NoDefault&) = delete; };

// ------------------------------------------------------------------ rendering
template <class V> struct fn { V operator()(const Sp& s) const { return how<V>::make(s.front()); } };
template <class V> struct same_fn { V operator()(V&& v) const { return std::move(v); } };
template <class V> struct is_b { bool operator()(const V& v) const { return how<V>::show(v) == 'b'; } };
template <class V> struct Held { V v; Held() = default; explicit Held(V&& x) : v(std::move(x)) {} };
template <class V> struct Two { V a, b; Two() = default; Two(V&& x, V&& y) : a(std::move(x)), b(std::move(y)) {} };
template <class V> struct nothing { V operator()() const { return how<V>::make('b'); } };
template <class V> struct sink { static inline std::string seen; void operator()(V&& v) const { seen += how<V>::show(v); } };
template <class V> struct sink2 { void operator()(V&& v, V&& w) const { sink<V>::seen += how<V>::show(v); sink<V>::seen += how<V>::show(w); } };

template <class V, class T>
std::string draw(const T& t, const char* base)
{
	if constexpr (std::is_same_v<T, V>) return std::string("<") + how<V>::show(t) + ">";
	else if constexpr (std::is_same_v<T, Held<V>>) return std::string("H") + how<V>::show(t.v);
	else if constexpr (std::is_same_v<T, Two<V>>) return std::string("T") + how<V>::show(t.a) + how<V>::show(t.b);
	else if constexpr (h::is_tuple<T>::value) return std::apply([&](const auto&... x) { std::string s = "("; ((s += draw<V>(x, base) + " "), ...); return s + ")"; }, t);
	else if constexpr (h::is_variant<T>::value) return "#" + std::to_string(t.index()) + std::visit([&](const auto& x) { return draw<V>(x, base); }, t);
	else if constexpr (h::is_optional<T>::value) return t ? "?" + draw<V>(*t, base) : std::string("?-");
	else if constexpr (h::is_pair<T>::value) return "<" + draw<V>(t.first, base) + "," + draw<V>(t.second, base) + ">";
	else if constexpr (h::spanlike<T>) return "[" + (t.data() ? std::to_string(t.data() - base) : "") + "+" + std::to_string(t.size()) + "]";
	else if constexpr (requires { t.begin(); t.end(); })
	{
		std::string s = "{";
		for (const auto& x : t)
		{
			if constexpr (std::is_same_v<T, std::vector<bool>>) s += draw<V>(static_cast<bool>(x), base) + " ";
			else s += draw<V>(x, base) + " ";
		}
		return s + "}";
	}
	else { static_assert(sizeof(T) == 0, "a type this program does not expect"); return ""; }
}

template <class P, class V>
std::string look_at(std::string_view in)
{
	std::string s;
	sink<V>::seen.clear();
	{
		auto r = P::parse(in);
		s = r.has_value() ? "ok " : "fail ";
		if constexpr (!std::is_void_v<typename decltype(r)::value_type>) { if (r.has_value()) s += draw<V>(*r, in.data()); }
		s += " rem " + std::to_string(r.remaining().data() - in.data()) + "+" + std::to_string(r.remaining().size());
		// taken out, it is still the same
		if constexpr (!std::is_void_v<typename decltype(r)::value_type>) { if (r.has_value()) { auto v = *std::move(r); s += " moved " + draw<V>(v, in.data()); } }
	}
	auto l = P::lookahead(in);
	s += l.has_value() ? " | ok " : " | fail ";
	s += std::to_string(l.remaining().data() - in.data());
	if (!sink<V>::seen.empty()) s += " sink " + sink<V>::seen;
	return s;
}

// ------------------------------------------------------------------ the shapes
constexpr auto ab = "ab"_any;
template <class V> constexpr auto m = ab % map<fn<V>{}>;
template <class V> struct Rule : custom_parser<Rule<V>> { using result_type = V; static constexpr auto get_parser() { return ("("_ign >> m<V> >> ")"_ign) | m<V>; } };
template <class V> struct Many : custom_parser<Many<V>> { using result_type = std::vector<V>; static constexpr auto get_parser() { return *m<V>; } };
template <class V> struct Opt : custom_parser<Opt<V>> { using result_type = std::optional<V>; static constexpr auto get_parser() { return ~m<V>; } };
template <class V> struct Made : custom_parser<Made<V>> { using result_type = Held<V>; static constexpr auto get_parser() { return m<V>; } };
template <class V> struct Deep : custom_parser<Deep<V>> { using result_type = V; static constexpr auto get_parser() { return ("("_ign >> Deep<V>{} >> ")"_ign) | m<V>; } };

template <class V, class F>
void shapes(F&& f)
{
	f("value", m<V>);
	f("plus", +m<V>);
	f("star", *m<V>);
	f("maybe", ~m<V>);
	f("maybe-maybe", ~(~m<V> >> "c"_ign));
	f("exactly1", exactly<1>(m<V>));
	f("exactly3", exactly<3>(m<V>));
	f("exactly2-plus", exactly<2>(+m<V> >> "c"_ign));
	f("delimit", delimit(m<V>, ","_all));
	f("delimit-keep", delimit_keep(m<V>, ","_all));
	f("delimit-keep-values", delimit_keep(","_all, m<V>));
	f("delimit-keep-both", delimit_keep(m<V>, m<V>));
	f("nested-delimit", delimit(+m<V>, ","_ign));
	f("pair", m<V> >> m<V>);
	f("triple", m<V> >> ","_all >> m<V>);
	f("unwrapped", "("_ign >> m<V> >> ")"_ign);
	f("abandoned", (m<V> >> "c"_all) | (m<V> >> ","_ign) | m<V>);
	f("choice-first", m<V> | "c"_all);
	f("choice-last", "c"_all | (","_all >> "c"_all) | m<V>);
	f("choice-void", m<V> | "c"_ign);
	f("choice-void-first", "c"_ign | m<V>);
	f("choice-eps", (m<V> | eps) >> "c"_all);
	f("choice-many", +(m<V> | "c"_all));
	f("choice-of-shapes", (m<V> >> m<V>) | +(m<V> >> "c"_ign) | m<V> | "c"_all);
	f("choice-maybe", (~m<V> >> "c"_ign) | (","_ign >> +m<V>));
	f("optional-in-list", +(~m<V> >> "c"_all));
	f("list-of-lists", *(+m<V> >> ~(","_all)));
	f("complete", complete(+m<V>));
	f("named", m<V> % name<"x">);
	f("filter", m<V> % filter<is_b<V>{}>);
	f("filter-list", +(m<V> % filter<is_b<V>{}>));
	f("filter-choice", m<V> % filter<is_b<V>{}> | m<V> >> "c"_ign);
	f("identity", m<V> % map<same_fn<V>{}>);
	f("identity-list", +(m<V> % map<same_fn<V>{}>));
	f("into", m<V> % into<Held<V>>);
	f("into-list", *(m<V> % into<Held<V>>));
	f("apply-into", (m<V> >> m<V>) % apply_into<Two<V>>);
	f("apply-into-array", exactly<2>(m<V>) % apply_into<Two<V>>);
	f("sink", +(m<V> % map<sink<V>{}>));
	f("apply-sink", *((m<V> >> m<V>) % apply<sink2<V>{}>));
	f("from-nothing", +("a"_ign % map<nothing<V>{}>));
	f("rule", Rule<V>{});
	f("rule-list", delimit(Rule<V>{}, ","_ign));
	f("rule-many", Many<V>{} >> "c"_all);
	f("rule-optional", Opt<V>{} >> "c"_all);
	f("rule-converts", +(Made<V>{} >> ~("c"_all)));
	f("rule-deep", +Deep<V>{});
	f("ignored", ignore(+m<V>) >> ~("c"_all));
	if constexpr (std::is_copy_constructible_v<V>) f("defaulted", (ab % defaulted<V>) >> m<V>);
	else f("defaulted", (ab % defaulted<V>) >> m<V>);
}

static std::vector<std::string> texts;

template <class V>
void type(const char* what)
{
	std::map<std::string, std::vector<std::string>> ref;
	shapes<Plain>([&]<class P>(const char* n, P) { auto& v = ref[n]; for (auto& t : texts) v.push_back(look_at<P, Plain>(t)); });
	shapes<V>([&]<class P>(const char* n, P)
	{
		auto& want = ref[n];
		for (std::size_t i = 0; i < texts.size(); i++)
		{
			h::saw(what, std::string(n) + " " + texts[i], texts[i].size() > 1);
			const long before = live, wrong = ill, copied = copies;
			std::string got = look_at<P, V>(texts[i]), w = want[i];
			// some types cannot tell a default value apart from a real one
			if constexpr (std::is_same_v<V, bool> || std::is_same_v<V, std::optional<int>>) for (char& c : w) if (c == '.') c = 'a';
			h::expect(got == w, std::string("value:") + n + ":" + what, std::string(n) + " on \"" + texts[i] + "\" with values of type " + what + ": " + got + ", with plain values: " + w);
			h::expect(live == before, std::string("life:") + n + ":" + what, std::string(n) + " on \"" + texts[i] + "\" with values of type " + what + ": " + std::to_string(live - before) + " values outlive the result");
			h::expect(ill == wrong, std::string("life:") + n + ":" + what, std::string(n) + " on \"" + texts[i] + "\" with values of type " + what + ": a value that does not exist was used");
			h::expect(copies == copied, std::string("copy:") + n + ":" + what, std::string(n) + " on \"" + texts[i] + "\" with values of type " + what + ": " + std::to_string(copies - copied) + " movable values were copied");
		}
	});
}

// ------------------------------------------------------------------ two types that convert to one another
struct P1 { int n = 0; }; struct P2 { int n = 0; };
struct Base { int n = 0; }; struct Derived : Base { int m = 0; };
struct FromInt { int n = 0; FromInt() = default; FromInt(int x) : n(x + 1000) {} };
struct ToInt { int n = 0; operator int() const { return n + 1000; } };
template <class V> struct how2;
#define HOW2(T, MAKE, SHOW) template <> struct how2<T> { static T make() { return MAKE; } static int show(const T& v) { return SHOW; } };
HOW2(P1, P1{ 5 }, v.n)
HOW2(P2, P2{ 5 }, v.n)
HOW2(bool, true, v ? 5 : 0)
HOW2(int, 5, v)
HOW2(char, 5, v)
HOW2(long, 5, int(v))
HOW2(unsigned, 5, int(v))
HOW2(double, 5.5, v == 5.5 ? 5 : int(v * 100))
HOW2(float, 5.25f, v == 5.25f ? 5 : int(v * 100))
HOW2(CStr, txt_a, v == nullptr ? 0 : v == txt_a ? 5 : 999)
HOW2(std::string, "five!", int(v.size()))
HOW2(std::string_view, "five!", int(v.size()))
HOW2(std::any, 5, !v.has_value() ? 0 : std::any_cast<int>(&v) ? std::any_cast<int>(v) : 999)
HOW2(std::optional<int>, 5, v ? *v : 0)
HOW2(std::optional<std::string>, std::string("five!"), v ? int(v->size()) : 0)
HOW2(std::vector<int>, std::vector<int>(5, 1), int(v.size()))
HOW2(std::vector<bool>, std::vector<bool>(5, true), int(v.size()))
HOW2(Base, Base{ 5 }, v.n)
HOW2(Derived, [] { Derived d; d.n = 2; d.m = 3; return d; }(), v.n + v.m)
HOW2(FromInt, [] { FromInt d; d.n = 5; return d; }(), v.n)
HOW2(ToInt, [] { ToInt d; d.n = 5; return d; }(), v.n)
HOW2(Greedy, Greedy(5, 0), v.c == '.' ? 0 : v.c)
HOW2(Listy, Listy(5, 0), v.c == '.' ? 0 : v.c)
HOW2(En, En(5), int(v))
HOW2(std::shared_ptr<Base>, [] { auto p = std::make_shared<Base>(); p->n = 5; return p; }(), v ? v->n : 0)
HOW2(std::shared_ptr<Derived>, [] { auto p = std::make_shared<Derived>(); p->n = 5; return p; }(), v ? v->n : 0)
HOW2(std::function<int()>, [] { return 5; }, v ? v() : 0)
using Var2 = std::variant<int, std::string>;
HOW2(Var2, 5, v.index() == 0 ? std::get<0>(v) : 999)
using Tup2 = std::tuple<int, int>;
HOW2(Tup2, Tup2(2, 3), std::get<0>(v) + std::get<1>(v))
using Pr2 = std::pair<int, int>;
HOW2(Pr2, Pr2(2, 3), v.first + v.second)

template <class V> struct fn2 { V operator()(const Sp&) const { return how2<V>::make(); } };
template <class A, class B, class T>
std::string draw2(const T& t, const char* base)
{
	if constexpr (std::is_same_v<T, A>) return "A" + std::to_string(how2<A>::show(t));
	else if constexpr (std::is_same_v<T, B>) return "B" + std::to_string(how2<B>::show(t));
	else if constexpr (h::is_tuple<T>::value) return std::apply([&](const auto&... x) { std::string s = "("; ((s += draw2<A, B>(x, base) + " "), ...); return s + ")"; }, t);
	else if constexpr (h::is_variant<T>::value) return "#" + std::to_string(t.index()) + std::visit([&](const auto& x) { return draw2<A, B>(x, base); }, t);
	else if constexpr (h::is_optional<T>::value) return t ? "?" + draw2<A, B>(*t, base) : std::string("?-");
	else if constexpr (h::is_pair<T>::value) return "<" + draw2<A, B>(t.first, base) + "," + draw2<A, B>(t.second, base) + ">";
	else if constexpr (h::spanlike<T>) return "[" + (t.data() ? std::to_string(t.data() - base) : "") + "+" + std::to_string(t.size()) + "]";
	else
	{
		std::string s = "{";
		for (std::size_t i = 0; i < t.size(); i++)
		{
			if constexpr (std::is_same_v<T, std::vector<bool>>) s += draw2<A, B>(static_cast<bool>(t[i]), base) + " ";
			else s += draw2<A, B>(t[i], base) + " ";
		}
		return s + "}";
	}
}
template <class P, class A, class B>
std::string look2(std::string_view in)
{
	auto r = P::parse(in);
	std::string s = r.has_value() ? "ok " + draw2<A, B>(*r, in.data()) : "fail";
	s += " rem " + std::to_string(r.remaining().size());
	if (r.has_value()) { auto v = *std::move(r); s += " moved " + draw2<A, B>(v, in.data()); }
	return s + " look " + std::to_string(P::lookahead(in).remaining().size());
}
template <class A, class B> constexpr auto pa = "a"_all % map<fn2<A>{}>;
template <class A, class B> constexpr auto pb = "b"_all % map<fn2<B>{}>;
template <class A, class B> struct Either : custom_parser<Either<A, B>> { using result_type = std::variant<A, B>; static constexpr auto get_parser() { return pa<A, B> | pb<A, B>; } };
template <class A, class B> struct Both : custom_parser<Both<A, B>> { using result_type = std::tuple<A, B>; static constexpr auto get_parser() { return pa<A, B> >> pb<A, B>; } };
template <class A, class B, class F>
void shapes2(F&& f)
{
	constexpr auto a = pa<A, B>; constexpr auto b = pb<A, B>;
	f("a|b", a | b);
	f("b|a", b | a);
	f("a|b|a", (a >> "c"_ign) | b | a);
	f("(a|b)c", (a | b) >> "c"_all);
	f("+(a|b)", +(a | b));
	f("~(b|a)", ~(b | a) >> "c"_all);
	f("2(a|b)", exactly<2>(a | b));
	f("list", delimit(b | a, ","_ign));
	f("keep", delimit_keep(a, b));
	f("ab", a >> b);
	f("ab|ba", (a >> b) | (b >> a));
	f("+a|+b", (+a >> "c"_ign) | (+b >> "c"_ign) | b | a);
	if constexpr (!std::is_same_v<B, std::optional<A>>) f("~a|b", (~a >> "c"_ign) | b | "c"_all);
	f("void", a | b | "c"_ign);
	f("either", Either<A, B>{});
	f("either-list", +Either<A, B>{} >> ~("c"_all));
	f("both", +Both<A, B>{});
	f("nested", ((a | "c"_all) >> ","_ign) | ((b | a) >> "c"_ign) | (b | "("_all));
}
template <class A, class B>
void types(const char* what)
{
	std::map<std::string, std::vector<std::string>> ref;
	shapes2<P1, P2>([&]<class P>(const char* n, P) { auto& v = ref[n]; for (auto& t : texts) v.push_back(look2<P, P1, P2>(t)); });
	shapes2<A, B>([&]<class P>(const char* n, P)
	{
		auto& want = ref[n];
		for (std::size_t i = 0; i < texts.size(); i++)
		{
			h::saw(what, std::string(n) + " " + texts[i], texts[i].size() > 1);
			const long before = live;
			std::string got = look2<P, A, B>(texts[i]);
			h::expect(got == want[i], std::string("value:") + n + ":" + what, std::string(n) + " on \"" + texts[i] + "\" with values of types " + what + ": " + got + ", with plain values: " + want[i]);
			h::expect(live == before, std::string("life:") + n + ":" + what, std::string(n) + " on \"" + texts[i] + "\": values outlive the result");
		}
	});
}

int main(int argc, char** argv)
{
	h::begin(argc, argv);
	const std::string_view sym = "abc,()";
	texts.push_back("");
	for (std::size_t k = 0, from = 0, to = 1; k < 3; k++, from = to, to = texts.size()) for (std::size_t i = from; i < to; i++) for (char c : sym) texts.push_back(texts[i] + c);
	for (long k = 0; k < 250 * h::scale; k++)
	{
		std::string s;
		for (long n = h::below(k % 10 == 0 ? 60 : 12); n >= 0; n--) s += h::coin(60) ? "ab"[h::below(2)] : sym[std::size_t(h::below(long(sym.size())))];
		texts.push_back(s);
	}
	for (int n : { 4, 17, 33 }) for (const char* u : { "a", "ab", "a,", "ab,b", "ac", "bbc" }) { std::string s; for (int i = 0; i < n; i++) s += u; texts.push_back(s); s.pop_back(); texts.push_back(s); }
	for (int n : { 1, 2, 9, 40 }) texts.push_back(std::string(std::size_t(n), '(') + "a" + std::string(std::size_t(n), ')'));

#define T(N, ...) if constexpr (N % PARTS == PART) type<__VA_ARGS__>(#__VA_ARGS__)
	T(0, bool); T(1, En); T(2, CStr); T(3, std::string); T(4, std::string_view); T(5, double);
	T(6, std::optional<int>); T(7, std::optional<std::optional<bool>>); T(8, std::vector<int>); T(9, std::vector<std::any>); T(10, std::any);
	T(11, Tup); T(12, Single); T(13, Pr); T(14, Arr); T(15, Var);
	T(16, std::shared_ptr<char>); T(17, std::unique_ptr<char>); T(18, Own); T(19, std::function<char()>);
	T(20, Greedy); T(21, Listy); T(22, Rude); T(23, Wide); T(24, Huge); T(25, Leaves); T(26, Throws); T(27, CopyOnly); T(28, AnyRef);
	T(29, Shelf); T(30, Looks); T(31, Last); T(32, Refs);
#define T2(N, ...) if constexpr (N % PARTS == PART) types<__VA_ARGS__>(#__VA_ARGS__)
	T2(0, bool, CStr); T2(1, CStr, bool); T2(2, std::string, CStr); T2(3, CStr, std::string); T2(4, int, double); T2(5, double, int);
	T2(6, char, int); T2(7, long, int); T2(8, unsigned, char); T2(9, float, double); T2(10, std::string, std::string_view); T2(11, std::any, int);
	T2(12, int, std::any); T2(13, Base, Derived); T2(14, Derived, Base); T2(15, int, std::optional<int>); T2(16, std::optional<int>, int);
	T2(17, Greedy, int); T2(18, std::string, Greedy); T2(19, FromInt, int); T2(20, int, FromInt); T2(21, ToInt, int); T2(22, int, ToInt); T2(23, Listy, Greedy);
	T2(24, En, int); T2(25, std::shared_ptr<Base>, std::shared_ptr<Derived>); T2(26, std::shared_ptr<Derived>, std::shared_ptr<Base>);
	T2(27, std::function<int()>, bool); T2(28, Var2, int); T2(29, std::string, Var2); T2(30, Tup2, Pr2); T2(31, Pr2, Tup2); T2(32, std::vector<int>, std::vector<bool>);
	T2(33, std::optional<std::string>, std::string); T2(34, bool, std::string_view); T2(35, bool, std::shared_ptr<Base>); T2(36, FromInt, ToInt); T2(37, ToInt, FromInt);
	return h::end();
}
