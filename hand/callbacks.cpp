// Every form a user's function can take: who is called, how often, with what, and what becomes of the value.
#include <k3/tok3n.h>
#include "canon.hpp"
using namespace k3::tok3n;

static std::vector<std::string> calls;
static void log(std::string s) { calls.push_back(std::move(s)); }
template <class S> std::string txt(const S& s) { return std::string(s.begin(), s.end()); }

// ------------------------------------------------------------------ the forms
using Sp = std::remove_cvref_t<decltype(*"a"_all.parse(""))>;          // what a basic parser yields
using Vec = std::vector<Sp>;

int free_len(Sp s) { log("free_len " + txt(s)); return int(s.size()); }
int free_cref(const Sp& s) { log("free_cref " + txt(s)); return int(s.size()) + 100; }
int free_rref(Sp&& s) { log("free_rref " + txt(s)); return int(s.size()) + 200; }
long free_vec(Vec v) { log("free_vec " + std::to_string(v.size())); return long(v.size()); }
long free_vec_rref(Vec&& v) { log("free_vec_rref " + std::to_string(v.size())); Vec w = std::move(v); return long(w.size()); }
void free_void(Sp s) { log("free_void " + txt(s)); }
int nullary() { log("nullary"); return 42; }
void nullary_void() { log("nullary_void"); }
int quick(Sp s) noexcept { log("quick " + txt(s)); return 5; }
bool is_ab(const Sp& s) { log("is_ab " + txt(s)); return txt(s) == "ab"; }
bool by_value(Sp s) { log("by_value " + txt(s)); return s.size() % 2 == 0; }
bool nullary_yes() { log("nullary_yes"); return true; }
bool nullary_no() { log("nullary_no"); return false; }
int truthy(const Sp& s) { log("truthy " + txt(s)); return s.size() == 2 ? 17 : 0; }
struct Verdict { bool b; constexpr explicit(false) operator bool() const { return b; } };
Verdict verdict(const Sp& s) { log("verdict " + txt(s)); return { s.size() != 1 }; }
bool vec_even(const Vec& v) { log("vec_even " + std::to_string(v.size())); return v.size() % 2 == 0; }

struct Generic { template <class T> constexpr std::size_t operator()(T&& t) const { if (!std::is_constant_evaluated()) log(std::string("generic ") + (std::is_lvalue_reference_v<T> ? "lvalue" : "rvalue") + (std::is_const_v<std::remove_reference_t<T>> ? " const" : "")); return t.size(); } };
struct Overloaded
{
	int operator()(const Sp& s) const { log("over span " + txt(s)); return 1; }
	int operator()(const Vec& v) const { log("over vec " + std::to_string(v.size())); return 2; }
	int operator()() const { log("over none"); return 3; }
};
struct Two { int operator()(Sp a, Sp b) const { log("two " + txt(a) + "/" + txt(b)); return int(a.size() * 10 + b.size()); } };
struct Three { template <class A, class B, class C> int operator()(A&& a, B&& b, C&& c) const { log("three"); static_assert(std::is_rvalue_reference_v<A&&> && std::is_rvalue_reference_v<B&&>); return int(a.size() * 100 + b.size() * 10 + c.size()); } };
struct TwoSame { bool operator()(const Sp& a, const Sp& b) const { log("same? " + txt(a) + "/" + txt(b)); return txt(a) == txt(b); } };
struct Var { int operator()(auto&&... xs) const { log("var " + std::to_string(sizeof...(xs))); return int(sizeof...(xs)); } };

// ------------------------------------------------------------------ values that say what happened to them
struct Box
{
	std::string s; int copies = 0, moves = 0;
	Box() : s("default") {}
	explicit Box(Sp x) : s(x.begin(), x.end()) {}
	Box(Sp a, Sp b) : s(txt(a) + "+" + txt(b)) {}
	Box(const Box& o) : s(o.s), copies(o.copies + 1), moves(o.moves) {}
	Box(Box&& o) noexcept : s(std::move(o.s)), copies(o.copies), moves(o.moves + 1) { o.s = "gone"; }
	Box& operator=(const Box& o) { s = o.s; copies = o.copies + 1; moves = o.moves; return *this; }
	Box& operator=(Box&& o) noexcept { s = std::move(o.s); copies = o.copies; moves = o.moves + 1; return *this; }
	int length() const { log("Box::length " + s); return int(s.size()); }
	std::string take() && { log("Box::take " + s); return std::move(s); }
	bool longer() const { log("Box::longer " + s); return s.size() > 1; }
	int size_member = 77;
	bool yes = true, no = false;
	std::string show() const { return "Box:" + s + (copies ? " copied " + std::to_string(copies) : ""); }
};
struct Unique
{
	std::unique_ptr<std::string> p;
	Unique() = default;     // a sequence starts from default values
	explicit Unique(Sp x) : p(std::make_unique<std::string>(x.begin(), x.end())) {}
	std::string get() && { log("Unique::get"); return *p; }
};
struct Aggregate3 { std::string s; Aggregate3(Sp a, Vec b, std::optional<Sp> c) : s(txt(a) + "|" + std::to_string(b.size()) + "|" + (c ? txt(*c) : "-")) {} };
struct Wrap { Unique u; explicit Wrap(Unique x) : u(std::move(x)) {} };

enum class Kind { x = 3, y = 9 };
struct Fixed { int a; char b; friend constexpr bool operator==(const Fixed&, const Fixed&) = default; };

// ------------------------------------------------------------------ running one form
struct Want { bool ok; std::size_t used; std::string val; std::vector<std::string> calls; };

template <class T> std::string val_of(const T& v)
{
	if constexpr (requires { v.show(); }) return v.show();
	else if constexpr (std::is_same_v<T, std::string>) return v;
	else if constexpr (std::is_same_v<T, Aggregate3>) return v.s;
	else if constexpr (std::is_arithmetic_v<T>) return std::to_string(v);
	else if constexpr (std::is_enum_v<T>) return std::to_string(int(v));
	else if constexpr (std::is_same_v<T, Fixed>) return std::to_string(v.a) + v.b;
	else if constexpr (requires { v.data(); }) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(*v.data())>, char>) return txt(v); else { std::string s = "{"; for (auto& x : v) s += val_of(x) + " "; return s + "}"; } }
	else return "?";
}

template <class P> void run(const char* name, P, const std::string& in, const Want& w)
{
	std::string id = std::string(name) + " on [" + in + "]", key = std::string("callback:") + name;
	calls.clear();
	auto l = P::lookahead(in);
	h::saw("lookahead past a callback", id, w.used > 0);
	h::expect(calls.empty(), key, id + ": lookahead called " + (calls.empty() ? "" : calls[0]));
	auto got = P::parse(in);
	h::saw(std::string("form ") + name, id, w.used > 0 || !w.calls.empty());
	auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + "; "; return s; };
	h::expect(calls == w.calls, key, id + ": called " + join(calls) + " instead of " + join(w.calls));
	h::expect(got.has_value() == w.ok, key, id + (w.ok ? ": failed" : ": succeeded"));
	std::size_t used = in.size() - got.remaining().size();
	h::expect(used == (w.ok ? w.used : 0) && got.remaining().data() == in.data() + used, key, id + ": consumed " + std::to_string(used));
	if constexpr (!std::is_void_v<typename decltype(got)::value_type>)
		if (got.has_value() && w.ok) { std::string v = val_of(*got); h::expect(v == w.val, key, id + ": value " + v + " instead of " + w.val); }
}

static std::string gen() { std::string s; long n = h::below(7); for (long i = 0; i < n; i++) s += "aabbc"[h::below(5)]; return s; }
static std::size_t lead(const std::string& s, const char* set) { std::size_t n = s.find_first_not_of(set); return n == s.npos ? s.size() : n; }

// "ab"_any repeated and joined: the span the callbacks are given
constexpr auto word = join(+"ab"_any);
constexpr auto many = +"ab"_any;
constexpr auto mute = ignore(+"ab"_any);


struct L : std::vector<std::string> { using vector::vector; L(std::string s) { push_back(std::move(s)); } L(const char* s) { push_back(s); } };
static std::string num(auto x) { return std::to_string(x); }

// on a word of a and b: what the value is, who is called, and whether it is accepted
struct Yes { bool operator()(auto&&...) const { return true; } };
template <class P, class Ok = Yes> void on_word(const char* name, P p, auto val, auto call, Ok ok = {})
{
	for (int i = 0; i < 40 * h::scale; i++)
	{
		std::string in = i == 0 ? "ab" : i == 1 ? "" : i == 2 ? "c" : i == 3 ? "a" : i == 4 ? "abbc" : gen();
		std::size_t n = lead(in, "ab");
		std::string w = in.substr(0, n);
		run(name, p, in, n ? Want{ ok(w), n, val(w), L(call(w)) } : Want{ false, 0, "", {} });
	}
}
template <class P, class Ok = Yes> void on_many(const char* name, P p, auto val, auto call, Ok ok = {})
{
	on_word(name, p, [&](auto& w) { return val(w.size()); }, [&](auto& w) { return L(call(w.size())); }, [&](auto& w) { return ok(w.size()); });
}
// on two letters
template <class P, class Ok = Yes> void on_pair(const char* name, P p, auto val, auto call, Ok ok = {})
{
	for (int i = 0; i < 40 * h::scale; i++)
	{
		std::string in = i == 0 ? "ab" : i == 1 ? "aa" : i == 2 ? "a" : gen();
		std::size_t n = lead(in, "ab");
		std::string a = in.substr(0, 1), b = n >= 2 ? in.substr(1, 1) : "";
		run(name, p, in, n >= 2 ? Want{ ok(a, b), 2, val(a, b), L(call(a, b)) } : Want{ false, 0, "", {} });
	}
}

struct Boom { int n; };
static int fuse = 0;
struct Fuse { int operator()(Sp s) const { log("fuse " + txt(s)); if (--fuse == 0) throw Boom{ 7 }; return int(s.size()); } };

static void throwing()
{
	constexpr auto item = "a"_any % map<Fuse{}>;
	constexpr auto p = *item;
	constexpr auto q = (item >> item >> "c"_all) | (item >> *item);
	constexpr auto r = delimit(item, "b"_ign) % filter<[](const std::vector<int>& v) { log("filter"); if (--fuse == 0) throw Boom{ 7 }; return v.size() != 2; }>;
	auto one = [](const char* name, auto p, const std::string& in)
	{
		calls.clear(); fuse = 0;
		auto base = p.parse(in);
		auto all = calls;
		for (std::size_t k = 1; k <= all.size(); k++)
		{
			calls.clear(); fuse = int(k);
			bool caught = false;
			try { auto res = p.parse(in); }
			catch (const Boom& b) { caught = b.n == 7; }
			catch (...) {}
			h::saw(std::string("throwing ") + name, in + num(k));
			h::expect(caught, std::string("callback:throw:") + name, "an exception from call " + num(k) + " on [" + in + "] did not reach the caller");
			h::expect(calls.size() == k && std::equal(calls.begin(), calls.end(), all.begin()), std::string("callback:throw:") + name, "calls around an exception from call " + num(k) + " on [" + in + "]");
			fuse = 0; calls.clear();
			auto again = p.parse(in);
			h::expect(again.has_value() == base.has_value() && again.remaining().size() == base.remaining().size() && calls == all, std::string("callback:throw:") + name, "a parse after an exception differs on [" + in + "]");
		}
	};
	for (int i = 0; i < 12 * h::scale; i++)
	{
		std::string in(std::size_t(h::below(6)), 'a');
		one("repetition", p, in); one("abandoned alternative", q, in);
		std::string d; for (long j = h::below(5); j >= 0; j--) { d += 'a'; if (j) d += 'b'; }
		one("delimited", r, d);
	}
}

// the same functions evaluated by the compiler
constexpr int ct_len(Sp s) { return int(s.size()); }
constexpr bool ct_even(const Vec& v) { return v.size() % 2 == 0; }
struct Pt { int x, y; constexpr Pt(Sp a, Sp b) : x(int(a.size())), y(int(b.size())) {} constexpr int sum() const { return x + y; } };
static void compile_time()
{
	static_assert(*(word % map<ct_len>).parse("abba") == 4);
	static_assert(*(word % map<[](Sp s) { return s.size() * 2; }>).parse("abba") == 8u);
	static_assert((many % filter<ct_even>).parse("abba") && !(many % filter<ct_even>).parse("abb"));
	static_assert(*((word >> "c"_any) % apply_into<Pt> % map<&Pt::sum>).parse("abbc") == 4);
	static_assert(*(word % constant<Fixed{ 4, 'q' }>).parse("a") == Fixed{ 4, 'q' });
	static_assert(*(mute % constant<9>).parse("a") == 9);
	static_assert(*(word % defaulted<int>).parse("a") == 0);
	static_assert(*(exactly<3>("ab"_any) % apply<[](auto... s) { return (s.size() + ...); }>).parse("aba") == 3u);
	h::saw("compile-time callbacks", "9");
}

int main(int argc, char** argv)
{
	h::begin(argc, argv);
	using S = std::string;
	const auto none = [](auto&&...) { return L{}; };
	// ---- map
	on_word("function", word % map<free_len>, [](auto& w) { return num(w.size()); }, [](auto& w) { return "free_len " + w; });
	on_word("address of function", word % map<&free_len>, [](auto& w) { return num(w.size()); }, [](auto& w) { return "free_len " + w; });
	on_word("const reference", word % map<free_cref>, [](auto& w) { return num(w.size() + 100); }, [](auto& w) { return "free_cref " + w; });
	on_word("rvalue reference", word % map<free_rref>, [](auto& w) { return num(w.size() + 200); }, [](auto& w) { return "free_rref " + w; });
	on_word("noexcept", word % map<quick>, [](auto&) { return S("5"); }, [](auto& w) { return "quick " + w; });
	on_word("lambda", word % map<[](Sp s) { log("lambda " + txt(s)); return int(s.size()) * 3; }>, [](auto& w) { return num(w.size() * 3); }, [](auto& w) { return "lambda " + w; });
	on_word("generic lambda", word % map<[](auto&& s) { log(std::is_rvalue_reference_v<decltype(s)> ? "rvalue " + txt(s) : "lvalue"); return S("<") + txt(s) + ">"; }>, [](auto& w) { return "<" + w + ">"; }, [](auto& w) { return "rvalue " + w; });
	on_word("generic object", map<Generic{}>(word), [](auto& w) { return num(w.size()); }, [](auto&) { return S("generic rvalue"); });
	on_word("overloaded object, span", word % map<Overloaded{}>, [](auto&) { return S("1"); }, [](auto& w) { return "over span " + w; });
	on_word("void function", word % map<free_void>, [](auto&) { return S(); }, [](auto& w) { return "free_void " + w; });
	on_word("function after function", word % map<free_len> % map<[](int n) { log("then " + num(n)); return n + 0.5; }>, [](auto& w) { return num(w.size() + 0.5); }, [](auto& w) { return L{ "free_len " + w, "then " + num(w.size()) }; });
	on_many("vector by value", many % map<free_vec>, [](auto n) { return num(n); }, [](auto n) { return "free_vec " + num(n); });
	on_many("vector by rvalue", many % map<free_vec_rref>, [](auto n) { return num(n); }, [](auto n) { return "free_vec_rref " + num(n); });
	on_many("overloaded object, vector", many % map<Overloaded{}>, [](auto) { return S("2"); }, [](auto n) { return "over vec " + num(n); });
	on_many("nullary", mute % map<nullary>, [](auto) { return S("42"); }, [](auto) { return S("nullary"); });
	on_many("nullary void", mute % map<nullary_void>, [](auto) { return S(); }, [](auto) { return S("nullary_void"); });
	on_many("overloaded object, nothing", mute % map<Overloaded{}>, [](auto) { return S("3"); }, [](auto) { return S("over none"); });
	on_many("nullary after void", many % map<[](const Vec& v) { log("drop " + num(v.size())); }> % map<nullary>, [](auto) { return S("42"); }, [](auto n) { return L{ "drop " + num(n), "nullary" }; });
	on_word("per element", +("ab"_any % map<free_len>), [](auto& w) { S s = "{"; for (char c : w) s += "1 "; return s + "}"; }, [](auto& w) { L l; for (char c : w) l.push_back(S("free_len ") + c); return l; });
	// ---- members, and values that can only be moved
	on_word("member function", word % into<Box> % map<&Box::length>, [](auto& w) { return num(w.size()); }, [](auto& w) { return "Box::length " + w; });
	on_word("rvalue member function", word % into<Box> % map<&Box::take>, [](auto& w) { return w; }, [](auto& w) { return "Box::take " + w; });
	on_word("move-only value", word % into<Unique> % map<&Unique::get>, [](auto& w) { return w; }, [](auto&) { return S("Unique::get"); });
	on_word("move-only value passed on", word % into<Unique> % into<Wrap> % map<[](Wrap&& w) { log("unwrap"); return std::move(w.u).get(); }>, [](auto& w) { return w; }, [](auto&) { return L{ "unwrap", "Unique::get" }; });
	on_word("move-only value filtered", word % into<Unique> % filter<[](const Unique& u) { log("look " + *u.p); return u.p->size() != 3; }> % map<&Unique::get>, [](auto& w) { return w; }, [](auto& w) { L l{ "look " + w }; if (w.size() != 3) l.push_back("Unique::get"); return l; }, [](auto& w) { return w.size() != 3; });
	on_word("move-only values repeated", +("ab"_any % into<Unique>) % map<[](std::vector<Unique> v) { log("all " + num(v.size())); S s; for (auto& u : v) s += *u.p; return s; }>, [](auto& w) { return w; }, [](auto& w) { return "all " + num(w.size()); });
	on_pair("move-only values side by side", (("ab"_any % into<Unique>) >> ("ab"_any % into<Unique>)) % apply<[](Unique a, Unique b) { log("pair"); return *a.p + *b.p; }>, [](auto& a, auto& b) { return a + b; }, [](auto&, auto&) { return S("pair"); });
	// ---- filter
	const auto self = [](auto& w) { return w; };
	on_word("filter function", word % filter<is_ab>, self, [](auto& w) { return "is_ab " + w; }, [](auto& w) { return w == "ab"; });
	on_word("filter by value", word % filter<by_value>, self, [](auto& w) { return "by_value " + w; }, [](auto& w) { return w.size() % 2 == 0; });
	on_word("filter returning int", word % filter<truthy>, self, [](auto& w) { return "truthy " + w; }, [](auto& w) { return w.size() == 2; });
	on_word("filter returning a class", word % filter<verdict>, self, [](auto& w) { return "verdict " + w; }, [](auto& w) { return w.size() != 1; });
	on_word("filter sees a const lvalue", word % filter<[](auto&& s) { log(std::is_lvalue_reference_v<decltype(s)> && std::is_const_v<std::remove_reference_t<decltype(s)>> ? "const lvalue" : "other"); return s.size() < 3; }>, self, [](auto&) { return S("const lvalue"); }, [](auto& w) { return w.size() < 3; });
	on_word("filter by member function", word % into<Box> % filter<&Box::longer>, [](auto& w) { return "Box:" + w; }, [](auto& w) { return "Box::longer " + w; }, [](auto& w) { return w.size() > 1; });
	on_word("filter by true member", word % into<Box> % filter<&Box::yes>, [](auto& w) { return "Box:" + w; }, none);
	on_word("filter by false member", word % into<Box> % filter<&Box::no>, [](auto& w) { return "Box:" + w; }, none, [](auto&) { return false; });
	on_word("two filters", word % filter<verdict> % filter<truthy>, self, [](auto& w) { L l{ "verdict " + w }; if (w.size() != 1) l.push_back("truthy " + w); return l; }, [](auto& w) { return w.size() == 2; });
	on_word("filter between maps", word % map<free_len> % filter<[](int n) { log("odd " + num(n)); return n % 2 == 1; }> % map<[](int n) { log("out"); return n * 7; }>, [](auto& w) { return num(w.size() * 7); }, [](auto& w) { L l{ "free_len " + w, "odd " + num(w.size()) }; if (w.size() % 2) l.push_back("out"); return l; }, [](auto& w) { return w.size() % 2 == 1; });
	on_many("filter of a vector", many % filter<vec_even> % map<free_vec>, [](auto n) { return num(n); }, [](auto n) { L l{ "vec_even " + num(n) }; if (n % 2 == 0) l.push_back("free_vec " + num(n)); return l; }, [](auto n) { return n % 2 == 0; });
	on_many("nullary filter, yes", mute % filter<nullary_yes>, [](auto) { return S(); }, [](auto) { return S("nullary_yes"); });
	on_many("nullary filter, no", mute % filter<nullary_no>, [](auto) { return S(); }, [](auto) { return S("nullary_no"); }, [](auto) { return false; });
	// ---- apply
	constexpr auto two = "ab"_any >> "ab"_any;
	on_pair("apply", two % apply<Two{}>, [](auto& a, auto& b) { return S("11"); }, [](auto& a, auto& b) { return "two " + a + "/" + b; });
	on_pair("apply to an array", exactly<2>("ab"_any) % apply<Two{}>, [](auto& a, auto& b) { return S("11"); }, [](auto& a, auto& b) { return "two " + a + "/" + b; });
	on_pair("apply a variadic", apply<Var{}>(two), [](auto& a, auto& b) { return S("2"); }, [](auto& a, auto& b) { return S("var 2"); });
	on_pair("apply around an ignored element", ("ab"_any >> ignore(~"z"_any) >> "ab"_any) % apply<Two{}>, [](auto& a, auto& b) { return S("11"); }, [](auto& a, auto& b) { return "two " + a + "/" + b; });
	on_pair("apply by rvalue", ("ab"_any >> "ab"_any >> *"z"_any) % apply<Three{}>, [](auto& a, auto& b) { return S("110"); }, [](auto& a, auto& b) { return S("three"); });
	on_pair("apply_filter", two % apply_filter<TwoSame{}> % apply<Two{}>, [](auto& a, auto& b) { return S("11"); }, [](auto& a, auto& b) { L l{ "same? " + a + "/" + b }; if (a == b) l.push_back("two " + a + "/" + b); return l; }, [](auto& a, auto& b) { return a == b; });
	on_pair("apply_filter on an array", exactly<2>("ab"_any) % apply_filter<TwoSame{}> % apply<Two{}>, [](auto& a, auto& b) { return S("11"); }, [](auto& a, auto& b) { L l{ "same? " + a + "/" + b }; if (a == b) l.push_back("two " + a + "/" + b); return l; }, [](auto& a, auto& b) { return a == b; });
	on_pair("apply_into", two % apply_into<Box>, [](auto& a, auto& b) { return "Box:" + a + "+" + b; }, none);
	on_pair("apply_into of three", (two % join >> *"z"_any >> ~"z"_any) % apply_into<Aggregate3>, [](auto& a, auto& b) { return a + b + "|0|-"; }, none);
	// ---- into, constant, defaulted
	on_word("into a string", word % into<S>, self, none);
	on_word("into a class", word % into<Box>, [](auto& w) { return "Box:" + w; }, none);
	
	on_word("constant of a class", word % constant<Fixed{ 4, 'q' }>, [](auto&) { return S("4q"); }, none);
	on_word("constant of an enumeration", constant<Kind::y>(word), [](auto&) { return S("9"); }, none);
	on_many("constant without a result", mute % constant<123>, [](auto) { return S("123"); }, none);
	on_word("defaulted class", word % defaulted<Box>, [](auto&) { return S("Box:default"); }, none);
	on_many("defaulted without a result", mute % defaulted<int>, [](auto) { return S("0"); }, none);
	on_word("constant hides nothing", word % map<free_len> % constant<5>, [](auto&) { return S("5"); }, [](auto& w) { return "free_len " + w; });
	on_word("ignored callback is not called", ignore(word % map<free_len>), [](auto&) { return S(); }, none);
	throwing();
	compile_time();
	return h::end();
}
