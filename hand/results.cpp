// The objects a parse hands back: life cycle of results against a shadow, the interface of their spans against std::string_view.
#include <k3/tok3n.h>
#include "canon.hpp"
using namespace k3::tok3n;
using namespace std::literals;

// ------------------------------------------------------------------ values that watch their own life
struct Life
{
	static inline std::set<const void*> live;
	static inline long made = 0, misuse = 0;
	static void born(const void* p) { ++made; if (!live.insert(p).second) ++misuse; }
	static void died(const void* p) { if (!live.erase(p)) ++misuse; }
	static void used(const void* p) { if (!live.count(p)) ++misuse; }
};
struct Tok
{
	int v = -1;     // -2 when moved from
	Tok() { Life::born(this); }
	explicit Tok(int x) : v(x) { Life::born(this); }
	Tok(const Tok& o) : v(o.v) { Life::used(&o); Life::born(this); }
	Tok(Tok&& o) noexcept : v(o.v) { Life::used(&o); o.v = -2; Life::born(this); }
	Tok& operator=(const Tok& o) { Life::used(&o); Life::used(this); v = o.v; return *this; }
	Tok& operator=(Tok&& o) noexcept { Life::used(&o); Life::used(this); int t = o.v; if (this != &o) o.v = -2; v = t; return *this; }
	~Tok() { Life::died(this); }
	int get() const { Life::used(this); return v; }
};
struct MoveTok : Tok { using Tok::Tok; MoveTok() = default; MoveTok(const MoveTok&) = delete; MoveTok(MoveTok&&) = default; MoveTok& operator=(const MoveTok&) = delete; MoveTok& operator=(MoveTok&&) = default; };
struct NoDefault : Tok { NoDefault() = delete; explicit NoDefault(int x) : Tok(x) {} NoDefault(const NoDefault&) = default; NoDefault(NoDefault&&) = default; NoDefault& operator=(const NoDefault&) = default; NoDefault& operator=(NoDefault&&) = default; };
// not assignable
struct Fixed { const int v; explicit Fixed(int x) : v(x) {} int get() const { return v; } };

template <class T> int valof(const T& t)
{
	if constexpr (requires { t.get(); }) return t.get();
	else if constexpr (std::is_same_v<T, std::vector<Tok>>) { int s = 0; for (auto& x : t) s = s * 31 + x.get(); return s; }
	else if constexpr (std::is_same_v<T, std::any>) return t.has_value() ? 1 : 0;
	else if constexpr (h::is_optional<T>::value) return t ? int(*t) : -7;
	else return int(t);
}

template <class T> struct make_t { T operator()(auto&& sp) const { int n = int(sp.size()); if constexpr (std::is_same_v<T, std::vector<Tok>>) { T v; for (int i = 0; i < n; i++) v.emplace_back(i); return v; } else return T(n); } };

// one slot of the pool next to what it should be
template <class R> struct Slot { R r; bool has; int val; std::string_view rem; bool null; };

template <class T, bool copy, bool assign>
void lifecycle(const char* tn)
{
	static const std::string text = "aaaabaaab";
	constexpr auto p = join(+"a"_any) % map<make_t<T>{}>;
	using R = decltype(p.parse(text));
	std::string key = std::string("result:") + tn;
	std::size_t live0 = Life::live.size();
	Life::misuse = 0;
	{
		std::deque<Slot<R>> pool;
		std::vector<std::string> log;
		auto say = [&](std::string s) { log.push_back(s); if (log.size() > 12) log.erase(log.begin()); };
		auto trail = [&] { std::string s; for (auto& x : log) s += x + "; "; return s; };
		auto check = [&](std::size_t i)
		{
			auto& s = pool[i];
			bool ok = s.r.has_value() == s.has && bool(s.r) == s.has && s.r.remaining().size() == s.rem.size() && (s.null || s.r.remaining().data() == s.rem.data());
			if (ok && s.has && s.val != -2) ok = valof(*s.r) == s.val && valof(s.r.value()) == s.val && valof(*std::as_const(s.r)) == s.val;
			h::expect(ok, key, "slot " + std::to_string(i) + " is not what it was made from: expected " + (s.has ? "value " + std::to_string(s.val) : "no value") + ", remaining size " + std::to_string(s.rem.size()) + "; got " + (s.r.has_value() ? "value " + std::to_string(valof(*s.r)) : "no value") + ", " + std::to_string(s.r.remaining().size()) + " after " + trail());
		};
		auto expected_val = [&](std::size_t n) { return valof(make_t<T>{}(std::string_view(text).substr(0, n))); };
		auto fresh = [&](long from) -> Slot<R>
		{
			std::string_view in = std::string_view(text).substr(std::size_t(from));
			std::size_t n = in.find_first_not_of('a'); if (n == in.npos) n = in.size();
			say("parse from " + std::to_string(from));
			return { p.parse(in), n > 0, n > 0 ? expected_val(n) : 0, n > 0 ? in.substr(n) : in, false };
		};
		for (long step = 0; step < 700 * h::scale; step++)
		{
			long op = h::below(14);
			std::size_t i = pool.empty() ? 0 : std::size_t(h::below(long(pool.size()))), j = pool.empty() ? 0 : std::size_t(h::below(long(pool.size())));
			if (pool.empty() || op <= 1) pool.push_back(fresh(h::below(long(text.size()) + 1)));
			else if (op == 2) { say("default"); pool.push_back({ R{}, false, 0, {}, true }); }
			else if (op == 3) { if constexpr (copy) { say("copy " + std::to_string(i)); Slot<R> s{ pool[i].r, pool[i].has, pool[i].val, pool[i].rem, pool[i].null }; pool.push_back(std::move(s)); if (pool.back().has) pool.back().val = pool[i].val; } }
			else if (op == 4)
			{
				say("move " + std::to_string(i));
				bool has = pool[i].has; int v = pool[i].val; auto rem = pool[i].rem; bool nul = pool[i].null;
				R m(std::move(pool[i].r));
				if (has) pool[i].val = -2;      // engaged, moved from
				pool.push_back({ std::move(m), has, v, rem, nul });
			}
			else if (op == 5) { if constexpr (copy && assign) { say("assign " + std::to_string(i) + "=" + std::to_string(j)); pool[i].r = std::as_const(pool[j].r); pool[i].has = pool[j].has; pool[i].val = pool[j].val; pool[i].rem = pool[j].rem; pool[i].null = pool[j].null; } }
			else if (op == 6) { if constexpr (assign) { if (i != j) { say("move-assign " + std::to_string(i) + "=" + std::to_string(j)); pool[i].r = std::move(pool[j].r); pool[i].has = pool[j].has; pool[i].val = pool[j].val; pool[i].rem = pool[j].rem; pool[i].null = pool[j].null; if (pool[j].has) pool[j].val = -2; } } }
			else if (op == 7) { if constexpr (assign) { say("swap"); using std::swap; if (i != j) { swap(pool[i].r, pool[j].r); std::swap(pool[i].has, pool[j].has); std::swap(pool[i].val, pool[j].val); std::swap(pool[i].rem, pool[j].rem); std::swap(pool[i].null, pool[j].null); } } }
			else if (op == 8)
			{
				if (pool[i].has) { say("take " + std::to_string(i)); T t = h::coin() ? *std::move(pool[i].r) : std::move(pool[i].r).value(); h::expect(pool[i].val == -2 || valof(t) == pool[i].val, key, "the value taken out differs: " + trail()); pool[i].val = -2; }
				else
				{
					bool threw = false;
					try { (void)valof(pool[i].r.value()); } catch (const std::exception&) { threw = true; }
					h::expect(threw, key, "value() of a result without one: " + trail());
				}
			}
			else if (op == 9) { say("drop " + std::to_string(i)); if constexpr (assign) pool.erase(pool.begin() + long(i)); else if (i + 1 == pool.size()) pool.pop_back(); }
			else if (op == 10) { if constexpr (assign) { say("assign a parse to " + std::to_string(i)); auto f = fresh(h::below(long(text.size()) + 1)); pool[i].r = std::move(f.r); pool[i].has = f.has; pool[i].val = f.val; pool[i].rem = f.rem; pool[i].null = f.null; } }
			else if (op == 11) { if constexpr (copy && assign) { say("assign " + std::to_string(i) + " to itself"); auto& self = pool[i].r; self = std::as_const(pool[i].r); } }
			else if (op == 12) { if (pool[i].has) { say("look at constant rvalue " + std::to_string(i)); const T& a = *std::move(std::as_const(pool[i].r)); const T& b = std::move(std::as_const(pool[i].r)).value(); h::expect(&a == &b && &a == &*pool[i].r && &a == &pool[i].r.value(), key, "the ways to reach the value lead to different objects: " + trail()); static_assert(std::is_same_v<decltype(*std::move(pool[i].r)), T&&> && std::is_same_v<decltype(*pool[i].r), T&> && std::is_same_v<decltype(*std::as_const(pool[i].r)), const T&>); } }
			else if (op == 13) { if constexpr (assign) { if (pool[i].has) { say("replace the value in " + std::to_string(i)); std::size_t n = std::size_t(1 + h::below(4)); *pool[i].r = make_t<T>{}(std::string_view(text).substr(0, n)); pool[i].val = expected_val(n); } } }
			h::saw(std::string("life cycle of a result of ") + tn, std::to_string(op) + trail());
			if (!pool.empty()) { check(std::size_t(h::below(long(pool.size())))); check(pool.size() - 1); if (i < pool.size()) check(i); if (j < pool.size()) check(j); }
			if (pool.size() > 40) { if constexpr (assign) pool.erase(pool.begin(), pool.begin() + 20); else pool.clear(); }
		}
		for (std::size_t i = 0; i < pool.size(); i++) check(i);
	}
	h::expect(Life::live.size() == live0, key, "values outlive their results: " + std::to_string(Life::live.size() - live0));
	h::expect(Life::misuse == 0, key, "values destroyed twice or used after destruction: " + std::to_string(Life::misuse));
}

// ------------------------------------------------------------------ results without a value
void voids()
{
	constexpr auto p = "a"_ign;
	using R = decltype(p.parse(""sv));
	static const std::string text = "aab";
	alignas(R) unsigned char junk[sizeof(R)];
	for (int fill : { 0, 1, 0xff, 0x5a })
	{
		std::memset(junk, fill, sizeof junk);
		R* r = new (junk) R;          // default-initialised over old memory
		h::saw("default void result", std::to_string(fill));
		h::expect(!r->has_value() && !bool(*r), "result:void", "a default-constructed void result holds success");
		h::expect(r->remaining().size() == 0, "result:void", "a default-constructed void result has something remaining");
		r->~R();
	}
	std::vector<std::tuple<R, bool, std::size_t>> pool;
	for (int step = 0; step < 300; step++)
	{
		std::size_t k = std::size_t(h::below(4));
		auto in = std::string_view(text).substr(k);
		R r = h::coin() ? p.parse(in) : p.lookahead(in);
		bool ok = k < 2;
		pool.emplace_back(r, ok, ok ? in.size() - 1 : in.size());
		auto& [a, b, c] = pool[std::size_t(h::below(long(pool.size())))];
		if (h::coin()) { auto& [x, y, z] = pool[std::size_t(h::below(long(pool.size())))]; a = x; b = y; c = z; }
		h::saw("void result", std::to_string(step % 50));
		for (auto& [x, y, z] : pool) h::expect(x.has_value() == y && bool(x) == y && x.remaining().size() == z, "result:void", "a void result changed");
		if (pool.size() > 20) pool.clear();
	}
}

// ------------------------------------------------------------------ conversions between result types
template <class To, class P, class F>
void convert(const char* tn, P p, F val)
{
	using R2 = To;
	using Inner = decltype(p.parse(""sv));
	for (std::string text : { "aab", "b", "", "aaa", "ba" })
	{
		std::string_view in = text;
		for (int mode = 0; mode < 3; mode++)
		{
			h::saw(std::string("conversion to ") + tn, text + std::to_string(mode));
			auto from = p.parse(in);
			bool has = from.has_value();
			std::size_t rem = from.remaining().size();
			const char* data = from.remaining().data();
			bool ok; int v = -1; std::size_t rem2; const char* data2;
			auto look = [&](const R2& r2) { ok = r2.has_value() == has && bool(r2) == has; rem2 = r2.remaining().size(); data2 = r2.remaining().data(); if (r2.has_value()) v = val(*r2); };
			if (mode == 0) { R2 r2(std::as_const(from)); look(r2); h::expect(from.has_value() == has, std::string("convert:") + tn, "converting changed the source"); }
			else if (mode == 1) { R2 r2(std::move(from)); look(r2); }
			else { R2 r2 = p.parse(in); look(r2); }
			std::size_t n = text.find_first_not_of('a'); if (n == text.npos) n = text.size();
			h::expect(ok, std::string("convert:") + tn, "[" + text + "]: a " + (has ? "successful" : "failed") + " result became a " + (has ? "failed" : "successful") + " one");
			h::expect(rem2 == rem && data2 == data, std::string("convert:") + tn, "[" + text + "]: the remaining input changed");
			if (has && ok) h::expect(v == int(n), std::string("convert:") + tn, "[" + text + "]: value " + std::to_string(v) + " instead of " + std::to_string(n));
		}
	}
}

template <class T> struct Holder : custom_parser<Holder<T>>
{
	using result_type = T;
	static constexpr auto get_parser();
};
struct len { constexpr int operator()(auto&& s) const { return int(s.size()); } };
constexpr auto counted = join(+"a"_any) % map<len{}>;
template <class T> constexpr auto Holder<T>::get_parser() { return join(+"a"_any) % map<len{}>; }
struct Tagged { int n; bool from_int; Tagged(int x) : n(x), from_int(true) {} template <class T> requires (!std::is_same_v<std::remove_cvref_t<T>, Tagged>) Tagged(const T&) : n(-99), from_int(false) {} };

// bool and friends swallow anything: checked by presence rather than by value
template <class T> void greedy(const char* n, auto val)
{
	for (std::string text : { "aab", "b", "", "aaa", "ba" })
	{
		std::string_view in = text;
		auto want = counted.parse(in);
		auto got = Holder<T>::parse(in);
		auto look = Holder<T>::lookahead(in);
		h::saw(std::string("rule yielding ") + n, text);
		std::string k = std::string("convert:") + n;
		h::expect(got.has_value() == want.has_value() && bool(got) == want.has_value() && look.has_value() == want.has_value(), k, "[" + text + "]: success is not what the inner parser reported");
		h::expect(got.remaining().data() == want.remaining().data() && got.remaining().size() == want.remaining().size(), k, "[" + text + "]: remaining");
		if (got.has_value() && want.has_value()) h::expect(val(*got) == *want, k, "[" + text + "]: value " + std::to_string(val(*got)) + " instead of " + std::to_string(*want));
		using R2 = decltype(got);
		auto src = counted.parse(in);
		R2 a(std::as_const(src)), b(std::move(src));
		for (auto* x : { &a, &b })
		{
			h::expect(x->has_value() == want.has_value(), k, "[" + text + "]: converting construction changed success");
			if (x->has_value() && want.has_value()) h::expect(val(**x) == *want, k, "[" + text + "]: converting construction changed the value");
		}
	}
}

// ------------------------------------------------------------------ spans
template <class V, class S>
void span_ops(S s, std::basic_string_view<V> o, const std::string& id)
{
	using std::equal;
	auto k = [](const char* n) { return std::string("span:") + n; };
	h::saw("span", id, !o.empty());
	h::expect(s.data() == o.data() && s.size() == o.size() && s.empty() == o.empty(), k("shape"), id);
	h::expect(equal(s.begin(), s.end(), o.begin(), o.end()), k("iteration"), id);
	if (!o.empty()) h::expect(&s.front() == o.data(), k("front"), id);
	std::size_t n = 0; for (const V& x : s) { h::expect(&x == o.data() + n, k("range-for"), id); ++n; }
	h::expect(n == o.size(), k("range-for"), id);
	h::expect(std::ranges::data(s) == o.data() && std::ranges::size(s) == o.size(), k("ranges"), id);
	static_assert(std::ranges::contiguous_range<S> && std::ranges::sized_range<S>);
	for (int t = 0; t < 4; t++)
	{
		std::size_t a = std::size_t(h::below(long(o.size()) + 1)), c = std::size_t(h::below(long(o.size() - a) + 1));
		auto f = s.first(a); auto u = s.subspan(a); auto w = s.subspan(a, c);
		h::expect(f.data() == o.data() && f.size() == a, k("first"), id);
		h::expect(u.data() == o.data() + a && u.size() == o.size() - a, k("subspan"), id);
		h::expect(w.data() == o.data() + a && w.size() == c, k("subspan with a count"), id);
		h::saw("span slices", id + std::to_string(a) + "," + std::to_string(c), !o.empty());
	}
	S copy = s, assigned; assigned = copy;
	h::expect(copy.data() == o.data() && assigned.data() == o.data() && assigned.size() == o.size(), k("copy"), id);
	S none; h::expect(none.empty() && none.size() == 0, k("default"), id);
	std::basic_string_view<V> back = s;
	h::expect(back.data() == o.data() && back.size() == o.size(), k("conversion to string_view"), id);
}

// comparison: by content, in both directions, against everything it can be compared with
template <class S, class T>
void cmp(const S& s, const T& t, bool want, const char* what, const std::string& id)
{
	h::saw(std::string("comparison with ") + what, id + (want ? " equal" : " different"));
	std::string k = std::string("span:== ") + what;
	h::expect((s == t) == want, k, id);
	h::expect((s != t) == !want, k, id + " (!=)");
	h::expect((t == s) == want, k, id + " (reversed)");
	h::expect((t != s) == !want, k, id + " (reversed !=)");
}

template <class V> std::basic_string<V> word(long n, bool nul)
{
	std::basic_string<V> s;
	for (long i = 0; i < n; i++) s += nul && h::coin(15) ? V(0) : V("abc"[h::below(3)]);
	return s;
}

template <class V>
void span_for(const char* vn)
{
	constexpr auto all = join(*""_none);
	for (long it = 0; it < 150 * h::scale; it++)
	{
		auto a = word<V>(h::below(9), it % 3 == 0);
		auto b = a;
		int how = int(h::below(6));
		if (how == 1 && !b.empty()) b.back() = V('z'); else if (how == 2 && !b.empty()) b.front() = V('z'); else if (how == 3) b += V('a'); else if (how == 4 && !b.empty()) b.pop_back(); else if (how == 5) b = word<V>(h::below(9), false);
		bool eq = a == b;
		std::string id = std::string(vn) + " " + std::string(a.begin(), a.end()) + "|" + std::string(b.begin(), b.end());
		auto ra = all.parse(a), rb = all.parse(b);
		auto sa = *ra; auto sb = *rb;
		if constexpr (requires { typename std::char_traits<V>::char_type; }) span_ops<V>(sa, std::basic_string_view<V>(a), id);
		auto la = (*"z"_any).lookahead(a).remaining();
		span_ops<V>(la, std::basic_string_view<V>(a), id + " remaining");
		cmp(sa, sb, eq, "an output span", id);
		cmp(la, sb, eq, "a remaining span", id);
		cmp(sa, std::vector<V>(b.begin(), b.end()), eq, "a vector", id);
		cmp(sa, b, eq, "a string", id);
		cmp(sa, std::basic_string_view<V>(b), eq, "a string_view", id);
		if (b.find(V(0)) == b.npos) cmp(sa, b.c_str(), eq, "a pointer", id);
		std::array<V, 3> arr{ V('a'), V('b'), V('c') };
		cmp(sa, arr, std::equal(a.begin(), a.end(), arr.begin(), arr.end()), "an array", id);
		h::expect(std::equal_to<decltype(sa)>{}(sa, sb) == eq, "span:equal_to", id);
		h::expect(std::equal_to<>{}(sa, sb) == eq, "span:equal_to<>", id);
		// other element types compare element by element
		std::vector<int> ints(b.begin(), b.end());
		auto si = *decltype(*""_none)::parse(ints);
		auto whole = *all.parse(ints);
		cmp(sa, whole, eq, "a span of int", id);
	}
}

// views of one text, wherever they begin and end: only what they hold decides
template <class V>
void overlapping(const char* vn)
{
	constexpr auto all = join(*""_none);
	for (long it = 0; it < 60 * h::scale; it++)
	{
		const auto text = it % 4 == 0 ? std::basic_string<V>(std::size_t(1 + h::below(8)), V('a')) : word<V>(1 + h::below(8), it % 3 == 0);
		const std::basic_string_view<V> sv = text;
		std::size_t n = text.size();
		for (int t = 0; t < 12; t++)
		{
			std::size_t a = std::size_t(h::below(long(n) + 1)), c = t % 3 ? a : std::size_t(h::below(long(n) + 1));
			std::size_t b = a + std::size_t(h::below(long(n - a) + 1)), d = t % 4 == 1 && b >= c ? b : c + std::size_t(h::below(long(n - c) + 1));
			auto x = sv.substr(a, b - a), y = sv.substr(c, d - c);
			bool eq = x == y;
			std::string id = std::string(vn) + " " + std::string(text.begin(), text.end()) + " [" + std::to_string(a) + "," + std::to_string(b) + ") [" + std::to_string(c) + "," + std::to_string(d) + ")";
			auto rx = all.parse(x), ry = all.parse(y);
			cmp(*rx, *ry, eq, "a view of the same text", id);
			cmp(*rx, y, eq, "a string_view of the same text", id);
			cmp(*rx, std::span<const V>(y), eq, "a std::span of the same text", id);
			auto lx = (*"z"_any).lookahead(x).remaining();
			cmp(lx, *ry, eq, "a view of the same text and what remains", id);
			cmp(*rx, *rx, true, "itself", id);
		}
	}
}

struct Wide { long hi; int v; constexpr auto operator<=>(const Wide&) const = default; };
inline bool operator==(int a, const Wide& b) { return a == b.v; }
inline bool operator==(const Wide& a, int b) { return a.v == b; }

// equality is that of the elements, also where an element differs from itself, or equals another
void elementwise()
{
	constexpr double nan = std::numeric_limits<double>::quiet_NaN();
	for (auto& d : { std::vector<double>{}, { 1.0 }, { nan }, { 1.0, nan }, { nan, 2.0 }, { -0.0 }, { 0.0, -0.0, 3.5 } })
	{
		std::vector<double> e = d;
		for (auto& x : e) if (x == 0.0) x = -x;
		std::vector<int> i; for (double x : d) i.push_back(x == x ? int(x) : 0);
		constexpr auto all = join(*none_of<7777.0>);
		auto a = *all.parse(d); auto b = *all.parse(e); auto c = *join(*none_of<7777>).parse(i);
		bool same = true, whole = true; for (double x : d) { same = same && x == x; whole = whole && x == double(int(x == x ? x : 0.5)); }
		std::string id; for (double x : d) id += std::to_string(x) + " ";
		cmp(a, a, same, "itself (double)", id);
		cmp(a, b, same, "a view of equal doubles", id);
		cmp(a, e, same, "a vector of equal doubles", id);
		cmp(a, c, same && whole, "a view of ints", id);
	}
	for (int it = 0; it < 40; it++)
	{
		std::vector<Wide> w; std::vector<int> i;
		for (long k = h::below(5); k > 0; k--) { i.push_back(int(h::below(3))); w.push_back({ h::below(2), i.back() }); }
		bool eq = true;
		if (!i.empty() && it % 2) { i.back() += 1; eq = false; }
		auto a = *join(*none_of<7777>).parse(w); auto b = *join(*none_of<7777>).parse(i);
		cmp(a, b, eq, "elements of a user's type", std::to_string(w.size()));
	}
}

void literals()
{
	constexpr auto all = join(*""_none);
	constexpr auto r = all.parse("abc");
	static_assert(r && *r == "abc" && "abc" == *r && *r != "abd" && !(*r == "ab") && *r != "abcd");
	static_assert(r.remaining() == "" && r.remaining().empty());
	constexpr auto e = all.parse("");
	static_assert(e && *e == "" && *e != "a");
	for (std::string s : { "", "a", "abc", "ab", "abcd", "abd", "cba" })
	{
		auto x = *all.parse(s);
		cmp(x, "abc", s == "abc", "a literal", s);
		cmp(x, "", s == "", "the empty literal", s);
		cmp(x, "a", s == "a", "a literal of one", s);
	}
}

int main(int argc, char** argv)
{
	h::begin(argc, argv);
	lifecycle<Tok, true, true>("a copyable type");
	lifecycle<MoveTok, false, true>("a move-only type");
	lifecycle<NoDefault, true, true>("a type without default constructor");
	lifecycle<std::vector<Tok>, true, true>("a vector");
	lifecycle<Fixed, true, false>("an unassignable type");
	lifecycle<int, true, true>("int");
	voids();
	auto id = [](const auto& x) { return int(x); };
	greedy<int>("int", id); greedy<long>("long", id); greedy<double>("double", id);
	greedy<std::optional<int>>("optional<int>", [](const auto& x) { return x.value_or(-5); });
	greedy<std::optional<std::optional<int>>>("optional<optional<int>>", [](const auto& x) { return x && *x ? **x : -5; });
	greedy<std::any>("any", [](const std::any& x) { auto* p = std::any_cast<int>(&x); return p ? *p : -5; });
	greedy<std::variant<int, std::string>>("variant", [](const auto& x) { auto* p = std::get_if<int>(&x); return p ? *p : -5; });
	greedy<std::variant<std::monostate, int>>("variant with monostate", [](const auto& x) { auto* p = std::get_if<1>(&x); return p ? *p : -5; });
	greedy<Tagged>("a type constructible from anything", [](const Tagged& x) { return x.n; });
	// a bool says only whether the count was not zero
	for (std::string text : { "aab", "b", "", "aaa", "ba" })
	{
		auto got = Holder<bool>::parse(text);
		bool want = counted.parse(text).has_value();
		h::saw("rule yielding bool", text);
		h::expect(got.has_value() == want && (!want || *got), "convert:bool", "[" + text + "]");
	}
	convert<decltype(Holder<long>::parse(""sv))>("long", counted, id);
	convert<decltype(Holder<double>::parse(""sv))>("double", counted, id);
	span_for<char>("char"); span_for<wchar_t>("wchar_t"); span_for<char32_t>("char32_t"); span_for<char8_t>("char8_t");
	overlapping<char>("char"); overlapping<char16_t>("char16_t"); overlapping<int>("int");
	elementwise();
	literals();
	return h::end();
}
