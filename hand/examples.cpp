// The bundled example applications against independent reference implementations.
// -DALGEBRA or -DJSON selects which one is included.
#include "hand.hpp"

#ifdef ALGEBRA
#include <algebraic/parser.h>
#include <algebraic/print.h>
#include <algebraic/evaluate.h>

// ------------------------------------------------------------------ reference: a recursive descent over the documented grammar
struct Node { char k; std::vector<Node> kids; std::string ops; std::string a, b, c; bool hb = false, hc = false; };   // e t f ( - n
struct Ref
{
	std::string_view s; std::size_t i = 0;
	void ws() { while (i < s.size() && std::string_view("\t\n\r ").find(s[i]) != std::string_view::npos) ++i; }
	std::size_t digits() { std::size_t n = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i; return i - n; }
	bool number(Node& n)
	{
		std::size_t b = i;
		n.k = 'n';
		if (!digits()) { i = b; return false; }
		n.a = s.substr(b, i - b);
		std::size_t m = i;
		if (i < s.size() && s[i] == '.') { ++i; if (digits()) { n.hb = true; n.b = s.substr(m + 1, i - m - 1); } else i = m; }
		m = i;
		if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; std::size_t x = i; if (i < s.size() && s[i] == '-') ++i; if (digits()) { n.hc = true; n.c = s.substr(x, i - x); } else i = m; }
		return true;
	}
	bool pow(Node& n)
	{
		std::size_t b = i;
		if (i < s.size() && s[i] == '(') { ++i; n.k = '('; n.kids.emplace_back(); ws(); if (chain(n.kids[0], 'e')) { ws(); if (i < s.size() && s[i] == ')') { ++i; return true; } } n = Node{}; i = b; return false; }
		if (i < s.size() && s[i] == '-') { ++i; n.k = '-'; n.kids.emplace_back(); ws(); if (chain(n.kids[0], 'e')) return true; n = Node{}; i = b; return false; }
		return number(n);
	}
	bool element(Node& n, char k) { std::size_t b = i; ws(); bool ok = k == 'e' ? chain(n, 't') : k == 't' ? chain(n, 'f') : pow(n); if (!ok) i = b; return ok; }
	bool chain(Node& n, char k)
	{
		n.k = k;
		std::string_view ops = k == 'e' ? "+-" : k == 't' ? "*/" : "^";
		n.kids.emplace_back();
		if (!element(n.kids[0], k)) { n.kids.clear(); return false; }
		for (;;)
		{
			std::size_t b = i;
			ws();
			if (i >= s.size() || ops.find(s[i]) == ops.npos) { i = b; return true; }
			char o = s[i++];
			Node x;
			if (!element(x, k)) { i = b; return true; }
			n.ops += o; n.kids.push_back(std::move(x));
		}
	}
	bool input(Node& n) { ws(); if (!chain(n, 'e')) return false; ws(); return i == s.size(); }
};

// one canonical form for both trees
static std::string show(const Node& n)
{
	if (n.k == 'n') return "n" + n.a + (n.hb ? "." + n.b : "") + (n.hc ? "e" + n.c : "") + ";";
	std::string r(1, n.k); r += "[";
	for (std::size_t i = 0; i < n.kids.size(); i++) { if (i && n.k != 'f') r += n.ops[i - 1]; r += show(n.kids[i]); }
	return r + "]";
}
static std::string show(const expr::result_type&);
static std::string show(const number::result_type& n) { return "n" + std::string(n.integer) + (n.decimal ? "." + std::string(*n.decimal) : "") + (n.exponent ? "e" + std::string(*n.exponent) : "") + ";"; }
static std::string show(const powterm::result_type& p)
{
	if (auto* b = std::get_if<0>(&p.data)) return "([" + show(b->data) + "]";
	if (auto* b = std::get_if<1>(&p.data)) return "-[" + show(b->data) + "]";
	return show(std::get<2>(p.data));
}
static std::string show(const factor::result_type& f) { std::string r = "f["; for (auto& x : f) r += show(x); return r + "]"; }
static std::string show(const term::result_type& t) { std::string r = "t["; if (t.second.size() + 1 != t.first.size()) return "?"; for (std::size_t i = 0; i < t.first.size(); i++) { if (i) r += t.second[i - 1]; r += show(t.first[i]); } return r + "]"; }
static std::string show(const expr::result_type& t) { std::string r = "e["; if (t.second.size() + 1 != t.first.size()) return "?"; for (std::size_t i = 0; i < t.first.size(); i++) { if (i) r += t.second[i - 1]; r += show(t.first[i]); } return r + "]"; }

struct TooBig {};
static bool has_exponent(const Node& n) { if (n.k == 'n') return n.hc; for (auto& x : n.kids) if (has_exponent(x)) return true; return false; }
// `power`: what a recorded finding computes instead (known_findings.txt)
static double value(const Node& n, bool power = false)
{
	if (n.k == 'n')
	{
		double v = std::strtod((n.a + (n.hb ? "." + n.b : "")).c_str(), nullptr);
		if (!n.hc) return v;
		errno = 0;
		long e = std::strtol(n.c.c_str(), nullptr, 10);
		if (errno || e > INT32_MAX || e < INT32_MIN) throw TooBig{};
		return power ? std::pow(v, int(e)) : v * std::pow(10.0, int(e));
	}
	if (n.k == '(') return value(n.kids[0], power);
	if (n.k == '-') return -value(n.kids[0], power);
	if (n.k == 'f') { double v = value(n.kids.back(), power); for (std::size_t i = n.kids.size() - 1; i-- > 0;) v = std::pow(value(n.kids[i], power), v); return v; }
	double v = value(n.kids[0], power);
	for (std::size_t i = 1; i < n.kids.size(); i++) { double x = value(n.kids[i], power); switch (n.ops[i - 1]) { case '+': v += x; break; case '-': v -= x; break; case '*': v *= x; break; default: v /= x; } }
	return v;
}
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }

static void draw(const Node& n, std::size_t d, std::string& o)
{
	std::string t(d, '\t');
	auto wrap = [&](const char* name, auto body) { o += t + name + " :\n" + t + "{\n"; body(); o += "\n" + t + "}"; };
	if (n.k == 'n') { o += t + "Number : " + n.a + (n.hb ? "." + n.b : "") + (n.hc ? "e" + n.c : ""); return; }
	if (n.k == '(') { wrap("Bracketed Expr", [&] { draw(n.kids[0], d + 1, o); }); return; }
	if (n.k == '-') { wrap("Negated Expr", [&] { draw(n.kids[0], d + 1, o); }); return; }
	wrap(n.k == 'e' ? "Expr" : n.k == 't' ? "Term" : "Factor", [&]
	{
		for (std::size_t i = 0; i < n.kids.size(); i++)
		{
			if (n.k == 'f') { o += std::string(d + 1, '\t') + "Powterm :\n" + std::string(d + 1, '\t') + "{\n"; draw(n.kids[i], d + 2, o); o += "\n" + std::string(d + 1, '\t') + "}"; }
			else draw(n.kids[i], d + 1, o);
			if (i + 1 == n.kids.size()) continue;
			o += ",\n";
			if (n.k != 'f') { char c = n.ops[i]; o += std::string(d + 1, '\t') + (c == '+' ? "<plus>" : c == '-' ? "<minus>" : c == '*' ? "<multiplied by>" : "<divided by>") + "\n"; }
		}
	});
}

static std::string gap() { std::string s; while (h::coin(20)) s += " \t\n\r"[h::below(4)]; return s; }
static std::string num()
{
	std::string s;
	do s += char('0' + h::below(10)); while (h::coin(30));
	if (h::coin(25)) { s += '.'; do s += char('0' + h::below(10)); while (h::coin(40)); }
	if (h::coin(15)) { s += h::coin() ? 'e' : 'E'; if (h::coin(40)) s += '-'; s += std::to_string(h::coin(90) ? h::below(30) : h::below(4000000000)); if (h::coin(5)) s += "00000000000"; }
	return s;
}
static std::string gen(int d)
{
	std::string s = gap();
	long n = 1; while (h::coin(35)) n++;
	for (long i = 0; i < n; i++)
	{
		if (i) s += gap() + "+-*/^"[h::below(5)] + gap();
		long k = d > 0 ? h::below(10) : 9;
		if (k < 3) s += "(" + gap() + gen(d - 1) + gap() + ")"; else if (k < 5) s += "-" + gap() + gen(d - 1); else s += num();
	}
	return s + gap();
}

static void one(const std::string& in, bool printed)
{
	Node n;
	Ref r{ in };
	bool ok = r.input(n);
	std::string want = ok ? show(n) : "";
	h::saw("algebraic", in, r.i > 0);
	auto got = input::parse(in);
	auto look = input::lookahead(in);
	h::expect(got.has_value() == ok && look.has_value() == ok, "algebra:accept", in + (ok ? " was rejected" : " was accepted"));
	h::expect(got.remaining().size() == (ok ? 0 : in.size()) && got.remaining().data() + got.remaining().size() == in.data() + in.size() && look.remaining().size() == got.remaining().size(), "algebra:remaining", in);
	// without the demand for completeness
	{
		Node m; Ref q{ in };
		bool part = q.chain(m, 'e');
		auto e = expr::parse(in);
		h::saw("algebraic prefix", in, q.i > 0);
		h::expect(e.has_value() == part && e.remaining().size() == in.size() - (part ? q.i : 0), "algebra:prefix", in + ": " + std::to_string(in.size() - e.remaining().size()) + " instead of " + std::to_string(part ? q.i : 0));
		if (part && e) h::expect(show(*e) == show(m), "algebra:prefix", in);
	}
	if (!ok || !got) return;
	h::saw("algebraic accepted", in);
	std::string tree = show(*got);
	h::expect(tree == want, "algebra:tree", in + ": " + tree + " instead of " + want);
	double v = 0, w = 0; bool tv = false, tw = false; std::string odd;
	try { w = value(n); } catch (TooBig) { tw = true; }
	if (tw)
	{
		// an exponent out of range is refused with an exception; in a child, because it may end the process
		static int tries = 0;
		if (++tries <= 12)
		{
			h::saw("algebraic exponent out of range", in);
			std::string r = h::aside([&]() -> std::string { try { return std::to_string(evaluate(*got)); } catch (const std::exception&) { return "refused"; } catch (...) { return "something that is no exception"; } });
			h::expect(r == "=refused", r == "died" || r.find("ended") == 0 ? "algebra:exponent-out-of-range-ends-the-process" : "algebra:throws", in + ": " + r);
		}
	}
	else
	{
		try { v = evaluate(*got); } catch (...) { tv = true; }
		h::expect(!tv, "algebra:throws", in);
		if (!tv && !same(v, w)) h::bad(has_exponent(n) && same(v, value(n, true)) ? "algebra:exponent-taken-as-power-of-the-number" : "algebra:value", in + ": " + std::to_string(v) + " instead of " + std::to_string(w));
	}
	if (printed)
	{
		std::ostringstream os;
		auto* old = std::cout.rdbuf(os.rdbuf());
		print(*got, 0);
		std::cout.rdbuf(old);
		std::string d; draw(n, 0, d);
		h::saw("algebraic printed", in);
		h::expect(os.str() == d, "algebra:print", in);
	}
}

int main(int argc, char** argv)
{
	h::begin(argc, argv);
	for (std::string s : { "", " ", "1", "-1", "--1", "1-", "1 - - 2", "(1)", "()", "(1", "1)", "3^3^3", "2^-1*3", "-2^2", "1+2-3+4", "4 ^ (2 + 4 * 6) + 1 * 3", "1.5e2", "1.", "1.e2", "1e", "1e-", "2e-3", "1e400", "1e99999999999", "0/0", "1/0", ".5", "1 2", "+1", "1e+2", "((((((((((1))))))))))", "10-2-3", "100/5/2", "2*3+4*5^2" }) one(s, true);
	// every string over a small alphabet
	const std::string abc = "1-(^)*+ e."; 
	for (long len = 0, total = 1; len <= (h::scale > 3 ? 6 : 5); len++, total *= long(abc.size()))
		for (long k = 0; k < total; k++)
		{
			if (len >= 5 && h::scale < 4 && k % 7 != long(h::seed % 7)) continue;
			std::string s; long x = k; for (long i = 0; i < len; i++) { s += abc[std::size_t(x % long(abc.size()))]; x /= long(abc.size()); }
			one(s, k % 64 == 0);
		}
	for (long i = 0; i < 1500 * h::scale; i++)
	{
		std::string s = gen(int(h::below(5)));
		if (s.size() > 3000) continue;
		one(s, s.size() < 400);
		if (h::coin(40) && !s.empty()) { s[std::size_t(h::below(long(s.size())))] = "1-(^)*+/ e.xE"[h::below(13)]; one(s, false); }
		if (h::coin(20) && !s.empty()) { s.resize(std::size_t(h::below(long(s.size())))); one(s, false); }
	}
	for (int d : { 10, 50, 70, 120 }) { one(std::string(std::size_t(d), '(') + "1" + std::string(std::size_t(d), ')'), d <= 70); one(std::string(std::size_t(d), '-') + "1", true); one(std::string(std::size_t(d), '(') + "1", false); }
	{ std::string s = "1"; for (int i = 0; i < 400; i++) s += "+*-/^"[i % 5] + std::to_string(i % 9 + 1); one(s, true); }
	// deeper than any indentation prepared in advance
	for (int d : { 150, 190, 230, 400 })
	{
		std::string in = std::string(std::size_t(d), '(') + "1" + std::string(std::size_t(d), ')');
		Node n; Ref r{ in }; r.input(n);
		std::string want; draw(n, 0, want);
		h::saw("algebraic printed, deep", std::to_string(d));
		std::string got = h::aside([&]() -> std::string { std::ostringstream os; std::cout.rdbuf(os.rdbuf()); auto p = input::parse(in); print(*p, 0); return std::to_string(h::fnv(os.str())); });
		if (got != "=" + std::to_string(h::fnv(want))) h::bad(d * 5 > 1024 ? "algebra:print-beyond-1024-levels" : "algebra:print", std::to_string(d) + " nested brackets: " + (got[0] == '=' ? "another text" : got));
	}
	// number is usable on its own, at compile time
	constexpr auto c = number::get_parser().parse("12.5e-3x");
	static_assert(c && (*c).integer == "12" && *(*c).decimal == "5" && *(*c).exponent == "-3" && c.remaining() == "x");
	return h::end();
}
#endif

#ifdef JSON
#define main json_main
#include <json/json.cpp>
#undef main

struct Val { char k = '0'; std::string s, a, b, c; bool hb = false, hc = false; std::vector<std::pair<std::string, Val>> kv; std::vector<Val> xs; };   // s n o a t f z
struct Ref
{
	std::string_view s; std::size_t i = 0;
	bool at(char c) const { return i < s.size() && s[i] == c; }
	void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t')) ++i; }
	static bool dig(char c) { return c >= '0' && c <= '9'; }
	bool str(std::string& o)
	{
		std::size_t b = i;
		if (!at('"')) return false;
		++i;
		for (;;)
		{
			if (i >= s.size()) break;
			if (s[i] == '"') { o = s.substr(b + 1, i - b - 1); ++i; return true; }
			if (s[i] != '\\') { ++i; continue; }
			if (i + 1 >= s.size()) break;
			char c = s[i + 1];
			if (std::string_view("\"\\/bfnrt").find(c) != std::string_view::npos) { i += 2; continue; }
			if (c != 'u' || i + 6 > s.size()) break;
			bool hex = true;
			for (int k = 2; k < 6; k++) hex = hex && std::isxdigit(static_cast<unsigned char>(s[i + std::size_t(k)]));
			if (!hex) break;
			i += 6;
		}
		i = b;
		return false;
	}
	bool num(Val& v)
	{
		std::size_t b = i;
		v.k = 'n';
		if (at('-')) ++i;
		if (i >= s.size() || !dig(s[i])) { i = b; return false; }
		if (s[i] == '0') ++i; else while (i < s.size() && dig(s[i])) ++i;
		v.a = s.substr(b, i - b);
		std::size_t m = i;
		if (at('.')) { ++i; std::size_t x = i; while (i < s.size() && dig(s[i])) ++i; if (i > x) { v.hb = true; v.b = s.substr(x, i - x); } else i = m; }
		m = i;
		if (at('e') || at('E')) { ++i; std::size_t x = i; if (at('+') || at('-')) ++i; std::size_t y = i; while (i < s.size() && dig(s[i])) ++i; if (i > y) { v.hc = true; v.c = s.substr(x, i - x); } else i = m; }
		return true;
	}
	bool pair(std::pair<std::string, Val>& p) { std::size_t b = i; ws(); if (str(p.first)) { ws(); if (at(':')) { ++i; if (val(p.second)) return true; } } i = b; return false; }
	bool obj(Val& v)
	{
		std::size_t b = i;
		v = Val{}; v.k = 'o';
		if (!at('{')) return false;
		++i;
		std::pair<std::string, Val> p;
		if (pair(p)) { v.kv.push_back(std::move(p)); for (;;) { std::size_t m = i; if (!at(',')) break; ++i; std::pair<std::string, Val> q; if (!pair(q)) { i = m; break; } v.kv.push_back(std::move(q)); } }
		else ws();
		if (at('}')) { ++i; return true; }
		i = b;
		return false;
	}
	bool arr(Val& v)
	{
		std::size_t b = i;
		v = Val{}; v.k = 'a';
		if (!at('[')) return false;
		++i;
		Val p;
		if (val(p)) { v.xs.push_back(std::move(p)); for (;;) { std::size_t m = i; if (!at(',')) break; ++i; Val q; if (!val(q)) { i = m; break; } v.xs.push_back(std::move(q)); } }
		else ws();
		if (at(']')) { ++i; return true; }
		i = b;
		return false;
	}
	bool word(std::string_view w) { if (s.substr(i, w.size()) != w) return false; i += w.size(); return true; }
	bool val(Val& v)
	{
		std::size_t b = i;
		v = Val{};
		ws();
		bool ok = false;
		if (str(v.s)) { v.k = 's'; ok = true; }
		else if (num(v)) ok = true;
		else if (obj(v)) ok = true;
		else if (arr(v)) ok = true;
		else if (word("true")) { v.k = 't'; ok = true; }
		else if (word("false")) { v.k = 'f'; ok = true; }
		else if (word("null")) { v.k = 'z'; ok = true; }
		if (!ok) { i = b; return false; }
		ws();
		return true;
	}
};

static std::string show(const Val& v)
{
	std::string r;
	switch (v.k)
	{
	case 's': return "s" + v.s + ";";
	case 'n': return "n" + v.a + (v.hb ? "." + v.b : "") + (v.hc ? "e" + v.c : "") + ";";
	case 'o': r = "{"; for (auto& [k, x] : v.kv) r += k + ":" + show(x) + ","; return r + "}";
	case 'a': r = "["; for (auto& x : v.xs) r += show(x) + ","; return r + "]";
	default: return std::string(1, v.k);
	}
}
static std::string show(const JsonValue::result_type& v);
static std::string show(const JsonObject::result_type& v) { std::string r = "{"; for (auto& [k, x] : v) r += k + ":" + show(x) + ","; return r + "}"; }
static std::string show(const JsonArray::result_type& v) { std::string r = "["; for (auto& x : v) r += show(x) + ","; return r + "]"; }
static std::string show(const number_type& n) { return "n" + std::string(n.integer) + (n.fraction ? "." + std::string(*n.fraction) : "") + (n.exponent ? "e" + std::string(*n.exponent) : "") + ";"; }
static std::string show(const JsonValue::result_type& v)
{
	switch (v.variant.index())
	{
	case 0: return "s" + std::get<0>(v.variant) + ";";
	case 1: return show(std::get<1>(v.variant));
	case 2: return show(std::get<2>(v.variant));
	case 3: return show(std::get<3>(v.variant));
	case 4: return std::get<4>(v.variant) ? "t" : "f";
	default: return "z";
	}
}

template <class P, class F> void against(const char* what, P, const std::string& in, F ref)
{
	Ref r{ in };
	auto [ok, want] = ref(r);
	auto got = P::parse(in);
	auto look = P::lookahead(in);
	std::size_t used = in.size() - got.remaining().size();
	h::saw(std::string("json ") + what + (ok ? " accepted" : " rejected"), in, in.size() > 1);
	std::string k = std::string("json:") + what;
	h::expect(got.has_value() == ok && look.has_value() == ok, k, in + (ok ? " was rejected" : " was accepted"));
	h::expect(used == (ok ? r.i : 0) && got.remaining().data() == in.data() + used && look.remaining().size() == got.remaining().size(), k, in + ": consumed " + std::to_string(used) + " instead of " + std::to_string(ok ? r.i : 0));
	if (ok && got) { std::string g; if constexpr (std::is_same_v<std::remove_cvref_t<decltype(*got)>, std::string>) g = *got; else g = show(*got); h::expect(g == want, k, in + ": " + g + " instead of " + want); }
}
static void one(const std::string& in)
{
	against("value", JsonValue{}, in, [](Ref& r) { Val v; bool ok = r.val(v); return std::pair(ok, ok ? show(v) : ""); });
	against("object", JsonObject{}, in, [](Ref& r) { Val v; bool ok = r.obj(v); return std::pair(ok, ok ? show(v) : ""); });
	against("array", JsonArray{}, in, [](Ref& r) { Val v; bool ok = r.arr(v); return std::pair(ok, ok ? show(v) : ""); });
	against("number", number, in, [](Ref& r) { Val v; bool ok = r.num(v); return std::pair(ok, ok ? show(v) : ""); });
	against("string", string, in, [](Ref& r) { std::string v; bool ok = r.str(v); return std::pair(ok, v); });
	// a document is a value with nothing after it
	{
		constexpr auto doc = complete(JsonValue{});
		Ref r{ in }; Val v;
		bool ok = r.val(v) && r.i == in.size();
		auto got = doc.parse(in);
		h::saw("json document", in, in.size() > 1);
		h::expect(got.has_value() == ok, "json:document", in + (ok ? " was rejected" : " was accepted"));
		if (ok && got) h::expect(show(*got) == show(v), "json:document", in);
	}
}

static std::string gap() { std::string s; while (h::coin(20)) s += " \n\r\t"[h::below(4)]; return s; }
static std::string jstr()
{
	static const std::vector<std::string> bits{ "a", "b", "Z", " ", "\\\"", "\\\\", "\\/", "\\b", "\\n", "\\u12aF", "\\uABCD", "{", "[", ",", ":", "\xc3\xa9", "\x7f", "1", std::string(1, '\0'), "\n" };
	std::string s = "\"";
	while (h::coin(60)) s += h::pick(bits);
	return s + "\"";
}
static std::string jnum()
{
	std::string s;
	if (h::coin(30)) s += '-';
	if (h::coin(20)) s += '0'; else { s += char('1' + h::below(9)); while (h::coin(40)) s += char('0' + h::below(10)); }
	if (h::coin(30)) { s += '.'; do s += char('0' + h::below(10)); while (h::coin(40)); }
	if (h::coin(30)) { s += h::coin() ? 'e' : 'E'; if (h::coin(60)) s += h::coin() ? '+' : '-'; do s += char('0' + h::below(10)); while (h::coin(40)); }
	return s;
}
static std::string gen(int d)
{
	long k = h::below(d > 0 ? 10 : 6);
	std::string s = gap();
	if (k == 0) s += "true"; else if (k == 1) s += "false"; else if (k == 2) s += "null"; else if (k == 3) s += jnum(); else if (k <= 5) s += jstr();
	else if (k <= 7) { s += "{" + gap(); bool first = true; while (h::coin(65)) { if (!first) s += ","; first = false; s += gap() + jstr() + gap() + ":" + gen(d - 1); } s += "}"; }
	else { s += "[" + gap(); bool first = true; while (h::coin(65)) { if (!first) s += ","; first = false; s += gen(d - 1); } s += "]"; }
	return s + gap();
}

int main(int argc, char** argv)
{
	h::begin(argc, argv);
	for (std::string s : { "", " ", "0", "-0", "01", "-", "1.", "1.5", ".5", "1e", "1e+", "1e+5", "-1234.5678e+9012", "\"\"", "\"", "\"\\\"", "\"\\u12\"", "\"\\u1234\"", "\"\\x\"", "{}", "{ }", "[]", "[ ]", "[1,]", "[,1]", "[1 2]", "{\"a\":1}", "{\"a\":1,}", "{\"a\"}", "{\"a\":}", "{a:1}", "[[[]]]", "[{}]", "true", "tru", "truefalse", "null ", " null", "nul", "[true,false,null]", "{\"a\":1,\"a\":2}", "[ , ]", "{ , }", "[1}", "{\"a\":[1,{\"b\":null}]}" }) one(s);
	for (const std::string abc : { "{}[]\":,1 ", "\"\\u1afn", "-01.eE+2", "[t" }) 
		for (long len = 0, total = 1; len <= (h::scale > 3 ? 6 : 4); len++, total *= long(abc.size()))
			for (long k = 0; k < total; k++) { std::string s; long x = k; for (long i = 0; i < len; i++) { s += abc[std::size_t(x % long(abc.size()))]; x /= long(abc.size()); } one(s); }
	for (long i = 0; i < 1500 * h::scale; i++)
	{
		std::string s = gen(int(h::below(5)));
		if (s.size() > 4000) continue;
		one(s);
		for (int m = 0; m < 2; m++) if (!s.empty())
		{
			std::string t = s;
			if (h::coin(40)) t[std::size_t(h::below(long(t.size())))] = "{}[]\":,\\1 u-.e"[h::below(14)];
			else if (h::coin()) t.resize(std::size_t(h::below(long(t.size()))));
			else t.insert(std::size_t(h::below(long(t.size()))), 1, "{}[]\":,\\1 u-.e"[h::below(14)]);
			one(t);
		}
	}
	for (int d : { 10, 60, 150 }) { one(std::string(std::size_t(d), '[') + std::string(std::size_t(d), ']')); std::string s; for (int i = 0; i < d; i++) s += "{\"k\":"; s += "1"; s += std::string(std::size_t(d), '}'); one(s); one(std::string(std::size_t(d), '[')); }
	{ std::string s = "["; for (int i = 0; i < 2000; i++) s += (i ? "," : "") + std::to_string(i); one(s + "]"); one(s); }
	static_assert((*number.parse("-1234.5678e+9012]")).integer == "-1234" && *(*number.parse("-1234.5678e+9012]")).exponent == "+9012");
	return h::end();
}
#endif
