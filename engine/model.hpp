// Executable reference semantics: a plain PEG interpreter over symbol codes.
// It knows nothing about templates, spans or C++ types; it is what the library is compared against.
#pragma once
#include "vf.hpp"
#include <deque>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

namespace vf::model {

struct Val
{
	enum K { Span, Tup, Pair, Vec, Arr, Opt, Var, Box, IBox, Int, Tok, Rec } k = Span;
	i64 off = 0, len = 0;    // Span;  len==0: off is the anchor, -1 for none
	i64 num = 0;             // ids, variant index, int value, serial
	u64 dig = 0;
	bool engaged = false;
	std::vector<Val> kids;
};

template <class S>
void ser(S& s, const Val& v)
{
	auto list = [&](char a, char b) { s.put(a); for (size_t i = 0; i < v.kids.size(); i++) { if (i) s.put(','); ser(s, v.kids[i]); } s.put(b); };
	switch (v.k)
	{
	case Val::Span: s.put('<'); if (v.len == 0) { if (v.off >= 0) put_num(s, v.off); } else { put_num(s, v.off); s.put(','); put_num(s, v.len); } s.put('>'); break;
	case Val::Tup: list('(', ')'); break;
	case Val::Pair: list('{', '}'); break;
	case Val::Vec: list('[', ']'); break;
	case Val::Arr: s.put('A'); list('[', ']'); break;
	case Val::Opt: s.put('?'); if (v.engaged) { s.put('('); ser(s, v.kids[0]); s.put(')'); } else s.put('-'); break;
	case Val::Var: s.put('V'); put_num(s, v.num); s.put('('); ser(s, v.kids[0]); s.put(')'); break;
	case Val::Box: s.put('B'); put_num(s, v.num); s.put('('); put_hex(s, v.dig); s.put(')'); break;
	case Val::IBox: s.put('I'); put_num(s, v.num); s.put('('); put_hex(s, v.dig); s.put(')'); break;
	case Val::Int: s.put('i'); put_num(s, v.num); break;
	case Val::Tok: s.put('T'); put_num(s, v.num); s.put('('); put_num(s, static_cast<i64>(v.dig)); s.put(')'); break;
	case Val::Rec: s.put('R'); s.put('('); put_hex(s, v.dig); s.put(')'); break;
	}
}
inline std::string str(const Val& v) { StringSink s; ser(s, v); return s.s; }
inline u64 dig(const Val& v) { DigestSink d; ser(d, v); return d.h; }

enum Kind { Any, None, All, Eps, Seq, Cho, May, Plus, Star, Exa, Del, Ign, Com, Joi, Map, Flt, Nam, Cus };
inline const char* kind_names[] = { "any", "none", "all", "eps", "seq", "cho", "may", "plus", "star", "exa", "del", "ign", "com", "joi", "map", "flt", "nam", "cus" };

struct Node
{
	Kind k;
	std::vector<i64> codes;
	std::vector<Node*> kids;
	std::vector<int> idx;       // Seq: void flags; Cho: variant indices (-1 void)
	bool unwrap = false, v0 = false, v1 = false, apply = false;
	long n = 0; int id = 0; int K = 0; char mk = 0;
	bool conv = false;
	Val def;
	int uid = 0;
};

struct Grammar
{
	std::vector<i64> alpha;
	std::vector<Node*> rules;
	Node* root = nullptr;
	bool is_void = false;
	int nodes = 0;
};

struct SpecReader
{
	std::istringstream in;
	Grammar g;
	explicit SpecReader(const std::string& s) : in(s) {}
	std::string tok() { std::string t; if (!(in >> t)) { fprintf(stderr, "bad spec: %s\n", in.str().c_str()); exit(3); } return t; }
	i64 num() { return std::strtoll(tok().c_str(), nullptr, 10); }
	Val defval()
	{
		std::string t = tok(); Val v;
		if (t == "S") { v.k = Val::Span; v.off = -1; }
		else if (t == "T") { v.k = Val::Tup; int n = int(num()); for (int i = 0; i < n; i++) v.kids.push_back(defval()); }
		else if (t == "P") { v.k = Val::Pair; v.kids.push_back(defval()); v.kids.push_back(defval()); }
		else if (t == "O") { v.k = Val::Opt; }
		else if (t == "L") { v.k = Val::Vec; }
		else if (t == "A") { v.k = Val::Arr; int n = int(num()); Val d = defval(); v.kids.assign(n, d); }
		else if (t == "V") { v.k = Val::Var; v.num = 0; v.kids.push_back(defval()); }
		else if (t == "B") { v.k = Val::Box; v.num = num(); }
		else if (t == "I") { v.k = Val::IBox; v.num = num(); }
		else if (t == "K") { v.k = Val::Tok; v.num = num(); }
		else if (t == "i") { v.k = Val::Int; }
		else if (t == "R") { v.k = Val::Rec; }
		else { fprintf(stderr, "bad default %s\n", t.c_str()); exit(3); }
		return v;
	}
	Node* node()
	{
		std::string t = tok();
		static std::deque<Node> pool;   // grammars live as long as the program
		Node* n = &pool.emplace_back();
		n->uid = g.nodes++;
		int ki = -1;
		for (int i = 0; i < 18; i++) if (t == kind_names[i]) ki = i;
		if (ki < 0) { fprintf(stderr, "bad node %s\n", t.c_str()); exit(3); }
		n->k = static_cast<Kind>(ki);
		auto kid = [&] { n->kids.push_back(node()); };
		switch (n->k)
		{
		case Any: case None: case All: { int c = int(num()); for (int i = 0; i < c; i++) n->codes.push_back(num()); break; }
		case Eps: break;
		case Seq: { int c = int(num()); n->unwrap = num(); for (int i = 0; i < c; i++) n->idx.push_back(int(num())); for (int i = 0; i < c; i++) kid(); break; }
		case Cho: { int c = int(num()); n->unwrap = num(); n->v0 = num(); for (int i = 0; i < c; i++) n->idx.push_back(int(num())); if (!n->v0) n->def = defval(); for (int i = 0; i < c; i++) kid(); break; }
		case May: case Plus: case Star: n->v0 = num(); kid(); break;
		case Exa: n->n = long(num()); n->v0 = num(); kid(); break;
		case Del: n->v0 = num(); n->v1 = num(); kid(); kid(); break;
		case Ign: case Com: case Joi: case Nam: kid(); break;
		case Map: n->mk = tok()[0]; n->id = int(num()); n->v0 = num(); n->apply = num(); kid(); break;
		case Flt: n->id = int(num()); n->K = int(num()); n->v0 = num(); n->apply = num(); kid(); break;
		case Cus: n->n = long(num()); n->conv = num(); break;
		}
		return n;
	}
	Grammar read()
	{
		g.is_void = num();
		int a = int(num());
		for (int i = 0; i < a; i++) g.alpha.push_back(num());
		int r = int(num());
		for (int i = 0; i < r; i++) g.rules.push_back(node());
		g.root = node();
		return std::move(g);
	}
};

struct Budget {};

struct Run
{
	const Grammar& g;
	const std::vector<i64>& in;
	bool (*eq)(i64, i64);
	std::vector<Event> events;
	long steps = 0, cmps = 0, max_steps = 200000, throw_at = 0;
	long wide = 0;                // comparisons when every set is scanned, and every literal compared, to its end
	int depth = 0, max_depth = 0;
	size_t furthest = 0;
	u64 path = fnv_init;          // digest of the decisions taken: distinct values are distinct behaviours
	long outcome[18][2] = {};

	Run(const Grammar& g_, const std::vector<i64>& i, bool (*e)(i64, i64)) : g(g_), in(i), eq(e) {}

	void ev(char k, int id, char cat, u64 d)
	{
		events.push_back({ k, id, cat, d });
		if (throw_at > 0 && long(events.size()) == throw_at) throw Boom{ throw_at };
	}

	static void leaves(const Val& v, std::vector<const Val*>& out)
	{
		if (v.k == Val::Span) out.push_back(&v);
		else for (auto& k : v.kids) leaves(k, out);
	}

	u64 args_digest(const Node* n, const Val& v)
	{
		if (n->v0) return fnv_init;
		DigestSink d;
		if (n->apply) { for (size_t i = 0; i < v.kids.size(); i++) { if (i) d.put(','); ser(d, v.kids[i]); } }
		else ser(d, v);
		return d.h;
	}

	static void cut(Val& v, int how)
	{
		if (v.k == Val::Span)
		{
			if (v.len == 0) return;
			if (how == 0) ++v.off, --v.len;
			else if (how == 1) --v.len;
			else if (how == 2) v.len = 1;
			else if (how == 3) v.off += v.len, v.len = 0;
			else if (v.len >= 2) ++v.off, v.len -= 2;
			return;
		}
		auto& k = v.kids;
		if (k.size() < 2) return;
		if (how == 0) std::reverse(k.begin(), k.end());
		else if (how == 1) std::swap(k[0], k[1]);
		else if (how == 2) { Val c = k.front(); k.back() = c; }
		else if (how == 3) { Val c = k.back(); k.front() = c; }
		else { Val c = k[k.size() / 2 - 1]; k[k.size() / 2] = c; }
	}

	bool eval(const Node* n, size_t& pos, Val* out, bool look)
	{
		if (++steps > max_steps) throw Budget{};
		if (++depth > max_depth) max_depth = depth;
		bool r = eval2(n, pos, out, look);
		--depth;
		outcome[n->k][r]++;
		path ^= u64(n->uid) * 2 + r; path *= 1099511628211ull;
		if (pos > furthest) furthest = pos;
		return r;
	}

	bool eval2(const Node* n, size_t& pos, Val* out, bool look)
	{
		const size_t start = pos;
		Val dummy;
		Val& o = out ? *out : dummy;
		switch (n->k)
		{
		case Any: case None:
		{
			if (pos >= in.size()) return false;
			bool found = false;
			wide += long(n->codes.size());
			for (i64 c : n->codes) { ++cmps; if (eq(c, in[pos])) { found = true; break; } }
			if (found != (n->k == Any)) return false;
			++pos;
			o.k = Val::Span; o.off = i64(start); o.len = 1;
			return true;
		}
		case All:
		{
			if (in.size() - pos < n->codes.size()) return false;
			wide += long(n->codes.size());
			for (size_t i = 0; i < n->codes.size(); i++) { ++cmps; if (!eq(n->codes[i], in[pos + i])) return false; }
			pos += n->codes.size();
			o.k = Val::Span; o.off = i64(start); o.len = i64(n->codes.size());
			return true;
		}
		case Eps: return true;
		case Seq:
		{
			if (!n->unwrap) o.k = Val::Tup, o.kids.clear();
			for (size_t i = 0; i < n->kids.size(); i++)
			{
				Val v;
				if (!eval(n->kids[i], pos, n->idx[i] ? nullptr : &v, look)) { pos = start; return false; }
				if (!n->idx[i]) { if (n->unwrap) o = std::move(v); else o.kids.push_back(std::move(v)); }
			}
			return true;
		}
		case Cho:
		{
			for (size_t i = 0; i < n->kids.size(); i++)
			{
				Val v;
				size_t p = start;
				if (eval(n->kids[i], p, n->idx[i] < 0 ? nullptr : &v, look))
				{
					pos = p;
					if (n->v0) return true;
					if (n->idx[i] < 0) o = n->def;
					else if (n->unwrap) o = std::move(v);
					else { o = Val{}; o.k = Val::Var; o.num = n->idx[i]; o.kids.push_back(std::move(v)); }
					return true;
				}
			}
			return false;
		}
		case May:
		{
			Val v;
			bool r = eval(n->kids[0], pos, n->v0 ? nullptr : &v, look);
			if (!n->v0) { o = Val{}; o.k = Val::Opt; o.engaged = r; if (r) o.kids.push_back(std::move(v)); }
			return true;
		}
		case Plus: case Star:
		{
			if (!n->v0) { o = Val{}; o.k = Val::Vec; }
			long count = 0;
			for (;;)
			{
				Val v;
				size_t before = pos;
				if (!eval(n->kids[0], pos, n->v0 ? nullptr : &v, look)) break;
				if (pos == before) { fprintf(stderr, "ill-formed grammar: repeated parser consumed nothing\n"); exit(3); }
				++count;
				if (!n->v0) o.kids.push_back(std::move(v));
			}
			return n->k == Star || count > 0;
		}
		case Exa:
		{
			if (!n->v0) { o = Val{}; o.k = Val::Arr; }
			for (long i = 0; i < n->n; i++)
			{
				Val v;
				if (!eval(n->kids[0], pos, n->v0 ? nullptr : &v, look)) { pos = start; return false; }
				if (!n->v0) o.kids.push_back(std::move(v));
			}
			return true;
		}
		case Del:
		{
			std::vector<Val> ps, ds;
			Val v;
			if (!eval(n->kids[0], pos, n->v0 ? nullptr : &v, look)) return false;
			ps.push_back(std::move(v));
			for (;;)
			{
				size_t p = pos; Val d, q;
				if (!eval(n->kids[1], p, n->v1 ? nullptr : &d, look)) break;
				if (!eval(n->kids[0], p, n->v0 ? nullptr : &q, look)) break;
				if (p == pos) { fprintf(stderr, "ill-formed grammar: delimited parser consumed nothing\n"); exit(3); }
				pos = p;
				ps.push_back(std::move(q)); ds.push_back(std::move(d));
			}
			if (n->v0 && n->v1) return true;
			o = Val{};
			if (n->v0) { o.k = Val::Vec; o.kids = std::move(ds); }
			else if (n->v1) { o.k = Val::Vec; o.kids = std::move(ps); }
			else
			{
				o.k = Val::Pair; o.kids.resize(2);
				o.kids[0].k = Val::Vec; o.kids[0].kids = std::move(ps);
				o.kids[1].k = Val::Vec; o.kids[1].kids = std::move(ds);
			}
			return true;
		}
		case Ign: return eval(n->kids[0], pos, nullptr, true);
		case Com:
			if (!eval(n->kids[0], pos, out, look)) return false;
			if (pos != in.size()) { pos = start; return false; }
			return true;
		case Joi:
		{
			Val v;
			if (!eval(n->kids[0], pos, &v, look)) return false;
			if (look) return true;
			std::vector<const Val*> ls; leaves(v, ls);
			i64 off = -1, len = 0;
			for (auto* l : ls)
			{
				if (l->len == 0) continue;
				if (off < 0) { off = l->off; len = l->len; }
				else if (off + len == l->off) len += l->len;
				else { pos = start; return false; }
			}
			o = Val{}; o.k = Val::Span;
			if (off < 0) { o.off = i64(pos); o.len = 0; } else { o.off = off; o.len = len; }
			return true;
		}
		case Map:
		{
			Val v;
			if (!eval(n->kids[0], pos, n->v0 || look ? nullptr : &v, look)) return false;
			if (look) return true;
			u64 d = args_digest(n, v);
			char cat = n->v0 || (n->apply && v.kids.empty()) ? '0' : 'R';
			o = Val{};
			switch (n->mk)
			{
			case 'm': ev('m', n->id, cat, d); o.k = Val::Box; o.num = n->id; o.dig = d; break;
			case 'n': ev('n', n->id, cat, d); o.k = Val::Int; o.num = i64(d % 1000); break;
			case 'v': ev('v', n->id, cat, d); break;
			case 'd': ev('d', n->id, cat, d); o = std::move(v); break;
			case 'p': ev('p', n->id, cat, d); o = std::move(v); break;
			case 'w': ev('w', n->id, cat, d); o = std::move(v); cut(o, n->id % 5); break;
			case 't': ev('t', n->id, cat, d); o.k = Val::Tok; o.num = n->id; o.dig = u64(events.size()); break;
			case 'i':
				// constructing a T from a T hands the value over unchanged
				if (!n->v0 && !n->apply && v.k == Val::IBox && v.num == n->id) { o = std::move(v); break; }
				if (!n->v0 && n->apply && v.kids.size() == 1 && v.kids[0].k == Val::IBox && v.kids[0].num == n->id) { Val t = std::move(v.kids[0]); o = std::move(t); break; }
				o.k = Val::IBox; o.num = n->id; if (n->v0) o.dig = 0; else { ev('i', n->id, cat, d); o.dig = d; } break;
			case 'c': o.k = Val::Int; o.num = n->id; break;
			case 'e': o.k = Val::IBox; o.num = n->id; o.dig = 0; break;
			default: fprintf(stderr, "bad map kind\n"); exit(3);
			}
			return true;
		}
		case Flt:
		{
			Val v;
			if (!eval(n->kids[0], pos, n->v0 || look ? nullptr : &v, look)) return false;
			if (look) return true;
			u64 d = args_digest(n, v);
			ev('f', n->id, n->v0 || (n->apply && v.kids.empty()) ? '0' : 'c', d);
			bool pass = n->K == 0 ? true : n->K == 1 ? false : (d / 7 + u64(n->id)) % u64(n->K) != 0;
			if (!pass) { pos = start; return false; }
			if (!n->v0) o = std::move(v);
			return true;
		}
		case Nam: return eval(n->kids[0], pos, out, look);
		case Cus:
		{
			Val v;
			if (!eval(g.rules[n->n], pos, &v, look)) return false;
			if (n->conv) { o = Val{}; o.k = Val::Rec; o.dig = dig(v); }
			else o = std::move(v);
			return true;
		}
		}
		return false;
	}
};

struct Outcome
{
	bool ok = false, budget = false, threw = false;
	size_t pos = 0;
	std::string val;
	std::vector<Event> events;
	long steps = 0, cmps = 0, wide = 0;
	size_t furthest = 0;
	u64 path = 0;
	int depth = 0;
};

} // namespace vf::model
