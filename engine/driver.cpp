// Drives every registered grammar over generated inputs, observes the real library and
// compares the observation with the reference interpreter (model.hpp).
#include "model.hpp"
#include <csignal>
#include <chrono>
#include <cstdio>
#include <fcntl.h>
#include <random>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <ctime>
#include <unordered_map>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>

namespace vf {
thread_local State st;
thread_local long alloc_count = 0, alloc_fail_at = 0, alloc_live = 0;
thread_local bool alloc_on = false;
std::vector<CxRow>& cx_rows() { static std::vector<CxRow> c; return c; }
std::vector<Case>& cases() { static std::vector<Case> c; return c; }
static thread_local std::size_t alloc_bytes = 0;
}

#ifndef VF_NO_ALLOC_HOOK
// Allocation monitor.  Blocks obtained while the parser runs are tagged, so that leaks of parser-owned
// memory are visible and the monitor's own memory is not counted.
static constexpr std::size_t tag_own = 0x51a7e0c4b7d3f1e9ull, tag_other = 0x0ddba11deadbea75ull;
static void* vf_new(std::size_t n, std::size_t al)
{
	bool own = vf::alloc_on;
	if (own)
	{
		++vf::alloc_count;
		if (vf::alloc_fail_at > 0 && vf::alloc_count == vf::alloc_fail_at) throw std::bad_alloc{};
		vf::alloc_bytes += n;
		if (vf::alloc_bytes > (3ull << 30)) _exit(98);
		++vf::alloc_live;
	}
	std::size_t pad = al > 16 ? al : 16;
	void* p = std::aligned_alloc(pad, (n + pad + pad - 1) / pad * pad);
	if (!p) throw std::bad_alloc{};
	char* q = static_cast<char*>(p) + pad;
	reinterpret_cast<std::size_t*>(q)[-1] = own ? tag_own : tag_other;
	return q;
}
static void vf_delete(void* q, std::size_t al) noexcept
{
	if (!q) return;
	std::size_t pad = al > 16 ? al : 16;
	std::size_t& t = reinterpret_cast<std::size_t*>(q)[-1];
	if (t == tag_own) --vf::alloc_live;
	else if (t != tag_other) { static const char m[] = "VF: delete of a block that is not live\n"; if (write(2, m, sizeof m - 1)) {} abort(); }
	t = 0;
	std::free(static_cast<char*>(q) - pad);
}
void* operator new(std::size_t n) { return vf_new(n, 16); }
void* operator new[](std::size_t n) { return vf_new(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { return vf_new(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return vf_new(n, std::size_t(a)); }
void operator delete(void* p) noexcept { vf_delete(p, 16); }
void operator delete[](void* p) noexcept { vf_delete(p, 16); }
void operator delete(void* p, std::size_t) noexcept { vf_delete(p, 16); }
void operator delete[](void* p, std::size_t) noexcept { vf_delete(p, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { vf_delete(p, std::size_t(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { vf_delete(p, std::size_t(a)); }
void operator delete(void* p, std::size_t, std::align_val_t a) noexcept { vf_delete(p, std::size_t(a)); }
void operator delete[](void* p, std::size_t, std::align_val_t a) noexcept { vf_delete(p, std::size_t(a)); }
#endif

namespace vf {

static thread_local long live_before;
void begin_window(Real& r, const void* base, std::size_t bytes)
{
	st.events.clear();
	if (st.events.capacity() < 64) st.events.reserve(64);
	st.base = base;
	st.lo = base; st.hi = static_cast<const char*>(base) + bytes;
	st.cmps = st.oob = 0;
	st.tok_live = st.tok_made = st.tok_copies = st.tok_bad = st.tok_ops = 0;
	alloc_count = 0; alloc_bytes = 0;
	st.sp_low = nullptr;
	live_before = alloc_live;
	r.events.clear();
}
void end_window(Real& r)
{
	alloc_on = false;
	{ char here; r.stack = st.sp_low ? long(&here - st.sp_low) : 0; }
	r.allocs = alloc_count; r.cmps = st.cmps; r.oob = st.oob;
	r.leaked = alloc_live - live_before;
	r.events = st.events;
	r.tok_made = st.tok_made; r.tok_copies = st.tok_copies; r.tok_bad = st.tok_bad; r.tok_ops = st.tok_ops;
	r.tok_live = st.tok_live;   // after the result is gone: must be zero
	alloc_fail_at = 0; st.throw_at = 0; st.tok_fail_at = 0;
	st.lo = nullptr;
}

using namespace model;
using Codes = std::vector<i64>;

struct Args
{
	std::set<std::string> cats;
	u64 seed = 1;
	long exh = 300, samples = 40, maxlen = 400, longn = 0, longlen = 4000;
	int shard = 0, shards = 1, repeat = 1;
	std::string only, input, status, out, specs;
	long dump = 0;             // print this many diverse inputs per grammar of the --specs file
	int cx = 0;                // compare the evaluations made by the compiler
	bool have_input = false;
	long faults = 0;           // max fault points per evaluation
	long aborts = 0;           // parses abandoned by an exception before the last round of --threads
	long limit = 12;
	int place = 0;             // 0 exact heap block, 1 inside poisoned block
	double slack = 2, tight = 1.25;
	int threads = 0;
	int deep = 0;               // >0: recursive rules nested up to so many levels
	int edges = 0;              // >0: inputs whose lengths lie around the usual counter widths; >1: beyond 16 bits
	long stack = 0;            // >0: bytes of stack a long input may cost over a short one
} args;

struct Status { std::atomic<long> tick; volatile int look; char id[128]; long n; i64 codes[4096]; };
static Status* status;
static long last_tick = -1; static int stale = 0;
static void on_alarm(int)
{
	// seconds without progress in which this process had the processor (a busy machine is no hang), or many without it
	static double last_cpu = 0; static int idle = 0;
	timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
	double cpu = double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
	long t = status->tick.load(std::memory_order_relaxed);
	if (t != last_tick) { last_tick = t; stale = idle = 0; last_cpu = cpu; return; }
	if (cpu - last_cpu >= 0.5) { last_cpu = cpu; if (++stale >= 30) _exit(97); }
	if (++idle >= 150) _exit(97);
}

static FILE* outf;
static std::map<std::string, long> found;
static long violations = 0;
static std::string codes_str(const Codes& c) { std::string s; for (auto x : c) { if (!s.empty()) s += ' '; s += std::to_string(x); } return s; }
static std::string clip(const std::string& s, size_t n = 600) { return s.size() > n ? s.substr(0, n) + "..." : s; }
static void report(const char* cat, const Case& c, const Codes& in, const std::string& detail)
{
	if (!args.cats.count(cat)) return;
	++violations;
	if (found[std::string(cat) + c.id]++ >= 1 || long(found.size()) > args.limit) return;
	fprintf(outf, "V\t%s\t%s\t%s\t%s\n", cat, c.id, codes_str(in).c_str(), clip(detail).c_str());
	fflush(outf);
}
static bool want(const char* c) { return args.cats.count(c) > 0; }

// ------------------------------------------------------------------ inputs
struct Gen
{
	std::mt19937_64 rng;
	const Grammar& g;
	const Codec* codec;
	Gen(u64 seed, const Grammar& g_, const Codec* c) : rng(seed), g(g_), codec(c) {}
	u64 below(u64 n) { return n ? rng() % n : 0; }
	std::unordered_map<const Node*, Codes> outsides;
	const Codes& outside(const Node* n)
	{
		auto [it, fresh] = outsides.try_emplace(n);
		if (fresh) for (i64 c : g.alpha) { bool hit = false; for (i64 x : n->codes) hit |= codec->eq(x, c); if (!hit) it->second.push_back(c); }
		return it->second;
	}
	i64 any_symbol() { return g.alpha[below(g.alpha.size())]; }
	void derive(const Node* n, Codes& out, int depth, long budget)
	{
		if (long(out.size()) > budget) return;
		switch (n->k)
		{
		case Any: if (n->codes.empty()) out.push_back(any_symbol()); else out.push_back(n->codes[below(n->codes.size())]); break;
		case None:
		{
			const Codes& free = outside(n);
			if (!free.empty()) out.push_back(free[below(free.size())]);
			break;
		}
		case All: for (i64 c : n->codes) out.push_back(c); break;
		case Eps: break;
		case Seq: for (auto* k : n->kids) derive(k, out, depth + 1, budget); break;
		case Cho:
		{
			size_t i = below(n->kids.size());
			if (depth > 24) i = n->kids.size() - 1;
			derive(n->kids[i], out, depth + 1, budget);
			break;
		}
		case May: if (depth < 30 && below(3)) derive(n->kids[0], out, depth + 1, budget); break;
		case Plus: case Star:
		{
			static const int reps[] = { 0, 1, 1, 2, 2, 3, 4, 5, 7, 9, 17, 33 };
			u64 m = depth > 24 ? 1 : reps[below(below(8) ? 9 : 12)];
			if (n->k == Plus && m == 0) m = 1;
			while (m--) derive(n->kids[0], out, depth + 1, budget);
			break;
		}
		case Exa: for (long i = 0; i < n->n; i++) derive(n->kids[0], out, depth + 1, budget); break;
		case Del:
		{
			static const int reps[] = { 0, 0, 1, 1, 2, 3, 5, 12, 33 };
			u64 m = depth > 24 ? 0 : reps[below(below(8) ? 7 : 9)];
			derive(n->kids[0], out, depth + 1, budget);
			while (m--) { derive(n->kids[1], out, depth + 1, budget); derive(n->kids[0], out, depth + 1, budget); }
			break;
		}
		case Cus: if (depth < 40) derive(g.rules[n->n], out, depth + 1, budget); break;
		default: derive(n->kids[0], out, depth + 1, budget);
		}
	}
	// derivations of n one after another until v is long, or until they keep adding nothing
	void fill(const Node* n, Codes& v, long len)
	{
		for (int idle = 0; long(v.size()) < len && idle < 40;)
		{
			std::size_t before = v.size();
			derive(n, v, 0, len);
			idle = v.size() == before ? idle + 1 : 0;
		}
	}
	static bool reaches(const Node* n) { if (n->k == Cus) return true; for (auto* k : n->kids) if (reaches(k)) return true; return false; }
	// follows the rules down for so many levels, and takes the shortest way everywhere else
	void deep(const Node* n, Codes& out, int levels)
	{
		if (n->k == Cus)
		{
			if (levels > 0) deep(g.rules[n->n], out, levels - 1);
			else derive(n, out, 25, 1 << 20);
			return;
		}
		std::vector<const Node*> ways;
		for (auto* k : n->kids) if (reaches(k)) ways.push_back(k);
		if (ways.empty()) { derive(n, out, 31, 1 << 20); return; }
		const Node* way = ways[below(ways.size())];
		if (n->k == Seq) for (auto* k : n->kids) { if (k == way) deep(k, out, levels); else if (reaches(k)) derive(k, out, 31, 1 << 20); else derive(k, out, 25, 1 << 20); }
		else if (n->k == Exa) { deep(way, out, levels); for (long i = 1; i < n->n; i++) derive(way, out, 31, 1 << 20); }
		else if (n->k == Del && way != n->kids[0]) { derive(n->kids[0], out, 31, 1 << 20); deep(way, out, levels); derive(n->kids[0], out, 31, 1 << 20); }
		else deep(way, out, levels);
	}
	void mutate(Codes& c)
	{
		int m = 1 + int(below(2));
		while (m--)
		{
			switch (below(7))
			{
			case 0: if (!c.empty()) c.erase(c.begin() + below(c.size())); break;
			case 1: c.insert(c.begin() + below(c.size() + 1), any_symbol()); break;
			case 2: if (!c.empty()) c[below(c.size())] = any_symbol(); break;
			case 3: if (!c.empty()) c.resize(below(c.size())); break;
			case 4: c.push_back(any_symbol()); break;
			case 5: if (!c.empty()) { size_t i = below(c.size()); c.insert(c.begin() + i, c.begin(), c.begin() + i); } break;
			case 6: if (c.size() > 1) std::swap(c[below(c.size())], c[below(c.size())]); break;
			}
		}
	}
};

static bool is_recursive(const Grammar& g);
static std::vector<Codes> inputs_for(const Case& c, const Grammar& g)
{
	u64 h = fnv_init;
	for (const char* p = c.id; *p; ++p) { h ^= static_cast<unsigned char>(*p); h *= 1099511628211ull; }
	Gen gen(h ^ (args.seed * 0x9e3779b97f4a7c15ull), g, c.codec);
	std::set<Codes> seen;
	std::vector<Codes> out;
	auto add = [&](Codes v) { status->tick.fetch_add(1, std::memory_order_relaxed); if (seen.insert(v).second) out.push_back(std::move(v)); };
	// every string over the alphabet, shortest first, up to the cap
	{
		std::vector<Codes> layer{ {} };
		add({});
		while (!layer.empty() && long(out.size()) < args.exh)
		{
			std::vector<Codes> next;
			for (auto& p : layer)
				for (i64 a : g.alpha)
				{
					if (long(out.size()) >= args.exh) break;
					Codes q = p; q.push_back(a);
					add(q); next.push_back(std::move(q));
				}
			layer.swap(next);
		}
	}
	for (long i = 0; i < args.samples; i++)
	{
		Codes v; gen.derive(g.root, v, 0, args.maxlen);
		add(v);
		Codes t = v; t.push_back(gen.any_symbol()); add(t);
		Codes w; gen.derive(g.root, w, 0, args.maxlen);
		Codes m = v; gen.mutate(m); add(m);
		m = w; gen.mutate(m); add(m);
		if (!v.empty() && i % 4 == 0) { Codes x(v.begin(), v.end() - 1); add(x); }
		if (i % 5 == 0) { Codes x = v; x.insert(x.end(), w.begin(), w.end()); add(x); }
	}
	const long longn = args.longlen > 2500 && is_recursive(g) ? 0 : args.longn;   // recursive rules nest as deep as their input
	for (long i = 0; i < longn; i++)
	{
		Codes v;
		gen.fill(g.root, v, args.longlen);
		add(v);
		// one long run of a single symbol, then long alternations: drives repetition counts far up
		add(Codes(args.longlen, gen.any_symbol()));
		Codes x; i64 a = gen.any_symbol(), b = gen.any_symbol(); for (long k = 0; k < args.longlen / 2; k++) { x.push_back(a); x.push_back(b); } add(x);
	}
	if (args.deep && is_recursive(g))
		for (int n : { 3, 17, 63, 130, 260, 520, 1030, 2060, 4100, 8200, 16400 })
		{
			if (n > args.deep) break;
			Codes v; gen.deep(g.root, v, n);
			if (v.size() > 400000) break;
			add(v);
			Codes x = v; x.push_back(gen.any_symbol()); add(x);
			if (!v.empty()) { v.pop_back(); add(v); }
			Codes w; gen.deep(g.root, w, n); if (w.size() < 400000) { gen.mutate(w); add(w); }
		}
	if (args.edges && !is_recursive(g))
	{
		std::vector<long> ns{ 127, 128, 129, 255, 256, 257, 300, 513, 1001, 4097 };
		if (args.edges > 1) ns.insert(ns.end(), { 65535, 65536, 65537, 66000 });
		if (args.edges > 2) ns.insert(ns.end(), { 131072, 131075, 262147 });
		const std::size_t two = std::min<std::size_t>(2, g.alpha.size());
		for (long n : ns)
		{
			if (n <= 4097 || args.edges > 2)
				for (std::size_t i = 0; i < two; i++)
				{
					Codes v(n, g.alpha[i]); add(v);
					v.push_back(gen.any_symbol()); add(v);
				}
			// repeated derivations of the grammar, of its parts, and alternations
			Codes v; gen.fill(g.root, v, n);
			add(v); v.resize(std::min<std::size_t>(v.size(), n)); add(v);
			std::vector<const Node*> parts; std::function<void(const Node*)> walk = [&](const Node* x) { if (parts.size() < 64) { parts.push_back(x); for (auto* k : x->kids) walk(k); } }; walk(g.root);
			for (int t = 0; t < (n <= 4097 ? 3 : 2); t++)
			{
				const Node* part = parts[gen.below(parts.size())];
				Codes w; gen.fill(part, w, n);
				w.resize(std::min<std::size_t>(w.size(), n)); add(w);
			}
			if (n > 4097) { Codes w(n, g.alpha[gen.below(two)]); add(w); }
			Codes x; for (long k = 0; k < n; k++) x.push_back(g.alpha[k % two]); add(x);
		}
	}
	return out;
}

// ------------------------------------------------------------------ buffers
// Either one heap block of exactly the input's size, or the middle of a larger block whose surroundings
// continue the input with plausible symbols (so that looking past the end changes the answer).
struct Buffer
{
	char* raw; char* p; std::size_t bytes;
	Buffer(const Codec* c, const Codes& in, bool embedded)
	{
		bytes = in.size() * c->size;
		if (!embedded)
		{
			raw = p = static_cast<char*>(std::malloc(bytes ? bytes : 1));
			c->fill(p, in.data(), in.size());
		}
		else
		{
			const std::size_t pad = 24;
			Codes all;
			for (std::size_t i = 0; i < pad; i++) all.push_back(in.empty() ? 97 : in[(in.size() - pad % in.size() + i) % in.size()]);
			all.insert(all.end(), in.begin(), in.end());
			for (std::size_t i = 0; i < pad; i++) all.push_back(in.empty() ? 97 : in[i % in.size()]);
			raw = static_cast<char*>(std::malloc(all.size() * c->size));
			c->fill(raw, all.data(), all.size());
			p = raw + pad * c->size;
		}
	}
	~Buffer() { std::free(raw); }
};

struct Stats
{
	long cases = 0, evals = 0, accepted = 0, rejected = 0, progressed = 0, skipped = 0, events = 0, tokens = 0, faults = 0, faults_hit = 0, allocs = 0, cmps = 0, lookaheads = 0, maxdepth = 0, maxlen = 0, values = 0, spans = 0, zero_alloc = 0, laws = 0, stacks = 0, max_stack = 0, concurrent = 0, nested = 0, cx = 0;
	std::unordered_set<u64> nontrivial, paths, vals;
	long outcome[18][2] = {};
	std::vector<std::string> samples;
} S;

static std::string ev_str(const std::vector<Event>& e)
{
	std::string s;
	for (size_t i = 0; i < e.size() && i < 12; i++) { s += e[i].kind; s += std::to_string(e[i].id); s += e[i].cat; s += '/'; s += std::to_string(e[i].dig % 10000); s += ' '; }
	return s + "(" + std::to_string(e.size()) + ")";
}

// kinds of node reachable in parse mode, for the allocation and erasure oracles
static bool has(const Grammar& g, const Node* n, const std::function<bool(const Node*)>& f, std::set<const Node*>& seen)
{
	if (!seen.insert(n).second) return false;
	if (f(n)) return true;
	for (auto* k : n->kids) if (has(g, k, f, seen)) return true;
	return n->k == Cus && has(g, g.rules[n->n], f, seen);
}
static bool has(const Grammar& g, const std::function<bool(const Node*)>& f) { std::set<const Node*> s; return has(g, g.root, f, s); }
static bool is_recursive(const Grammar& g) { return has(g, [](const Node* n) { return n->k == Cus; }); }
static bool is_basic(const Node* n) { return n->k == Any || n->k == None || n->k == All; }
// may parsing this node build a growing container?
static bool may_allocate(const Grammar& g, const Node* n, std::set<const Node*>& seen)
{
	if (!seen.insert(n).second) return false;
	switch (n->k)
	{
	case Ign: return false;
	case Joi:
		if (auto* k = n->kids[0]; (k->k == Plus || k->k == Star || k->k == May || k->k == Exa) && is_basic(k->kids[0])) return false;
		break;
	case Plus: case Star: if (!n->v0) return true; break;
	case Del: if (!n->v0 || !n->v1) return true; break;
	case Cus: return may_allocate(g, g.rules[n->n], seen);
	default: break;
	}
	for (auto* k : n->kids) if (may_allocate(g, k, seen)) return true;
	return false;
}

static Outcome run_model(const Grammar& g, const Case& c, const Codes& in, bool look, long throw_at = 0)
{
	Run m(g, in, c.codec->eq);
	m.throw_at = throw_at;
	m.max_steps = std::max<long>(m.max_steps, 12 * long(in.size()));
	Outcome o;
	Val v;
	size_t pos = 0;
	try { o.ok = m.eval(g.root, pos, &v, look); }
	catch (Budget&) { o.budget = true; return o; }
	catch (Boom&) { o.threw = true; }
	o.pos = o.ok ? pos : 0;
	if (o.ok && !look && !g.is_void) o.val = str(v);
	o.events = std::move(m.events);
	o.steps = m.steps; o.cmps = m.cmps; o.wide = m.wide; o.furthest = m.furthest; o.path = m.path; o.depth = m.max_depth;
	for (int k = 0; k < 18; k++) for (int b = 0; b < 2; b++) S.outcome[k][b] += m.outcome[k][b];
	return o;
}

// what the reference saw of one case: the evidence's counters
static void observe(const Case& c, const Codes& in, const Outcome& mp)
{
	if (mp.ok) ++S.accepted; else ++S.rejected;
	if (mp.furthest > 0)
	{
		++S.progressed;
		u64 h = fnv_init; for (i64 x : in) { h ^= u64(x); h *= 1099511628211ull; }
		for (const char* p = c.id; *p; ++p) { h ^= static_cast<unsigned char>(*p); h *= 1099511628211ull; }
		S.nontrivial.insert(h);
	}
	{ u64 h = mp.path; for (const char* p = c.id; *p; ++p) { h ^= static_cast<unsigned char>(*p); h *= 1099511628211ull; } S.paths.insert(h); }
}

static void mark(const Case& c, const Codes& in, int look)
{
	status->tick.fetch_add(1, std::memory_order_relaxed); status->look = look;
	strncpy(status->id, c.id, sizeof status->id - 1);
	status->n = long(in.size());
	if (!in.empty()) std::memcpy(status->codes, in.data(), sizeof(i64) * std::min<size_t>(in.size(), 4096));
}

// structural walk over a serialised value: every span it mentions, in order
static void spans_of(const std::string& v, std::vector<std::pair<i64, i64>>& out)
{
	for (size_t i = 0; i < v.size(); i++)
		if (v[i] == '<')
		{
			char* e; i64 a = std::strtoll(v.c_str() + i + 1, &e, 10), b = 0;
			if (e == v.c_str() + i + 1) continue;
			if (*e == ',') b = std::strtoll(e + 1, &e, 10);
			out.push_back({ a, b });
		}
}

static int placeless(const std::string& v)
{
	int n = 0;
	for (size_t p = v.find("<>"); p != std::string::npos; p = v.find("<>", p + 2)) ++n;
	return n;
}

static void check_one(const Case& c, const Grammar& g, const Codes& in, bool erasable, bool allocfree, bool identity)
{
	const i64 n = i64(in.size());
	Outcome mp = run_model(g, c, in, false), ml = run_model(g, c, in, true);
	if (mp.budget || ml.budget) { ++S.skipped; return; }
	Buffer buf(c.codec, in, args.place == 1 || (args.place == 2 && (S.evals & 1)));
	std::string before(buf.p, buf.bytes);

	mark(c, in, 0);
	Real r; c.parse(buf.p, in.size(), r);
	mark(c, in, 1);
	Real l; c.look(buf.p, in.size(), l);
	++S.evals; ++S.lookaheads;

	if (S.samples.size() < 6 && mp.furthest > 1 && (S.evals % 97) == 1)
		S.samples.push_back(std::string(c.id) + ": " + c.cpp + "  on [" + clip(codes_str(in), 80) + "] -> " + (r.ok ? "ok consumed " + std::to_string(r.off) + " value " + clip(r.val, 80) : "fail"));
	observe(c, in, mp);
	S.events += long(mp.events.size()); S.allocs += r.allocs; S.cmps += r.cmps; S.tokens += r.tok_made;
	S.maxdepth = std::max<long>(S.maxdepth, mp.depth); S.maxlen = std::max<long>(S.maxlen, n);

	auto where = [&](const Real& x) { return std::string(x.ok ? "success" : "failure") + " remaining=[" + std::to_string(x.off) + ",+" + std::to_string(x.size) + ")"; };
	if (r.threw || l.threw) report("acc", c, in, "unexpected exception"), report("val", c, in, "unexpected exception"), report("atom", c, in, "unexpected exception"), report("look", c, in, "unexpected exception"), report("ev", c, in, "unexpected exception");

	// acceptance and consumption
	if (r.ok != mp.ok || (r.ok && r.off != i64(mp.pos)))
		report("acc", c, in, "parse: expected " + std::string(mp.ok ? "success at " + std::to_string(mp.pos) : "failure") + ", got " + where(r));
	// the value, whenever the reference accepts
	if (mp.ok)
	{
		++S.values;
		if (!r.ok) report("val", c, in, "expected value " + clip(mp.val, 200) + ", got failure");
		else if (r.val != mp.val) report("val", c, in, "expected value " + clip(mp.val, 250) + ", got " + clip(r.val, 250));
	}
	// atomicity / partition
	if (r.ok ? (r.off < 0 || r.off > n || r.off + r.size != n) : (r.off != 0 || r.size != n)) report("atom", c, in, "parse: " + where(r) + " of " + std::to_string(n));
	if (l.ok ? (l.off < 0 || l.off > n || l.off + l.size != n) : (l.off != 0 || l.size != n)) report("atom", c, in, "lookahead: " + where(l) + " of " + std::to_string(n));
	if (r.ok != mp.ok && !mp.ok) report("atom", c, in, "a parse that must fail reports " + where(r));
	if (r.ok && mp.ok && r.off != i64(mp.pos)) report("atom", c, in, "consumed " + std::to_string(r.off) + ", expected " + std::to_string(mp.pos));
	if (!r.note.empty() || !l.note.empty()) report("atom", c, in, "result object: " + r.note + l.note);
	if (r.ok)
	{
		std::vector<std::pair<i64, i64>> sp; spans_of(r.val, sp);
		i64 last = 0;
		for (auto [a, b] : sp)
		{
			++S.spans;
			if (a < 0 || a + b > r.off) report("atom", c, in, "span <" + std::to_string(a) + "," + std::to_string(b) + "> outside the consumed part [0," + std::to_string(r.off) + ")");
			if (identity && b && a < last) report("atom", c, in, "spans out of order or overlapping: " + clip(r.val, 200));
			if (b) last = a + b;
		}
		// an empty view still has a place in the input, unless nothing produced it (a default-constructed value)
		if (mp.ok && placeless(r.val) > placeless(mp.val)) report("atom", c, in, "a view that points nowhere: " + clip(r.val, 200));
	}
	if (std::memcmp(before.data(), buf.p, buf.bytes) != 0) report("atom", c, in, "the input was modified");
	if (r.oob || l.oob) report("atom", c, in, "compared an element outside the input"), report("mem", c, in, "compared an element outside the input");
	// lookahead
	if (l.ok != ml.ok || (l.ok && l.off != i64(ml.pos))) report("look", c, in, "lookahead: expected " + std::string(ml.ok ? "success at " + std::to_string(ml.pos) : "failure") + ", got " + where(l));
	if (!l.ok && (l.off != 0 || l.size != n)) report("look", c, in, "failed lookahead: " + where(l));
	if (!l.events.empty()) report("look", c, in, "lookahead invoked a callback: " + ev_str(l.events));
	if (l.allocs) report("look", c, in, "lookahead allocated"), report("alloc", c, in, "lookahead allocated " + std::to_string(l.allocs) + " block(s)");
	if (!l.note.empty()) report("look", c, in, "result object: " + l.note);
	if (erasable && (l.ok != r.ok || l.off != r.off || l.size != r.size)) report("look", c, in, "lookahead and parse disagree: " + where(l) + " vs " + where(r));
	// callbacks
	if (r.events != mp.events) report("ev", c, in, "expected callbacks " + ev_str(mp.events) + " got " + ev_str(r.events));
	// element type generality uses the same comparisons under another name
	if (r.ok != mp.ok || r.off != i64(mp.pos) || (r.ok && r.val != mp.val) || l.ok != ml.ok || (l.ok && l.off != i64(ml.pos)) || r.events != mp.events)
		report("all", c, in, "expected " + std::string(mp.ok ? "success at " + std::to_string(mp.pos) + " " + clip(mp.val, 150) : "failure") + " lookahead " + (ml.ok ? std::to_string(ml.pos) : "fail") + ", got " + where(r) + " " + clip(r.val, 150) + " lookahead " + where(l));
	// allocation
	if (allocfree) { ++S.zero_alloc; if (r.allocs) report("alloc", c, in, "allocated " + std::to_string(r.allocs) + " block(s)"); }
	// work bound
	if (c.codec->tracked)
	{
		// short cuts within one test of a set or a literal may come and go (tight), up to a factor (slack)
		double bound = std::min(args.slack * double(mp.cmps), args.tight * double(mp.wide)) + 64, lbound = std::min(args.slack * double(ml.cmps), args.tight * double(ml.wide)) + 64;
		if (double(r.cmps) > bound) report("work", c, in, "parse made " + std::to_string(r.cmps) + " element comparisons, reference " + std::to_string(mp.cmps));
		if (double(l.cmps) > lbound) report("work", c, in, "lookahead made " + std::to_string(l.cmps) + " element comparisons, reference " + std::to_string(ml.cmps));
	}
	// ownership
	if (r.leaked || l.leaked) report("own", c, in, "parser-owned memory still live after the result is gone: " + std::to_string(r.leaked + l.leaked));
	if (r.tok_live || r.tok_bad) report("own", c, in, "tracked values: live=" + std::to_string(r.tok_live) + " misused=" + std::to_string(r.tok_bad));
	if (r.tok_copies && !std::strstr(c.cpp, ",2>") && !std::strstr(c.cpp, ",4>")) report("own", c, in, "movable values were copied " + std::to_string(r.tok_copies) + " time(s)");
	if (want("own") && (r.ok != mp.ok || (r.ok && r.val != mp.val))) report("own", c, in, "expected " + clip(mp.ok ? mp.val : "failure", 200) + ", got " + clip(r.ok ? r.val : "failure", 200));

	// fault injection: an exception out of every callback, and every allocation failing in turn
	if (args.faults > 0)
	{
		long m = std::min<long>(long(mp.events.size()), args.faults);
		for (long k = 1; k <= m; k++)
		{
			Outcome mt = run_model(g, c, in, false, k);
			st.throw_at = k;
			mark(c, in, 2);
			Real f; c.parse(buf.p, in.size(), f);
			++S.faults;
			if (!f.threw || f.boom != k || f.bad_alloc) { report("own", c, in, "an exception from callback " + std::to_string(k) + " did not reach the caller"); report("ev", c, in, "an exception from callback " + std::to_string(k) + " did not reach the caller"); }
			else ++S.faults_hit;
			if (f.events != mt.events) report("ev", c, in, "callbacks before the throwing one differ: " + ev_str(mt.events) + " vs " + ev_str(f.events));
			if (f.leaked || f.tok_live || f.tok_bad) report("own", c, in, "after an exception from callback " + std::to_string(k) + ": leaked=" + std::to_string(f.leaked) + " live=" + std::to_string(f.tok_live) + " misused=" + std::to_string(f.tok_bad));
			if (std::memcmp(before.data(), buf.p, buf.bytes) != 0) report("own", c, in, "the input was modified");
		}
		m = std::min<long>(r.tok_ops, args.faults);
		for (long k = 1; k <= m; k++)
		{
			st.tok_fail_at = k;
			mark(c, in, 4);
			Real f; c.parse(buf.p, in.size(), f);
			++S.faults;
			if (!f.threw || f.boom != k || f.bad_alloc) report("own", c, in, "an exception from making value " + std::to_string(k) + " did not reach the caller");
			else ++S.faults_hit;
			if (f.leaked || f.tok_live || f.tok_bad) report("own", c, in, "after an exception from making value " + std::to_string(k) + ": leaked=" + std::to_string(f.leaked) + " live=" + std::to_string(f.tok_live) + " misused=" + std::to_string(f.tok_bad));
		}
#ifndef VF_NO_ALLOC_HOOK
		m = std::min<long>(r.allocs, args.faults);
		for (long k = 1; k <= m; k++)
		{
			alloc_fail_at = k;
			mark(c, in, 3);
			Real f; c.parse(buf.p, in.size(), f);
			++S.faults;
			if (!f.threw || !f.bad_alloc) report("own", c, in, "failed allocation " + std::to_string(k) + " did not reach the caller as bad_alloc");
			else ++S.faults_hit;
			if (f.leaked || f.tok_live || f.tok_bad) report("own", c, in, "after failed allocation " + std::to_string(k) + ": leaked=" + std::to_string(f.leaked) + " live=" + std::to_string(f.tok_live));
		}
#endif
		Real again; c.parse(buf.p, in.size(), again);
		if (again.ok != r.ok || again.val != r.val || again.off != r.off) report("own", c, in, "a parse after an aborted one differs");
	}
	// determinism
	for (int i = 1; i < args.repeat; i++)
	{
		Real q; c.parse(buf.p, in.size(), q);
		if (q.ok != r.ok || q.val != r.val || q.off != r.off || q.events != r.events) report("det", c, in, "a repeated parse differs: " + clip(r.val, 150) + " then " + clip(q.val, 150));
	}
}

// two spellings of one parser: identical observations on the same input
static void check_law(const Case& a, const Case& b, const Grammar& g, const Codes& in)
{
	bool same = std::strstr(a.id, "=same") != nullptr;
	Outcome m = run_model(g, b, in, false);
	if (m.budget) { ++S.skipped; return; }
	Buffer buf(a.codec, in, args.place == 1 || (args.place == 2 && (S.evals & 1)));
	mark(a, in, 0); Real x; a.parse(buf.p, in.size(), x);
	mark(b, in, 0); Real y; b.parse(buf.p, in.size(), y);
	mark(a, in, 1); Real p; a.look(buf.p, in.size(), p);
	mark(b, in, 1); Real q; b.look(buf.p, in.size(), q);
	S.evals += 2; ++S.laws;
	auto w = [](const Real& r) { return r.ok ? "success at " + std::to_string(r.off) + " " + clip(r.val, 120) : std::string("failure"); };
	if (x.ok != y.ok || x.off != y.off || x.size != y.size) report("law", a, in, "equal parsers disagree: " + w(x) + " vs " + w(y) + " for " + b.cpp);
	else if (same && x.val != y.val) report("law", a, in, "equal parsers give different values: " + w(x) + " vs " + w(y) + " for " + b.cpp);
	else if (same && x.events != y.events) report("law", a, in, "equal parsers invoke different callbacks: " + ev_str(x.events) + " vs " + ev_str(y.events));
	if (p.ok != q.ok || p.off != q.off || p.size != q.size) report("law", a, in, "equal parsers look ahead differently: " + w(p) + " vs " + w(q) + " for " + b.cpp);
}

// the stack a parse needs does not grow with the number of repetitions in the input
static void check_stack(const Case& c, const Grammar& g)
{
	std::set<const Node*> seen;
	if (has(g, [](const Node* n) { return n->k == Cus; })) return;
	Gen gen(args.seed * 77 + 5, g, c.codec);
	long small[2] = { 0, 0 };
	for (int i = 0; i < 60; i++)
	{
		Codes v; gen.derive(g.root, v, 0, 60);
		Buffer buf(c.codec, v, false);
		Real r; mark(c, v, 0); c.parse(buf.p, v.size(), r); small[0] = std::max(small[0], r.stack);
		Real l; mark(c, v, 1); c.look(buf.p, v.size(), l); small[1] = std::max(small[1], l.stack);
		++S.evals;
	}
	for (int i = 0; i < 3; i++)
	{
		Codes v;
		while (long(v.size()) < args.longlen) { size_t before = v.size(); gen.derive(g.root, v, 0, args.longlen); if (v.size() == before) v.push_back(gen.any_symbol()); }
		if (i == 1) v.assign(args.longlen, gen.any_symbol());
		Buffer buf(c.codec, v, false);
		Real r; mark(c, v, 0); c.parse(buf.p, v.size(), r);
		Real l; mark(c, v, 1); c.look(buf.p, v.size(), l);
		++S.evals; ++S.stacks;
		S.max_stack = std::max({ S.max_stack, r.stack, l.stack });
		Codes head(v.begin(), v.begin() + std::min<size_t>(v.size(), 64));
		if (r.stack > small[0] + args.stack) report("stack", c, head, "parse used " + std::to_string(r.stack) + " bytes of stack on " + std::to_string(v.size()) + " elements, " + std::to_string(small[0]) + " on short inputs");
		if (l.stack > small[1] + args.stack) report("stack", c, head, "lookahead used " + std::to_string(l.stack) + " bytes of stack on " + std::to_string(v.size()) + " elements, " + std::to_string(small[1]) + " on short inputs");
	}
}

// one shared input, many threads, any order: every observation equals the one made alone
struct Seen { bool ok, lok; i64 off, loff; u64 val, ev; size_t events; bool threw; bool operator==(const Seen&) const = default; };
struct Job { const Case* c; const Codec* codec; Codes in; Buffer* buf; Seen alone; };
static u64 hash_str(const std::string& s) { DigestSink d; for (char ch : s) d.put(ch); return d.h; }
static u64 hash_events(const std::vector<Event>& e) { DigestSink d; for (auto& x : e) { d.put(x.kind); d.put(char(x.id)); put_hex(d, x.dig); } return d.h; }
static Seen see(const Job& j, bool look = true, const void* at = nullptr)
{
	if (!at) at = j.buf->p;
	Real r; j.c->parse(at, j.in.size(), r);
	Real l; if (look) j.c->look(at, j.in.size(), l); else { l.ok = j.alone.lok; l.off = j.alone.loff; }
	return { r.ok, l.ok, r.off, l.off, hash_str(r.val), hash_events(r.events), r.events.size(), r.threw };
}
// a parse that is abandoned by an exception from its k-th callback
static void abandon(const Job& j, long k)
{
	st.throw_at = k;
	Real f; j.c->parse(j.buf->p, j.in.size(), f);
	st.throw_at = 0;
}
// a parse inside a callback of another parse
static thread_local const std::vector<Job>* inner_jobs;
static thread_local size_t inner_at;
static thread_local long inner_runs, inner_bad;
static void parse_inside()
{
	if (inner_runs > 0 && inner_runs % 32 == 0) { ++inner_runs; return; }
	State saved = std::move(st);
	long live = live_before;
	st = State{};
	size_t n = inner_jobs->size();
	const Job& j = (*inner_jobs)[(inner_at + size_t(inner_runs) % 5 + n - 2) % n];
	++inner_runs;
	if (!(see(j, false) == j.alone)) ++inner_bad;
	live_before = live;
	st = std::move(saved);
}
static void run_threads(std::vector<std::pair<const Case*, Codes>>& work)
{
	if (work.empty()) return;
	std::vector<Job> jobs;
	for (auto& [c, in] : work) jobs.push_back({ c, c->codec, in, new Buffer(c->codec, in, false), {} });
	// what each parse gives alone, in a process of its own, so that nothing has run here before the threads start
	Seen* alone = static_cast<Seen*>(mmap(nullptr, sizeof(Seen) * jobs.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	pid_t pid = fork();
	if (pid == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		for (size_t i = 0; i < jobs.size(); i++)
		{
			mark(*jobs[i].c, jobs[i].in, 0);
			alone[i] = see(jobs[i]);
			status->tick.fetch_add(1, std::memory_order_relaxed);
		}
		_exit(0);
	}
	int wst = 0;
	pid_t got;
	while ((got = waitpid(pid, &wst, 0)) < 0 && errno == EINTR) {}
	if (pid < 0 || got != pid) { perror("fork"); _exit(3); }
	if (WIFSIGNALED(wst)) { signal(WTERMSIG(wst), SIG_DFL); raise(WTERMSIG(wst)); _exit(97); }
	if (WEXITSTATUS(wst)) _exit(WEXITSTATUS(wst));
	for (size_t i = 0; i < jobs.size(); i++) jobs[i].alone = alone[i];
	S.evals += long(jobs.size());

	std::vector<std::thread> ts;
	std::mutex m;
	long done = 0, nested = 0, aborted = 0;
	std::atomic<int> ready{ 0 };
	auto wrong = [&](const Job& j, const char* what)
	{
		std::lock_guard<std::mutex> g(m);
		report("det", *j.c, j.in, what);
	};
	// first round: all threads arrive at every grammar, which none has used yet, at the same moment
	std::vector<size_t> firsts;
	for (size_t i = 0; i < jobs.size(); i++) if (i == 0 || jobs[i].c != jobs[i - 1].c) firsts.push_back(i);
	std::vector<std::atomic<int>> gate(firsts.size());
	std::size_t most = 64;
	for (auto& j : jobs) most = std::max(most, j.buf->bytes);
	for (int t = 0; t < args.threads; t++)
		ts.emplace_back([&, t]
		{
			// counted apart: touching anything shared between parses would order the threads and hide races
			long my_done = 0, my_nested = 0, my_aborted = 0;
			std::mt19937_64 rng(args.seed * 1000 + t);
			std::vector<size_t> order(jobs.size());
			for (size_t i = 0; i < order.size(); i++) order[i] = i;
			for (size_t f = 0; f < firsts.size(); f++)
			{
				size_t end = f + 1 < firsts.size() ? firsts[f + 1] : jobs.size(), n = end - firsts[f];
				gate[f].fetch_add(1, std::memory_order_relaxed);
				while (gate[f].load(std::memory_order_relaxed) < args.threads) {}
				for (size_t k = 0; k < std::min<size_t>(n, 6); k++)
				{
					size_t i = firsts[f] + (k + (t % 2 ? rng() : 0)) % n;
					if (!(see(jobs[i]) == jobs[i].alone)) wrong(jobs[i], "several threads use a parser for the first time, and one sees something else than it would alone");
					my_done += 2;
				}
				status->tick.fetch_add(1, std::memory_order_relaxed);
			}
			// half of the threads walk in the same order (maximal contention on one grammar), half shuffle
			if (t % 2) std::shuffle(order.begin(), order.end(), rng);
			ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < args.threads) {}
			inner_jobs = &jobs;
			// inputs that take each other's place in memory, back to back
			std::unique_ptr<char[], void(*)(void*)> place{ static_cast<char*>(std::aligned_alloc(64, (most + 64) / 64 * 64)), std::free };
			for (int rep = 0; rep < args.repeat; rep++)
				for (size_t i : order)
				{
					Job& j = jobs[i];
					if (j.alone.events && rng() % 8 == 0) { abandon(j, 1 + long(rng() % j.alone.events)); ++my_aborted; }
					bool inside = j.alone.events && j.alone.events < 200 && rng() % 8 == 0;
					if (inside) { inner_at = i; inner_runs = inner_bad = 0; st.hook = parse_inside; }
					bool moved = rng() % 2;
					if (moved) j.codec->fill(place.get(), j.in.data(), j.in.size());
					Seen s = see(j, true, moved ? place.get() : nullptr);
					st.hook = nullptr;
					my_done += 2;
					status->tick.fetch_add(1, std::memory_order_relaxed);
					if (!(s == j.alone)) wrong(j, inside ? "a parse in whose callbacks other parses ran gives a different observation than alone" : moved ? "a parse of an input that took another's place in memory gives a different observation" : "a parse running next to others, or after others, gives a different observation than alone");
					if (inside) { my_nested += inner_runs; if (inner_bad) wrong(j, "a parse inside a callback of this one gives a different observation than alone"); }
				}
			std::lock_guard<std::mutex> g(m);
			done += my_done; nested += my_nested; aborted += my_aborted;
		});
	for (auto& t : ts) t.join();
	// many parses abandoned by an exception, then all of them backwards, alone: history independence
	std::vector<size_t> noisy;
	for (size_t i = 0; i < jobs.size(); i++) if (jobs[i].alone.events && jobs[i].in.size() < 60) noisy.push_back(i);
	if (!noisy.empty())
		for (long k = 0; k < args.aborts; k++)
		{
			const Job& j = jobs[noisy[size_t(k) % noisy.size()]];
			abandon(j, 1 + long((size_t(k) / noisy.size()) % j.alone.events));
			++aborted;
			if (k % 256 == 0) status->tick.fetch_add(1, std::memory_order_relaxed);
		}
	for (size_t i = jobs.size(); i-- > 0;)
	{
		Job& j = jobs[i];
		++done;
		status->tick.fetch_add(1, std::memory_order_relaxed);
		if (!(see(j) == j.alone)) wrong(j, "a parse after other parses gives a different observation");
	}
	S.concurrent += done;
	S.faults += aborted; S.faults_hit += aborted;
	S.nested += nested;
	S.evals += done;
}

// compile-time evaluation against run-time evaluation against the reference
static void check_cx(const Case& c, const Grammar& g, const CxRow& row)
{
	Codes in(row.codes, row.codes + row.n);
	Outcome mp = run_model(g, c, in, false), ml = run_model(g, c, in, true);
	if (mp.budget || ml.budget) { ++S.skipped; return; }
	Buffer buf(c.codec, in, false);
	mark(c, in, 0); Real r; c.parse(buf.p, in.size(), r);
	mark(c, in, 1); Real l; c.look(buf.p, in.size(), l);
	++S.evals; ++S.cx;
	observe(c, in, mp);
	if (S.samples.size() < 6 && mp.furthest > 1) S.samples.push_back(std::string(c.id) + ": " + c.cpp + "  on [" + clip(codes_str(in), 80) + "] -> " + (row.r.ok ? "ok consumed " + std::to_string(row.r.off) : "fail") + " at compile time");
	auto w = [](bool ok, i64 off) { return ok ? "success at " + std::to_string(off) : std::string("failure"); };
	bool hv = row.r.ok && !g.is_void;
	const CxRes& x = row.r;
	if (x.ok != r.ok || x.off != r.off || x.size != r.size || (hv && x.h != hash_str(r.val))) report("cx", c, in, "compile time: " + w(x.ok, x.off) + ", run time: " + w(r.ok, r.off) + " " + clip(r.val, 150) + (hv && r.ok && x.off == r.off ? " (values differ)" : ""));
	if (x.lok != l.ok || x.loff != l.off || x.lsize != l.size) report("cx", c, in, "lookahead at compile time: " + w(x.lok, x.loff) + ", run time: " + w(l.ok, l.off));
	if (x.ok != mp.ok || (x.ok && x.off != i64(mp.pos)) || (hv && mp.ok && x.h != hash_str(mp.val))) report("cx", c, in, "compile time: " + w(x.ok, x.off) + ", expected: " + w(mp.ok, i64(mp.pos)) + " " + clip(mp.val, 150));
	if (x.lok != ml.ok || (x.lok && x.loff != i64(ml.pos))) report("cx", c, in, "lookahead at compile time: " + w(x.lok, x.loff) + ", expected: " + w(ml.ok, i64(ml.pos)));
}

// choose inputs that take different ways through a grammar
static bool int_eq(i64 a, i64 b) { return a == b; }
static int dump_inputs()
{
	static const Codec plain{ "", 1, 1, nullptr, &int_eq, false };
	FILE* f = fopen(args.specs.c_str(), "r");
	if (!f) return 3;
	static char line[1 << 20];
	while (fgets(line, sizeof line, f))
	{
		char* tab = std::strchr(line, '\t');
		if (!tab) continue;
		*tab = 0;
		Case c{ line, tab + 1, "", nullptr, nullptr, &plain };
		Grammar g = SpecReader(c.spec).read();
		auto ins = inputs_for(c, g);
		std::unordered_set<u64> seen;
		long n = 0, acc = 0;
		// first one input per path, accepted ones preferred, short before long; then fill up
		std::vector<size_t> order(ins.size());
		for (size_t i = 0; i < order.size(); i++) order[i] = i;
		std::mt19937_64 rng(args.seed + hash_str(c.id));
		if (ins.size() > 40) std::shuffle(order.begin() + 8, order.end(), rng);
		for (int pass = 0; pass < 2 && n < args.dump; pass++)
			for (size_t i : order)
			{
				if (n >= args.dump) break;
				if (ins[i].size() > size_t(args.maxlen)) continue;
				Outcome o = run_model(g, c, ins[i], false);
				if (o.budget || o.steps > 4000) continue;
				if (pass == 0 && !o.ok && acc * 2 < n) continue;
				if (!seen.insert(o.path * 2 + o.ok).second && pass == 0) continue;
				if (pass == 1 && o.furthest == 0) continue;
				acc += o.ok;
				++n;
				fprintf(outf, "%s\t%s\n", c.id, codes_str(ins[i]).c_str());
			}
	}
	fclose(f);
	fclose(outf);
	return 0;
}

static void json_str(FILE* f, const std::string& s)
{
	fputc('"', f);
	for (unsigned char ch : s) { if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch); else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch); else fputc(ch, f); }
	fputc('"', f);
}

} // namespace vf

static int vf_main(int argc, char** argv)
{
	using namespace vf;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--cats") { std::istringstream s(v); std::string t; while (std::getline(s, t, ',')) args.cats.insert(t); }
		else if (k == "--seed") args.seed = std::stoull(v);
		else if (k == "--exh") args.exh = std::stol(v);
		else if (k == "--samples") args.samples = std::stol(v);
		else if (k == "--maxlen") args.maxlen = std::stol(v);
		else if (k == "--long") args.longn = std::stol(v);
		else if (k == "--longlen") args.longlen = std::stol(v);
		else if (k == "--shard") args.shard = std::stoi(v);
		else if (k == "--shards") args.shards = std::stoi(v);
		else if (k == "--repeat") args.repeat = std::stoi(v);
		else if (k == "--aborts") args.aborts = std::stol(v);
		else if (k == "--faults") args.faults = std::stol(v);
		else if (k == "--slack") args.slack = std::stod(v);
		else if (k == "--place") args.place = std::stoi(v);
		else if (k == "--threads") args.threads = std::stoi(v);
		else if (k == "--deep") args.deep = std::stoi(v);
		else if (k == "--edges") args.edges = std::stoi(v);
		else if (k == "--stack") args.stack = std::stol(v);
		else if (k == "--only") args.only = v;
		else if (k == "--input") { args.input = v; args.have_input = true; }
		else if (k == "--specs") args.specs = v;
		else if (k == "--dump") args.dump = std::stol(v);
		else if (k == "--cx") args.cx = std::stoi(v);
		else if (k == "--status") args.status = v;
		else if (k == "--out") args.out = v;
		else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 3; }
	}
	outf = args.out.empty() ? stdout : fopen(args.out.c_str(), "w");
	if (!args.status.empty())
	{
		int fd = open(args.status.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, sizeof(Status))) return 3;
		status = static_cast<Status*>(mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
	}
	else status = new Status{};
	signal(SIGALRM, on_alarm);
	itimerval tv{ { 2, 0 }, { 2, 0 } };
	setitimer(ITIMER_REAL, &tv, nullptr);

	if (args.dump) return dump_inputs();
	auto& cs = cases();
	std::sort(cs.begin(), cs.end(), [](const Case& a, const Case& b) { return std::strcmp(a.id, b.id) < 0; });
	std::map<std::string, const Case*> by_id;
	for (auto& c : cs) by_id[c.id] = &c;
	std::vector<std::pair<const Case*, Codes>> work;
	long group = -1;
	std::string last_group;
	for (size_t i = 0; i < cs.size(); i++)
	{
		const Case& c = cs[i];
		std::string id = c.id;
		// the two sides of a law go to the same shard
		std::string gid = id.size() > 2 && id[id.size() - 2] == '.' && (id.back() == 'L' || id.back() == 'R') ? id.substr(0, id.size() - 2) : id;
		if (gid != last_group) { ++group; last_group = gid; }
		if (!args.only.empty() && args.only != id) continue;
		if (args.only.empty() && group % args.shards != args.shard) continue;
		Grammar g = SpecReader(c.spec).read();
		++S.cases;
		bool erasable = !has(g, [](const Node* n) { return n->k == Flt || n->k == Joi; });
		std::set<const Node*> seen;
		bool allocfree = !may_allocate(g, g.root, seen);
		bool identity = !has(g, [](const Node* n) { return n->k == Map || n->k == Del; });
		if (args.cx)
		{
			for (auto& row : cx_rows()) if (std::strcmp(row.id, c.id) == 0) check_cx(c, g, row);
			continue;
		}
		std::vector<Codes> ins;
		if (args.have_input)
		{
			Codes in; std::istringstream s(args.input); i64 x; while (s >> x) in.push_back(x);
			ins.push_back(std::move(in));
		}
		else ins = inputs_for(c, g);
		if (args.threads)
		{
			for (auto& in : ins)
			{
				Outcome mp = run_model(g, c, in, false), ml = run_model(g, c, in, true);
				if (mp.budget || ml.budget || mp.steps + ml.steps > 4000) { ++S.skipped; continue; }
				observe(c, in, mp);
				S.events += long(mp.events.size());
				S.maxlen = std::max<long>(S.maxlen, long(in.size()));
				if (S.samples.size() < 6 && mp.furthest > 1 && work.size() % 97 == 1) S.samples.push_back(id + ": " + c.cpp + "  on [" + clip(codes_str(in), 80) + "] by " + std::to_string(args.threads) + " threads -> " + (mp.ok ? "ok consumed " + std::to_string(mp.pos) : "fail"));
				work.push_back({ &c, in });
			}
			continue;
		}
		const Case* partner = nullptr;
		if (want("law") && gid != id)
		{
			auto it = by_id.find(gid + (id.back() == 'L' ? ".R" : ".L"));
			if (it != by_id.end()) partner = it->second;
		}
		for (auto& in : ins)
		{
			if (partner) check_law(c, *partner, g, in);
			check_one(c, g, in, erasable, allocfree, identity);
		}
		if (args.stack && !args.have_input) check_stack(c, g);
	}
	if (args.threads) run_threads(work);
	fprintf(outf, "S\t{\"cases\":%ld,\"evals\":%ld,\"accepted\":%ld,\"rejected\":%ld,\"progressed\":%ld,\"distinct_nontrivial\":%zu,\"distinct_paths\":%zu,\"skipped\":%ld,\"events\":%ld,\"tokens\":%ld,\"faults\":%ld,\"faults_hit\":%ld,\"allocs\":%ld,\"cmps\":%ld,\"max_depth\":%ld,\"max_len\":%ld,\"values\":%ld,\"spans\":%ld,\"zero_alloc\":%ld,\"law_comparisons\":%ld,\"stack_runs\":%ld,\"max_stack\":%ld,\"concurrent\":%ld,\"nested\":%ld,\"compile_time\":%ld,\"violations\":%ld,\"outcomes\":{",
		S.cases, S.evals, S.accepted, S.rejected, S.progressed, S.nontrivial.size(), S.paths.size(), S.skipped, S.events, S.tokens, S.faults, S.faults_hit, S.allocs, S.cmps, S.maxdepth, S.maxlen, S.values, S.spans, S.zero_alloc, S.laws, S.stacks, S.max_stack, S.concurrent, S.nested, S.cx, violations);
	bool first = true;
	for (int k = 0; k < 18; k++) for (int b = 0; b < 2; b++) { fprintf(outf, "%s\"%s.%s\":%ld", first ? "" : ",", kind_names[k], b ? "ok" : "fail", S.outcome[k][b]); first = false; }
	fprintf(outf, "},\"samples\":[");
	for (size_t i = 0; i < S.samples.size(); i++) { if (i) fputc(',', outf); json_str(outf, S.samples[i]); }
	fprintf(outf, "]}\n");
	fclose(outf);
	return 0;
}

#include <pthread.h>
int main(int argc, char** argv)
{
	// deep recursion of the grammar is recursion of the parser: give it room
	bool deep = false;
	for (int i = 1; i < argc; i++) deep |= std::strcmp(argv[i], "--deep") == 0;
	if (!deep) return vf_main(argc, argv);
	struct A { int n; char** v; int rc; } a{ argc, argv, 3 };
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, std::size_t(2) << 30);
	pthread_t t;
	if (pthread_create(&t, &at, [](void* p) -> void* { auto* a = static_cast<A*>(p); a->rc = vf_main(a->n, a->v); return nullptr; }, &a)) return 3;
	pthread_join(t, nullptr);
	return a.rc;
}
