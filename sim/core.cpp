#include "core.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <iostream>
#include <sstream>
#include <fstream>
#include <new>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <errno.h>
#include <random>
#include <chrono>
#include <unordered_set>
#include <fcntl.h>
#include <sys/personality.h>
#include <algorithm>

extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);
extern "C" void __real_free(void*);
extern "C" int __real_posix_memalign(void**, size_t, size_t);
extern "C" void* __real_aligned_alloc(size_t, size_t);
extern "C" char __executable_start;

namespace sim
{
	std::string fmt(const char* f, ...)
	{
		char buf[2048];
		va_list ap;
		va_start(ap, f);
		vsnprintf(buf, sizeof buf, f, ap);
		va_end(ap);
		return buf;
	}

	// ------------------------------------------------------------ scenario text
	static std::string enc(const std::string& s)
	{
		std::string r = "\"";
		for(unsigned char c : s) { if(c < 33 || c == '%' || c == '"' || c > 126) r += fmt("%%%02x", c); else r += (char)c; }
		return r + "\"";
	}
	static std::string dec(const std::string& s)
	{
		std::string r;
		for(size_t i = 1; i + 1 < s.size(); ++i)
		{
			if(s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
			else r += s[i];
		}
		return r;
	}
	static std::string num(double d)
	{
		if(d == 0 && std::signbit(d)) return "-0";
		if(d == (double)(long long)(std::fabs(d) < 1e15 ? d : 0) && std::fabs(d) < 1e15) return fmt("%lld", (long long)d);
		return fmt("%.17g", d);
	}
	std::string Scenario::save() const
	{
		std::string o = "scenario 1\nprop " + prop + "\nseed " + std::to_string(seed) + "\nindex " + std::to_string(index) + "\n";
		for(auto& p : par) o += "par " + p.first + " " + num(p.second) + "\n";
		for(auto& op : ops)
		{
			o += "op " + op.k + " @" + num(op.t);
			for(double d : op.a) o += " " + num(d);
			for(auto& s : op.s) o += " " + enc(s);
			o += "\n";
		}
		return o;
	}
	Scenario Scenario::load(const std::string& text)
	{
		Scenario sc;
		std::istringstream is(text);
		std::string line;
		while(std::getline(is, line))
		{
			if(line.empty() || line[0] == '#') continue;
			std::istringstream ls(line);
			std::string k;
			ls >> k;
			if(k == "prop") ls >> sc.prop;
			else if(k == "seed") ls >> sc.seed;
			else if(k == "index") ls >> sc.index;
			else if(k == "par") { std::string n, v; ls >> n >> v; sc.par[n] = strtod(v.c_str(), 0); }
			else if(k == "op")
			{
				Op op;
				std::string tok;
				ls >> op.k;
				while(ls >> tok)
				{
					if(tok[0] == '@') op.t = strtod(tok.c_str() + 1, 0);
					else if(tok[0] == '"') op.s.push_back(dec(tok));
					else op.a.push_back(strtod(tok.c_str(), 0));
				}
				sc.ops.push_back(op);
			}
		}
		return sc;
	}

	// ------------------------------------------------------------ event log
	void Ctx::ev(const char* tag, const double* v, size_t n)
	{
		raw(tag, strlen(tag));
		for(size_t i = 0; i < n; ++i) { double d = v[i]; if(d == 0) d = 0; if(std::isnan(d)) d = NAN; uint64_t b; memcpy(&b, &d, 8); if(std::isnan(d)) b = 0x7ff8000000000000ull; raw(&b, 8); }
		if(verbose)
		{
			std::string l = tag;
			for(size_t i = 0; i < n; ++i) l += " " + fmt("%.17g", v[i]);
			lines.push_back(l);
		}
	}
	void Ctx::evs(const char* tag, const std::string& s)
	{
		raw(tag, strlen(tag));
		raw(s.data(), s.size());
		if(verbose) lines.push_back(std::string(tag) + " " + s);
	}

	std::vector<Property>& registry() { static std::vector<Property>* r = new std::vector<Property>(); return *r; }

	// ------------------------------------------------------------ library guard / blocks
	static thread_local int t_lib = 0;
	static thread_local int t_nopreempt = 0;
	static uint64_t g_blocks = 0, g_budget = ~0ull, g_switch_at = ~0ull;
	static uint8_t* g_edges = nullptr;
	static thread_local uintptr_t t_prev = 0;
	static const size_t EDGES = 1 << 16;
	static void preempt();

	Lib::Lib() { if(t_lib == 0) mem::scribble(); ++t_lib; }
	Lib::~Lib() { --t_lib; }
	uint64_t blocks() { return g_blocks; }
	void reset_blocks(uint64_t budget) { g_blocks = 0; g_budget = budget; g_switch_at = ~0ull; t_prev = 0; }
	uint64_t edges_covered() { uint64_t n = 0; for(size_t i = 0; g_edges && i < EDGES; ++i) n += g_edges[i]; return n; }
	const std::vector<uint8_t>& edge_map() { static std::vector<uint8_t> v; v.assign(g_edges, g_edges + (g_edges ? EDGES : 0)); return v; }

	// ------------------------------------------------------------ simulated heap
	namespace mem
	{
		struct Hdr { uint64_t size; uint32_t magic; uint32_t live; Hdr* prev; Hdr* next; };
		static const uint32_t MAGIC = 0x51AB10C5u;
		static const uint64_t CANARY = 0xC0FFEE5AFE57AC4Bull;
		static const size_t ARENA = 1ull << 30;
		static char* base = nullptr;
		static char* lo = nullptr;
		static char* hi = nullptr;
		static Config cfg;
		static Hdr* head = nullptr;                  // live list
		static void* bins[4096];                     // free lists by 64-byte class (small blocks)
		static long g_fail = 0;
		static uint64_t g_failures = 0, g_live = 0, g_total = 0, g_bytes = 0;
		static std::string* g_corrupt = nullptr;
		static char* maxlo = nullptr;
		static char* minhi = nullptr;
		static bool g_inside = false;

		static void init()
		{
			if(base) return;
			base = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if(base == MAP_FAILED) _exit(99);
			g_edges = (uint8_t*)mmap(nullptr, EDGES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			g_corrupt = new std::string();
			maxlo = base;
			minhi = base + ARENA;
		}
		void reset(const Config& c)
		{
			init();
			cfg = c;
			if((size_t)(maxlo - base) > (64u << 20)) { madvise(base, maxlo - base, MADV_DONTNEED); maxlo = base; }
			if((size_t)(base + ARENA - minhi) > (64u << 20)) { char* m = (char*)((uintptr_t)minhi & ~4095ull); madvise(m, base + ARENA - m, MADV_DONTNEED); minhi = base + ARENA; }
			lo = base;
			hi = base + ARENA;
			head = nullptr;
			memset(bins, 0, sizeof bins);
			g_fail = 0;
			g_failures = g_live = g_total = g_bytes = 0;
			g_corrupt->clear();
		}
		void fail_after(long n) { g_fail = n; }
		long pending_fail() { return g_fail; }
		uint64_t failures() { return g_failures; }
		uint64_t live_blocks() { return g_live; }
		uint64_t live_bytes() { return g_bytes; }
		uint64_t total_allocs() { return g_total; }
		static inline bool ours(const void* p) { return base && (const char*)p >= base && (const char*)p < base + ARENA; }
		static void pattern(void* p, size_t n)
		{
			uint32_t f = cfg.fill;
			if((f & 0xff) * 0x01010101u == f) { memset(p, (int)(f & 0xff), n); return; }
			unsigned char* c = (unsigned char*)p;
			size_t i = 0;
			for(; i + 4 <= n; i += 4) memcpy(c + i, &f, 4);
			for(; i < n; ++i) c[i] = (unsigned char)(f >> (8 * (i & 3)));
		}
		static void* alloc(size_t n)
		{
			if(g_fail > 0 && --g_fail == 0) { ++g_failures; return nullptr; }
			++g_total;
			size_t need = ((sizeof(Hdr) + n + 8 + 63) / 64) * 64;
			size_t cls = need / 64;
			Hdr* h = nullptr;
			if(cfg.reuse && cls < 4096 && bins[cls]) { h = (Hdr*)bins[cls]; bins[cls] = *(void**)(h + 1); }
			else
			{
				if((size_t)(hi - lo) < need) { fprintf(stderr, "simulated heap exhausted\n"); _exit(98); }
				if(cfg.descending) { hi -= need; h = (Hdr*)hi; if(hi < minhi) minhi = hi; }
				else { h = (Hdr*)lo; lo += need; if(lo > maxlo) maxlo = lo; }
			}
			h->size = n;
			h->magic = MAGIC;
			h->live = 1;
			h->prev = nullptr;
			h->next = head;
			if(head) head->prev = h;
			head = h;
			++g_live;
			g_bytes += n;
			pattern(h + 1, n);
			memcpy((char*)(h + 1) + n, &CANARY, 8);
			return h + 1;
		}
		static void release(void* p)
		{
			Hdr* h = (Hdr*)p - 1;
			if(h->magic != MAGIC || !h->live) { if(g_corrupt->empty()) { int s = t_lib; t_lib = 0; *g_corrupt = "a block is released twice"; t_lib = s; } return; }
			if(memcmp((char*)p + h->size, &CANARY, 8) != 0) { if(g_corrupt->empty()) { int s = t_lib; t_lib = 0; *g_corrupt = fmt("write past the end of a %llu byte block", (unsigned long long)h->size); t_lib = s; } }
			h->live = 0;
			if(h->prev) h->prev->next = h->next; else head = h->next;
			if(h->next) h->next->prev = h->prev;
			--g_live;
			g_bytes -= h->size;
			pattern(p, h->size);
			size_t need = ((sizeof(Hdr) + h->size + 8 + 63) / 64) * 64;
			size_t cls = need / 64;
			if(cfg.reuse && cls < 4096) { *(void**)(h + 1) = bins[cls]; bins[cls] = h; }
		}
		bool corrupted(std::string& why)
		{
			if(!g_corrupt->empty()) { why = *g_corrupt; return true; }
			for(Hdr* h = head; h; h = h->next)
				if(h->magic != MAGIC || memcmp((char*)(h + 1) + h->size, &CANARY, 8) != 0) { why = fmt("write past the end of a %llu byte block", (unsigned long long)h->size); return true; }
			return false;
		}
		__attribute__((noinline)) void scribble()
		{
			volatile char buf[12288];
			uint32_t f = cfg.fill;
			if((f & 0xff) * 0x01010101u == f) memset((void*)buf, (int)(f & 0xff), sizeof buf);
			else for(size_t i = 0; i + 4 <= sizeof buf; i += 4) memcpy((void*)(buf + i), &f, 4);
			asm volatile("" : : "r"(buf) : "memory");
		}
	}

	// ------------------------------------------------------------ clocks and randomness
	namespace env
	{
		static Config cfg;
		static uint64_t g_ns = 0, g_calls = 0;
		static Rng g_r(1);
		static const double* g_sim = nullptr;
		static uint64_t g_seen = 0, g_wall = 0;
		static Rng g_j(1);
		void reset(const Config& c) { cfg = c; g_ns = c.clock0 * 1000000000ull; g_calls = 0; g_r = Rng(c.rand_seed); g_j = Rng(c.rand_seed + 7); g_sim = nullptr; g_seen = g_wall = 0; }
		void follow(const double* simtime) { g_sim = simtime; }
		uint64_t consulted() { return g_calls; }
		// the clock that only goes forwards
		static uint64_t now()
		{
			++g_calls;
			g_ns += cfg.step_ns;
			if(g_sim && *g_sim > 0 && *g_sim < 1e9)
			{
				uint64_t t = (uint64_t)(*g_sim * cfg.speed * 1e9);
				if(t > g_seen) { g_ns += t - g_seen; g_seen = t; }
			}
			if(cfg.jumps && g_j.p(0.1)) g_ns += (uint64_t)std::pow(10, g_j.u(3, 12));
			return g_ns;
		}
		// the clock on the wall: somebody sets it
		static uint64_t wall()
		{
			uint64_t n = now();
			if(cfg.jumps && g_j.p(0.1)) g_wall = g_j.p(0.5) ? (uint64_t)std::pow(10, g_j.u(3, 17)) : 0;
			return n + g_wall;
		}
		static uint64_t rnd() { ++g_calls; return g_r.next(); }
	}

	// ------------------------------------------------------------ threads
	namespace
	{
		struct Sched
		{
			int n = 0, cur = -1;
			std::vector<sem_t> sem;
			std::vector<char> done;
			std::vector<Switch> plan;
			size_t next = 0;
			sem_t all;
			ThreadReport rep;
			int blocked_spins = 0;
			uint64_t base = 0;
		};
		Sched* S = nullptr;
		thread_local int t_id = -1;
		void arm()
		{
			if(S->next < S->plan.size()) g_switch_at = g_blocks + std::max<uint64_t>(1, S->plan[S->next].after);
			else g_switch_at = ~0ull;
		}
		int pick(int want)
		{
			if(want >= 0 && want < S->n && !S->done[want]) return want;
			for(int k = 1; k <= S->n; ++k) { int c = ((want < 0 ? 0 : want) + k) % S->n; if(!S->done[c]) return c; }
			return -1;
		}
		void hand_to(int to)
		{
			int me = t_id;
			if(to == me || to < 0) return;
			S->cur = to;
			S->rep.switches++;
			S->rep.trace = mix64(S->rep.trace ^ (g_blocks - S->base) * 31 ^ (uint64_t)to);
			sem_post(&S->sem[to]);
			while(sem_wait(&S->sem[me]) != 0) {}
		}
	}
	static void preempt()
	{
		if(!S || t_id < 0) { g_switch_at = ~0ull; return; }
		if(t_nopreempt > 0) { g_switch_at = g_blocks + 1; return; }
		int want = S->plan[S->next].to;
		S->next++;
		arm();
		int to = pick(want);
		if(to >= 0 && to != t_id)
		{
			int l = t_lib; uintptr_t pv = t_prev;
			S->rep.midcall++;
			t_lib = 0;
			hand_to(to);
			t_lib = l; t_prev = pv;
		}
	}
	// used when the running thread cannot go on (a lock is held by another one)
	static bool yield_blocked()
	{
		if(!S || t_id < 0) return false;
		if(++S->blocked_spins > 10000) { S->rep.deadlock = true; return false; }
		int to = pick((t_id + 1) % S->n);
		if(to < 0 || to == t_id) { S->rep.deadlock = true; return false; }
		int l = t_lib; uintptr_t pv = t_prev;
		t_lib = 0;
		hand_to(to);
		t_lib = l; t_prev = pv;
		return true;
	}
	ThreadReport run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& plan)
	{
		Sched sch;
		sch.n = (int)bodies.size();
		sch.sem.resize(sch.n);
		sch.done.assign(sch.n, 0);
		sch.plan = plan;
		sch.base = g_blocks;
		for(auto& s : sch.sem) sem_init(&s, 0, 0);
		sem_init(&sch.all, 0, 0);
		S = &sch;
		std::vector<std::thread> th;
		for(int i = 0; i < sch.n; ++i)
		{
			th.emplace_back([i, &bodies]() {
				t_id = i;
				while(sem_wait(&S->sem[i]) != 0) {}
				bodies[i]();
				S->done[i] = 1;
				int to = pick((i + 1) % S->n);
				if(to >= 0) { S->cur = to; sem_post(&S->sem[to]); }
				else sem_post(&S->all);
			});
		}
		arm();
		sch.cur = 0;
		sem_post(&sch.sem[0]);
		while(sem_wait(&sch.all) != 0) {}
		for(auto& t : th) t.join();
		for(auto& s : sch.sem) sem_destroy(&s);
		sem_destroy(&sch.all);
		g_switch_at = ~0ull;
		S = nullptr;
		return sch.rep;
	}

	// ------------------------------------------------------------ plotting device
	namespace plot
	{
		static std::vector<simplot::Call>* g_calls = new std::vector<simplot::Call>();
		static long g_fail = 0;
		static bool g_fired = false;
		void reset() { g_calls->clear(); g_fail = 0; g_fired = false; }
		void fail_at(long n) { g_fail = n; g_fired = false; }
		bool fired() { return g_fired; }
		std::vector<simplot::Call>& calls() { return *g_calls; }
	}

	// ------------------------------------------------------------ diagnostics stream
	static uint64_t g_lines = 0;
	struct NullBuf : std::streambuf
	{
		int overflow(int c) override { if(c == '\n') ++g_lines; return bad ? EOF : (c == EOF ? 0 : c); }
		std::streamsize xsputn(const char*, std::streamsize n) override { return bad ? 0 : n; }
		bool bad = false;
	};
	static NullBuf* g_null = new NullBuf();
	uint64_t diag_lines() { return g_lines; }
	void cerr_fault(bool bad) { g_null->bad = bad; if(!bad) std::cerr.clear(); }
}

namespace simplot
{
	bool record(const Call& c)
	{
		int l = sim::t_lib;
		sim::t_lib = 0; // the device is outside of the system under test
		bool ok = true, fail = false;
		if(sim::plot::g_fail > 0 && --sim::plot::g_fail == 0) { fail = true; sim::plot::g_fired = true; }
		if(!fail) sim::plot::g_calls->push_back(Call{c.fn, c.x, c.y, c.s});
		sim::t_lib = l;
		if(fail)
		{
			// plot() of the real device reports failure by its return value, the others throw
			if(c.fn == "plot") { ok = false; if(c.x.size() != c.y.size()) throw std::runtime_error("Call to plot() failed."); }
			else throw std::runtime_error("Call to " + c.fn + "() failed.");
		}
		return ok;
	}
}

// ---------------------------------------------------------------- instrumentation callback
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc()
{
	if(sim::t_lib <= 0) return;
	uint64_t b = ++sim::g_blocks;
	uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
	uint32_t e = (uint32_t)(((pc * 0x9E3779B1u) ^ (sim::t_prev >> 1)) & (sim::EDGES - 1));
	if(sim::g_edges) sim::g_edges[e] = 1;
	sim::t_prev = (uint32_t)(pc * 0x9E3779B1u);
	if(b >= sim::g_switch_at) sim::preempt();
	if(b > sim::g_budget) { fprintf(stderr, "basic block budget exhausted\n"); _exit(97); }
}

// ---------------------------------------------------------------- heap seams
static inline bool in_lib() { return sim::t_lib > 0; }
extern "C" void* __wrap_malloc(size_t n) { return in_lib() ? sim::mem::alloc(n) : __real_malloc(n); }
extern "C" void __wrap_free(void* p) { if(!p) return; if(sim::mem::ours(p)) sim::mem::release(p); else __real_free(p); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { if(!in_lib()) return __real_calloc(a, b); void* p = sim::mem::alloc(a * b); if(p) memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* p, size_t n)
{
	if(p ? !sim::mem::ours(p) : !in_lib()) return __real_realloc(p, n);
	void* q = sim::mem::alloc(n);
	if(q && p) { size_t o = ((sim::mem::Hdr*)p - 1)->size; memcpy(q, p, o < n ? o : n); sim::mem::release(p); }
	return q;
}
extern "C" int __wrap_posix_memalign(void** r, size_t al, size_t n)
{
	if(!in_lib() || al > 16) return __real_posix_memalign(r, al, n);
	*r = sim::mem::alloc(n);
	return *r ? 0 : ENOMEM;
}
extern "C" void* __wrap_aligned_alloc(size_t al, size_t n) { return (!in_lib() || al > 16) ? __real_aligned_alloc(al, n) : sim::mem::alloc(n); }
void* operator new(size_t n)
{
	void* p = in_lib() ? sim::mem::alloc(n) : __real_malloc(n ? n : 1);
	if(!p) throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return in_lib() ? sim::mem::alloc(n) : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return in_lib() ? sim::mem::alloc(n) : __real_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }

// ---------------------------------------------------------------- clock / randomness seams
extern "C" {
	int __real_rand(void);
	int __wrap_rand(void) { return in_lib() ? (int)(sim::env::rnd() & 0x7fffffff) : __real_rand(); }
	long __real_random(void);
	long __wrap_random(void) { return in_lib() ? (long)(sim::env::rnd() & 0x7fffffff) : __real_random(); }
	double __real_drand48(void);
	double __wrap_drand48(void) { return in_lib() ? (double)(sim::env::rnd() >> 11) / 9007199254740992.0 : __real_drand48(); }
	time_t __real_time(time_t*);
	time_t __wrap_time(time_t* t) { if(!in_lib()) return __real_time(t); time_t r = (time_t)(sim::env::wall() / 1000000000ull); if(t) *t = r; return r; }
	clock_t __real_clock(void);
	clock_t __wrap_clock(void) { return in_lib() ? (clock_t)(sim::env::now() / 1000) : __real_clock(); }
	int __real_gettimeofday(struct timeval*, void*);
	int __wrap_gettimeofday(struct timeval* tv, void* z) { if(!in_lib()) return __real_gettimeofday(tv, z); uint64_t n = sim::env::wall(); tv->tv_sec = n / 1000000000ull; tv->tv_usec = (n / 1000) % 1000000; return 0; }
	int __real_clock_gettime(clockid_t, struct timespec*);
	int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { if(!in_lib()) return __real_clock_gettime(c, ts); uint64_t n = c == CLOCK_REALTIME ? sim::env::wall() : sim::env::now(); ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0; }
	// std::chrono clocks and std::random_device
	std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
	std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return in_lib() ? std::chrono::steady_clock::time_point(std::chrono::nanoseconds(sim::env::now())) : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
	std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
	std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return in_lib() ? std::chrono::system_clock::time_point(std::chrono::nanoseconds(sim::env::wall())) : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
	unsigned int __real__ZNSt13random_device9_M_getvalEv(void*);
	unsigned int __wrap__ZNSt13random_device9_M_getvalEv(void* self) { return in_lib() ? (unsigned int)sim::env::rnd() : __real__ZNSt13random_device9_M_getvalEv(self); }

	// ------------------------------------------------------------ synchronisation seams
	int __real___cxa_guard_acquire(long*);
	int __wrap___cxa_guard_acquire(long* g) { ++sim::t_nopreempt; int r = __real___cxa_guard_acquire(g); if(!r) --sim::t_nopreempt; return r; }
	void __real___cxa_guard_release(long*);
	void __wrap___cxa_guard_release(long* g) { __real___cxa_guard_release(g); --sim::t_nopreempt; }
	void __real___cxa_guard_abort(long*);
	void __wrap___cxa_guard_abort(long* g) { __real___cxa_guard_abort(g); --sim::t_nopreempt; }
	int __real_pthread_mutex_lock(pthread_mutex_t*);
	int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
	{
		if(!in_lib()) return __real_pthread_mutex_lock(m);
		for(;;)
		{
			int r = pthread_mutex_trylock(m);
			if(r != EBUSY) return r;
			if(!sim::yield_blocked()) { fprintf(stderr, "deadlock\n"); _exit(96); }
		}
	}
}

// ================================================================ driver
namespace sim
{
	static const Property* find(const std::string& id)
	{
		for(auto& p : registry()) if(p.id == id) return &p;
		return nullptr;
	}
	static uint64_t seed_of(const std::string& id, uint64_t seed, uint64_t index)
	{
		uint64_t h = mix64(seed);
		for(char c : id) h = mix64(h ^ (unsigned char)c);
		return mix64(h ^ mix64(index + 0x1234567));
	}
	static Scenario make(const Property& p, uint64_t seed, uint64_t index, bool big)
	{
		Rng r(seed_of(p.id, seed, index));
		channel() = Channel();
		Scenario sc = p.gen(r, big);
		if(channel().dropped) sc.par["chan_dropped"] = (double)channel().dropped;
		if(channel().duplicated) sc.par["chan_duplicated"] = (double)channel().duplicated;
		if(channel().late) sc.par["chan_late"] = (double)channel().late;
		sc.prop = p.id;
		sc.seed = seed;
		sc.index = index;
		return sc;
	}
	Result execute(const Property& p, const Scenario& sc, bool verbose)
	{
		Result r;
		Ctx c;
		c.verbose = verbose;
		mem::Config mc;
		mc.fill = (uint32_t)sc.get("mem_fill", 0xA5A5A5A5u);
		mc.descending = sc.geti("mem_desc", 0) != 0;
		mc.reuse = sc.geti("mem_reuse", 1) != 0;
		mem::reset(mc);
		env::Config ec;
		ec.rand_seed = (uint64_t)sc.get("env_rand", 1);
		ec.clock0 = (uint64_t)sc.get("env_clock", 1600000000);
		env::reset(ec);
		plot::reset();
		cerr_fault(sc.geti("cerr_bad", 0) != 0);
		reset_blocks((uint64_t)sc.get("block_budget", 4e9));
		try
		{
			for(const char* k : {"dropped", "duplicated", "late"}) if(sc.get(std::string("chan_") + k) > 0) c.count(std::string("faults.message_") + k, (uint64_t)sc.get(std::string("chan_") + k));
			p.exec(sc, c);
			std::string why;
			if(mem::corrupted(why)) throw Violation{"memory", why};
		}
		catch(Violation& v) { r.kind = 1; r.cls = v.cls; r.msg = v.msg; }
		catch(Reject& v) { r.kind = 2; r.msg = v.why; }
		catch(std::exception& e) { r.kind = 1; r.cls = "unexpected-exception"; r.msg = e.what(); }
		t_lib = 0;
		mem::fail_after(0);
		cerr_fault(false);
		r.hash = c.hash;
		r.nontrivial = c.nontrivial && r.kind == 0;
		r.simtime = c.simtime;
		r.cnt = c.cnt;
		r.lines = c.lines;
		return r;
	}
	static std::string signame(int status)
	{
		if(WIFSIGNALED(status)) return fmt("crash.signal-%d", WTERMSIG(status));
		int e = WEXITSTATUS(status);
		if(e == 97) return "hang.block-budget";
		if(e == 96) return "hang.deadlock";
		return fmt("crash.exit-%d", e);
	}
	// Every simulated execution is a process of its own, forked from one that has never entered the
	// system under test: nothing (static variables, caches) survives from an earlier execution, and
	// crashes of the system under test are results, not accidents.
	bool isolated(const std::function<std::string()>& f, std::string& out, int& status, int wall_s)
	{
		int fd[2];
		if(pipe(fd) != 0) _exit(95);
		fflush(stdout);
		pid_t pid = fork();
		if(pid == 0)
		{
			::close(fd[0]);
			alarm(wall_s);
			std::string o = f();
			size_t k = 0;
			while(k < o.size()) { ssize_t w = write(fd[1], o.data() + k, o.size() - k); if(w <= 0) break; k += w; }
			_exit(0);
		}
		::close(fd[1]);
		if(pid < 0) _exit(95);
		out.clear();
		char buf[65536];
		ssize_t n;
		while((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n);
		::close(fd[0]);
		status = 0;
		waitpid(pid, &status, 0);
		return WIFEXITED(status) && WEXITSTATUS(status) == 0;
	}
	std::string died(int status) { return signame(status); }
	static bool put_all(int fd, const std::string& o)
	{
		uint64_t n = o.size();
		std::string b((char*)&n, 8);
		b += o;
		for(size_t k = 0; k < b.size();) { ssize_t w = write(fd, b.data() + k, b.size() - k); if(w <= 0) return false; k += (size_t)w; }
		return true;
	}
	static bool get_all(int fd, std::string& o)
	{
		auto some = [&](char* p, size_t n) { for(size_t k = 0; k < n;) { ssize_t r = read(fd, p + k, n - k); if(r <= 0) return false; k += (size_t)r; } return true; };
		uint64_t n = 0;
		if(!some((char*)&n, 8)) return false;
		o.resize(n);
		return n == 0 || some(&o[0], n);
	}
	Fresh::Fresh(const std::function<std::string(const std::string&)>& f)
	{
		int a[2], b[2];
		if(pipe(a) != 0 || pipe(b) != 0) _exit(95);
		fflush(stdout);
		pid = fork();
		if(pid < 0) _exit(95);
		if(pid == 0)
		{
			::close(a[1]);
			::close(b[0]);
			alarm(120);
			std::string rq, out;
			while(get_all(a[0], rq))
			{
				int st = 0;
				bool ok = isolated([&]() { return f(rq); }, out, st, 60);
				out.insert(0, (const char*)&st, sizeof st);
				out.insert(out.begin(), ok ? 1 : 0);
				if(!put_all(b[1], out)) break;
			}
			_exit(0);
		}
		::close(a[0]);
		::close(b[1]);
		to = a[1];
		from = b[0];
	}
	Fresh::~Fresh()
	{
		::close(to);
		::close(from);
		int st;
		waitpid(pid, &st, 0);
	}
	bool Fresh::ask(const std::string& request, std::string& answer, int& status)
	{
		std::string o;
		if(!put_all(to, request) || !get_all(from, o) || o.size() < 1 + sizeof status) { status = 0; throw Reject{"the helper process died"}; }
		memcpy(&status, o.data() + 1, sizeof status);
		answer = o.substr(1 + sizeof status);
		return o[0] == 1;
	}
	static std::string pack(const Result& r)
	{
		std::string o = fmt("%d %llu %d %.17g %zu\n", r.kind, (unsigned long long)r.hash, r.nontrivial ? 1 : 0, r.simtime, r.cnt.size());
		auto line = [](std::string t) { for(auto& c : t) if(c == '\n') c = ' '; return t + "\n"; };
		o += line(r.cls) + line(r.msg);
		for(auto& c : r.cnt) o += fmt("%llu ", (unsigned long long)c.second) + c.first + "\n";
		for(auto& l : r.lines) o += line(l);
		return o;
	}
	static Result unpack(const std::string& t)
	{
		Result r;
		std::istringstream is(t);
		std::string l;
		std::getline(is, l);
		unsigned long long h = 0;
		int nt = 0;
		size_t n = 0;
		sscanf(l.c_str(), "%d %llu %d %lf %zu", &r.kind, &h, &nt, &r.simtime, &n);
		r.hash = h;
		r.nontrivial = nt;
		std::getline(is, r.cls);
		std::getline(is, r.msg);
		for(size_t i = 0; i < n && std::getline(is, l); ++i) { size_t sp = l.find(' '); r.cnt[l.substr(sp + 1)] = strtoull(l.c_str(), 0, 10); }
		while(std::getline(is, l)) r.lines.push_back(l);
		return r;
	}
	static Result execute_forked(const Property& p, const Scenario& sc, bool verbose, int wall_s)
	{
		std::string out;
		int status = 0;
		bool ok = isolated([&]() {
			if(!verbose) { int dn = open("/dev/null", O_WRONLY); if(dn >= 0) dup2(dn, 2); }
			return pack(execute(p, sc, verbose));
		}, out, status, wall_s);
		if(ok) return unpack(out);
		Result r;
		r.kind = 1;
		r.cls = signame(status);
		r.msg = "the simulated process died";
		return r;
	}

	static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
	static void spit(const std::string& f, const std::string& t) { std::ofstream o(f); o << t; }
	static std::string jesc(const std::string& s)
	{
		std::string r;
		for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if(c < 32) r += fmt("\\u%04x", c); else r += (char)c; }
		return r;
	}

	// run PROP SEED FIRST STRIDE COUNT CAP_S OUT TIER
	static int cmd_run(int argc, char** argv)
	{
		if(argc < 10) return 2;
		const Property* p = find(argv[2]);
		if(!p) return 2;
		uint64_t seed = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
		double cap = atof(argv[7]);
		std::string out = argv[8];
		bool big = std::string(argv[9]) == "thorough";
		auto t0 = std::chrono::steady_clock::now();
		std::map<std::string, uint64_t> cnt;
		std::unordered_set<uint64_t> hashes;
		uint64_t runs = 0, ok = 0, rej = 0, nontriv = 0, regate = 0, mism = 0;
		double simtime = 0;
		Result bad;
		uint64_t badidx = 0;
		bool have = false;
		std::string rejwhy, mismatch;
		for(uint64_t i = first; i < count; i += stride)
		{
			Scenario sc = make(*p, seed, i, big);
			Result r = execute_forked(*p, sc, false, 120);
			++runs;
			simtime += r.simtime;
			for(auto& c : r.cnt) cnt[c.first] += c.second;
			if(r.kind == 0) { ++ok; if(r.nontrivial) { ++nontriv; hashes.insert(r.hash); } }
			if(r.kind == 2) { ++rej; rejwhy = r.msg; }
			if(r.kind == 1) { bad = r; badidx = i; have = true; break; }
			if((i / stride) % 16 == 0) // determinism gate on passing runs
			{
				++regate;
				Result r2 = execute_forked(*p, Scenario::load(sc.save()), false, 120);
				if(r2.hash != r.hash || r2.kind != r.kind) { ++mism; mismatch = fmt("index %llu", (unsigned long long)i); }
			}
			if(cap > 0 && (runs & 7) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > cap) break;
		}
		std::string o = "{";
		o += fmt("\"runs\":%llu,\"ok\":%llu,\"rejected\":%llu,\"nontrivial\":%llu,\"simtime\":%.6f,\"edges\":%llu,\"regate\":%llu,\"mismatch\":%llu", (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)rej, (unsigned long long)nontriv, simtime, (unsigned long long)edges_covered(), (unsigned long long)regate, (unsigned long long)mism);
		o += ",\"mismatch_at\":\"" + mismatch + "\",\"rejwhy\":\"" + jesc(rejwhy) + "\",\"cnt\":{";
		bool f = true;
		for(auto& c : cnt) { o += (f ? "\"" : ",\"") + jesc(c.first) + "\":" + std::to_string(c.second); f = false; }
		o += "}";
		if(have) o += fmt(",\"violation\":{\"index\":%llu,\"cls\":\"%s\",\"msg\":\"%s\"}", (unsigned long long)badidx, jesc(bad.cls).c_str(), jesc(bad.msg).c_str());
		o += "}\n";
		spit(out, o);
		std::ofstream hb(out + ".hashes", std::ios::binary);
		for(uint64_t h : hashes) hb.write((const char*)&h, 8);
		hb.close();
		auto em = edge_map();
		std::ofstream eb(out + ".edges", std::ios::binary);
		eb.write((const char*)em.data(), em.size());
		eb.close();
		return 0;
	}

	static int cmd_gen(int, char** argv)
	{
		const Property* p = find(argv[2]);
		if(!p) return 2;
		spit(argv[5], make(*p, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), std::string(argv[6] ? argv[6] : "quick") == "thorough").save());
		return 0;
	}
	// replay FILE [-v]: prints "RESULT <kind> <class> <hash> <message>"
	static int cmd_replay(int argc, char** argv)
	{
		Scenario sc = Scenario::load(slurp(argv[2]));
		const Property* p = find(sc.prop);
		if(!p) { fprintf(stderr, "unknown property in %s\n", argv[2]); return 2; }
		bool v = argc > 3 && std::string(argv[3]) == "-v";
		Result r = execute_forked(*p, sc, v, 120);
		for(auto& l : r.lines) printf("  %s\n", l.c_str());
		printf("RESULT %s %s %016llx %s\n", r.kind == 0 ? "ok" : r.kind == 1 ? "violation" : "rejected", r.cls.empty() ? "-" : r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
		return r.kind == 1 ? 1 : 0;
	}
	// twice FILE: the same history twice; prints the first event that differs
	static int cmd_twice(int, char** argv)
	{
		Scenario sc = Scenario::load(slurp(argv[2]));
		const Property* p = find(sc.prop);
		if(!p) return 2;
		Result a = execute_forked(*p, sc, true, 120), b = execute_forked(*p, Scenario::load(sc.save()), true, 120);
		size_t i = 0;
		while(i < a.lines.size() && i < b.lines.size() && a.lines[i] == b.lines[i]) ++i;
		printf("%016llx %016llx kinds %d %d, %zu events equal of %zu and %zu\n", (unsigned long long)a.hash, (unsigned long long)b.hash, a.kind, b.kind, i, a.lines.size(), b.lines.size());
		if(i < a.lines.size()) printf("first:  %s\n", a.lines[i].c_str());
		if(i < b.lines.size()) printf("second: %s\n", b.lines[i].c_str());
		return a.hash == b.hash ? 0 : 1;
	}
	// shrink IN OUT MAX
	static int cmd_shrink(int, char** argv)
	{
		Scenario best = Scenario::load(slurp(argv[2]));
		const Property* p = find(best.prop);
		if(!p) return 2;
		long budget = atol(argv[4]);
		auto t0 = std::chrono::steady_clock::now();
		Result r0 = execute_forked(*p, best, false, 60);
		if(r0.kind != 1) { fprintf(stderr, "shrink: the input does not violate\n"); return 3; }
		long used = 0;
		auto try_it = [&](const Scenario& c) {
			if(used >= budget) return false;
			if(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 90) return false;
			++used;
			Result r = execute_forked(*p, c, false, 60);
			return r.kind == 1 && r.cls == r0.cls;
		};
		bool progress = true;
		int rounds = 0;
		while(progress && rounds++ < 4)
		{
			progress = false;
			for(size_t chunk = std::max<size_t>(1, best.ops.size() / 2); chunk >= 1; chunk /= 2)
			{
				for(size_t i = best.ops.size(); i > 0;)
				{
					size_t b = i > chunk ? i - chunk : 0;
					Scenario c = best;
					c.ops.erase(c.ops.begin() + b, c.ops.begin() + i);
					if(c.ops.size() < best.ops.size() && try_it(c)) { best = c; progress = true; }
					i = b;
				}
				if(chunk == 1) break;
			}
			for(auto& kv : std::map<std::string, double>(best.par))
			{
				if(kv.first.compare(0, 2, "f_") == 0 && kv.second != 0) { Scenario c = best; c.par[kv.first] = 0; if(try_it(c)) { best = c; progress = true; } }
			}
			if(best.ops.size() <= 60)
			{
				for(size_t i = 0; i < best.ops.size(); ++i)
				{
					for(size_t j = 0; j < best.ops[i].a.size(); ++j)
					{
						double v = best.ops[i].a[j];
						if(v == (double)(long)v && std::fabs(v) < 100) continue;
						double cand[3] = {0.0, std::round(v), std::round(v * 10) / 10};
						for(double cv : cand)
						{
							if(cv == v || std::isnan(v)) continue;
							Scenario c = best;
							c.ops[i].a[j] = cv;
							if(try_it(c)) { best = c; progress = true; break; }
						}
					}
				}
			}
		}
		Result r = execute_forked(*p, best, false, 60);
		best.par["expect_hash_hi"] = (double)(r.hash >> 32);
		best.par["expect_hash_lo"] = (double)(r.hash & 0xffffffffu);
		spit(argv[3], "# violation of " + best.prop + ": " + r.cls + ": " + r.msg + "\n# replay with: python3 check.py --replay <this file>\n" + best.save());
		printf("shrunk to %zu ops with %ld executions: %s: %s\n", best.ops.size(), used, r.cls.c_str(), r.msg.c_str());
		return r.kind == 1 ? 0 : 3;
	}
}


int main(int argc, char** argv)
{
	// one address space layout in all processes (where the kernel allows it), so that even results that depend
	// on stack or library addresses replay
	int pers = personality(0xffffffff);
	if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("DOA_SIM_EXEC") && personality(pers | ADDR_NO_RANDOMIZE) != -1)
	{
		setenv("DOA_SIM_EXEC", "1", 1);
		execv("/proc/self/exe", argv);
	}
	unsetenv("DOA_SIM_EXEC");
	std::cerr.rdbuf(sim::g_null);
	sim::mem::init();
	if(argc < 2) return 2;
	std::string m = argv[1];
	int rc = 2;
	if(m == "list") { for(auto& p : sim::registry()) printf("%s\t%d\t%d\t%s\n", p.id.c_str(), p.quick_runs, p.thorough_runs, p.rule.c_str()); rc = 0; }
	else if(m == "run") rc = sim::cmd_run(argc, argv);
	else if(m == "gen" && argc > 5) rc = sim::cmd_gen(argc, argv);
	else if(m == "replay" && argc > 2) rc = sim::cmd_replay(argc, argv);
	else if(m == "twice" && argc > 2) rc = sim::cmd_twice(argc, argv);
	else if(m == "shrink" && argc > 4) rc = sim::cmd_shrink(argc, argv);
	fflush(stdout);
	_exit(rc);
}
