// Deterministic simulator core: seeded randomness, scenarios (explicit, timestamped, replayable
// histories), event log, simulated memory, simulated threads, simulated plotting device.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <memory>
#include "DynamicObstacleAvoidance/Utils/Plotting/matplotlibcpp.hpp"

namespace sim
{
	// ---------------------------------------------------------------- randomness
	inline uint64_t mix64(uint64_t z)
	{
		z += 0x9E3779B97F4A7C15ull;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	struct Rng
	{
		uint64_t s;
		explicit Rng(uint64_t seed = 1) : s(mix64(seed ^ 0xD1B54A32D192ED03ull)) {}
		uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
		double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
		double u(double a, double b) { return a + (b - a) * u(); }
		int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
		bool p(double q) { return u() < q; }
		template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
	};

	// ---------------------------------------------------------------- scenario
	struct Op
	{
		std::string k;               // kind
		double t = 0;                // simulated time stamp [s]
		std::vector<double> a;       // numbers
		std::vector<std::string> s;  // names
		Op() {}
		Op(const std::string& k, double t, std::vector<double> a = {}, std::vector<std::string> s = {}) : k(k), t(t), a(a), s(s) {}
		double n(size_t i, double d = 0) const { return i < a.size() ? a[i] : d; }
		int in(size_t i, int d = 0) const { return i < a.size() && a[i] > -1e9 && a[i] < 1e9 ? (int)a[i] : d; }
		std::string str(size_t i) const { return i < s.size() ? s[i] : std::string(); }
	};
	struct Scenario
	{
		std::string prop;
		uint64_t seed = 0, index = 0;
		std::map<std::string, double> par;
		std::vector<Op> ops;
		double get(const std::string& k, double d = 0) const { auto it = par.find(k); return it == par.end() ? d : it->second; }
		int geti(const std::string& k, int d = 0) const { return (int)get(k, d); }
		std::string save() const;
		static Scenario load(const std::string& text);
	};

	// ---------------------------------------------------------------- run context
	struct Violation { std::string cls, msg; };
	struct Reject { std::string why; };

	struct Ctx
	{
		bool verbose = false;
		uint64_t hash = 1469598103934665603ull;
		std::map<std::string, uint64_t> cnt;  // faults.*, probes.*, ops.*
		double simtime = 0;
		bool nontrivial = false;
		std::vector<std::string> lines;

		void raw(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for(size_t i = 0; i < n; ++i) hash = (hash ^ c[i]) * 1099511628211ull; }
		void ev(const char* tag, const double* v, size_t n);
		void ev(const char* tag, std::initializer_list<double> v) { ev(tag, v.begin(), v.size()); }
		void evs(const char* tag, const std::string& s);
		void count(const std::string& k, uint64_t n = 1) { cnt[k] += n; }
		[[noreturn]] void fail(const std::string& cls, const std::string& msg) { throw Violation{cls, msg}; }
		[[noreturn]] void reject(const std::string& why) { throw Reject{why}; }
	};
	std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

	struct Result
	{
		int kind = 0; // 0 ok, 1 violation, 2 rejected (precondition not met)
		std::string cls, msg;
		uint64_t hash = 0;
		bool nontrivial = false;
		double simtime = 0;
		std::map<std::string, uint64_t> cnt;
		std::vector<std::string> lines;
	};

	struct Property
	{
		std::string id;
		std::string rule;      // how cases are made, what is non trivial
		int quick_runs, thorough_runs;
		Scenario (*gen)(Rng&, bool big);
		void (*exec)(const Scenario&, Ctx&);
	};
	std::vector<Property>& registry();
	struct Register { Register(Property p) { registry().push_back(p); } };

	// ---------------------------------------------------------------- simulated memory
	namespace mem
	{
		struct Config
		{
			uint32_t fill = 0xA5A5A5A5u; // pattern of fresh memory (and of the dead stack)
			bool descending = false;   // direction in which fresh addresses are handed out
			bool reuse = true;         // reuse freed blocks (LIFO) or never
		};
		void reset(const Config& c);        // start of a simulated process: forget everything
		void fail_after(long n);            // the n-th next allocation (1 = next) fails; 0 = none
		long pending_fail();                // >0: not fired yet
		uint64_t failures();                // allocations refused since reset
		uint64_t live_blocks();             // blocks allocated and not freed since reset
		uint64_t live_bytes();              // what was asked for in those
		uint64_t total_allocs();
		bool corrupted(std::string& why);   // canaries of live blocks, double frees
		void scribble();                    // fill the dead part of the stack with the pattern
	}

	// run f in a process forked from this one; false if it died (status as of waitpid)
	bool isolated(const std::function<std::string()>& f, std::string& out, int& status, int wall_s = 60);
	std::string died(int status);
	// A process that stays as it was when the object was made (the system under test was not entered yet, or
	// only so far): every request is answered by a process forked from it.
	class Fresh
	{
	public:
		explicit Fresh(const std::function<std::string(const std::string&)>& f);
		~Fresh();
		bool ask(const std::string& request, std::string& answer, int& status); // false: the process died
		Fresh(const Fresh&) = delete;
	private:
		int to = -1, from = -1, pid = -1;
	};

	// ---------------------------------------------------------------- entering the library
	// Everything executed while a Lib guard is alive belongs to the system under test: its memory
	// comes from the simulated heap, its basic blocks are counted and may be preempted.
	struct Lib
	{
		Lib();
		~Lib();
		Lib(const Lib&) = delete;
	};
	struct Hang {};
	uint64_t blocks();          // basic blocks of the system under test executed in this run
	void reset_blocks(uint64_t budget);
	uint64_t edges_covered();   // distinct basic-block edges reached by this process so far
	const std::vector<uint8_t>& edge_map();

	// seams for clocks and randomness the code might consult
	namespace env
	{
		struct Config { uint64_t clock0 = 1600000000; uint64_t step_ns = 1000; uint64_t rand_seed = 1; double speed = 1; bool jumps = false; };
		void reset(const Config& c);
		void follow(const double* simtime); // the clocks follow the simulated time (times cfg.speed); 0: stand still between calls
		uint64_t consulted(); // how many times the system asked for time or randomness
	}

	// ---------------------------------------------------------------- simulated threads
	// Bodies run on real threads of which exactly one is released at a time; control moves when the
	// plan says so (after a given number of basic blocks of the system under test) or when a body
	// ends.
	struct Switch { uint64_t after; int to; };
	struct ThreadReport { uint64_t switches = 0; uint64_t midcall = 0; uint64_t trace = 0; bool deadlock = false; };
	ThreadReport run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& plan);

	// ---------------------------------------------------------------- simulated plotting device
	namespace plot
	{
		void reset();
		void fail_at(long n);   // the n-th next call of the device fails; 0 = none
		bool fired();
		std::vector<simplot::Call>& calls();
	}

	struct Channel { uint64_t dropped = 0, duplicated = 0, late = 0; };
	Channel& channel(); // what the channel did while the current history was generated

	uint64_t diag_lines();
	void cerr_fault(bool bad); // the diagnostics stream refuses writes
}
