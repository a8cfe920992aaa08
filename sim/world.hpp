// The simulated world: real library objects driven by explicit operations, mirrored by plain models.
#pragma once
#include "core.hpp"
#include "DynamicObstacleAvoidance/Modulation.hpp"
#include "DynamicObstacleAvoidance/Environment.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp"
#include "DynamicObstacleAvoidance/Utils/Plotting/PlottingTools.hpp"

namespace sim
{
	namespace doa = DynamicObstacleAvoidance;
	typedef Eigen::Vector3d V;
	typedef Eigen::Array3d A3;
	typedef Eigen::Quaterniond Q;
	typedef std::shared_ptr<doa::Obstacle> OP;

	inline V v3(const Op& o, size_t i) { return V(o.n(i), o.n(i + 1), o.n(i + 2)); }
	inline A3 a3(const Op& o, size_t i) { return A3(o.n(i), o.n(i + 1), o.n(i + 2)); }
	inline Q q4(const Op& o, size_t i) { return Q(o.n(i), o.n(i + 1), o.n(i + 2), o.n(i + 3)); } // w x y z
	inline void put(std::vector<double>& a, const V& v) { a.push_back(v(0)); a.push_back(v(1)); a.push_back(v(2)); }
	inline void put(std::vector<double>& a, const A3& v) { a.push_back(v(0)); a.push_back(v(1)); a.push_back(v(2)); }
	inline void put(std::vector<double>& a, const Q& q) { a.push_back(q.w()); a.push_back(q.x()); a.push_back(q.y()); a.push_back(q.z()); }
	inline Q yawq(double t) { return Q(cos(t / 2), 0, 0, sin(t / 2)); }

	// ------------------------------------------------------------ plain models
	struct OM // obstacle
	{
		std::string name;
		V p = V::Zero();
		Q q = Q(1, 0, 0, 0);
		V lin = V::Zero(), ang = V::Zero(), ref = V::Zero();
		A3 ax = A3(1, 1, 1), mg = A3(0, 0, 0), cv = A3(1, 1, 1);
		bool yaw_only() const { return std::fabs(q.x()) < 1e-12 && std::fabs(q.y()) < 1e-12; }
		double yaw() const { return 2 * std::atan2(q.z(), q.w()); }
		A3 len(double am = 0) const { return ax + mg + am; }
		bool finite() const { return p.allFinite() && q.coeffs().allFinite() && lin.allFinite() && ang.allFinite() && ref.allFinite() && ax.allFinite() && mg.allFinite() && cv.allFinite(); }
	};
	struct AM // agent
	{
		V p = V::Zero();
		Q q = Q(1, 0, 0, 0);
		V u = V::Zero(), w = V::Zero();
		double m = 0;
	};

	// ------------------------------------------------------------ geometry oracles (independent of the library)
	inline V to_frame(const OM& o, const V& x) { return o.q.conjugate() * (x - o.p); }
	double gamma_of(const OM& o, const V& x, double am);       // distance function, 1 on the (margin included) surface
	V normal_of(const OM& o, const V& x, double am);           // outward unit normal, world frame
	struct E2 { double cx, cy, yaw, a, b; };                    // planar ellipse
	E2 e2_of(const OM& o, double scale = 1);
	E2 e2_envelope(const AM& a, double scale = 1);
	E2 e2_disc(const AM& a, double scale = 1);
	bool e2_in(const E2& e, double x, double y);
	bool e2_overlap(const E2& a, const E2& b);
	enum Tri { NO = 0, YES = 1, MAYBE = 2 };
	Tri tri_overlap(const E2& a, const E2& b, double tol = 2e-3);
	Tri tri_inside(const OM& o, const V& x, double tol = 1e-6);
	// radial extent of a set of planar ellipses seen from ref: far and near intersection in direction phi;
	// false if the ray misses all of them (or passes within tol of a tangency)
	struct Radial { bool hit = false; double far_ = 0, near_ = 1e300, next_ = 1e300; }; // next_: the nearest hit that is not at the reference point itself
	Radial radial(const std::vector<OM>& ms, const V& ref, double phi);

	// the sampled surface of a hull: n directions starting at turn - pi, not less than rmin, margin added (inside hulls: subtracted)
	struct Surf { int n = 500; double rmin = 0.5, margin = 0, turn = 0; };
	struct Band { double lo = 1e300, hi = 0, nlo = 1e300, nhi = 0; }; // far and near outline
	Band band(const std::vector<OM>& ms, const V& ref, double phi, const Surf& s);
	std::shared_ptr<doa::Ellipsoid> clone(const doa::Ellipsoid& src);

	// ------------------------------------------------------------ reference law
	struct View // what the law needs to know of one published obstacle
	{
		double gamma = 0;
		V n = V::Zero();        // unit normal (world)
		V r = V::Zero();        // x - reference
		V pos = V::Zero(), lin = V::Zero(), ang = V::Zero();
		V rep = V::Zero();      // repulsion vector, already signed
	};
	struct Law { V v = V::Zero(); bool sure = true; std::string why; double scale = 1; };
	Law law(const V& x, const V& u, const std::vector<View>& obs, bool repulsion, double crit, double power);
	View view_of(const OM& o, const V& x, double am);
	View view_of_aggregate(const doa::Obstacle& o, const doa::Agent& a, const AM& m); // geometry observed through the public interface

	// ------------------------------------------------------------ the world
	struct Item { int h = -1; OP ptr; std::string name; std::vector<int> mem; bool agg() const { return h < 0; } };

	struct Env
	{
		std::unique_ptr<doa::Environment> e;
		std::map<std::string, int> reg; // model of the registry: name -> handle
		bool aggr = true;
		std::vector<Item> pub; // what the last refresh published (observed)
		bool refreshed = false;
	};

	struct World
	{
		Ctx& c;
		std::map<int, std::shared_ptr<doa::Ellipsoid>> obs;
		std::map<int, OM> om;
		std::map<int, std::unique_ptr<doa::Agent>> ag;
		std::map<int, AM> am;
		std::map<int, std::unique_ptr<Env>> env;
		std::set<const doa::Obstacle*> foreign;
		bool raw = false; // degenerate sizes are let through
		explicit World(Ctx& c) : c(c) {}
		~World();

		bool has_obs(int h) const { return obs.count(h); }
		bool has_ag(int i) const { return ag.count(i); }
		bool has_env(int k) const { return env.count(k); }
		doa::Environment& E(int k) { return *env[k]->e; }
		doa::Agent& A(int i) { return *ag[i]; }

		void make_obs(const Op& op);
		bool apply(const Op& op);   // state operations; false when the operation is not one of them
		int handle(const doa::Obstacle* p) const;
		std::vector<Item> observe(int k);          // currently published list
		const std::vector<Item>& refresh(int k);   // update() and observe; models of reference points follow
		V command(int i, int k, bool local, bool rep, bool planar, double crit, double power);
		// model of the command; needs the model of every published obstacle
		Law expect(int i, int k, bool rep, bool planar, double crit, double power);
		Tri local_active(int i, int k); // does the envelope overlap a published obstacle
	};
	std::string vs(const V& v);
	inline bool close(const V& a, const V& b, double tol) { return (a - b).norm() <= tol; }

	// ------------------------------------------------------------ generation
	struct GenOpt
	{
		int nobs = 4;
		bool planar = true;        // yaw only, z = 0
		double area = 4;           // half side of the square in which things happen
		double size_lo = 0.3, size_hi = 1.2;
		bool curv = false;         // integer curvature factors
		bool moving = false;       // obstacles report velocities
		double margin = 0.3;       // largest margin
		bool refs = false;         // owners choose reference points
		bool zvar = false;         // centres at different heights
	};
	Op gen_obs(Rng& r, const GenOpt& g, int h, const std::string& name, double t);
	Op gen_obs_at(Rng& r, const GenOpt& g, int h, const std::string& name, double t, const V& p);
	Op gen_agent(Rng& r, int i, double t, const V& p, const V& u, double m);
	V gen_pos(Rng& r, const GenOpt& g);
	V gen_vec(Rng& r, double s, bool planar);
	Q gen_q(Rng& r, bool planar);

	// A map server reports obstacles over a lossy channel to controllers that refresh, command, crash and restart.
	struct HistOpt
	{
		GenOpt g;
		int nenv = 1, nag = 1;
		double seconds = 3;
		double drop = 0.1, dup = 0.15, delay = 0.3; // channel
		double crash = 0.02;      // per controller period
		double p_mode = 0.05;     // aggregation toggled
		double p_ref = 0.05;      // owner moves a reference point
		double p_agent = 0.6;     // agents are measured
		double period = 0.1;
		bool cmds = false;        // CMD operations after refreshes
		bool lookups = false;
		bool crowd = true;        // sometimes many more obstacles than nobs
		bool huge = false;        // very rarely a map of fifty and more
		double p_huge = 0.012;
		double far = 0;           // the origin of the map is far away
		bool same_names = true;   // reboots of the server republish a name with a new object
	};
	std::vector<Op> gen_history(Rng& r, const HistOpt& h);
	void sort_ops(std::vector<Op>& v);

	// shared by the properties (props_env.cpp)
	std::string join(const std::vector<std::string>& v);
	std::string show(const std::vector<Item>& p, World& w);
	bool same_pub(const std::vector<Item>& a, const std::vector<Item>& b);
	HistOpt env_opt(Rng& r, bool big);
	bool registry_op(World& w, Ctx& c, const Op& op, bool judge); // ADD, RM
	void twin_of(World& w, int k, World& f);
	std::vector<double> geometry(World& w, int k, const std::vector<V>& probes, double am);
	std::vector<double> commands(World& w, int k, const std::vector<V>& probes, const std::vector<V>& us, double am);
	double worst(const std::vector<double>& a, const std::vector<double>& b);
	void probes_of(Rng& r, World& w, int n, std::vector<V>& ps, std::vector<V>& us);
}
