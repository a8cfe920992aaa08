// Closed loop missions: the plant follows the commands of the library period by period.
// No collision (C07), convergence (C08), escape (C09), vertical avoidance (C22).
#include "world.hpp"
#include <algorithm>

namespace sim
{
	static double gmin_(double a, double b) { return a < b ? a : b; }
	static double reach(const OM& o, double am) // radius of a ball around the centre that contains the enlarged obstacle
	{
		A3 l = o.len(am);
		bool box = (o.cv > 1.0).any();
		return box ? l.matrix().norm() : l.maxCoeff();
	}
	// a point of the surface gamma = level on the ray from the centre in local direction d
	static V on_surface(const OM& o, double am, V d, double level)
	{
		d.normalize();
		double lo = 0, hi = 1;
		auto g = [&](double s) { return gamma_of(o, V(o.p + o.q * (s * d)), am); };
		while(g(hi) < level) hi *= 2;
		for(int i = 0; i < 200; ++i) { double m = 0.5 * (lo + hi); if(g(m) < level) lo = m; else hi = m; }
		return o.p + o.q * (hi * d);
	}

	struct Loop
	{
		Ctx& c;
		World w;
		int kind = 0;            // what the agent is asked to do
		V goal = V::Zero();
		double cap = 1, noise = 0, actuator = 1e9;
		bool rep = false, planar = false;
		double power = 2;
		double gap = 0.4;        // free space required between enlarged obstacles
		bool armed = false;      // the premise of non-penetration holds
		double floor_ = 0.995;   // what finite steps may cost
		double worst = 1e9;
		uint64_t steps = 0, near_ = 0;
		explicit Loop(Ctx& c) : c(c), w(c) {}

		AM& am() { return w.am[0]; }
		bool ready() { return w.has_ag(0) && w.has_env(0); }
		std::vector<int> published()
		{
			std::vector<int> r;
			for(auto& it : w.env[0]->pub) if(!it.agg() && w.om.count(it.h)) r.push_back(it.h);
			return r;
		}
		bool clusters() { for(auto& it : w.env[0]->pub) if(it.agg() || it.h < 0) return true; return false; }
		double gamma() { double g = 1e300; for(int h : published()) g = gmin_(g, gamma_of(w.om[h], am().p, am().m)); return g; }
		bool apart()
		{
			std::vector<int> p = published();
			for(size_t i = 0; i < p.size(); ++i)
				for(size_t j = 0; j < i; ++j)
				{
					auto &a = w.om[p[i]], &b = w.om[p[j]];
					if((a.p - b.p).norm() < reach(a, am().m) + reach(b, am().m) + gap) return false;
				}
			return true;
		}
		bool proper() // reference points well inside
		{
			for(int h : published()) { auto& o = w.om[h]; OM s = o; s.mg = A3(0, 0, 0); if(gamma_of(s, o.ref, 0) > 0.6) return false; if(o.ax.minCoeff() < 0.1) return false; }
			return true;
		}
		bool moving() { for(int h : published()) if(w.om[h].lin.norm() > 0 || w.om[h].ang.norm() > 0) return true; return false; }
		void arm() { armed = ready() && !clusters() && apart() && proper() && gamma() >= 1.3; }
		void refresh()
		{
			std::set<int> old;
			for(int h : published()) old.insert(h);
			w.refresh(0);
			c.evs("pub", show(w.env[0]->pub, w));
			if(!ready()) return;
			for(int h : published()) if(!old.count(h) && gamma_of(w.om[h], am().p, am().m) < 1.3) armed = false;
			if(clusters() || !apart() || !proper()) armed = false;
		}
		void place(const V& x) { { Lib lib; w.A(0).set_position(x); } am().p = x; }
		void desire(const V& u) { { Lib lib; w.A(0).set_linear_velocity(u); } am().u = u; }
		V wish(Rng& r, bool flat)
		{
			V x = am().p, u = V::Zero();
			std::vector<int> p = published();
			auto nearest = [&]() { int b = -1; double g = 1e300; for(int h : p) { double z = gamma_of(w.om[h], x, am().m); if(z < g) { g = z; b = h; } } return b; };
			switch(kind)
			{
			case 0: u = goal - x; break;
			case 1: u = goal; break;
			case 2: u = gen_vec(r, 2 * cap, flat); break;
			case 3: { int h = nearest(); u = h < 0 ? goal : V(1e3 * (w.om[h].p - x)); break; }
			case 4: { int h = nearest(); u = h < 0 ? goal : V(-1e3 * normal_of(w.om[h], x, am().m)); break; }
			case 5: { int h = nearest(); u = h < 0 ? goal : V(1e3 * (w.om[h].ref - x)); break; }
			default: u = V(-x(1), x(0), 0); break;
			}
			if(flat) u(2) = 0;
			if(u.norm() > cap) u *= cap / u.norm();
			if(noise > 0) u += noise * gen_vec(r, 1, flat);
			return u;
		}
		// one control period; false when the mission left the premises
		V period(Rng& r, double dt, bool flat, bool frozen = false)
		{
			desire(wish(r, flat));
			V v = w.command(0, 0, false, rep, planar, 1, power);
			if(!v.allFinite()) c.fail("loop.wild", "the command is " + vs(v));
			if(v.norm() > actuator) v *= actuator / v.norm();
			if(!frozen) place(am().p + dt * v);
			for(auto& h : published())
			{
				OM& o = w.om[h];
				if(o.lin.norm() == 0 && o.ang.norm() == 0) continue;
				V loc = o.q.conjugate() * (o.ref - o.p);
				o.p += dt * o.lin;
				double a = o.ang.norm();
				if(a > 0) o.q = (Q(Eigen::AngleAxisd(a * dt, V(o.ang / a))) * o.q).normalized();
				o.ref = o.p + o.q * loc;
				Lib lib;
				w.obs[h]->set_position(o.p);
				w.obs[h]->set_orientation(o.q);
				w.obs[h]->set_reference_position(o.ref);
			}
			c.simtime += dt;
			++steps;
			return v;
		}
		void guard(const char* cls)
		{
			if(!armed) { arm(); return; }
			if(moving() && !apart()) { armed = false; return; }
			for(int h : published())
			{
				double g = gamma_of(w.om[h], am().p, am().m);
				worst = gmin_(worst, g);
				if(g < 1.05) ++near_;
				// the distance value grows with the power 2c of lengths: same depth for all curvatures
				if(std::pow(g, 1 / std::max(1.0, w.om[h].cv.maxCoeff())) < floor_) c.fail(cls, fmt("the agent at %s is inside obstacle '%s' (distance value %.6f) after %.3f simulated seconds", vs(am().p).c_str(), w.om[h].name.c_str(), g, c.simtime));
			}
		}
	};

	// ---------------------------------------------------------------- worlds
	struct Place { V p; double r; };
	static std::vector<Op> separated(Rng& r, const GenOpt& g, int n, double am, double gap, std::vector<OM>& models, int first = 0)
	{
		std::vector<Op> out;
		static const std::vector<std::string> names = {"a", "b", "c", "wall", "e2", "human_1", "aggregate", "z", "b1", "a_b"};
		for(int i = 0; i < n; ++i)
			for(int tr = 0; tr < 60; ++tr)
			{
				Op o = gen_obs(r, g, first + i, names[(first + i) % names.size()], 0);
				if(o.a[1] < 2 || o.a[1] == 8) o.a[1] = 5;
				double m0 = o.a[18];
				if(r.p(0.5)) { o.a[19] = o.a[20] = m0; }
				OM m;
				m.name = o.str(0);
				m.p = v3(o, 2); m.q = q4(o, 5).normalized(); m.ax = a3(o, 15); m.mg = a3(o, 18); m.cv = a3(o, 21); m.ref = v3(o, 24);
				if(o.a[1] == 0 || o.a[1] == 2 || o.a[1] == 4 || o.a[1] == 6 || o.a[1] == 8) m.mg = A3(m0, m0, m0);
				bool ok = true;
				for(auto& e : models) if((e.p - m.p).norm() < reach(e, am) + reach(m, am) + gap) ok = false;
				if(!ok) continue;
				models.push_back(m);
				out.push_back(o);
				break;
			}
		return out;
	}
	static V free_spot(Rng& r, const std::vector<OM>& ms, double am, double area, bool flat, double level)
	{
		for(int tr = 0; tr < 300; ++tr)
		{
			V x = gen_vec(r, area, flat);
			if(!flat) x(2) *= 0.5;
			bool ok = true;
			for(auto& m : ms) ok = ok && gamma_of(m, x, am) >= level;
			if(ok) return x;
		}
		return V(area + 3, 0, 0);
	}

	// ---------------------------------------------------------------- C07
	static Scenario gen07(Rng& r, bool big)
	{
		Scenario s;
		bool flat = r.p(0.5), mov = r.p(0.5), curv = r.p(0.35);
		GenOpt g;
		g.planar = flat;
		g.area = r.pick(std::vector<double>{2.0, 3.5, 5.0});
		g.size_lo = 0.3; g.size_hi = r.pick(std::vector<double>{0.8, 1.5});
		g.moving = false;
		g.curv = curv;
		g.refs = r.p(0.6);
		double am = r.p(0.5) ? r.u(0, 0.3) : 0;
		std::vector<OM> ms;
		std::vector<Op> ob = separated(r, g, r.i(1, 4), am, mov ? 1.2 : 0.45, ms);
		if(mov) for(auto& o : ob) if(r.p(0.8)) { V l = gen_vec(r, 0.5, flat), a = flat ? V(0, 0, r.u(-1, 1)) : gen_vec(r, 0.6, false); for(int i = 0; i < 3; ++i) { o.a[9 + i] = l(i); o.a[12 + i] = a(i); } }
		s.par["flat"] = flat;
		s.ops.push_back(Op("ENV", 0, {0, flat && r.p(0.6) ? 1.0 : 0.0}));
		double t = 0;
		size_t late = r.p(0.3) ? 1 : 0; // appears during the mission
		for(size_t i = 0; i < ob.size(); ++i) { s.ops.push_back(ob[i]); if(i + late < ob.size() || ob.size() == 1) s.ops.push_back(Op("ADD", 0, {0, ob[i].a[0]})); }
		V x0 = free_spot(r, ms, am, g.area + 1, flat, 1.35);
		s.ops.push_back(gen_agent(r, 0, 0, x0, V(0, 0, 0), am));
		s.ops.push_back(Op("UPD", 0, {0}));
		int seg = r.i(2, big ? 10 : 5);
		for(int q = 0; q < seg; ++q)
		{
			V goal = r.p(0.5) ? free_spot(r, ms, am, g.area + 1, flat, 1.0) : gen_vec(r, g.area, flat);
			s.ops.push_back(Op("DRIVE", t, {(double)(r.p(0.5) ? r.i(3, 5) : r.i(0, 6)), goal(0), goal(1), goal(2), r.p(0.8) ? 1.0 : r.u(0.2, 1.5), r.p(0.3) ? 0.05 : 0.0}));
			if(r.p(0.2)) s.ops.push_back(Op("MODE", t, {(double)r.i(0, 1), (double)r.i(1, 3)}));
			int n = r.i(30, r.p(0.3) ? 600 : 200);
			if(r.p(0.4)) { V d = gen_vec(r, 1, flat); s.ops.push_back(Op("CLOSE", t, {(double)r.i(0, (int)ob.size() - 1), d(0), d(1), d(2), 1 + std::pow(10, r.u(-2, -0.5))})); }
			s.ops.push_back(Op("STEP", t, {(double)n, mov ? 0.004 : 0.01, (double)r.i(1, 1 << 30)}));
			t += n * (mov ? 0.004 : 0.01);
			int nt = r.i(0, 3);
			for(int j = 0; j < nt; ++j) { V d = gen_vec(r, 1, flat), u = gen_vec(r, 1, flat); s.ops.push_back(Op("TOUCH", t, {(double)r.i(0, (int)ob.size() - 1), d(0), d(1), d(2), u(0), u(1), u(2), (double)r.i(0, 1)})); }
			double e = r.u();
			if(e < 0.1 && !mov) s.ops.push_back(Op("STALL", t, {(double)r.i(1, 100), 0.01, (double)r.i(1, 1 << 30)}));
			else if(e < 0.2) { V x = free_spot(r, ms, am, g.area + 1, flat, 1.35); s.ops.push_back(Op("JUMP", t, {x(0), x(1), x(2)})); }
			else if(e < 0.3) { s.ops.push_back(Op("ENV", t, {0, flat && r.p(0.6) ? 1.0 : 0.0})); for(auto& o : ob) s.ops.push_back(Op("ADD", t, {0, o.a[0]})); s.ops.push_back(Op("UPD", t, {0})); }
			else if(e < 0.4) { s.ops.push_back(Op("RM", t, {0}, {r.pick(ob).str(0)})); if(r.p(0.7)) s.ops.push_back(Op("UPD", t, {0})); }
			else if(e < 0.5) { for(auto& o : ob) s.ops.push_back(Op("ADD", t, {0, o.a[0]})); if(r.p(0.7)) s.ops.push_back(Op("UPD", t, {0})); }
			else if(e < 0.6) s.ops.push_back(Op("AM", t, {0, r.u(0, am + 0.05)}));
			else if(e < 0.7 && mov) { V l = gen_vec(r, 0.5, flat); s.ops.push_back(Op("SL", t, {r.pick(ob).a[0], l(0), l(1), l(2)})); }
			else if(e < 0.8 && mov) { V a = flat ? V(0, 0, r.u(-1, 1)) : gen_vec(r, 0.6, false); s.ops.push_back(Op("SW", t, {r.pick(ob).a[0], a(0), a(1), a(2)})); }
			if(r.p(0.2)) s.ops.push_back(Op("UPD", t, {0}));
		}
		return s;
	}
	static void touch(Loop& L, const Op& op)
	{
		int h = op.in(0);
		std::vector<int> pub = L.published();
		if(!std::count(pub.begin(), pub.end(), h) || L.clusters() || !L.proper()) return;
		V d = v3(op, 1), u = v3(op, 4);
		if(!(d.norm() > 1e-3) || !(u.norm() > 1e-6)) return;
		AM keep = L.am();
		OM& o = L.w.om[h];
		V x = on_surface(o, keep.m, d, 1);
		for(int e : pub) if(e != h && gamma_of(L.w.om[e], x, keep.m) < (op.n(7) != 0 ? 1.12 : 1.05)) return; // repulsion reaches to 1.1
		V n = normal_of(o, x, keep.m);
		if(!(n.norm() > 0.5)) return;
		L.place(x);
		L.desire(u);
		V v = L.w.command(0, 0, false, op.n(7) != 0, false, 1, L.power);
		V vs_ = o.lin + o.ang.cross(V(x - o.p));
		double in = n.dot(v - vs_), scale = u.norm() + vs_.norm() + v.norm();
		L.c.ev("touch", {in, v(0), v(1), v(2)});
		L.c.count("probes.surface_touched");
		// rounding lets the surface be missed by a hair, which the strongly curved shapes magnify
		if(in < -1e-5 * scale) L.c.fail("loop.inwards", fmt("on the surface of obstacle '%s' at %s, desired velocity %s: the command %s goes inwards with %.6g relative to the surface", o.name.c_str(), vs(x).c_str(), vs(u).c_str(), vs(v).c_str(), -in));
		L.place(keep.p);
		L.desire(keep.u);
	}
	static bool common(Loop& L, const Op& op)
	{
		Ctx& c = L.c;
		if(op.k == "DRIVE") { L.kind = op.in(0); L.goal = v3(op, 1); L.cap = std::min(1.5, std::max(0.0, op.n(4, 1))); L.noise = std::min(0.05, std::max(0.0, op.n(5))); c.count("faults.retarget"); return true; }
		if(op.k == "MODE") { L.rep = op.n(0) != 0; L.power = std::min(4.0, std::max(1.0, op.n(1, 2))); return true; }
		if(op.k == "ADD" || op.k == "RM") { registry_op(L.w, c, op, false); return true; }
		if(op.k == "UPD") { if(L.w.has_env(0)) L.refresh(); return true; }
		if(op.k == "ENV") { L.w.apply(op); return true; }
		if(op.k == "AM") { L.w.apply(op); if(L.ready() && L.gamma() < 1.3) L.armed = false; if(L.ready() && !L.apart()) L.armed = false; return true; }
		if(op.k == "CLOSE") // next to the surface of an obstacle
		{
			int h = op.in(0);
			std::vector<int> pub = L.ready() ? L.published() : std::vector<int>();
			V d = v3(op, 1);
			if(!std::count(pub.begin(), pub.end(), h) || !(d.norm() > 1e-3)) return true;
			L.place(on_surface(L.w.om[h], L.am().m, d, std::min(2.0, std::max(1.01, op.n(4)))));
			c.count("faults.displacement");
			L.armed = !L.clusters() && L.apart() && L.proper();
			for(int e : pub) if(e != h && gamma_of(L.w.om[e], L.am().p, L.am().m) < 1.3) L.armed = false;
			return true;
		}
		if(op.k == "CONTACT") // pushed against an obstacle: on its surface, up to rounding
		{
			int h = op.in(0);
			std::vector<int> pub = L.ready() ? L.published() : std::vector<int>();
			V d = v3(op, 1);
			if(!std::count(pub.begin(), pub.end(), h) || !(d.norm() > 1e-3)) return true;
			L.place(on_surface(L.w.om[h], L.am().m, d, 1));
			L.armed = false;
			c.count("faults.pushed_against_an_obstacle");
			return true;
		}
		if(op.k == "JUMP") { if(L.ready()) { L.place(v3(op, 0)); L.armed = false; c.count("faults.displacement"); L.arm(); } return true; }
		return false;
	}
	static double step_dt(const Op& op, double hi) { return std::min(hi, std::max(1e-4, op.n(1, 0.01))); }
	static void exec07(const Scenario& sc, Ctx& c)
	{
		Loop L(c);
		bool flat = sc.get("flat") != 0;
		int touched = 0;
		for(auto& op : sc.ops)
		{
			if(common(L, op)) continue;
			if(op.k == "TOUCH") { if(L.ready()) { touch(L, op); ++touched; } continue; }
			if(op.k == "STEP" || op.k == "STALL")
			{
				if(!L.ready()) continue;
				Rng r((uint64_t)std::max(0.0, op.n(2, 1)));
				int n = std::min(2000, std::max(0, op.in(0)));
				bool stall = op.k == "STALL";
				if(stall && L.moving()) continue;
				if(stall) c.count("faults.lost_control_periods", n);
				if(!L.armed) L.arm();
				for(int i = 0; i < n; ++i)
				{
					double dt = step_dt(op, L.moving() ? 0.004 : 0.01) * r.u(0.3, 1.7);
					L.floor_ = L.moving() ? 0.97 : 0.995;
					L.period(r, dt, flat, stall);
					L.guard("loop.collision");
					if(r.p(0.02)) L.refresh();
				}
				c.ev("pose", {L.am().p(0), L.am().p(1), L.am().p(2)});
				continue;
			}
			L.w.apply(op);
			if(op.k == "SL" || op.k == "SW") c.count("faults.obstacle_changes_course");
		}
		c.count("probes.control_periods", L.steps);
		c.count("probes.periods_close_to_a_surface", L.near_);
		if(L.worst < 1.01) c.count("probes.missions_that_touched");
		c.nontrivial = L.near_ > 0 || touched > 0;
	}
	static Register r07({"C07", "closed loop missions among one to four separated obstacles (plane and space, static and moving, rounded, off-centre reference points): target seeking, constant, random and adversarial desired velocities, tick jitter, lost periods, displacement, restarts, obstacles that come, go and change course; the distance value of every published obstacle is monitored after each period, and commands on surfaces are probed; non-trivial = the agent came within 5 percent of a surface or a surface was probed", 20000, 400000, gen07, exec07});

	// ---------------------------------------------------------------- C08
	static Scenario gen08(Rng& r, bool)
	{
		Scenario s;
		bool flat = r.p(0.6);
		GenOpt g;
		g.planar = flat;
		g.area = r.pick(std::vector<double>{2.5, 4.0});
		g.size_lo = 0.3; g.size_hi = r.pick(std::vector<double>{0.8, 1.4});
		g.refs = r.p(0.5);
		double am = r.p(0.5) ? r.u(0, 0.25) : 0;
		std::vector<OM> ms;
		std::vector<Op> ob = separated(r, g, r.i(1, 4), am, r.p(0.6) ? 0.6 : r.u(0.15, 0.6), ms);
		// a narrow passage
		V gate = V::Zero(), across = V::Zero();
		if(r.p(0.15))
		{
			ob.clear(); ms.clear();
			GenOpt g1 = g;
			g1.area = 0.5;
			g1.margin = 0.1;
			if(r.p(0.6)) g1.size_lo = g1.size_hi = r.u(0.3, 1.4);
			ob = separated(r, g1, 1, am, 0.6, ms);
			GenOpt g2 = g1;
			g2.area = 3.5;
			double gap = r.u(0.1, 0.6);
			for(int tr = 0; tr < 200 && ms.size() < 2; ++tr)
			{
				std::vector<OM> m2 = ms;
				std::vector<Op> o2 = separated(r, g2, 1, am, gap, m2, 1);
				if(o2.empty() || m2.size() < 2) continue;
				double d = (m2[1].p - ms[0].p).norm(), room = d - reach(m2[1], am) - reach(ms[0], am);
				if(room > gap + 0.2) continue;
				ob.push_back(o2[0]); ms = m2;
				V e = (ms[1].p - ms[0].p) / d;
				gate = ms[0].p + (reach(ms[0], am) + 0.5 * room) * e;
				across = V(-e(1), e(0), 0);
				if(across.norm() < 0.3) across = V(1, 0, -e(0) / e(2)).normalized();
				across.normalize();
			}
		}
		s.par["flat"] = flat;
		s.ops.push_back(Op("ENV", 0, {0, flat && r.p(0.6) ? 1.0 : 0.0}));
		for(auto& o : ob) { s.ops.push_back(o); s.ops.push_back(Op("ADD", 0, {0, o.a[0]})); }
		V x0 = free_spot(r, ms, am, g.area + 1.5, flat, 1.4);
		V goal = free_spot(r, ms, am, g.area + 1.5, flat, 1.6);
		if(across.norm() > 0.5)
		{
			V e = gate + r.u(1.5, 4) * across + 0.2 * gen_vec(r, 1, flat), f = gate - r.u(1.5, 4) * across + 0.2 * gen_vec(r, 1, flat);
			bool ok = true;
			for(auto& m : ms) ok = ok && gamma_of(m, e, am) > 1.6 && gamma_of(m, f, am) > 1.6;
			if(ok) { x0 = e; goal = f; } else across = V::Zero();
		}
		s.ops.push_back(gen_agent(r, 0, 0, x0, V(0, 0, 0), am));
		s.ops.push_back(Op("UPD", 0, {0}));
		double t = 0;
		int seg = across.norm() > 0.5 && r.p(0.7) ? 0 : r.i(0, 5);
		// often straight through an obstacle
		if(across.norm() < 0.5 && r.p(0.5) && !ms.empty()) { V d = ms[0].p - x0; if(d.norm() > 0.3) { V y = ms[0].p + d.normalized() * (reach(ms[0], am) + r.u(0.6, 2)); bool ok = true; for(auto& m : ms) ok = ok && gamma_of(m, y, am) > 1.6; if(ok) goal = y; } }
		for(int q = 0; q < seg; ++q)
		{
			int e = r.i(0, 5);
			if(e == 0) { V y = gen_vec(r, 1, flat); s.ops.push_back(Op("DRIVE", t, {(double)r.pick(std::vector<int>{1, 2, 3, 4, 5, 6}), y(0), y(1), y(2), 1, 0})); }
			else { V y = r.p(0.3) ? free_spot(r, ms, am, g.area + 1, flat, 1.6) : goal; s.ops.push_back(Op("DRIVE", t, {0, y(0), y(1), y(2), 1, 1e-3})); }
			int n = r.i(20, 300);
			s.ops.push_back(Op("STEP", t, {(double)n, 0.01, (double)r.i(1, 1 << 30)}));
			t += 0.01 * n;
			if(e == 1) s.ops.push_back(Op("STALL", t, {(double)r.i(1, 100), 0.01, 1}));
			if(e == 2 && r.p(0.5)) { V x = free_spot(r, ms, am, g.area + 1, flat, 1.4); s.ops.push_back(Op("JUMP", t, {x(0), x(1), x(2)})); }
			else if(e == 2) { V d = gen_vec(r, 1, flat); s.ops.push_back(Op("CONTACT", t, {(double)r.i(0, (int)ob.size() - 1), d(0), d(1), d(2)})); }
			if(e == 3) { s.ops.push_back(Op("ENV", t, {0, flat && r.p(0.6) ? 1.0 : 0.0})); for(auto& o : ob) s.ops.push_back(Op("ADD", t, {0, o.a[0]})); s.ops.push_back(Op("UPD", t, {0})); }
			if(e == 4) { s.ops.push_back(Op("RM", t, {0}, {r.pick(ob).str(0)})); s.ops.push_back(Op("UPD", t, {0})); }
		}
		if(across.norm() < 0.5 && r.p(0.25)) { V d = gen_vec(r, 1, flat); s.ops.push_back(Op("CONTACT", t, {(double)r.i(0, (int)ob.size() - 1), d(0), d(1), d(2)})); }
		s.ops.push_back(Op("SEEK", t, {goal(0), goal(1), goal(2), (double)r.i(1, 1 << 30)}));
		return s;
	}
	static void exec08(const Scenario& sc, Ctx& c)
	{
		Loop L(c);
		bool flat = sc.get("flat") != 0;
		bool judged = false;
		double path = 0;
		for(auto& op : sc.ops)
		{
			if(common(L, op)) continue;
			if(op.k == "STEP" || op.k == "STALL")
			{
				if(!L.ready()) continue;
				Rng r((uint64_t)std::max(0.0, op.n(2, 1)));
				int n = std::min(2000, std::max(0, op.in(0)));
				if(op.k == "STALL") c.count("faults.lost_control_periods", n);
				if(L.kind != 0) c.count("faults.glitched_velocity", n);
				for(int i = 0; i < n; ++i) L.period(r, step_dt(op, 0.01) * r.u(0.3, 1.7), flat, op.k == "STALL");
				continue;
			}
			if(op.k == "SEEK")
			{
				if(!L.ready()) continue;
				L.refresh();
				L.gap = 0.1;
				if(L.clusters() || L.moving() || !L.apart() || !L.proper()) c.reject("obstacles are not separated");
				V goal = v3(op, 0);
				if(flat) goal(2) = 0;
				for(int h : L.published()) if(gamma_of(L.w.om[h], goal, L.am().m) < 1.4) c.reject("the target is not free");
				if(L.gamma() < 1 - 1e-6) c.reject("the agent is not free"); // an obstacle was put onto it
				if(goal.norm() > 15 || L.am().p.norm() > 15) c.reject("far away");
				Rng r((uint64_t)std::max(0.0, op.n(3, 1)));
				L.kind = 0; L.goal = goal; L.cap = 1; L.noise = 2e-3; L.rep = false; L.power = 2;
				double t0 = c.simtime, left = 0;
				V x0 = L.am().p;
				while((left = (L.am().p - goal).norm()) > 0.1)
				{
					if(c.simtime - t0 > 60) c.fail("loop.stuck", fmt("60 simulated seconds after the last disturbance the agent is at %s, %.3f away from its target %s (started from %s)", vs(L.am().p).c_str(), left, vs(goal).c_str(), vs(x0).c_str()));
					path += 0.015;
					L.period(r, 0.015 * r.u(0.3, 1.7), flat);
				}
				c.ev("arrived", {c.simtime - t0, L.am().p(0), L.am().p(1), L.am().p(2)});
				if(c.simtime - t0 > 30) c.count("probes.slow_arrivals");
				judged = true;
			}
			else L.w.apply(op);
		}
		c.count("probes.control_periods", L.steps);
		c.nontrivial = judged;
	}
	static Register r08({"C08", "closed loop missions among separated static obstacles (plane and space), disturbed by glitched velocities, lost periods, displacement, restarts, retargeting, lost obstacles; after the last disturbance the agent must arrive within 60 simulated seconds; non-trivial = a mission that ended with the search for its target", 16000, 200000, gen08, exec08});

	// ---------------------------------------------------------------- C09
	static Scenario gen09(Rng& r, bool)
	{
		Scenario s;
		bool flat = r.p(0.5);
		GenOpt g;
		g.planar = flat;
		g.area = r.pick(std::vector<double>{2.5, 4.0});
		g.size_lo = 0.3; g.size_hi = r.pick(std::vector<double>{0.8, 1.4});
		g.curv = r.p(0.2);
		g.refs = r.p(0.4);
		double am = r.p(0.5) ? r.u(0, 0.25) : 0;
		std::vector<OM> ms;
		std::vector<Op> ob = separated(r, g, r.i(1, 3), am, 0.8, ms);
		s.par["flat"] = flat;
		s.ops.push_back(Op("ENV", 0, {0, flat && r.p(0.6) ? 1.0 : 0.0}));
		for(auto& o : ob) { s.ops.push_back(o); s.ops.push_back(Op("ADD", 0, {0, o.a[0]})); }
		V x0 = free_spot(r, ms, am, g.area + 1.5, flat, 1.4);
		s.ops.push_back(gen_agent(r, 0, 0, x0, V(0, 0, 0), am));
		s.ops.push_back(Op("UPD", 0, {0}));
		double t = 0;
		int seg = r.i(1, 4);
		for(int q = 0; q < seg; ++q)
		{
			V y = gen_vec(r, g.area, flat), d = gen_vec(r, 1, flat);
			// also an agent that has nowhere to go, or hardly
			double cap = r.p(0.8) ? 1 : r.p(0.7) ? 0 : std::pow(10, r.u(-6, 0));
			s.ops.push_back(Op("DRIVE", t, {(double)r.i(0, 6), y(0), y(1), y(2), cap, cap > 0 ? 1e-3 : 0}));
			int e = r.i(0, 3);
			int h = r.i(0, (int)ob.size() - 1);
			if(e <= 1) s.ops.push_back(Op("INTO", t, {(double)h, d(0), d(1), d(2), std::pow(10, r.u(-3, -0.02))}));
			else if(e == 2) s.ops.push_back(Op("DROP", t, {(double)h, d(0), d(1), d(2), std::pow(10, r.u(-3, -0.02))}));
			else s.ops.push_back(Op("GROW", t, {(double)h, d(0), d(1), d(2), r.u(1.02, 1.5), r.u(0.05, 0.3)}));
			if(r.p(0.3)) s.ops.push_back(Op("UPD", t, {0}));
			s.ops.push_back(Op("ESCAPE", t, {(double)r.i(1, 1 << 30), (double)r.i(0, 200)}));
			t += 2;
		}
		return s;
	}
	static void exec09(const Scenario& sc, Ctx& c)
	{
		Loop L(c);
		L.rep = true;
		L.actuator = 2;
		bool flat = sc.get("flat") != 0;
		int escapes = 0;
		for(auto& op : sc.ops)
		{
			if(op.k == "MODE") continue;
			if(common(L, op)) continue;
			if(op.k == "INTO" || op.k == "DROP" || op.k == "GROW")
			{
				int h = op.in(0);
				if(!L.ready() || !L.w.has_obs(h)) continue;
				V d = v3(op, 1);
				if(flat) d(2) = 0;
				if(!(d.norm() > 1e-3)) continue;
				OM& o = L.w.om[h];
				AM& a = L.am();
				if(op.k == "INTO") { double lv = std::min(0.98, std::max(1e-3, op.n(4))); L.place(on_surface(o, a.m, d, lv)); c.count("faults.localisation_jump"); }
				else if(op.k == "DROP")
				{
					double lv = std::min(0.98, std::max(1e-3, op.n(4)));
					V off = on_surface(o, a.m, d, lv) - o.p, loc = o.ref - o.p;
					V np = a.p - off;
					if(flat) np(2) = 0;
					{ Lib lib; L.w.obs[h]->set_position(np); L.w.obs[h]->set_reference_position(V(np + loc)); }
					o.p = np; o.ref = np + loc;
					c.count("faults.obstacle_dropped");
				}
				else
				{
					L.place(on_surface(o, a.m, d, std::min(2.0, std::max(1.01, op.n(4)))));
					double m = a.m + std::min(0.3, std::max(0.0, op.n(5)));
					{ Lib lib; L.w.A(0).set_safety_margin(m); }
					a.m = m;
					c.count("faults.margin_enlarged");
				}
				continue;
			}
			if(op.k == "ESCAPE")
			{
				if(!L.ready()) continue;
				L.refresh();
				if(L.clusters() || L.moving() || !L.apart() || !L.proper()) { c.count("probes.not_judged"); continue; }
				int in = 0;
				for(int h : L.published()) { double g = gamma_of(L.w.om[h], L.am().p, L.am().m); if(g < 1) ++in; else if(g < 1.2) in += 10; }
				if(in != 1) { c.count("probes.not_judged"); continue; }
				bool centre = false;
				for(int h : L.published()) if((L.am().p - L.w.om[h].ref).norm() < 1e-3) centre = true;
				if(centre) { c.count("probes.not_judged"); continue; }
				Rng r((uint64_t)std::max(0.0, op.n(0, 1)));
				double t0 = c.simtime;
				V x0 = L.am().p;
				while(L.gamma() < 1)
				{
					if(c.simtime - t0 > 20) c.fail("loop.caught", fmt("20 simulated seconds after it was caught at %s the agent is still inside (at %s, distance value %.6f)", vs(x0).c_str(), vs(L.am().p).c_str(), L.gamma()));
					L.period(r, 0.01 * r.u(0.3, 1.7), flat);
				}
				c.ev("free", {c.simtime - t0, L.am().p(0), L.am().p(1), L.am().p(2)});
				int n = std::min(2000, std::max(0, op.in(1)));
				for(int i = 0; i < n; ++i)
				{
					L.period(r, 0.01 * r.u(0.3, 1.7), flat);
					double g = L.gamma();
					L.worst = gmin_(L.worst, g);
					if(g < 0.98) c.fail("loop.caught_again", fmt("the agent got out but entered again (at %s, distance value %.6f)", vs(L.am().p).c_str(), g));
				}
				++escapes;
				c.count("probes.escapes");
				continue;
			}
			L.w.apply(op);
		}
		c.count("probes.control_periods", L.steps);
		c.nontrivial = escapes > 0;
	}
	static Register r09({"C09", "closed loop with repulsion and a speed limit of the actuators: the agent jumps into an obstacle, an obstacle is dropped onto it or its margin grows, while it is asked to go anywhere (also to the centre); it must leave within 20 simulated seconds and stay out; non-trivial = at least one escape", 30000, 400000, gen09, exec09});

	// ---------------------------------------------------------------- C22
	static Scenario gen22(Rng& r, bool big)
	{
		Scenario s;
		double psi = r.p(0.2) ? r.i(-4, 4) * M_PI / 4 : r.u(-M_PI, M_PI);
		V e(cos(psi), sin(psi), 0), f(-sin(psi), cos(psi), 0), o0 = gen_vec(r, 3, true);
		if(r.p(0.15)) { o0 = V::Zero(); }
		double am = r.p(0.4) ? r.u(0, 0.2) : 0;
		int n = r.i(1, 4);
		static const std::vector<std::string> names = {"a", "b", "c", "wall", "e2", "human_1"};
		std::vector<OM> ms;
		std::vector<Op> ob;
		GenOpt g;
		g.planar = true; g.size_lo = 0.3; g.size_hi = 1.2; g.curv = r.p(0.2);
		double along = -r.u(0, 2);
		for(int i = 0; i < n; ++i)
		{
			V p;
			Op o = gen_obs_at(r, g, i, names[i], 0, V::Zero());
			OM m;
			m.ax = a3(o, 15); m.mg = a3(o, 18); m.cv = a3(o, 21);
			if(o.a[1] < 2 || o.a[1] == 8) o.a[1] = 5;
			along += reach(m, am) + 0.5 + r.u(0, 1.5);
			p = o0 + along * e + (r.p(0.7) ? r.u(-0.7, 0.7) : r.u(-0.99, 0.99)) * std::min(m.ax(0), m.ax(1)) * f + V(0, 0, r.u(-0.6, 0.6));
			along += reach(m, am) + am;
			for(int j = 0; j < 3; ++j) { o.a[2 + j] = p(j); o.a[24 + j] = p(j); }
			m.p = p; m.q = q4(o, 5).normalized();
			ms.push_back(m);
			ob.push_back(o);
		}
		s.par["psi"] = psi;
		s.ops.push_back(Op("ENV", 0, {0, r.p(0.5) ? 1.0 : 0.0}));
		for(auto& o : ob) { s.ops.push_back(o); s.ops.push_back(Op("ADD", 0, {0, o.a[0]})); }
		V x0 = o0 - r.u(1, 3) * e + V(0, 0, r.u(-1.2, 1.2));
		for(int tr = 0; tr < 20; ++tr) { bool ok = true; for(auto& m : ms) ok = ok && gamma_of(m, x0, am) > 1.4; if(ok) break; x0 -= 0.5 * e; }
		s.ops.push_back(gen_agent(r, 0, 0, x0, e, am));
		s.ops.push_back(Op("UPD", 0, {0}));
		double t = 0;
		int seg = r.i(1, big ? 8 : 4);
		for(int q = 0; q < seg; ++q)
		{
			// WAY s z kind: target along the line at height z, constant heading, reversed, random in the plane
			s.ops.push_back(Op("WAY", t, {along + r.u(0.5, 2), r.u(-1, 1), (double)(r.p(0.6) ? 0 : r.i(1, 3))}));
			int k = r.i(50, 400);
			s.ops.push_back(Op("FLY", t, {(double)k, 0.01, (double)r.i(1, 1 << 30)}));
			t += 0.01 * k;
			double u = r.u();
			if(u < 0.15) { s.ops.push_back(Op("RM", t, {0}, {r.pick(ob).str(0)})); s.ops.push_back(Op("UPD", t, {0})); }
			else if(u < 0.3) { for(auto& o : ob) s.ops.push_back(Op("ADD", t, {0, o.a[0]})); s.ops.push_back(Op("UPD", t, {0})); }
			else if(u < 0.4) { s.ops.push_back(Op("ENV", t, {0, 0})); for(auto& o : ob) s.ops.push_back(Op("ADD", t, {0, o.a[0]})); s.ops.push_back(Op("UPD", t, {0})); }
			else if(u < 0.5) { V x = x0 + r.u(-1, along + 2) * e; x(2) = r.u(-2, 2); s.ops.push_back(Op("JUMP", t, {x(0), x(1), x(2)})); }
			else if(u < 0.6) s.ops.push_back(Op("REFS", t, {(double)r.i(0, n - 1), r.u(-0.3, 0.3), r.u(-0.3, 0.3)}));
			if(r.p(0.1)) s.ops.push_back(Op("MODE", t, {0, (double)r.i(1, 3)}));
		}
		return s;
	}
	static void exec22(const Scenario& sc, Ctx& c)
	{
		Loop L(c);
		L.planar = true;
		L.floor_ = 0.99;
		double psi = sc.get("psi");
		V e(cos(psi), sin(psi), 0), f(-sin(psi), cos(psi), 0), o0 = V::Zero();
		bool have = false;
		double ws = 0, wz = 0;
		int wk = 0;
		uint64_t judged = 0, deflected = 0;
		for(auto& op : sc.ops)
		{
			if(op.k == "DRIVE") continue;
			if(op.k == "WAY") { ws = op.n(0); wz = op.n(1); wk = op.in(2); if(wk) c.count("faults.glitch_along_heading"); continue; }
			if(op.k == "REFS")
			{
				int h = op.in(0);
				if(L.w.has_obs(h)) { OM& o = L.w.om[h]; V x = o.p + o.q * V(op.n(1) * o.ax(0), op.n(2) * o.ax(1), 0); L.w.apply(Op("SR", op.t, {(double)h, x(0), x(1), x(2)})); }
				continue;
			}
			if(common(L, op)) { if(L.ready() && !have) { have = true; o0 = L.am().p; o0(2) = 0; } continue; }
			if(op.k == "FLY")
			{
				if(!L.ready()) continue;
				Rng r((uint64_t)std::max(0.0, op.n(2, 1)));
				int n = std::min(2000, std::max(0, op.in(0)));
				for(int i = 0; i < n; ++i)
				{
					// the premise: on their own, upright, static, crossed by the line of the heading
					bool crossed = true;
					for(int h : L.published())
					{
						OM& o = L.w.om[h];
						V a = to_frame(o, L.am().p), d = o.q.conjugate() * e;
						double A = std::pow(d(0) / (o.ax(0) + o.mg(0)), 2) + std::pow(d(1) / (o.ax(1) + o.mg(1)), 2);
						double B = a(0) * d(0) / std::pow(o.ax(0) + o.mg(0), 2) + a(1) * d(1) / std::pow(o.ax(1) + o.mg(1), 2);
						double C = std::pow(a(0) / (o.ax(0) + o.mg(0)), 2) + std::pow(a(1) / (o.ax(1) + o.mg(1)), 2) - 1;
						crossed = crossed && (B * B - A * C) / A > 0.002 && o.yaw_only() && o.lin.norm() == 0 && o.ang.norm() == 0 && o.ax.minCoeff() > 0.1;
						if(gamma_of(o, L.am().p, L.am().m) < 0.05) crossed = false;
					}
					if(L.clusters() || !crossed) { L.armed = false; c.count("probes.not_judged"); break; }
					V x = L.am().p;
					if(x.norm() > 60) break;
					V u;
					if(wk == 0) u = (ws - e.dot(V(x - o0))) * e + V(0, 0, wz - x(2));
					else if(wk == 1) u = e;
					else if(wk == 2) u = -e + V(0, 0, 0.2);
					else u = r.u(-1, 1) * e + V(0, 0, r.u(-1, 1));
					if(u.norm() > 1) u.normalize();
					if(std::fabs(u.dot(e)) < 0.02) u += 0.05 * e;
					L.desire(u);
					V v = L.w.command(0, 0, false, false, true, 1, L.power);
					for(auto& it : L.w.env[0]->pub) if(!it.agg() && L.w.om.count(it.h)) L.w.om[it.h].ref = it.ptr->get_reference_position();
					++judged;
					if((v - u).norm() > 0.1) ++deflected;
					if(!(std::fabs(f.dot(v)) <= 1e-6 * (1 + v.norm()))) c.fail("vertical.sideways", fmt("the command %s for the desired velocity %s leaves the vertical plane of the heading by %.6g", vs(v).c_str(), vs(u).c_str(), f.dot(v)));
					double dt = step_dt(op, 0.01) * r.u(0.3, 1.7);
					L.place(V(x + dt * v));
					c.simtime += dt;
					++L.steps;
					if(!L.armed) L.armed = L.ready() && L.apart() && L.gamma() >= 1.3;
					else
						for(int h : L.published())
						{
							double g = gamma_of(L.w.om[h], L.am().p, L.am().m);
							L.worst = gmin_(L.worst, g);
							if(g < 1.05) ++L.near_;
							if(g < L.floor_) c.fail("vertical.collision", fmt("the agent at %s is inside obstacle '%s' (distance value %.6f)", vs(L.am().p).c_str(), L.w.om[h].name.c_str(), g));
						}
				}
				double off = f.dot(V(L.am().p - o0));
				c.ev("pose", {L.am().p(0), L.am().p(1), L.am().p(2), off});
				continue;
			}
			L.w.apply(op);
			if(L.ready() && !have) { have = true; o0 = L.am().p; o0(2) = 0; }
		}
		c.count("probes.commands_judged", judged);
		c.count("probes.commands_deflected", deflected);
		c.count("probes.periods_close_to_a_surface", L.near_);
		c.nontrivial = judged > 0 && deflected > 0;
	}
	static Register r22({"C22", "closed loop flights in a vertical plane with the planar option over one to four upright obstacles crossed by the line of the heading; waypoints, reversed and random headings in the plane, jumps, restarts, obstacles that come and go, owners that move reference points; every command must stay in the plane and no obstacle may be entered; non-trivial = at least one deflected command", 18000, 300000, gen22, exec22});
}
