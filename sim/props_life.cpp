// C30: nothing accumulates with the length of a mission.
#include "world.hpp"
#include <sstream>

namespace sim
{
	static const int PERM = 99; // an obstacle that is there for the whole mission (the others: 100 * cycle + 0, 1, ...)

	static Scenario gen30(Rng& r, bool big)
	{
		Scenario s;
		int cycles = big ? r.pick(std::vector<int>{32, 64, 96}) : r.pick(std::vector<int>{16, 24, 32});
		// what all the cycles have in common
		double crash = r.pick(std::vector<double>{0, 0, 0.05}), mode = r.pick(std::vector<double>{0, 0.1}), again = r.pick(std::vector<double>{0, 0, 0.2});
		double drop = r.pick(std::vector<double>{0, 0.2}), dup = r.pick(std::vector<double>{0, 0.4});
		double area = r.pick(std::vector<double>{1.0, 2.0, 4.0});
		int nobs = r.i(1, 4);
		double length = r.u(0.1, big ? 0.6 : 0.3), t0 = 0;
		bool moving = r.p(0.7), kept = r.p(0.5);
		double copies = r.pick(std::vector<double>{0, 0.1, 0.5, 1}), prints = r.pick(std::vector<double>{0, 0.1}), asks = r.pick(std::vector<double>{0, 0.3});
		for(int n = 0; n < cycles; ++n)
		{
			HistOpt H;
			H.nag = 2;
			H.g.nobs = nobs;
			H.g.area = area;
			H.g.moving = moving;
			H.g.refs = true;
			H.seconds = length;
			H.period = 0.05;
			H.drop = drop;
			H.dup = dup;
			H.delay = 0.1;
			H.crash = crash;
			H.p_mode = mode;
			H.cmds = H.lookups = true;
			H.crowd = H.huge = false;
			std::vector<Op> ops = gen_history(r, H), out;
			bool first = n == 0, anew = r.p(again);
			if(first) { Op o = gen_obs(r, H.g, PERM, "permanent", 0); out.push_back(o); }
			for(auto op : ops)
			{
				// controllers, agents and one obstacle stay; everything else comes and goes
				if(op.k == "ENV" && op.t == 0 && !first && !anew) op = Op("AGG", 0, op.a);
				if(op.k == "AG" && !first && !anew) continue;
				if(op.k == "AG" && op.in(0) == 1 && first && kept) { out.push_back(op); out.push_back(Op("ACP", op.t, {0, 10})); continue; } // a copy that stays
				if(op.k == "OBS" || op.k[0] == 'S') op.a[0] += 100 * n;
				if(op.k == "ADD") op.a[1] += 100 * n;
				out.push_back(op);
				if(op.k == "CMD")
				{
					if(r.p(copies)) out.push_back(Op("CPY", op.t, {(double)r.i(0, 1), (double)r.i(0, 1), (double)r.i(0, 1)}));
					if(r.p(prints)) out.push_back(Op("PRN", op.t, {0}));
					if(r.p(asks)) { std::vector<double> a = {0, (double)r.i(0, 1)}; put(a, gen_vec(r, area, true)); out.push_back(Op("ASK", op.t, a)); }
				}
				if(op.k == "UPD" && r.p(0.5))
				{
					std::vector<double> a = {(double)PERM};
					put(a, gen_vec(r, area, true));
					switch(r.i(0, 4))
					{
					case 0: out.push_back(Op("ADD", op.t, {0, (double)PERM})); break;
					case 1: out.push_back(Op("RM", op.t, {0}, {"permanent"})); break;
					case 2: a.push_back(r.i(0, 1)); out.push_back(Op("SP", op.t, a)); break;
					case 3: put(a, gen_q(r, true)); out.push_back(Op("SPOSE", op.t, a)); break;
					default: out.push_back(Op(r.p(0.5) ? "SL" : "SR", op.t, a));
					}
				}
			}
			for(auto& op : out) op.t += t0;
			s.ops.insert(s.ops.end(), out.begin(), out.end());
			t0 += length;
			s.ops.push_back(Op("REST", t0, {(double)n}));
		}
		return s;
	}

	static void remove_all(World& w)
	{
		std::vector<std::string> names;
		for(auto& kv : w.env[0]->reg) names.push_back(kv.first);
		Lib lib;
		for(auto& n : names) w.E(0).remove_obstacle(n);
	}
	// buffers that are kept may be as large as the largest situation needs: let them see a larger one first
	static void saturate(World& w)
	{
		Lib lib;
		auto& e = w.E(0);
		bool aggr = w.env[0]->aggr;
		doa::Agent a(doa::State(V(0.3, 0.9, 0)), 0.2);
		a.set_linear_velocity(V(0.4, -0.3, 0));
		for(int far = 0; far < 2; ++far)
		{
			std::vector<std::string> names;
			for(int i = 0; i < 16; ++i)
			{
				names.push_back("saturation_" + std::string(120, 'x') + std::to_string(i));
				e.add_obstacle(std::make_shared<doa::Ellipsoid>(names.back(), doa::State(V((far ? 4.0 : 1.0) * i - 8, 0, 0), yawq(0.1 * i)), 0.1));
			}
			for(int m = 0; m < 2; ++m)
			{
				e.set_aggregated(m);
				e.update();
				for(int f = 0; f < 4; ++f) doa::Modulation::modulate_velocity(a, e, f == 1, f == 2, f == 3);
				auto l = e.get_obstacle_list();
				for(auto& o : l) { a.in_obstacle(*o); try { e[o->get_name()]; } catch(std::runtime_error&) {} }
				a.exist_path(V(3, 2, 0), l);
			}
			for(auto& n : names) e.remove_obstacle(n);
			e.update();
		}
		e.set_aggregated(aggr);
	}
	// the same scene, whatever happened before; returns the basic blocks it took
	static uint64_t scene(World& w, Ctx& c, double& sum)
	{
		Env& e = *w.env[0];
		uint64_t b = 0;
		{
			Lib lib;
			doa::State st(V(0.9, 0.2, 0), yawq(0.4));
			auto p1 = std::make_shared<doa::Ellipsoid>("scene_1", st, 0.1);
			p1->set_axis_lengths(A3(0.8, 0.5, 0.6));
			st.set_position(V(1.7, 0.5, 0));
			auto p2 = std::make_shared<doa::Ellipsoid>("scene_2", st, 0.1);
			p2->set_axis_lengths(A3(0.5, 0.7, 0.6));
			auto& p = *w.obs[PERM];
			p.set_pose(doa::Pose(V(-1.6, 0.3, 0), Q(1, 0, 0, 0)));
			p.set_linear_velocity(V(0.1, 0, 0));
			p.set_angular_velocity(V(0, 0, 0));
			p.set_reference_position(V(-1.6, 0.3, 0));
			p.set_axis_lengths(A3(0.5, 0.4, 0.3));
			auto& a = w.A(0);
			a.set_safety_margin(0.1);
			a.set_pose(doa::Pose(V(0, -0.6, 0), Q(1, 0, 0, 0)));
			a.set_linear_velocity(V(0.5, 0.2, 0));
			w.E(0).set_aggregated(true);
			std::shared_ptr<doa::Obstacle> two(p2), one(p1), perm(w.obs[PERM]);
			uint64_t b0 = blocks();
			w.E(0).add_obstacle(two);
			w.E(0).add_obstacle(one);
			w.E(0).add_obstacle(perm);
			w.E(0).update();
			V v(0, 0, 0);
			for(int m = 0; m < 4; ++m) v += doa::Modulation::modulate_velocity(a, w.E(0), m == 1, m == 2, m == 3);
			v(2) += w.E(0)["scene_1"]->compute_distance_to_agent(a);
			v(2) += a.exist_path(V(0.2, -0.7, 0), w.E(0).get_obstacle_list()) ? 1 : 0;
			b = blocks() - b0;
			w.E(0).remove_obstacle("scene_1");
			w.E(0).remove_obstacle("scene_2");
			w.E(0).remove_obstacle(perm->get_name());
			w.E(0).update();
			w.E(0).set_aggregated(e.aggr);
			sum = v.sum();
		}
		w.am[0].p = V(0, -0.6, 0);
		w.am[0].q = Q(1, 0, 0, 0);
		w.am[0].u = V(0.5, 0.2, 0);
		w.am[0].m = 0.1;
		OM& m = w.om[PERM];
		m.p = m.ref = V(-1.6, 0.3, 0);
		m.q = Q(1, 0, 0, 0);
		m.lin = V(0.1, 0, 0);
		m.ang = V(0, 0, 0);
		m.ax = A3(0.5, 0.4, 0.3);
		(void)c;
		return b;
	}
	// does it still grow, in every one of the last octaves, and not more slowly
	static bool grows(const std::vector<double>& x, std::string& how)
	{
		size_t n = x.size();
		if(n < 8) return false;
		double a = x[n / 8], b = x[n / 4], d = x[n / 2], e = x[n - 1];
		for(size_t i = n / 4 + 1; i < n; ++i) if(x[i] < x[i - 1]) return false;
		how = fmt("%.0f after %zu cycles, %.0f after %zu, %.0f after %zu, %.0f after %zu", a, n / 8 + 1, b, n / 4 + 1, d, n / 2 + 1, e, n);
		return b > a && d > b && e > d && e - d >= 0.5 * (d - b);
	}
	static void exec30(const Scenario& sc, Ctx& c)
	{
		World w(c);
		std::vector<double> bytes, work;
		int calls = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(registry_op(w, c, op, false)) { ++calls; continue; }
			if(op.k == "UPD") { if(w.has_env(k)) { w.refresh(k); ++calls; } continue; }
			if(op.k == "GET") { if(w.has_env(k)) { Lib lib; ++calls; try { w.E(k)[op.str(0)]; } catch(std::runtime_error&) {} } continue; }
			if(op.k == "GETAGG" || op.k == "PUB") { if(w.has_env(k)) { auto l = w.observe(k); ++calls; } continue; }
			if(op.k == "CMD")
			{
				int i = op.in(0), e = op.in(1);
				if(!w.has_ag(i) || !w.has_env(e)) continue;
				V v = w.command(i, e, op.n(2) != 0, op.n(3) != 0, op.n(4) != 0, op.n(5, 1), op.n(6, 2));
				c.ev("cmd", {v(0), v(1), v(2)});
				++calls;
				continue;
			}
			if(op.k == "CPY")
			{
				int i = op.in(0), j = op.in(1);
				if(!w.has_ag(i) || !w.has_ag(j)) continue;
				{ Lib lib; doa::Agent tmp(w.A(i)); if(op.in(2)) w.A(j) = tmp; }
				if(op.in(2)) w.am[j] = w.am[i];
				++calls;
				continue;
			}
			if(op.k == "PRN")
			{
				if(!w.has_env(k)) continue;
				Lib lib;
				std::ostringstream os;
				for(auto& o : w.E(k).get_obstacle_list()) os << *o << std::endl;
				if(w.has_ag(0)) os << w.A(0) << std::endl;
				++calls;
				continue;
			}
			if(op.k == "ASK")
			{
				int i = op.in(1);
				if(!w.has_env(k) || !w.has_ag(i)) continue;
				V x = v3(op, 2);
				Lib lib;
				auto l = w.E(k).get_obstacle_list();
				w.A(i).exist_path(x, l);
				for(auto& o : l) { w.A(i).in_obstacle(*o); static_cast<doa::Obstacle*>(o.get())->compute_distance_to_point(x, 0.1); o->point_is_inside(x); }
				++calls;
				continue;
			}
			if(op.k == "ENV") { w.apply(op); if(k == 0) saturate(w); continue; }
			if(op.k != "REST") { w.apply(op); continue; }
			if(!w.has_env(0) || !w.has_ag(0) || !w.has_obs(PERM)) continue;
			// everybody leaves
			remove_all(w);
			w.env[0]->reg.clear();
			w.refresh(0);
			{
				std::vector<int> hs;
				for(auto& o : w.obs) if(o.first != PERM) hs.push_back(o.first);
				for(int h : hs) { { Lib lib; w.obs.erase(h); } w.om.erase(h); }
			}
			double sum = 0;
			uint64_t b = scene(w, c, sum);
			w.refresh(0);
			{ Lib lib; std::vector<Item>().swap(w.env[0]->pub); }
			bytes.push_back((double)mem::live_bytes());
			work.push_back((double)b);
			c.ev("rest", {sum});
		}
		std::string how;
		if(grows(bytes, how)) c.fail("growth.memory", "the same empty map, agents and obstacle need more and more memory: " + how + " bytes");
		if(grows(work, how)) c.fail("growth.work", "the same refresh and commands take more and more work: " + how + " basic blocks");
		c.count("probes.cycles", bytes.size());
		c.count("probes.calls", (uint64_t)calls);
		if(bytes.size() >= 2 && bytes.back() == bytes[0] && work.back() == work[0]) c.count("probes.exactly_periodic");
		c.nontrivial = bytes.size() >= 8 && calls >= 50;
	}
	static Register r30({"C30", "missions of 16 to 96 cycles in which obstacles come, move and leave again while controllers, agents and one obstacle stay in use (commands, refreshes, refused and repeated messages, lookups, copies, prints, restarts); after each cycle everybody leaves and one and the same scene is set up: the memory the library still holds and the basic blocks the scene takes must not go on growing; non-trivial = 8 or more cycles with 50 or more calls", 1500, 60000, gen30, exec30});
}
