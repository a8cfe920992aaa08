// Properties of commands: corrupted readings, local mode, threads, independent controllers,
// reproducibility, change of frame, the modulation law, cluster surfaces.
#include "world.hpp"
#include <algorithm>
#include <sstream>

namespace sim
{
	// registry and refresh operations of a history; false if it is something else
	static bool map_op(World& w, Ctx& c, const Op& op)
	{
		int k = op.in(0);
		if(op.k == "ADD" || op.k == "RM") { registry_op(w, c, op, false); return true; }
		if(op.k == "UPD") { if(w.has_env(k)) { w.refresh(k); c.evs("pub", show(w.env[k]->pub, w)); } return true; }
		if(op.k == "GET" || op.k == "GETAGG" || op.k == "PUB") return true;
		return false;
	}
	static bool all_yaw(World& w) { for(auto& o : w.om) if(!o.second.yaw_only()) return false; return true; }
	static bool vertical(const AM& m) { return std::hypot(m.u(0), m.u(1)) < 1e-6 * m.u.norm(); }
	// what planar commands do to the reference points of obstacles on their own
	static void sync_refs(World& w, int k)
	{
		for(auto& it : w.env[k]->pub) if(!it.agg() && w.om.count(it.h)) w.om[it.h].ref = it.ptr->get_reference_position();
	}

	// ---------------------------------------------------------------- C20
	static HistOpt cmd_opt(Rng& r, bool big)
	{
		HistOpt H;
		H.nenv = 1;
		H.nag = r.i(1, 3);
		H.g.nobs = r.i(1, big ? 8 : 6);
		H.g.area = r.pick(std::vector<double>{1.5, 3.0, 5.0});
		H.g.planar = true;
		H.g.moving = r.p(0.7);
		H.g.curv = r.p(0.3);
		H.g.refs = r.p(0.5);
		H.g.zvar = r.p(0.4);
		H.seconds = r.u(0.5, big ? 4 : 2);
		H.drop = r.pick(std::vector<double>{0, 0.1, 0.3});
		H.dup = r.pick(std::vector<double>{0, 0.2});
		H.crash = r.pick(std::vector<double>{0, 0.03});
		H.p_mode = r.pick(std::vector<double>{0, 0.1});
		H.cmds = true;
		return H;
	}
	// agents leave the plane, obstacles tilt (only where nothing overlaps or aggregation is off)
	static void lift(Rng& r, std::vector<Op>& ops, double pz)
	{
		for(auto& op : ops)
		{
			if(!r.p(pz)) continue;
			if(op.k == "AP" && op.a.size() > 3) op.a[3] = r.u(-2, 2);
			if(op.k == "AV" && op.a.size() > 3) op.a[3] = r.u(-1, 1);
			if(op.k == "AG" && op.a.size() > 11) { op.a[4] = r.u(-2, 2); op.a[11] = r.u(-1, 1); }
		}
	}
	static void tilt(Rng& r, std::vector<Op>& ops)
	{
		for(auto& op : ops)
		{
			if(op.k == "ENV" || op.k == "AGG") op.a[1] = 0;
			if(op.k == "OBS" && r.p(0.7)) { Q q = gen_q(r, false); op.a[5] = q.w(); op.a[6] = q.x(); op.a[7] = q.y(); op.a[8] = q.z(); for(int i = 9; i < 15; ++i) if(op.a[i] != 0) op.a[i] = r.u(-0.6, 0.6); }
			if(op.k == "SQ" && r.p(0.7)) { Q q = gen_q(r, false); op.a[1] = q.w(); op.a[2] = q.x(); op.a[3] = q.y(); op.a[4] = q.z(); }
			if(op.k == "SW" && r.p(0.5)) { op.a[1] = r.u(-1, 1); op.a[2] = r.u(-1, 1); }
			if(op.k == "CMD") op.a[4] = 0;
			if(op.k == "CMD" && r.p(0.7)) op.a[2] = 0;
		}
	}
	static Scenario gen20(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = cmd_opt(r, big);
		s.ops = gen_history(r, H);
		double pz = r.pick(std::vector<double>{0, 0.5, 1});
		lift(r, s.ops, pz);
		if(r.p(0.3)) { s.par["spatial"] = 1; tilt(r, s.ops); }
		return s;
	}
	static void exec20(const Scenario& sc, Ctx& c)
	{
		World w(c);
		int judged = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			if(map_op(w, c, op)) continue;
			if(op.k != "CMD") { w.apply(op); continue; }
			int i = op.in(0), k = op.in(1);
			if(!w.has_ag(i) || !w.has_env(k)) continue;
			bool local = op.n(2) != 0, rep = op.n(3) != 0, planar = op.n(4) != 0;
			double crit = op.n(5, 1), power = op.n(6, 2);
			bool flat = all_yaw(w);
			if(!flat) { local = false; planar = false; }
			Law L = w.expect(i, k, rep, planar, crit, power);
			Tri act = local ? (vertical(w.am[i]) ? MAYBE : w.local_active(i, k)) : YES;
			V v = w.command(i, k, local, rep, planar, crit, power);
			c.ev("cmd", {v(0), v(1), v(2)});
			c.count("probes.commands");
			if(planar) sync_refs(w, k);
			if(act == MAYBE) { c.count("probes.undecided"); continue; }
			if(act == NO)
			{
				if(!(v == w.am[i].u)) c.fail("law.local", fmt("nothing in sight of agent %d, but its velocity %s became %s", i, vs(w.am[i].u).c_str(), vs(v).c_str()));
				c.count("probes.local_inactive");
				continue;
			}
			if(!L.sure) { c.count("probes.undecided"); continue; }
			++judged;
			if(w.env[k]->pub.size() > 1) c.count("probes.several_obstacles");
			bool cl = false;
			for(auto& it : w.env[k]->pub) cl |= it.agg();
			if(cl) c.count("probes.with_cluster");
			if(rep && L.scale > 1) c.count("probes.repulsion");
			if(!close(v, L.v, 1e-6 * (L.scale + L.v.norm()))) c.fail("law.command", fmt("agent %d at %s, desired %s, %zu obstacles%s%s%s: command %s, the law gives %s", i, vs(w.am[i].p).c_str(), vs(w.am[i].u).c_str(), w.env[k]->pub.size(), local ? ", local" : "", rep ? ", repulsion" : "", planar ? ", planar" : "", vs(v).c_str(), vs(L.v).c_str()));
		}
		c.count("probes.judged", judged);
		c.nontrivial = judged >= 2;
	}
	static Register r20({"C20", "missions with moving, rotating, rounded and clustered obstacles over a lossy channel; every command (global, local, with repulsion, vertical, other critical distances and powers, several agents) is compared with an independent statement of the law; non-trivial = at least two commands judged", 16000, 600000, gen20, exec20});

	// ---------------------------------------------------------------- C11
	static Scenario gen11(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = cmd_opt(r, big);
		H.g.area = r.pick(std::vector<double>{2.0, 4.0, 6.0});
		if(r.p(0.2)) H.g.nobs = 1;
		s.ops = gen_history(r, H);
		lift(r, s.ops, r.pick(std::vector<double>{0, 0.3}));
		for(auto& op : s.ops) if(op.k == "CMD") { op.a[3] = r.p(0.3); if(r.p(0.3)) { op.a[5] = r.u(0.5, 2); op.a[6] = r.p(0.5) ? (double)r.i(1, 4) : r.u(0.5, 4); } }
		for(auto& op : s.ops) if(op.k == "AV" && r.p(0.1)) for(int j = 1; j < 4; ++j) op.a[j] *= r.pick(std::vector<double>{0, 1e-6, 30, 1e4});
		s.par["probe_seed"] = r.i(1, 1 << 30);
		return s;
	}
	static void exec11(const Scenario& sc, Ctx& c)
	{
		World w(c);
		Rng pr((uint64_t)sc.get("probe_seed", 1));
		int n = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			if(map_op(w, c, op)) continue;
			if(op.k != "CMD") { w.apply(op); continue; }
			int i = op.in(0), k = op.in(1);
			if(!w.has_ag(i) || !w.has_env(k) || !all_yaw(w)) continue;
			bool rep = op.n(3) != 0, planar = op.n(4) != 0;
			double crit = op.n(5, 1), power = op.n(6, 2);
			V u = w.am[i].u;
			++n;
			if(w.observe(k).empty())
			{
				bool local = pr.p(0.5);
				V v = w.command(i, k, local, rep, planar, crit, power);
				if(!(v == u)) c.fail("free.changed", fmt("no obstacle is published, but the velocity %s became %s", vs(u).c_str(), vs(v).c_str()));
				c.count("probes.nothing_published");
				continue;
			}
			Tri act = vertical(w.am[i]) ? MAYBE : w.local_active(i, k);
			V v = w.command(i, k, true, rep, planar, crit, power);
			V g = w.command(i, k, false, rep, planar, crit, power);
			if(planar) sync_refs(w, k);
			c.ev("cmd", {v(0), v(1), v(2), g(0), g(1), g(2)});
			bool free_ = v == u, same = close(v, g, 1e-9 * (1 + g.norm()));
			if(act == NO && !free_) c.fail("local.changed", fmt("the look-ahead envelope of the agent at %s with velocity %s touches nothing, but the command is %s", vs(w.am[i].p).c_str(), vs(u).c_str(), vs(v).c_str()));
			if(act == YES && !same) c.fail("local.inactive", fmt("the look-ahead envelope of the agent at %s with velocity %s touches an obstacle, but the command is %s instead of %s", vs(w.am[i].p).c_str(), vs(u).c_str(), vs(v).c_str(), vs(g).c_str()));
			if(!free_ && !same) c.fail("local.other", fmt("the local command %s is neither the desired velocity %s nor the global command %s", vs(v).c_str(), vs(u).c_str(), vs(g).c_str()));
			c.count(act == NO ? "probes.local_inactive" : act == YES ? "probes.local_active" : "probes.undecided");
		}
		c.nontrivial = n >= 2;
	}
	static Register r11({"C11", "missions as in C20; every command is asked in local and in global mode and compared with the desired velocity according to an overlap oracle for the look-ahead envelope; non-trivial = at least two commands", 14000, 600000, gen11, exec11});

	// ---------------------------------------------------------------- C10
	static double bad_number(Rng& r) { return r.pick(std::vector<double>{NAN, NAN, INFINITY, -INFINITY, 1e308, -1e308, 1e200, 1e20, -1e20, 0, 1e-310, -1, 1e155, 1e-157}); }
	static Scenario gen10(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = cmd_opt(r, big);
		H.g.nobs = r.i(1, 5);
		H.g.refs = false;
		H.p_ref = 0;
		std::vector<Op> h = gen_history(r, H);
		// BAD what handle numbers...: a corrupted reading; HEAL: all good readings arrive again
		bool sick = false;
		int nob = 0;
		for(auto& op : h) if(op.k == "OBS") nob = std::max(nob, op.in(0) + 1);
		std::vector<std::string> okinds = {"SP", "SQ", "SPOSE", "SL", "SW", "SX", "SC", "SR"}, akinds = {"AP", "AV", "AQ", "AW", "AM", "APOSE", "ATR"};
		for(auto& op : h)
		{
			s.ops.push_back(op);
			if(op.t < 0.05) continue;
			if(op.k == "CMD" || op.k == "UPD")
			{
				if(r.p(sick ? 0.3 : 0.15))
				{
					int n = r.i(1, 3);
					for(int j = 0; j < n; ++j)
					{
						bool ag = r.p(0.4);
						std::string kind = r.pick(ag ? akinds : okinds);
						int sz = kind == "SPOSE" || kind == "APOSE" || kind == "ATR" ? 7 : kind == "SQ" || kind == "AQ" ? 4 : kind == "AM" ? 1 : 3;
						Op b("BAD", op.t, {(double)r.i(0, ag ? H.nag - 1 : std::max(0, nob - 1))}, {kind});
						bool uni = r.p(0.5);
						double x = bad_number(r);
						for(int q = 0; q < sz; ++q) b.a.push_back(uni ? x : r.p(0.5) ? bad_number(r) : r.u(-2, 2));
						s.ops.push_back(b);
					}
					if(r.p(0.15) && nob > 0)
					{
						// the agent is reported (almost) at the very centre of an obstacle
						double h0 = r.i(0, nob - 1), z = r.p(0.7) ? 0 : bad_number(r);
						Op b("BAD", op.t, {h0, z, z, z}, {"SP"}), a("BAD", op.t, {(double)r.i(0, H.nag - 1)}, {"AP"});
						double e = r.u(-170, -5);
						for(int q = 0; q < 3; ++q) a.a.push_back((r.p(0.5) ? 1 : -1) * std::pow(10.0, e + r.u(-1, 1)));
						s.ops.push_back(b);
						s.ops.push_back(a);
					}
					sick = true;
				}
				else if(sick && r.p(0.4)) { s.ops.push_back(Op("HEAL", op.t)); sick = false; }
				if(sick && r.p(0.4)) s.ops.push_back(Op("UPD", op.t, {0}));
				if(sick) s.ops.push_back(Op("ASK", op.t, {(double)r.i(0, H.nag - 1), (double)r.i(0, 7)}));
			}
		}
		s.ops.push_back(Op("HEAL", H.seconds));
		s.par["probe_seed"] = r.i(1, 1 << 30);
		return s;
	}
	// what a process that never saw a corrupted reading answered after each recovery
	struct Clean { std::vector<std::vector<double>> told; size_t at = 0; };
	static void mission10(const Scenario& sc, Ctx& c, Clean* write, Clean* read);
	static void exec10(const Scenario& sc, Ctx& c)
	{
		Clean clean;
		std::string out;
		int status = 0;
		if(isolated([&]() {
			Ctx c2;
			Clean k;
			mission10(sc, c2, &k, nullptr);
			std::string o;
			auto num = [&](double x) { o.append((const char*)&x, 8); };
			for(auto& v : k.told) { num((double)v.size()); for(double x : v) num(x); }
			return o;
		}, out, status))
		{
			auto num = [&](size_t at) { double x = 0; memcpy(&x, out.data() + at, 8); return x; };
			for(size_t at = 0; at + 8 <= out.size();)
			{
				std::vector<double> v((size_t)num(at));
				at += 8;
				for(auto& x : v) { x = num(at); at += 8; }
				clean.told.push_back(v);
			}
			mission10(sc, c, nullptr, &clean);
		}
		else mission10(sc, c, nullptr, nullptr);
	}
	static void mission10(const Scenario& sc, Ctx& c, Clean* write, Clean* read)
	{
		Ctx c2;
		World w(c), good(c2); // good never sees a corrupted reading
		w.raw = true;
		Rng pr((uint64_t)sc.get("probe_seed", 1));
		bool sick = false;
		std::set<int> badref; // obstacles whose owner reported a corrupted reference point
		int episodes = 0, asked = 0;
		auto finite_cmd = [&](int i, int k, bool rep, bool planar, double crit, double power) {
			V v;
			try { v = w.command(i, k, false, rep, planar, crit, power); }
			catch(std::exception& e) { c.fail("bad.exception", std::string("a command was answered with an exception: ") + e.what()); }
			++asked;
			if(sick) c.count("probes.command_on_corrupted_readings");
			c.ev("cmd", {v(0), v(1), v(2)});
			if(!v.allFinite() && !w.observe(k).empty()) c.fail("bad.wild", fmt("command %s for agent %d", vs(v).c_str(), i));
		};
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(op.k == "BAD")
			{
				Op b = op;
				b.k = op.str(0);
				// sizes of zero and below belong to the degenerate readings, curvature factors must stay moderate
				if((b.k[0] == 'S' && !w.has_obs(k)) || (b.k[0] == 'A' && !w.has_ag(k))) continue;
				if(!write) w.apply(b);
				if(b.k == "SR") badref.insert(k);
				sick = true;
				c.count("faults.corrupted_" + b.k);
				continue;
			}
			if(op.k == "HEAL")
			{
				if(!sick) continue;
				sick = false;
				// both systems receive the same complete set of readings
				for(auto& o : good.om)
				{
					if(!w.has_obs(o.first)) continue;
					auto& g = *good.obs[o.first];
					bool member = false; // of a published cluster: the owner has no reference point of its own to report
					for(auto& e : good.env) for(auto& it : e.second->pub) if(it.agg() && std::count(it.mem.begin(), it.mem.end(), o.first)) member = true;
					V pos = g.get_position(), lin = g.get_linear_velocity(), ang = g.get_angular_velocity();
					V ref = member ? pos : V(g.get_reference_position());
					Q q = g.get_orientation();
					A3 ax = g.get_axis_lengths(), cv = g.get_curvature_factor();
					Lib lib;
					for(doa::Ellipsoid* b : {good.obs[o.first].get(), w.obs[o.first].get()})
					{
						b->set_position(pos);
						b->set_orientation(q);
						b->set_linear_velocity(lin);
						b->set_angular_velocity(ang);
						b->set_axis_lengths(ax);
						b->set_curvature_factor(cv);
						if(badref.count(o.first)) b->set_reference_position(ref);
					}
				}
				// a reference point that no owner corrupted is not lost for good
				for(auto& e : w.env) w.refresh(e.first);
				for(auto& o : good.om)
				{
					bool reg = false; // refreshes repair what they know
					for(auto& e : w.env) for(auto& r : e.second->reg) reg = reg || r.second == o.first;
					if(reg && w.has_obs(o.first) && !V(w.obs[o.first]->get_reference_position()).allFinite())
						c.fail("bad.reference", fmt("after all readings recovered the reference point of obstacle '%s' is still %s", o.second.name.c_str(), vs(w.obs[o.first]->get_reference_position()).c_str()));
				}
				badref.clear();
				for(auto& o : good.om)
				{
					if(!w.has_obs(o.first)) continue;
					bool member = false; // of a published cluster: the owner has no reference point of its own to report
					for(auto& e : good.env) for(auto& it : e.second->pub) if(it.agg() && std::count(it.mem.begin(), it.mem.end(), o.first)) member = true;
					auto& g = *good.obs[o.first];
					V ref = member ? V(g.get_position()) : V(g.get_reference_position());
					Lib lib;
					for(doa::Ellipsoid* b : {good.obs[o.first].get(), w.obs[o.first].get()}) b->set_reference_position(ref);
				}
				for(auto& a : good.ag)
				{
					if(!w.has_ag(a.first)) continue;
					auto pose = a.second->get_pose();
					V lin = a.second->get_linear_velocity(), ang = a.second->get_angular_velocity();
					double m = a.second->get_safety_margin();
					Lib lib;
					for(doa::Agent* b : {a.second.get(), w.ag[a.first].get()})
					{
						b->set_pose(pose);
						b->set_angular_velocity(ang);
						b->set_linear_velocity(lin);
						b->set_safety_margin(m);
					}
				}
				for(auto& o : good.om) good.om[o.first].ref = good.obs[o.first]->get_reference_position();
				for(auto& o : good.om) w.om[o.first] = o.second;
				for(auto& a : good.am) w.am[a.first] = a.second;
				for(auto& e : good.env)
				{
					int kk = e.first;
					if(!w.has_env(kk)) continue;
					good.refresh(kk);
					w.refresh(kk);
					std::string g = show(good.env[kk]->pub, good), b = show(w.env[kk]->pub, w);
					if(g != b) c.fail("bad.trace", "after all readings recovered the map is " + b + ", without the episode it is " + g);
					std::vector<V> ps, us;
					probes_of(pr, good, 4, ps, us);
					double d = worst(geometry(good, kk, ps, 0.1), geometry(w, kk, ps, 0.1));
					if(d > 1e-9) c.fail("bad.trace", fmt("after all readings recovered the geometry differs by %g from that without the episode", d));
					d = worst(commands(good, kk, ps, us, 0.1), commands(w, kk, ps, us, 0.1));
					if(d > 1e-9) c.fail("bad.trace", fmt("after all readings recovered commands differ by %g from those without the episode", d));
					if(write) { write->told.push_back(geometry(w, kk, ps, 0.1)); write->told.push_back(commands(w, kk, ps, us, 0.1)); }
					if(read && read->at + 1 < read->told.size())
					{
						d = worst(read->told[read->at], geometry(w, kk, ps, 0.1));
						if(d > 1e-9) c.fail("bad.trace", fmt("after all readings recovered the geometry differs by %g from that of a process without the episode", d));
						d = worst(read->told[read->at + 1], commands(w, kk, ps, us, 0.1));
						if(d > 1e-9) c.fail("bad.trace", fmt("after all readings recovered commands differ by %g from those of a process without the episode", d));
						read->at += 2;
						c.count("probes.compared_with_clean_process");
					}
					for(auto& a : good.ag)
					{
						if(!w.has_ag(a.first)) continue;
						for(int m = 0; m < 3; ++m)
						{
							V x = good.command(a.first, kk, m == 1, m == 2, false, 1, 2), y = w.command(a.first, kk, m == 1, m == 2, false, 1, 2);
							if(!(x == y) && !close(x, y, 1e-9 * (1 + x.norm()))) c.fail("bad.trace", fmt("after all readings recovered agent %d is commanded %s, without the episode %s", a.first, vs(y).c_str(), vs(x).c_str()));
						}
					}
				}
				++episodes;
				c.count("probes.recovered");
				continue;
			}
			if(op.k == "ASK")
			{
				if(write || !w.has_ag(k) || !w.has_env(0)) continue;
				int m = op.in(1);
				finite_cmd(k, 0, m & 1, (m & 2) != 0, 1, 2);
				try
				{
					Lib lib;
					w.A(k).exist_path(V(0.3, 0.2, 0), w.E(0).get_obstacle_list());
					for(auto& o : w.E(0).get_obstacle_list()) { w.A(k).in_obstacle(*o); o->is_closed(); o->point_is_inside(V(0.1, 0.2, 0)); o->compute_distance_to_agent(w.A(k)); o->compute_normal_to_agent(w.A(k)); }
				}
				catch(std::exception& e) { c.fail("bad.exception", std::string("a query was answered with an exception: ") + e.what()); }
				continue;
			}
			// good readings of a corrupted world reach both
			if(op.k == "CMD")
			{
				int i = op.in(0), e = op.in(1);
				if(!w.has_ag(i) || !w.has_env(e)) continue;
				if(op.n(4) != 0) continue; // vertical commands move reference points; asked by ASK only
				finite_cmd(i, e, op.n(3) != 0, false, op.n(5, 1), op.n(6, 2));
				continue;
			}
			try { if(!map_op(w, c, op)) w.apply(op); }
			catch(std::exception& e) { c.fail("bad.exception", op.k + " was answered with an exception: " + e.what()); }
			if(!map_op(good, c2, op)) good.apply(op);
		}
		c.nontrivial = episodes >= 1 && asked >= 1;
	}
	static Register r10({"C10", "missions in which readings of agents and obstacles are corrupted (undefined, infinite, huge, denormal, zero, negative; any quantity, several at once) for random periods while the map is refreshed and commands and queries are asked; after each recovery the system is compared with one that never saw the corrupted readings; non-trivial = at least one recovery and one command", 4000, 600000, gen10, exec10});

	// ---------------------------------------------------------------- C12
	// snapshot of everything a user can see
	static std::vector<double> snapshot(World& w)
	{
		std::vector<double> r;
		for(auto& o : w.obs) { auto& e = *o.second; put(r, V(e.get_position())); put(r, Q(e.get_orientation())); put(r, V(e.get_linear_velocity())); put(r, V(e.get_angular_velocity())); put(r, V(e.get_reference_position())); put(r, A3(e.get_axis_lengths())); put(r, A3(e.get_safety_margin())); put(r, A3(e.get_curvature_factor())); for(char ch : e.get_name()) r.push_back(ch); }
		for(auto& a : w.ag)
		{
			doa::Agent& x = *a.second;
			put(r, V(x.get_position())); put(r, Q(x.get_orientation())); put(r, V(x.get_linear_velocity())); put(r, V(x.get_angular_velocity())); r.push_back(x.get_safety_margin());
			auto& e = static_cast<const doa::Ellipsoid&>(x.get_envelope());
			put(r, V(e.get_position())); put(r, Q(e.get_orientation())); put(r, V(e.get_reference_position())); put(r, A3(e.get_axis_lengths())); put(r, A3(e.get_safety_margin()));
		}
		for(auto& e : w.env)
			for(auto& it : w.observe(e.first))
			{
				r.push_back(it.h);
				for(int m : it.mem) r.push_back(m);
				for(char ch : it.name) r.push_back(ch);
				put(r, V(it.ptr->get_position())); put(r, V(it.ptr->get_reference_position()));
				if(it.agg()) for(int j = 0; j < 8; ++j) { Lib lib; V x = it.ptr->get_reference_position() + 3 * V(cos(j * 0.785), sin(j * 0.785), 0); r.push_back(static_cast<doa::Obstacle*>(it.ptr.get())->compute_distance_to_point(x, 0.0)); }
			}
		return r;
	}
	static bool equal_bits(const std::vector<double>& a, const std::vector<double>& b)
	{
		if(a.size() != b.size()) return false;
		for(size_t i = 0; i < a.size(); ++i) if(!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
		return true;
	}
	struct TextSink : std::streambuf
	{
		char* mem_;
		size_t n = 0, cap = 1 << 16;
		TextSink() { mem_ = new char[cap]; }
		~TextSink() override { delete[] mem_; }
		int overflow(int ch) override { if(ch == EOF) return 0; if(n >= cap) return EOF; mem_[n++] = (char)ch; return ch; }
		std::string text() const { return std::string(mem_, n); }
	};
	// QRY thread kind agent obstacle x y z
	static std::vector<double> query(World& w, const Op& op)
	{
		std::vector<double> r;
		if(w.ag.empty() || !w.has_env(0)) return r;
		auto ai = w.ag.begin();
		std::advance(ai, std::abs(op.in(2)) % w.ag.size());
		doa::Agent& a = *ai->second;
		std::vector<Item>& pub = w.env[0]->pub;
		doa::Obstacle* o = pub.empty() ? nullptr : pub[std::abs(op.in(3)) % pub.size()].ptr.get();
		doa::Obstacle* o2 = pub.empty() ? nullptr : pub[std::abs(op.in(3) * 7 + 1) % pub.size()].ptr.get();
		V x = v3(op, 4);
		auto num = [&](const V& v) { put(r, v); };
		switch(std::abs(op.in(1)) % 14)
		{
		case 0: { V v; { Lib lib; v = doa::Modulation::modulate_velocity(a, w.E(0)); } num(v); break; }
		case 1: { V v; { Lib lib; v = doa::Modulation::modulate_velocity(a, w.E(0), true); } num(v); break; }
		case 2: { V v; { Lib lib; v = doa::Modulation::modulate_velocity(a, w.E(0), false, true); } num(v); break; }
		case 3: { V v; { Lib lib; v = doa::Modulation::modulate_velocity(a, w.E(0), false, false, false, 1.5, 3); } num(v); break; }
		case 4: if(o) { double d; { Lib lib; d = o->compute_distance_to_agent(a); } r.push_back(d); } break;
		case 5: if(o) { V v; { Lib lib; v = o->compute_normal_to_agent(a); } num(v); } break;
		case 6: if(o) { bool b; { Lib lib; b = o->point_is_inside(x); } r.push_back(b); } break;
		case 7: if(o && o2) { bool b, d; { Lib lib; b = a.get_envelope().is_intersecting(*o); d = a.get_envelope().is_intersecting(w.E(0).get_obstacle_list()); } r.push_back(b); r.push_back(d); } break;
		case 8: if(o) { bool b; { Lib lib; b = a.in_obstacle(*o); } r.push_back(b); } break;
		case 9: { bool b; { Lib lib; b = a.exist_path(x, w.E(0).get_obstacle_list()); } r.push_back(b); break; }
		case 10: if(o) { TextSink tb; std::ostream os(&tb); { Lib lib; os << *o; } for(char ch : tb.text()) r.push_back(ch); } break;
		case 11: { TextSink tb; std::ostream os(&tb); { Lib lib; os << a; } for(char ch : tb.text()) r.push_back(ch); break; }
		case 12: if(!w.env[0]->reg.empty()) { auto it = w.env[0]->reg.begin(); std::advance(it, std::abs(op.in(3)) % w.env[0]->reg.size()); const doa::Obstacle* g; { Lib lib; g = w.E(0)[it->first].get(); } r.push_back(w.handle(g)); } break;
		default: { size_t n; bool b = o ? true : false; { Lib lib; std::deque<std::shared_ptr<doa::Obstacle>> l = w.E(0).get_obstacle_list(); n = l.size(); if(o) b = o->is_closed(); } r.push_back((double)n); r.push_back(b); break; }
		}
		return r;
	}
	static Scenario gen12(Rng& r, bool big)
	{
		Scenario s;
		GenOpt g;
		g.nobs = r.i(1, 5);
		g.area = r.pick(std::vector<double>{1.5, 3.0});
		g.moving = true;
		g.curv = r.p(0.3);
		g.refs = r.p(0.5);
		static const std::vector<std::string> names = {"a", "b", "c", "d", "e"};
		s.ops.push_back(Op("ENV", 0, {0, r.p(0.7) ? 1.0 : 0.0}));
		for(int i = 0; i < g.nobs; ++i) { s.ops.push_back(gen_obs(r, g, i, names[i], 0.01)); s.ops.push_back(Op("ADD", 0.02, {0, (double)i})); }
		int na = r.i(1, 3);
		for(int i = 0; i < na; ++i) { V p = gen_pos(r, g); s.ops.push_back(gen_agent(r, i, 0.02, p, gen_vec(r, 1, true), r.p(0.5) ? 0 : 0.2)); }
		s.ops.push_back(Op("UPD", 0.03, {0}));
		int nt = r.i(2, big ? 4 : 3), nq = r.i(1, big ? 8 : 5);
		for(int t = 0; t < nt; ++t)
			for(int q = 0; q < nq; ++q)
			{
				int kind = r.p(0.5) ? r.i(0, 3) : r.i(0, 13);
				s.ops.push_back(Op("QRY", 0.1 + 0.01 * q, {(double)t, (double)kind, (double)r.i(0, na - 1), (double)r.i(0, 5), r.u(-3, 3), r.u(-3, 3), 0}));
			}
		int ns = r.i(1, big ? 60 : 25);
		double scale = std::pow(10, r.u(0.5, 4));
		for(int i = 0; i < ns; ++i) s.ops.push_back(Op("SWITCH", 0.1, {std::floor(1 + scale * r.u() * r.u()), (double)r.i(0, nt - 1)}));
		return s;
	}
	static void exec12(const Scenario& sc, Ctx& c)
	{
		World w(c);
		std::map<int, std::vector<Op>> th;
		std::vector<Switch> plan;
		for(auto& op : sc.ops)
		{
			if(op.k == "QRY") { th[std::abs(op.in(0)) % 8].push_back(op); continue; }
			if(op.k == "SWITCH") { plan.push_back({(uint64_t)std::max(1.0, op.n(0)), std::abs(op.in(1)) % 8}); continue; }
			if(!map_op(w, c, op)) w.apply(op);
		}
		c.simtime = 1;
		if(!w.has_env(0) || w.ag.empty() || th.empty()) c.reject("nobody to ask");
		std::vector<std::vector<Op>> q;
		for(auto& t : th) q.push_back(t.second);
		std::vector<std::vector<std::vector<double>>> alone(q.size()), shared(q.size());
		// one after the other, in a process of its own: whatever the library remembers is new to the threads
		std::vector<double> before;
		std::string out;
		int status = 0;
		bool lived = isolated([&]() {
			std::string o;
			auto pack = [&](const std::vector<double>& v) { uint64_t n = v.size(); o.append((char*)&n, 8); o.append((char*)v.data(), 8 * n); };
			std::vector<double> b = snapshot(w);
			pack(b);
			for(auto& t : q)
				for(auto& op : t)
				{
					try { pack(query(w, op)); }
					catch(std::exception& e) { return std::string("!") + fmt("query of kind %d: ", std::abs(op.in(1)) % 14) + e.what(); }
					if(!equal_bits(b, snapshot(w))) return std::string("!") + fmt("query of kind %d changed an obstacle, an agent or the published list", std::abs(op.in(1)) % 14);
				}
			return "." + o;
		}, out, status);
		if(!lived) c.fail("query.died", "queries asked one after the other: " + died(status));
		if(out.empty() || out[0] == '!') c.fail("query.changes", out.substr(1));
		{
			size_t at = 1;
			auto take = [&]() { uint64_t n = 0; memcpy(&n, &out[at], 8); at += 8; std::vector<double> v(n); if(n) memcpy(v.data(), &out[at], 8 * n); at += 8 * n; return v; };
			before = take();
			for(size_t t = 0; t < q.size(); ++t) for(size_t i = 0; i < q[t].size(); ++i) alone[t].push_back(take());
		}
		for(size_t t = 0; t < q.size(); ++t) shared[t].resize(q[t].size());
		std::vector<std::function<void()>> bodies;
		std::vector<std::string> err(q.size());
		for(size_t t = 0; t < q.size(); ++t)
			bodies.push_back([&, t]() {
				try { for(size_t i = 0; i < q[t].size(); ++i) shared[t][i] = query(w, q[t][i]); }
				catch(std::exception& e) { err[t] = e.what(); }
				catch(...) { err[t] = "unknown"; }
			});
		ThreadReport rep = run_threads(bodies, plan);
		c.count("faults.preemption_inside_of_a_call", rep.midcall);
		c.count("probes.thread_switches", rep.switches);
		c.ev("schedule", {(double)(rep.trace >> 11), (double)rep.switches, (double)rep.midcall});
		for(size_t t = 0; t < q.size(); ++t)
		{
			if(!err[t].empty()) c.fail("threads.exception", fmt("thread %zu: ", t) + err[t]);
			for(size_t i = 0; i < q[t].size(); ++i)
			{
				if(!shared[t][i].empty()) c.ev("answer", shared[t][i].data(), std::min<size_t>(shared[t][i].size(), 64));
				if(!equal_bits(alone[t][i], shared[t][i])) c.fail("threads.answer", fmt("query %zu of thread %zu (kind %d) got another answer than alone", i, t, std::abs(q[t][i].in(1)) % 14) + (alone[t][i].size() == 3 && shared[t][i].size() == 3 ? ": " + vs(V(shared[t][i][0], shared[t][i][1], shared[t][i][2])) + " instead of " + vs(V(alone[t][i][0], alone[t][i][1], alone[t][i][2])) : ""));
			}
		}
		if(!equal_bits(before, snapshot(w))) c.fail("threads.changes", "concurrent queries changed an obstacle, an agent or the published list");
		c.nontrivial = rep.midcall >= 1 && q.size() >= 2;
	}
	static Register r12({"C12", "two to four simulated threads run commands, distance, normal, containment, overlap, path, lookup and print queries on a shared environment; a seeded scheduler moves control inside of calls at basic block granularity; answers and all visible state are compared with sequential execution; non-trivial = at least one switch inside of a call", 20000, 800000, gen12, exec12});

	// ---------------------------------------------------------------- observation of whole histories (C13, C16)
	static void watch(World& w, Ctx& c, const Op& op, bool device)
	{
		int k = op.in(0);
		if(op.k == "GET")
		{
			if(!w.has_env(k)) return;
			const doa::Obstacle* g = nullptr;
			{ Lib lib; try { g = w.E(k)[op.str(0)].get(); } catch(std::runtime_error&) {} }
			c.ev("get", {(double)(g ? w.handle(g) : -2)});
			return;
		}
		if(op.k == "PUB") { if(w.has_env(k)) c.evs("list", show(w.observe(k), w)); return; }
		if(op.k == "CMD")
		{
			int i = op.in(0), e = op.in(1);
			if(!w.has_ag(i) || !w.has_env(e)) return;
			V v = w.command(i, e, op.n(2) != 0, op.n(3) != 0, op.n(4) != 0, op.n(5, 1), op.n(6, 2));
			c.ev("cmd", {v(0), v(1), v(2)});
			return;
		}
		if(op.k == "LOOK") // LOOK env agent x y z
		{
			int i = op.in(1);
			if(!w.has_env(k) || !w.has_ag(i)) return;
			V x = v3(op, 2);
			std::vector<double> r;
			bool path, seen;
			{
				Lib lib;
				for(auto& o : w.E(k).get_obstacle_list())
				{
					r.push_back(static_cast<doa::Obstacle*>(o.get())->compute_distance_to_point(x, 0.1));
					V n = o->compute_normal_to_agent(w.A(i));
					r.push_back(n(0)); r.push_back(n(1)); r.push_back(n(2));
					r.push_back(o->point_is_inside(x));
					r.push_back(w.A(i).in_obstacle(*o));
					r.push_back(o->is_closed());
					V p = o->get_reference_position();
					r.push_back(p(0)); r.push_back(p(1)); r.push_back(p(2));
				}
				path = w.A(i).exist_path(x, w.E(k).get_obstacle_list());
				seen = w.A(i).get_envelope().is_intersecting(w.E(k).get_obstacle_list());
			}
			r.push_back(path);
			r.push_back(seen);
			c.ev("look", r.data(), r.size());
			{ Lib lib; std::vector<double>().swap(r); }
			return;
		}
		if(op.k == "PRINT")
		{
			if(!w.has_env(k)) return;
			TextSink tb;
			std::ostream os(&tb);
			{ Lib lib; for(auto& o : w.E(k).get_obstacle_list()) os << *o; }
			for(auto& a : w.ag) { Lib lib; os << *a.second; }
			c.evs("text", tb.text());
			return;
		}
		if(op.k == "PLOT" && device)
		{
			if(!w.has_env(k) || !w.has_ag(0)) return;
			plot::reset();
			{ Lib lib; doa::PlottingTools::plot_configuration(w.E(k).get_obstacle_list(), "f", true, op.n(1) != 0); }
			for(auto& x : plot::calls()) { c.evs("plot", x.fn + x.s); c.ev("x", x.x.data(), std::min<size_t>(4, x.x.size())); c.ev("y", x.y.data(), std::min<size_t>(4, x.y.size())); }
			return;
		}
		if(!map_op(w, c, op)) w.apply(op);
		if(op.k == "UPD" && w.has_env(k)) for(auto& it : w.env[k]->pub) { V p = it.ptr->get_reference_position(); c.ev("ref", {p(0), p(1), p(2)}); }
	}
	static std::vector<Op> watched_history(Rng& r, bool big, bool crowd = false)
	{
		HistOpt H = cmd_opt(r, big);
		H.lookups = true;
		H.nag = r.i(1, 2);
		H.g.nobs = crowd ? r.i(10, big ? 60 : 24) : r.i(1, 5);
		H.seconds = crowd ? r.u(0.1, 0.4) : r.u(0.3, big ? 2 : 1);
		if(crowd) H.g.area = r.pick(std::vector<double>{4.0, 8.0, 20.0});
		H.p_ref = 0.03;
		std::vector<Op> h = gen_history(r, H), out;
		// obstacles built without a pose and used as they are
		for(auto& op : h)
		{
			if(op.k == "OBS" && r.p(0.3)) { op.a[1] = r.i(0, 1); op.a[27] = 0; }
			else if(op.k == "OBS" && r.p(0.3)) op.a[27] = 0;
			out.push_back(op);
			if(op.k == "UPD")
			{
				if(r.p(0.6)) { V x = gen_vec(r, 4, true); out.push_back(Op("LOOK", op.t, {op.a[0], (double)r.i(0, H.nag - 1), x(0), x(1), x(2)})); }
				if(r.p(0.15)) out.push_back(Op("PRINT", op.t, {op.a[0]}));
				if(r.p(0.05)) out.push_back(Op("PLOT", op.t, {op.a[0], (double)r.i(0, 1)}));
			}
		}
		// agents that are measured exactly at the centre or the reference point of an obstacle
		if(r.p(0.25))
		{
			std::map<int, V> at, ref;
			for(auto& op : out)
			{
				int h = op.in(0);
				if(op.k == "OBS") { at[h] = v3(op, 2); ref[h] = v3(op, 24); }
				else if(op.k == "SP" || op.k == "SPOSE") at[h] = v3(op, 1);
				else if(op.k == "SR") ref[h] = v3(op, 1);
				else if(op.k == "AP" && !at.empty() && r.p(0.3)) { auto& m = r.p(0.7) ? at : ref; auto it = m.begin(); std::advance(it, r.i(0, (int)m.size() - 1)); for(int j = 0; j < 3; ++j) op.a[1 + j] = it->second(j); }
			}
		}
		if(r.p(0.3)) for(auto& op : out) if((op.k == "AP" || op.k == "AV" || op.k == "SP") && r.p(0.1)) op.a[1] = r.pick(std::vector<double>{NAN, INFINITY, 1e200});
		return out;
	}

	// ---------------------------------------------------------------- C16
	static Scenario gen16(Rng& r, bool big)
	{
		Scenario s;
		s.ops = watched_history(r, big);
		// CFG fill descending reuse random clock stream
		static const std::vector<double> fills = {0, 4294967295.0, 0x3FF00000u, 0x7FF00000u, 0xC0490FDBu, 1, 0x80000000u, 0x41414141u};
		for(int i = 0; i < 2; ++i) s.ops.push_back(Op("CFG", 9, {r.p(0.7) ? r.pick(fills) : (double)(r.next() & 0xffffffffu), (double)r.i(0, 1), (double)r.i(0, 1), (double)r.i(1, 1 << 30), (double)r.i(0, 2000000000), (double)r.i(0, 1), r.pick(std::vector<double>{0, 1, 1000, 1e6, 1e9}), r.pick(std::vector<double>{0, 1e-6, 1, 1000}), (double)r.p(0.3)}));
		return s;
	}
	static void exec16(const Scenario& sc, Ctx& c)
	{
		std::vector<Op> ops, cfgs;
		for(auto& op : sc.ops) { if(op.k == "CFG") cfgs.push_back(op); else { ops.push_back(op); c.simtime = op.t; } }
		cfgs.insert(cfgs.begin(), Op("CFG", 0, {(double)0xA5A5A5A5u, 0, 1, 1, 1600000000, 0}));
		auto once = [&](const Op& g, bool verbose) {
			std::string out;
			int status = 0;
			bool ok = isolated([&]() {
				mem::Config mc;
				mc.fill = (uint32_t)(uint64_t)std::max(0.0, g.n(0));
				mc.descending = g.n(1) != 0;
				mc.reuse = g.n(2) != 0;
				mem::reset(mc);
				env::Config ec;
				ec.rand_seed = (uint64_t)std::max(0.0, g.n(3));
				ec.clock0 = (uint64_t)std::max(0.0, g.n(4));
				ec.step_ns = (uint64_t)std::max(0.0, g.n(6, 1000));
				ec.speed = std::max(0.0, g.n(7, 1));
				ec.jumps = g.n(8, 0) != 0;
				env::reset(ec);
				cerr_fault(g.n(5) != 0);
				Ctx k;
				k.verbose = verbose;
				std::string err;
				try
				{
					World w(k);
					env::follow(&k.simtime);
					for(auto& op : ops) { k.simtime = op.t; watch(w, k, op, true); }
				}
				catch(std::exception& e) { err = std::string("exception ") + e.what(); }
				std::string o = fmt("%016llx %s\n", (unsigned long long)k.hash, err.c_str());
				for(auto& l : k.lines) o += l + "\n";
				return o;
			}, out, status);
			if(!ok) out = "died: " + died(status) + "\n";
			return out;
		};
		std::string first;
		for(size_t i = 0; i < cfgs.size(); ++i)
		{
			std::string o = once(cfgs[i], false);
			if(i == 0) { first = o; c.evs("log", o); if(o.compare(0, 4, "died") == 0) c.fail("same.died", o); continue; }
			const Op& g = cfgs[i];
			c.count("faults.memory_contents_changed");
			if(g.n(1) != 0) c.count("faults.addresses_reversed");
			if(g.n(2) == 0) c.count("faults.memory_never_reused");
			if(g.n(5) != 0) c.count("faults.diagnostics_refused");
			c.count("faults.clock_and_randomness_changed");
			if(g.n(8, 0) != 0) c.count("faults.clock_jumps");
			if(g.n(6, 1000) >= 1e6 || g.n(7, 1) > 1) c.count("faults.clock_fast");
			if(g.n(6, 1000) < 1000 && g.n(7, 1) < 1) c.count("faults.clock_slow");
			if(o == first) continue;
			// tell where they part
			std::istringstream a(once(cfgs[0], true)), b(once(g, true));
			std::string la, lb;
			int n = 0;
			std::getline(a, la);
			std::getline(b, lb);
			while(true)
			{
				bool ga = (bool)std::getline(a, la), gb = (bool)std::getline(b, lb);
				if(!ga) la = "(end)";
				if(!gb) lb = "(end)";
				if(la != lb || !ga || !gb) break;
				++n;
			}
			c.fail("same.differs", fmt("results depend on the configuration (fill %08x%s%s%s): event %d is '%s' and '%s'", (unsigned)(uint64_t)std::max(0.0, g.n(0)), g.n(1) != 0 ? ", descending addresses" : "", g.n(2) == 0 ? ", no reuse" : "", g.n(5) != 0 ? ", diagnostics refused" : "", n, la.substr(0, 200).c_str(), lb.substr(0, 200).c_str()));
		}
		c.nontrivial = cfgs.size() >= 2 && ops.size() >= 5;
	}
	static Register r16({"C16", "whole histories (registry, refreshes, commands in every mode, queries, printing, plotting, corrupted readings) executed in three simulated processes with different contents of fresh memory and stack, order and reuse of addresses, clock, random numbers and a diagnostics stream that refuses; all results must be identical; non-trivial = at least 5 operations", 5000, 200000, gen16, exec16});

	// ---------------------------------------------------------------- C13
	static Scenario gen13(Rng& r, bool big)
	{
		Scenario s;
		int n = r.i(2, 3), crowded = r.p(0.12) ? r.i(0, n - 1) : -1; // a controller with a far larger map than the others
		for(int i = 0; i < n; ++i)
		{
			s.ops.push_back(Op("CTL", 0, {(double)i}));
			bool twin = i > 0 && r.p(0.15); // two controllers with the same names and numbers
			if(twin) { std::vector<Op> cp; for(auto& op : s.ops) { if(op.k == "CTL") { if(op.in(0) > 0) break; continue; } cp.push_back(op); } s.ops.insert(s.ops.end(), cp.begin(), cp.end()); continue; }
			std::vector<Op> h = watched_history(r, big, i == crowded);
			s.ops.insert(s.ops.end(), h.begin(), h.end());
		}
		int ns = r.i(1, big ? 80 : 40);
		double scale = std::pow(10, r.u(1, 6));
		for(int i = 0; i < ns; ++i) s.ops.push_back(Op("SWITCH", 9, {std::floor(1 + scale * r.u() * r.u()), (double)r.i(0, n - 1)}));
		return s;
	}
	static void exec13(const Scenario& sc, Ctx& c)
	{
		std::vector<std::vector<Op>> ctl;
		std::vector<Switch> plan;
		for(auto& op : sc.ops)
		{
			if(op.k == "CTL") { ctl.push_back({}); continue; }
			if(op.k == "SWITCH") { plan.push_back({(uint64_t)std::max(1.0, op.n(0)), std::abs(op.in(1)) % 8}); continue; }
			if(ctl.empty()) continue;
			ctl.back().push_back(op);
			c.simtime = std::max(c.simtime, op.t);
		}
		if(ctl.size() < 2) c.reject("one controller only");
		auto alone = [&](size_t i, bool verbose) {
			std::string out;
			int status = 0;
			bool ok = isolated([&]() {
				mem::reset(mem::Config());
				Ctx k;
				k.verbose = verbose;
				std::string err;
				try { World w(k); for(auto& op : ctl[i]) watch(w, k, op, false); }
				catch(std::exception& e) { err = e.what(); }
				std::string o = fmt("%016llx %s\n", (unsigned long long)k.hash, err.c_str());
				for(auto& l : k.lines) o += l + "\n";
				return o;
			}, out, status);
			return ok ? out : "died: " + died(status) + "\n";
		};
		ThreadReport rep;
		auto together = [&](bool verbose) {
			std::vector<std::string> logs(ctl.size());
			std::string out;
			int status = 0;
			bool ok = isolated([&]() {
				mem::reset(mem::Config());
				std::vector<Ctx> k(ctl.size());
				std::vector<std::string> err(ctl.size());
				std::vector<std::function<void()>> bodies;
				for(size_t i = 0; i < ctl.size(); ++i)
				{
					k[i].verbose = verbose;
					bodies.push_back([&, i]() {
						try { World w(k[i]); for(auto& op : ctl[i]) watch(w, k[i], op, false); }
						catch(std::exception& e) { err[i] = e.what(); }
						catch(...) { err[i] = "unknown"; }
					});
				}
				ThreadReport rp = run_threads(bodies, plan);
				std::string o = fmt("%llu %llu %llu\n", (unsigned long long)rp.switches, (unsigned long long)rp.midcall, (unsigned long long)rp.trace);
				for(size_t i = 0; i < ctl.size(); ++i)
				{
					o += fmt("%016llx %s\n", (unsigned long long)k[i].hash, err[i].c_str());
					if(verbose) { for(auto& l : k[i].lines) o += l + "\n"; o += "\x01\n"; }
				}
				return o;
			}, out, status);
			if(!ok) { for(auto& l : logs) l = "died: " + died(status) + "\n"; return logs; }
			std::istringstream is(out);
			std::string l;
			std::getline(is, l);
			unsigned long long a = 0, b = 0, t = 0;
			sscanf(l.c_str(), "%llu %llu %llu", &a, &b, &t);
			rep.switches = a; rep.midcall = b; rep.trace = t;
			for(auto& g : logs)
			{
				std::getline(is, l);
				g = l + "\n";
				if(verbose) while(std::getline(is, l) && l != "\x01") g += l + "\n";
			}
			return logs;
		};
		std::vector<std::string> t = together(false);
		c.count("faults.preemption_inside_of_a_call", rep.midcall);
		c.count("probes.controller_switches", rep.switches);
		c.ev("schedule", {(double)(rep.trace >> 11), (double)rep.switches});
		for(size_t i = 0; i < ctl.size(); ++i)
		{
			std::string a = alone(i, false);
			c.evs("log", a);
			if(a.compare(0, 4, "died") == 0) c.fail("controllers.died", a);
			if(a == t[i]) continue;
			std::string msg = t[i].substr(0, 100);
			if(t[i].compare(0, 4, "died") != 0)
			{
				std::istringstream x(alone(i, true)), y(together(true)[i]);
				std::string la, lb;
				int n = -1;
				while(true) { bool ga = (bool)std::getline(x, la), gb = (bool)std::getline(y, lb); if(!ga) la = "(end)"; if(!gb) lb = "(end)"; if((n >= 0 && la != lb) || !ga || !gb) break; ++n; }
				msg = fmt("event %d is '%s' instead of '%s'", n, lb.substr(0, 200).c_str(), la.substr(0, 200).c_str());
			}
			c.fail("controllers.differ", fmt("controller %zu behaves differently when others run in the same process: ", i) + msg);
		}
		c.nontrivial = rep.switches >= 2;
	}
	static Register r13({"C13", "two or three controllers with their own maps, agents and histories (restarts, refused operations, corrupted readings, all modes) in one process, switched inside of calls by a seeded plan; the log of each is compared with that of a process in which it runs alone; non-trivial = at least two switches", 2500, 200000, gen13, exec13});

	// ---------------------------------------------------------------- cluster surfaces (C23, C17)
	static const double STEP = 2 * M_PI / 500;
	// bounds of the surface of a cluster in direction phi: what the members' outlines allow within the resolution
	Band band(const std::vector<OM>& ms, const V& ref, double phi, const Surf& s)
	{
		Band b;
		const double step = 2 * M_PI / s.n;
		auto far_of = [&](const Radial& R) { return std::max(s.rmin, (R.hit ? R.far_ : s.rmin) + s.margin); };
		auto near_of = [&](const Radial& R) { return std::max(s.rmin, (R.hit ? R.near_ : s.rmin) - s.margin); };
		// a reference point exactly on an outline: whether that is a crossing of it is open
		auto next_of = [&](const Radial& R) { return std::max(s.rmin, (R.hit && R.next_ < 1e299 ? R.next_ : s.rmin) - s.margin); };
		auto add = [&](Band& e, double p) {
			Radial R = radial(ms, ref, p);
			double f = far_of(R), n = near_of(R), n2 = next_of(R);
			e.lo = std::min(e.lo, f); e.hi = std::max(e.hi, f);
			e.nlo = std::min({e.nlo, n, n2}); e.nhi = std::max({e.nhi, n, n2});
		};
		for(int i = -6; i <= 10; ++i) add(b, phi + 0.25 * i * step);
		double k = std::ceil((phi - s.turn + M_PI) / step);
		for(int i = -2; i <= 2; ++i) for(double j : {-1e-3 * step, -1e-14, 0.0, 1e-14, 1e-3 * step}) add(b, s.turn - M_PI + (k + i) * step + j); // a sample may just touch an outline
		// the library smooths each sample with its smoothed predecessor: farther ones count with powers of 0.05
		double lo = b.lo, hi = b.hi, nlo = b.nlo, nhi = b.nhi, wgt = 1;
		for(int i : {-3, -4, -5, -6, -7, -8, -9, 3, 4})
		{
			wgt = std::pow(0.05, std::abs(i)) * 1.2;
			Band e;
			for(double j : {-0.05 * step, -1e-14, 0.0, 1e-14, 0.05 * step}) add(e, s.turn - M_PI + (k + i) * step + j);
			lo -= wgt * std::max(0.0, b.lo - e.lo); hi += wgt * std::max(0.0, e.hi - b.hi);
			nlo -= wgt * std::max(0.0, b.nlo - e.nlo); nhi += wgt * std::max(0.0, e.nhi - b.nhi);
		}
		b.lo = lo; b.hi = hi; b.nlo = nlo; b.nhi = nhi;
		double tol = 1e-6;
		b.lo *= 1 - tol; b.nlo *= 1 - tol; b.hi *= 1 + tol; b.nhi *= 1 + tol;
		return b;
	}
	static bool on_outline(const std::vector<OM>& ms, const V& ref)
	{
		for(double phi : {0.0, 2.0, 4.0}) { Radial R = radial(ms, ref, phi); if(R.hit && R.near_ < 1e-9) return true; }
		return false;
	}
	static void judge_surface(Ctx& c, Rng& pr, const doa::Obstacle& o, const std::vector<OM>& ms, const V& ref, bool members_count, int n, const std::string& how)
	{
		for(int t = 0; t < n; ++t)
		{
			double phi = pr.p(0.15) ? (pr.p(0.5) ? M_PI : -M_PI) + pr.u(-0.03, 0.03) : pr.u(-M_PI, M_PI);
			if(phi > M_PI) phi -= 2 * M_PI;
			if(phi < -M_PI) phi += 2 * M_PI;
			Band b = band(ms, ref, phi, Surf());
			double r = pr.p(0.3) ? 0.5 * (b.lo + b.hi) * pr.u(0.9, 1.1) : pr.u(0.05, 6);
			V x = ref + r * V(cos(phi), sin(phi), 0);
			bool in;
			double d;
			V nv;
			{
				Lib lib;
				doa::State st(x);
				doa::Agent a(st);
				in = o.point_is_inside(x);
				d = o.compute_distance_to_point(x, Eigen::Array3d(0, 0, 0));
				nv = o.compute_normal_to_agent(a);
			}
			c.ev("surface", {phi, r, d, nv(0), nv(1), (double)in});
			Tri want = r < b.lo ? YES : r > b.hi ? NO : MAYBE;
			if(members_count)
			{
				Tri any = NO;
				for(auto& m : ms) { Tri z = tri_inside(m, x); if(z == YES) any = YES; else if(z == MAYBE && any == NO) any = MAYBE; }
				if(any == YES) want = YES; else if(any == MAYBE && want == NO) want = MAYBE;
			}
			std::string at = fmt("%s: direction %.6g, %.6g from the reference point", how.c_str(), phi, r);
			if(want != MAYBE && in != (want == YES)) c.fail("surface.inside", at + (want == YES ? " is inside, but reported outside" : " is outside, but reported inside"));
			double lo = in && members_count ? b.nlo / r : r / b.hi, hi = in && members_count ? b.nhi / r : r / b.lo;
			if(!(d >= lo * (1 - 1e-6) && d <= hi * (1 + 1e-6))) c.fail("surface.distance", fmt("%s: distance %.9g instead of %.9g..%.9g", at.c_str(), d, lo, hi));
			if(!(std::fabs(nv.norm() - 1) < 1e-6)) c.fail("surface.normal", fmt("%s: the normal %s has not unit length", at.c_str(), vs(nv).c_str()));
			if(!(std::fabs(nv(2)) < 1e-6)) c.fail("surface.normal", fmt("%s: the normal %s is not horizontal", at.c_str(), vs(nv).c_str()));
			// direction of the normal where the outline is smooth
			bool near_ = in && members_count, smooth = !on_outline(ms, ref);
			V prev = V::Zero(), t0 = V::Zero();
			std::vector<V> tg;
			const int FINE = 4;
			for(int i = -3 * FINE; i <= 4 * FINE; ++i)
			{
				double p = phi + i * STEP / FINE;
				Radial R = radial(ms, ref, p);
				double rr = R.hit ? (near_ ? R.near_ : R.far_) : 0;
				if(!R.hit || rr < 0.5 + 1e-3) { if(!R.hit || rr < 0.5 - 1e-3) rr = 0.5; else { smooth = false; break; } }
				V q = rr * V(cos(p), sin(p), 0);
				if(i > -3 * FINE) { V tt = (q - prev); if(tt.norm() > 4 * STEP / FINE * rr) { smooth = false; break; } tg.push_back(tt.normalized()); }
				prev = q;
			}
			double blo = near_ ? b.nlo : b.lo, bhi = near_ ? b.nhi : b.hi;
			if(!smooth || tg.size() < 7 * FINE || bhi > 1.3 * blo) continue;
			double turn = 0;
			for(auto& a : tg) for(auto& e : tg) turn = std::max(turn, std::acos(std::max(-1.0, std::min(1.0, a.dot(e)))));
			if(turn > 0.3) continue;
			double best = 1e300;
			for(auto& a : tg) best = std::min(best, std::fabs(a.dot(nv)));
			if(best > 0.1 + turn) c.fail("surface.normal", fmt("%s: the normal %s is not perpendicular to the surface (tangent %s, off by %.3g)", at.c_str(), vs(nv).c_str(), vs(tg[3 * FINE]).c_str(), best));
			c.count("probes.normal_judged");
			(void)t0;
		}
	}
	static Scenario gen23(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = env_opt(r, big);
		H.nenv = 1;
		H.g.nobs = r.i(2, big ? 9 : 6);
		H.g.area = r.pick(std::vector<double>{1.0, 2.0, 3.5});
		H.g.margin = r.pick(std::vector<double>{0, 0.3, 0.6});
		if(r.p(0.2)) { H.g.size_lo = 0.1; H.g.size_hi = 2.5; }
		H.g.moving = true;
		H.p_mode = 0.02;
		H.seconds = r.u(0.4, big ? 3 : 1.2);
		// clusters of any extent: long chains, far from the origin
		bool chain = r.p(0.08);
		if(chain) { H.g.nobs = r.i(6, big ? 24 : 14); H.crowd = false; H.seconds = r.u(0.2, 0.6); H.g.size_lo = 0.6; H.g.size_hi = 2; }
		s.ops = gen_history(r, H);
		if(chain)
		{
			double len = std::pow(10, r.u(0.5, 2.5)), dir = r.u(-M_PI, M_PI), bend = r.u(-0.3, 0.3);
			V at = r.p(0.4) ? V(0, 0, 0) : V(std::pow(10, r.u(1, 7)) * V(r.u(-1, 1), r.u(-1, 1), 0));
			std::map<int, V> where;
			std::map<int, double> scale;
			for(auto& op : s.ops)
			{
				int h = op.in(0);
				if(op.k == "OBS")
				{
					double f = len / H.g.nobs / 1.5; // neighbours overlap, often
					if(!where.count(h)) { where[h] = at; at += f * r.u(0.5, 1.5) * V(cos(dir), sin(dir), 0); dir += bend; }
					for(int j = 0; j < 2; ++j) { op.a[2 + j] = where[h](j); op.a[24 + j] = where[h](j); op.a[15 + j] = std::max(op.a[15 + j] * f, 0.05); }
				}
				else if((op.k == "SP" || op.k == "SR" || op.k == "SPOSE") && where.count(h)) for(int j = 0; j < 2; ++j) op.a[1 + j] = where[h](j) + 0.1 * (op.a[1 + j] - where[h](j)) * (std::fabs(op.a[1 + j]) < 10 ? 0.3 : 0);
			}
		}
		s.par["probe_seed"] = r.i(1, 1 << 30);
		return s;
	}
	std::shared_ptr<doa::Ellipsoid> clone(const doa::Ellipsoid& src)
	{
		auto o = std::make_shared<doa::Ellipsoid>(src.get_name(), src.get_state(), src.get_reference_position(), src.get_safety_margin());
		o->set_axis_lengths(src.get_axis_lengths());
		o->set_curvature_factor(src.get_curvature_factor());
		return o;
	}
	static void exec23(const Scenario& sc, Ctx& c)
	{
		World w(c);
		Rng pr((uint64_t)sc.get("probe_seed", 1));
		int n = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			if(op.k == "CMD") continue;
			if(!map_op(w, c, op)) { w.apply(op); continue; }
			int k = op.in(0);
			if(op.k != "UPD" || !w.has_env(k)) continue;
			for(auto& it : w.env[k]->pub)
			{
				if(!it.agg()) continue;
				std::vector<OM> ms;
				bool flat = true;
				for(int h : it.mem) if(w.om.count(h)) { ms.push_back(w.om[h]); flat = flat && w.om[h].yaw_only() && std::fabs(w.om[h].p(2) - ms[0].p(2)) < 1e-9; }
				if(!flat || ms.size() != it.mem.size()) continue;
				++n;
				V ref = V::Zero();
				for(auto& m : ms) ref += m.p;
				ref /= (double)ms.size();
				judge_surface(c, pr, *it.ptr, ms, ref, true, 6, "refreshed");
				if(!pr.p(0.3)) continue;
				// the same cluster built by hand, from copies of the members in random order
				std::vector<int> order = it.mem;
				for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[pr.next() % i]);
				int way = pr.i(0, 4);
				std::shared_ptr<doa::Obstacle> built;
				std::deque<std::shared_ptr<doa::Obstacle>> parts;
				{
					Lib lib;
					for(int h : order) parts.push_back(clone(*w.obs[h]));
					if(way == 0) built = std::make_shared<doa::Aggregate>(parts);
					else if(way <= 2) { auto a = std::make_shared<doa::Aggregate>(); for(size_t i = 0; i < parts.size(); ++i) a->add_primitive(parts[i], way == 1 || i + 1 == parts.size()); built = a; }
					else if(way == 3) built = std::make_shared<doa::StarShapeHull>(parts, false);
					else { auto h = std::make_shared<doa::StarShapeHull>(false); h->compute_from_primitives(parts, ref); built = h; }
				}
				judge_surface(c, pr, *built, ms, ref, way <= 2, 4, way == 0 ? "constructed" : way <= 2 ? "assembled" : "hull");
				c.count("probes.built_by_hand");
				{ Lib lib; built.reset(); parts.clear(); std::deque<std::shared_ptr<doa::Obstacle>>().swap(parts); }
			}
		}
		c.nontrivial = n >= 1;
	}
	static Register r23({"C23", "clusters reached by moving-obstacle histories over a lossy channel; after each refresh, and for copies of the same cluster built through other calls in random order, distance, containment and normal in random directions are compared with the members' outlines; non-trivial = at least one cluster", 8000, 200000, gen23, exec23});

	// ---------------------------------------------------------------- C17
	static Scenario gen17(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = cmd_opt(r, big);
		s.ops = gen_history(r, H);
		bool spatial = r.p(0.4);
		lift(r, s.ops, r.pick(std::vector<double>{0, 0.5}));
		if(spatial) tilt(r, s.ops);
		std::vector<Op> out;
		for(auto& op : s.ops)
		{
			if(op.k == "CMD") continue;
			out.push_back(op);
			// FRAME: the map server changes its frame; yaw or rotation vector, translation, command options
			if(op.k == "UPD" && r.p(0.7))
			{
				double far_ = r.pick(std::vector<double>{0.5, 10, 100});
				V t = gen_vec(r, far_, false);
				V rv = r.p(0.2) ? V(0, 0, r.i(-2, 2) * M_PI / 2) : gen_vec(r, M_PI, false);
				out.push_back(Op("FRAME", op.t, {0, t(0), t(1), t(2), rv(0), rv(1), rv(2), (double)r.i(0, 1), (double)r.i(0, 1), r.p(0.2) ? 1.0 : 0.0, r.p(0.7) ? 1.0 : r.u(0.8, 2), r.p(0.6) ? 2.0 : r.p(0.5) ? (double)r.i(1, 4) : r.u(0.5, 4)}));
			}
		}
		s.ops = out;
		return s;
	}
	static void framed_twin(World& w, int k, World& f, const Q& R, const V& t)
	{
		{ Lib lib; f.env[0].reset(new Env()); f.env[0]->e.reset(new doa::Environment(w.env[k]->aggr)); }
		f.env[0]->aggr = w.env[k]->aggr;
		for(auto& kv : w.env[k]->reg)
		{
			int h = kv.second;
			auto& src = *w.obs[h];
			OM m = w.om[h];
			m.p = R * V(src.get_position()) + t;
			m.q = (R * Q(src.get_orientation())).normalized();
			m.lin = R * m.lin;
			m.ang = R * m.ang;
			m.ref = R * V(src.get_reference_position()) + t;
			{
				Lib lib;
				auto o = std::make_shared<doa::Ellipsoid>(src.get_name(), doa::State(m.p, m.q, m.lin, m.ang), m.ref, src.get_safety_margin());
				o->set_axis_lengths(src.get_axis_lengths());
				o->set_curvature_factor(src.get_curvature_factor());
				f.obs[h] = o;
				f.env[0]->e->add_obstacle(o);
			}
			f.om[h] = m;
		}
		f.env[0]->reg = w.env[k]->reg;
		for(auto& a : w.am)
		{
			AM m = a.second;
			m.p = R * m.p + t;
			m.q = R * m.q;
			m.u = R * m.u;
			m.w = R * m.w;
			f.am[a.first] = m;
			Lib lib;
			doa::State st(m.p, m.q, m.u, m.w);
			f.ag[a.first].reset(new doa::Agent(st, m.m));
		}
		f.refresh(0);
	}
	static void exec17(const Scenario& sc, Ctx& c)
	{
		World w(c);
		int judged = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(map_op(w, c, op)) continue;
			if(op.k != "FRAME") { w.apply(op); continue; }
			if(!w.has_env(k) || w.ag.empty() || w.env[k]->pub.empty()) continue;
			// only what the last refresh knows
			std::vector<Item> fresh = w.refresh(k);
			bool cluster = false, flat = all_yaw(w);
			for(auto& it : fresh) cluster |= it.agg();
			V t = v3(op, 1), rv = v3(op, 4);
			Q R(1, 0, 0, 0);
			if(!cluster)
			{
				if(w.env[k]->aggr && !flat) continue;
				if(w.env[k]->aggr || flat) rv(0) = rv(1) = 0;
				double a = rv.norm();
				if(a > 1e-12) R = Q(Eigen::AngleAxisd(a, V(rv / a)));
			}
			if(w.env[k]->aggr && flat)
			{
				// groups must not hang on a hair
				bool hair = false;
				for(auto& a : w.env[k]->reg) for(auto& b : w.env[k]->reg) if(a.second < b.second && tri_overlap(e2_of(w.om[a.second]), e2_of(w.om[b.second])) == MAYBE) hair = true;
				if(hair) { c.count("probes.undecided"); continue; }
			}
			bool local = op.n(7) != 0 && flat, rep = op.n(8) != 0, planar = op.n(9) != 0 && flat;
			double crit = op.n(10, 1), power = op.n(11, 2);
			World a(c), b(c);
			framed_twin(w, k, a, Q(1, 0, 0, 0), V(0, 0, 0));
			framed_twin(w, k, b, R, t);
			c.count("faults.relocalisation");
			std::string ga = show(a.env[0]->pub, a), gb = show(b.env[0]->pub, b);
			if(ga != gb) c.fail("frame.groups", "the same map in another frame is published as " + gb + " instead of " + ga);
			for(auto& g : w.ag)
			{
				int i = g.first;
				if(local && (vertical(a.am[i]) || a.local_active(i, 0) == MAYBE)) { c.count("probes.undecided"); continue; }
				Law L = a.expect(i, 0, rep, planar, crit, power);
				bool sure = L.sure;
				// surfaces of clusters are steps; no claim next to one
				for(size_t n = 0; n < a.env[0]->pub.size() && sure; ++n)
				{
					auto &x = a.env[0]->pub[n], &y = b.env[0]->pub[n];
					if(!x.agg()) continue;
					View va = view_of_aggregate(*x.ptr, a.A(i), a.am[i]), vb = view_of_aggregate(*y.ptr, b.A(i), b.am[i]);
					if(close(va.n, vb.n, 1e-6) && std::fabs(va.gamma - vb.gamma) < 1e-6 * (1 + std::fabs(va.gamma))) continue;
					std::vector<OM> ms;
					for(int h : x.mem) ms.push_back(a.om[h]);
					double phi = std::atan2(va.r(1), va.r(0));
					Band bd = band(ms, V(a.am[i].p - va.r), phi, Surf());
					if(bd.hi > 1.05 * bd.lo || bd.nhi > 1.05 * bd.nlo) { sure = false; continue; }
					// next to a step of the sampling both sides are right
					bool step = phi < -M_PI + STEP + 1e-4; // the first sample may be reported at -pi or pi
					double arm = std::hypot(va.r(0), va.r(1));
					if(arm < 1e-6) step = true;
					for(double e : {1e-7, -1e-7}) { AM pm = a.am[i]; pm.p += V(-va.r(1), va.r(0), 0) * e; doa::Agent pa(a.A(i)); pa.set_position(pm.p); View v2 = view_of_aggregate(*x.ptr, pa, pm); step |= !close(v2.n, va.n, 1e-6) || std::fabs(v2.gamma - va.gamma) > 1e-5 * (1 + std::fabs(va.gamma)); }
					if(step) { sure = false; continue; }
					c.fail("frame.surface", fmt("cluster '%s': distance %.9g and normal %s in one frame, %.9g and %s in another", x.name.c_str(), va.gamma, vs(va.n).c_str(), vb.gamma, vs(V(R.conjugate() * vb.n)).c_str()));
				}
				if(!sure) { c.count("probes.undecided"); continue; }
				V va = a.command(i, 0, local, rep, planar, crit, power), vb = b.command(i, 0, local, rep, planar, crit, power);
				V back = R.conjugate() * vb;
				c.ev("cmd", {va(0), va(1), va(2)});
				++judged;
				double tol = 1e-7 * (1 + t.norm()) * (L.scale + va.norm());
				if(!close(va, back, tol)) c.fail("frame.command", fmt("agent %d is commanded %s, in a frame rotated by %s and moved by %s the command is %s in the old frame", i, vs(va).c_str(), vs(rv).c_str(), vs(t).c_str(), vs(back).c_str()));
			}
		}
		c.count("probes.judged", judged);
		c.nontrivial = judged >= 1;
	}
	static Register r17({"C17", "missions as in C20 (spatial and planar); at random instants the whole world is expressed in another frame (translation up to 100, rotation about the vertical or in space as the property allows) and commands in all modes are compared; non-trivial = at least one command compared", 6000, 400000, gen17, exec17});
	// ---------------------------------------------------------------- C28
	static bool same_num(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
	template<class A, class B> static bool same_nums(const A& a, const B& b) { for(int i = 0; i < 3; ++i) if(!same_num(a(i), b(i))) return false; return true; }
	static bool same_turn(const Q& a, const Q& want)
	{
		if(!(std::fabs(want.norm() - 1) < 1e-9)) return true; // not an orientation
		return std::min((a.coeffs() - want.coeffs()).norm(), (a.coeffs() + want.coeffs()).norm()) <= 1e-14;
	}
	static std::string shown_error(const doa::Ellipsoid& o, const OM& m, bool ref)
	{
		if(o.get_name() != m.name) return "name '" + o.get_name() + "' instead of '" + m.name + "'";
		if(o.get_type() != "Ellipsoid") return "type " + o.get_type();
		if(!same_nums(o.get_position(), m.p)) return "position " + vs(o.get_position()) + " instead of " + vs(m.p);
		if(!same_turn(o.get_orientation(), m.q)) return fmt("orientation (%.17g %.17g %.17g %.17g) instead of (%.17g %.17g %.17g %.17g)", o.get_orientation().w(), o.get_orientation().x(), o.get_orientation().y(), o.get_orientation().z(), m.q.w(), m.q.x(), m.q.y(), m.q.z());
		if(!same_nums(o.get_linear_velocity(), m.lin)) return "linear velocity " + vs(o.get_linear_velocity()) + " instead of " + vs(m.lin);
		if(!same_nums(o.get_angular_velocity(), m.ang)) return "angular velocity " + vs(o.get_angular_velocity()) + " instead of " + vs(m.ang);
		if(!same_nums(o.get_safety_margin(), m.mg)) return "margin " + vs(V(o.get_safety_margin())) + " instead of " + vs(V(m.mg));
		if(!same_nums(o.get_axis_lengths(), m.ax)) return "sizes " + vs(V(o.get_axis_lengths())) + " instead of " + vs(V(m.ax));
		if(!same_nums(o.get_curvature_factor(), m.cv)) return "curvature " + vs(V(o.get_curvature_factor())) + " instead of " + vs(V(m.cv));
		for(unsigned int i = 0; i < 3; ++i) if(!same_num(o.get_axis_lengths(i), m.ax(i)) || !same_num(o.get_curvature_factor(i), m.cv(i))) return "a single size or curvature";
		if(ref && m.ref.allFinite() && !same_nums(o.get_reference_position(), m.ref)) return "reference point " + vs(o.get_reference_position()) + " instead of " + vs(m.ref);
		const doa::State& s = o.get_state();
		const doa::Pose& ps = o.get_pose();
		if(!same_nums(s.get_position(), m.p) || !same_nums(ps.get_position(), m.p) || !same_turn(s.get_orientation(), m.q) || !same_turn(ps.get_orientation(), m.q) || !same_nums(s.get_linear_velocity(), m.lin) || !same_nums(s.get_angular_velocity(), m.ang)) return "a state that differs from its parts";
		return "";
	}
	static std::string shown_error(const doa::Agent& a, AM& m, bool moved)
	{
		// the composition of poses is judged elsewhere
		if(moved && close(a.get_position(), m.p, 1e-9 * (1 + m.p.norm())) && (std::min((a.get_orientation().coeffs() - m.q.coeffs()).norm(), (a.get_orientation().coeffs() + m.q.coeffs()).norm()) < 1e-9)) { m.p = a.get_position(); m.q = a.get_orientation(); }
		if(!same_nums(a.get_position(), m.p)) return "position " + vs(a.get_position()) + " instead of " + vs(m.p);
		if(!same_turn(a.get_orientation(), m.q)) return "another orientation";
		if(!same_nums(a.get_linear_velocity(), m.u)) return "velocity " + vs(a.get_linear_velocity()) + " instead of " + vs(m.u);
		if(!same_nums(a.get_angular_velocity(), m.w)) return "angular velocity " + vs(a.get_angular_velocity()) + " instead of " + vs(m.w);
		if(!same_num(a.get_safety_margin(), m.m)) return fmt("margin %.17g instead of %.17g", a.get_safety_margin(), m.m);
		const doa::State s = a.get_state();
		const doa::Pose ps = a.get_pose();
		if(!same_nums(s.get_position(), m.p) || !same_nums(ps.get_position(), m.p) || !same_turn(s.get_orientation(), m.q) || !same_turn(ps.get_orientation(), m.q) || !same_nums(s.get_linear_velocity(), m.u) || !same_nums(s.get_angular_velocity(), m.w)) return "a state that differs from its parts";
		return "";
	}
	static Scenario gen28(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = env_opt(r, big);
		H.nag = r.i(1, 2);
		H.g.nobs = r.i(1, big ? 8 : 5);
		H.g.curv = r.p(0.5);
		H.g.refs = r.p(0.5);
		H.seconds = r.u(0.3, big ? 3 : 1.2);
		H.p_ref = 0.1;
		H.cmds = r.p(0.5);
		H.lookups = true;
		H.huge = false;
		std::vector<Op> h = gen_history(r, H);
		std::vector<int> known;
		std::vector<std::string> names = {"a", "b", "new", "", "an_obstacle_with_a_name_that_does_not_fit_into_small_buffers", "  spaces\tand\nlines ", "UPPER", std::string(300, 'x')};
		int next = 200;
		bool bad = r.p(0.15);
		// readings of all magnitudes, differences of all magnitudes
		auto value = [&]() { double x = r.p(0.3) ? std::pow(10, r.u(-300, 300)) : r.p(0.5) ? std::pow(10, r.u(-12, 6)) : r.u(-5, 5); return r.p(0.5) ? x : -x; };
		for(auto& op : h)
		{
			if(op.k == "CMD") op.a[4] = 0;
			if(op.k == "OBS") { known.push_back(op.in(0)); names.push_back(op.str(0)); }
			if(bad && r.p(0.05) && (op.k == "SP" || op.k == "SL" || op.k == "SW" || op.k == "SX" || op.k == "SR" || op.k == "AP" || op.k == "AV")) op.a[1] = r.pick(std::vector<double>{NAN, INFINITY, -INFINITY, 1e300, -1e-310, value()});
			s.ops.push_back(op);
			bool report = op.k == "SP" || op.k == "SQ" || op.k == "SPOSE" || op.k == "SL" || op.k == "SW" || op.k == "SR" || op.k == "SX" || op.k == "AP" || op.k == "AV" || op.k == "AM";
			if(report && r.p(0.15))
			{
				// nearly the same again
				Op g = op;
				double eps = std::pow(10, r.u(-15, -1));
				for(size_t i = 1; i < g.a.size(); ++i) if(r.p(0.4)) g.a[i] = r.p(0.9) ? g.a[i] * (1 + eps) + (r.p(0.3) ? eps : 0) : g.a[i];
				if(g.k == "SP" && g.a.size() > 4) g.a[4] = op.a[4];
				s.ops.push_back(g);
				if(r.p(0.3)) s.ops.push_back(op);
			}
			if(known.empty() || !r.p(0.15)) continue;
			int i = r.pick(known), ag = r.i(0, H.nag - 1);
			std::vector<double> a = {(double)i}, b = {(double)ag};
			Q q = gen_q(r, false);
			q.coeffs() *= r.p(0.5) ? 1 : std::pow(10, r.u(-3, 3));
			if(r.p(0.15)) { if(r.p(0.3)) s.ops.push_back(Op("OOM", op.t, {(double)r.i(1, 2)})); s.ops.push_back(Op(r.p(0.5) ? "ACP" : "AAS", op.t, {(double)ag, (double)r.i(0, 3)})); continue; }
			switch(r.i(0, 15))
			{
			case 0: if(r.p(0.5)) put(a, V(r.i(1, 3), r.i(1, 3), r.i(1, 3))); else put(a, V(std::fabs(value()), r.u(0.5, 4), std::fabs(value()))); s.ops.push_back(Op(r.p(0.5) ? "SC" : "SX", op.t, a)); break;
			case 1: put(a, q); s.ops.push_back(Op("SQ", op.t, a)); break;
			case 2: s.ops.push_back(Op("RN", op.t, a, {r.pick(names)})); break;
			case 3: s.ops.push_back(Op("OCP", op.t, {(double)i, (double)next})); known.push_back(next++); break;
			case 4: s.ops.push_back(Op("OAS", op.t, {(double)i, (double)r.pick(known)})); break;
			case 5: put(b, q); s.ops.push_back(Op("AQ", op.t, b)); break;
			case 6: put(b, gen_vec(r, 1, false)); s.ops.push_back(Op("AW", op.t, b)); break;
			case 7: put(b, gen_vec(r, 5, false)); put(b, q); s.ops.push_back(Op("APOSE", op.t, b)); break;
			case 8: put(b, gen_vec(r, 1, false)); put(b, q); s.ops.push_back(Op("ATR", op.t, b)); break;
			case 9: b.push_back(r.p(0.5) ? 0.0 : r.u(0, 0.5)); s.ops.push_back(Op("AM", op.t, b)); break;
			case 10: put(a, V(value(), value(), value())); s.ops.push_back(Op(r.p(0.5) ? "SL" : "SW", op.t, a)); break;
			case 11: put(b, V(value(), value(), value())); s.ops.push_back(Op(r.p(0.5) ? "AV" : "AW", op.t, b)); break;
			case 12: put(a, gen_vec(r, 5, false)); put(a, q); s.ops.push_back(Op("SPOSE", op.t, a)); break;
			case 13: s.ops.push_back(Op("OOM", op.t, {(double)r.i(1, 2)})); s.ops.push_back(r.p(0.5) ? Op("RN", op.t, a, {"another_name_that_does_not_fit_into_small_buffers"}) : Op("OCP", op.t, {(double)i, (double)next++})); break;
			case 14: s.ops.push_back(Op("PRINT", op.t, {0})); break;
			default: { V x = gen_vec(r, 4, true); s.ops.push_back(Op(r.p(0.7) ? "LOOK" : "PLOT", op.t, {0, (double)ag, x(0), x(1), x(2)})); }
			}
		}
		return s;
	}
	static void exec28(const Scenario& sc, Ctx& c)
	{
		World w(c);
		w.raw = true;
		std::set<int> clustered; // their reference points are not only the owner's
		std::map<int, std::set<int>> last; // the members of the clusters each map published last
		int changes = 0;
		long oom = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int i = op.in(0), j = op.in(1);
			if(op.k == "OOM") { oom = std::max(1, i); continue; }
			long fail_at = oom;
			oom = 0;
			bool report = op.k[0] == 'S' || op.k == "OBS" || op.k == "AG" || op.k == "AP" || op.k == "AQ" || op.k == "AV" || op.k == "AW" || op.k == "AM" || op.k == "APOSE" || op.k == "ATR";
			if(op.k == "ADD" && w.has_env(i) && w.has_obs(j))
			{
				bool two = false; // the same object under two names is not meant
				for(auto& kv : w.env[i]->reg) two = two || (kv.second == j && kv.first != w.om[j].name);
				if(two) continue;
			}
			if(op.k == "RN" || op.k == "OCP" || op.k == "OAS")
			{
				if(!w.has_obs(i)) continue;
				uint64_t f0 = mem::failures();
				bool threw = false;
				std::shared_ptr<doa::Ellipsoid> n;
				if(op.k == "OAS")
				{
					if(!w.has_obs(j)) continue;
					if(w.handle(w.obs[j].get()) != j) continue;
					{ Lib lib; *w.obs[j] = *w.obs[i]; }
					if(i != j && clustered.count(i)) clustered.insert(j);
					if(i != j && !clustered.count(i)) clustered.insert(j); // may be a member itself
					w.om[j] = w.om[i];
				}
				else
				{
					{
						Lib lib;
						mem::fail_after(fail_at);
						try { if(op.k == "RN") w.obs[i]->set_name(op.str(0)); else n = std::make_shared<doa::Ellipsoid>(*w.obs[i]); } catch(std::bad_alloc&) { threw = true; }
						mem::fail_after(0);
					}
					if(mem::failures() > f0) { c.count("faults.allocation_refused_in_" + op.k); if(!threw) c.fail("shown.oom", op.k + " without enough memory was not reported"); }
					else if(threw) c.fail("shown.oom", op.k + " failed although there was memory");
					if(!threw)
					{
						if(op.k == "RN") w.om[i].name = op.str(0);
						else { { Lib lib; w.obs[j] = n; n.reset(); } w.om[j] = w.om[i]; clustered.erase(j); if(clustered.count(i)) clustered.insert(j); }
					}
				}
				c.count("ops." + op.k);
				++changes;
			}
			else if(op.k == "ACP" || op.k == "AAS")
			{
				if(!w.has_ag(i) || (op.k == "AAS" && !w.has_ag(j))) continue;
				uint64_t f0 = mem::failures();
				bool threw = false;
				std::unique_ptr<doa::Agent> n;
				{
					Lib lib;
					if(op.k == "ACP")
					{
						mem::fail_after(fail_at);
						try { n.reset(new doa::Agent(*w.ag[i])); } catch(std::bad_alloc&) { threw = true; }
						mem::fail_after(0);
					}
					else *w.ag[j] = *w.ag[i];
				}
				if(mem::failures() > f0) { c.count("faults.allocation_refused_in_ACP"); if(!threw) c.fail("shown.oom", "a copy without enough memory was not reported"); }
				else if(threw) c.fail("shown.oom", "a copy failed although there was memory");
				if(!threw) { w.am[j] = w.am[i]; if(n) w.ag[j] = std::move(n); }
				c.count("ops." + op.k);
				++changes;
			}
			else watch(w, c, op, true);
			if(report) ++changes;
			if(op.k == "OBS" || op.k == "SR") clustered.erase(i);
			if(op.k == "UPD" && w.has_env(i))
			{
				clustered.insert(last[i].begin(), last[i].end()); // taken back
				last[i].clear();
				for(auto& it : w.env[i]->pub)
				{
					if(!it.agg()) continue;
					for(int h : it.mem) { clustered.insert(h); last[i].insert(h); }
					if(it.ptr->get_linear_velocity().norm() != 0 || it.ptr->get_angular_velocity().norm() != 0) c.fail("shown.cluster", "a cluster reports a velocity");
				}
			}
			// a corrupted reference point may be given up for the position at a refresh
			for(auto& o : w.obs) if(!w.om[o.first].ref.allFinite()) w.om[o.first].ref = o.second->get_reference_position();
			std::string e;
			for(auto& o : w.obs) if(!(e = shown_error(*o.second, w.om[o.first], !clustered.count(o.first))).empty()) c.fail("shown.obstacle", fmt("after %s obstacle %d ('%s') shows %s", op.k.c_str(), o.first, w.om[o.first].name.c_str(), e.c_str()));
			for(auto& a : w.ag) if(!(e = shown_error(*a.second, w.am[a.first], op.k == "ATR" && a.first == i)).empty()) c.fail("shown.agent", fmt("after %s agent %d shows %s", op.k.c_str(), a.first, e.c_str()));
		}
		c.nontrivial = changes >= 4;
	}
	static Register r28({"C28", "reports about obstacles and agents of all magnitudes, also nearly equal, repeated, interleaved, lost and corrupted ones, renames, copies, assignments and refused allocations between refreshes, commands, queries, prints and plots of several environments; after each operation all that every obstacle and agent shows is compared with what was last reported; non-trivial = at least four reports", 9000, 400000, gen28, exec28});
}
