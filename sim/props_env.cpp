// Properties of the environment: registry, published list, clusters, atomicity under memory exhaustion.
#include "world.hpp"
#include <algorithm>
#include <numeric>

namespace sim
{
	std::string join(const std::vector<std::string>& v) { std::string r; for(auto& s : v) r += (r.empty() ? "" : ",") + s; return r; }
	std::string show(const std::vector<Item>& p, World& w)
	{
		std::string s = "[";
		for(auto& it : p)
		{
			s += " " + it.name;
			if(it.agg()) { s += "{"; for(int h : it.mem) s += fmt("#%d ", h); s += "}"; }
			else s += fmt("#%d", it.h);
		}
		(void)w;
		return s + " ]";
	}
	bool same_pub(const std::vector<Item>& a, const std::vector<Item>& b)
	{
		if(a.size() != b.size()) return false;
		for(size_t i = 0; i < a.size(); ++i) if(a[i].ptr != b[i].ptr || a[i].mem != b[i].mem || a[i].name != b[i].name) return false;
		return true;
	}
	HistOpt env_opt(Rng& r, bool big)
	{
		HistOpt H;
		H.nenv = r.p(0.25) ? 2 : 1;
		H.nag = 1;
		H.g.nobs = r.i(1, big ? 10 : 7);
		H.seconds = r.u(0.5, big ? 6 : 3);
		H.g.area = r.pick(std::vector<double>{1.0, 2.0, 4.0, 8.0});
		H.g.moving = r.p(0.7);
		H.drop = r.pick(std::vector<double>{0, 0.1, 0.3});
		H.dup = r.pick(std::vector<double>{0, 0.15, 0.4});
		H.delay = r.pick(std::vector<double>{0.01, 0.3, 1.0});
		H.crash = r.pick(std::vector<double>{0, 0.03, 0.1});
		H.p_mode = r.pick(std::vector<double>{0, 0.05, 0.2});
		H.huge = true;
		H.far = 0.05;
		return H;
	}
	static void count_faults(Ctx& c, const Op& op, bool refused)
	{
		if(refused && op.k == "ADD") c.count("faults.duplicate_add_refused");
		if(refused && op.k == "RM") c.count("faults.remove_of_absent_refused");
	}
	static void log_pub(Ctx& c, World& w, int k)
	{
		c.evs("pub", show(w.env[k]->pub, w));
	}

	// ---------------------------------------------------------------- C01
	static void check_registry(World& w, Ctx& c, int k, const std::string& when)
	{
		Env& e = *w.env[k];
		std::set<std::string> names;
		for(auto& kv : e.reg) names.insert(kv.first);
		for(auto& o : w.om) names.insert(o.second.name);
		for(const char* s : {"nobody", "", "aggregate_"}) names.insert(s);
		// the names of published clusters
		std::map<std::string, doa::Obstacle*> aggs;
		for(auto& it : w.observe(k)) if(it.agg()) { aggs[it.name] = it.ptr.get(); names.insert(it.name); }
		for(auto& it : e.pub) if(it.agg()) names.insert(it.name);
		// what a lookup returned stays what it is while others look up other names
		std::vector<std::pair<std::string, std::pair<std::shared_ptr<doa::Obstacle>*, doa::Obstacle*> > > held;
		for(auto& n : names)
		{
			doa::Obstacle* got = nullptr;
			bool thrown = false;
			std::string what;
			{
				Lib lib;
				try { auto& ref = (*e.e)[n]; got = ref.get(); held.push_back({n, {&ref, got}}); }
				catch(doa::Exceptions::ObstacleNotInEnvironmentException& x) { thrown = true; what = x.what(); }
			}
			auto it = e.reg.find(n);
			if(it != e.reg.end())
			{
				if(thrown) c.fail("registry.lost", fmt("%s: '%s' was added and not removed, but is not found", when.c_str(), n.c_str()));
				if(got != w.obs[it->second].get()) c.fail("registry.wrong-object", fmt("%s: '%s' resolves to another object", when.c_str(), n.c_str()));
			}
			else if(e.aggr && aggs.count(n))
			{
				if(thrown) c.fail("registry.cluster-lost", fmt("%s: published cluster '%s' is not found", when.c_str(), n.c_str()));
				bool one = false;
				for(auto& x : w.observe(k)) if(x.agg() && x.name == n && x.ptr.get() == got) one = true;
				if(!one) c.fail("registry.wrong-object", fmt("%s: '%s' does not resolve to the published cluster", when.c_str(), n.c_str()));
				c.count("probes.cluster_lookup");
			}
			else
			{
				if(!thrown) c.fail("registry.phantom", fmt("%s: '%s' is not in the environment, but is found", when.c_str(), n.c_str()));
				if(!n.empty() && what.find(n) == std::string::npos) c.fail("registry.message", fmt("the refusal does not name '%s'", n.c_str()));
			}
		}
		for(auto& x : held) if(x.second.first->get() != x.second.second) c.fail("registry.reference", fmt("%s: what the lookup of '%s' returned became another object while other names were looked up", when.c_str(), x.first.c_str()));
	}
	// executes registry operations on environment k and its model; returns true if it was one
	bool registry_op(World& w, Ctx& c, const Op& op, bool judge)
	{
		int k = op.in(0);
		if(op.k == "ADD")
		{
			int h = op.in(1);
			if(!w.has_env(k) || !w.has_obs(h)) return true;
			Env& e = *w.env[k];
			std::string n = w.om[h].name;
			bool dup = e.reg.count(n), thrown = false;
			std::string what;
			{ Lib lib; try { e.e->add_obstacle(w.obs[h]); } catch(doa::Exceptions::ObstacleAlreadyExistsException& x) { thrown = true; what = x.what(); } }
			if(judge && thrown != dup) c.fail(dup ? "registry.duplicate-accepted" : "registry.refused", fmt("adding '%s' (%s) %s", n.c_str(), dup ? "name taken" : "name free", thrown ? "was refused" : "was accepted"));
			if(judge && thrown && what.find(n) == std::string::npos) c.fail("registry.message", "the refusal does not name the obstacle");
			if(!thrown) e.reg[n] = h;
			count_faults(c, op, thrown);
			c.ev("add", {(double)k, (double)h, (double)thrown});
			return true;
		}
		if(op.k == "RM")
		{
			if(!w.has_env(k)) return true;
			Env& e = *w.env[k];
			std::string n = op.str(0);
			bool there = e.reg.count(n), thrown = false;
			std::string what;
			{ Lib lib; try { e.e->remove_obstacle(n); } catch(doa::Exceptions::ObstacleNotInEnvironmentException& x) { thrown = true; what = x.what(); } }
			if(judge && thrown == there) c.fail(there ? "registry.remove-refused" : "registry.remove-of-absent", fmt("removing '%s' (%s) %s", n.c_str(), there ? "present" : "absent", thrown ? "was refused" : "was accepted"));
			if(judge && thrown && what.find(n) == std::string::npos) c.fail("registry.message", "the refusal does not name the obstacle");
			if(!thrown) e.reg.erase(n);
			count_faults(c, op, thrown);
			c.ev("rm", {(double)k, (double)thrown});
			return true;
		}
		return false;
	}

	static Scenario gen_registry(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = env_opt(r, big);
		H.lookups = true;
		H.p_agent = 0;
		s.ops = gen_history(r, H);
		return s;
	}
	// owners that rename obstacles after they were registered
	static void renames(Rng& r, Scenario& s)
	{
		if(!r.p(0.25)) return;
		std::vector<Op> out;
		std::vector<std::pair<int, std::string>> known;
		for(auto& op : s.ops)
		{
			out.push_back(op);
			if(op.k == "OBS") known.push_back({op.in(0), op.str(0)});
			else if(!known.empty() && (op.k == "ADD" || op.k == "UPD" || op.k == "RM") && r.p(0.08))
			{
				auto a = r.pick(known), b = r.pick(known);
				std::string n = r.p(0.4) ? b.second : r.p(0.5) ? a.second + "_" + b.second : r.pick(std::vector<std::string>{"new", "", "aggregate_a_b", "aggregate", "b2"});
				out.push_back(Op("RN", op.t, {(double)a.first}, {n}));
			}
		}
		s.ops = out;
	}
	static Scenario gen01(Rng& r, bool big) { Scenario s = gen_registry(r, big); renames(r, s); return s; }
	static void exec01(const Scenario& sc, Ctx& c)
	{
		World w(c);
		int changes = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(op.k == "RN")
			{
				if(!w.has_obs(k)) continue;
				{ Lib lib; w.obs[k]->set_name(op.str(0)); }
				w.om[k].name = op.str(0);
				c.count("probes.renamed");
				for(auto& e : w.env) check_registry(w, c, e.first, "after an obstacle was renamed");
				continue;
			}
			if(op.k == "ADD" && w.has_env(k) && w.has_obs(op.in(1)))
			{
				// the same object under two names is not meant
				bool two = false;
				for(auto& kv : w.env[k]->reg) two = two || (kv.second == op.in(1) && kv.first != w.om[op.in(1)].name);
				if(two) continue;
			}
			if(registry_op(w, c, op, true)) { if(w.has_env(k)) { ++changes; check_registry(w, c, k, "after " + op.k); } continue; }
			if(op.k == "UPD") { if(w.has_env(k)) { w.refresh(k); log_pub(c, w, k); check_registry(w, c, k, "after a refresh"); ++changes; } continue; }
			if(op.k == "GET" || op.k == "GETAGG" || op.k == "PUB" || op.k == "CMD")
			{
				if(w.has_env(k)) check_registry(w, c, k, "at a lookup");
				continue;
			}
			w.apply(op);
			if(op.k == "AGG" || op.k == "ENV") check_registry(w, c, k, "after a mode change");
		}
		c.nontrivial = changes >= 4;
	}
	static Register r01({"C01", "registry histories (adds, removes, refused duplicates, lookups, mode switches, refreshes, controller restarts) delivered by a channel that drops, duplicates, delays and reorders; non-trivial = at least 4 registry operations or refreshes", 4500, 300000, gen01, exec01});

	// ---------------------------------------------------------------- C02
	static Scenario gen02(Rng& r, bool big) { return gen_registry(r, big); }
	static void check_pub(World& w, Ctx& c, int k, bool* cut = nullptr)
	{
		Env& e = *w.env[k];
		std::map<int, int> seen;
		std::string last;
		bool any = false;
		for(auto& it : e.pub)
		{
			if(it.agg())
			{
				if(!e.aggr) c.fail("publish.cluster-when-off", "a cluster is published although aggregation is off");
				if(it.mem.size() < 2) c.fail("publish.small-cluster", "a cluster with less than two members is published");
				std::vector<std::string> ns;
				for(int h : it.mem) { if(h < 0) c.fail("publish.stranger", "a cluster has a member nobody registered"); ns.push_back(w.om[h].name); }
				std::sort(ns.begin(), ns.end());
				std::string want = "aggregate";
				for(auto& n : ns) want += "_" + n;
				if(it.name != want && cut && want.compare(0, it.name.size(), it.name) == 0) *cut = true;
				else if(it.name != want) c.fail("publish.cluster-name", "cluster '" + it.name + "' should be called '" + want + "'");
				for(int h : it.mem) seen[h]++;
				c.count("probes.cluster_published");
			}
			else
			{
				if(it.h < 0) c.fail("publish.stranger", "an obstacle nobody registered is published: " + it.name);
				if(it.name != w.om[it.h].name) c.fail("publish.name", "a published obstacle changed its name");
				seen[it.h]++;
				if(any && !(last < it.name)) c.fail("publish.order", fmt("'%s' is published after '%s'", it.name.c_str(), last.c_str()));
				last = it.name;
				any = true;
			}
		}
		for(auto& kv : e.reg)
		{
			int n = seen.count(kv.second) ? seen[kv.second] : 0;
			if(n == 0) c.fail("publish.missing", "registered obstacle '" + kv.first + "' is not published: " + show(e.pub, w));
			if(n > 1) c.fail("publish.twice", "registered obstacle '" + kv.first + "' is published more than once: " + show(e.pub, w));
			seen.erase(kv.second);
		}
		if(!seen.empty()) c.fail("publish.stale", "an obstacle that is not registered is still published: " + show(e.pub, w));
	}
	static void exec02(const Scenario& sc, Ctx& c)
	{
		World w(c);
		int refreshes = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(op.k == "UPD")
			{
				if(!w.has_env(k)) continue;
				std::deque<OP> kept;
				{ Lib lib; kept = w.E(k).get_obstacle_list(); }
				std::vector<Item> before = w.env[k]->pub;
				w.refresh(k);
				log_pub(c, w, k);
				check_pub(w, c, k);
				// a list taken earlier is not affected
				if(kept.size() != before.size()) c.fail("publish.kept-list", "a list taken before the refresh changed");
				for(size_t i = 0; i < kept.size(); ++i) if(kept[i] != before[i].ptr || kept[i]->get_name() != before[i].name) c.fail("publish.kept-list", "a list taken before the refresh changed");
				{ Lib lib; kept.clear(); before.clear(); }
				++refreshes;
				continue;
			}
			if(!registry_op(w, c, op, false)) { if(op.k != "GET" && op.k != "GETAGG" && op.k != "PUB" && op.k != "CMD") w.apply(op); else if(op.k == "GET" && w.has_env(k)) { Lib lib; try { w.E(k)[op.str(0)]; } catch(std::runtime_error&) {} } }
			for(auto& kv : w.env)
			{
				std::vector<Item> now = w.observe(kv.first);
				if(!same_pub(now, kv.second->pub)) c.fail("publish.changed-without-refresh", "after " + op.k + " the published list is " + show(now, w) + " instead of " + show(kv.second->pub, w));
			}
		}
		c.nontrivial = refreshes >= 2;
	}
	static Register r02({"C02", "the same histories as C01; the published list is compared with its last refresh after every operation and with the registry after every refresh; non-trivial = at least 2 refreshes", 5000, 300000, gen02, exec02});

	// ---------------------------------------------------------------- C03
	static Scenario gen03(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = env_opt(r, big);
		H.nenv = 1;
		H.crash = 0;
		H.p_mode = 0.02;
		H.p_agent = 0;
		H.same_names = false;
		H.g.nobs = r.i(2, big ? 12 : 9);
		H.g.area = r.pick(std::vector<double>{1.5, 3.0, 5.0});
		H.g.zvar = r.p(0.2);
		if(r.p(0.3)) { H.g.size_lo = 0.03; H.g.size_hi = 2.5; } // thin walls
		s.ops = gen_history(r, H);
		if(r.p(0.12))
		{
			// something slender reaches a little into something large, or ends just before it
			s.ops.clear();
			s.ops.push_back(Op("ENV", 0, {0, 1}));
			double off = r.p(0.2) ? std::pow(10, r.u(1, 5)) : 0;
			V p = gen_vec(r, 2, true) + V(off, -off, 0);
			GenOpt g;
			g.margin = 0;
			int n = r.i(1, 4), first = r.i(0, n);
			std::vector<Op> ob;
			A3 big(r.u(2, 15), r.u(2, 15), 1);
			double yaw = r.u(-M_PI, M_PI);
			for(int i = 0; i <= n; ++i)
			{
				Op o = gen_obs_at(r, g, i, std::string(1, 'a' + (i == 0 ? first : i - (i <= first))), 0.01 * i, p);
				A3 ax = big;
				V c = p;
				double y = yaw;
				if(i > 0)
				{
					// on the normal of the outline, often at one of its vertices
					double u = r.p(0.5) ? r.i(0, 3) * M_PI / 2 + r.u(-0.1, 0.1) : r.u(-M_PI, M_PI), l = r.u(0.3, 2), sag = std::pow(10, r.u(-4, -0.5)) * (r.p(0.75) ? 1 : -1);
					V q(big(0) * cos(u), big(1) * sin(u), 0), nv(cos(u) / big(0), sin(u) / big(1), 0);
					nv.normalize();
					ax = A3(l, std::pow(10, r.u(-2.3, -1)), 1);
					c = p + yawq(yaw) * V(q + (l - sag) * nv);
					y = yaw + std::atan2(nv(1), nv(0));
					if(r.p(0.5)) y += M_PI;
				}
				Q o4 = yawq(y);
				for(int j = 0; j < 3; ++j) { o.a[2 + j] = c(j); o.a[15 + j] = ax(j); o.a[24 + j] = c(j); }
				o.a[5] = o4.w(); o.a[6] = 0; o.a[7] = 0; o.a[8] = o4.z();
				ob.push_back(o);
			}
			for(size_t i = ob.size(); i > 1; --i) std::swap(ob[i - 1], ob[(size_t)r.i(0, (int)i - 1)]);
			for(auto& o : ob) { s.ops.push_back(o); s.ops.push_back(Op("ADD", 0.05, {0, o.a[0]})); }
			s.ops.push_back(Op("UPD", 1, {0}));
			return s;
		}
		if(r.p(0.3))
		{
			// a chain that must become one cluster whatever its order of registration
			int n = r.i(3, 8);
			std::vector<int> perm(n);
			std::iota(perm.begin(), perm.end(), 0);
			for(int i = n - 1; i > 0; --i) std::swap(perm[i], perm[r.i(0, i)]);
			s.ops.clear();
			s.ops.push_back(Op("ENV", 0, {0, 1}));
			double dir = r.u(-M_PI, M_PI), step = r.u(0.9, 1.15);
			for(int i = 0; i < n; ++i)
			{
				GenOpt g;
				g.size_lo = g.size_hi = 0.5;
				g.margin = 0.05;
				s.ops.push_back(gen_obs_at(r, g, i, std::string(1, 'a' + perm[i]), 0.01 * i, V(cos(dir) * step * i, sin(dir) * step * i, 0)));
				s.ops.push_back(Op("ADD", 0.01 * i + 0.005, {0, (double)i}));
			}
			s.ops.push_back(Op("UPD", 1, {0}));
			if(r.p(0.5)) { int b = r.i(0, n - 1); s.ops.push_back(Op("RM", 1.1, {0}, {std::string(1, 'a' + perm[b])})); s.ops.push_back(Op("UPD", 1.2, {0})); }
		}
		return s;
	}
	static void check_groups(World& w, Ctx& c, int k, uint64_t& edges)
	{
		Env& e = *w.env[k];
		if(!e.aggr) return;
		std::vector<int> hs;
		for(auto& kv : e.reg) hs.push_back(kv.second);
		std::map<int, int> where, times;
		for(size_t i = 0; i < e.pub.size(); ++i)
		{
			if(e.pub[i].agg()) for(int h : e.pub[i].mem) { where[h] = (int)i; ++times[h]; }
			else { where[e.pub[i].h] = (int)i; ++times[e.pub[i].h]; }
		}
		for(int h : hs)
		{
			if(!where.count(h)) c.fail("cluster.lost", fmt("'%s' is neither on its own nor in a cluster: %s", w.om[h].name.c_str(), show(e.pub, w).c_str()));
			if(times[h] > 1) c.fail("cluster.duplicated", fmt("'%s' is published %d times: %s", w.om[h].name.c_str(), times[h], show(e.pub, w).c_str()));
		}
		for(int h : hs) if(!w.om[h].finite() || !w.om[h].yaw_only()) return;
		// connected components of the certain and of the possible overlaps
		std::map<int, int> sure, poss;
		std::function<int(std::map<int, int>&, int)> root = [&](std::map<int, int>& m, int x) { while(m[x] != x) x = m[x] = m[m[x]]; return x; };
		for(int h : hs) sure[h] = poss[h] = h;
		for(size_t i = 0; i < hs.size(); ++i)
			for(size_t j = i + 1; j < hs.size(); ++j)
			{
				Tri t = tri_overlap(e2_of(w.om[hs[i]]), e2_of(w.om[hs[j]]));
				if(t == YES) { sure[root(sure, hs[i])] = root(sure, hs[j]); ++edges; }
				if(t != NO) poss[root(poss, hs[i])] = root(poss, hs[j]);
				if(t == MAYBE) c.count("probes.borderline_contact");
			}
		for(size_t i = 0; i < hs.size(); ++i)
			for(size_t j = i + 1; j < hs.size(); ++j)
			{
				bool together = where[hs[i]] == where[hs[j]];
				if(root(sure, hs[i]) == root(sure, hs[j]) && !together) c.fail("cluster.split", fmt("'%s' and '%s' are connected by overlapping outlines but are not in one cluster: %s", w.om[hs[i]].name.c_str(), w.om[hs[j]].name.c_str(), show(e.pub, w).c_str()));
				if(root(poss, hs[i]) != root(poss, hs[j]) && together) c.fail("cluster.merged", fmt("'%s' and '%s' are not connected by overlapping outlines but are in one cluster: %s", w.om[hs[i]].name.c_str(), w.om[hs[j]].name.c_str(), show(e.pub, w).c_str()));
			}
	}
	static void exec03(const Scenario& sc, Ctx& c)
	{
		World w(c);
		uint64_t edges = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(registry_op(w, c, op, false)) continue;
			if(op.k == "UPD") { if(w.has_env(k)) { w.refresh(k); log_pub(c, w, k); check_groups(w, c, k, edges); } continue; }
			w.apply(op);
		}
		c.count("probes.overlaps", edges);
		c.nontrivial = edges >= 1;
	}
	static Register r03({"C03", "obstacle maps (random clusters, thin walls, chains registered in shuffled order) that change through a lossy channel; after every refresh the clusters are compared with the connected components of the overlap relation computed by an independent geometry oracle; non-trivial = some obstacles overlap", 6000, 400000, gen03, exec03});

	// ---------------------------------------------------------------- C04 / C05 / C06 helpers
	// A freshly started process that was told the current map only.
	void twin_of(World& w, int k, World& f)
	{
		{ Lib lib; f.env[0].reset(new Env()); f.env[0]->e.reset(new doa::Environment(w.env[k]->aggr)); }
		f.env[0]->aggr = w.env[k]->aggr;
		for(auto& kv : w.env[k]->reg)
		{
			int h = kv.second;
			auto& src = *w.obs[h];
			Lib lib;
			auto o = std::make_shared<doa::Ellipsoid>(src.get_name(), src.get_state(), src.get_reference_position(), src.get_safety_margin());
			o->set_axis_lengths(src.get_axis_lengths());
			o->set_curvature_factor(src.get_curvature_factor());
			f.obs[h] = o;
			f.om[h] = w.om[h];
			f.env[0]->e->add_obstacle(o);
		}
		f.env[0]->reg = w.env[k]->reg;
	}
	std::vector<double> geometry(World& w, int k, const std::vector<V>& probes, double am)
	{
		// all that a user can ask of the published list, in the order of the names
		std::vector<std::pair<std::pair<std::string, std::vector<int>>, doa::Obstacle*>> l;
		for(auto& it : w.env[k]->pub) l.push_back({{it.name, it.mem}, it.ptr.get()});
		std::sort(l.begin(), l.end());
		std::vector<double> r;
		Lib lib;
		for(auto& o : l)
		{
			for(int j = 0; j < 3; ++j) { r.push_back(o.second->get_position()(j)); r.push_back(o.second->get_reference_position()(j)); }
			r.push_back(o.second->is_closed());
			for(auto& p : probes)
			{
				doa::State st(p);
				doa::Agent a(st, am);
				r.push_back(o.second->compute_distance_to_agent(a));
				V n = o.second->compute_normal_to_agent(a);
				for(int j = 0; j < 3; ++j) r.push_back(n(j));
				r.push_back(o.second->point_is_inside(p));
			}
		}
		return r;
	}
	std::vector<double> commands(World& w, int k, const std::vector<V>& probes, const std::vector<V>& us, double am)
	{
		std::vector<double> r;
		Lib lib;
		for(size_t i = 0; i < probes.size(); ++i)
		{
			doa::State st(probes[i]);
			doa::Agent a(st, am);
			a.set_linear_velocity(us[i]);
			for(int m = 0; m < 3; ++m)
			{
				V v = doa::Modulation::modulate_velocity(a, *w.env[k]->e, m == 1, m == 2);
				for(int j = 0; j < 3; ++j) r.push_back(v(j));
			}
		}
		return r;
	}
	double worst(const std::vector<double>& a, const std::vector<double>& b)
	{
		if(a.size() != b.size()) return 1e300;
		double m = 0;
		for(size_t i = 0; i < a.size(); ++i)
		{
			if(std::isnan(a[i]) && std::isnan(b[i])) continue;
			if(a[i] == b[i]) continue;
			double d = std::fabs(a[i] - b[i]) / (1 + std::fabs(a[i]) + std::fabs(b[i]));
			if(std::isnan(d)) d = 1e300;
			m = std::max(m, d);
		}
		return m;
	}
	// the same question put to a process that never saw the history: nothing that the library remembers, in an
	// environment or anywhere else, can leak into the answer
	struct Pack
	{
		std::string s;
		size_t at = 0;
		void d(double x) { s.append((const char*)&x, 8); }
		void ds(const std::vector<double>& v) { d((double)v.size()); for(double x : v) d(x); }
		template<class T> void v3(const T& v) { for(int i = 0; i < 3; ++i) d(v(i)); }
		void str(const std::string& t) { d((double)t.size()); s += t; }
		double gd() { double x = 0; memcpy(&x, s.data() + at, 8); at += 8; return x; }
		std::vector<double> gds() { std::vector<double> v((size_t)gd()); for(auto& x : v) x = gd(); return v; }
		V gv() { double x = gd(), y = gd(), z = gd(); return V(x, y, z); }
		std::string gstr() { size_t n = (size_t)gd(); std::string t = s.substr(at, n); at += n; return t; }
	};
	// constructors normalise orientations once more; where a state is plain memory its bits are kept
	template<class T> typename std::enable_if<std::is_trivially_destructible<T>::value, std::string>::type state_bits(const T& s) { return std::string((const char*)&s, sizeof s); }
	template<class T> typename std::enable_if<!std::is_trivially_destructible<T>::value, std::string>::type state_bits(const T&) { return ""; }
	template<class T> void set_state_bits(T& s, const std::string& b) { if(b.size() == sizeof s) memcpy((void*)&s, b.data(), sizeof s); }
	std::string fresh_request(World& w, int k, const std::vector<V>& ps, const std::vector<V>& us, int nudge = 0)
	{
		Pack p;
		p.d(w.env[k]->aggr);
		p.d((double)w.env[k]->reg.size());
		for(auto& kv : w.env[k]->reg)
		{
			auto& o = *w.obs[kv.second];
			p.d(kv.second);
			p.str(o.get_name());
			Q q = o.get_orientation();
			double e = nudge * 1e-12;
			if(nudge) q = yawq(e * (1 + kv.second % 3)) * q;
			p.v3(V(V(o.get_position()) + e * V(1 + kv.second % 2, kv.second % 3 - 1, 0)));
			for(double x : {q.w(), q.x(), q.y(), q.z()}) p.d(x);
			p.v3(V(o.get_linear_velocity()));
			p.v3(V(o.get_angular_velocity()));
			p.str(nudge ? "" : state_bits(o.get_state()));
			p.v3(V(o.get_reference_position()));
			p.v3(A3(o.get_safety_margin()));
			p.v3(A3(o.get_axis_lengths()));
			p.v3(A3(o.get_curvature_factor()));
		}
		p.d((double)ps.size());
		for(size_t i = 0; i < ps.size(); ++i) { p.v3(ps[i]); p.v3(us[i]); }
		return p.s;
	}
	std::string sorted_show(std::vector<Item> p, World& w)
	{
		std::sort(p.begin(), p.end(), [](const Item& a, const Item& b) { return a.name != b.name ? a.name < b.name : a.mem < b.mem; });
		std::string r = show(p, w);
		Lib lib;
		p.clear();
		return r;
	}
	std::string fresh_answer(const std::string& rq)
	{
		Pack p;
		p.s = rq;
		Ctx c;
		World f(c);
		bool aggr = p.gd() != 0;
		{ Lib lib; f.env[0].reset(new Env()); f.env[0]->e.reset(new doa::Environment(aggr)); }
		f.env[0]->aggr = aggr;
		size_t n = (size_t)p.gd();
		for(size_t i = 0; i < n; ++i)
		{
			int h = (int)p.gd();
			std::string name = p.gstr();
			V pos = p.gv();
			double qw = p.gd(), qx = p.gd(), qy = p.gd(), qz = p.gd();
			V lin = p.gv(), ang = p.gv();
			std::string bits = p.gstr();
			V ref = p.gv(), mg = p.gv(), ax = p.gv(), cv = p.gv();
			Lib lib;
			doa::State st(pos, Q(qw, qx, qy, qz), lin, ang);
			set_state_bits(st, bits);
			auto o = std::make_shared<doa::Ellipsoid>(name, st, ref, A3(mg.array()));
			o->set_axis_lengths(A3(ax.array()));
			o->set_curvature_factor(A3(cv.array()));
			f.obs[h] = o;
			f.env[0]->e->add_obstacle(o);
			f.om[h].name = name;
			f.env[0]->reg[name] = h;
		}
		std::vector<V> ps((size_t)p.gd()), us(ps.size());
		for(size_t i = 0; i < ps.size(); ++i) { ps[i] = p.gv(); us[i] = p.gv(); }
		f.refresh(0);
		Pack a;
		a.str(sorted_show(f.env[0]->pub, f));
		a.ds(geometry(f, 0, ps, 0.1));
		a.ds(commands(f, 0, ps, us, 0.1));
		return a.s;
	}
	void compare_fresh(Ctx& c, World& w, int k, Fresh& fresh, const std::vector<V>& ps, const std::vector<V>& us, const std::string& cls)
	{
		std::string out;
		int status = 0;
		if(!fresh.ask(fresh_request(w, k, ps, us), out, status)) c.fail(cls + ".died", "a fresh process with the same obstacles: " + died(status));
		Pack b;
		b.s = out;
		std::string mine = sorted_show(w.env[k]->pub, w), theirs = b.gstr();
		std::vector<double> g0 = geometry(w, k, ps, 0.1), g1 = b.gds(), c0 = commands(w, k, ps, us, 0.1), c1 = b.gds();
		double dg = worst(g0, g1), dc = worst(c0, c1);
		c.ev("geo", {dg, dc});
		if(mine == theirs && dg <= 1e-9 && dc <= 1e-9) return;
		// next to a step (an outline that just touches, an edge of a facet) rounding decides: no claim there
		for(int n : {-2, -1, 1, 2})
		{
			Pack x;
			if(!fresh.ask(fresh_request(w, k, ps, us, n), x.s, status)) c.fail(cls + ".died", "a fresh process with the same obstacles: " + died(status));
			if(x.gstr() != theirs) { c.count("probes.next_to_a_step"); return; }
			std::vector<double> g = x.gds(), cm = x.gds();
			for(size_t i = 0; i < g.size() && i < g1.size() && i < g0.size(); ++i) if(worst(std::vector<double>{g[i]}, std::vector<double>{g1[i]}) > 1e-9) { g0[i] = g1[i] = 0; c.count("probes.next_to_a_step"); }
			for(size_t i = 0; i < cm.size() && i < c1.size() && i < c0.size(); ++i) if(worst(std::vector<double>{cm[i]}, std::vector<double>{c1[i]}) > 1e-9) { c0[i] = c1[i] = 0; c.count("probes.next_to_a_step"); }
		}
		if(mine != theirs) c.fail(cls + ".groups", "after a refresh the environment publishes " + mine + ", a fresh process with the same obstacles " + theirs);
		dg = worst(g0, g1);
		dc = worst(c0, c1);
		if(dg > 1e-9) c.fail(cls + ".geometry", fmt("distances, normals, containment or reference points differ (by %g) from a fresh process with the same obstacles: %s", dg, mine.c_str()));
		if(dc > 1e-9) c.fail(cls + ".command", fmt("commands differ (by %g) from a fresh process with the same obstacles: %s", dc, mine.c_str()));
	}
	void probes_of(Rng& r, World& w, int n, std::vector<V>& ps, std::vector<V>& us)
	{
		for(int i = 0; i < n; ++i)
		{
			V p = gen_vec(r, 5, true);
			if(!w.om.empty() && r.p(0.7)) { auto it = w.om.begin(); std::advance(it, r.i(0, (int)w.om.size() - 1)); p = it->second.p + gen_vec(r, 2, true); }
			ps.push_back(p);
			us.push_back(gen_vec(r, 1, true));
		}
	}

	// ---------------------------------------------------------------- C04
	static Scenario gen04(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = env_opt(r, big);
		H.g.refs = true;
		H.p_agent = 0;
		H.seconds = r.u(0.5, big ? 4 : 2);
		s.ops = gen_history(r, H);
		s.par["probe_seed"] = r.i(1, 1 << 30);
		s.par["check_every"] = r.i(1, 3);
		return s;
	}
	static void check_refs(World& w, Ctx& c, int k, const std::string& when);
	static void exec04(const Scenario& sc, Ctx& c)
	{
		Fresh fresh(fresh_answer);
		World w(c);
		Rng pr((uint64_t)sc.get("probe_seed", 1));
		int n = 0, every = std::max(1, sc.geti("check_every", 1)), compared = 0, clusters = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(registry_op(w, c, op, false)) continue;
			if(op.k != "UPD") { w.apply(op); continue; }
			if(!w.has_env(k)) continue;
			w.refresh(k);
			log_pub(c, w, k);
			if(n++ % every) continue;
			std::vector<V> ps, us;
			probes_of(pr, w, 4, ps, us);
			++compared;
			for(auto& it : w.env[k]->pub) clusters += it.agg();
			// the twin is given the reference points there are: those must not remember clusters of the past either
			if(w.env.size() == 1) check_refs(w, c, k, "after a refresh");
			compare_fresh(c, w, k, fresh, ps, us, "history");
			// refreshing again changes nothing
			std::vector<double> g1 = geometry(w, k, ps, 0.1);
			w.refresh(k);
			double d = worst(g1, geometry(w, k, ps, 0.1));
			if(d > 1e-9) c.fail("history.refresh-twice", fmt("a second refresh of the same map changes the geometry by %g: %s", d, show(w.env[k]->pub, w).c_str()));
		}
		c.count("probes.twin_compared", compared);
		c.count("probes.clusters", clusters);
		c.nontrivial = compared >= 1 && w.om.size() >= 2;
	}
	static Register r04({"C04", "histories as in C01 with moving and re-shaped obstacles; after refreshes the live environment is compared with a freshly started twin that only knows the current map (groups, reference points, distances, normals, containment, commands at random probes); non-trivial = at least one comparison with 2 or more obstacles", 2500, 150000, gen04, exec04});

	// ---------------------------------------------------------------- C05
	static Scenario gen05(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = env_opt(r, big);
		H.nenv = 1;
		H.g.refs = true;
		H.p_agent = 0;
		H.g.nobs = r.i(2, big ? 8 : 6);
		H.g.area = r.pick(std::vector<double>{1.0, 2.0, 3.0});
		H.g.moving = true;
		H.p_ref = r.pick(std::vector<double>{0, 0.1});
		H.g.zvar = r.p(0.3);
		s.ops = gen_history(r, H);
		std::vector<Op> extra;
		for(auto& op : s.ops) if(op.k == "UPD" && r.p(0.15)) { std::vector<double> a = {0, (double)r.i(0, 3)}; put(a, gen_vec(r, 2, true)); extra.push_back(Op("REFAGG", op.t + 1e-6, a)); }
		s.ops.insert(s.ops.end(), extra.begin(), extra.end());
		sort_ops(s.ops);
		return s;
	}
	static void check_refs(World& w, Ctx& c, int k, const std::string& when)
	{
		if(!w.has_env(k)) k = w.env.empty() ? -1 : w.env.begin()->first;
		if(k < 0) return;
		if(when == "after a refresh") for(auto& it : w.env[k]->pub)
		{
			if(!it.agg()) continue;
			V r = it.ptr->get_reference_position();
			for(int h : it.mem) if(!close(w.obs[h]->get_reference_position(), r, 1e-9 * (1 + r.norm()))) c.fail("reference.not-shared", fmt("%s: '%s' is in cluster '%s' with reference %s but has reference %s", when.c_str(), w.om[h].name.c_str(), it.name.c_str(), vs(r).c_str(), vs(w.obs[h]->get_reference_position()).c_str()));
		}
		for(auto& o : w.om)
		{
			V got = w.obs[o.first]->get_reference_position();
			if(!close(got, o.second.ref, 1e-9 * (1 + got.norm()))) c.fail("reference.wrong", fmt("%s: '%s' has reference %s, expected %s (centre %s)", when.c_str(), o.second.name.c_str(), vs(got).c_str(), vs(o.second.ref).c_str(), vs(o.second.p).c_str()));
		}
	}
	static void exec05(const Scenario& sc, Ctx& c)
	{
		World w(c);
		int joins = 0, leaves = 0;
		std::set<int> was;
		std::map<int, bool> mixed;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(registry_op(w, c, op, false)) { check_refs(w, c, k, "after " + op.k); continue; }
			if(op.k == "REFAGG")
			{
				if(!w.has_env(k)) continue;
				std::vector<const Item*> ags;
				for(auto& it : w.env[k]->pub) if(it.agg()) ags.push_back(&it);
				if(ags.empty()) continue;
				const Item& it = *ags[op.in(1) % ags.size()];
				V ref = v3(op, 2);
				{ Lib lib; it.ptr->set_reference_position(ref); }
				for(int h : it.mem) w.om[h].ref = ref;
				c.count("ops.move_cluster_reference");
				if(!close(it.ptr->get_reference_position(), ref, 0)) c.fail("reference.cluster", "the reference point given to a cluster is not the one it has");
				for(int h : it.mem) if(!close(w.obs[h]->get_reference_position(), ref, 0)) c.fail("reference.not-shared", "the reference point given to a cluster did not reach its members");
				continue;
			}
			if(op.k == "UPD")
			{
				if(!w.has_env(k)) continue;
				w.refresh(k);
				log_pub(c, w, k);
				std::set<int> now;
				for(auto& it : w.env[k]->pub)
				{
					for(int h : it.mem) now.insert(h);
					if(!it.agg()) continue;
					V mean = V::Zero();
					for(int h : it.mem) mean += w.om[h].p;
					mean /= (double)it.mem.size();
					V r = it.ptr->get_reference_position();
					if(!close(r, mean, 1e-9 * (1 + mean.norm()))) c.fail("reference.cluster", fmt("cluster '%s' has reference %s, the mean of its members is %s", it.name.c_str(), vs(r).c_str(), vs(mean).c_str()));
				}
				for(int h : now) joins += !was.count(h);
				for(int h : was) leaves += !now.count(h);
				was = now;
				check_refs(w, c, k, "after a refresh");
				for(auto& o : w.om) c.ev("ref", {o.second.ref(0), o.second.ref(1), o.second.ref(2)});
				continue;
			}
			if(op.k == "ENV" && w.has_env(k)) was.clear();
			w.apply(op);
			if(op.k[0] == 'S') check_refs(w, c, k, "after " + op.k);
		}
		c.count("probes.joined", joins);
		c.count("probes.released", leaves);
		c.nontrivial = joins >= 2;
	}
	static Register r05({"C05", "moving obstacles that join and leave clusters over lossy histories, cluster reference points moved by the user, removals and mode switches while clustered; reference points are compared with a model after every operation; non-trivial = obstacles joined a cluster", 4500, 250000, gen05, exec05});

	// ---------------------------------------------------------------- C06
	static Scenario gen06(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = env_opt(r, big);
		if(r.p(0.03)) H.p_huge = 1;
		H.nenv = 1;
		H.g.refs = true;
		H.p_agent = 0.4;
		H.cmds = true;
		H.lookups = true;
		H.g.nobs = r.i(2, big ? 7 : 5);
		H.seconds = r.u(0.4, 1.2);
		H.crash = 0;
		std::vector<Op> base = gen_history(r, H);
		// memory runs out inside of some of the calls
		for(auto& op : base)
		{
			bool target = op.k == "UPD" || op.k == "CMD" || op.k == "ADD" || op.k == "RM" || op.k == "GET" || op.k == "ACP";
			if(target && r.p(op.k == "UPD" ? 0.6 : 0.25))
			{
				double n = op.k == "UPD" ? (r.p(0.6) ? r.i(1, 60) : r.i(1, 4000)) : (r.p(0.5) ? r.i(1, 4) : r.i(1, 40));
				// the n-th allocation, or some of all those that the call makes
				if(op.k == "UPD" && r.p(0.5)) s.ops.push_back(Op("OOM", op.t - 1e-9, {0, (double)r.i(1, 1 << 20), (double)r.i(2, 6)}));
				else s.ops.push_back(Op("OOM", op.t - 1e-9, {n}));
			}
			s.ops.push_back(op);
		}
		s.par["probe_seed"] = r.i(1, 1 << 30);
		return s;
	}
	struct Snap { std::vector<Item> pub; std::vector<double> geo; std::vector<std::string> names; };
	static Snap snap_of(World& w, int k, const std::vector<V>& ps)
	{
		Snap s;
		s.pub = w.observe(k);
		std::vector<Item> keep = w.env[k]->pub;
		// geometry of the published list, without the reference points (see the property) of single obstacles
		std::vector<std::pair<std::string, doa::Obstacle*>> l;
		for(auto& it : s.pub) l.push_back({it.name, it.ptr.get()});
		{
			Lib lib;
			for(auto& o : l)
				for(auto& p : ps)
				{
					doa::State st(p);
					doa::Agent a(st, 0.1);
					s.geo.push_back(o.second->compute_distance_to_agent(a));
					V n = o.second->compute_normal_to_agent(a);
					for(int j = 0; j < 3; ++j) { s.geo.push_back(n(j)); s.geo.push_back(o.second->get_position()(j)); }
					s.geo.push_back(o.second->point_is_inside(p));
				}
		}
		std::set<std::string> names;
		for(auto& o : w.om) names.insert(o.second.name);
		for(auto& n : names)
		{
			Lib lib;
			doa::Obstacle* g = nullptr;
			try { g = w.E(k)[n].get(); } catch(std::runtime_error&) {}
			s.names.push_back(n + fmt("=%d", g ? w.handle(g) : -1));
		}
		return s;
	}
	static void exec06(const Scenario& sc, Ctx& c)
	{
		Fresh fresh(fresh_answer);
		World w(c);
		Rng pr((uint64_t)sc.get("probe_seed", 1));
		std::deque<long> armed;
		int failures = 0;
		Op oom;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(op.k == "OOM")
			{
				armed.clear();
				oom = op;
				if(op.in(0) > 0) armed.push_back((long)op.n(0));
				continue;
			}
			if(oom.in(2) > 0 && op.k == "UPD" && w.has_env(k))
			{
				// how many allocations does the refresh make?
				World f(c);
				twin_of(w, k, f);
				uint64_t a0 = mem::total_allocs();
				{ Lib lib; f.E(0).update(); }
				long total = (long)(mem::total_allocs() - a0);
				Rng ar((uint64_t)oom.n(1));
				for(int i = 0; i < oom.in(2); ++i) armed.push_back(ar.p(0.6) ? std::max(1L, total - (long)ar.i(0, 12)) : 1 + (long)(ar.u(0, 1) * (double)total));
			}
			oom = Op();
			bool envop = op.k == "UPD" || op.k == "ADD" || op.k == "RM" || op.k == "GET";
			bool cmd = op.k == "CMD";
			if(!envop && !cmd) { if(op.k != "GETAGG" && op.k != "PUB") w.apply(op); armed.clear(); continue; }
			int ek = cmd ? op.in(1) : k;
			if(!w.has_env(ek) || (cmd && !w.has_ag(k)) || (op.k == "ADD" && !w.has_obs(op.in(1)))) { armed.clear(); continue; }
			bool done = false;
			bool suspect = false;
			while(!armed.empty() && !done)
			{
				std::vector<V> ps, us;
				probes_of(pr, w, 2, ps, us);
				Snap before = snap_of(w, ek, ps);
				V p0 = V::Zero(), u0 = V::Zero();
				if(cmd) { p0 = w.A(k).get_position(); u0 = w.A(k).get_linear_velocity(); }
				uint64_t live0 = mem::live_blocks(), f0 = mem::failures();
				bool bad = false, other = false;
				doa::Obstacle* got = nullptr;
				V said = V::Zero();
				{
					Lib lib;
					mem::fail_after(armed.front());
					try
					{
						if(op.k == "UPD") w.E(k).update();
						else if(op.k == "ADD") w.E(k).add_obstacle(w.obs[op.in(1)]);
						else if(op.k == "RM") w.E(k).remove_obstacle(op.str(0));
						else if(op.k == "GET") got = w.E(k)[op.str(0)].get();
						else said = doa::Modulation::modulate_velocity(w.A(k), w.E(ek), op.in(2), op.in(3), false, op.n(5, 1), op.n(6, 2));
					}
					catch(std::bad_alloc&) { bad = true; }
					catch(std::runtime_error& e) { other = true; }
					mem::fail_after(0);
				}
				bool fired = mem::failures() > f0;
				auto point = armed.front();
				armed.pop_front();
				c.ev("oom", {(double)fired, (double)bad, (double)other});
				if(fired)
				{
					c.count("faults.allocation_refused_in_" + op.k);
					++failures;
					if(!bad && !other) c.count("probes.allocation_failure_survived");
				}
				if(fired && (bad || other))
				{
					uint64_t live1 = mem::live_blocks();
					Snap after = snap_of(w, ek, ps);
					if(!same_pub(before.pub, after.pub)) c.fail("atomicity.list", op.k + " ran out of memory and left another published list: " + show(after.pub, w) + " instead of " + show(before.pub, w));
					if(worst(before.geo, after.geo) > 0) c.fail("atomicity.geometry", op.k + " ran out of memory and changed the geometry of the published list: " + show(after.pub, w));
					if(before.names != after.names) c.fail("atomicity.registry", op.k + " ran out of memory and changed the registry: " + join(after.names) + " instead of " + join(before.names));
					// what is kept once, for later calls, is not lost: the same failure must lose memory again
					if(live1 > live0 && !suspect) { suspect = true; armed.push_front(point); continue; }
					if(live1 > live0) c.fail("atomicity.leak", fmt("%s ran out of memory and lost %llu blocks", op.k.c_str(), (unsigned long long)(live1 - live0)));
					if(cmd && ((w.A(k).get_position() - p0).norm() > 0 || (w.A(k).get_linear_velocity() - u0).norm() > 0)) c.fail("atomicity.agent", "a command that ran out of memory changed the agent");
					suspect = false;
					// the reference points of the obstacles may have been moved by the failed refresh; the next refresh settles them
				}
				if(!bad)
				{
					// completed (or refused): follow it
					if(op.k == "UPD") { std::vector<Item> now = w.observe(k); { Lib lib; w.env[k]->pub = now; } for(auto& o : w.om) o.second.ref = w.obs[o.first]->get_reference_position(); }
					if(op.k == "ADD" && !other) w.env[k]->reg[w.om[op.in(1)].name] = op.in(1);
					if(op.k == "RM" && !other) w.env[k]->reg.erase(op.str(0));
					done = true;
					if(fired && !other)
					{
						// the call got along without: then its result must be the one it has with enough memory
						if(op.k == "UPD")
						{
							// formatted output loses its end instead of reporting; names are settled by the next refresh
							bool cut = false;
							check_pub(w, c, k, &cut);
							if(cut)
							{
								c.count("probes.cluster_name_cut_short");
								{ Lib lib; w.E(k).update(); }
								std::vector<Item> now = w.observe(k);
								{ Lib lib; w.env[k]->pub = now; }
								for(auto& o : w.om) o.second.ref = w.obs[o.first]->get_reference_position();
								check_pub(w, c, k);
							}
							probes_of(pr, w, 2, ps, us);
							compare_fresh(c, w, k, fresh, ps, us, "atomicity.survived");
						}
						else if(op.k == "ADD" || op.k == "RM") check_registry(w, c, k, "after " + op.k + " got along with a refused allocation");
						else if(op.k == "GET")
						{
							doa::Obstacle* again = nullptr;
							{ Lib lib; try { again = w.E(k)[op.str(0)].get(); } catch(std::runtime_error&) {} }
							if(again != got) c.fail("atomicity.lookup", "a lookup of '" + op.str(0) + "' that got along with a refused allocation returned something else");
						}
						else
						{
							V v;
							{ Lib lib; v = doa::Modulation::modulate_velocity(w.A(k), w.E(ek), op.in(2), op.in(3), false, op.n(5, 1), op.n(6, 2)); }
							if(!((v - said).norm() == 0 || (!v.allFinite() && !said.allFinite()))) c.fail("atomicity.command", "a command that got along with a refused allocation is " + vs(said) + " instead of " + vs(v));
						}
					}
				}
				// retried, it behaves as if it had never failed (the models are checked below)
			}
			armed.clear();
			if(done) continue;
			// normal execution, compared with the models and with a twin that never failed
			if(registry_op(w, c, op, true)) continue;
			if(op.k == "GET") { check_registry(w, c, k, "at a lookup"); continue; }
			if(op.k == "UPD")
			{
				{
					Lib lib;
					w.E(k).update();
				}
				std::vector<Item> now = w.observe(k);
				{ Lib lib; w.env[k]->pub = now; }
				for(auto& o : w.om) o.second.ref = w.obs[o.first]->get_reference_position();
				log_pub(c, w, k);
				if(failures)
				{
					check_pub(w, c, k);
					std::vector<V> ps, us;
					probes_of(pr, w, 2, ps, us);
					compare_fresh(c, w, k, fresh, ps, us, "atomicity.retry");
					c.count("probes.retry_compared");
				}
				continue;
			}
			V v = w.command(k, ek, op.in(2), op.in(3), false, op.n(5, 1), op.n(6, 2));
			c.ev("cmd", {v(0), v(1), v(2)});
		}
		c.nontrivial = failures > 0;
	}
	static Register r06({"C06", "histories as in C01 in which the n-th allocation inside of a refresh, a registration, a removal, a lookup or a command is refused (n random, from the first to past the last); non-trivial = at least one allocation was refused", 6000, 300000, gen06, exec06});
}
