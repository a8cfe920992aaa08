// C29: hulls and clusters that a user builds and keeps.
#include "world.hpp"

namespace sim
{
	struct Kept
	{
		OP ptr;
		doa::StarShapeHull* hull = nullptr; // one of them
		doa::Aggregate* agg = nullptr;
		bool inside = false;                // inside hull
		int n = 500;
		double rmin = 0.5, turn = 0; // as set
		std::vector<int> mem;               // members (clusters)
		V ref = V::Zero();
		// what the last completed computation was given
		bool valid = false;
		Surf surf;
		std::vector<OM> ms;
		V at = V::Zero();
		OP fresh;                           // the same, built at that moment
	};
	static double outline(const Radial& R, const Surf& s, bool inside) { return inside ? std::max(s.rmin, (R.hit ? R.near_ : s.rmin) - s.margin) : std::max(s.rmin, (R.hit ? R.far_ : s.rmin) + s.margin); }
	static Tri closed_of(const std::vector<OM>& ms, const V& ref, const Surf& s, bool inside)
	{
		double T = 1.2 * s.rmin, top = 0, least = 1e300;
		std::vector<double> hi(s.n);
		for(int k = 0; k < s.n; ++k)
		{
			hi[k] = 0;
			for(double j : {-0.02, -1e-14, 0.0, 1e-14, 0.02})
			{
				Radial R = radial(ms, ref, s.turn - M_PI + (k + j) * 2 * M_PI / s.n);
				double x = outline(R, s, inside), y = x;
				if(inside && R.hit && R.next_ < 1e299) { Radial N = R; N.near_ = R.next_; y = outline(N, s, inside); }
				hi[k] = std::max({hi[k], x, y});
				least = std::min({least, x, y});
			}
			top = std::max(top, hi[k]);
		}
		if(least > T * (1 + 1e-6)) return YES;
		int run = 0;
		for(int k = 0; k < 2 * s.n; ++k)
		{
			run = hi[k % s.n] < T * (1 - 1e-6) - 1e-4 * top ? run + 1 : 0;
			if(run >= 7) return NO;
		}
		return MAYBE;
	}
	struct Answer { bool in; double d; V nv; };
	static Answer asked(const doa::Obstacle& o, const V& x)
	{
		Lib lib;
		doa::State st(x);
		doa::Agent a(st);
		Answer r;
		r.in = o.point_is_inside(x);
		r.d = o.compute_distance_to_point(x, Eigen::Array3d(0, 0, 0));
		r.nv = o.compute_normal_to_agent(a);
		return r;
	}
	static bool alike(const Answer& a, const Answer& b) { return a.in == b.in && std::fabs(a.d - b.d) <= 1e-6 * (1 + std::fabs(b.d)) && (a.nv - b.nv).norm() < 1e-5; }
	static void judge(World& w, Ctx& c, Rng& pr, Kept& k, int id, int n)
	{
		if(!k.valid) return;
		std::string who = fmt("%s %d", k.agg ? "cluster" : "hull", id);
		// far from the origin differences of coordinates are only so precise
		double fuzz = 1e-14 * k.at.norm() * k.surf.n;
		std::vector<OM> live;
		for(int h : k.mem) live.push_back(w.om[h]);
		for(int t = 0; t < n; ++t)
		{
			double phi = pr.p(0.15) ? k.surf.turn + (pr.p(0.5) ? M_PI : -M_PI) + pr.u(-0.03, 0.03) : pr.u(-M_PI, M_PI);
			Band b = band(k.ms, k.at, phi, k.surf);
			double lo = k.inside ? b.nlo : b.lo, hi = k.inside ? b.nhi : b.hi;
			double r = pr.p(0.5) ? 0.5 * (lo + hi) * pr.u(0.8, 1.2) : pr.u(0.05, 6);
			V x = k.at + r * V(cos(phi), sin(phi), 0);
			Answer g = asked(*k.ptr, x);
			c.ev("kept", {phi, r, g.d, g.nv(0), g.nv(1), (double)g.in});
			std::string at = fmt("%s: direction %.6g, %.6g from the reference point", who.c_str(), phi, r);
			double tol = 1e-6 + fuzz / std::max(0.01, r);
			Tri want = r < lo * (1 - tol) ? YES : r > hi * (1 + tol) ? NO : MAYBE;
			if(k.agg)
			{
				Tri any = NO;
				for(auto& m : live) { Tri z = tri_inside(m, x); if(z == YES) any = YES; else if(z == MAYBE && any == NO) any = MAYBE; }
				if(any == YES) want = YES; else if(any == MAYBE && want == NO) want = MAYBE;
			}
			if(want != MAYBE && g.in != (want == YES)) c.fail("kept.inside", at + (want == YES ? " is inside, but reported outside" : " is outside, but reported inside"));
			bool near_ = k.agg ? g.in : k.inside; // which of the outlines counts
			double dlo = near_ ? b.nlo / r : r / b.hi, dhi = near_ ? b.nhi / r : r / b.lo;
			if(!(g.d >= dlo * (1 - tol) && g.d <= dhi * (1 + tol))) c.fail("kept.distance", fmt("%s: distance %.9g instead of %.9g..%.9g", at.c_str(), g.d, dlo, dhi));
			if(!(std::fabs(g.nv.norm() - 1) < 1e-6) || !(std::fabs(g.nv(2)) < 1e-6)) c.fail("kept.normal", fmt("%s: the normal %s is not a horizontal unit vector", at.c_str(), vs(g.nv).c_str()));
			// the same as one that was built at that moment
			if(!k.fresh || (k.agg && want == MAYBE)) continue;
			if(k.agg && asked(*k.fresh, x).in != g.in) continue; // a member was moved since
			bool same = false;
			for(double e : {0.0, 1e-7, -1e-7})
			{
				V y = k.at + r * (1 + 0.01 * e) * V(cos(phi + e), sin(phi + e), 0);
				if(alike(g, asked(*k.fresh, y))) { same = true; break; }
			}
			Answer f = asked(*k.fresh, x);
			if(!same && k.surf.n * fuzz < 1e-6) c.fail("kept.differs", fmt("%s: distance %.9g, normal %s; one built from the same parts answers %.9g, %s", at.c_str(), g.d, vs(g.nv).c_str(), f.d, vs(f.nv).c_str()));
			c.count("probes.compared_with_new");
		}
		Tri cl = pr.p(0.3) ? closed_of(k.ms, k.at, k.surf, k.inside) : MAYBE;
		bool got;
		{ Lib lib; got = k.ptr->is_closed(); }
		if(cl != MAYBE)
		{
			c.count(cl == YES ? "probes.closed" : "probes.open");
			if(got != (cl == YES)) c.fail("kept.closed", who + (got ? " reports to be closed but is not" : " is closed but reports not to be"));
		}
		if(k.hull && pr.p(0.2))
		{
			plot::reset();
			{ Lib lib; k.hull->draw("k", "xy"); }
			std::vector<double> xs, ys;
			for(auto& call : plot::calls()) if(call.fn == "plot" && call.x.size() > 2) { xs = call.x; ys = call.y; break; }
			plot::reset();
			if(xs.size() < 3 || xs.size() != ys.size()) c.fail("kept.drawn", who + " draws no outline");
			std::vector<double> dirs;
			for(size_t i = 0; i < xs.size(); ++i) dirs.push_back(std::atan2(ys[i] - k.at(1), xs[i] - k.at(0)));
			for(int t = 0; t < 5; ++t)
			{
				size_t i = pr.next() % xs.size();
				double r = (V(xs[i], ys[i], 0) - V(k.at(0), k.at(1), 0)).norm();
				double lo = 1e300, hi = 0;
				for(double e : {-1e-6, 1e-6}) // it may be one of the samples itself
				{
					Band b = band(k.ms, k.at, dirs[i] + e, k.surf);
					lo = std::min(lo, (k.inside ? b.nlo : b.lo) - fuzz - 1e-6);
					hi = std::max(hi, (k.inside ? b.nhi : b.hi) + fuzz + 1e-6);
				}
				if(!(r >= lo && r <= hi)) c.fail("kept.drawn", fmt("%s draws a point %.9g from its reference point in direction %.6g, its surface is at %.9g..%.9g", who.c_str(), r, dirs[i], lo, hi));
			}
			std::sort(dirs.begin(), dirs.end());
			double gap = dirs.front() + 2 * M_PI - dirs.back();
			for(size_t i = 1; i < dirs.size(); ++i) gap = std::max(gap, dirs[i] - dirs[i - 1]);
			if(gap > 2.1 * 2 * M_PI / k.surf.n + 2 * fuzz) c.fail("kept.drawn", fmt("%s draws an outline that leaves out an angle of %.6g", who.c_str(), gap));
			c.count("probes.drawn");
		}
	}
	// one built now from copies of the same parts
	static void build_fresh(World& w, Kept& k, const std::vector<int>& from, int way)
	{
		Lib lib;
		k.fresh.reset();
		std::deque<OP> parts;
		for(int h : from) parts.push_back(clone(*w.obs[h]));
		if(k.agg)
		{
			std::shared_ptr<doa::Aggregate> a;
			if(way % 2) a = std::make_shared<doa::Aggregate>(parts);
			else { a = std::make_shared<doa::Aggregate>(); for(auto& p : parts) a->add_primitive(p, false); }
			a->set_reference_position(k.at);
			a->update_hull();
			k.fresh = a;
		}
		else
		{
			auto h = std::make_shared<doa::StarShapeHull>(k.inside, (unsigned)k.surf.n, k.surf.rmin);
			if(k.surf.turn != 0) h->set_orientation(yawq(k.surf.turn));
			h->compute_from_primitives(parts, k.at);
			k.fresh = h;
		}
	}
	static Scenario gen29(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H = env_opt(r, big);
		H.nenv = 1;
		H.nag = 1;
		H.g.planar = true;
		H.g.nobs = r.i(2, big ? 8 : 5);
		H.g.area = r.pick(std::vector<double>{1.0, 2.0, 3.5});
		H.g.margin = r.pick(std::vector<double>{0, 0.3, 0.6});
		H.g.zvar = false;
		H.g.curv = false;
		H.crowd = H.huge = false;
		H.far = 0.05;
		H.seconds = r.u(0.4, big ? 3 : 1.0);
		std::vector<Op> h = gen_history(r, H);
		std::vector<int> known;
		int next = 0;
		std::vector<int> res = {12, 40, 100, 180, 360, 500, 500, 720};
		auto some = [&](std::vector<double>& a) { std::vector<int> l = known; for(size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[r.next() % i]); l.resize(r.i(1, (int)l.size())); for(int x : l) a.push_back(x); };
		std::map<int, V> where;
		for(auto& op : h)
		{
			if(op.k == "CMD" || op.k == "AM" || op.k == "AV" || op.k == "AP" || op.k == "AG") continue;
			s.ops.push_back(op);
			if(op.k == "OBS") { bool seen = false; for(int x : known) seen = seen || x == op.in(0); if(!seen) known.push_back(op.in(0)); where[op.in(0)] = v3(op, 2); }
			if(op.k == "SP") where[op.in(0)] = v3(op, 1);
			if(known.empty() || !r.p(0.35)) continue;
			if(next == 0 || (next < 6 && r.p(0.15)))
			{
				if(r.p(0.5))
				{
					// hull: inside, resolution, least radius, turn, given members at once
					std::vector<double> a = {(double)next, (double)r.i(0, 1), (double)r.pick(res), r.pick(std::vector<double>{0.5, 0.5, 0.1, 0.01, 1.0, r.u(0.05, 0.8)}), r.p(0.2) ? r.u(-3, 3) : 0.0, (double)r.i(0, 1)};
					some(a);
					s.ops.push_back(Op("KH", op.t, a));
				}
				else { std::vector<double> a = {(double)next, (double)r.i(0, 1)}; some(a); s.ops.push_back(Op("KA", op.t, a)); }
				++next;
				continue;
			}
			int id = r.i(0, next - 1);
			if(r.p(0.12)) s.ops.push_back(Op("OOM", op.t, {std::floor(std::pow(10, r.u(0, 3.5)))}));
			switch(r.i(0, 9))
			{
			case 0: s.ops.push_back(Op("KRES", op.t, {(double)id, (double)r.pick(res), (double)r.i(0, 1)})); break;
			case 1: case 2: case 3: case 4:
			{
				// computed again, sometimes about a chosen point
				std::vector<double> a = {(double)id, (double)(r.i(0, 2) > 0)};
				V x = where[r.pick(known)] + gen_vec(r, 0.5, true);
				put(a, x);
				some(a);
				s.ops.push_back(Op("KCOMP", op.t, a));
				if(r.p(0.2)) s.ops.push_back(s.ops.back());
				break;
			}
			case 5: s.ops.push_back(Op("KADD", op.t, {(double)id, (double)r.pick(known), (double)r.i(0, 1)})); break;
			case 6: { std::vector<double> a = {(double)id}; V x = where[r.pick(known)] + gen_vec(r, 0.5, true); put(a, x); s.ops.push_back(Op("KREF", op.t, a)); if(r.p(0.5)) s.ops.push_back(Op("KCOMP", op.t, {(double)id, 0, 0, 0, 0})); break; }
			case 7: if(next < 8) s.ops.push_back(Op("KCP", op.t, {(double)id, (double)next++})); break;
			case 8: s.ops.push_back(Op("KAS", op.t, {(double)id, (double)r.i(0, next - 1)})); break;
			default: s.ops.push_back(Op("KTURN", op.t, {(double)id, r.u(-3, 3)})); break;
			}
		}
		s.par["probe_seed"] = r.i(1, 1 << 30);
		return s;
	}
	static void exec29(const Scenario& sc, Ctx& c)
	{
		World w(c);
		Rng pr((uint64_t)sc.get("probe_seed", 1));
		std::map<int, Kept> kept;
		struct Drop { std::map<int, Kept>& k; ~Drop() { Lib lib; k.clear(); } } drop{kept};
		int n = 0;
		long oom = 0;
		auto parts_of = [&](const std::vector<int>& l) { std::deque<OP> d; for(int h : l) d.push_back(w.obs[h]); return d; };
		auto mean = [&](const std::vector<int>& l) { V m = V::Zero(); for(int h : l) m += w.om[h].p; return V(m / (double)l.size()); };
		// op.a from index i on: known obstacles, each once
		auto list = [&](const Op& op, size_t i) { std::vector<int> l; for(; i < op.a.size(); ++i) { int h = op.in(i, -1); if(w.has_obs(h) && std::find(l.begin(), l.end(), h) == l.end()) l.push_back(h); } return l; };
		auto computed = [&](Kept& k, const std::vector<int>& l, const V& at) {
			k.valid = true;
			k.surf.n = k.n; k.surf.rmin = k.rmin; k.surf.turn = k.turn;
			k.ms.clear();
			bool flat = true;
			for(int h : l) { k.ms.push_back(w.om[h]); flat = flat && w.om[h].yaw_only() && std::fabs(w.om[h].p(2) - at(2)) < 1e-9; }
			k.at = at;
			if(!flat) { k.valid = false; return; }
			build_fresh(w, k, l, pr.i(0, 1));
			++n;
		};
		auto guarded = [&](const char* what, const std::function<void()>& f) {
			uint64_t f0 = mem::failures();
			bool threw = false;
			{
				Lib lib;
				mem::fail_after(oom);
				try { f(); } catch(std::bad_alloc&) { threw = true; }
				mem::fail_after(0);
			}
			oom = 0;
			if(mem::failures() > f0) { c.count(std::string("faults.allocation_refused_in_") + what); if(!threw) return false; }
			else if(threw) c.fail("kept.memory", std::string(what) + " failed although there was memory");
			return !threw;
		};
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int i = op.in(0), j = op.in(1);
			int touched = -1;
			if(op.k == "OOM") { oom = std::max(1, i); continue; }
			if(op.k[0] == 'K') c.count("ops." + op.k);
			if(op.k == "KH")
			{
				std::vector<int> l = list(op, 6);
				if(l.empty() || kept.count(i)) continue;
				Kept k;
				k.inside = op.in(1);
				k.n = std::max(8, op.in(2));
				k.rmin = std::max(0.01, op.n(3));
				k.turn = op.n(4);
				bool now = op.in(5) != 0;
				if(now) k.turn = 0;
				std::shared_ptr<doa::StarShapeHull> p;
				std::deque<OP> d = parts_of(l);
				bool ok = guarded("hull", [&] {
					if(now) p = std::make_shared<doa::StarShapeHull>(d, k.inside, (unsigned)k.n, k.rmin);
					else { p = std::make_shared<doa::StarShapeHull>(k.inside, (unsigned)k.n, k.rmin); p->set_orientation(yawq(k.turn)); p->compute_from_primitives(d); }
				});
				if(ok)
				{
					k.ptr = p;
					k.hull = p.get();
					k.ref = mean(l);
					if(!close(p->get_reference_position(), k.ref, 1e-9 * (1 + k.ref.norm()))) c.fail("kept.reference", fmt("hull %d has the reference point %s, the mean of its members is %s", i, vs(p->get_reference_position()).c_str(), vs(k.ref).c_str()));
					computed(k, l, p->get_reference_position());
					kept[i] = k;
					touched = i;
				}
				{ Lib lib; p.reset(); d.clear(); std::deque<OP>().swap(d); k.ptr.reset(); k.fresh.reset(); }
			}
			else if(op.k == "KA")
			{
				std::vector<int> l = list(op, 2);
				if(l.empty() || kept.count(i)) continue;
				Kept k;
				std::shared_ptr<doa::Aggregate> p;
				std::deque<OP> d = parts_of(l);
				bool ok = guarded("cluster", [&] {
					if(j) p = std::make_shared<doa::Aggregate>(d);
					else { p = std::make_shared<doa::Aggregate>(); for(auto& o : d) p->add_primitive(o); }
				});
				if(ok)
				{
					k.ptr = p;
					k.agg = p.get();
					k.mem = l;
					k.ref = p->get_reference_position();
					V m = mean(l);
					if(!close(k.ref, m, 1e-9 * (1 + m.norm()))) c.fail("kept.reference", fmt("cluster %d has the reference point %s, the mean of its members is %s", i, vs(k.ref).c_str(), vs(m).c_str()));
					computed(k, l, k.ref);
					kept[i] = k;
					touched = i;
				}
				{ Lib lib; p.reset(); d.clear(); std::deque<OP>().swap(d); k.ptr.reset(); k.fresh.reset(); }
			}
			else if(op.k[0] == 'K')
			{
				if(!kept.count(i)) continue;
				Kept& k = kept[i];
				touched = i;
				if(op.k == "KRES" && k.hull)
				{
					int res = std::max(8, j);
					if(res == k.n && op.in(2) && k.valid) { touched = i; } // nothing to do
					else
					{
						bool ok = guarded("resolution", [&] { k.hull->set_resolution((unsigned)res); });
						if(ok) { k.n = res; k.valid = false; } // until it is computed again; as before if it failed
					}
				}
				else if(op.k == "KTURN" && k.hull) { Lib lib; k.turn = op.n(1); k.hull->set_orientation(yawq(k.turn)); k.valid = false; }
				else if(op.k == "KREF")
				{
					V x = v3(op, 1);
					{ Lib lib; k.ptr->set_reference_position(x); }
					k.ref = x;
					if(!close(k.ptr->get_reference_position(), x, 0)) c.fail("kept.reference", fmt("%d does not have the reference point it was given", i));
					if(k.agg) for(int h : k.mem) { w.om[h].ref = x; if(!close(w.obs[h]->get_reference_position(), x, 0)) c.fail("kept.reference", fmt("obstacle %d, member of the cluster %d, was not given its reference point", h, i)); }
				}
				else if(op.k == "KCOMP")
				{
					if(k.agg)
					{
						k.valid = false;
						if(guarded("update_hull", [&] { k.agg->update_hull(); })) computed(k, k.mem, k.ref);
					}
					else
					{
						std::vector<int> l = list(op, 5);
						if(l.empty()) continue;
						std::deque<OP> d = parts_of(l);
						V x = j ? v3(op, 2) : mean(l);
						k.valid = false;
						bool ok = guarded("compute", [&] { if(j) k.hull->compute_from_primitives(d, x); else k.hull->compute_from_primitives(d); });
						{ Lib lib; d.clear(); std::deque<OP>().swap(d); }
						if(ok)
						{
							V got = k.hull->get_reference_position();
							if(!close(got, x, 1e-9 * (1 + x.norm()))) c.fail("kept.reference", fmt("hull %d has the reference point %s instead of %s", i, vs(got).c_str(), vs(x).c_str()));
							if(!close(k.hull->get_position(), got, 0)) c.fail("kept.reference", fmt("hull %d is at %s, its reference point at %s", i, vs(k.hull->get_position()).c_str(), vs(got).c_str()));
							computed(k, l, got);
						}
					}
				}
				else if(op.k == "KADD" && k.agg)
				{
					if(!w.has_obs(j) || std::find(k.mem.begin(), k.mem.end(), j) != k.mem.end()) continue;
					OP o = w.obs[j];
					bool ok = guarded("add_primitive", [&] { k.agg->add_primitive(o, op.in(2) != 0); });
					{ Lib lib; o.reset(); }
					if(!ok) { Lib lib; kept.erase(i); continue; } // given up
					k.mem.push_back(j);
					V m = mean(k.mem);
					k.ref = k.agg->get_reference_position();
					if(!close(k.ref, m, 1e-9 * (1 + m.norm())) || !close(k.agg->get_position(), m, 1e-9 * (1 + m.norm()))) c.fail("kept.reference", fmt("cluster %d is at %s, its reference point at %s, the mean of its members is %s", i, vs(k.agg->get_position()).c_str(), vs(k.ref).c_str(), vs(m).c_str()));
					for(int h : k.mem) { w.om[h].ref = k.ref; if(!close(w.obs[h]->get_reference_position(), k.ref, 0)) c.fail("kept.reference", fmt("obstacle %d, member of the cluster %d, does not have its reference point", h, i)); }
					if(op.in(2)) computed(k, k.mem, k.ref);
				}
				else if(op.k == "KCP")
				{
					if(kept.count(j)) continue;
					OP p;
					bool ok = guarded("copy", [&] { if(k.agg) p = std::make_shared<doa::Aggregate>(*k.agg); else p = std::make_shared<doa::StarShapeHull>(*k.hull); });
					if(ok)
					{
						Kept e = k;
						e.ptr = p;
						if(e.agg) e.agg = static_cast<doa::Aggregate*>(p.get()); else e.hull = static_cast<doa::StarShapeHull*>(p.get());
						{ Lib lib; kept[j] = e; p.reset(); e.ptr.reset(); e.fresh.reset(); }
						touched = j;
					}
				}
				else if(op.k == "KAS")
				{
					if(!kept.count(j) || !kept[j].agg != !k.agg) continue;
					Kept& t = kept[j];
					bool was = t.valid;
					t.valid = false;
					bool ok = guarded("assignment", [&] { if(k.agg) *t.agg = *k.agg; else *t.hull = *k.hull; });
					if(!ok) { Lib lib; kept.erase(j); continue; }
					if(i != j)
					{
						Lib lib;
						Kept e = k;
						e.ptr = t.ptr;
						e.agg = t.agg;
						e.hull = t.hull;
						t = e;
					}
					else t.valid = was;
					touched = j;
				}
				else { oom = 0; continue; }
				if(kept.count(touched))
				{
					Kept& z = kept[touched];
					if(z.agg)
					{
						std::multiset<const doa::Obstacle*> has, should;
						for(auto& p : z.agg->get_primitives()) has.insert(p.get());
						for(int h : z.mem) should.insert(w.obs[h].get());
						if(has != should) c.fail("kept.members", fmt("cluster %d has %zu members, %zu were given, or other ones", touched, has.size(), should.size()));
					}
				}
			}
			else
			{
				oom = 0;
				if(op.k == "OBS" && w.has_obs(i))
				{
					// another object takes its place
					Lib lib;
					for(auto it = kept.begin(); it != kept.end();) { bool uses = std::find(it->second.mem.begin(), it->second.mem.end(), i) != it->second.mem.end(); if(uses) it = kept.erase(it); else ++it; }
				}
				if(op.k == "UPD") { if(w.has_env(i)) w.refresh(i); }
				else if(!w.apply(op)) registry_op(w, c, op, false);
			}
			for(auto& e : kept) if(e.first == touched || pr.p(0.08)) judge(w, c, pr, e.second, e.first, e.first == touched ? 4 : 2);
		}
		c.nontrivial = n >= 2;
	}
	static Register r29({"C29", "hulls and clusters that a user builds, keeps, recomputes from other members, about other points and at other resolutions, turns, copies and assigns, while the members move, environments refresh and allocations are refused; each is compared with the members' outlines at its last completed computation and with one newly built from the same parts; non-trivial = at least two computations", 6000, 300000, gen29, exec29});
}
