// Properties of agents, poses, queries, printing and plotting.
#include "world.hpp"
#include <algorithm>
#include <sstream>

namespace sim
{
	typedef std::vector<double> Obs;
	// everything a user can see of an agent
	static Obs see(const doa::Agent& a)
	{
		Obs r;
		Lib lib;
		put(r, V(a.get_position()));
		put(r, Q(a.get_orientation()));
		put(r, V(a.get_linear_velocity()));
		put(r, V(a.get_angular_velocity()));
		r.push_back(a.get_safety_margin());
		doa::State st = a.get_state();
		put(r, V(st.get_position()));
		put(r, Q(st.get_orientation()));
		put(r, V(st.get_linear_velocity()));
		put(r, V(st.get_angular_velocity()));
		doa::Pose po = a.get_pose();
		put(r, V(po.get_position()));
		put(r, Q(po.get_orientation()));
		const doa::Ellipsoid& e = static_cast<const doa::Ellipsoid&>(a.get_envelope());
		put(r, V(e.get_position()));
		put(r, Q(e.get_orientation()));
		put(r, V(e.get_reference_position()));
		put(r, A3(e.get_axis_lengths()));
		put(r, A3(e.get_curvature_factor()));
		put(r, A3(e.get_safety_margin()));
		return r;
	}
	static bool same_bits(const Obs& a, const Obs& b)
	{
		if(a.size() != b.size()) return false;
		for(size_t i = 0; i < a.size(); ++i) if(!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
		return true;
	}
	static bool same_q(const Q& a, const Q& b, double tol) { return (a.coeffs() - b.coeffs()).norm() <= tol || (a.coeffs() + b.coeffs()).norm() <= tol; }

	// the envelope an agent must have; empty string if it has
	static std::string envelope_error(const doa::Agent& a, const AM& m)
	{
		const doa::Obstacle& o = a.get_envelope();
		std::string type;
		{ Lib lib; type = o.get_type(); }
		if(type != "Ellipsoid") return "the envelope is not an ellipsoid";
		const doa::Ellipsoid& e = static_cast<const doa::Ellipsoid&>(o);
		double mm = std::max(0.1, m.m), un = m.u.stableNorm();
		V d = un > 0 ? V(m.u / un) : V(V::Zero());
		V c = m.p + 0.5 * d;
		double tol = 1e-9 * (1 + m.p.norm());
		if(!close(e.get_position(), c, tol)) return fmt("centre %s instead of %s", vs(e.get_position()).c_str(), vs(c).c_str());
		A3 ax = e.get_axis_lengths() + e.get_safety_margin();
		double l = 0.5 * (un > 0) + mm;
		if(std::fabs(ax(0) - l) > tol || std::fabs(ax(1) - mm) > tol || std::fabs(ax(2) - mm) > tol) return fmt("axes %s instead of (%.9g, %.9g, %.9g)", vs(V(ax)).c_str(), l, mm, mm);
		if(std::hypot(d(0), d(1)) > 1e-6)
		{
			Q q = e.get_orientation();
			V h = q * V(1, 0, 0), want = V(d(0), d(1), 0) / std::hypot(d(0), d(1));
			if(std::fabs(h.dot(want)) < 1 - 1e-9) return fmt("oriented along %s instead of %s", vs(h).c_str(), vs(want).c_str());
			if(std::fabs((q * V(0, 0, 1))(2)) < 1 - 1e-9) return "the envelope is tilted";
		}
		if(!(e.get_curvature_factor() - 1).abs().matrix().isZero(1e-12)) return "the envelope is not an ellipse";
		return "";
	}
	static std::string state_error(const doa::Agent& a, const AM& m)
	{
		double tol = 1e-9 * (1 + m.p.norm());
		if(!close(a.get_position(), m.p, tol)) return fmt("position %s instead of %s", vs(a.get_position()).c_str(), vs(m.p).c_str());
		if(!same_q(a.get_orientation(), m.q, 1e-9)) return "orientation";
		if(!close(a.get_linear_velocity(), m.u, 0)) return fmt("velocity %s instead of %s", vs(a.get_linear_velocity()).c_str(), vs(m.u).c_str());
		if(!close(a.get_angular_velocity(), m.w, 0)) return "angular velocity";
		if(a.get_safety_margin() != m.m) return fmt("margin %.9g instead of %.9g", a.get_safety_margin(), m.m);
		return "";
	}
	// ---------------------------------------------------------------- histories of agents
	static V gen_u(Rng& r)
	{
		switch(r.i(0, 9))
		{
		case 0: return V(0, 0, 0);
		case 1: return V(0, 0, r.p(0.5) ? 1 : -1) * r.u(0.1, 2);
		case 2: { double s = std::pow(10, r.u(-9, -1)); return gen_vec(r, s, false); }
		case 3: { double s = std::pow(10, r.u(0, 5)); return gen_vec(r, s, false); }
		case 4: { int i = r.i(0, 2); V v = V::Zero(); v(i) = r.p(0.5) ? 1 : -1; return v; }
		case 5: return gen_vec(r, 1, false);
		default: return gen_vec(r, 1, true);
		}
	}
	static double gen_m(Rng& r) { return r.pick(std::vector<double>{0, 0.05, 0.1, 0.10001, 0.3, 1.0, r.u(0, 2), -0.2}); }
	static std::vector<Op> agent_history(Rng& r, int nops, bool copies)
	{
		std::vector<Op> out;
		std::vector<int> live;
		double t = 0;
		int next = 0;
		auto born = [&]() { Op o = gen_agent(r, next, t, gen_vec(r, 5, r.p(0.5)), gen_u(r), gen_m(r)); live.push_back(next++); out.push_back(o); };
		born();
		for(int n = 0; n < nops; ++n)
		{
			t += r.u(0.01, 0.2);
			if(live.empty()) { born(); continue; }
			int i = r.pick(live);
			std::vector<double> a = {(double)i};
			int c = r.i(0, copies ? 15 : 9);
			double sc = r.p(0.3) ? std::pow(10, r.u(-3, 3)) : 1;
			Q q = gen_q(r, r.p(0.5));
			q.coeffs() *= sc;
			switch(c)
			{
			case 0: put(a, gen_vec(r, 5, r.p(0.5))); out.push_back(Op("AP", t, a)); break;
			case 1: put(a, q); out.push_back(Op("AQ", t, a)); break;
			case 2: case 3: put(a, gen_u(r)); out.push_back(Op("AV", t, a)); break;
			case 4: put(a, gen_vec(r, 1, false)); out.push_back(Op("AW", t, a)); break;
			case 5: a.push_back(gen_m(r)); out.push_back(Op("AM", t, a)); break;
			case 6: put(a, gen_vec(r, 5, false)); put(a, q); out.push_back(Op("APOSE", t, a)); break;
			case 7: put(a, gen_vec(r, 1, false)); put(a, q); out.push_back(Op("ATR", t, a)); break;
			case 8: if(live.size() < 8) born(); break;
			case 9: if(!copies) { out.push_back(Op("ACP", t, {(double)i, (double)next})); live.push_back(next++); } break;
			case 10: case 11: if(live.size() < 8 && r.p(0.2)) { out.push_back(Op("OOM", t, {(double)r.i(1, 3)})); out.push_back(Op("ACP", t, {(double)i, (double)next + 100})); } if(live.size() < 8) { out.push_back(Op("ACP", t, {(double)i, (double)next})); live.push_back(next++); } break;
			case 12: if(r.p(0.3)) out.push_back(Op("OOM", t, {(double)r.i(1, 3)})); out.push_back(Op("AAS", t, {(double)i, (double)r.pick(live)})); break;
			case 13: if(live.size() < 8) { std::vector<double> b = {(double)i, (double)next}; put(b, gen_vec(r, 1, false)); put(b, q); out.push_back(Op("ATD", t, b)); live.push_back(next++); } break;
			case 14: if(live.size() > 1) { out.push_back(Op("ADEL", t, a)); live.erase(std::find(live.begin(), live.end(), i)); } break;
			default: out.push_back(r.p(0.5) ? Op("AVAL", t, {(double)i, r.u(-3, 3), r.u(-3, 3), gen_m(r)}) : Op("ASWP", t, {(double)i, (double)r.pick(live)})); break;
			}
		}
		return out;
	}

	// ---------------------------------------------------------------- C14
	static Scenario gen14(Rng& r, bool big) { Scenario s; s.ops = agent_history(r, r.i(6, big ? 120 : 40), true); return s; }
	static void exec14(const Scenario& sc, Ctx& c)
	{
		World w(c);
		int copies = 0, changes = 0;
		long oom = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int i = op.in(0), j = op.in(1);
			if(op.k == "OOM") { oom = std::max(1, i); continue; }
			long fail_at = oom;
			oom = 0;
			if(fail_at && (op.k == "ACP" || op.k == "AAS") && w.has_ag(i))
			{
				// the same operation first without enough memory: no agent may notice, nothing may be lost
				if(op.k == "AAS" && !w.has_ag(j)) continue;
				std::map<int, Obs> was;
				for(auto& a : w.ag) if(op.k == "ACP" || a.first != j || i == j) was[a.first] = see(*a.second);
				uint64_t live = mem::live_blocks(), f0 = mem::failures();
				bool threw = false;
				{
					Lib lib;
					mem::fail_after(fail_at);
					try { if(op.k == "ACP") { doa::Agent tmp(w.A(i)); } else w.A(j) = w.A(i); } catch(std::bad_alloc&) { threw = true; }
					mem::fail_after(0);
				}
				if(mem::failures() > f0)
				{
					c.count("faults.allocation_refused_while_copying");
					if(!threw) c.fail("copy.oom", "a copy without enough memory was not reported");
				}
				if(mem::live_blocks() > live) c.fail("copy.oom", "a copy that failed leaks memory");
				for(auto& a : was) if(!same_bits(see(w.A(a.first)), a.second)) c.fail("copy.oom", fmt("a copy of agent %d that failed changed agent %d", i, a.first));
				if(op.k == "ACP") continue;
			}
			std::map<int, Obs> before;
			for(auto& a : w.ag) before[a.first] = see(*a.second);
			std::set<int> touched;
			Obs source;
			if(w.has_ag(i)) source = see(w.A(i));
			if(op.k == "AVAL") // handed over by value and changed by the receiver
			{
				if(!w.has_ag(i)) continue;
				{
					Lib lib;
					auto receiver = [&](doa::Agent a) { a.set_position(V(op.n(1), op.n(2), 0)); a.set_linear_velocity(V(op.n(2), op.n(1), 0)); a.set_safety_margin(op.n(3)); };
					receiver(w.A(i));
					std::vector<doa::Agent> v; // and stored in a container that grows
					for(int k = 0; k < 5; ++k) { v.push_back(w.A(i)); v.back().set_position(V(k, op.n(1), 0)); }
				}
				c.count("ops.AVAL");
				++copies;
			}
			else if(op.k == "ASWP")
			{
				if(!w.has_ag(i) || !w.has_ag(j)) continue;
				{ Lib lib; std::swap(w.A(i), w.A(j)); std::swap(w.am[i], w.am[j]); }
				touched.insert(i);
				touched.insert(j);
				if(i != j && (!same_bits(see(w.A(i)), before[j]) || !same_bits(see(w.A(j)), before[i]))) c.fail("copy.swap", "swapped agents are not each other's former self");
				c.count("ops.ASWP");
				++copies;
			}
			else
			{
				if(!w.apply(op)) continue;
				bool to_j = op.k == "ACP" || op.k == "AAS" || op.k == "ATD";
				touched.insert(to_j ? j : i);
				if(to_j && w.has_ag(i) && w.has_ag(j))
				{
					++copies;
					if(op.k != "ATD" && !same_bits(see(w.A(j)), source)) c.fail("copy.differs", op.k + ": the copy is not equal to its source");
				}
				else ++changes;
			}
			for(auto& a : w.ag)
			{
				if(!touched.count(a.first) && !same_bits(see(*a.second), before[a.first])) c.fail("copy.shared", fmt("%s of agent %d changed agent %d", op.k.c_str(), i, a.first));
				std::string e = state_error(*a.second, w.am[a.first]);
				if(!e.empty()) c.fail("copy.state", fmt("after %s agent %d has a wrong state: %s", op.k.c_str(), a.first, e.c_str()));
				e = envelope_error(*a.second, w.am[a.first]);
				if(!e.empty()) c.fail("copy.envelope", fmt("after %s agent %d has a wrong envelope: %s", op.k.c_str(), a.first, e.c_str()));
				Obs o = see(*a.second);
				c.ev("agent", o.data(), o.size());
			}
			std::string why;
			if(mem::corrupted(why)) c.fail("copy.memory", why);
		}
		c.nontrivial = copies >= 1 && changes >= 2;
	}
	static Register r14({"C14", "histories of construction, setters, copies, assignments (also to itself), swaps, hand-over by value, growing containers, transforms and destruction of up to 8 agents with freed memory handed out again; non-trivial = at least one copy and two changes", 120000, 2000000, gen14, exec14});

	// ---------------------------------------------------------------- C15
	static Scenario gen15(Rng& r, bool big)
	{
		Scenario s;
		std::vector<Op> h = agent_history(r, r.i(4, big ? 100 : 40), false);
		bool bad = r.p(0.4);
		for(auto& op : h)
		{
			// a corrupted reading now and then; the good one follows
			if(bad && r.p(0.2) && (op.k == "AP" || op.k == "AV" || op.k == "AM" || op.k == "AQ" || op.k == "APOSE"))
			{
				Op g = op;
				double x = r.pick(std::vector<double>{NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e-320});
				for(size_t k = 1; k < g.a.size(); ++k) if(g.k == "AM" || r.p(0.5)) g.a[k] = x;
				s.ops.push_back(g);
			}
			s.ops.push_back(op);
		}
		s.par["probe_seed"] = r.i(1, 1 << 30);
		return s;
	}
	static void exec15(const Scenario& sc, Ctx& c)
	{
		World w(c);
		Rng pr((uint64_t)sc.get("probe_seed", 1));
		int n = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			if(!w.apply(op)) continue;
			++n;
			for(auto& a : w.ag)
			{
				const AM& m = w.am[a.first];
				// nothing is claimed while a reading is corrupted
				if(!m.p.allFinite() || !m.u.allFinite() || !std::isfinite(m.m) || m.p.norm() > 1e9 || m.u.stableNorm() > 1e140 || (m.u.stableNorm() > 0 && m.u.stableNorm() < 1e-140) || m.m > 1e9) { c.count("faults.corrupted_reading"); continue; }
				std::string e = envelope_error(*a.second, m);
				if(!e.empty()) c.fail("envelope.wrong", fmt("after %s agent %d at %s, velocity %s, margin %.9g: envelope has %s", op.k.c_str(), a.first, vs(m.p).c_str(), vs(m.u).c_str(), m.m, e.c_str()));
				// what the envelope answers
				E2 el = e2_envelope(m);
				V x = m.p + gen_vec(pr, 1.5 * std::max(el.a, 0.6), true);
				double v = 0;
				{ double cy = cos(el.yaw), sy = sin(el.yaw), dx = x(0) - el.cx, dy = x(1) - el.cy; double px = (cy * dx + sy * dy) / el.a, py = (-sy * dx + cy * dy) / el.b; v = px * px + py * py; }
				bool in;
				{ Lib lib; in = a.second->get_envelope().point_is_inside(x); }
				if(std::fabs(v - 1) > 1e-6 && std::hypot(m.u(0), m.u(1)) > 1e-6 * m.u.norm() && in != (v < 1)) c.fail("envelope.answer", fmt("point %s is %s the envelope, but reported otherwise", vs(x).c_str(), v < 1 ? "in" : "outside of"));
				Obs o = see(*a.second);
				c.ev("agent", o.data(), o.size());
			}
		}
		c.nontrivial = n >= 4;
	}
	static Register r15({"C15", "histories of constructors and setters in any order with null, vertical, tiny and huge velocities and margins around the threshold; the envelope and its containment answers are compared with the definition after every operation; non-trivial = at least 4 operations", 120000, 2000000, gen15, exec15});

	// ---------------------------------------------------------------- C18
	struct LP // model pose in extended precision
	{
		long double t[3] = {0, 0, 0}, q[4] = {1, 0, 0, 0};
	};
	static void lq_mul(const long double* a, const long double* b, long double* o)
	{
		long double r[4] = {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
		                    a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]};
		long double n = sqrtl(r[0] * r[0] + r[1] * r[1] + r[2] * r[2] + r[3] * r[3]);
		for(int i = 0; i < 4; ++i) o[i] = r[i] / n;
	}
	static void lq_rot(const long double* q, const long double* v, long double* o)
	{
		long double w = q[0], x = q[1], y = q[2], z = q[3];
		long double m[9] = {1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)};
		long double r[3];
		for(int i = 0; i < 3; ++i) r[i] = m[3 * i] * v[0] + m[3 * i + 1] * v[1] + m[3 * i + 2] * v[2];
		for(int i = 0; i < 3; ++i) o[i] = r[i];
	}
	static LP lp_mul(const LP& a, const LP& b) { LP r; long double v[3]; lq_rot(a.q, b.t, v); for(int i = 0; i < 3; ++i) r.t[i] = a.t[i] + v[i]; lq_mul(a.q, b.q, r.q); return r; }
	static LP lp_inv(const LP& a) { LP r; r.q[0] = a.q[0]; for(int i = 1; i < 4; ++i) r.q[i] = -a.q[i]; long double n[3] = {-a.t[0], -a.t[1], -a.t[2]}; lq_rot(r.q, n, r.t); return r; }
	static LP lp_of(const V& t, const Q& q)
	{
		LP r;
		long double n = sqrtl((long double)q.w() * q.w() + (long double)q.x() * q.x() + (long double)q.y() * q.y() + (long double)q.z() * q.z());
		r.q[0] = q.w() / n; r.q[1] = q.x() / n; r.q[2] = q.y() / n; r.q[3] = q.z() / n;
		for(int i = 0; i < 3; ++i) r.t[i] = t(i);
		return r;
	}
	static std::string lp_err(const doa::Pose& p, const LP& m, double tol)
	{
		double s = 1;
		for(int i = 0; i < 3; ++i) s += std::fabs((double)m.t[i]);
		for(int i = 0; i < 3; ++i) if(!(std::fabs(p.get_position()(i) - (double)m.t[i]) <= tol * s)) return fmt("position %s instead of (%.9g, %.9g, %.9g)", vs(p.get_position()).c_str(), (double)m.t[0], (double)m.t[1], (double)m.t[2]);
		Q q = p.get_orientation(), w((double)m.q[0], (double)m.q[1], (double)m.q[2], (double)m.q[3]);
		if(!(std::fabs(q.norm() - 1) <= tol)) return fmt("orientation of length 1%+g", q.norm() - 1);
		if(!same_q(q, w, tol)) return fmt("orientation (%.9g %.9g %.9g %.9g) instead of (%.9g %.9g %.9g %.9g)", q.w(), q.x(), q.y(), q.z(), w.w(), w.x(), w.y(), w.z());
		return "";
	}
	static Scenario gen18(Rng& r, bool big)
	{
		Scenario s;
		int n = r.p(0.1) ? r.i(500, big ? 6000 : 1500) : r.i(5, 80);
		double t = 0;
		double step = r.pick(std::vector<double>{0.01, 0.3, 3});
		std::vector<std::vector<double>> moves;
		for(int i = 0; i < n; ++i)
		{
			t += 0.05;
			std::vector<double> a = {(double)r.i(0, 3)}; // which body
			V v = gen_vec(r, step, false);
			Q q = r.p(0.8) ? Q(Eigen::AngleAxisd(step * r.u(-1, 1), gen_vec(r, 1, false).normalized())) : gen_q(r, false);
			if(r.p(0.5)) q.coeffs() *= std::pow(10, r.u(-4, 4)) * (r.p(0.5) ? 1 : -1);
			int c = r.i(0, 19);
			put(a, v);
			put(a, q);
			if(c < 11) { a.push_back(r.i(0, 5)); s.ops.push_back(Op("MOVE", t, a)); }
			else if(c < 13) s.ops.push_back(Op("PORI", t, a));
			else if(c < 15) { a.push_back(r.i(0, 3)); s.ops.push_back(Op("PSET", t, a)); }
			else if(c < 16) s.ops.push_back(Op("PSELF", t, {a[0]}));
			else if(c < 17 && r.p(0.2)) { s.ops.push_back(Op("PBAD", t, {a[0], (double)r.i(0, 3)})); a.push_back(r.i(0, 3)); s.ops.push_back(Op("PSET", t, a)); }
			else if(c < 18) s.ops.push_back(Op("UNDO", t, {a[0], (double)r.i(1, 40)}));
			else s.ops.push_back(Op("PINV", t, a));
		}
		return s;
	}
	// body 0: a pose, 1: an agent, 2: an obstacle, 3: a state
	struct Bodies
	{
		doa::Pose p;
		std::unique_ptr<doa::Agent> a;
		std::shared_ptr<doa::Ellipsoid> o;
		doa::State s;
		Bodies() { Lib lib; a.reset(new doa::Agent(0.2)); o = std::make_shared<doa::Ellipsoid>("o"); }
		~Bodies() { Lib lib; a.reset(); o.reset(); }
		doa::Pose get(int i) { return i == 0 ? p : i == 1 ? a->get_pose() : i == 2 ? o->get_pose() : s.get_pose(); }
		void set(int i, const doa::Pose& x) { Lib lib; if(i == 0) p = x; else if(i == 1) a->set_pose(x); else if(i == 2) o->set_pose(x); else s.set_pose(x); }
	};
	static void exec18(const Scenario& sc, Ctx& c)
	{
		Bodies b;
		LP m[4];
		std::vector<std::pair<LP, bool>> past[4]; // increments (right or left composed) since the last absolute report
		std::vector<doa::Pose> incs[4];
		bool corrupt[4] = {false, false, false, false};
		int n = 0;
		double tol = 1e-9;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int i = ((op.in(0) % 4) + 4) % 4;
			Q q = q4(op, 4);
			if((op.k == "MOVE" || op.k == "PORI" || op.k == "PSET" || op.k == "PINV") && !(q.norm() > 1e-6)) continue;
			c.count("ops." + op.k);
			if(corrupt[i] && op.k != "PSET" && op.k != "PBAD") continue; // nobody navigates on a corrupted pose
			++n;
			if(op.k == "MOVE")
			{
				doa::Pose inc;
				{ Lib lib; inc = doa::Pose(v3(op, 1), q); }
				LP li = lp_of(v3(op, 1), q);
				std::string e = lp_err(inc, li, tol);
				if(!e.empty()) c.fail("pose.report", "a pose built from a report has " + e);
				bool left = false;
				switch(op.in(8) % 6)
				{
				case 0: { doa::Pose x = b.get(i); { Lib lib; x *= inc; } b.set(i, x); break; }
				case 1: { doa::Pose x = b.get(i), y; { Lib lib; y = x * inc; } b.set(i, y); if(lp_err(x, m[i], 1e-8) != "") c.fail("pose.operand", "composition changed its left operand"); break; }
				case 2: if(i == 1) { Lib lib; b.a->transform(inc); left = true; } else { doa::Pose x = b.get(i), y; { Lib lib; y = inc * x; } b.set(i, y); left = true; } break;
				case 3: if(i == 1) { Lib lib; doa::Agent y = b.a->transformed(inc); *b.a = y; left = true; } else { doa::Pose x = b.get(i); { Lib lib; x *= inc; } b.set(i, x); } break;
				case 4: { doa::Pose x = b.get(i), y; { Lib lib; y = x * inc.inverse().inverse(); } b.set(i, y); break; }
				default: { doa::Pose x = b.get(i); { Lib lib; x *= inc; x *= inc.inverse(); x *= inc; } b.set(i, x); break; }
				}
				e = lp_err(inc, li, tol);
				if(!e.empty()) c.fail("pose.operand", "composition changed its right operand: " + e);
				m[i] = left ? lp_mul(li, m[i]) : lp_mul(m[i], li);
				past[i].push_back({li, left});
				incs[i].push_back(inc);
			}
			else if(op.k == "UNDO")
			{
				// undo the last moves in reverse order with inverse increments
				int k = std::min<int>(op.in(1), (int)past[i].size());
				for(int j = 0; j < k; ++j)
				{
					doa::Pose x = b.get(i), y;
					{ Lib lib; doa::Pose v = incs[i].back().inverse(); y = past[i].back().second ? v * x : x * v; }
					b.set(i, y);
					LP li = lp_inv(past[i].back().first);
					m[i] = past[i].back().second ? lp_mul(li, m[i]) : lp_mul(m[i], li);
					past[i].pop_back();
					incs[i].pop_back();
				}
				if(k) c.count("probes.undo");
			}
			else if(op.k == "PBAD") // a corrupted reading, followed by an absolute report
			{
				double x = op.in(1) == 0 ? NAN : op.in(1) == 1 ? INFINITY : op.in(1) == 2 ? 0.0 : 1e200;
				{ Lib lib; doa::Pose bad(V(x, x, x), Q(x, x, x, x)); if(i == 0) b.p = bad; else if(i == 1) b.a->set_pose(bad); else if(i == 2) b.o->set_pose(bad); else b.s.set_pose(bad); }
				corrupt[i] = true;
				c.count("faults.corrupted_reading");
			}
			else if(op.k == "PORI") // a new orientation is reported
			{
				{ Lib lib; if(i == 0) b.p.set_orientation(q); else if(i == 1) b.a->set_orientation(q); else if(i == 2) b.o->set_orientation(q); else b.s.set_orientation(q); }
				LP l = lp_of(V(0, 0, 0), q);
				for(int j = 0; j < 4; ++j) m[i].q[j] = l.q[j];
				past[i].clear();
				incs[i].clear();
			}
			else if(op.k == "PSET") // an absolute pose is reported
			{
				V t = v3(op, 1);
				doa::Pose x;
				{
					Lib lib;
					switch(op.in(8) % 4)
					{
					case 0: x = doa::Pose(t, q); break;
					case 1: x = doa::Pose(t(0), t(1), t(2), q.w(), q.x(), q.y(), q.z()); break;
					case 2: x = doa::Pose(t); x.set_orientation(q); break;
					default: x = doa::Pose(0., 0., 0.); x.set_orientation(q); x.set_position(t(0), t(1), t(2)); break;
					}
				}
				b.set(i, x);
				corrupt[i] = false;
				m[i] = lp_of(t, q);
				past[i].clear();
				incs[i].clear();
			}
			else if(op.k == "PSELF") { doa::Pose x = b.get(i); { Lib lib; x *= x; } b.set(i, x); m[i] = lp_mul(m[i], m[i]); past[i].clear(); incs[i].clear(); double far_ = 0; for(int j = 0; j < 3; ++j) far_ = std::max(far_, std::fabs((double)m[i].t[j])); if(far_ > 1e4) { b.set(i, doa::Pose()); m[i] = LP(); } }
			else if(op.k == "PINV")
			{
				doa::Pose x = b.get(i), inv, id1, id2;
				V v = v3(op, 1), y;
				{ Lib lib; inv = x.inverse(); id1 = x * inv; id2 = inv * x; y = x * v; }
				double s = 1 + x.get_position().norm();
				std::string e = lp_err(id1, LP(), tol * s);
				if(e.empty()) e = lp_err(id2, LP(), tol * s);
				if(!e.empty()) c.fail("pose.inverse", "a pose composed with its inverse has " + e);
				e = lp_err(inv, lp_inv(m[i]), tol * 10);
				if(!e.empty()) c.fail("pose.inverse", "the inverse of a pose has " + e);
				long double lv[3] = {v(0), v(1), v(2)}, lo[3];
				lq_rot(m[i].q, lv, lo);
				for(int j = 0; j < 3; ++j) if(!(std::fabs(y(j) - (double)(lo[j] + m[i].t[j])) <= tol * 10 * (s + v.norm()))) c.fail("pose.point", fmt("point %s is moved to %s", vs(v).c_str(), vs(y).c_str()));
				c.count("probes.inverse");
			}
			else continue;
			for(int j = 0; j < 4; ++j)
			{
				if(corrupt[j]) continue;
				doa::Pose x = b.get(j);
				std::string e = lp_err(x, m[j], tol * (1 + 1e-3 * n));
				if(!e.empty()) c.fail("pose.drift", fmt("after %d operations (%s) body %d has %s", n, op.k.c_str(), j, e.c_str()));
			}
			doa::Pose x = b.get(i);
			c.ev("pose", {x.get_position()(0), x.get_position()(1), x.get_position()(2), x.get_orientation().w(), x.get_orientation().x(), x.get_orientation().y(), x.get_orientation().z()});
		}
		c.nontrivial = n >= 5;
	}
	static Register r18({"C18", "missions of up to several thousand odometry increments, relocalisations and badly scaled orientation reports on a pose, a state, an agent and an obstacle, with moves undone in reverse order; compared with rigid motions in extended precision after every operation; non-trivial = at least 5 operations", 80000, 1500000, gen18, exec18});

	// ---------------------------------------------------------------- C21
	static Scenario gen21(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H;
		H.nenv = 1;
		H.nag = r.i(1, 2);
		H.g.nobs = r.i(1, big ? 9 : 7);
		H.g.area = r.pick(std::vector<double>{1.5, 3.0, 5.0});
		H.g.moving = true;
		H.g.zvar = r.p(0.15);
		H.g.margin = r.pick(std::vector<double>{0, 0.3, 0.6});
		if(r.p(0.25)) { H.g.size_lo = 0.05; H.g.size_hi = 2.5; }
		H.seconds = r.u(0.5, big ? 4 : 2);
		H.cmds = r.p(0.3);
		s.ops = gen_history(r, H);
		if(r.p(0.25))
		{
			// a ring of overlapping obstacles, perhaps with a door
			s.ops.clear();
			s.ops.push_back(Op("ENV", 0, {0, 1}));
			double R = r.u(1.5, 3), a = r.u(0.35, 0.8);
			int n = (int)std::ceil(2 * M_PI * R / (1.5 * a));
			double phase = r.u(-M_PI, M_PI);
			bool door = r.p(0.5);
			V c0 = gen_vec(r, 2, true);
			for(int i = door ? 2 : 0; i < n; ++i)
			{
				GenOpt g;
				g.size_lo = g.size_hi = a;
				g.margin = 0;
				s.ops.push_back(gen_obs_at(r, g, i, fmt("w%02d", i), 0.001 * i, V(c0(0) + R * cos(phase + 2 * M_PI * i / n), c0(1) + R * sin(phase + 2 * M_PI * i / n), 0)));
				s.ops.push_back(Op("ADD", 0.001 * i + 0.0005, {0, (double)i}));
			}
			s.ops.push_back(gen_agent(r, 0, 0.5, V(c0 + gen_vec(r, 0.5, true)), gen_vec(r, 1, true), 0.1));
			s.ops.push_back(Op("UPD", 0.6, {0}));
			s.par["ring"] = 1;
		}
		s.par["probe_seed"] = r.i(1, 1 << 30);
		return s;
	}
	static Tri closed_of(const std::vector<OM>& ms, const V& ref)
	{
		// shortest radius seen from the reference point
		int gap = 0, longest = 0;
		double lo = 1e300;
		const int N = 720;
		for(int k = 0; k < 2 * N; ++k)
		{
			Radial R = radial(ms, ref, -M_PI + 2 * M_PI * (k % N) / N);
			if(!R.hit || R.far_ < 0.55) { ++gap; longest = std::max(longest, gap); if(k < N) lo = 0; }
			else { gap = 0; if(k < N) lo = std::min(lo, R.far_); }
		}
		if(longest >= 12) return NO; // a gap of 6 degrees
		if(lo > 0.7) return YES;
		return MAYBE;
	}
	static void probe21(World& w, Ctx& c, Rng& pr, int k)
	{
		Env& e = *w.env[k];
		std::vector<int> hs;
		for(auto& o : w.om) if(o.second.yaw_only()) hs.push_back(o.first);
		auto point = [&]() { if(hs.empty() || pr.p(0.2)) return gen_vec(pr, 5, true); const OM& o = w.om[pr.pick(hs)]; return V(o.p + gen_vec(pr, 1.6 * (o.ax + o.mg).maxCoeff(), true)); };
		// is this point inside
		for(int h : hs)
		{
			V x = pr.p(0.5) ? V(w.om[h].p + gen_vec(pr, 1.3 * (w.om[h].ax + w.om[h].mg).maxCoeff(), true)) : point();
			Tri t = tri_inside(w.om[h], x);
			bool got;
			{ Lib lib; got = w.obs[h]->point_is_inside(x); }
			if(t != MAYBE && got != (t == YES)) c.fail("query.inside", fmt("point %s is %s obstacle '%s' (centre %s, axes with margin %s), but reported otherwise", vs(x).c_str(), t == YES ? "inside" : "outside of", w.om[h].name.c_str(), vs(w.om[h].p).c_str(), vs(V(w.om[h].len())).c_str()));
			c.ev("in", {(double)h, (double)got});
		}
		// do these overlap
		for(int n = 0; n < 3 && hs.size() >= 2; ++n)
		{
			int a = pr.pick(hs), b = pr.pick(hs);
			Tri t = tri_overlap(e2_of(w.om[a]), e2_of(w.om[b]));
			bool got;
			{ Lib lib; got = w.obs[a]->is_intersecting(*w.obs[b]); }
			if(t != MAYBE && got != (t == YES)) c.fail("query.overlap", fmt("'%s' and '%s' %s, but reported otherwise", w.om[a].name.c_str(), w.om[b].name.c_str(), t == YES ? "overlap" : "are apart"));
			c.ev("ov", {(double)a, (double)b, (double)got});
			if(t == YES) c.count("probes.overlapping_pair");
		}
		auto members = [&](const Item& it) { std::vector<OM> v; for(int h : it.agg() ? it.mem : std::vector<int>{it.h}) if(w.om.count(h)) v.push_back(w.om[h]); return v; };
		bool sane = true;
		for(auto& it : e.pub) for(auto& m : members(it)) if(!m.yaw_only()) sane = false;
		if(!sane) return;
		for(auto& kv : w.ag)
		{
			const AM& m = w.am[kv.first];
			doa::Agent& a = *kv.second;
			Tri any = NO;
			for(auto& it : e.pub)
			{
				// is the agent in this obstacle
				Tri t = NO, te = NO;
				for(auto& o : members(it))
				{
					Tri x = tri_overlap(e2_disc(m), e2_of(o));
					if(x == YES) t = YES; else if(x == MAYBE && t == NO) t = MAYBE;
					x = tri_overlap(e2_envelope(m), e2_of(o));
					if(x == YES) te = YES; else if(x == MAYBE && te == NO) te = MAYBE;
				}
				bool got, gote;
				{ Lib lib; got = a.in_obstacle(*it.ptr); gote = a.get_envelope().is_intersecting(*it.ptr); }
				if(t != MAYBE && got != (t == YES)) c.fail("query.in-obstacle", fmt("the agent at %s (margin %.9g) %s '%s', but reported otherwise", vs(m.p).c_str(), m.m, t == YES ? "touches" : "is clear of", it.name.c_str()));
				bool vertical = std::hypot(m.u(0), m.u(1)) < 1e-6 * m.u.norm();
				if(!vertical && te != MAYBE && gote != (te == YES)) c.fail("query.envelope", fmt("the look-ahead envelope of the agent at %s %s '%s', but reported otherwise", vs(m.p).c_str(), te == YES ? "touches" : "is clear of", it.name.c_str()));
				if(t == YES) c.count("probes.agent_in_obstacle");
				if(te == YES) any = YES; else if(te == MAYBE && any == NO) any = MAYBE;
				c.ev("io", {(double)got, (double)gote});
			}
			{
				bool got;
				{ Lib lib; got = a.get_envelope().is_intersecting(w.E(k).get_obstacle_list()); }
				bool vertical = std::hypot(m.u(0), m.u(1)) < 1e-6 * m.u.norm();
				if(!vertical && any != MAYBE && got != (any == YES)) c.fail("query.envelope", fmt("the look-ahead envelope %s a published obstacle, but reported otherwise", any == YES ? "touches" : "touches not"));
			}
			// does a path exist
			for(int n = 0; n < 3; ++n)
			{
				V x = point();
				bool sure = true, path = true;
				for(auto& it : e.pub)
				{
					Tri ia, ix, cl;
					if(!it.agg()) { if(it.h < 0) { sure = false; continue; } ia = tri_inside(w.om[it.h], m.p); ix = tri_inside(w.om[it.h], x); cl = YES; }
					else
					{
						// a cluster's own answers (their agreement with the members is C23)
						Lib lib;
						ia = it.ptr->point_is_inside(m.p) ? YES : NO;
						ix = it.ptr->point_is_inside(x) ? YES : NO;
						cl = it.ptr->is_closed() ? YES : NO;
					}
					if(cl == NO) continue;
					if(ia == MAYBE || ix == MAYBE) sure = false;
					else if(ia != ix) path = false;
				}
				bool got;
				{ Lib lib; got = a.exist_path(x, w.E(k).get_obstacle_list()); }
				if(sure && got != path) c.fail("query.path", fmt("a path from %s to %s %s, but reported otherwise", vs(m.p).c_str(), vs(x).c_str(), path ? "exists" : "does not exist"));
				if(!path) c.count("probes.no_path");
				c.ev("path", {(double)got});
			}
		}
		// is this cluster closed
		for(auto& it : e.pub)
		{
			bool got;
			{ Lib lib; got = it.ptr->is_closed(); }
			if(!it.agg()) { if(!got) c.fail("query.closed", "an obstacle on its own is reported open"); continue; }
			std::vector<OM> ms = members(it);
			// a cluster contains what its members contain, at any height and close to the outlines too
			for(int n = 0; n < 4; ++n)
			{
				const OM& m = ms[pr.next() % ms.size()];
				double t = pr.u(-M_PI, M_PI), f = pr.p(0.5) ? 1 - std::pow(10.0, pr.u(-4, -1)) : pr.u(0, 1);
				A3 l = m.len();
				V x = m.p + m.q * V(f * l(0) * cos(t), f * l(1) * sin(t), 0);
				if(pr.p(0.4)) x(2) += pr.u(-6, 6);
				if(tri_inside(m, x) != YES) continue;
				bool in;
				{ Lib lib; in = it.ptr->point_is_inside(x); }
				c.ev("member", {(double)in});
				c.count("probes.point_in_member");
				if(!in) c.fail("query.cluster-inside", fmt("point %s is inside '%s', a member of cluster '%s', but reported outside of the cluster", vs(x).c_str(), m.name.c_str(), it.name.c_str()));
			}
			V ref = it.ptr->get_reference_position();
			bool flat = true; // the distance to the reference point is measured in space
			for(auto& m : ms) flat = flat && std::fabs(m.p(2) - ref(2)) < 1e-9;
			Tri t = flat ? closed_of(ms, ref) : MAYBE;
			if(t != MAYBE && got != (t == YES)) c.fail("query.closed", fmt("cluster '%s' is %s, but reported otherwise", it.name.c_str(), t == YES ? "closed" : "open"));
			if(t == YES) c.count("probes.closed_cluster");
			if(t == NO) c.count("probes.open_cluster");
			c.ev("closed", {(double)got});
		}
	}
	static void exec21(const Scenario& sc, Ctx& c)
	{
		World w(c);
		Rng pr((uint64_t)sc.get("probe_seed", 1));
		int n = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(op.k == "ADD") { int h = op.in(1); if(w.has_env(k) && w.has_obs(h) && !w.env[k]->reg.count(w.om[h].name)) { Lib lib; w.E(k).add_obstacle(w.obs[h]); w.env[k]->reg[w.om[h].name] = h; } continue; }
			if(op.k == "RM") { if(w.has_env(k) && w.env[k]->reg.count(op.str(0))) { Lib lib; w.E(k).remove_obstacle(op.str(0)); w.env[k]->reg.erase(op.str(0)); } continue; }
			if(op.k == "UPD") { if(w.has_env(k)) { w.refresh(k); probe21(w, c, pr, k); ++n; } continue; }
			if(op.k == "CMD") { if(w.has_ag(k) && w.has_env(op.in(1))) w.command(k, op.in(1), op.in(2), op.in(3), false, 1, 2); continue; }
			w.apply(op);
		}
		c.nontrivial = n >= 1 && !w.om.empty();
	}
	static Register r21({"C21", "missions with moving obstacles and agents, thin walls and rings with and without a door; after every refresh random and boundary-near points, pairs, agents and targets are queried and judged by a plane geometry oracle; non-trivial = at least one refresh with obstacles", 4000, 300000, gen21, exec21});

	// ---------------------------------------------------------------- C24
	static std::vector<double> numbers(const std::string& t)
	{
		std::vector<double> r;
		size_t i = 0;
		while(i < t.size())
		{
			char ch = t[i];
			bool start = isdigit((unsigned char)ch) || ((ch == '-' || ch == '+' || ch == '.') && i + 1 < t.size() && (isdigit((unsigned char)t[i + 1]) || t[i + 1] == '.'));
			char prev = i ? t[i - 1] : ' ';
			if(start && !isalnum((unsigned char)prev) && prev != '_')
			{
				char* end;
				double v = strtod(t.c_str() + i, &end);
				size_t e = end - t.c_str();
				if(e > i && !(e < t.size() && (isalpha((unsigned char)t[e]) || t[e] == '_'))) r.push_back(v);
				i = std::max(e, i + 1);
			}
			else ++i;
		}
		return r;
	}
	static bool has_run(const std::vector<double>& all, const std::vector<double>& want, double tol)
	{
		for(size_t i = 0; i + want.size() <= all.size(); ++i)
		{
			bool ok = true;
			for(size_t j = 0; j < want.size() && ok; ++j) ok = std::fabs(all[i + j] - want[j]) <= tol * (1 + std::fabs(want[j]));
			if(ok) return true;
		}
		return false;
	}
	static int words(const std::string& t, const std::string& w)
	{
		int n = 0;
		for(size_t i = t.find(w); i != std::string::npos; i = t.find(w, i + 1))
		{
			char p = i ? t[i - 1] : ' ', q = i + w.size() < t.size() ? t[i + w.size()] : ' ';
			if(!isalnum((unsigned char)p) && p != '_' && !isalnum((unsigned char)q) && q != '_') ++n;
		}
		return n;
	}
	// device with its own storage that fails after a number of characters
	struct TextBuf : std::streambuf
	{
		long left;
		int how; // 0 refuse, 1 throw
		char* mem_;
		size_t n = 0, cap = 1 << 17;
		TextBuf(long left = 1 << 17, int how = 0) : left(left), how(how) { mem_ = new char[cap]; }
		~TextBuf() override { delete[] mem_; }
		int overflow(int ch) override
		{
			if(ch == EOF) return 0;
			if(left <= 0 || n >= cap) { if(how) throw std::runtime_error("stream device failed"); return EOF; }
			--left;
			mem_[n++] = (char)ch;
			return ch;
		}
		std::string text() const { return std::string(mem_, n); }
	};
	static Scenario gen24(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H;
		H.nenv = 1;
		H.nag = r.i(1, 2);
		H.g.nobs = r.i(1, big ? 6 : 4);
		H.g.planar = r.p(0.7);
		H.g.area = r.pick(std::vector<double>{1.0, 2.0, 5.0});
		H.g.moving = true;
		H.g.curv = r.p(0.3);
		H.g.refs = true;
		H.same_names = false;
		H.drop = H.dup = 0;
		H.seconds = r.u(0.3, 1);
		std::vector<Op> h = gen_history(r, H);
		std::vector<int> known;
		std::vector<std::string> names = {"x", "renamed", "one_with_a_long_name_that_needs_memory"};
		bool rename = r.p(0.3);
		for(auto& op : h)
		{
			if(op.k == "OBS") { known.push_back(op.in(0)); names.push_back(op.str(0)); }
			// owners rename their obstacles, several may have the same name
			if(rename && op.k == "UPD" && !known.empty() && r.p(0.2))
			{
				std::string n = r.pick(names);
				for(int i = r.i(1, 4); i > 0; --i) s.ops.push_back(Op("RN", op.t, {(double)r.pick(known)}, {n}));
			}
			s.ops.push_back(op);
			// the observer prints something, on a good or a bad stream
			if(r.p(op.k == "UPD" ? 0.8 : 0.15))
				s.ops.push_back(Op("PRINT", op.t, {(double)r.i(0, 5), (double)r.i(0, 9), (double)r.i(0, 3), r.p(0.5) ? (double)r.i(0, 60) : (double)r.i(0, 2000), (double)r.pick(std::vector<int>{6, 9, 17})}));
		}
		return s;
	}
	struct Want { std::string what; std::vector<double> v; };
	static void want_pose(std::vector<Want>& w, const V& p, const Q& q)
	{
		w.push_back({"position", {p(0), p(1), p(2)}});
		w.push_back({"orientation", {q.w(), q.x(), q.y(), q.z()}});
	}
	static void want_om(std::vector<Want>& w, const OM& o)
	{
		want_pose(w, o.p, o.q);
		w.push_back({"linear velocity", {o.lin(0), o.lin(1), o.lin(2)}});
		w.push_back({"angular velocity", {o.ang(0), o.ang(1), o.ang(2)}});
		w.push_back({"reference point", {o.ref(0), o.ref(1), o.ref(2)}});
		w.push_back({"margin", {o.mg(0), o.mg(1), o.mg(2)}});
		w.push_back({"axis lengths", {o.ax(0), o.ax(1), o.ax(2)}});
		w.push_back({"curvature", {o.cv(0), o.cv(1), o.cv(2)}});
	}
	static void exec24(const Scenario& sc, Ctx& c)
	{
		World w(c);
		int prints = 0, broken = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(op.k == "RN") { if(w.has_obs(k)) { { Lib lib; w.obs[k]->set_name(op.str(0)); } w.om[k].name = op.str(0); c.count("probes.renamed"); } continue; }
			if(op.k == "ADD" && w.has_env(k)) { bool in = false; for(auto& kv : w.env[k]->reg) in = in || kv.second == op.in(1); if(in) continue; }
			if(op.k == "ADD") { int h = op.in(1); if(w.has_env(k) && w.has_obs(h) && !w.env[k]->reg.count(w.om[h].name)) { Lib lib; w.E(k).add_obstacle(w.obs[h]); w.env[k]->reg[w.om[h].name] = h; } continue; }
			if(op.k == "RM") { if(w.has_env(k) && w.env[k]->reg.count(op.str(0))) { Lib lib; w.E(k).remove_obstacle(op.str(0)); w.env[k]->reg.erase(op.str(0)); } continue; }
			if(op.k == "UPD") { if(w.has_env(k)) w.refresh(k); continue; }
			if(op.k != "PRINT") { w.apply(op); continue; }
			// choose the object
			int what = op.in(0), which = op.in(1), how = op.in(2);
			std::function<std::ostream&(std::ostream&)> pr;
			std::vector<Want> want;
			std::vector<std::string> names;
			std::function<Obs()> seen;
			if(what <= 2 && !w.ag.empty())
			{
				auto it = w.ag.begin();
				std::advance(it, which % w.ag.size());
				doa::Agent* a = it->second.get();
				const AM& m = w.am[it->first];
				want_pose(want, m.p, m.q);
				if(what != 1) { want.push_back({"linear velocity", {m.u(0), m.u(1), m.u(2)}}); want.push_back({"angular velocity", {m.w(0), m.w(1), m.w(2)}}); }
				if(what == 0) { want.push_back({"margin", {m.m}}); pr = [a](std::ostream& os) -> std::ostream& { return os << *a; }; }
				else if(what == 1) pr = [a](std::ostream& os) -> std::ostream& { doa::Pose p = a->get_pose(); return os << p; };
				else pr = [a](std::ostream& os) -> std::ostream& { doa::State p = a->get_state(); return os << p; };
				seen = [a]() { return see(*a); };
			}
			else
			{
				if(!w.has_env(0) || w.env[0]->pub.empty()) continue;
				std::vector<Item>& pub = w.env[0]->pub;
				const Item* it = &pub[which % pub.size()];
				if(what == 5) for(auto& x : pub) if(x.agg()) it = &x; // clusters are rarer
				doa::Obstacle* o = it->ptr.get();
				bool known = true;
				for(int h : it->agg() ? it->mem : std::vector<int>{it->h}) { if(!w.om.count(h)) known = false; else { want_om(want, w.om[h]); names.push_back(w.om[h].name); } }
				if(!known) continue;
				if(it->agg())
				{
					V p = o->get_position(), r = o->get_reference_position();
					want.push_back({"cluster position", {p(0), p(1), p(2)}});
					want.push_back({"cluster reference point", {r(0), r(1), r(2)}});
					names.push_back(it->name);
					c.count("probes.cluster_printed");
				}
				pr = [o](std::ostream& os) -> std::ostream& { return os << *o; };
				std::vector<int> mem = it->mem;
				int self = it->h;
				seen = [o, mem, self, &w]() {
					Obs r;
					put(r, V(o->get_position())); put(r, Q(o->get_orientation())); put(r, V(o->get_reference_position())); put(r, A3(o->get_safety_margin()));
					std::vector<int> l = mem;
					if(self >= 0) l.push_back(self);
					for(int h : l) { auto& e = *w.obs[h]; put(r, V(e.get_position())); put(r, Q(e.get_orientation())); put(r, V(e.get_linear_velocity())); put(r, V(e.get_angular_velocity())); put(r, V(e.get_reference_position())); put(r, A3(e.get_axis_lengths())); put(r, A3(e.get_safety_margin())); put(r, A3(e.get_curvature_factor())); r.push_back((double)e.get_name().size()); }
					return r;
				};
			}
			int prec = std::max(1, op.in(4, 6));
			auto full = [&](bool& same) {
				TextBuf tb;
				std::ostream os(&tb);
				os.precision(prec);
				std::ostream* back;
				{ Lib lib; back = &pr(os); }
				same = back == &os && os.good();
				return tb.text();
			};
			Obs before = seen();
			bool same;
			std::string text = full(same);
			if(!same) c.fail("print.stream", "printing does not return the stream it was given");
			++prints;
			c.evs("text", text);
			if(!same_bits(before, seen())) c.fail("print.changes", "printing changed the object");
			std::vector<double> nums = numbers(text);
			double tol = prec >= 17 ? 1e-9 : prec >= 9 ? 1e-6 : 2e-5;
			for(auto& x : want)
			{
				std::vector<double> neg = x.v;
				for(auto& d : neg) d = -d;
				if(!has_run(nums, x.v, tol) && !(x.what == "orientation" && has_run(nums, neg, tol))) c.fail("print.missing", fmt("the printed text does not show the %s %s: %s", x.what.c_str(), vs(V(x.v[0], x.v.size() > 1 ? x.v[1] : 0, x.v.size() > 2 ? x.v[2] : 0)).c_str(), text.substr(0, 900).c_str()));
			}
			// a name may occur within another one
			auto expected = [&](const std::string& n) { int k = 0; for(auto& m : names) k += words(m, n); return k; };
			for(auto& n : names) if(words(text, n) != expected(n)) c.fail("print.name", fmt("the printed text names '%s' %d times: %s", n.c_str(), words(text, n), text.substr(0, 900).c_str()));
			// the same on a stream that fails after some characters, or while memory runs out
			if(how > 0)
			{
				uint64_t live0 = mem::live_blocks();
				bool threw = false, fired = false;
				if(how == 3)
				{
					uint64_t f0 = mem::failures();
					TextBuf tb;
					std::ostream os(&tb);
					{
						Lib lib;
						mem::fail_after(1 + op.in(3) % 8);
						try { pr(os); } catch(std::exception&) { threw = true; }
						mem::fail_after(0);
					}
					fired = mem::failures() > f0;
					if(fired) c.count("faults.allocation_refused_while_printing");
				}
				else
				{
					TextBuf fb(op.in(3) % (int)(text.size() + 1), how == 2);
					std::ostream os(&fb);
					os.precision(prec);
					if(how == 2) os.exceptions(std::ios::badbit);
					{
						Lib lib;
						try { pr(os); } catch(std::exception&) { threw = true; }
					}
					std::string got = fb.text();
					fired = got.size() < text.size();
					if(fired) c.count(how == 2 ? "faults.stream_throws" : "faults.stream_refuses");
					if(text.compare(0, got.size(), got) != 0) c.fail("print.partial", "the text written before the stream failed is not the beginning of the complete text");
					if(how == 2 && fired && !threw) c.fail("print.swallowed", "a stream that reports failures by exceptions failed, but the caller was not told");
				}
				broken += fired;
				if(!same_bits(before, seen())) c.fail("print.changes", "printing to a failing stream changed the object");
				if(mem::live_blocks() > live0) c.fail("print.leak", "printing to a failing stream leaks memory");
				bool s2;
				std::string again = full(s2);
				if(again != text) c.fail("print.later", "after a failed attempt the printed text differs: " + again.substr(0, 300));
			}
		}
		c.nontrivial = prints >= 1;
		(void)broken;
	}
	static Register r24({"C24", "histories of moving, sometimes renamed obstacles and agents during which agents, poses, states, obstacles and clusters are printed at three precisions, to streams that refuse or throw after a random number of characters and while allocations fail; non-trivial = something was printed", 10000, 600000, gen24, exec24});

	// ---------------------------------------------------------------- C19
	static Scenario gen19(Rng& r, bool big)
	{
		Scenario s;
		HistOpt H;
		H.nenv = 1;
		H.nag = 2;
		H.g.nobs = r.i(0, big ? 8 : 6);
		H.g.area = r.pick(std::vector<double>{1.5, 3.0, 6.0});
		H.g.moving = true;
		H.g.zvar = r.p(0.5);
		H.g.refs = true;
		H.seconds = r.u(0.2, 0.6);
		H.drop = H.dup = 0;
		if(H.g.nobs == 0) { s.ops.push_back(Op("ENV", 0, {0, 1})); for(int i = 0; i < 2; ++i) { V p = gen_vec(r, 3, false); s.ops.push_back(gen_agent(r, i, 0, p, gen_vec(r, 1, false), 0.1)); } s.ops.push_back(Op("UPD", 0.05, {0})); }
		else s.ops = gen_history(r, H);
		// an obstacle without a name is an obstacle as well
		if(r.p(0.2))
		{
			std::vector<std::string> nm;
			for(auto& op : s.ops) if(op.k == "OBS") nm.push_back(op.str(0));
			if(!nm.empty())
			{
				std::string gone = r.pick(nm);
				for(auto& op : s.ops) if((op.k == "OBS" || op.k == "ADD" || op.k == "RM") && !op.s.empty() && op.s[0] == gone) op.s[0] = "";
			}
		}
		std::vector<Op> out;
		for(auto& op : s.ops)
		{
			out.push_back(op);
			if(op.k == "UPD" && r.p(0.5))
			{
				// PLOT which save show 3d fail  goal(3) n points...
				std::vector<double> a = {(double)r.i(0, 2), (double)r.i(0, 1), (double)r.i(0, 1), (double)r.i(0, 1), r.p(0.5) ? 0.0 : (double)r.i(1, 60)};
				put(a, gen_vec(r, 6, false));
				int n = r.p(0.1) ? r.i(0, 1) : r.p(0.05) ? (r.p(0.5) ? r.i(100, 400) : r.i(400, 3000)) : r.i(2, 25);
				V at = gen_vec(r, 6, false);
				double stride = r.pick(std::vector<double>{0.0, 1e-3, 0.05, 6}); // also slow and resting agents
				for(int i = 0; i < n; ++i) { at = stride > 5 ? gen_vec(r, 6, false) : V(at + gen_vec(r, stride, false)); put(a, at); }
				out.push_back(Op("PLOT", op.t, a, {r.pick(std::vector<std::string>{"run", "a.b", "trial_7", "xz"})}));
			}
		}
		s.ops = out;
		return s;
	}
	typedef std::vector<simplot::Call> Calls;
	static bool single(const simplot::Call& k) { return k.fn == "plot" && k.x.size() == 1 && k.y.size() == 1; }
	static bool solid(const std::string& f) { return f.find('-') != std::string::npos && f.find("--") == std::string::npos; }
	static bool dashed(const std::string& f) { return f.find("--") != std::string::npos; }
	// does this curve trace the outline of the body (with margin if asked) in the given plane
	static bool traces(const simplot::Call& k, const OM& o, bool margin, bool xz)
	{
		size_t n = k.x.size();
		if(k.fn != "plot" || n < 20 || k.y.size() != n) return false;
		A3 l = margin ? A3(o.ax + o.mg) : o.ax;
		double tol = 1e-6;
		if(std::hypot(k.x[0] - k.x[n - 1], k.y[0] - k.y[n - 1]) > 0.02 * l.maxCoeff()) return false; // closed
		double yaw = o.yaw(), c = cos(yaw), s = sin(yaw);
		std::vector<double> ang;
		double zlo = 1e300, zhi = -1e300, xr = 0;
		double silh = std::sqrt(l(0) * l(0) * c * c + l(1) * l(1) * s * s);
		for(size_t i = 0; i < n; ++i)
		{
			double dx = k.x[i] - o.p(0), dy = k.y[i] - o.p(xz ? 2 : 1);
			if(!xz)
			{
				double u = (c * dx + s * dy) / l(0), v = (-s * dx + c * dy) / l(1);
				if(std::fabs(u * u + v * v - 1) > tol) return false;
				ang.push_back(std::atan2(v, u));
			}
			else
			{
				double u = dx / silh, v = dy / l(2);
				if(u * u + v * v > 1 + tol) return false;
				zlo = std::min(zlo, v);
				zhi = std::max(zhi, v);
				xr = std::max(xr, std::fabs(dx));
				// on the surface: the section along the long direction, or the silhouette
				double q = l(0) * std::fabs(c);
				double on1 = q > 1e-9 ? std::fabs(dx * dx / q / q + v * v - 1) : std::fabs(dx), on2 = std::fabs(u * u + v * v - 1);
				if(std::min(on1, on2) > 1e-5 && !(q <= 1e-6 && std::fabs(dx) < 1e-6)) return false;
			}
		}
		if(xz) return zlo < -0.98 && zhi > 0.98;
		std::sort(ang.begin(), ang.end());
		double gap = ang.front() + 2 * M_PI - ang.back();
		for(size_t i = 1; i < ang.size(); ++i) gap = std::max(gap, ang[i] - ang[i - 1]);
		return gap < 0.5;
	}
	static void judge_subplot(World& w, Ctx& c, const Calls& cs, bool xz, const std::vector<OM>& all, bool clusters, bool flat_clusters, const std::vector<V>& refs, const std::vector<V>& agents, bool mission, const V& goal, const std::vector<V>& traj)
	{
		const char* pl = xz ? "xz" : "xy";
		int b = xz ? 2 : 1;
		auto at = [&](const simplot::Call& k, const V& p) { return std::fabs(k.x[0] - p(0)) < 1e-9 * (1 + p.norm()) && std::fabs(k.y[0] - p(b)) < 1e-9 * (1 + p.norm()); };
		std::vector<int> used(cs.size(), 0);
		// obstacles of the same shape at the same place share their curves
		std::vector<std::vector<size_t>> bodies(cs.size()), margins(cs.size());
		for(size_t i = 0; i < cs.size(); ++i)
			for(size_t h = 0; h < all.size() && cs[i].fn == "plot"; ++h)
			{
				if(solid(cs[i].s) && traces(cs[i], all[h], false, xz)) { bodies[i].push_back(h); }
				if(dashed(cs[i].s) && traces(cs[i], all[h], true, xz)) { margins[i].push_back(h); }
			}
		for(size_t h = 0; h < all.size(); ++h)
		{
			const OM& o = all[h];
			std::set<size_t> sb, sm;
			int ns = 0, nd = 0, nn = 0, nr = 0;
			for(size_t i = 0; i < cs.size(); ++i)
			{
				const simplot::Call& k = cs[i];
				if(std::count(bodies[i].begin(), bodies[i].end(), h)) { ++ns; used[i] = 1; sb.insert(bodies[i].begin(), bodies[i].end()); }
				if(std::count(margins[i].begin(), margins[i].end(), h)) { ++nd; used[i] = 1; sm.insert(margins[i].begin(), margins[i].end()); }
				if(k.fn == "text" && k.s == o.name && at(k, o.p)) { ++nn; used[i] = 1; }
				// a mark stands for the name of an obstacle that has none
				if(o.name.empty() && single(k) && k.s.find('o') != std::string::npos && at(k, o.p)) { ++nn; used[i] = 1; }
				if(single(k) && k.s.find('x') != std::string::npos && at(k, o.ref)) { ++nr; used[i] = 1; }
			}
			if(ns != (int)std::max<size_t>(1, sb.size())) c.fail("plot.outline", fmt("%s: the body of '%s' is drawn %d times", pl, o.name.c_str(), ns));
			// the hulls of a cluster can trace the outline of a round member that hides the others
			int hulls = clusters && !refs.empty() ? 2 : 0;
			int margins_of = (int)std::max<size_t>(1, sm.size());
			if(nd < margins_of || nd > margins_of + hulls) c.fail("plot.margin", fmt("%s: the margin of '%s' is drawn %d times", pl, o.name.c_str(), nd));
			if(o.name.empty()) c.count("probes.nameless_plotted");
			if(o.name.empty() ? nn < 1 : nn != 1) c.fail("plot.name", fmt("%s: the name of '%s' is written %d times at its centre", pl, o.name.c_str(), nn));
			if(nr < 1) c.fail("plot.reference", fmt("%s: the reference point of '%s' is not marked", pl, o.name.c_str()));
		}
		for(auto& a : agents)
		{
			int n = 0;
			for(size_t i = 0; i < cs.size(); ++i) if(single(cs[i]) && cs[i].s.find('o') != std::string::npos && at(cs[i], a)) { ++n; used[i] = 1; }
			if(n < 1) c.fail("plot.agent", fmt("%s: the agent at %s is not shown", pl, vs(a).c_str()));
		}
		if(mission)
		{
			int n = 0, m = 0;
			for(size_t i = 0; i < cs.size(); ++i)
			{
				const simplot::Call& k = cs[i];
				if(single(k) && at(k, goal)) { ++n; used[i] = 1; }
				if(k.fn == "plot" && k.x.size() == traj.size() && k.y.size() == traj.size() && !used[i])
				{
					bool eq = true;
					for(size_t j = 0; j < traj.size() && eq; ++j) eq = k.x[j] == traj[j](0) && k.y[j] == traj[j](b);
					if(eq) { ++m; used[i] = 1; }
				}
			}
			if(n < 1) c.fail("plot.goal", fmt("%s: the goal %s is not shown", pl, vs(goal).c_str()));
			if(traj.size() >= 2 && m != 1) c.fail("plot.trajectory", fmt("%s: the trajectory of %zu points is drawn %d times", pl, traj.size(), m));
		}
		// nothing else pretends to be an obstacle, an agent or a name
		for(size_t i = 0; i < cs.size(); ++i)
		{
			const simplot::Call& k = cs[i];
			if(used[i]) continue;
			if(k.fn == "text") c.fail("plot.stray", fmt("%s: stray text '%s'", pl, k.s.c_str()));
			if(k.fn == "plot" && k.x.size() > 1 && solid(k.s)) c.fail("plot.stray", fmt("%s: a solid curve of %zu points starting at (%g, %g) belongs to nothing", pl, k.x.size(), k.x[0], k.y[0]));
			if(k.fn == "plot" && k.x.size() > 1 && !clusters) c.fail("plot.stray", fmt("%s: a curve of %zu points starting at (%g, %g) belongs to nothing", pl, k.x.size(), k.x[0], k.y[0]));
			if(single(k))
			{
				bool ok = false;
				for(auto& rf : refs) ok = ok || at(k, rf);
				if(!ok) c.fail("plot.stray", fmt("%s: a mark at (%g, %g) belongs to nothing", pl, k.x[0], k.y[0]));
			}
			// hulls of clusters lie in their horizontal plane
			if(k.fn == "plot" && k.x.size() > 1 && xz && flat_clusters)
			{
				bool ok = false;
				for(auto& rf : refs)
				{
					bool flat = true;
					for(double y : k.y) flat = flat && std::fabs(y - rf(2)) < 1e-6 * (1 + std::fabs(rf(2)));
					ok = ok || flat;
				}
				if(!ok) c.fail("plot.stray", "xz: the hull of a cluster is not in its plane");
			}
		}
		(void)w;
	}
	static void exec19(const Scenario& sc, Ctx& c)
	{
		World w(c);
		int plots = 0;
		for(auto& op : sc.ops)
		{
			c.simtime = op.t;
			int k = op.in(0);
			if(op.k == "ADD") { int h = op.in(1); if(w.has_env(k) && w.has_obs(h) && !w.env[k]->reg.count(w.om[h].name)) { Lib lib; w.E(k).add_obstacle(w.obs[h]); w.env[k]->reg[w.om[h].name] = h; } continue; }
			if(op.k == "RM") { if(w.has_env(k) && w.env[k]->reg.count(op.str(0))) { Lib lib; w.E(k).remove_obstacle(op.str(0)); w.env[k]->reg.erase(op.str(0)); } continue; }
			if(op.k == "UPD") { if(w.has_env(k)) w.refresh(k); continue; }
			if(op.k != "PLOT") { w.apply(op); continue; }
			if(!w.has_env(0) || !w.has_ag(0) || !w.has_ag(1) || op.a.size() < 8) continue;
			int which = op.in(0);
			bool save = op.n(1) != 0, show = op.n(2) != 0, threeD = op.n(3) != 0;
			long failat = op.in(4);
			V goal = v3(op, 5);
			std::vector<V> traj;
			for(size_t i = 8; i + 2 < op.a.size(); i += 3) traj.push_back(v3(op, i));
			std::string file = save ? (op.str(0).empty() ? "run" : op.str(0)) : "";
			// identical twins cannot be told apart on a plot
			std::vector<OM> all;
			std::vector<V> refs;
			bool clusters = false, flat = true, known = true;
			for(auto& it : w.env[0]->pub)
			{
				clusters |= it.agg();
				refs.push_back(it.ptr->get_reference_position());
				for(int h : it.agg() ? it.mem : std::vector<int>{it.h}) { if(!w.om.count(h)) known = false; else { all.push_back(w.om[h]); if(it.agg() && std::fabs(w.om[h].p(2) - refs.back()(2)) > 1e-9) flat = false; } }
			}
			for(size_t i = 0; i < all.size(); ++i)
				for(size_t j = i + 1; j < all.size(); ++j) if(close(all[i].p, all[j].p, 1e-3)) known = false;
			if(!known) continue;
			std::deque<V> hist(traj.begin(), traj.end());
			auto snapshot = [&]() {
				Obs r;
				for(auto& o : w.obs) { auto& e = *o.second; put(r, V(e.get_position())); put(r, Q(e.get_orientation())); put(r, V(e.get_linear_velocity())); put(r, V(e.get_angular_velocity())); put(r, V(e.get_reference_position())); put(r, A3(e.get_axis_lengths())); put(r, A3(e.get_safety_margin())); put(r, A3(e.get_curvature_factor())); }
				for(auto& a : w.ag) { Obs x = see(*a.second); r.insert(r.end(), x.begin(), x.end()); }
				for(auto& it : w.observe(0)) { r.push_back(it.h); r.push_back((double)it.mem.size()); put(r, V(it.ptr->get_position())); put(r, V(it.ptr->get_reference_position())); { Lib lib; r.push_back(static_cast<doa::Obstacle*>(it.ptr.get())->compute_distance_to_point(V(1.3, 0.4, 0), 0.1)); } }
				return r;
			};
			auto draw = [&]() {
				Lib lib;
				auto l = w.E(0).get_obstacle_list();
				if(which == 0) doa::PlottingTools::plot_configuration(w.A(0), l, goal, hist, file, show, threeD);
				else if(which == 1) doa::PlottingTools::plot_configuration(l, file, show, threeD);
				else doa::PlottingTools::plot_guard_configuration(w.A(0), w.A(1), l, goal, hist, file, show, threeD);
			};
			Obs before = snapshot();
			if(failat > 0)
			{
				plot::reset();
				plot::fail_at(failat);
				bool threw = false;
				try { draw(); } catch(std::exception&) { threw = true; }
				bool fired = plot::fired();
				plot::fail_at(0);
				if(fired) c.count("faults.plotting_device_failed");
				(void)threw;
				if(!same_bits(before, snapshot())) c.fail("plot.disturbs", "a plot that failed half way changed an obstacle, the environment or an agent");
			}
			plot::reset();
			draw();
			Calls cs = plot::calls();
			++plots;
			if(!same_bits(before, snapshot())) c.fail("plot.disturbs", "plotting changed an obstacle, the environment or an agent");
			for(auto& x : cs) { c.evs("plot", x.fn + " " + x.s); c.ev("x", x.x.data(), std::min<size_t>(3, x.x.size())); }
			// the subplots
			std::vector<Calls> subs(1);
			int saves = 0, shows = 0;
			std::string path;
			for(auto& x : cs)
			{
				if(x.fn == "subplot") { if(!subs.back().empty()) subs.push_back(Calls()); continue; }
				if(x.fn == "save") { ++saves; path = x.s; continue; }
				if(x.fn == "show") { ++shows; continue; }
				if(x.fn == "plot" || x.fn == "text") subs.back().push_back(x);
			}
			bool blank = all.empty() && which == 1;
			if(!blank && (int)subs.size() != (threeD ? 2 : 1)) c.fail("plot.subplots", fmt("%zu subplots instead of %d", subs.size(), threeD ? 2 : 1));
			std::vector<V> ags;
			if(which != 1) ags.push_back(w.am[0].p);
			if(which == 2) ags.push_back(w.am[1].p);
			if(!blank)
				for(size_t i = 0; i < subs.size(); ++i)
				{
					bool xz = i == 1 || (which == 2 && !threeD); // the guard is watched from the side
					judge_subplot(w, c, subs[i], xz, all, clusters, flat, refs, ags, which != 1, goal, traj);
				}
			if(saves != (save ? 1 : 0)) c.fail("plot.save", fmt("saved %d times, requested %d", saves, save ? 1 : 0));
			if(save)
			{
				size_t sl = path.rfind('/');
				std::string base = sl == std::string::npos ? path : path.substr(sl + 1);
				if(base != file && base.compare(0, file.size() + 1, file + ".") != 0) c.fail("plot.save", "saved as " + path + " instead of " + file);
			}
			if(shows != (show ? 1 : 0)) c.fail("plot.show", fmt("shown %d times, requested %d", shows, show ? 1 : 0));
			if(clusters) c.count("probes.cluster_plotted");
		}
		c.nontrivial = plots >= 1;
	}
	static Register r19({"C19", "situations reached by moving obstacle histories (clusters included) are plotted in all three ways, in one or two subplots, saved and shown or not, on a simulated device that fails at a random call; non-trivial = something was plotted", 6000, 300000, gen19, exec19});
}
