#include "world.hpp"
#include <algorithm>

namespace sim
{
	std::string vs(const V& v) { return fmt("(%.9g, %.9g, %.9g)", v(0), v(1), v(2)); }

	// ------------------------------------------------------------ geometry
	double gamma_of(const OM& o, const V& x, double am)
	{
		V f = to_frame(o, x);
		double s = 0;
		for(int i = 0; i < 3; ++i)
		{
			double l = o.ax(i) + o.mg(i) + am;
			double z = l > 1e-4 ? f(i) / l : f(i);
			s += std::pow(z * z, o.cv(i));
		}
		return s;
	}
	V normal_of(const OM& o, const V& x, double am)
	{
		V f = to_frame(o, x), g;
		for(int i = 0; i < 3; ++i)
		{
			double l = o.ax(i) + o.mg(i) + am;
			if(l <= 1e-4) l = 1;
			double z = f(i) / l;
			g(i) = 2 * o.cv(i) / l * (z < 0 ? -1 : 1) * std::pow(std::fabs(z), 2 * o.cv(i) - 1);
		}
		g = o.q * g;
		double n = g.norm();
		return n > 0 ? V(g / n) : V(V::Zero());
	}
	E2 e2_of(const OM& o, double s) { return E2{o.p(0), o.p(1), o.yaw(), s * (o.ax(0) + o.mg(0)), s * (o.ax(1) + o.mg(1))}; }
	E2 e2_envelope(const AM& a, double s)
	{
		double m = std::max(0.1, a.m), n = a.u.norm();
		V d = n > 0 ? V(a.u / n) : V(V::Zero());
		return E2{a.p(0) + 0.5 * d(0), a.p(1) + 0.5 * d(1), std::atan2(d(1), d(0)), s * (0.5 * d.norm() + m), s * m};
	}
	E2 e2_disc(const AM& a, double s) { double m = std::max(0.1, a.m); return E2{a.p(0), a.p(1), 0, s * m, s * m}; }
	static double e2_val(const E2& e, double x, double y)
	{
		double c = cos(e.yaw), s = sin(e.yaw), dx = x - e.cx, dy = y - e.cy;
		double px = (c * dx + s * dy) / e.a, py = (-s * dx + c * dy) / e.b;
		return px * px + py * py;
	}
	bool e2_in(const E2& e, double x, double y) { return e2_val(e, x, y) <= 1; }
	bool e2_overlap(const E2& a, const E2& b)
	{
		double D = std::hypot(a.cx - b.cx, a.cy - b.cy), ra = std::max(a.a, a.b), rb = std::max(b.a, b.b);
		if(D > ra + rb + 1e-9) return false;
		if(D < std::min(a.a, a.b) + std::min(b.a, b.b) - 1e-9) return true;
		if(e2_in(a, b.cx, b.cy) || e2_in(b, a.cx, a.cy)) return true;
		auto f = [&](double th) { double u = b.a * cos(th), v = b.b * sin(th), c = cos(b.yaw), s = sin(b.yaw); return e2_val(a, b.cx + c * u - s * v, b.cy + s * u + c * v); };
		const int N = 180;
		double h = 2 * M_PI / N;
		std::vector<double> val(N);
		for(int i = 0; i < N; ++i) { val[i] = f(i * h); if(val[i] <= 1) return true; }
		for(int i = 0; i < N; ++i)
		{
			if(val[i] > val[(i + N - 1) % N] || val[i] > val[(i + 1) % N]) continue;
			double lo = (i - 1) * h, hi = (i + 1) * h;
			for(int k = 0; k < 60; ++k)
			{
				double m1 = lo + (hi - lo) * 0.382, m2 = lo + (hi - lo) * 0.618;
				double f1 = f(m1), f2 = f(m2);
				if(f1 <= 1 || f2 <= 1) return true;
				if(f1 < f2) hi = m2; else lo = m1;
			}
		}
		return false;
	}
	Tri tri_overlap(const E2& a, const E2& b, double tol)
	{
		E2 as = a, bs = b, al = a, bl = b;
		as.a *= 1 - tol; as.b *= 1 - tol; bs.a *= 1 - tol; bs.b *= 1 - tol;
		al.a *= 1 + tol; al.b *= 1 + tol; bl.a *= 1 + tol; bl.b *= 1 + tol;
		if(e2_overlap(as, bs)) return YES;
		if(!e2_overlap(al, bl)) return NO;
		return MAYBE;
	}
	Tri tri_inside(const OM& o, const V& x, double tol)
	{
		double v = e2_val(e2_of(o), x(0), x(1));
		return v < 1 - tol ? YES : v > 1 + tol ? NO : MAYBE;
	}
	Radial radial(const std::vector<OM>& ms, const V& ref, double phi)
	{
		Radial R;
		double dx = cos(phi), dy = sin(phi);
		for(auto& o : ms)
		{
			E2 e = e2_of(o);
			double c = cos(e.yaw), s = sin(e.yaw);
			double px = (c * (ref(0) - e.cx) + s * (ref(1) - e.cy)) / e.a, py = (-s * (ref(0) - e.cx) + c * (ref(1) - e.cy)) / e.b;
			double vx = (c * dx + s * dy) / e.a, vy = (-s * dx + c * dy) / e.b;
			double A = vx * vx + vy * vy, B = px * vx + py * vy, C = px * px + py * py - 1, d = B * B - A * C;
			if(d < 0) continue;
			for(double sg : {-1.0, 1.0})
			{
				double t = (-B + sg * std::sqrt(d)) / A;
				if(t < -1e-9) continue;
				t = std::max(t, 0.0);
				R.hit = true;
				R.far_ = std::max(R.far_, t);
				R.near_ = std::min(R.near_, t);
				if(t > 1e-9) R.next_ = std::min(R.next_, t);
			}
		}
		return R;
	}

	// ------------------------------------------------------------ the modulation law
	View view_of(const OM& o, const V& x, double am)
	{
		View w;
		w.gamma = gamma_of(o, x, am);
		w.n = normal_of(o, x, am);
		w.r = x - o.ref;
		w.pos = o.p;
		w.lin = o.lin;
		w.ang = o.ang;
		w.rep = 2.0 / w.gamma * w.r;
		return w;
	}
	View view_of_aggregate(const doa::Obstacle& o, const doa::Agent& a, const AM& m)
	{
		View w;
		Lib lib;
		w.gamma = o.compute_distance_to_agent(a);
		w.n = o.compute_normal_to_agent(a);
		w.r = m.p - o.get_reference_position();
		w.pos = o.get_position();
		w.lin = o.get_linear_velocity();
		w.ang = o.get_angular_velocity();
		w.rep = 20.0 / w.gamma * w.r * (o.point_is_inside(m.p) ? -1.0 : 1.0);
		return w;
	}
	Law law(const V& x, const V& u, const std::vector<View>& obs, bool repulsion, double crit, double power)
	{
		Law L;
		if(obs.empty()) { L.v = u; return L; }
		size_t n = obs.size();
		// relative importance of the obstacles
		std::vector<double> w(n);
		double sum = 0;
		int touching = 0;
		// exactly at the critical distance the obstacle has all the weight, and nearly all of it just outside
		const double tie = 1e-9 * (1 + crit);
		int ties = 0;
		for(auto& o : obs)
		{
			if(std::fabs(o.gamma - crit) < tie) ++ties;
			if(o.gamma <= crit + tie) ++touching;
		}
		if(ties && touching > 1) { L.sure = false; L.why = "at the critical distance"; }
		if(ties == 1 && touching == 1 && n > 1)
			for(auto& o : obs) if(o.gamma > crit + tie && std::pow(tie / (o.gamma - crit), power) * (n - 1) > 1e-8) { L.sure = false; L.why = "at the critical distance"; }
		for(size_t i = 0; i < n; ++i)
		{
			w[i] = touching ? (obs[i].gamma <= crit + tie ? 1.0 : 0.0) : std::pow(obs[i].gamma - crit, -power);
			sum += w[i];
		}
		for(auto& k : w) k /= sum;
		// velocity of the surroundings
		V vo = V::Zero();
		for(size_t i = 0; i < n; ++i)
		{
			double e = std::exp(-(std::max(1.0, obs[i].gamma) - 1));
			vo += w[i] * e * (obs[i].lin + obs[i].ang.cross(x - obs[i].pos));
		}
		V vr = u - vo;
		double vrn = vr.norm();
		L.scale = u.norm() + vo.norm() + 1e-12;
		if(vrn < 1e-7 * L.scale && vrn > 0) { L.sure = false; L.why = "vanishing relative velocity"; }
		V hd = vrn > 0 ? V(vr / vrn) : V(V::Zero());
		V kappa = V::Zero();
		double mag = 0;
		for(size_t i = 0; i < n; ++i)
		{
			const View& o = obs[i];
			double rn = o.r.norm();
			if(!(rn > 1e-9)) { L.sure = false; L.why = "agent on the reference point"; continue; }
			V r = o.r / rn;
			double nr = o.n.dot(r);
			if(std::fabs(nr) < 0.02 || std::fabs(o.n.norm() - 1) > 1e-6) { L.sure = false; L.why = "reference direction along the surface"; continue; }
			double d = o.gamma <= 1 ? 1.0 : 1.0 / o.gamma;
			double al = o.n.dot(vr) / nr;      // component along the reference direction
			V tg = vr - al * r;                // component along the surface
			V m = (1 - d) * al * r + (1 + d) * tg;
			double mn = m.norm();
			mag += w[i] * mn;
			if(w[i] == 0) continue;
			if(mn < 1e-6 * vrn) { if(n > 1 && w[i] > 1e-9) { L.sure = false; L.why = "vanishing modulated velocity"; } continue; }
			V dir = m / mn;
			double cs = std::max(-1.0, std::min(1.0, dir.dot(hd)));
			V tn = dir - dir.dot(hd) * hd;
			double tnn = tn.norm();
			double ang = std::acos(cs);
			if(ang > M_PI - 1e-4) { L.sure = false; L.why = "reversal"; }
			if(tnn > 0) kappa += w[i] * ang * tn / tnn;
		}
		double k = kappa.norm();
		V dir = k < 1e-4 ? V(hd + kappa) : V(std::cos(k) * hd + std::sin(k) / k * kappa);
		L.v = mag * dir + vo;
		if(repulsion)
		{
			V rep = V::Zero();
			for(auto& o : obs)
			{
				if(std::fabs(o.gamma - 1.1) < 1e-9) { L.sure = false; L.why = "at the repulsion distance"; }
				if(o.gamma < 1.1) rep += o.rep;
			}
			if(std::fabs(rep.norm() - 1e-4) < 1e-9) { L.sure = false; L.why = "at the repulsion threshold"; }
			if(rep.norm() > 1e-4) { L.v += rep; L.scale += rep.norm(); }
		}
		if(!L.v.allFinite()) { L.v = V::Zero(); L.sure = false; L.why = "not finite"; }
		return L;
	}

	// ------------------------------------------------------------ world
	World::~World()
	{
		Lib lib;
		ag.clear();
		env.clear();
		obs.clear();
	}
	int World::handle(const doa::Obstacle* p) const
	{
		for(auto& o : obs) if(o.second.get() == p) return o.first;
		return -1;
	}
	// OBS h ctor p(3) q(4) lin(3) ang(3) ax(3) mg(3) cv(3) ref(3) useref "name"
	void World::make_obs(const Op& op)
	{
		int h = op.in(0), ctor = op.in(1) % 10;
		OM m;
		m.name = op.str(0);
		m.p = v3(op, 2);
		Q q = q4(op, 5);
		m.lin = v3(op, 9);
		m.ang = v3(op, 12);
		m.ax = raw ? a3(op, 15) : A3(a3(op, 15).max(0.02));
		m.mg = a3(op, 18);
		m.cv = a3(op, 21);
		V ref = v3(op, 24);
		bool useref = op.n(27) != 0;
		if(!(q.norm() > 1e-6)) q = Q(1, 0, 0, 0);
		double m0 = m.mg(0);
		std::shared_ptr<doa::Ellipsoid> e;
		{
			Lib lib;
			doa::State st(m.p, q, m.lin, m.ang);
			switch(ctor)
			{
			case 0: e = std::make_shared<doa::Ellipsoid>(m.name, m0); break;
			case 1: e = std::make_shared<doa::Ellipsoid>(m.name, m.mg); break;
			case 2: e = std::make_shared<doa::Ellipsoid>(m.name, m.p(0), m.p(1), m.p(2), m0); break;
			case 3: e = std::make_shared<doa::Ellipsoid>(m.name, m.p(0), m.p(1), m.p(2), m.mg); break;
			case 4: e = std::make_shared<doa::Ellipsoid>(m.name, st, m0); break;
			case 5: e = std::make_shared<doa::Ellipsoid>(m.name, st, m.mg); break;
			case 6: e = std::make_shared<doa::Ellipsoid>(m.name, st, ref, m0); break;
			case 7: e = std::make_shared<doa::Ellipsoid>(m.name, st, ref, m.mg); break;
			case 8: { doa::Ellipsoid tmp(m.name, st, m0); tmp.set_axis_lengths(m.ax); tmp.set_curvature_factor(m.cv); e = std::make_shared<doa::Ellipsoid>(tmp); break; }
			default: { doa::State s2(doa::Pose(m.p(0), m.p(1), m.p(2), q.w(), q.x(), q.y(), q.z())); s2.set_linear_velocity(m.lin); s2.set_angular_velocity(m.ang); e = std::make_shared<doa::Ellipsoid>(m.name, s2, m.mg); break; }
			}
			if(ctor < 4)
			{
				if(ctor < 2) e->set_position(m.p(0), m.p(1), m.p(2));
				e->set_orientation(q);
				e->set_linear_velocity(m.lin);
				e->set_angular_velocity(m.ang);
			}
			if(ctor != 8) { e->set_axis_lengths(m.ax); e->set_curvature_factor(m.cv); }
			if(useref && ctor != 6 && ctor != 7) e->set_reference_position(ref);
		}
		if(ctor == 0 || ctor == 2 || ctor == 4 || ctor == 6 || ctor == 8) m.mg = A3(m0, m0, m0);
		m.q = q.normalized();
		if(ctor == 6 || ctor == 7 || useref) m.ref = ref;
		else if(ctor < 2) m.ref = V::Zero();
		else m.ref = m.p;
		om[h] = m;
		{ Lib lib; obs[h] = e; }
	}
	bool World::apply(const Op& op)
	{
		const std::string& k = op.k;
		int i = op.in(0);
		c.count("ops." + k);
		if(k == "OBS") { make_obs(op); return true; }
		if(k == "ENV") { if(has_env(i)) c.count("faults.controller_restart"); std::unique_ptr<Env> n(new Env()); { Lib lib; n->e.reset(new doa::Environment(op.n(1) != 0)); env[i] = std::move(n); } env[i]->aggr = op.n(1) != 0; return true; }
		if(k == "AGG") { if(has_env(i)) { Lib lib; E(i).set_aggregated(op.n(1) != 0); env[i]->aggr = op.n(1) != 0; } return true; }
		// obstacle state
		if(k == "SP") { if(has_obs(i)) { Lib lib; if(op.in(4)) obs[i]->set_position(op.n(1), op.n(2), op.n(3)); else obs[i]->set_position(v3(op, 1)); om[i].p = v3(op, 1); } return true; }
		if(k == "SQ") { if(has_obs(i)) { Lib lib; obs[i]->set_orientation(q4(op, 1)); om[i].q = q4(op, 1).normalized(); } return true; }
		if(k == "SPOSE") { if(has_obs(i)) { Lib lib; obs[i]->set_pose(doa::Pose(v3(op, 1), q4(op, 4))); om[i].p = v3(op, 1); om[i].q = q4(op, 4).normalized(); } return true; }
		if(k == "SL") { if(has_obs(i)) { Lib lib; obs[i]->set_linear_velocity(v3(op, 1)); om[i].lin = v3(op, 1); } return true; }
		if(k == "SW") { if(has_obs(i)) { Lib lib; obs[i]->set_angular_velocity(v3(op, 1)); om[i].ang = v3(op, 1); } return true; }
		if(k == "SR") { if(has_obs(i)) { Lib lib; obs[i]->set_reference_position(v3(op, 1)); om[i].ref = v3(op, 1); } return true; }
		if(k == "SX") { if(has_obs(i)) { Lib lib; A3 ax = raw ? a3(op, 1) : A3(a3(op, 1).max(0.02)); obs[i]->set_axis_lengths(ax); om[i].ax = ax; } return true; }
		if(k == "SC") { if(has_obs(i)) { Lib lib; obs[i]->set_curvature_factor(a3(op, 1)); om[i].cv = a3(op, 1); } return true; }
		// agents: AG i ctor p(3) q(4) u(3) w(3) m
		if(k == "AG")
		{
			AM m;
			m.p = v3(op, 2);
			Q q = q4(op, 5);
			if(!(q.norm() > 1e-6)) q = Q(1, 0, 0, 0);
			m.q = q.normalized();
			m.u = v3(op, 9);
			m.w = v3(op, 12);
			m.m = op.n(15);
			Lib lib;
			std::unique_ptr<doa::Agent> a;
			if(op.in(1) % 3 == 0) { doa::State st(m.p, q, m.u, m.w); a.reset(new doa::Agent(st, m.m)); }
			else if(op.in(1) % 3 == 1) { a.reset(new doa::Agent(m.m)); a->set_pose(doa::Pose(m.p, q)); a->set_linear_velocity(m.u); a->set_angular_velocity(m.w); }
			else { doa::State st(m.p); a.reset(new doa::Agent(st)); a->set_orientation(q); a->set_angular_velocity(m.w); a->set_linear_velocity(m.u); a->set_safety_margin(m.m); }
			ag[i] = std::move(a);
			am[i] = m;
			return true;
		}
		if(k == "AP") { if(has_ag(i)) { Lib lib; A(i).set_position(v3(op, 1)); am[i].p = v3(op, 1); } return true; }
		if(k == "AQ") { if(has_ag(i)) { Lib lib; A(i).set_orientation(q4(op, 1)); am[i].q = q4(op, 1).normalized(); } return true; }
		if(k == "AV") { if(has_ag(i)) { Lib lib; A(i).set_linear_velocity(v3(op, 1)); am[i].u = v3(op, 1); } return true; }
		if(k == "AW") { if(has_ag(i)) { Lib lib; A(i).set_angular_velocity(v3(op, 1)); am[i].w = v3(op, 1); } return true; }
		if(k == "AM") { if(has_ag(i)) { Lib lib; A(i).set_safety_margin(op.n(1)); am[i].m = op.n(1); } return true; }
		if(k == "APOSE") { if(has_ag(i)) { Lib lib; A(i).set_pose(doa::Pose(v3(op, 1), q4(op, 4))); am[i].p = v3(op, 1); am[i].q = q4(op, 4).normalized(); } return true; }
		if(k == "ATR") // relocalisation of the agent
		{
			if(has_ag(i))
			{
				Lib lib;
				Q q = q4(op, 4).normalized();
				A(i).transform(doa::Pose(v3(op, 1), q));
				am[i].p = q * am[i].p + v3(op, 1);
				am[i].q = q * am[i].q;
			}
			return true;
		}
		if(k == "ACP") { int j = op.in(1); if(has_ag(i)) { Lib lib; std::unique_ptr<doa::Agent> a(new doa::Agent(A(i))); AM m = am[i]; ag[j] = std::move(a); am[j] = m; } return true; }
		if(k == "AAS") { int j = op.in(1); if(has_ag(i) && has_ag(j)) { Lib lib; A(j) = A(i); am[j] = am[i]; } return true; }
		if(k == "ATD") { int j = op.in(1); if(has_ag(i)) { Lib lib; Q q = q4(op, 5).normalized(); std::unique_ptr<doa::Agent> a(new doa::Agent(A(i).transformed(doa::Pose(v3(op, 2), q)))); AM m = am[i]; m.p = q * m.p + v3(op, 2); m.q = q * m.q; ag[j] = std::move(a); am[j] = m; } return true; }
		if(k == "ADEL") { if(has_ag(i)) { Lib lib; ag.erase(i); am.erase(i); } return true; }
		return false;
	}
	std::vector<Item> World::observe(int k)
	{
		std::vector<Item> r;
		for(auto& o : E(k).get_obstacle_list())
		{
			Item it;
			it.ptr = o;
			it.h = handle(o.get());
			it.name = o->get_name();
			if(o->get_type() == "Aggregate")
			{
				it.h = -1;
				for(auto& p : static_cast<doa::Aggregate&>(*o).get_primitives()) it.mem.push_back(handle(p.get()));
				std::sort(it.mem.begin(), it.mem.end());
			}
			r.push_back(it);
		}
		return r;
	}
	const std::vector<Item>& World::refresh(int k)
	{
		Env& e = *env[k];
		std::vector<Item> old = e.pub;
		{
			Lib lib;
			e.e->update();
		}
		// reference points: leaving a cluster gives the own centre back, joining one gives the mean of the centres
		for(auto& it : old)
		{
			if(!it.agg()) continue;
			V r = it.ptr->get_reference_position();
			for(int h : it.mem) if(om.count(h) && (om[h].ref - r).norm() <= 1e-9 * (1 + r.norm())) om[h].ref = om[h].p;
		}
		{ Lib lib; old.clear(); }
		std::vector<Item> now = observe(k);
		for(auto& it : now)
		{
			if(!it.agg()) continue;
			V mean = V::Zero();
			for(int h : it.mem) if(om.count(h)) mean += om[h].p;
			mean /= (double)it.mem.size();
			for(int h : it.mem) if(om.count(h)) om[h].ref = mean;
		}
		{ Lib lib; e.pub = now; }
		e.refreshed = true;
		return e.pub;
	}
	V World::command(int i, int k, bool local, bool rep, bool planar, double crit, double power)
	{
		Lib lib;
		return doa::Modulation::modulate_velocity(A(i), E(k), local, rep, planar, crit, power);
	}
	Law World::expect(int i, int k, bool rep, bool planar, double crit, double power)
	{
		std::vector<View> views;
		const AM& m = am[i];
		bool sure = true;
		std::string why;
		for(auto& it : env[k]->pub)
		{
			if(it.agg())
			{
				View w = view_of_aggregate(*it.ptr, A(i), m);
				// the observed geometry is a step function of the direction: no claim next to a step
				doa::Agent probe(A(i));
				for(double d : {1e-9, -1e-9})
				{
					AM pm = m;
					V off = V(-w.r(1), w.r(0), 0) * d;
					pm.p = m.p + off;
					probe.set_position(pm.p);
					View w2 = view_of_aggregate(*it.ptr, probe, pm);
					if((w2.n - w.n).norm() > 1e-6 || std::fabs(w2.gamma - w.gamma) > 1e-6 * (1 + std::fabs(w.gamma))) { sure = false; why = "edge of a facet"; }
				}
				views.push_back(w);
			}
			else
			{
				if(it.h < 0 || !om.count(it.h)) { sure = false; why = "unknown obstacle"; continue; }
				OM& o = om[it.h];
				if(planar)
				{
					// the reference point moves to the middle of the chord cut by the heading line
					V f = to_frame(o, m.p), d = o.q.conjugate() * m.u;
					double a = o.ax(0) + o.mg(0), b = o.ax(1) + o.mg(1);
					double A_ = d(0) * d(0) / a / a + d(1) * d(1) / b / b, B_ = f(0) * d(0) / a / a + f(1) * d(1) / b / b, C_ = f(0) * f(0) / a / a + f(1) * f(1) / b / b - 1;
					double D = B_ * B_ - A_ * C_;
					if(std::fabs(D) < 1e-9 * (A_ * (1 + std::fabs(C_)))) { sure = false; why = "grazing heading"; }
					if(A_ > 0 && D >= 0) { double t = -B_ / A_; V mid(f(0) + t * d(0), f(1) + t * d(1), 0); o.ref = o.q * mid + o.p; }
				}
				if(gamma_of(o, m.p, m.m) < 1e-9) { sure = false; why = "agent at the centre"; }
				views.push_back(view_of(o, m.p, m.m));
			}
		}
		Law L = law(m.p, m.u, views, rep, crit, power);
		if(!sure) { L.sure = false; L.why = why; }
		return L;
	}
	Tri World::local_active(int i, int k)
	{
		Tri any = NO;
		E2 e = e2_envelope(am[i]);
		for(auto& it : env[k]->pub)
		{
			std::vector<int> hs = it.agg() ? it.mem : std::vector<int>{it.h};
			for(int h : hs)
			{
				if(!om.count(h)) return MAYBE;
				Tri t = tri_overlap(e, e2_of(om[h]));
				if(t == YES) return YES;
				if(t == MAYBE) any = MAYBE;
			}
		}
		return any;
	}

	// ------------------------------------------------------------ generation
	V gen_vec(Rng& r, double s, bool planar) { double x = r.u(-s, s), y = r.u(-s, s), z = planar ? 0 : r.u(-s, s); return V(x, y, z); }
	Q gen_q(Rng& r, bool planar)
	{
		if(planar)
		{
			double t = r.p(0.15) ? r.i(-4, 4) * M_PI / 4 : r.p(0.1) ? r.u(-0.1, 0.1) : r.u(-M_PI, M_PI);
			Q q = yawq(t);
			if(r.p(0.15)) q.coeffs() *= -1; // the same rotation
			return q;
		}
		Q q(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
		if(!(q.norm() > 0.1)) q = Q(1, 0, 0, 0);
		return q.normalized();
	}
	V gen_pos(Rng& r, const GenOpt& g) { double x = r.u(-g.area, g.area), y = r.u(-g.area, g.area), z = (g.planar && !g.zvar) ? 0 : r.u(-0.5 * g.area, 0.5 * g.area); return V(x, y, z); }
	Op gen_obs(Rng& r, const GenOpt& g, int h, const std::string& name, double t) { V p = gen_pos(r, g); return gen_obs_at(r, g, h, name, t, p); }
	Op gen_obs_at(Rng& r, const GenOpt& g, int h, const std::string& name, double t, const V& p)
	{
		Op op("OBS", t, {}, {name});
		op.a = {(double)h, (double)r.i(0, 9)};
		put(op.a, p);
		Q q = gen_q(r, g.planar);
		double sc = r.p(0.2) ? r.u(0.2, 3) : 1; // reports are not always normalised
		put(op.a, Q(q.w() * sc, q.x() * sc, q.y() * sc, q.z() * sc));
		bool mv = g.moving && r.p(0.7);
		V lin = mv ? gen_vec(r, 0.6, g.planar) : V(V::Zero());
		V ang = mv ? (g.planar ? V(0, 0, r.u(-1, 1)) : gen_vec(r, 0.8, false)) : V(V::Zero());
		put(op.a, lin);
		put(op.a, ang);
		A3 ax(r.u(g.size_lo, g.size_hi), r.u(g.size_lo, g.size_hi), r.u(g.size_lo, g.size_hi));
		put(op.a, ax);
		A3 mg(r.u(0, g.margin), r.u(0, g.margin), r.u(0, g.margin));
		if(r.p(0.3)) mg = A3(0, 0, 0);
		put(op.a, mg);
		A3 cv(1, 1, 1);
		if(g.curv && r.p(0.6)) cv = A3(r.i(1, 3), r.i(1, 3), r.i(1, 3));
		put(op.a, cv);
		V loc(r.u(-.3, .3) * ax(0), r.u(-.3, .3) * ax(1), g.planar ? 0 : r.u(-.3, .3) * ax(2));
		V ref = g.refs && r.p(0.5) ? V(p + q * loc) : p;
		put(op.a, ref);
		op.a.push_back(1);
		return op;
	}
	Op gen_agent(Rng& r, int i, double t, const V& p, const V& u, double m)
	{
		Op op("AG", t);
		op.a = {(double)i, (double)r.i(0, 2)};
		put(op.a, p);
		put(op.a, gen_q(r, true));
		put(op.a, u);
		put(op.a, V(0, 0, r.u(-1, 1)));
		op.a.push_back(m);
		return op;
	}
	void sort_ops(std::vector<Op>& v)
	{
		std::stable_sort(v.begin(), v.end(), [](const Op& a, const Op& b) { return a.t < b.t; });
	}

	Channel& channel() { static Channel c; return c; }
	std::vector<Op> gen_history(Rng& r, const HistOpt& H0)
	{
		std::vector<Op> out;
		HistOpt H = H0;
		std::vector<std::string> names = {"a", "b", "c", "wall", "e2", "human_1", "aggregate", "z", "b1", "a_b"};
		// more and stranger names: other orders, longer than the small string buffers, names of clusters
		static const std::vector<std::string> more = {"B", "x10", "x9", "Z_", "aggregate_a_b", "a_rather_long_name_of_an_obstacle", "another_rather_long_name_of_an_obstacle", "human_10", "human_2", "aggregate_1", "A", "a ", "human 1", "Wall", "b_", "_a",
			"the_longest_name_that_anybody_has_ever_given_to_an_obstacle_in_the_map_of_this_building_or_of_another_one"};
		if(r.p(0.15))
		{
			names.insert(names.end(), more.begin(), more.end());
			for(size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[(size_t)r.i(0, (int)i - 1)]);
		}
		// now and then a crowd
		if(H.crowd && r.p(0.05))
		{
			H.g.nobs += r.i(4, 11);
			H.g.area = std::max(H.g.area, r.pick(std::vector<double>{2.0, 4.0, 8.0, 12.0}));
			H.seconds = std::max(2 * H.period, 0.35 * H.seconds);
			for(int i = (int)names.size(); i < H.g.nobs; ++i) names.push_back(names[(size_t)i % 10] + "_" + std::to_string(i));
		}
		else if(H.huge && r.p(H.p_huge))
		{
			// a map of a whole building, seen for a short time
			H.g.nobs += r.i(30, 70);
			H.g.area = r.pick(std::vector<double>{8.0, 16.0});
			H.g.size_hi = std::max(H.g.size_lo, std::min(H.g.size_hi, 0.8));
			H.seconds = H.period * r.u(3, 6);
			for(int i = (int)names.size(); i < H.g.nobs; ++i) names.push_back(names[(size_t)i % 10] + "_" + std::to_string(i));
		}
		const GenOpt& g = H.g;
		struct Sv { int h; std::string name; V p; Q q; V lin; double w; bool up; A3 ax, mg; };
		std::vector<Sv> sv;
		int nh = 0;
		// the channel between the map server and controller k
		auto send = [&](Op op, bool lossy) {
			for(int k = 0; k < H.nenv; ++k)
			{
				Op m = op;
				if(m.k == "ADD" || m.k == "RM") m.a.insert(m.a.begin(), (double)k);
				else if(k > 0) continue; // state of the shared objects is written once
				double t0 = m.t;
				if(lossy && r.p(H.drop)) { ++channel().dropped; continue; }
				bool late = r.p(0.3);
				if(late) ++channel().late;
				m.t = t0 + (late ? r.u(0, H.delay) : 0.001);
				out.push_back(m);
				if(lossy && r.p(H.dup)) { ++channel().duplicated; m.t = t0 + r.u(0, H.delay); out.push_back(m); }
			}
		};
		for(int k = 0; k < H.nenv; ++k) out.push_back(Op("ENV", 0, {(double)k, r.p(0.75) ? 1.0 : 0.0}));
		for(int i = 0; i < H.nag; ++i) { V p = gen_pos(r, g); V u = gen_vec(r, 1, g.planar); out.push_back(gen_agent(r, i, 0, p, u, r.p(0.5) ? r.u(0, 0.4) : 0)); }
		// clusters: obstacles are born near earlier ones with some probability
		double near = r.pick(std::vector<double>{0.0, 0.3, 0.6, 0.9});
		// obstacles that just touch, or just do not touch, another one
		double graze = g.planar ? r.pick(std::vector<double>{0.0, 0.0, 0.0, 0.15, 0.5}) : 0;
		// a store house: things stand in rows, parallel to the axes, and are exchanged by others of other sizes
		bool rows = g.planar && r.p(0.06);
		if(rows) graze = 0;
		double pitch = rows ? r.pick(std::vector<double>{0.25, 0.5, 1.0}) : 1;
		// a map in round numbers: surfaces, centres and critical distances are met exactly
		bool exact = g.planar && !rows && r.p(0.05);
		if(exact) graze = 0;
		auto eighth = [&](double x) { return std::round(8 * x) / 8; };
		auto cell = [&](const V& p) { return V(std::round(p(0) / pitch) * pitch, std::round(p(1) / pitch) * pitch, p(2)); };
		auto bin = [&](double x) { return std::max(1.0, std::round(4 * x)) / 4 + 0.0137; }; // never exactly tangent
		auto grazing = [&](const Sv& s, const Sv& o) {
			E2 a{0, 0, 2 * std::atan2(s.q.z(), s.q.w()), s.ax(0) + s.mg(0), s.ax(1) + s.mg(1)}, b{o.p(0), o.p(1), 2 * std::atan2(o.q.z(), o.q.w()), o.ax(0) + o.mg(0), o.ax(1) + o.mg(1)};
			double t = r.u(-M_PI, M_PI), lo = 0, hi = std::max(a.a, a.b) + std::max(b.a, b.b);
			for(int i = 0; i < 50; ++i)
			{
				double m = 0.5 * (lo + hi);
				a.cx = o.p(0) + m * cos(t); a.cy = o.p(1) + m * sin(t);
				(tri_overlap(a, b, 0) == YES ? lo : hi) = m;
			}
			double depth = std::pow(10.0, r.u(-3, -1)) * std::min(std::min(a.a, a.b), std::min(b.a, b.b));
			double d = lo + (r.p(0.6) ? -depth : depth);
			return V(o.p + d * V(cos(t), sin(t), 0));
		};
		for(int j = 0; j < H.g.nobs; ++j)
		{
			V p = gen_pos(r, g);
			if(!sv.empty() && r.p(near)) { p = r.pick(sv).p + gen_vec(r, 1.3 * g.size_hi, g.planar && !g.zvar); }
			std::string nm = r.p(0.85) ? names[j % names.size()] : r.pick(names);
			Op o = gen_obs_at(r, g, nh, nm, 0.0005, p);
			Sv s{nh, nm, p, q4(o, 5).normalized(), gen_vec(r, 0.8, g.planar), r.u(-1, 1), false, v3(o, 15).array(), v3(o, 18).array()};
			if(!sv.empty() && r.p(graze))
			{
				s.p = grazing(s, r.pick(sv));
				if(r.p(0.3)) s.ax *= 0.15; // a small thing at a large one
				for(int i = 0; i < 3; ++i) { o.a[2 + i] = s.p(i); o.a[15 + i] = s.ax(i); o.a[24 + i] += s.p(i) - p(i); }
				if(s.ax(0) != v3(o, 15)(0) || r.p(0.5)) { V p0 = s.p; s.p = grazing(s, r.pick(sv)); for(int i = 0; i < 3; ++i) { o.a[2 + i] = s.p(i); o.a[24 + i] += s.p(i) - p0(i); } }
			}
			if(rows)
			{
				V p0 = s.p;
				s.p = cell(s.p);
				s.q = r.p(0.8) ? Q(1, 0, 0, 0) : yawq(M_PI / 2);
				for(int i = 0; i < 2; ++i) s.ax(i) = bin(s.ax(i));
				s.w = 0;
				if(r.p(0.6)) s.lin(r.i(0, 1)) = 0;
				for(int i = 0; i < 3; ++i) { o.a[2 + i] = s.p(i); o.a[15 + i] = s.ax(i); o.a[24 + i] += s.p(i) - p0(i); }
				o.a[5] = s.q.w(); o.a[6] = 0; o.a[7] = 0; o.a[8] = s.q.z();
			}
			out.push_back(o);
			sv.push_back(s);
			++nh;
		}
		for(double t = 0.01; t < H.seconds; t += H.period * r.u(0.5, 1.5))
		{
			// the map server
			for(auto& s : sv)
			{
				if(!s.up) { if(r.p(t < 0.2 ? 0.7 : 0.2)) { s.up = true; send(Op("ADD", t, {(double)s.h}), true); } }
				else if(r.p(0.06)) { s.up = false; send(Op("RM", t, {}, {s.name}), true); }
				else if(r.p(0.02)) send(Op("RM", t, {}, {r.pick(names)}), false);
				else if(r.p(0.03)) send(Op("ADD", t, {(double)s.h}), false);
				if(g.moving && r.p(0.4))
				{
					double dt = H.period;
					s.p += dt * s.lin * r.u(0, 8);
					if(r.p(0.1)) s.lin = -s.lin;
					if(r.p(0.08)) s.p = r.pick(sv).p + gen_vec(r, 1.3 * g.size_hi, g.planar && !g.zvar);
					if(rows) s.p = cell(s.p);
					s.q = yawq(s.w * dt * 4) * s.q;
					std::vector<double> a = {(double)s.h};
					put(a, s.p);
					switch(r.i(0, 3))
					{
					case 0: a.push_back(r.i(0, 1)); send(Op("SP", t, a), true); break;
					case 1: put(a, s.q); send(Op("SPOSE", t, a), true); break;
					case 2: { std::vector<double> b = {(double)s.h}; put(b, s.q); send(Op("SQ", t, b), true); break; }
					default:
					{
						std::vector<double> b = {(double)s.h}; put(b, s.lin); send(Op("SL", t, b), true);
						if(r.p(0.5)) { std::vector<double> d = {(double)s.h, 0, 0, s.w}; send(Op("SW", t, d), true); }
					}
					}
				}
				if(r.p(H.p_ref)) { std::vector<double> a = {(double)s.h}; put(a, V(s.p + 0.2 * gen_vec(r, 1, g.planar))); out.push_back(Op("SR", t, a)); }
				if(r.p(0.01)) { std::vector<double> a = {(double)s.h}; put(a, s.ax = A3(r.u(g.size_lo, g.size_hi), r.u(g.size_lo, g.size_hi), r.u(g.size_lo, g.size_hi))); out.push_back(Op("SX", t, a)); }
				// one size only
				if(r.p(rows ? 0.08 : 0.01)) { int i = r.i(0, 1); s.ax(i) = rows ? bin(s.ax(i) * r.u(0.5, 1.8)) : s.ax(i) * r.u(0.5, 1.5); std::vector<double> a = {(double)s.h}; put(a, s.ax); out.push_back(Op("SX", t, a)); }
				if(graze > 0 && g.moving && r.p(0.1)) { Sv& o = sv[(size_t)r.i(0, (int)sv.size() - 1)]; if(o.h != s.h) { s.p = grazing(s, o); std::vector<double> a = {(double)s.h}; put(a, s.p); put(a, s.q); send(Op("SPOSE", t, a), true); } }
			}
			if(g.moving && sv.size() >= 2 && r.p(0.06))
			{
				// two obstacles exchange their places, or move symmetrically, so that their mean stays
				size_t i = (size_t)r.i(0, (int)sv.size() - 1), j = (i + 1 + (size_t)r.i(0, (int)sv.size() - 2)) % sv.size();
				if(r.p(0.5)) std::swap(sv[i].p, sv[j].p);
				else { V d = gen_vec(r, 0.5 * g.size_hi, g.planar && !g.zvar); if(rows) d = cell(d); sv[i].p += d; sv[j].p -= d; }
				for(size_t k : {i, j}) { std::vector<double> a = {(double)sv[k].h}; put(a, sv[k].p); a.push_back(r.i(0, 1)); send(Op("SP", t, a), true); }
			}
			if(H.same_names && r.p(0.04) && !sv.empty() && nh < H.g.nobs + 3)
			{
				// server reboot: the same name comes back with a new object
				Sv s = r.pick(sv);
				Op o = gen_obs_at(r, g, nh, s.name, t, s.p);
				s.h = nh++;
				s.up = true;
				s.q = q4(o, 5).normalized();
				s.ax = v3(o, 15).array();
				s.mg = v3(o, 18).array();
				out.push_back(o);
				sv.push_back(s);
				send(Op("ADD", t + 1e-4, {(double)s.h}), true);
			}
			// controllers
			for(int k = 0; k < H.nenv; ++k)
			{
				if(r.p(H.crash))
				{
					// crash and restart: the environment is rebuilt, the map is requested again
					out.push_back(Op("ENV", t, {(double)k, r.p(0.75) ? 1.0 : 0.0}));
					for(auto& s : sv) if(s.up && r.p(0.9)) out.push_back(Op("ADD", t + 0.0001, {(double)k, (double)s.h}));
				}
				if(r.p(H.p_mode)) out.push_back(Op("AGG", t, {(double)k, (double)r.i(0, 1)}));
				if(H.lookups && r.p(0.5)) out.push_back(Op("GET", t, {(double)k}, {r.p(0.8) ? r.pick(names) : "aggregate_" + r.pick(names) + "_" + r.pick(names)}));
				if(H.lookups && r.p(0.3)) out.push_back(Op("GETAGG", t, {(double)k, (double)r.i(0, 3)}));
				if(H.lookups && r.p(0.3)) out.push_back(Op("PUB", t, {(double)k}));
				if(r.p(0.75)) out.push_back(Op("UPD", t + 0.0002, {(double)k}));
			}
			for(int i = 0; i < H.nag; ++i)
			{
				if(r.p(H.p_agent)) { std::vector<double> a = {(double)i}; put(a, gen_pos(r, g)); out.push_back(Op("AP", t + 0.0003, a)); }
				if(r.p(H.p_agent)) { std::vector<double> a = {(double)i}; put(a, gen_vec(r, 1, g.planar)); out.push_back(Op("AV", t + 0.0003, a)); }
				if(r.p(0.05)) out.push_back(Op("AM", t + 0.0003, {(double)i, r.u(0, 0.5)}));
				if(H.cmds) for(int k = 0; k < H.nenv; ++k) if(r.p(0.8)) out.push_back(Op("CMD", t + 0.0004, {(double)i, (double)k, (double)r.i(0, 1), (double)r.i(0, 1), r.p(0.15) ? 1.0 : 0.0, r.p(0.7) ? 1.0 : r.u(0.8, 2), r.p(0.6) ? 2.0 : r.p(0.5) ? (double)r.i(1, 4) : r.u(0.5, 4)}));
			}
		}
		sort_ops(out);
		if(exact)
		{
			std::map<int, std::pair<V, A3>> at;
			for(auto& op : out)
			{
				auto snap = [&](size_t i, size_t n) { for(size_t j = i; j < i + n && j < op.a.size(); ++j) op.a[j] = eighth(op.a[j]); };
				auto upright = [&](size_t i) { if(i + 3 < op.a.size()) { bool half = std::fabs(op.a[i]) < std::fabs(op.a[i + 3]); op.a[i] = half ? 0 : 1; op.a[i + 1] = op.a[i + 2] = 0; op.a[i + 3] = half ? 1 : 0; } };
				int h = op.in(0);
				if(op.k == "OBS")
				{
					snap(2, 3); upright(5); snap(9, 3); snap(15, 6); snap(24, 3);
					for(int i = 0; i < 3; ++i) op.a[15 + i] = std::max(0.25, op.a[15 + i]);
					at[h] = {v3(op, 2), a3(op, 15) + a3(op, 18)};
				}
				else if(op.k == "SP") { snap(1, 3); at[h].first = v3(op, 1); }
				else if(op.k == "SPOSE") { snap(1, 3); upright(4); at[h].first = v3(op, 1); }
				else if(op.k == "SQ") upright(1);
				else if(op.k == "SL" || op.k == "SR") snap(1, 3);
				else if(op.k == "SX") { snap(1, 3); for(int i = 0; i < 3; ++i) op.a[1 + i] = std::max(0.25, op.a[1 + i]); at[h].second = a3(op, 1); }
				else if(op.k == "AM") op.a[1] = eighth(op.a[1]);
				else if(op.k == "AV") snap(1, 3);
				else if(op.k == "AP")
				{
					snap(1, 3);
					if(at.empty() || !r.p(0.6)) continue;
					auto it = at.begin();
					std::advance(it, r.i(0, (int)at.size() - 1));
					int i = r.i(0, 1);
					double far_ = r.pick(std::vector<double>{1, 1, 1, 2, 0.5, 0}) * (r.p(0.5) ? 1 : -1);
					for(int j = 0; j < 3; ++j) op.a[1 + j] = it->second.first(j) + (j == i ? far_ * it->second.second(j) : 0);
				}
				else if(op.k == "CMD" && op.a.size() > 5 && op.a[5] != 1) op.a[5] = r.pick(std::vector<double>{1, 1, 1.25, 2});
				else if(op.k == "AG") { for(size_t j : {(size_t)2, (size_t)3, (size_t)4}) op.a[j] = eighth(op.a[j]); op.a.back() = r.p(0.6) ? 0 : eighth(op.a.back()); }
			}
		}
		if(H.far > 0 && r.p(H.far))
		{
			V d = std::pow(10, r.u(2, 6.5)) * V(r.u(-1, 1), r.u(-1, 1), g.planar ? 0 : r.u(-1, 1));
			for(auto& op : out)
			{
				auto move = [&](size_t i) { for(int j = 0; j < 3 && i + j < op.a.size(); ++j) op.a[i + j] += d(j); };
				if(op.k == "OBS") { move(2); move(24); }
				else if(op.k == "SP" || op.k == "SPOSE" || op.k == "SR" || op.k == "AP") move(1);
				else if(op.k == "AG") move(2);
			}
		}
		return out;
	}
}
