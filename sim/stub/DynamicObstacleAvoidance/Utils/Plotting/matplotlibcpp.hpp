// Simulated plotting device. It stands in for the vendored matplotlibcpp.hpp (embedded Python
// interpreter + matplotlib): same call signatures, same error behaviour (std::runtime_error when
// the device refuses a call), but every call is recorded in the simulator's plot sink, and the
// simulator decides which call fails. This header is found before /repo/include by -I order.
#pragma once
#include <vector>
#include <map>
#include <array>
#include <numeric>
#include <algorithm>
#include <stdexcept>
#include <iostream>
#include <cstdint>
#include <functional>
#include <string>
#include <memory>
#include <utility>
#include <sstream>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

namespace simplot
{
	struct Call
	{
		std::string fn;            // plot, text, figure, subplot, xlim, ylim, save, show, close, ...
		std::vector<double> x, y;  // data
		std::string s;             // format / text / path
	};
	// Hands the call to the simulator. Throws std::runtime_error if the simulated device fails.
	// Returns the boolean the real call would return.
	bool record(const Call& c);
}

namespace matplotlibcpp
{
	namespace simdetail
	{
		template <typename T> std::vector<double> dv(const std::vector<T>& v) { return std::vector<double>(v.begin(), v.end()); }
	}
	inline void backend(const std::string& name) { simplot::record({"backend", {}, {}, name}); }
	inline bool annotate(std::string a, double x, double y) { return simplot::record({"annotate", {x}, {y}, a}); }
	template <typename NX, typename NY>
	bool plot(const std::vector<NX>& x, const std::vector<NY>& y, const std::string& s = "")
	{ return simplot::record({"plot", simdetail::dv(x), simdetail::dv(y), s}); }
	template <typename N>
	bool plot(const std::vector<N>& x, const std::vector<N>& y, const std::map<std::string, std::string>&)
	{ return simplot::record({"plot", simdetail::dv(x), simdetail::dv(y), ""}); }
	template <typename N>
	bool plot(const std::vector<N>& y, const std::string& s = "")
	{
		std::vector<double> x(y.size());
		for(size_t i = 0; i < x.size(); ++i) x[i] = (double)i;
		return simplot::record({"plot", x, simdetail::dv(y), s});
	}
	inline bool plot(const std::vector<double>& x, const std::vector<double>& y, const std::string& s = "")
	{ return simplot::record({"plot", x, y, s}); }
	inline bool plot(const std::vector<double>& y, const std::string& s = "") { return plot<double>(y, s); }
	inline bool plot(const std::vector<double>& x, const std::vector<double>& y, const std::map<std::string, std::string>&)
	{ return simplot::record({"plot", x, y, ""}); }
	template <typename N>
	bool named_plot(const std::string&, const std::vector<N>& x, const std::vector<N>& y, const std::string& s = "")
	{ return simplot::record({"plot", simdetail::dv(x), simdetail::dv(y), s}); }
	template <typename NX, typename NY>
	bool scatter(const std::vector<NX>& x, const std::vector<NY>& y, const double = 1.0)
	{ return simplot::record({"plot", simdetail::dv(x), simdetail::dv(y), "."}); }
	template <typename NX, typename NY, typename NU, typename NW>
	bool quiver(const std::vector<NX>& x, const std::vector<NY>& y, const std::vector<NU>&, const std::vector<NW>&, const std::map<std::string, std::string>& = {})
	{ return simplot::record({"quiver", simdetail::dv(x), simdetail::dv(y), ""}); }
	template <typename N>
	void text(N x, N y, const std::string& s = "") { simplot::record({"text", {(double)x}, {(double)y}, s}); }
	inline long figure(long number = -1) { simplot::record({"figure", {(double)number}, {}, ""}); return 1; }
	inline bool fignum_exists(long) { return true; }
	inline void figure_size(size_t w, size_t h) { simplot::record({"figure_size", {(double)w}, {(double)h}, ""}); }
	inline void legend() { simplot::record({"legend", {}, {}, ""}); }
	template <typename N> void ylim(N l, N r) { simplot::record({"ylim", {(double)l, (double)r}, {}, ""}); }
	template <typename N> void xlim(N l, N r) { simplot::record({"xlim", {(double)l, (double)r}, {}, ""}); }
	inline void subplot(long r, long c, long n) { simplot::record({"subplot", {(double)r, (double)c, (double)n}, {}, ""}); }
	inline void title(const std::string& s, const std::map<std::string, std::string>& = {}) { simplot::record({"title", {}, {}, s}); }
	inline void suptitle(const std::string& s, const std::map<std::string, std::string>& = {}) { simplot::record({"title", {}, {}, s}); }
	inline void axis(const std::string& s) { simplot::record({"axis", {}, {}, s}); }
	inline void xlabel(const std::string& s, const std::map<std::string, std::string>& = {}) { simplot::record({"xlabel", {}, {}, s}); }
	inline void ylabel(const std::string& s, const std::map<std::string, std::string>& = {}) { simplot::record({"ylabel", {}, {}, s}); }
	inline void grid(bool) { simplot::record({"grid", {}, {}, ""}); }
	inline void show(const bool = true) { simplot::record({"show", {}, {}, ""}); }
	inline void close() { simplot::record({"close", {}, {}, ""}); }
	inline void draw() { simplot::record({"draw", {}, {}, ""}); }
	template <typename N> void pause(N) { simplot::record({"pause", {}, {}, ""}); }
	inline void save(const std::string& f) { simplot::record({"save", {}, {}, f}); }
	inline void clf() { simplot::record({"clf", {}, {}, ""}); }
	inline void tight_layout() { simplot::record({"tight_layout", {}, {}, ""}); }
}
