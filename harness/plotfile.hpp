// Reading the plot files (ROOT macros) which Geneva writes
#pragma once
#include <regex>
#include <map>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>

using Row = std::vector<double>;
inline bool near(double a, double b) { return a == b || std::fabs(a - b) <= 2e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-300; }
struct Parsed {
	struct Block { std::string name; std::vector<Row> rows; };
	std::vector<Block> blocks;                    // data, in the order of appearance
	std::map<std::string, long> decl;             // declared array sizes
	std::vector<Row> pts4;                        // x, y, z, w
	std::vector<std::vector<std::string>> hist;   // name, bins and ranges
	std::vector<std::vector<std::string>> funcs;  // name, text, ranges
	std::vector<long> pads;
	std::vector<std::string> objs;                // names of declared objects
};
inline double D(std::string const &s) { return std::strtod(s.c_str(), nullptr); }
inline Parsed parse(std::string const &t) {
	Parsed r;
	static const std::regex as(R"(([A-Za-z_]\w*)\[(\d+)\]\s*=\s*([^;]+);)"), de(R"(^\s*double\s+(\w+)\[(\d+)\];)"), fl(R"(^\s*(\w+)->Fill\(([^)]*)\);)"),
		p4(R"(->SetPoint\((\d+), ([^,]+), ([^,]+), ([^)]+)\); // w = (\S+))"), cd(R"(^\s*graphPad->cd\((\d+)\);)"), hs(R"(^\s*TH[12][DI] \*\s*(\w+) = new TH[12][DI]\(([^)]*)\);)"),
		fu(R"(^\s*TF[12] \*\s*(\w+) = new TF[12]\((.*)\);)"), ob(R"(^\s*T\w+\s*\*\s*(\w+)\s*=\s*new )");
	auto split = [](std::string const &s) { std::vector<std::string> v; std::string x; std::istringstream i(s); while (std::getline(i, x, ',')) { while (not x.empty() && (x[0] == ' ' || x[0] == '"')) x.erase(0, 1); while (not x.empty() && (x.back() == ' ' || x.back() == '"')) x.pop_back(); v.push_back(x); } return v; };
	std::istringstream in(t); std::string l; std::smatch m;
	while (std::getline(in, l)) {
		if (std::regex_search(l, m, de)) r.decl[m[1]] = std::stol(m[2]);
		else if (std::regex_search(l, m, p4)) r.pts4.push_back({D(m[2]), D(m[3]), D(m[4]), D(m[5])});
		else if (std::regex_search(l, m, fl)) {
			if (r.blocks.empty() || r.blocks.back().name != m[1].str()) r.blocks.push_back({m[1], {}});
			Row row; for (auto &x: split(m[2])) row.push_back(D(x));
			r.blocks.back().rows.push_back(row);
		} else if (std::regex_search(l, m, cd)) r.pads.push_back(std::stol(m[1]));
		else {
			if (std::regex_search(l, m, hs)) { auto v = split(m[2]); v.insert(v.begin(), m[1]); r.hist.push_back(v); }
			if (std::regex_search(l, m, fu)) { auto v = split(m[2]); v.insert(v.begin(), m[1]); r.funcs.push_back(v); }
			for (std::sregex_iterator i(l.begin(), l.end(), as), e; i != e; ++i) {
				std::string n = (*i)[1];
				Parsed::Block *b = nullptr;
				for (auto &x: r.blocks) if (x.name == n) b = &x;
				if (not b) { r.blocks.push_back({n, {}}); b = &r.blocks.back(); }
				b->rows.push_back({std::stoul((*i)[2]) == b->rows.size() ? D((*i)[3]) : NAN}); // NAN: out of order
			}
		}
		if (std::regex_search(l, m, ob)) r.objs.push_back(m[1]);
	}
	return r;
}
