#include "common.hpp"
#include <iostream>
#include <sstream>
#include <typeinfo>
#include <cxxabi.h>
std::map<string, Fn> &registry() { static std::map<string, Fn> r; return r; }
static string cls(const std::exception &e) { int st; char *n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); string r = n ? n : "?"; free(n); for (auto &c : r) if (c == ' ') c = '_'; return r; }
int main()
{
    std::ios::sync_with_stdio(false);
    string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l);
        Args a; string t;
        while (is >> t) a.push_back(t);
        if (a.empty()) continue;
        string name = a[0];
        a.erase(a.begin());
        string out;
        auto it = registry().find(name);
        if (it == registry().end()) out = "unknown";
        else try { out = "ok " + it->second(a); }
            catch (const std::exception &e) { out = "throw " + cls(e); }
            catch (...) { out = "throw unknown"; }
        std::cout << "\n@@" << out << "\n" << std::flush;
    }
}
