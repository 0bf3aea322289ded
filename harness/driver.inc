// replay driver: one request per line on stdin, one answer per line on stdout
//   <name> <errno> <nin> <ints...> <nfin> <hexfloats...> <hex string | ->
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <typeinfo>
#include <stdexcept>
#include <dlfcn.h>
#include <unordered_map>
typedef void (*efn)(const long*, const double*, const char*, long*, double*);
typedef void (*tfn)(const long*, const double*, const char*, long*, double*, std::string*);

int main() {
  std::string line;
  std::unordered_map<std::string, void*> cache;
  void* self = dlopen(nullptr, RTLD_NOW);
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string name, hex; long e0; int n, nf;
    is >> name >> e0 >> n;
    long in[16] = {0}; double fin[4] = {0};
    for (int i = 0; i < n; ++i) is >> in[i];
    is >> nf;
    for (int i = 0; i < nf; ++i) { std::string t; is >> t; fin[i] = std::strtod(t.c_str(), nullptr); }
    is >> hex;
    char* str = nullptr;
    if (hex[0] == 'r') {                                // r<count>,<hex before>,<hex byte>,<hex after>
      std::string part[4]; int k = 0;
      for (char c : hex.substr(1)) { if (c == ',') ++k; else part[k] += c; }
      std::string s;
      auto dec = [&s](const std::string& h, long n) {
        std::string b;
        for (std::size_t j = 0; j + 1 < h.size(); j += 2) b += static_cast<char>(std::stoi(h.substr(j, 2), nullptr, 16));
        for (; n > 0; --n) s += b;
      };
      dec(part[1], 1); dec(part[2], std::atol(part[0].c_str())); dec(part[3], 1);
      str = static_cast<char*>(std::malloc(s.size() + 1));
      for (std::size_t j = 0; j <= s.size(); ++j) str[j] = s.c_str()[j];
    }
    else if (hex != "-") {
      std::size_t L = (hex.size() - 1) / 2;           // leading 'h'
      str = static_cast<char*>(std::malloc(L + 1));
      for (std::size_t i = 0; i < L; ++i) str[i] = static_cast<char>(std::stoi(hex.substr(1 + 2 * i, 2), nullptr, 16));
      str[L] = '\0';
    }
    auto it = cache.find(name);
    if (it == cache.end()) it = cache.emplace(name, dlsym(self, name.c_str())).first;
    if (!it->second) { std::printf("N\n"); std::fflush(stdout); continue; }
    long out[16]; double fout[4];
    for (auto& v : out) v = -987654321012345678L;
    for (auto& v : fout) v = -987654321e100;
    std::string txt, ans;
    char buf[64];
    try {
      errno = static_cast<int>(e0);
      if (name[0] == 't') {
        reinterpret_cast<tfn>(it->second)(in, fin, str, out, fout, &txt);
        ans = "T h";
        for (unsigned char c : txt) { std::snprintf(buf, sizeof buf, "%02x", c); ans += buf; }
        for (auto v : out) { std::snprintf(buf, sizeof buf, " %ld", v); ans += buf; }
      } else {
        reinterpret_cast<efn>(it->second)(in, fin, str, out, fout);
        ans = "R";
        for (auto v : out) { std::snprintf(buf, sizeof buf, " %ld", v); ans += buf; }
        for (auto v : fout) { std::snprintf(buf, sizeof buf, " %a", v); ans += buf; }
      }
    }
    catch (const std::out_of_range&) { ans = "X out_of_range"; }
    catch (const std::invalid_argument&) { ans = "X invalid_argument"; }
    catch (const std::exception& e) { ans = std::string("X ") + typeid(e).name(); }
    catch (...) { ans = "X nonstd"; }
    std::free(str);
    std::printf("%s\n", ans.c_str());
    std::fflush(stdout);
  }
}
