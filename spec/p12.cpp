// Reference semantics of selection flags: a function index -> bool, constant
// beyond the stored prefix.
#include <string.h>
#include <string>
#include <iostream>
#include <stdexcept>
#include <vector>
namespace spec {
class Flags {
 public:
  std::vector<bool> flags;
  bool outOfRangeFlag;
  Flags(const bool& b = false) : flags(), outOfRangeFlag(b) {}
  Flags(const char* s) : flags(strlen(s)), outOfRangeFlag(false) {
    for (unsigned int i = 0; i < strlen(s); ++i) {
      if (s[i] != '0' && s[i] != '1' && s[i] != ' ') throw std::invalid_argument("");
      if (s[i] == '0') flags[i] = false;
      if (s[i] == '1') flags[i] = true;
    }
  }
  Flags(const std::vector<bool>& v) : flags(v), outOfRangeFlag(false) {}
  bool at_(unsigned int i) const { return i < flags.size() ? bool(flags[i]) : outOfRangeFlag; }
  operator bool(void) const {
    for (unsigned int i = 0; i < flags.size(); ++i) if (flags[i]) return true;
    return outOfRangeFlag;
  }
  bool operator()(const int& i) const { return i < (int)flags.size() ? bool(flags[i]) : outOfRangeFlag; }
  void add(const bool& b) { flags.push_back(b); }
  void set(const unsigned int& i) { if (i < flags.size()) flags[i] = true; }
  void unset(const unsigned int& i) { if (i < flags.size()) flags[i] = false; }
  Flags operator!(void) const {
    Flags r;
    r.flags.resize(flags.size());
    for (unsigned int i = 0; i < flags.size(); ++i) r.flags[i] = !flags[i];
    r.outOfRangeFlag = !outOfRangeFlag;
    return r;
  }
  Flags& operator&=(const Flags& o) {
    unsigned int n = flags.size() > o.flags.size() ? flags.size() : o.flags.size();
    std::vector<bool> r(n);
    for (unsigned int i = 0; i < n; ++i) r[i] = at_(i) && o.at_(i);
    flags = r;
    outOfRangeFlag = outOfRangeFlag && o.outOfRangeFlag;
    return *this;
  }
  Flags& operator|=(const Flags& o) {
    unsigned int n = flags.size() > o.flags.size() ? flags.size() : o.flags.size();
    std::vector<bool> r(n);
    for (unsigned int i = 0; i < n; ++i) r[i] = at_(i) || o.at_(i);
    flags = r;
    outOfRangeFlag = outOfRangeFlag || o.outOfRangeFlag;
    return *this;
  }
};
Flags operator&(const Flags& a, const Flags& b) { Flags r = a; r &= b; return r; }
Flags operator|(const Flags& a, const Flags& b) { Flags r = a; r |= b; return r; }
std::ostream& operator<<(std::ostream& os, const Flags& f) {
  for (unsigned int i = 0; i < f.flags.size(); ++i) os << (f.flags[i] ? '1' : '0');
  return os;
}
std::istream& operator>>(std::istream& is, Flags& f) {
  char c;
  f.flags.clear();
  while (is.get(c).good()) {
    if (c == '0') f.flags.push_back(false);
    else if (c == '1') f.flags.push_back(true);
    else if (c != ' ') throw std::invalid_argument("");
  }
  return is;
}
}
