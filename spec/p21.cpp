// Reference semantics of the text readers.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>
#include <fstream>
#include <list>
#include <sstream>
#include <string>
#include <vector>
#include <sot/core/flags.hh>
namespace spec {
using dynamicgraph::Vector;
using dynamicgraph::Matrix;
using dynamicgraph::SignalPtr;
using dynamicgraph::SignalTimeDependent;
using namespace dynamicgraph::sot;
class Contiifstream {
 public:
  std::string filename; std::streamoff cursor; std::list<std::string> reader; bool first;
  explicit Contiifstream(const std::string& n) : filename(n), cursor(0), first(true) {}
  void open(const std::string& n) { filename = n; cursor = 0; }
  void valid_loop_() { assume_in(cursor, 0, 6); }
  // every complete line from the cursor on, once, in order; what exists at the
  // first call is history and is skipped
  bool loop() {
    bool some = false;
    std::ifstream f(filename.c_str());
    f.seekg(cursor);
    std::string l;
    while (true) {
      std::getline(f, l);
      if (f.fail() || f.eof()) break;
      some = true;
      if (!first) reader.push_back(l);
      cursor = f.tellg();
    }
    first = false;
    return some;
  }
  bool ready() { return reader.size() > 0; }
  void valid_next_() { assume(reader.size() > 0); }
  std::string next() { std::string r = reader.front(); reader.pop_front(); return r; }
};
}
