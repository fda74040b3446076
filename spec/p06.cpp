// Reference semantics of the stop-watch.
#include <ctime>
#include <map>
#include <string>
#include <iostream>
#include <iomanip>
#ifndef WIN32
#include <sys/time.h>
#endif
namespace spec {
struct StopwatchException { std::string error; StopwatchException(std::string e) : error(e) {} };
enum StopwatchMode { NONE = 0, CPU_TIME = 1, REAL_TIME = 2 };
class Stopwatch {
 public:
  struct PerformanceData {
    long double clock_start, total_time, min_time, max_time, last_time;
    bool paused;
    int stops;
    PerformanceData() : clock_start(0), total_time(0), min_time(0), max_time(0), last_time(0), paused(false), stops(0) {}
  };
  bool active;
  StopwatchMode mode;
  std::map<std::string, PerformanceData>* records_of;

  Stopwatch(StopwatchMode m = NONE) : active(true), mode(m) { records_of = new std::map<std::string, PerformanceData>(); }
  PerformanceData& known_(const std::string& n) {
    if (records_of->find(n) == records_of->end()) throw StopwatchException("");
    return records_of->find(n)->second;
  }
  bool performance_exists(std::string n) { return records_of->find(n) != records_of->end(); }
  void set_mode(StopwatchMode m) { mode = m; }
  void turn_off() { active = false; }
  void turn_on() { active = true; }
  // seconds, except for CPU time which is counted in ticks
  long double take_time() {
    if (mode == CPU_TIME) return clock();
    if (mode == REAL_TIME) {
      struct timeval tv;
      gettimeofday(&tv, NULL);
      return (long double)tv.tv_sec + (long double)tv.tv_usec / 1000000.0;
    }
    throw StopwatchException("");
  }
  long double elapsed_(long double from, long double to) {
    if (mode == CPU_TIME) return (to - from) / (double)CLOCKS_PER_SEC;
    return to - from;
  }
  void start(std::string n) {
    if (!active) return;
    if (records_of->find(n) == records_of->end()) (*records_of)[n] = PerformanceData();
    (*records_of)[n].clock_start = take_time();
    (*records_of)[n].paused = false;
  }
  void stop(std::string n) {
    if (!active) return;
    long double now = take_time();
    PerformanceData& p = known_(n);
    if (p.clock_start == 0) return;
    long double d = elapsed_(p.clock_start, now);
    p.stops = p.stops + 1;
    p.last_time = d;
    p.total_time = p.total_time + d;
    if (d >= p.max_time) p.max_time = d;
    if (p.min_time == 0 || d <= p.min_time) p.min_time = d;
  }
  void pause(std::string n) {
    if (!active) return;
    long double now = take_time();
    PerformanceData& p = known_(n);
    if (p.clock_start == 0) return;
    long double d = elapsed_(p.clock_start, now);
    p.last_time = p.last_time + d;
    p.total_time = p.total_time + d;
  }
  void reset(std::string n) {
    if (!active) return;
    known_(n) = PerformanceData();
  }
  void reset_all() {
    if (!active) return;
    for (std::map<std::string, PerformanceData>::iterator i = records_of->begin(); i != records_of->end(); ++i)
      i->second = PerformanceData();
  }
  void report_all(int precision, std::ostream& output) {
    if (!active) return;
    output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - nSamples - totalTime) ***\n";
    for (std::map<std::string, PerformanceData>::iterator i = records_of->begin(); i != records_of->end(); ++i)
      report(i->first, precision, output);
  }
  void report(std::string n, int precision, std::ostream& output) {
    if (!active) return;
    PerformanceData& p = known_(n);
    std::string pad = "";
    for (size_t i = n.length(); i < 80; i++) pad.append(" ");
    output << n << pad;
    output << std::fixed << std::setprecision(precision) << (p.min_time * 1e3) << "\t";
    output << std::fixed << std::setprecision(precision) << (p.total_time * 1e3 / (long double)p.stops) << "\t";
    output << std::fixed << std::setprecision(precision) << (p.max_time * 1e3) << "\t";
    output << std::fixed << std::setprecision(precision) << (p.last_time * 1e3) << "\t";
    output << std::fixed << std::setprecision(precision) << p.stops << std::endl;
    output << std::fixed << std::setprecision(precision) << p.total_time * 1e3 << std::endl;
  }
  long double get_time_so_far(std::string n) {
    PerformanceData& p = known_(n);
    return elapsed_(p.clock_start, take_time());
  }
  long double get_total_time(std::string n) { return known_(n).total_time; }
  long double get_average_time(std::string n) { return known_(n).total_time / (long double)known_(n).stops; }
  long double get_min_time(std::string n) { return known_(n).min_time; }
  long double get_max_time(std::string n) { return known_(n).max_time; }
  long double get_last_time(std::string n) { return known_(n).last_time; }
};
}
