#include <vt/vt.hpp>
#include <mutex>
static std::string &buffer() { static std::string *b = new std::string; return *b; }
static std::string &taken() { static std::string *b = new std::string; return *b; }
static std::mutex mutex_;
void vt::put(std::string const &line) { std::lock_guard<std::mutex> _(mutex_); buffer() += line; buffer() += '\n'; }
extern "C" __attribute__((visibility("default"))) char const *vt_take() { std::lock_guard<std::mutex> _(mutex_); taken() = buffer(); buffer().clear(); return taken().c_str(); }
#include <vt/life.hpp>
#include <set>
static int &count() { static int n = 0; return n; }
static std::set<int> &live() { static std::set<int> *s = new std::set<int>; return *s; }
static std::string &faults() { static std::string *b = new std::string; return *b; }
int vt::born() { std::lock_guard<std::mutex> _(mutex_); live().insert(++count()); return count(); }
void vt::fault(char const *what, int id) { std::lock_guard<std::mutex> _(mutex_); faults() += std::string(what) + " " + std::to_string(id) + "; "; }
void vt::died(int id, void const *) { std::lock_guard<std::mutex> _(mutex_); if( !live().erase(id) ) faults() += "object " + std::to_string(id) + " destroyed twice; "; }
extern "C" __attribute__((visibility("default"))) char const *vt_life() { std::lock_guard<std::mutex> _(mutex_); static std::string *s = new std::string; *s = faults() + "|" + std::to_string(count()) + "|"; for( int i : live() ) *s += std::to_string(i) + ","; faults().clear(); return s->c_str(); }
