// positive and negative examples for the C11 rules
#include <string>
#include <vector>
#include <mutex>
#include <atomic>
#include <cstring>
#include <regex>
static int g_counter = 0;
static const int g_const = 3;
static std::atomic<int> g_atomic{0};
static std::mutex g_m;
int counter_global() { return ++g_counter; }
int counter_local() { static int n = 0; n += 2; return n; }
bool match_local( std::string const & s ) { static std::smatch m; static const std::regex re("a"); return std::regex_search( s, m, re ); }
int alias_local() { static std::vector<int> v; auto & w = v; w.push_back(1); return (int) w.size(); }
struct cached { mutable int c = 0; int mutable_cache() const { c = 1; return c; } int reads() const { return c; } };
char * strtok_user( char * s ) { return strtok( s, "," ); }
int use( cached const & c ) { return c.mutable_cache() + c.reads(); }
int reader() { return g_counter + g_const; }
int reader2() { static const std::vector<int> v{1,2}; int s = 0; for ( auto const & x : v ) s += x; return s; }
int reader3() { static std::vector<int> v{1,2}; int s = 0; for ( int x : v ) s += x; return s + v[0]; }
int locked() { std::lock_guard<std::mutex> l( g_m ); return ++g_counter; }
int atomically() { return ++g_atomic; }
int tls() { static thread_local int n = 0; return ++n; }
