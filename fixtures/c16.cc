// positive and negative examples for the rules of C16 (never linked into anything)
#include <string>
#include <string_view>
#include <map>
#include <fstream>
#include <cstring>
#include <algorithm>
using M = std::map<std::string,int>;
int  good1( M & m, std::string_view k ) { return m[std::string(k)]; }
int  good2( M & m, std::string_view k ) { std::string s{k}; auto it = m.find(s); return it == m.end() ? 0 : it->second; }
int  good3( M & m, std::string_view k ) { return m[std::string(k.data(),k.size())]; }
int  good4( M & m, std::string_view k ) { return m[std::string(k.begin(),k.end())]; }
int  good5( M & m, std::string_view k ) { for ( auto & x : m ) if ( x.first == k ) return x.second; return 0; }
std::string good6( std::string_view k ) { std::string r("at "); r += k; return r; }
int  good7( M & m, std::string const & k ) { auto n = k.length(); return m[std::string(k.data(),n)]; }
int  bad_data( M & m, std::string_view k ) { return m[k.data()]; }
int  bad_data2( M & m, std::string_view k ) { char const * p = k.data(); std::string s(p); return m.at(s); }
int  bad_data3( M & m, std::string_view k ) { return m[&k[0]]; }
int  bad_open( std::string_view k ) { std::ifstream f( k.data() ); return f.is_open(); }
int  bad_cut( M & m, std::string_view k ) { return m[std::string(k.substr(0,8))]; }
int  bad_cut2( M & m, std::string_view k ) { std::string s(k); s.resize(12); return m[s]; }
int  bad_cut3( M & m, std::string_view k ) { return m[std::string(k.data(),8)]; }
int  bad_prefix( M & m, std::string_view k ) { for ( auto & x : m ) if ( x.first.compare(0,k.size(),k) == 0 ) return x.second; return 0; }
int  bad_strn( M & m, std::string_view k ) { for ( auto & x : m ) if ( std::strncmp(x.first.data(),k.data(),k.size()) == 0 ) return x.second; return 0; }
