// positive and negative examples for the rules of C12 and C13 (never linked into anything)
#include <map>
#include <memory>
#include <string>
#include <stdexcept>
struct Explorer { int top(); void * mem() { return this; } int v; };
static std::map<std::string,std::unique_ptr<Explorer>> registry;
static Explorer * active = nullptr;
extern "C" {
int GC_select( char const * id ) {
  try {
    auto p = registry.find(id);
    if ( p == registry.end() ) { registry.emplace( id, std::make_unique<Explorer>() ); p = registry.find(id); }
    active = p->second.get();
  } catch ( ... ) { return 2; }
  return 0;
}
int GC_ok_set() { if ( !active ) return 4; try { active->top(); } catch ( ... ) { return 2; } return 0; }
int GC_ok_set2() { auto * a = active; if ( a == nullptr ) return 4; int rc = 2; try { a->top(); rc = 0; } catch ( ... ) { } return rc; }
int GC_get_ok() { if ( active == nullptr ) return 0; try { return active->top(); } catch ( std::exception const & ) { return 0; } catch ( ... ) { return 0; } }
void * GC_ok_mem( char const * id ) { if ( GC_select(id) != 0 ) return nullptr; return active->mem(); }
int GC_ok_del( char const * id ) {
  try { auto p = registry.find(id); if ( p != registry.end() ) { if ( active == p->second.get() ) active = nullptr; registry.erase(p); } } catch ( ... ) { return 2; }
  return 0;
}
int GC_ok_del2( char const * id ) { try { active = nullptr; registry.erase(id); } catch ( ... ) { return 2; } return 0; }
}
template <typename F> static int guarded( F && f ) { try { f(); return 0; } catch ( std::exception const & ) { } catch ( ... ) { } return 2; }
template <typename F> static int swallowed( F && f ) { try { f(); } catch ( ... ) { } return 0; }
extern "C" {
int GC_ok_lam() { if ( !active ) return 4; return guarded( [&]() { active->top(); } ); }
int GC_ok_lam2( char const * id ) { int rc = guarded( [&]() { auto p = registry.find(id); if ( p != registry.end() ) { if ( active == p->second.get() ) active = nullptr; registry.erase(p); } } ); return rc; }
int GC_bad_C12_lam() { if ( !active ) return 4; return swallowed( [&]() { active->top(); } ); }
int GC_bad_C12_lam2() { if ( !active ) return 4; auto f = [&]() { active->top(); }; f(); return 0; }
int GC_bad_C13_lam( char const * id ) { return guarded( [&]() { registry.erase(id); } ); }
int GC_bad_C12_escape() { if ( !active ) return 4; active->top(); return 0; }
int GC_bad_C12_partial() { if ( !active ) return 4; try { active->top(); } catch ( std::runtime_error const & ) { return 2; } return 0; }
int GC_bad_C12_C13_null() { try { active->top(); } catch ( ... ) { return 2; } return 0; }
int GC_bad_C12_zero() { if ( !active ) return 4; try { active->top(); } catch ( ... ) { } return 0; }
int GC_bad_C12_nothing( int n ) { if ( !active ) return 4; if ( n > 7 ) return 0; try { active->top(); } catch ( ... ) { return 1; } return 0; }
int GC_bad_C12_noactive() { if ( !active ) return 0; try { active->top(); } catch ( ... ) { return 1; } return 0; }
int GC_get_bad_C12_value() { if ( !active ) return 0; try { return active->top(); } catch ( ... ) { return 1; } }
int GC_bad_C13_del( char const * id ) {
  try { auto p = registry.find(id); if ( p != registry.end() ) registry.erase(p); } catch ( ... ) { return 2; }
  return 0;
}
int GC_bad_C13_late( char const * id ) {
  try { auto p = registry.find(id); if ( p != registry.end() ) { registry.erase(p); active = nullptr; if ( GC_select("x") != 0 ) return 3; } } catch ( ... ) { return 2; }
  try { registry.clear(); } catch ( ... ) { return 2; }
  return 0;
}
int GC_bad_C13_new() { try { active = new Explorer; } catch ( ... ) { return 2; } return 0; }
}
