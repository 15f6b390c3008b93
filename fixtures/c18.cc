// positive and negative examples for the rules of C18 (never linked into anything)
namespace GC_namespace {
  class GenericContainer {
  public:
    void clear();
    void set_int( int );
    GenericContainer & operator [] ( unsigned );
  };
  struct Node { bool isint() const; int get() const; unsigned size() const; Node const & at( unsigned ) const; };
  bool ext_parse( char const * );

  bool good( Node const & n, GenericContainer & gc ) {
    bool ok = true;
    if ( n.isint() ) gc.set_int( n.get() );
    else if ( n.size() > 0 ) {
      gc.clear();
      for ( unsigned i = 0; ok && i < n.size(); ++i ) ok = good( n.at(i), gc[i] );
    } else ok = false;
    return ok;
  }
  bool good2( Node const & n, GenericContainer & gc ) {
    try { if ( !good( n, gc ) ) return false; }
    catch ( ... ) { return false; }
    return true;
  }
  bool bad_overwritten( Node const & n, GenericContainer & gc ) {
    bool ok = true;
    gc.clear();
    for ( unsigned i = 0; i < n.size(); ++i ) ok = good( n.at(i), gc[i] );
    return ok;
  }
  bool bad_dropped( Node const & n, GenericContainer & gc ) { gc.clear(); good( n, gc ); return true; }
  bool bad_caught( Node const & n, GenericContainer & gc ) {
    bool ok = true;
    try { ok = good( n, gc ); } catch ( ... ) { }
    return ok;
  }
  bool bad_nothing( Node const & n, GenericContainer & gc ) {
    if ( n.isint() ) gc.set_int( n.get() );
    return true;
  }
  bool bad_skip( Node const & n, GenericContainer & gc ) {
    bool ok = true;
    gc.clear();
    for ( unsigned i = 0; ok && i < n.size(); ++i ) { if ( n.at(i).size() == 7 ) continue; ok = good( n.at(i), gc[i] ); }
    return ok;
  }
  bool bad_first( Node const & n, GenericContainer & gc ) {
    bool ok = true;
    gc.clear();
    for ( unsigned i = 1; ok && i < n.size(); ++i ) ok = good( n.at(i), gc[i] );
    return ok;
  }
}
