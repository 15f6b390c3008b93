From 38791a72707afce5ca60f65f16a007e271371d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 01/43] fix: compare_content never returned for vectors whose
 first elements agree

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 039ae28..2017f2a 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -417,7 +417,7 @@ namespace GC_namespace {
                << *it1 << " <> " << *it2 << '\n';
           break;
         }
-        ++i;
+        ++i; ++it1; ++it2;
       }
     } else {
       data << who << " size: " << A->size() << " <> " << B->size() << '\n';
-- 
2.43.0


From 1a6b421c491268a8b5351893a09e5da4f2c84946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 02/43] fix: compare_content of two reals went on to compare
 them as pointers

---
 src/GenericContainer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 2017f2a..0e8d62c 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -478,6 +478,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         if ( m_data.r != gc.m_data.r )
           data << from << "real: " << m_data.r << " <> " << gc.m_data.r << '\n';
+        break;
       case GC_type::POINTER:
         if ( m_data.p != gc.m_data.p )
           data << from << "pointer: 0x" << std::hex << m_data.p << " <> 0x" <<  std::hex << gc.m_data.p << '\n';
-- 
2.43.0


From deb93c68071fe86f7f28447ac8b1d15ca520136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 03/43] fix: get_if_exists(keys,bool) accepted every type
 except booleans

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0e8d62c..75ef751 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2594,7 +2594,7 @@ namespace GC_namespace {
     if ( m_data_type != GC_type::MAP ) return false;
     map_type & m = *m_data.m;
     for ( string_type const & field : fields ) {
-      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type != GC_type::BOOL ) {
+      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type == GC_type::BOOL ) {
         value = iv->second.m_data.b;
         return true;
       }
-- 
2.43.0


From d56424dd7e2d03bad4c0cb8432e68e9e8f911b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:00 +0000
Subject: [PATCH 04/43] fix: a failed allocation left the container tagged with
 a payload it does not own

---
 src/GenericContainer.cc | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 75ef751..73ad5af 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -758,8 +758,8 @@ namespace GC_namespace {
   GenericContainer::allocate_string() {
     if ( m_data_type != GC_type::STRING ) {
       clear();
+      m_data.s = new string_type;
       m_data_type = GC_type::STRING;
-      m_data.s    = new string_type;
     }
   }
 
@@ -767,8 +767,8 @@ namespace GC_namespace {
   GenericContainer::allocate_complex() {
     if ( m_data_type != GC_type::COMPLEX ) {
       clear();
+      m_data.c = new complex_type;
       m_data_type = GC_type::COMPLEX;
-      m_data.c    = new complex_type;
     }
   }
 
@@ -776,8 +776,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_pointer( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_POINTER ) {
       clear();
+      m_data.v_p = new vec_pointer_type();
       m_data_type = GC_type::VEC_POINTER;
-      m_data.v_p  = new vec_pointer_type();
     }
     if ( sz > 0 ) m_data.v_p->resize( sz );
   }
@@ -800,8 +800,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_bool( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_BOOL ) {
       clear();
+      m_data.v_b = new vec_bool_type();
       m_data_type = GC_type::VEC_BOOL;
-      m_data.v_b  = new vec_bool_type();
     }
     if ( sz > 0 ) m_data.v_b->resize( sz );
   }
@@ -810,8 +810,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_int( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_INTEGER ) {
       clear();
+      m_data.v_i = new vec_int_type();
       m_data_type = GC_type::VEC_INTEGER;
-      m_data.v_i  = new vec_int_type();
     }
     if ( sz > 0 ) m_data.v_i->resize( sz );
   }
@@ -820,8 +820,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_long( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_LONG ) {
       clear();
+      m_data.v_l = new vec_long_type();
       m_data_type = GC_type::VEC_LONG;
-      m_data.v_l  = new vec_long_type();
     }
     if ( sz > 0 ) m_data.v_l->resize( sz );
   }
@@ -830,8 +830,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_real( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_REAL ) {
       clear();
+      m_data.v_r = new vec_real_type();
       m_data_type = GC_type::VEC_REAL;
-      m_data.v_r  = new vec_real_type();
     }
     if ( sz > 0 ) m_data.v_r->resize( sz );
   }
@@ -840,8 +840,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_complex( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_COMPLEX ) {
       clear();
+      m_data.v_c = new vec_complex_type();
       m_data_type = GC_type::VEC_COMPLEX;
-      m_data.v_c  = new vec_complex_type();
     }
     if ( sz > 0 ) m_data.v_c->resize( sz );
   }
@@ -850,8 +850,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_int( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_INTEGER ) {
       clear();
+      m_data.m_i = new mat_int_type( nr, nc );
       m_data_type = GC_type::MAT_INTEGER;
-      m_data.m_i  = new mat_int_type( nr, nc );
     } else {
       m_data.m_i->resize( nr, nc );
     }
@@ -861,8 +861,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_long( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_LONG ) {
       clear();
+      m_data.m_l = new mat_long_type( nr, nc );
       m_data_type = GC_type::MAT_LONG;
-      m_data.m_l  = new mat_long_type( nr, nc );
     } else {
       m_data.m_l->resize( nr, nc );
     }
@@ -872,8 +872,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_real( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_REAL ) {
       clear();
+      m_data.m_r = new mat_real_type( nr, nc );
       m_data_type = GC_type::MAT_REAL;
-      m_data.m_r  = new mat_real_type( nr, nc );
     } else {
       m_data.m_r->resize( nr, nc );
     }
@@ -883,8 +883,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_complex( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_COMPLEX ) {
       clear();
+      m_data.m_c = new mat_complex_type( nr, nc );
       m_data_type = GC_type::MAT_COMPLEX;
-      m_data.m_c  = new mat_complex_type( nr, nc );
     } else {
       m_data.m_c->resize( nr, nc );
     }
@@ -894,8 +894,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_string( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_STRING ) {
       clear();
+      m_data.v_s = new vec_string_type();
       m_data_type = GC_type::VEC_STRING;
-      m_data.v_s  = new vec_string_type();
     }
     if ( sz > 0 ) m_data.v_s->resize( sz );
   }
@@ -904,8 +904,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vector( unsigned const sz ) {
     if ( m_data_type != GC_type::VECTOR ) {
       clear();
+      m_data.v = new vector_type();
       m_data_type = GC_type::VECTOR;
-      m_data.v    = new vector_type();
     }
     if ( sz > 0 ) m_data.v->resize( sz );
   }
@@ -914,8 +914,8 @@ namespace GC_namespace {
   GenericContainer::allocate_map() {
     if ( m_data_type != GC_type::MAP ) {
       clear();
+      m_data.m = new map_type();
       m_data_type = GC_type::MAP;
-      m_data.m    = new map_type();
     }
   }
 
@@ -964,17 +964,18 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::set_complex( complex_type const & value ) {
+    complex_type * c{ new complex_type( value ) }; // value may be stored in *this
     clear();
+    m_data.c    = c;
     m_data_type = GC_type::COMPLEX;
-    m_data.c    = new complex_type;
-    return (*m_data.c=value);
+    return *m_data.c;
   }
 
   complex_type &
   GenericContainer::set_complex( real_type const re, real_type const im ) {
     clear();
-    m_data_type = GC_type::COMPLEX;
     m_data.c    = new complex_type(re,im);
+    m_data_type = GC_type::COMPLEX;
     return *m_data.c;
   }
 
@@ -2090,8 +2091,8 @@ namespace GC_namespace {
   GenericContainer::get_complex( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
       clear();
+      m_data.c = new complex_type;
       m_data_type = GC_type::COMPLEX;
-      m_data.c    = new complex_type;
     } else {
       ck(where,GC_type::COMPLEX);
     }
@@ -2108,8 +2109,8 @@ namespace GC_namespace {
   GenericContainer::get_string( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
       clear();
+      m_data.s = new string_type("");
       m_data_type = GC_type::STRING;
-      m_data.s    = new string_type("");
     } else {
       ck(where,GC_type::STRING);
     }
-- 
2.43.0


From a26aa71d7fedd37c454256997a2920d24bf9eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:39 +0000
Subject: [PATCH 05/43] fix: assigning an empty vector kept the old elements,
 and values stored inside the target were freed before being copied

---
 src/GenericContainer.cc | 81 +++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 39 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 73ad5af..ceea66e 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -337,43 +337,37 @@ namespace GC_namespace {
 
   GenericContainer &
   GenericContainer::operator = ( vec_bool_type const & a ) {
-    set_vec_bool( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_b->begin() );
+    set_vec_bool( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_int_type const & a ) {
-    set_vec_int( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_i->begin() );
+    set_vec_int( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_long_type const & a ) {
-    set_vec_long( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_l->begin() );
+    set_vec_long( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_real_type const & a ) {
-    set_vec_real( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_r->begin() );
+    set_vec_real( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_complex_type const & a ) {
-    set_vec_complex( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_c->begin() );
+    set_vec_complex( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_string_type const & a ) {
-    set_vec_string( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_s->begin() );
+    set_vec_string( a );
     return *this;
   }
 
@@ -981,8 +975,10 @@ namespace GC_namespace {
 
   string_type &
   GenericContainer::set_string( string_view const value ) {
+    string_type tmp( value ); // value may be stored inside *this
     allocate_string();
-    return (*m_data.s = value);
+    m_data.s->swap( tmp );
+    return *m_data.s;
   }
 
   vec_pointer_type &
@@ -993,8 +989,9 @@ namespace GC_namespace {
 
   vec_pointer_type &
   GenericContainer::set_vec_pointer( vec_pointer_type const & v ) {
-    allocate_vec_pointer( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_p->begin() );
+    vec_pointer_type tmp( v ); // v may be stored inside *this, and may be empty
+    allocate_vec_pointer( 0 );
+    m_data.v_p->swap( tmp );
     return *m_data.v_p;
   }
 
@@ -1005,8 +1002,9 @@ namespace GC_namespace {
 
   vec_bool_type &
   GenericContainer::set_vec_bool( vec_bool_type const & v ) {
-    allocate_vec_bool( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_b->begin() );
+    vec_bool_type tmp( v ); // v may be stored inside *this, and may be empty
+    allocate_vec_bool( 0 );
+    m_data.v_b->swap( tmp );
     return *m_data.v_b;
   }
 
@@ -1018,8 +1016,9 @@ namespace GC_namespace {
 
   vec_int_type &
   GenericContainer::set_vec_int( vec_int_type const & v ) {
-    allocate_vec_int( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_i->begin() );
+    vec_int_type tmp( v ); // v may be stored inside *this, and may be empty
+    allocate_vec_int( 0 );
+    m_data.v_i->swap( tmp );
     return *m_data.v_i;
   }
 
@@ -1031,8 +1030,9 @@ namespace GC_namespace {
 
   vec_long_type &
   GenericContainer::set_vec_long( vec_long_type const & v ) {
-    allocate_vec_long( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_l->begin() );
+    vec_long_type tmp( v ); // v may be stored inside *this, and may be empty
+    allocate_vec_long( 0 );
+    m_data.v_l->swap( tmp );
     return *m_data.v_l;
   }
 
@@ -1044,8 +1044,9 @@ namespace GC_namespace {
 
   vec_real_type &
   GenericContainer::set_vec_real( vec_real_type const & v ) {
-    allocate_vec_real( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_r->begin() );
+    vec_real_type tmp( v ); // v may be stored inside *this, and may be empty
+    allocate_vec_real( 0 );
+    m_data.v_r->swap( tmp );
     return *m_data.v_r;
   }
 
@@ -1057,8 +1058,9 @@ namespace GC_namespace {
 
   vec_complex_type &
   GenericContainer::set_vec_complex( vec_complex_type const & v ) {
-    allocate_vec_complex( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_c->begin() );
+    vec_complex_type tmp( v ); // v may be stored inside *this, and may be empty
+    allocate_vec_complex( 0 );
+    m_data.v_c->swap( tmp );
     return *m_data.v_c;
   }
 
@@ -1070,9 +1072,9 @@ namespace GC_namespace {
 
   mat_int_type &
   GenericContainer::set_mat_int( mat_int_type const & m ) {
-    allocate_mat_int( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_i->begin() );
-    return *m_data.m_i;
+    mat_int_type tmp( m ); // m may be stored inside *this
+    allocate_mat_int( 0, 0 );
+    return *m_data.m_i = std::move( tmp );
   }
 
   mat_long_type &
@@ -1083,9 +1085,9 @@ namespace GC_namespace {
 
   mat_long_type &
   GenericContainer::set_mat_long( mat_long_type const & m ) {
-    allocate_mat_long( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_l->begin() );
-    return *m_data.m_l;
+    mat_long_type tmp( m ); // m may be stored inside *this
+    allocate_mat_long( 0, 0 );
+    return *m_data.m_l = std::move( tmp );
   }
 
   mat_real_type &
@@ -1096,9 +1098,9 @@ namespace GC_namespace {
 
   mat_real_type &
   GenericContainer::set_mat_real( mat_real_type const & m ) {
-    allocate_mat_real( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_r->begin() );
-    return *m_data.m_r;
+    mat_real_type tmp( m ); // m may be stored inside *this
+    allocate_mat_real( 0, 0 );
+    return *m_data.m_r = std::move( tmp );
   }
 
   mat_complex_type &
@@ -1109,9 +1111,9 @@ namespace GC_namespace {
 
   mat_complex_type &
   GenericContainer::set_mat_complex( mat_complex_type const & m ) {
-    allocate_mat_complex( m.num_rows(), m.num_cols() );
-    std::copy( m.begin(), m.end(), m_data.m_c->begin() );
-    return *m_data.m_c;
+    mat_complex_type tmp( m ); // m may be stored inside *this
+    allocate_mat_complex( 0, 0 );
+    return *m_data.m_c = std::move( tmp );
   }
 
   vec_string_type &
@@ -1122,8 +1124,9 @@ namespace GC_namespace {
 
   vec_string_type &
   GenericContainer::set_vec_string( vec_string_type const & v ) {
-    allocate_vec_string( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_s->begin() );
+    vec_string_type tmp( v ); // v may be stored inside *this, and may be empty
+    allocate_vec_string( 0 );
+    m_data.v_s->swap( tmp );
     return *m_data.v_s;
   }
 
-- 
2.43.0


From 1d606a6bf6b77b21c2fc8ce3f80b4f658ab78367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:39 +0000
Subject: [PATCH 06/43] fix: copying a container merged into old maps, kept old
 elements, and read freed memory when source and target overlap

---
 src/GenericContainer.cc | 94 ++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 66 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index ceea66e..4d80c03 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3722,49 +3722,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::to_gc( GenericContainer & gc ) const {
-    switch (m_data_type) {
-    case GC_type::NOTYPE:      gc.clear();                break;
-    case GC_type::BOOL:        gc = m_data.b;    break;
-    case GC_type::INTEGER:     gc = m_data.i;    break;
-    case GC_type::LONG:        gc = m_data.l;    break;
-    case GC_type::REAL:        gc = m_data.r;    break;
-    case GC_type::COMPLEX:     gc = *m_data.c;   break;
-    case GC_type::STRING:      gc = *m_data.s;   break;
-    case GC_type::VEC_BOOL:    gc = *m_data.v_b; break;
-    case GC_type::VEC_INTEGER: gc = *m_data.v_i; break;
-    case GC_type::VEC_LONG:    gc = *m_data.v_l; break;
-    case GC_type::VEC_REAL:    gc = *m_data.v_r; break;
-    case GC_type::VEC_STRING:  gc = *m_data.v_s; break;
-
-    case GC_type::VECTOR:
-      gc.set_vector();
-      { vector_type const & v{*m_data.v};
-        vector_type       & vv = gc.set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          v[i].to_gc(vv[i]);
-      }
-      break;
-    case GC_type::MAP:
-      gc.set_map();
-      { map_type const & m{*m_data.m};
-        for ( const auto &[fst, snd] : m )
-          snd.to_gc(gc[fst]);
-      }
-      break;
-    case GC_type::MAT_INTEGER: gc = *m_data.m_i; break;
-    case GC_type::MAT_LONG:    gc = *m_data.m_l; break;
-    case GC_type::MAT_REAL:    gc = *m_data.m_r; break;
-    case GC_type::VEC_COMPLEX: gc = *m_data.v_c; break;
-    case GC_type::MAT_COMPLEX: gc = *m_data.m_c; break;
-    case GC_type::POINTER:     gc = this->get_pointer<void *>(); break;
-    case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = this->get_vec_pointer();
-        vec_pointer_type       & vv = gc.set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
-      break;
-    }
+    gc.from_gc( *this );
   }
 
   /*
@@ -3778,85 +3736,89 @@ namespace GC_namespace {
 
   void
   GenericContainer::from_gc( GenericContainer const & gc ) {
+    if ( this == &gc ) return;
+    // built apart: gc may be stored inside *this, or *this inside gc
+    GenericContainer tmp;
     switch ( gc.get_type()) {
     case GC_type::NOTYPE:
-      this->clear();
       break;
     case GC_type::BOOL:
-      this->set_bool(gc.m_data.b);
+      tmp.set_bool(gc.m_data.b);
       break;
     case GC_type::INTEGER:
-      this->set_int(gc.m_data.i);
+      tmp.set_int(gc.m_data.i);
       break;
     case GC_type::LONG:
-      this->set_long(gc.m_data.l);
+      tmp.set_long(gc.m_data.l);
       break;
     case GC_type::REAL:
-      this->set_real(gc.m_data.r);
+      tmp.set_real(gc.m_data.r);
       break;
     case GC_type::COMPLEX:
-      this->set_complex(*gc.m_data.c);
+      tmp.set_complex(*gc.m_data.c);
       break;
     case GC_type::STRING:
-      this->set_string(*gc.m_data.s);
+      tmp.set_string(*gc.m_data.s);
       break;
     case GC_type::VEC_BOOL:
-      this->set_vec_bool(*gc.m_data.v_b);
+      tmp.set_vec_bool(*gc.m_data.v_b);
       break;
     case GC_type::VEC_INTEGER:
-      this->set_vec_int(*gc.m_data.v_i);
+      tmp.set_vec_int(*gc.m_data.v_i);
       break;
     case GC_type::VEC_LONG:
-      this->set_vec_long(*gc.m_data.v_l);
+      tmp.set_vec_long(*gc.m_data.v_l);
       break;
     case GC_type::VEC_REAL:
-      this->set_vec_real(*gc.m_data.v_r);
+      tmp.set_vec_real(*gc.m_data.v_r);
       break;
     case GC_type::VEC_STRING:
-      this->set_vec_string(*gc.m_data.v_s);
+      tmp.set_vec_string(*gc.m_data.v_s);
       break;
 
     case GC_type::VECTOR:
-      this->set_vector();
+      tmp.set_vector();
       { vector_type const & v{*gc.m_data.v};
-        vector_type       & vv = this->set_vector(v.size());
+        vector_type       & vv = tmp.set_vector(v.size());
         for ( vector_type::size_type i{0}; i < v.size(); ++i )
           vv[i].from_gc(v[i]);
       }
       break;
     case GC_type::MAP:
-      this->set_map();
+      tmp.set_map();
       { map_type const & m{*gc.m_data.m};
         for ( const auto &[fst, snd] : m )
-          (*this)[fst].from_gc(snd);
+          tmp[fst].from_gc(snd);
       }
       break;
     case GC_type::MAT_INTEGER:
-      this->set_mat_int(*gc.m_data.m_i);
+      tmp.set_mat_int(*gc.m_data.m_i);
       break;
     case GC_type::MAT_LONG:
-      this->set_mat_long(*gc.m_data.m_l);
+      tmp.set_mat_long(*gc.m_data.m_l);
       break;
     case GC_type::MAT_REAL:
-      this->set_mat_real(*gc.m_data.m_r);
+      tmp.set_mat_real(*gc.m_data.m_r);
       break;
     case GC_type::VEC_COMPLEX:
-      this->set_vec_complex(*gc.m_data.v_c);
+      tmp.set_vec_complex(*gc.m_data.v_c);
       break;
     case GC_type::MAT_COMPLEX:
-      this->set_mat_complex(*gc.m_data.m_c);
+      tmp.set_mat_complex(*gc.m_data.m_c);
       break;
     case GC_type::POINTER:
-      this->set_pointer( gc.get_pointer<void *>() );
+      tmp.set_pointer( gc.get_pointer<void *>() );
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const & v  = gc.get_vec_pointer();
-        vec_pointer_type       & vv = this->set_vec_pointer(v.size());
+        vec_pointer_type       & vv = tmp.set_vec_pointer(v.size());
         for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
           vv[i] = v[i];
       }
       break;
     }
+    std::swap( m_data, tmp.m_data );
+    std::swap( m_data_type, tmp.m_data_type );
   }
 
   //
-- 
2.43.0


From 65fe48dceff2f533058c049ba6bfa558edff76db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 07/43] fix: keys and messages passed as views were read up to
 a terminating zero; reading a missing key of a const container inserted it

---
 include/GenericContainer/GenericContainer.hh |  2 +-
 src/GenericContainer.cc                      | 48 +++++++++++---------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 4faee7d..a461d40 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -53,7 +53,7 @@
   #define GC_DO_ERROR(MSG) {                          \
     ostringstream ost;                                \
     ost << "in GenericContainer: " << MSG << '\n';    \
-    GenericContainer::exception( ost.str().data() ); \
+    GenericContainer::exception( ost.str() ); \
   }
 #endif
 
diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 4d80c03..c0c763b 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2362,7 +2362,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_as_int( where );
+    return this->m_data.m->at(string(key)).get_as_int( where );
   }
 
   int_type
@@ -2394,7 +2394,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_number( where );
+    return this->m_data.m->at(string(key)).get_number( where );
   }
 
   real_type
@@ -2426,7 +2426,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_string( where );
+    return this->m_data.m->at(string(key)).get_string( where );
   }
 
   string_view
@@ -2458,7 +2458,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_real( where );
+    return this->m_data.m->at(string(key)).get_vec_real( where );
   }
 
   vec_real_type const &
@@ -2490,7 +2490,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_complex( where );
+    return this->m_data.m->at(string(key)).get_vec_complex( where );
   }
 
   vec_complex_type const &
@@ -2522,7 +2522,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_string( where );
+    return this->m_data.m->at(string(key)).get_vec_string( where );
   }
 
   vec_string_type const &
@@ -2553,7 +2553,7 @@ namespace GC_namespace {
   bool
   GenericContainer::exists( string_view const s ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(s.data()) };
+    auto const iv{ m_data.m->find(string(s)) };
     return iv != m_data.m->end();
   }
 
@@ -2561,7 +2561,7 @@ namespace GC_namespace {
   GenericContainer::exists( vec_string_type const & vs ) const {
     if (m_data_type != GC_type::MAP) return false;
     return std::any_of(vs.begin(), vs.end(),
-      [this](string_type const & s) { return m_data.m->find(s.data()) != m_data.m->end(); }
+      [this](string_type const & s) { return m_data.m->find(s) != m_data.m->end(); }
     );
   }
   string
@@ -2583,7 +2583,7 @@ namespace GC_namespace {
   bool
   GenericContainer::get_if_exists( string_view const field, bool & value ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::BOOL ) return false;
     value = iv->second.m_data.b;
@@ -2614,7 +2614,7 @@ namespace GC_namespace {
     int_type &        value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2664,7 +2664,7 @@ namespace GC_namespace {
     uint_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2716,7 +2716,7 @@ namespace GC_namespace {
     long_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2766,7 +2766,7 @@ namespace GC_namespace {
     ulong_type &      value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2818,7 +2818,7 @@ namespace GC_namespace {
     real_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2866,7 +2866,7 @@ namespace GC_namespace {
     complex_type &    value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2913,7 +2913,7 @@ namespace GC_namespace {
     string_type &     value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::STRING ) return false;
     value = *iv->second.m_data.s;
@@ -3328,7 +3328,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << " operator(): Cannot find key '" << s <<
@@ -3346,7 +3346,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << "\noperator() const: Cannot find key '" << s <<
@@ -3402,7 +3402,7 @@ namespace GC_namespace {
   GenericContainer &
   GenericContainer::operator [] ( string_view const s ) {
     if ( ck( GC_type::MAP ) != 0 ) set_map(); // if not data present allocate!
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   GenericContainer const &
@@ -3413,7 +3413,13 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[s.data()];
+    auto const iv{ m_data.m->find(string(s)) };
+    GC_ASSERT(
+      iv != m_data.m->end(),
+      "operator [] const: Cannot find key '" << s <<
+      "'!\npossibile keys: " << get_keys()
+    )
+    return iv->second;
   }
 
   /*
@@ -3844,7 +3850,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::exception( string_view const where ) {
-    throw std::runtime_error(where.data());
+    throw std::runtime_error(string(where));
   }
 
   // instantate classes
-- 
2.43.0


From 7c8da39c5d71e49300efe65e6c33fbac8e5571c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 08/43] fix: promoting a scalar to a vector read the value
 after the vector had replaced it

---
 src/GenericContainerPromote.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4368a21..54c8f25 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1890,25 +1890,25 @@ namespace GC_namespace {
       { set_vector(1); (*this)[0].clear(); } // set data to no type
       break;
     case GC_type::POINTER:
-      { set_vector(1); (*this)[0] = m_data.p; }
+      { pointer_type const tmp{ m_data.p }; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::BOOL:
-      { set_vector(1); (*this)[0] = m_data.b; }
+      { bool_type const tmp{ m_data.b }; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::INTEGER:
-      { set_vector(1); (*this)[0] = m_data.i; }
+      { int_type const tmp{ m_data.i }; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::LONG:
-      { set_vector(1); (*this)[0] = m_data.l; }
+      { long_type const tmp{ m_data.l }; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::REAL:
-      { set_vector(1); (*this)[0] = m_data.r; }
+      { real_type const tmp{ m_data.r }; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::COMPLEX:
-      { set_vector(1); (*this)[0] = *m_data.c; }
+      { complex_type const tmp{ *m_data.c }; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::STRING:
-      { set_vector(1); (*this)[0] = *m_data.s; }
+      { string_type const tmp{ *m_data.s }; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const * v_p{m_data.v_p};
-- 
2.43.0


From 948039fefd3ff3f888a6a7671eb234a23669e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 09/43] fix: promoting a vector to an integer or complex matrix
 stored the elements as reals

---
 src/GenericContainerPromote.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 54c8f25..0e541d1 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1571,7 +1571,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1580,7 +1580,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_i)(i,0) = (*v_i)[i];
         delete v_i;
       }
       break;
@@ -1627,9 +1627,9 @@ namespace GC_namespace {
     case GC_type::VEC_BOOL:
       { vec_bool_type const * v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
-        set_mat_real(static_cast<unsigned>(v_b->size()),1);
+        set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1810,7 +1810,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_c)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1819,7 +1819,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
         delete v_i;
       }
       break;
@@ -1828,7 +1828,7 @@ namespace GC_namespace {
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
         delete v_l;
       }
       break;
@@ -1837,7 +1837,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
-          (*m_data.m_r)(i,0) = (*v_r)[i];
+          (*m_data.m_c)(i,0) = (*v_r)[i];
         delete v_r;
       }
       break;
-- 
2.43.0


From 71186721b2819e86d27aaf8f1778852c680696e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 10/43] fix: element access on an empty container created a
 matrix of the wrong type and too small

---
 src/GenericContainer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index c0c763b..5febdf0 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2970,7 +2970,7 @@ namespace GC_namespace {
 
   int_type &
   GenericContainer::get_int_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_int(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ) promote_to_mat_int();
     GC_ASSERT(
@@ -3021,7 +3021,7 @@ namespace GC_namespace {
 
   long_type &
   GenericContainer::get_long_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_long(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ) promote_to_mat_long();
@@ -3071,7 +3071,7 @@ namespace GC_namespace {
 
   real_type &
   GenericContainer::get_real_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ||
@@ -3123,7 +3123,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG    ||
-- 
2.43.0


From c7149d96fb61c0a7f77561a7c1dac2401b53b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 11/43] fix: get_real_at(i,j) const read the matrix as a
 vector; get_complex_at(i,j) const accepted rows out of range

---
 src/GenericContainer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 5febdf0..e13b16c 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3089,7 +3089,7 @@ namespace GC_namespace {
   GenericContainer::get_real_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_REAL);
     GC_ASSERT(
-      i < m_data.v_r->size(),
+      i < m_data.m_r->num_rows() && j < m_data.m_r->num_cols(),
       where << " get_real_at( " << i << ", " << j << " ) const, out of range"
     )
     return (*m_data.m_r)(i,j);
@@ -3142,6 +3142,10 @@ namespace GC_namespace {
   complex_type const &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_COMPLEX);
+    GC_ASSERT(
+      i < m_data.m_c->num_rows() && j < m_data.m_c->num_cols(),
+      where << " get_complex_at( " << i << ", " << j << " ) const, out of range"
+    )
     return (*m_data.m_c)(i,j);
   }
 
-- 
2.43.0


From 340f1937bd6c5a98beda654a1c4d41c387db4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 12/43] fix: get_number_at and get_complex_number_at read
 outside the stored vector for large indices

---
 src/GenericContainer.cc | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index e13b16c..905eb36 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1946,14 +1946,14 @@ namespace GC_namespace {
   real_type
   GenericContainer::get_number_at( unsigned const i, string_view const where ) const {
     switch (m_data_type) {
-    case GC_type::VEC_BOOL:    return (*m_data.v_b)[i] ? 1 : 0;
-    case GC_type::VEC_INTEGER: return (*m_data.v_i)[i];
-    case GC_type::VEC_LONG:    return (*m_data.v_l)[i];
-    case GC_type::VEC_REAL:    return (*m_data.v_r)[i];
-    case GC_type::MAT_INTEGER: return (*m_data.m_i)[i];
-    case GC_type::MAT_LONG:    return (*m_data.m_l)[i];
-    case GC_type::MAT_REAL:    return (*m_data.m_r)[i];
-    case GC_type::VECTOR:      return (*m_data.v)[i].get_number();
+    case GC_type::VEC_BOOL:    return m_data.v_b->at(i) ? 1 : 0;
+    case GC_type::VEC_INTEGER: return m_data.v_i->at(i);
+    case GC_type::VEC_LONG:    return m_data.v_l->at(i);
+    case GC_type::VEC_REAL:    return m_data.v_r->at(i);
+    case GC_type::MAT_INTEGER: return m_data.m_i->at(i);
+    case GC_type::MAT_LONG:    return m_data.m_l->at(i);
+    case GC_type::MAT_REAL:    return m_data.m_r->at(i);
+    case GC_type::VECTOR:      return m_data.v->at(i).get_number();
     case GC_type::NOTYPE:
     case GC_type::POINTER:
     case GC_type::BOOL:
@@ -1978,16 +1978,16 @@ namespace GC_namespace {
   complex_type
   GenericContainer::get_complex_number_at( unsigned const i, string_view const where ) const {
     switch (m_data_type) {
-    case GC_type::VEC_BOOL:    return {static_cast<real_type>( (*m_data.v_b)[i]?1:0 ),0};
-    case GC_type::VEC_INTEGER: return {static_cast<real_type>( (*m_data.v_i)[i] ),0};
-    case GC_type::VEC_LONG:    return {static_cast<real_type>( (*m_data.v_l)[i] ),0};
-    case GC_type::VEC_REAL:    return {(*m_data.v_r)[i],0};
-    case GC_type::VEC_COMPLEX: return (*m_data.v_c)[i];
-    case GC_type::MAT_INTEGER: return {static_cast<real_type>( (*m_data.m_i)[i] ),0};
-    case GC_type::MAT_LONG:    return {static_cast<real_type>( (*m_data.m_l)[i] ),0};
-    case GC_type::MAT_REAL:    return {(*m_data.m_r)[i],0};
-    case GC_type::MAT_COMPLEX: return (*m_data.m_c)[i];
-    case GC_type::VECTOR:      return (*m_data.v)[i].get_complex_number();
+    case GC_type::VEC_BOOL:    return {static_cast<real_type>( m_data.v_b->at(i)?1:0 ),0};
+    case GC_type::VEC_INTEGER: return {static_cast<real_type>( m_data.v_i->at(i) ),0};
+    case GC_type::VEC_LONG:    return {static_cast<real_type>( m_data.v_l->at(i) ),0};
+    case GC_type::VEC_REAL:    return {m_data.v_r->at(i),0};
+    case GC_type::VEC_COMPLEX: return m_data.v_c->at(i);
+    case GC_type::MAT_INTEGER: return {static_cast<real_type>( m_data.m_i->at(i) ),0};
+    case GC_type::MAT_LONG:    return {static_cast<real_type>( m_data.m_l->at(i) ),0};
+    case GC_type::MAT_REAL:    return {m_data.m_r->at(i),0};
+    case GC_type::MAT_COMPLEX: return m_data.m_c->at(i);
+    case GC_type::VECTOR:      return m_data.v->at(i).get_complex_number();
     case GC_type::NOTYPE:
     case GC_type::POINTER:
     case GC_type::BOOL:
-- 
2.43.0


From ffa051748c56acfc464a259a3eeaba952f851ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 13/43] fix: matrix size overflowed 32 bits, an out of range
 row reached the next column, data() of an empty matrix was undefined

---
 include/GenericContainer/GenericContainer.hh |  8 ++++----
 src/GenericContainer.cc                      | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index a461d40..6aa727d 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -189,7 +189,7 @@ namespace GC_namespace {
     mat_type( unsigned nr, unsigned nc )
     : m_num_rows(nr)
     , m_num_cols(nc)
-    { vector<TYPE>::resize(size_type(nr*nc)); }
+    { vector<TYPE>::resize(size_type(nr)*size_type(nc)); }
 
     //!
     //! Resizes the matrix to the specified dimensions.
@@ -205,9 +205,9 @@ namespace GC_namespace {
     //!
     void
     resize( unsigned nr, unsigned nc ) {
+      vector<TYPE>::resize(size_type(nr)*size_type(nc));
       m_num_rows = nr;
       m_num_cols = nc;
-      vector<TYPE>::resize(size_type(nr*nc));
     }
 
     //!
@@ -406,7 +406,7 @@ namespace GC_namespace {
     //! int *dataPtr = matrix.data();  // Pointer to matrix data
     //! \endcode
     //!
-    TYPE * data() { return &vector<TYPE>::front(); }
+    TYPE * data() { return vector<TYPE>::data(); }
 
     //!
     //! Returns a constant pointer to the underlying data block of the matrix.
@@ -419,7 +419,7 @@ namespace GC_namespace {
     //! const int *dataPtr = matrix.data();  // Constant pointer to matrix data
     //! \endcode
     //!
-    TYPE const * data() const { return &vector<TYPE>::front(); }
+    TYPE const * data() const { return vector<TYPE>::data(); }
   };
 
   // ---------------------------------------------------------------------------
diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 905eb36..83195b7 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -134,8 +134,13 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE const &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) const {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << ") out of range, matrix is "
+                               << m_num_rows << " x " << m_num_cols
+    )
     try {
-      return this->at(i+j*m_num_rows);
+      return this->at(i+size_type(j)*m_num_rows);
     } catch ( std::exception const & exc ) {
       GC_DO_ERROR( "mat_type::operator() (" << i << ", " << j << "): " << exc.what() << '\n' );
     } catch ( ... ) {
@@ -146,8 +151,13 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << ") out of range, matrix is "
+                               << m_num_rows << " x " << m_num_cols
+    )
     try {
-      return this->at(i+j*m_num_rows);
+      return this->at(i+size_type(j)*m_num_rows);
     } catch ( std::exception const & exc ) {
       GC_DO_ERROR( "mat_type::operator() (" << i << ", " << j << "): " << exc.what() << '\n' );
     } catch ( ... ) {
-- 
2.43.0


From 5f8605fd21b2acd83351eaa22cd1485b1b1221e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:23 +0000
Subject: [PATCH 14/43] fix: copyto_mat_complex refused complex matrices,
 copyto_vec_complex refused mixed vectors, copyto_mat_* left stale sizes on
 error

---
 src/GenericContainerPromote.cc | 35 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 0e541d1..67ada09 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -680,7 +680,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:    val = { static_cast<real_type>((*m_data.m_l)[i]),0 };         break;
       case GC_type::MAT_REAL:    val = {(*m_data.m_r)[i],0};                                   break;
       case GC_type::MAT_COMPLEX: val = (*m_data.m_c)[i];                                                 break;
-      case GC_type::VECTOR:      val = (*this)(i).get_complex();                                         break;
+      case GC_type::VECTOR:      val = (*this)(i).get_complex_number();                                  break;
 
       case GC_type::NOTYPE:
       case GC_type::POINTER:
@@ -746,7 +746,7 @@ namespace GC_namespace {
   // ---------------------------------------------------------------------------
   void
   GenericContainer::copyto_mat_int( mat_int_type & m, string_view const where ) const {
-    m.clear();
+    m.resize(0,0);
     switch (m_data_type) {
     case GC_type::NOTYPE:
       { m.resize(1,1); m(0,0) = 0; }
@@ -773,7 +773,7 @@ namespace GC_namespace {
     case GC_type::MAT_INTEGER:
       { mat_int_type const * m_i{m_data.m_i};
         m.resize(m_i->num_rows(),m_i->num_cols());
-        std::copy_n( m_i->data(), m_i->num_rows()*m_i->num_cols(), m.data() );
+        std::copy_n( m_i->data(), m_i->size(), m.data() );
       }
       break;
     case GC_type::VECTOR:
@@ -821,7 +821,7 @@ namespace GC_namespace {
   // ---------------------------------------------------------------------------
   void
   GenericContainer::copyto_mat_long( mat_long_type & m, string_view const where ) const {
-    m.clear();
+    m.resize(0,0);
     switch (m_data_type) {
     case GC_type::NOTYPE:
       { m.resize(1,1); m(0,0) = 0; }
@@ -857,13 +857,13 @@ namespace GC_namespace {
     case GC_type::MAT_INTEGER:
       { mat_int_type const * m_i{m_data.m_i};
         m.resize(m_i->num_rows(),m_i->num_cols());
-        std::copy_n( m_i->data(), m_i->num_rows()*m_i->num_cols(), m.data() );
+        std::copy_n( m_i->data(), m_i->size(), m.data() );
       }
       break;
     case GC_type::MAT_LONG:
       { mat_long_type const * m_l{m_data.m_l};
         m.resize(m_l->num_rows(),m_l->num_cols());
-        std::copy_n( m_l->data(), m_l->num_rows()*m_l->num_cols(), m.data() );
+        std::copy_n( m_l->data(), m_l->size(), m.data() );
       }
       break;
     case GC_type::VECTOR:
@@ -908,7 +908,7 @@ namespace GC_namespace {
   // ---------------------------------------------------------------------------
   void
   GenericContainer::copyto_mat_real( mat_real_type & m, string_view const where ) const {
-    m.clear();
+    m.resize(0,0);
     switch (m_data_type) {
     case GC_type::NOTYPE:
       { m.resize(1,1); m(0,0) = 0; }
@@ -953,19 +953,19 @@ namespace GC_namespace {
     case GC_type::MAT_INTEGER:
       { mat_int_type const * m_i{m_data.m_i};
         m.resize(m_i->num_rows(),m_i->num_cols());
-        std::copy_n( m_i->data(), m_i->num_rows()*m_i->num_cols(), m.data() );
+        std::copy_n( m_i->data(), m_i->size(), m.data() );
       }
       break;
     case GC_type::MAT_LONG:
       { mat_long_type const * m_l{m_data.m_l};
         m.resize(m_l->num_rows(),m_l->num_cols());
-        std::copy_n( m_l->data(), m_l->num_rows()*m_l->num_cols(), m.data() );
+        std::copy_n( m_l->data(), m_l->size(), m.data() );
       }
       break;
     case GC_type::MAT_REAL:
       { mat_real_type const * m_r{m_data.m_r};
         m.resize(m_r->num_rows(),m_r->num_cols());
-        std::copy_n( m_r->data(), m_r->num_rows()*m_r->num_cols(), m.data() );
+        std::copy_n( m_r->data(), m_r->size(), m.data() );
       }
       break;
     case GC_type::VECTOR:
@@ -1007,7 +1007,7 @@ namespace GC_namespace {
   // ---------------------------------------------------------------------------
   void
   GenericContainer::copyto_mat_complex( mat_complex_type & m, string_view const where ) const {
-    m.clear();
+    m.resize(0,0);
     switch (m_data_type) {
     case GC_type::NOTYPE:
       { m.resize(1,1); m(0,0) = 0; }
@@ -1061,19 +1061,25 @@ namespace GC_namespace {
     case GC_type::MAT_INTEGER:
       { mat_int_type const * m_i{m_data.m_i};
         m.resize(m_i->num_rows(),m_i->num_cols());
-        std::copy_n( m_i->data(), m_i->num_rows()*m_i->num_cols(), m.data() );
+        std::copy_n( m_i->data(), m_i->size(), m.data() );
       }
       break;
     case GC_type::MAT_LONG:
       { mat_long_type const * m_l{m_data.m_l};
         m.resize(m_l->num_rows(),m_l->num_cols());
-        std::copy_n( m_l->data(), m_l->num_rows()*m_l->num_cols(), m.data() );
+        std::copy_n( m_l->data(), m_l->size(), m.data() );
       }
       break;
     case GC_type::MAT_REAL:
       { mat_real_type const * m_r{m_data.m_r};
         m.resize(m_r->num_rows(),m_r->num_cols());
-        std::copy_n( m_r->data(), m_r->num_rows()*m_r->num_cols(), m.data() );
+        std::copy_n( m_r->data(), m_r->size(), m.data() );
+      }
+      break;
+    case GC_type::MAT_COMPLEX:
+      { mat_complex_type const * m_c{m_data.m_c};
+        m.resize(m_c->num_rows(),m_c->num_cols());
+        std::copy_n( m_c->data(), m_c->size(), m.data() );
       }
       break;
     case GC_type::VECTOR:
@@ -1103,7 +1109,6 @@ namespace GC_namespace {
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
     case GC_type::VEC_STRING:
-    case GC_type::MAT_COMPLEX:
     case GC_type::MAP:
       GC_DO_ERROR( where << "copyto_mat_complex() cannot promote " << get_type_name() << " to mat_complex_type" )
     }
-- 
2.43.0


From 2e660bcef8183e0cbad6d73861e26f8aaaf6df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:26 +0000
Subject: [PATCH 15/43] fix: typed integer reads wrapped or truncated numbers
 outside the range of the result type; growing to the largest index overflowed

---
 src/GenericContainer.cc        | 57 ++++++++++++++++++++-------------
 src/GenericContainerPromote.cc | 58 +++++++++++++++++++---------------
 2 files changed, 67 insertions(+), 48 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 83195b7..3d99b99 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -38,9 +38,10 @@
 
 #include <regex>
 #include <fstream>
+#include <limits>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
-#define CHECK_RESIZE(pV,I) if ( pV->size() <= (I) ) pV->resize((I)+1)
+#define CHECK_RESIZE(pV,I) if ( pV->size() <= (I) ) pV->resize(static_cast<std::size_t>(I)+1)
 
 using std::fpclassify;
 using GC_namespace::real_type;
@@ -56,8 +57,13 @@ static bool isZero0( real_type const x )
 static bool isInteger( real_type const x )
 { using std::round; return isZero0( x-round(x) ); }
 
-static bool isUnsigned( real_type const x )
-{ return isInteger(x) && x >= 0; }
+// true when x is an integer number which can be represented by type T
+template <typename T>
+static bool fitsInteger( real_type const x ) {
+  return isInteger(x) &&
+         x >= static_cast<real_type>(std::numeric_limits<T>::min()) &&
+         x <  static_cast<real_type>(std::numeric_limits<T>::max()/2+1)*2;
+}
 
 #endif
 
@@ -1577,15 +1583,15 @@ namespace GC_namespace {
       break;
     case GC_type::LONG:
       GC_ASSERT(
-        m_data.l >= 0,
-        where << " in get_value(...) negative `long` value '" << m_data.l
+        m_data.l >= 0 && m_data.l <= static_cast<long_type>(std::numeric_limits<uint_type>::max()),
+        where << " in get_value(...) negative or too large `long` value '" << m_data.l
               << "' cannot be converted into `uint_type'"
       )
       v = static_cast<unsigned>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        m_data.r >= 0 && fitsInteger<uint_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `uint_type'"
       )
@@ -1593,7 +1599,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && fitsInteger<uint_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `uint_type'"
       )
@@ -1633,11 +1639,16 @@ namespace GC_namespace {
       v = m_data.i;
       break;
     case GC_type::LONG:
+      GC_ASSERT(
+        static_cast<int_type>(m_data.l) == m_data.l,
+        where << " in get_value(...) `long` value '" << m_data.l
+              << "' cannot be converted into `int_type'"
+      )
       v = static_cast<int>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        fitsInteger<int_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `int_type'"
       )
@@ -1645,7 +1656,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && fitsInteger<int_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `int_type'"
       )
@@ -1699,7 +1710,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        m_data.r >= 0 && fitsInteger<ulong_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `ulong_type'"
       )
@@ -1707,7 +1718,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && fitsInteger<ulong_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value "
               << to_string(*m_data.c) << " cannot be converted into `ulong_type'"
       )
@@ -1752,7 +1763,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        fitsInteger<long_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `long_type'"
       )
@@ -1760,7 +1771,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && fitsInteger<long_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `long_type'"
       )
@@ -2634,14 +2645,15 @@ namespace GC_namespace {
       value = iv->second.m_data.i;
       break;
     case GC_type::LONG:
+      if ( static_cast<int_type>(iv->second.m_data.l) != iv->second.m_data.l ) return false;
       value = static_cast<int_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( !isInteger(iv->second.m_data.r) ) return false;
+      if ( !fitsInteger<int_type>(iv->second.m_data.r) ) return false;
       value = static_cast<int_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+      if ( ! ( fitsInteger<int_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<int_type>(iv->second.m_data.c->real());
       break;
@@ -2685,15 +2697,16 @@ namespace GC_namespace {
       value = static_cast<uint_type>(iv->second.m_data.i);
       break;
     case GC_type::LONG:
-      if ( iv->second.m_data.l < 0 ) return false;
+      if ( iv->second.m_data.l < 0 ||
+           iv->second.m_data.l > static_cast<long_type>(std::numeric_limits<uint_type>::max()) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! fitsInteger<uint_type>(iv->second.m_data.r) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+      if ( ! ( fitsInteger<uint_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.c->real());
       break;
@@ -2739,11 +2752,11 @@ namespace GC_namespace {
       value = iv->second.m_data.l;
       break;
     case GC_type::REAL:
-      if ( ! isInteger(iv->second.m_data.r) ) return false;
+      if ( ! fitsInteger<long_type>(iv->second.m_data.r) ) return false;
       value = static_cast<long_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+      if ( ! ( fitsInteger<long_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<long_type>(iv->second.m_data.c->real());
       break;
@@ -2791,11 +2804,11 @@ namespace GC_namespace {
       value = static_cast<ulong_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! fitsInteger<ulong_type>(iv->second.m_data.r) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+      if ( ! ( fitsInteger<ulong_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.c->real());
       break;
diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 67ada09..5d13bfa 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -25,6 +25,7 @@
 #include <iomanip>
 #include <cmath>
 #include <algorithm>
+#include <limits>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -49,8 +50,13 @@ namespace GC_namespace {
   static bool isInteger( real_type const x )
   { using std::round; return isZero0( x-round(x) ); }
 
-  static bool isUnsigned( real_type const x )
-  { return isInteger(x) && x >= 0; }
+  // true when x is an integer number which can be represented by type T
+  template <typename T>
+  static bool fitsInteger( real_type const x ) {
+    return isInteger(x) &&
+           x >= static_cast<real_type>(std::numeric_limits<T>::min()) &&
+           x <  static_cast<real_type>(std::numeric_limits<T>::max()/2+1)*2;
+  }
 
   #endif
 
@@ -86,7 +92,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          fitsInteger<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -110,7 +116,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          fitsInteger<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -119,7 +125,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -128,7 +134,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -149,7 +155,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          fitsInteger<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -158,7 +164,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -221,7 +227,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          fitsInteger<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -251,7 +257,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          fitsInteger<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -260,7 +266,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -269,7 +275,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<uint_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         );
@@ -296,7 +302,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          fitsInteger<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -305,7 +311,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -354,7 +360,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          fitsInteger<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -372,7 +378,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          fitsInteger<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -381,7 +387,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -390,7 +396,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -405,7 +411,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          fitsInteger<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -414,7 +420,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -477,7 +483,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          fitsInteger<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -507,7 +513,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          fitsInteger<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -516,7 +522,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
@@ -525,7 +531,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         );
@@ -552,7 +558,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          fitsInteger<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -561,7 +567,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fitsInteger<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
-- 
2.43.0


From bd1d0b7efc9336652e31fb3b35289e5d42077139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:06 +0000
Subject: [PATCH 16/43] fix: complex matrices were serialised twice over,
 pointers not read back, and reading trusted the sizes and strings found in
 the buffer

---
 src/GenericContainerSerialize.cc | 188 ++++++++++++++++++++-----------
 1 file changed, 122 insertions(+), 66 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index c8b0958..68c6daf 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -33,7 +33,7 @@ namespace GC_namespace {
 
   static
   uint32_t
-  int8_to_buffer( int8_t in, uint8_t * buffer, uint32_t const available ) {
+  int8_to_buffer( int8_t in, uint8_t * buffer, int32_t const available ) {
     GC_ASSERT( available >= 1, msg );
     buffer[0] = *reinterpret_cast<uint8_t*>(&in);
     return sizeof(int8_t);
@@ -41,7 +41,7 @@ namespace GC_namespace {
 
   static
   uint32_t
-  uint32_to_buffer( uint32_t in, uint8_t * buffer, uint32_t const available ) {
+  uint32_to_buffer( uint32_t in, uint8_t * buffer, int32_t const available ) {
     GC_ASSERT( available >= 4, msg );
     buffer[0] = static_cast<uint8_t>(in & 0xFF); in >>= 8;
     buffer[1] = static_cast<uint8_t>(in & 0xFF); in >>= 8;
@@ -52,13 +52,13 @@ namespace GC_namespace {
 
   static
   uint32_t
-  int32_to_buffer( int32_t in, uint8_t * buffer, uint32_t const available ) {
+  int32_to_buffer( int32_t in, uint8_t * buffer, int32_t const available ) {
     return uint32_to_buffer( *reinterpret_cast<uint32_t*>(&in), buffer, available );
   }
 
   static
   uint32_t
-  uint64_to_buffer( uint64_t in, uint8_t * buffer, uint32_t const available ) {
+  uint64_to_buffer( uint64_t in, uint8_t * buffer, int32_t const available ) {
     GC_ASSERT( available >= 8, msg );
     buffer[0] = static_cast<uint8_t>(in&0xFF); in >>= 8;
     buffer[1] = static_cast<uint8_t>(in&0xFF); in >>= 8;
@@ -73,13 +73,13 @@ namespace GC_namespace {
 
   static
   uint32_t
-  int64_to_buffer( int64_t in, uint8_t * buffer, uint32_t const available ) {
+  int64_to_buffer( int64_t in, uint8_t * buffer, int32_t const available ) {
     return uint64_to_buffer( *reinterpret_cast<uint64_t*>(&in), buffer, available );
   }
 
   static
   uint32_t
-  double_to_buffer( double const in, uint8_t * buffer, uint32_t const available ) {
+  double_to_buffer( double const in, uint8_t * buffer, int32_t const available ) {
     union { double f; uint64_t i; } tmp;
     tmp.f = in;
     uint64_to_buffer( tmp.i, buffer, available );
@@ -90,14 +90,16 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_uint8( uint8_t const * buffer, uint8_t * out ) {
+  buffer_to_uint8( uint8_t const * buffer, uint8_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 1, msg );
     *out = buffer[0];
     return sizeof(uint8_t);
   }
 
   static
   uint32_t
-  buffer_to_uint32( uint8_t const * buffer, uint32_t * out ) {
+  buffer_to_uint32( uint8_t const * buffer, uint32_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 4, msg );
     uint32_t const tmp0{ buffer[0] };
     uint32_t const tmp1{ buffer[1] };
     uint32_t const tmp2{ buffer[2] };
@@ -108,13 +110,14 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_int32( uint8_t const * buffer, int32_t * out ) {
-    return buffer_to_uint32( buffer, reinterpret_cast<uint32_t*>(out) );
+  buffer_to_int32( uint8_t const * buffer, int32_t * out, int32_t const available ) {
+    return buffer_to_uint32( buffer, reinterpret_cast<uint32_t*>(out), available );
   }
 
   static
   uint32_t
-  buffer_to_uint64( uint8_t const * buffer, uint64_t * out ) {
+  buffer_to_uint64( uint8_t const * buffer, uint64_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 8, msg );
     uint64_t const tmp0{ buffer[0] };
     uint64_t const tmp1{ buffer[1] };
     uint64_t const tmp2{ buffer[2] };
@@ -129,19 +132,45 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_int64( uint8_t const * buffer, int64_t * out ) {
-    return buffer_to_uint64( buffer, reinterpret_cast<uint64_t*>(out) );
+  buffer_to_int64( uint8_t const * buffer, int64_t * out, int32_t const available ) {
+    return buffer_to_uint64( buffer, reinterpret_cast<uint64_t*>(out), available );
   }
 
   static
   uint32_t
-  buffer_to_double( uint8_t const * buffer, double * out ) {
+  buffer_to_double( uint8_t const * buffer, double * out, int32_t const available ) {
     union { double f; uint64_t i; } tmp;
-    buffer_to_uint64( buffer, &tmp.i );
+    buffer_to_uint64( buffer, &tmp.i, available );
     *out = tmp.f;
     return sizeof(double);
   }
 
+  // text written as length (zero terminator included) followed by the characters
+  static
+  uint32_t
+  buffer_to_string( uint8_t const * buffer, string_type & out, int32_t const available ) {
+    int32_t len;
+    uint32_t const nb{ buffer_to_int32( buffer, &len, available ) };
+    GC_ASSERT( len > 0 && len <= available-static_cast<int32_t>(nb), msg );
+    out.assign( reinterpret_cast<char const*>(buffer+nb), static_cast<std::size_t>(len-1) );
+    return nb+static_cast<uint32_t>(len);
+  }
+
+  // number of items announced in the buffer, each one takes at least `item_size` bytes
+  static
+  void
+  check_items( int32_t const nitem, int32_t const item_size, int32_t const available ) {
+    GC_ASSERT( nitem >= 0 && nitem <= available/item_size, msg );
+  }
+
+  static
+  void
+  check_items( int32_t const nr, int32_t const nc, int32_t const item_size, int32_t const available ) {
+    GC_ASSERT(
+      nr >= 0 && nc >= 0 && static_cast<int64_t>(nr)*nc <= available/item_size, msg
+    );
+  }
+
   int32_t
   GenericContainer::mem_size() const {
     constexpr int32_t header_size { sizeof(int32_t) };
@@ -226,8 +255,8 @@ namespace GC_namespace {
       sz = static_cast<int32_t>(m_data.s->length()+1);
       nb = int32_to_buffer( sz, buffer, available );
       buffer += nb; available -= nb;
-      GC_ASSERT( sz <= available, msg );
-      memcpy( buffer, &m_data.s->front(), sz );
+      GC_ASSERT( sz > 0 && sz <= available, msg );
+      memcpy( buffer, m_data.s->c_str(), sz );
       buffer += sz; available -= sz;
       break;
     case GC_type::COMPLEX:
@@ -327,6 +356,7 @@ namespace GC_namespace {
         nb = double_to_buffer( c.imag(), buffer, available );
         buffer += nb; available -= nb;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = int32_to_buffer( static_cast<int32_t>(m_data.v_s->size()), buffer, available );
       buffer += nb; available -= nb;
@@ -334,8 +364,8 @@ namespace GC_namespace {
         sz = static_cast<int32_t>(s.length() + 1);
         nb = int32_to_buffer( sz, buffer, available );
         buffer += nb; available -= nb;
-        GC_ASSERT( sz <= available, msg );
-        memcpy( buffer, &s.front(), sz );
+        GC_ASSERT( sz > 0 && sz <= available, msg );
+        memcpy( buffer, s.c_str(), sz );
         buffer += sz; available -= sz;
       }
       break;
@@ -354,8 +384,8 @@ namespace GC_namespace {
         sz = static_cast<int32_t>(fst.length() + 1);
         nb = int32_to_buffer( sz, buffer, available );
         buffer += nb; available -= nb;
-        GC_ASSERT( sz <= available, msg );
-        memcpy( buffer, &fst.front(), sz );
+        GC_ASSERT( sz > 0 && sz <= available, msg );
+        memcpy( buffer, fst.c_str(), sz );
         buffer += sz; available -= sz;
         nb = snd.serialize( available, buffer );
         buffer += nb; available -= nb;
@@ -374,13 +404,13 @@ namespace GC_namespace {
   int32_t
   GenericContainer::de_serialize( int32_t buffer_dim, uint8_t const * buffer ) {
     //int_type ptr_size = 8;
-    int32_t sz, nb, nbyte;
+    int32_t sz, nb, nbyte{0};
     double  bf;
 
     this->clear();
 
     int32_t nr, nc, i32;
-    nbyte = nb = buffer_to_int32( buffer, &i32 );
+    nbyte = nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
     buffer += nb;
 
     switch (static_cast<TypeAllowed>(i32)) {
@@ -390,152 +420,176 @@ namespace GC_namespace {
     case GC_type::BOOL:
       m_data_type = GC_type::BOOL;
       uint8_t b;
-      nb = buffer_to_uint8( buffer, &b );
+      nb = buffer_to_uint8( buffer, &b, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       m_data.b = b > 0;
       break;
     case GC_type::INTEGER:
       m_data_type = GC_type::INTEGER;
-      nb = buffer_to_int32( buffer, &m_data.i );
+      nb = buffer_to_int32( buffer, &m_data.i, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::LONG:
       m_data_type = GC_type::LONG;
-      nb = buffer_to_int64( buffer, &m_data.l );
+      nb = buffer_to_int64( buffer, &m_data.l, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::REAL:
       m_data_type = GC_type::REAL;
-      nb = buffer_to_double( buffer, &m_data.r );
+      nb = buffer_to_double( buffer, &m_data.r, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
+      { int64_t p;
+        nb = buffer_to_int64( buffer, &p, buffer_dim-nbyte );
+        buffer += nb; nbyte += nb;
+        m_data.p = reinterpret_cast<pointer_type>(p);
+        m_data_type = GC_type::POINTER;
+      }
       break;
     case GC_type::STRING:
-      nb = buffer_to_int32( buffer, &i32 );
-      buffer += nb; nbyte += nb;
       allocate_string();
-      *m_data.s = reinterpret_cast<char const*>(buffer);
-      buffer += i32; nbyte += i32;
+      nb = buffer_to_string( buffer, *m_data.s, buffer_dim-nbyte );
+      buffer += nb; nbyte += nb;
       break;
     case GC_type::COMPLEX:
       allocate_complex();
-      nb = buffer_to_double( buffer, &bf ); m_data.c->real(bf);
+      nb = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); m_data.c->real(bf);
       buffer += nb; nbyte += nb;
-      nb = buffer_to_double( buffer, &bf ); m_data.c->imag(bf);
+      nb = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); m_data.c->imag(bf);
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
+      buffer += nb; nbyte += nb;
+      check_items( i32, 8, buffer_dim-nbyte );
+      allocate_vec_pointer(i32);
+      for ( auto & p : *m_data.v_p ) {
+        int64_t i64;
+        sz = buffer_to_int64( buffer, &i64, buffer_dim-nbyte );
+        buffer += sz; nbyte += sz;
+        p = reinterpret_cast<pointer_type>(i64);
+      }
       break;
     case GC_type::VEC_BOOL:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( i32, 1, buffer_dim-nbyte );
       allocate_vec_bool(0);
       m_data.v_b->reserve(i32);
       for ( int32_t i = 0; i < i32; ++i ) {
         uint8_t i8;
-        buffer_to_uint8( buffer, &i8 );
+        buffer_to_uint8( buffer, &i8, buffer_dim-nbyte );
         ++nb; ++buffer; ++nbyte;
         m_data.v_b->push_back( i8 > 0 );
       }
       break;
     case GC_type::VEC_INTEGER:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( i32, 4, buffer_dim-nbyte );
       allocate_vec_int(i32);
       for ( auto & i : *m_data.v_i ) {
-        sz = buffer_to_int32( buffer, &i );
+        sz = buffer_to_int32( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_LONG:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( i32, 8, buffer_dim-nbyte );
       allocate_vec_long(i32);
       for ( auto & i : *m_data.v_l ) {
-        sz = buffer_to_int64( buffer, &i );
+        sz = buffer_to_int64( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_REAL:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( i32, 8, buffer_dim-nbyte );
       allocate_vec_real(i32);
       for ( auto & r : *m_data.v_r ) {
-        sz = buffer_to_double( buffer, &r );
+        sz = buffer_to_double( buffer, &r, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_COMPLEX:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( i32, 16, buffer_dim-nbyte );
       allocate_vec_complex(i32);
       for ( auto & c : *m_data.v_c ) {
-        sz = buffer_to_double( buffer, &bf ); c.real(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.real(bf);
         nb += sz; buffer += sz; nbyte += sz;
-        sz = buffer_to_double( buffer, &bf ); c.imag(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_INTEGER:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( nr, nc, 4, buffer_dim-nbyte );
       allocate_mat_int( nr, nc );
       for ( auto & i : *m_data.m_i ) {
-        sz = buffer_to_int32( buffer, &i );
+        sz = buffer_to_int32( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_LONG:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( nr, nc, 8, buffer_dim-nbyte );
       allocate_mat_long( nr, nc );
       for ( auto & i : *m_data.m_l ) {
-        sz = buffer_to_int64( buffer, &i );
+        sz = buffer_to_int64( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_REAL:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( nr, nc, 8, buffer_dim-nbyte );
       allocate_mat_real( nr, nc );
       for ( auto & r : *m_data.m_r ) {
-        sz = buffer_to_double( buffer, &r );
+        sz = buffer_to_double( buffer, &r, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_COMPLEX:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( nr, nc, 16, buffer_dim-nbyte );
       allocate_mat_complex( nr, nc );
       for ( auto & c : *m_data.m_c ) {
-        sz = buffer_to_double( buffer, &bf ); c.real(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.real(bf);
         nb += sz; buffer += sz; nbyte += sz;
-        sz = buffer_to_double( buffer, &bf ); c.imag(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
+      break;
     case GC_type::VEC_STRING:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( i32, 5, buffer_dim-nbyte );
       allocate_vec_string(i32);
       for ( auto & s : *m_data.v_s ) {
-        nb = buffer_to_int32( buffer, &i32 );
+        nb = buffer_to_string( buffer, s, buffer_dim-nbyte );
         buffer += nb; nbyte += nb;
-        s = reinterpret_cast<char const*>(buffer);
-        buffer += i32; nbyte += i32;
       }
       break;
     case GC_type::VECTOR:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_items( i32, 4, buffer_dim-nbyte );
       allocate_vector(i32);
       for ( auto & S : *m_data.v ) {
         sz = S.de_serialize( buffer_dim-nbyte, buffer );
@@ -543,19 +597,21 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAP:
-      nb = buffer_to_int32( buffer, &i32 ); nr = i32;
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte ); nr = i32;
       buffer += nb; nbyte += nb;
+      check_items( nr, 9, buffer_dim-nbyte );
       allocate_map();
       for ( int32_t i = 0; i < nr; ++i ) {
-        nb = buffer_to_int32( buffer, &i32 );
+        string_type key;
+        nb = buffer_to_string( buffer, key, buffer_dim-nbyte );
         buffer += nb; nbyte += nb;
-        string_type key = reinterpret_cast<char const*>(buffer);
-        buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
         sz = (*m_data.m)[key].de_serialize( buffer_dim-nbyte, buffer );
         buffer += sz; nbyte += sz;
       }
       break;
+    default:
+      GC_DO_ERROR( "GenericContainer::de_serialize, unknown type code: " << i32 )
     }
     GC_ASSERT(
       nbyte <= buffer_dim,
-- 
2.43.0


From 95b85b486d8462b1a50f9cc4a22b45332b96a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 17/43] fix: collapse failed on vectors mixing numbers with
 other types and flattened vectors stored beside numbers

---
 src/GenericContainerCollapse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GenericContainerCollapse.cc b/src/GenericContainerCollapse.cc
index 1238a24..2a9517a 100755
--- a/src/GenericContainerCollapse.cc
+++ b/src/GenericContainerCollapse.cc
@@ -55,6 +55,7 @@ namespace GC_namespace {
         vector_type & v{*m_data.v};
         if ( v.empty() ) break; // empty vector nothing to do
         auto max_sub_type{GC_type::NOTYPE};
+        auto min_sub_type{GC_type::MAP};
         bool can_collapse{true};
         bool all_string{true};
         int_type last_nelem{-1};
@@ -64,6 +65,7 @@ namespace GC_namespace {
           auto ti{vi.get_type()};
           if ( ti != GC_type::STRING ) all_string = false;
           if ( max_sub_type < ti ) max_sub_type = ti;
+          if ( min_sub_type > ti ) min_sub_type = ti;
           int_type ne{ static_cast<int_type>(vi.get_num_elements()) };
           if ( last_nelem >= 0 && can_collapse ) {
             can_collapse = last_nelem == ne;
@@ -79,6 +81,9 @@ namespace GC_namespace {
           *this = tmp;
           break;
         }
+        // only numbers become a vector and only numeric vectors become a matrix
+        if ( min_sub_type < GC_type::BOOL ) break;
+        if ( max_sub_type > GC_type::COMPLEX && min_sub_type < GC_type::VEC_BOOL ) break;
         switch ( max_sub_type ) {
           case GC_type::BOOL: {
             vec_bool_type tmp; tmp.reserve(v.size());
-- 
2.43.0


From 9ac382d6524e1c0e4044e728363c428fc27644a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 18/43] fix: merging a map stored inside the target modified it
 while it was read

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 3d99b99..4b4d2a4 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3869,7 +3869,7 @@ namespace GC_namespace {
     )
     if ( m_data_type == GC_type::NOTYPE ) this->set_map();
     ck( where, GC_type::MAP );
-    { map_type const & m{gc.get_map()};
+    { map_type const m{gc.get_map()}; // a copy, gc may be stored in this container
       for ( const auto &[fst, snd] : m )
         (*this)[fst].from_gc(snd);
     }
-- 
2.43.0


From c3a77a8e6251fd81ec055170063a99e14b70f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:45 +0000
Subject: [PATCH 19/43] fix: concurrent dumps shared the buffer of the regular
 expression matches

---
 src/GenericContainer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 4b4d2a4..0847983 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -268,8 +268,7 @@ namespace GC_namespace {
 
   class Pcre_for_GC {
 
-    std::regex  reCompiled;
-    std::smatch reMatches;
+    std::regex reCompiled;
 
   public:
 
@@ -280,7 +279,8 @@ namespace GC_namespace {
     ~Pcre_for_GC() = default;
 
     int
-    exec( string_view const str_in, string_type matches[4] ) {
+    exec( string_view const str_in, string_type matches[4] ) const {
+      std::smatch reMatches;
       if ( string const str(str_in); std::regex_match( str, reMatches, reCompiled ) ) {
         for ( size_t i{0}; i < reMatches.size(); ++i ) matches[i] = reMatches[i].str();
         return static_cast<int>(reMatches.size());
@@ -289,7 +289,7 @@ namespace GC_namespace {
     }
   };
 
-  static Pcre_for_GC pcre_for_GC;
+  static Pcre_for_GC const pcre_for_GC;
 
   #endif
 
-- 
2.43.0


From 0dc9bc325a71420a6c25011135fa5228172ad4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:45 +0000
Subject: [PATCH 20/43] fix: table output read missing columns and headers

---
 src/GenericContainerTables.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerTables.cc b/src/GenericContainerTables.cc
index 24a178e..6edeaef 100755
--- a/src/GenericContainerTables.cc
+++ b/src/GenericContainerTables.cc
@@ -39,6 +39,8 @@ namespace GC_namespace {
   ) {
 
     auto const ncol{ static_cast<unsigned>(headers.size()) };
+    if ( ncol == 0 ) return;
+    GC_ASSERT( data.size() >= ncol, "write_table, found " << data.size() << " columns expected " << ncol )
     auto const nrow{ (data[0].get_num_elements()) };
 
     stream << headers[0];
@@ -65,6 +67,9 @@ namespace GC_namespace {
     auto const ncol{ (data.num_cols()) };
     auto const nrow{ (data.num_rows()) };
 
+    if ( ncol == 0 ) return;
+    GC_ASSERT( headers.size() >= ncol, "write_table, found " << headers.size() << " headers expected " << ncol )
+
     stream << headers[0];
     for ( unsigned icol{1}; icol < ncol; ++icol )
       stream << delimiter << headers[icol];
@@ -86,9 +91,9 @@ namespace GC_namespace {
   ) {
 
     auto const ncol{ static_cast<unsigned>(headers.size()) };
-    auto const nrow{ (data[0].get_num_elements()) };
-
     if ( ncol == 0 ) return;
+    GC_ASSERT( data.size() >= ncol, "write_table_formatted, found " << data.size() << " columns expected " << ncol )
+    auto const nrow{ (data[0].get_num_elements()) };
 
     // calcolo lunghezza massima stringhe headers
     unsigned ml { 0 };
@@ -127,6 +132,7 @@ namespace GC_namespace {
     auto const nrow{ (data.num_rows()) };
 
     if ( ncol == 0 ) return;
+    GC_ASSERT( headers.size() >= ncol, "write_table_formatted, found " << headers.size() << " headers expected " << ncol )
 
     // calcolo lunghezza massima stringhe headers
     unsigned ml { 0 };
-- 
2.43.0


From 1abc8aa25a23da3d2d15ed225091398c4cac52a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:45 +0000
Subject: [PATCH 21/43] fix: printing a pointer left the stream in hexadecimal
 mode, so later numbers came out in base 16

---
 include/GenericContainer/GenericContainer.hh |  5 +++++
 src/GenericContainer.cc                      | 11 +++++++++--
 src_json_interface/to_json.cc                |  4 ++--
 src_yaml_interface/to_yaml.cc                |  4 ++--
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 6aa727d..dd65b56 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -4518,6 +4518,11 @@ namespace GC_namespace {
   //!
   void string_escape( ostream_type & stream, string const & s );
 
+  //!
+  //! Address in hexadecimal form, used to print pointers
+  //!
+  string pointer_to_string( void const * p );
+
 }
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0847983..39dde4a 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -103,6 +103,13 @@ namespace GC_namespace {
     stream << '"';
   }
 
+  string
+  pointer_to_string( void const * p ) {
+    ostringstream data;
+    data << std::hex << std::showbase << reinterpret_cast<uintptr_t>(p);
+    return data.str();
+  }
+
   template <typename TYPE>
   ostream_type &
   operator << ( ostream_type & s, vector<TYPE> const & v ) {
@@ -3470,7 +3477,7 @@ namespace GC_namespace {
       stream << prefix << "null\n";
       break;
     case GC_type::POINTER:
-      stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+      stream << prefix << pointer_to_string(m_data.p) << '\n';
       break;
     case GC_type::BOOL:
       stream << prefix << (m_data.b?"true":"false") << '\n';
@@ -3494,7 +3501,7 @@ namespace GC_namespace {
       { vec_pointer_type const & v{*m_data.v_p};
         for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
           stream << prefix << "vec_pointer(" << i << "): "
-                 << std::hex << std::showbase << reinterpret_cast<uintptr_t>(v[i]) << '\n';
+                 << pointer_to_string(v[i]) << '\n';
       }
       break;
     case GC_type::VEC_BOOL:
diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index c2ed0bf..b13950c 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -180,13 +180,13 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p);
+        stream << pointer_to_string(m_data.p);
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         char const * pre{"[ "};
         for ( auto const & vi : V ) {
-          stream << pre << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi);
+          stream << pre << pointer_to_string(vi);
           pre = ", ";
         }
         stream << " ]";
diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 4e5dfcb..674aeb1 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -189,13 +189,13 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+        stream << pointer_to_string(m_data.p) << '\n';
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         stream << '\n';
         for ( auto const & vi : V ) {
-          stream << prefix << "- " << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi) << '\n';
+          stream << prefix << "- " << pointer_to_string(vi) << '\n';
         }
         break;
       }
-- 
2.43.0


From fcfe6a7f59d978cf2c315dfa15d4f3cf123b4194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:45 +0000
Subject: [PATCH 22/43] fix: JSON output of empty vectors, maps and matrices,
 of keys, pointers and control characters was not valid JSON

---
 src/GenericContainer.cc       |  8 +++++---
 src_json_interface/to_json.cc | 38 +++++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 39dde4a..2d9f707 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -94,11 +94,13 @@ namespace GC_namespace {
       else if ( c == '\n' ) { stream << "\\n"; }
       else if ( c == '\r' ) { stream << "\\r"; }
       else if ( c == '\t' ) { stream << "\\t"; }
-      else if ( c == '\v' ) { stream << "\\v"; }
       else if ( c == '\b' ) { stream << "\\b"; }
-      else if ( c == '\a' ) { stream << "\\a"; }
       else if ( c == '\\' ) { stream << "\\\\"; }
-      else                    stream << c;
+      else if ( static_cast<unsigned char>(c) < 0x20 ) {
+        // other control characters
+        char const * const hex{"0123456789abcdef"};
+        stream << "\\u00" << hex[c/16] << hex[c%16];
+      } else stream << c;
     }
     stream << '"';
   }
diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index b13950c..734a5ee 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -76,7 +76,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        string_view pre{"[ "};
+        string_view pre;
+        stream << "[ ";
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -85,7 +86,8 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR(VDATA)              \
-      string_view pre = "[ ";                     \
+        string_view pre;                          \
+        stream << "[ ";                           \
         for ( auto const & vi : v )               \
           { stream << pre << VDATA; pre = ", "; } \
         stream << " ]"
@@ -112,7 +114,8 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        char const * pre = "";
+        stream << "[ ";
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]";
@@ -129,6 +132,8 @@ namespace GC_namespace {
             pre = ",\n";
           }
           stream << '\n' << prefix << "]";
+        } else {
+          stream << "[]";
         }
         break;
       }
@@ -138,26 +143,32 @@ namespace GC_namespace {
           stream << '\n' << prefix;
           char const * pre{"{\n"};
           for ( auto const & im : m ) {
-            stream << pre << prefix << indent << '"' << im.first <<  '"' << ": ";
+            stream << pre << prefix << indent;
+            string_escape( stream, im.first );
+            stream << ": ";
             im.second.to_json(stream,prefix1);
             pre = ",\n";
           }
           stream << '\n' << prefix << "}";
+        } else {
+          stream << "{}";
         }
         break;
       }
       #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
-        stream << "[\n";                             \
-        string pre0 = prefix1+"[ ";                  \
+        stream << "[";                               \
+        char const * pre0{"\n"};                     \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          string pre{pre0};                          \
+          char const * pre{""};                      \
+          stream << pre0 << prefix1 << "[ ";         \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << MDATA; pre = ", "; }  \
-          pre0 = " ],\n"+prefix1+"[ ";               \
+          stream << " ]";                            \
+          pre0 = ",\n";                              \
         }                                            \
-        stream << " ]\n" << prefix << "]"
+        stream << '\n' << prefix << "]"
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
@@ -176,17 +187,18 @@ namespace GC_namespace {
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX("'" << to_string(M(i,j)) << "'");
+        GC_PRINT_MATRIX('"' << to_string(M(i,j)) << '"');
         break;
       }
       case GC_type::POINTER:
-        stream << pointer_to_string(m_data.p);
+        stream << '"' << pointer_to_string(m_data.p) << '"';
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
-        char const * pre{"[ "};
+        char const * pre{""};
+        stream << "[ ";
         for ( auto const & vi : V ) {
-          stream << pre << pointer_to_string(vi);
+          stream << pre << '"' << pointer_to_string(vi) << '"';
           pre = ", ";
         }
         stream << " ]";
-- 
2.43.0


From 6533b4986e5c70d2ba2f48467f89d6ced5dde8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:45 +0000
Subject: [PATCH 23/43] fix: YAML output of empty vectors and matrices had
 unbalanced brackets

---
 src_yaml_interface/to_yaml.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 674aeb1..8874ab6 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -75,7 +75,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        char const * pre = "[ ";
+        char const * pre = "";
+        stream << "[ ";
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -84,7 +85,8 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR                  \
-        char const * pre = "[ ";               \
+        char const * pre = "";                 \
+        stream << "[ ";                        \
         for ( auto const & vi : v )            \
           { stream << pre << vi; pre = ", "; } \
         stream << " ]\n"
@@ -110,7 +112,8 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        char const * pre = "";
+        stream << "[ ";
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]\n";
@@ -149,8 +152,8 @@ namespace GC_namespace {
         unsigned NC{M.num_cols()};                   \
         stream << '\n';                              \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          stream << prefix;                          \
-          char const * pre = "- [ ";                 \
+          stream << prefix << "- [ ";                \
+          char const * pre = "";                     \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << M(i,j); pre = ", "; } \
           stream << " ]\n";                          \
-- 
2.43.0


From 8acb8be8c9f850b58fcf65698f456381f98dfcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 24/43] fix: TOML output of empty containers dereferenced a
 null node, real and complex matrices were labelled as long

---
 src_toml_interface/to_toml.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index d8a1218..8e6fe3e 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -63,7 +63,7 @@ namespace GC_namespace {
     std::unique_ptr<toml::array> empty;
     switch ( gc.get_type() ) {
       case GC_type::NOTYPE:
-        return empty;
+        GC_DO_ERROR( "an empty container has no TOML representation" )
       case GC_type::BOOL:    return NEW_UNIQUE( toml::value<bool>,    gc.get_bool() );
       case GC_type::INTEGER: return NEW_UNIQUE( toml::value<int64_t>, gc.get_int()  );
       case GC_type::LONG:    return NEW_UNIQUE( toml::value<int64_t>, gc.get_long() );
@@ -151,7 +151,7 @@ namespace GC_namespace {
         mat_real.insert("$ncols",gc.num_cols());
         mat_real.insert("$data",data);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_real) );
+        node->as_table()->insert( "$mat_real", std::move(mat_real) );
         return node;
       }
       case GC_type::MAT_COMPLEX: {
@@ -166,7 +166,7 @@ namespace GC_namespace {
         mat_complex.insert("$data_real",data_real);
         mat_complex.insert("$data_imag",data_imag);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_complex) );
+        node->as_table()->insert( "$mat_complex", std::move(mat_complex) );
         return node;
       }
       case GC_type::POINTER: {
-- 
2.43.0


From bde22360724618fab71a1894a0be726f5a78425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 25/43] fix: TOML integer arrays with values beyond 32 bits
 were truncated

---
 src_toml_interface/from_toml.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 70ab7cb..1f67f87 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -140,10 +140,16 @@ namespace GC_namespace {
       bool is_string_array  { true };
       bool is_integer_array { true };
       bool is_float_array   { true };
+      bool is_int32_array   { true };
       for ( const auto & value : *ary ) {
         if ( !value.is_string()         ) is_string_array  = false;
         if ( !value.is_integer()        ) is_integer_array = false;
         if ( !value.is_floating_point() ) is_float_array   = false;
+        if ( value.is_integer() ) {
+          std::int64_t const tmp{ value.as_integer()->get() };
+          if ( tmp < numeric_limits<int_type>::min() || tmp > numeric_limits<int_type>::max() )
+            is_int32_array = false;
+        }
       }
       size_t N{ ary->size() };
       if ( is_string_array ) {
@@ -152,6 +158,12 @@ namespace GC_namespace {
         V.reserve( N );
         for ( const auto & value : *ary ) V.emplace_back( value.as_string()->get() );
 
+      } else if (is_integer_array && !is_int32_array) {
+
+        GC::vec_long_type & V{ gc.set_vec_long() };
+        V.reserve( N );
+        for ( const auto & value : *ary ) V.emplace_back( value.as_integer()->get() );
+
       } else if (is_integer_array) {
 
         GC::vec_int_type & V{ gc.set_vec_int() };
-- 
2.43.0


From 85209873b481cbb5010e74b1ffa9dd8bcf5c7cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 26/43] fix: JSON import wrapped unsigned numbers, dropped
 failures inside arrays and cut texts at zero characters

---
 src_json_interface/from_json.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 5c109e8..578b549 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -65,24 +65,24 @@ namespace GC_namespace {
     } else if ( value.IsInt() ) {
       gc = value.GetInt();
     } else if ( value.IsUint() ) {
-      gc = value.GetUint();
+      gc.set_long( static_cast<long_type>(value.GetUint()) );
     } else if ( value.IsInt64() ) {
       gc = value.GetInt64();
     } else if ( value.IsUint64() ) {
-      gc = value.GetUint64();
+      gc.set_real( static_cast<real_type>(value.GetUint64()) ); // too large for long_type
     } else if ( value.IsDouble() ) {
       gc = value.GetDouble();
     } else if ( value.IsString() ) {
-      gc = value.GetString();
+      gc.set_string( string( value.GetString(), value.GetStringLength() ) );
     } else if ( value.IsArray() ) {
       vector_type & V{ gc.set_vector( value.Size() ) };
-      for ( rapidjson::SizeType i{0}; i < value.Size(); ++i )
-        decode_json( V[i], value[i] );
+      for ( rapidjson::SizeType i{0}; ok && i < value.Size(); ++i )
+        ok = decode_json( V[i], value[i] );
     } else if ( value.IsObject() ) {
       map_type & M{ gc.set_map() };
       map<std::string, GenericContainer> object;
       for ( auto it = value.MemberBegin(); ok && it != value.MemberEnd(); ++it ) {
-        GenericContainer & gc1 = M[it->name.GetString()];
+        GenericContainer & gc1 = M[string( it->name.GetString(), it->name.GetStringLength() )];
         ok = decode_json(gc1,it->value);
       }
     } else {
-- 
2.43.0


From c18f917e78e20c6b01d65bb5189a8ac28081bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:45 +0000
Subject: [PATCH 27/43] fix: the JSON lexer read past the end of the input and
 took malformed text for the end of the file

---
 src_json_interface/jsonLexer.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index a4c38c8..8b261b5 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -33,6 +33,8 @@ namespace yy {
       else                    break;
     } while ( ++m_cursor != m_input.end() );
 
+    if ( m_cursor == m_input.end() ) return 0; // EOF
+
     auto res{yy::parser::token::ERROR};
 
     if ( !unicode_1(*m_cursor) ) return res;
@@ -72,7 +74,7 @@ namespace yy {
         // controllo che non sia unicode
         if ( unicode_1(ch0) ) {
           if ( ch0 == '\\' ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // incomplete
             char const & ch1{*m_cursor};
             switch (ch1) {
             case 'n':  m_lexeme += '\n'; break;
@@ -91,17 +93,17 @@ namespace yy {
           }
         } else { // multibyte unicode
           m_lexeme += ch0;
-          if ( ++m_cursor == m_input.end() ) return 0; // EOF
+          if ( ++m_cursor == m_input.end() ) return res; // incomplete
           char const & ch1{*m_cursor};
           if ( !ok_unicode(ch1) ) break; // Invalid UTF-8 continuation byte
           m_lexeme += ch1;
           if ( unicode_min_3(ch0) ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // incomplete
             char const & ch2{*m_cursor};
             if ( !ok_unicode(ch2) ) break; // Invalid UTF-8 continuation byte
             m_lexeme += ch2;
             if ( unicode_min_4(ch0) ) {
-              if ( ++m_cursor == m_input.end() ) return 0; // EOF
+              if ( ++m_cursor == m_input.end() ) return res; // incomplete
               char const & ch3{*m_cursor};
               if ( !ok_unicode(ch3) ) break; // Invalid UTF-8 continuation byte
               m_lexeme += ch3;
@@ -137,7 +139,7 @@ namespace yy {
           if ( state > 2 || state == 0 ) break;
           state = 3;
         } else if ( ch == '+' || ch == '-' ) {
-          if ( state != 3 ) return false;
+          if ( state != 3 ) return res;
           state = 4;
         } else {
           //std::cout << "STATE = " << state << '\n';
@@ -147,13 +149,17 @@ namespace yy {
           break;
         }
       }
+      if ( m_cursor == m_input.end() ) {
+        if      ( state == 1               ) res = yy::parser::token::INTEGER;
+        else if ( state == 4 || state == 2 ) res = yy::parser::token::FLOAT;
+      }
       break;
     }
     if ( res == yy::parser::token::ERROR ) {
       //std::cerr << "lexeme: " << m_lexeme << "\n";
       //std::cerr << "FAILED\n";
       m_cursor = start_pos;  // Ripristina la posizione iniziale
-      return -1;             // Se nessuna corrispondenza
+      return res;            // Se nessuna corrispondenza
     } else {
       m_colno += m_cursor-start_pos;
       //yylloc->begin.line   = m_lineno;
-- 
2.43.0


From 9aba4376294d991ea8d7435d83377609d99096b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:45 +0000
Subject: [PATCH 28/43] fix: the JSON parser lost nested arrays and unreadable
 numbers

---
 src_json_interface/jsonParser.tab.hh | 14 ++++++++++----
 src_json_interface/jsonParser.yy     | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 7df0263..61782d7 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -48,6 +48,7 @@
 #line 4 "jsonParser.yy"
 
   #include <cstdlib>
+  #include <cerrno>
   #include <sstream>
   #include "jsonLexer.hh"
   #include "GenericContainer.hh"
@@ -97,15 +98,20 @@
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
       double d = std::strtod( s.c_str(), &end );
-      if ( *end == '\0' ) gc->set_real( d );
+      if ( end == s.c_str() || *end != '\0' )
+        GenericContainer::exception( "JSON parser, bad number: " + s );
+      gc->set_real( d );
     }
 
     void
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
-      if ( *end == '\0' ) {
+      if ( errno == ERANGE ) { // too large for an integer type
+        gc->set_real( std::strtod( s.c_str(), &end ) );
+      } else {
         if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
@@ -121,8 +127,8 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index c9e16a1..260a2db 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -3,6 +3,7 @@
 
 %code requires {
   #include <cstdlib>
+  #include <cerrno>
   #include <sstream>
   #include "jsonLexer.hh"
   #include "GenericContainer.hh"
@@ -52,15 +53,20 @@
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
       double d = std::strtod( s.c_str(), &end );
-      if ( *end == '\0' ) gc->set_real( d );
+      if ( end == s.c_str() || *end != '\0' )
+        GenericContainer::exception( "JSON parser, bad number: " + s );
+      gc->set_real( d );
     }
 
     void
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
-      if ( *end == '\0' ) {
+      if ( errno == ERANGE ) { // too large for an integer type
+        gc->set_real( std::strtod( s.c_str(), &end ) );
+      } else {
         if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
@@ -76,8 +82,8 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
-- 
2.43.0


From e24ee84e9a57c396e623c9680ea5d00d1d20f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:43 +0000
Subject: [PATCH 29/43] fix: iterating the keys through the C interface used a
 stale or missing map, and never told the end to the Ruby binding

---
 src/GenericContainerInterface_C.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index bf24c5a..c8c1de4 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -59,8 +59,9 @@ namespace GC_namespace {
     GenericContainer         data;
     deque<GenericContainer*> head;
 
-    map_type         * ptr_map{nullptr};
-    map_type::iterator map_iterator;
+    enum class KeyState { NONE, FIRST, NEXT };
+    KeyState    key_state{KeyState::NONE};
+    string_type last_key;
 
   public:
 
@@ -169,16 +170,20 @@ namespace GC_namespace {
   GenericContainerExplorer::init_map_key() {
     int const ok{ check( GC_type::MAP ) };
     if ( ok == GENERIC_CONTAINER_OK ) {
-      ptr_map = &head.back()->get_map();
-      map_iterator = ptr_map->begin();
+      key_state = KeyState::FIRST;
     }
     return ok;
   }
 
   string_view
   GenericContainerExplorer::next_map_key() {
-    if ( map_iterator != ptr_map->end() ) return map_iterator++->first;
-    return "";
+    if ( key_state == KeyState::NONE || check( GC_type::MAP ) != GENERIC_CONTAINER_OK ) return {};
+    map_type const & m{ head.back()->get_map() };
+    auto const it{ key_state == KeyState::FIRST ? m.begin() : m.upper_bound( last_key ) };
+    if ( it == m.end() ) return {}; // null pointer marks the end
+    last_key  = it->first;
+    key_state = KeyState::NEXT;
+    return it->first;
   }
 
   int
-- 
2.43.0


From f160270d91cf5d2b0e51d29e895c60141eab9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:43 +0000
Subject: [PATCH 30/43] fix: deleting a container through the C interface
 leaked it and left it selected

---
 src/GenericContainerInterface_C.cc | 43 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index c8c1de4..5712970 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -42,6 +42,7 @@
 #include <string>
 #include <deque>
 #include <algorithm>
+#include <memory>
 
 namespace GC_namespace {
 
@@ -206,8 +207,7 @@ catch(std::runtime_error & err) {               \
 
 using namespace ::GC_namespace;
 
-typedef std::map<string_type,GenericContainerExplorer*>  MAP;
-typedef std::pair<string_type,GenericContainerExplorer*> MAP_DATA;
+typedef std::map<string_type,std::unique_ptr<GenericContainerExplorer>> MAP;
 
 static MAP                        gc_explorer;
 static GenericContainerExplorer * gc_active = nullptr;
@@ -217,37 +217,46 @@ extern "C" {
 int
 GC_new( char const id[] ) {
   // ckeck if exists
-  auto pos = gc_explorer.find(id);
-  if ( pos == gc_explorer.end() ) {
-    gc_explorer.insert( MAP_DATA( id, new GenericContainerExplorer() ) );
-    pos = gc_explorer.find(id);
-  }
-  gc_active = pos->second;
+  GC_TRY(
+    auto pos = gc_explorer.find(id);
+    if ( pos == gc_explorer.end() ) {
+      gc_explorer.emplace( id, std::make_unique<GenericContainerExplorer>() );
+      pos = gc_explorer.find(id);
+    }
+    gc_active = pos->second.get();
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_select( char const id[] ) {
   // ckeck if exists
-  auto pos{ gc_explorer.find(id) };
-  if ( pos == gc_explorer.end() ) {
-    gc_explorer.insert( MAP_DATA( id, new GenericContainerExplorer() ) );
-    pos = gc_explorer.find(id);
-  }
-  gc_active = pos->second;
+  GC_TRY(
+    auto pos{ gc_explorer.find(id) };
+    if ( pos == gc_explorer.end() ) {
+      gc_explorer.emplace( id, std::make_unique<GenericContainerExplorer>() );
+      pos = gc_explorer.find(id);
+    }
+    gc_active = pos->second.get();
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 void *
 GC_mem_ptr( char const id[] ) {
-  GC_select( id );
-  if ( gc_active == nullptr ) return nullptr;
+  if ( GC_select( id ) != GENERIC_CONTAINER_OK ) return nullptr;
   return gc_active->mem_ptr();
 }
 
 int
 GC_delete( char const id[] ) {
-  gc_explorer.erase(id);
+  GC_TRY(
+    auto const pos = gc_explorer.find(id);
+    if ( pos != gc_explorer.end() ) {
+      if ( gc_active == pos->second.get() ) gc_active = nullptr;
+      gc_explorer.erase(pos);
+    }
+  );
   return GENERIC_CONTAINER_OK;
 }
 
-- 
2.43.0


From 0ffb865128cff35fdf096746c9992dea5cea1dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:01 +0000
Subject: [PATCH 31/43] fix: exceptions crossed the C interface, negative sizes
 were used as huge ones, reading an element could resize the container

---
 src/GenericContainerInterface_C.cc | 173 ++++++++++++++++++-----------
 1 file changed, 109 insertions(+), 64 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 5712970..62ee965 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -196,8 +196,8 @@ namespace GC_namespace {
 
 }
 
-#define GC_TRY(A)                               \
-try { A; }                                      \
+#define GC_TRY(...)                             \
+try { __VA_ARGS__; }                            \
 catch(std::runtime_error & err) {               \
   std::cerr << "Error: " << err.what() << "\n"; \
   return GENERIC_CONTAINER_NO_DATA;             \
@@ -205,6 +205,15 @@ catch(std::runtime_error & err) {               \
   return GENERIC_CONTAINER_NO_DATA;             \
 }
 
+#define GC_TRY_RETURN(BAD,...)                  \
+try { return __VA_ARGS__; }                     \
+catch(std::runtime_error & err) {               \
+  std::cerr << "Error: " << err.what() << "\n"; \
+  return BAD;                                   \
+} catch (...) {                                 \
+  return BAD;                                   \
+}
+
 using namespace ::GC_namespace;
 
 typedef std::map<string_type,std::unique_ptr<GenericContainerExplorer>> MAP;
@@ -263,7 +272,8 @@ GC_delete( char const id[] ) {
 int
 GC_fill_for_test( char const id[] ) {
   // ckeck if exists
-  GC_select( id );
+  if ( GC_select( id ) != GENERIC_CONTAINER_OK ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
   GenericContainer & gc =
      *static_cast<GenericContainer*>(gc_active->mem_ptr());
 
@@ -322,20 +332,20 @@ GC_fill_for_test( char const id[] ) {
   gm1.set_mat_complex(2,2);
   gm1.get_complex_at(1,1) = std::complex<double>(2,2);
   gm1.get_complex_at(0,1) = std::complex<double>(1,-1);
-
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_pop_head() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  return gc_active->pop();
+  GC_TRY_RETURN( GENERIC_CONTAINER_NO_DATA, gc_active->pop() )
 }
 
 int
 GC_reset_head() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  return gc_active->reset();
+  GC_TRY_RETURN( GENERIC_CONTAINER_NO_DATA, gc_active->reset() )
 }
 
 int
@@ -355,14 +365,14 @@ GC_dump() {
 int
 GC_get_type() {
   if ( gc_active == nullptr ) return -1;
-  return static_cast<int>(gc_active->top()->get_type());
+  GC_TRY_RETURN( -1, static_cast<int>(gc_active->top()->get_type()) )
 }
 
 char const *
 GC_get_type_name() {
   static char const * empty{""};
   if ( gc_active == nullptr ) return empty;
-  return gc_active->top()->get_type_name().data();
+  GC_TRY_RETURN( empty, gc_active->top()->get_type_name().data() )
 }
 
 //..............................................................................
@@ -414,54 +424,57 @@ GC_set_string( char const a[] ) {
 int
 GC_get_bool() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_bool() ? 1 : 0;
+  GC_TRY_RETURN( 0, gc_active->top()->get_bool() ? 1 : 0 )
 }
 
 int
 GC_get_int() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int();
+  GC_TRY_RETURN( 0, gc_active->top()->get_int() )
 }
 
 long
 GC_get_long() {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_long();
+  GC_TRY_RETURN( 0, gc_active->top()->get_long() )
 }
 
 double
 GC_get_real( ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real();
+  GC_TRY_RETURN( 0, gc_active->top()->get_real() )
 }
 
 c_complex_type
 GC_get_complex( ) {
   c_complex_type tmp{ 0, 0 };
-  if ( gc_active != nullptr ) {
+  if ( gc_active == nullptr ) return tmp;
+  try {
     complex_type const t = gc_active->top()->get_complex();
     tmp.real = t.real();
     tmp.imag = t.imag();
+  } catch (...) {
+    tmp.real = tmp.imag = 0;
   }
   return tmp;
 }
 
 double
 GC_get_complex_re( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().real();
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_RETURN( 0, gc_active->top()->get_complex().real() )
 }
 
 double
 GC_get_complex_im( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().imag();
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_RETURN( 0, gc_active->top()->get_complex().imag() )
 }
 
 char const *
 GC_get_string( ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string().data();
+  GC_TRY_RETURN( nullptr, gc_active->top()->get_string().data() )
 }
 
 //..............................................................................
@@ -513,48 +526,62 @@ GC_push_string( char const a[] ) {
 int
 GC_get_bool_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  bool const val{ gc_active->top()->get_bool_at(pos) };
-  return val ? 1 : 0;
+  GC_TRY_RETURN( 0, gc_active->top()->get_bool_at( static_cast<unsigned>(pos), "GC_get_bool_at_pos" ) ? 1 : 0 )
 }
 
 int
 GC_get_int_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int_at( static_cast<unsigned>(pos) );
+  GC_TRY_RETURN( 0, gc_active->top()->get_int_at( static_cast<unsigned>(pos), "GC_get_int_at_pos" ) )
 }
 
 double
 GC_get_real_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_number_at( static_cast<unsigned>(pos) );
+  GC_TRY_RETURN( 0, gc_active->top()->get_number_at( static_cast<unsigned>(pos) ) )
 }
 
 c_complex_type
 GC_get_complex_at_pos( int const pos ) {
   c_complex_type tmp;
   tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag );
+  if ( gc_active == nullptr ) return tmp;
+  try {
+    gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag );
+  } catch (...) {
+    tmp.real = tmp.imag = 0;
+  }
   return tmp;
 }
 
 double
 GC_get_complex_real_at_pos( int const pos ) {
   real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
+  if ( gc_active == nullptr ) return 0;
+  try {
+    gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
+  } catch (...) {
+    return 0;
+  }
   return re;
 }
 
 double
 GC_get_complex_imag_at_pos( int const pos ) {
   real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
+  if ( gc_active == nullptr ) return 0;
+  try {
+    gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
+  } catch (...) {
+    return 0;
+  }
   return im;
 }
 
 char const *
 GC_get_string_at_pos( int const pos ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string_at(pos).data();
+  GC_TRY_RETURN( nullptr, gc_active->top()->get_string_at( static_cast<unsigned>(pos), "GC_get_string_at_pos" ).data() )
 }
 
 //..............................................................................
@@ -562,37 +589,34 @@ GC_get_string_at_pos( int const pos ) {
 double
 GC_get_real_at_coor( int const i, int const j ) {
   if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j) );
+  GC_TRY_RETURN( 0, gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "GC_get_real_at_coor" ) )
 }
 
 c_complex_type
 GC_get_complex_at_coor( int const i, int const j ) {
   c_complex_type tmp;
   tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
+  if ( gc_active == nullptr ) return tmp;
+  try {
+    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "GC_get_complex_at_coor" ) };
     tmp.real = res.real();
     tmp.imag = res.imag();
+  } catch (...) {
+    tmp.real = tmp.imag = 0;
   }
   return tmp;
 }
 
 double
 GC_get_complex_real_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.real();
-  }
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_RETURN( 0, gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "GC_get_complex_real_at_coor" ).real() )
 }
 
 double
 GC_get_complex_imag_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.imag();
-  }
-  return 0;
+  if ( gc_active == nullptr ) return 0;
+  GC_TRY_RETURN( 0, gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "GC_get_complex_imag_at_coor" ).imag() )
 }
 
 //..............................................................................
@@ -600,35 +624,35 @@ GC_get_complex_imag_at_coor( int const i, int const j ) {
 int
 GC_set_empty_vector_of_bool() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_bool() );
+  GC_TRY( gc_active->top()->set_vec_bool().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_int() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_int() );
+  GC_TRY( gc_active->top()->set_vec_int().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_real() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_real() );
+  GC_TRY( gc_active->top()->set_vec_real().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_complex() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_complex() );
+  GC_TRY( gc_active->top()->set_vec_complex().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_string() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_string() );
+  GC_TRY( gc_active->top()->set_vec_string().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -637,8 +661,12 @@ GC_set_empty_vector_of_string() {
 int
 GC_set_vector_of_bool( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
-  for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_bool_type & v{ gc_active->top()->set_vec_bool() };
+    v.resize( static_cast<unsigned>(nelem) );
+    for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
+  );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -647,32 +675,48 @@ GC_set_vector_of_bool( int const * a, int const nelem ) {
 int
 GC_set_vector_of_int( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
-  std::copy_n( a, nelem, v.begin() );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_int_type & v{ gc_active->top()->set_vec_int() };
+    v.resize( static_cast<unsigned>(nelem) );
+    std::copy_n( a, nelem, v.begin() );
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_real( double const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_real_type & v{ gc_active->top()->set_vec_real(nelem) };
-  std::copy_n( a, nelem, v.begin() );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_real_type & v{ gc_active->top()->set_vec_real() };
+    v.resize( static_cast<unsigned>(nelem) );
+    std::copy_n( a, nelem, v.begin() );
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_complex( double const * re, double const * im, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_complex_type & v{gc_active->top()->set_vec_complex(nelem)};
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_complex_type & v{gc_active->top()->set_vec_complex()};
+    v.resize( static_cast<unsigned>(nelem) );
+    for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_string( char const ** a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_string_type & v{ gc_active->top()->set_vec_string(nelem) };
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_string_type & v{ gc_active->top()->set_vec_string() };
+    v.resize( static_cast<unsigned>(nelem) );
+    for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
+  );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -681,39 +725,41 @@ GC_set_vector_of_string( char const ** a, int const nelem ) {
 int
 GC_set_vector( int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vector(nelem) );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( gc_active->top()->set_vector().resize( static_cast<unsigned>(nelem) ) );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vector() );
+  GC_TRY( gc_active->top()->set_vector().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_get_vector_size() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->get_num_elements());
+  GC_TRY_RETURN( 0, static_cast<int>(gc_active->top()->get_num_elements()) )
 }
 
 int
 GC_get_matrix_num_rows() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_rows());
+  GC_TRY_RETURN( 0, static_cast<int>(gc_active->top()->num_rows()) )
 }
 
 int
 GC_get_matrix_num_cols() {
   if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_cols());
+  GC_TRY_RETURN( 0, static_cast<int>(gc_active->top()->num_cols()) )
 }
 
 int
 GC_push_vector_position( int const pos ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  return gc_active->push_vector_position(pos);
+  if ( pos < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY_RETURN( GENERIC_CONTAINER_NO_DATA, gc_active->push_vector_position(pos) )
 }
 
 //..............................................................................
@@ -733,20 +779,19 @@ GC_set_map() {
 int
 GC_push_map_position( char const pos[] ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  return gc_active->push_map_position( pos );
+  GC_TRY_RETURN( GENERIC_CONTAINER_NO_DATA, gc_active->push_map_position( pos ) )
 }
 
 int
 GC_init_map_key() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  int const ok{gc_active->init_map_key()};
-  return ok;
+  GC_TRY_RETURN( GENERIC_CONTAINER_NO_DATA, gc_active->init_map_key() )
 }
 
 char const *
 GC_get_next_key( void ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->next_map_key().data();
+  GC_TRY_RETURN( nullptr, gc_active->next_map_key().data() )
 }
 
 } // close extern "C"
-- 
2.43.0


From 96f9c27392e12c0a1e8a7daeab45184751fe1f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:13 +0000
Subject: [PATCH 32/43] fix: Lua numbers outside the 64 bit range and Lua
 tables with bad indices or mixed with booleans were mishandled

---
 .../GenericContainerInterface_lua.cc          | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 4968a88..ce7fcad 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -88,7 +88,12 @@ namespace GC_namespace {
   inline
   bool
   isInteger64( real_type x )
-  { return isZero( x-static_cast<int64_t>(floor(x)) ); }
+  {
+    // only numbers which can be stored in a 64 bit integer
+    return x >= -9223372036854775808.0 &&
+           x <   9223372036854775808.0 &&
+           isZero( x-floor(x) );
+  }
 
   /*
   //   _                _           ____  ____
@@ -108,14 +113,20 @@ namespace GC_namespace {
   push_vec_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
     // index start from 1 in LUA
-    unsigned    idx  = unsigned(lua_tointeger(L, -2)-1);
+    lua_Integer key = lua_tointeger(L, -2);
+    GC_ASSERT(
+      lua_isinteger(L, -2) && key >= 1 && key <= 4294967295LL,
+      "lua_table_to_GC, the index of a vector must be a positive integer"
+    )
+    unsigned    idx  = unsigned(key-1);
     lua_Integer type = lua_type(L, -1);
     switch( type ) {
     case LUA_TBOOLEAN:
       {
+        bool const val = lua_toboolean(L, -1) != 0;
         gc.get_bool_at(idx);
-        vec_bool_type & bv = gc.get_vec_bool();
-        bv[idx] = lua_toboolean(L, -1) ? true : false;
+        if ( gc.get_type() == GC_type::VEC_BOOL ) gc.get_vec_bool()[idx] = val;
+        else                                      gc[idx].set_bool(val);
       }
       break;
     case LUA_TNUMBER:
-- 
2.43.0


From 419d351507f2edfeb53d987e01f1a91d0396afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:13 +0000
Subject: [PATCH 33/43] fix: the Lua bridge left values on the Lua stack,
 emptied the stack of the caller and did not reserve stack space

---
 .../GenericContainerInterface_lua.cc          | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index ce7fcad..4425118 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -95,6 +95,17 @@ namespace GC_namespace {
            isZero( x-floor(x) );
   }
 
+  // restore the depth of the Lua stack at the end of the scope
+  class LuaStackGuard {
+    lua_State * m_L;
+    int         m_top;
+  public:
+    explicit LuaStackGuard( lua_State * L ) : m_L(L), m_top(lua_gettop(L)) {}
+    ~LuaStackGuard() { lua_settop( m_L, m_top ); }
+    LuaStackGuard( LuaStackGuard const & ) = delete;
+    LuaStackGuard & operator = ( LuaStackGuard const & ) = delete;
+  };
+
   /*
   //   _                _           ____  ____
   //  | |_   _  __ _   | |_ ___    / ___|/ ___|
@@ -185,6 +196,7 @@ namespace GC_namespace {
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
     // ---
+    GC_ASSERT( lua_checkstack( L, 4 ), "lua_table_to_GC, nesting too deep" )
     lua_pushnil(L); // first key
     // ---
     while ( lua_next(L,-2) != 0 ) {
@@ -221,7 +233,6 @@ namespace GC_namespace {
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
         //global_to_GC( gc );
-        lua_settop(L, 0);
         break;
     }
   }
@@ -239,6 +250,7 @@ namespace GC_namespace {
   void
   GC_to_lua( lua_State * L, GenericContainer const & gc ) {
     // inizializzazione
+    GC_ASSERT( lua_checkstack( L, 4 ), "GC_to_lua, nesting too deep" )
     switch ( gc.get_type() ) {
     case GC_type::NOTYPE:
       lua_pushnil(L);
@@ -272,7 +284,6 @@ namespace GC_namespace {
           lua_rawseti( L, -2, int(i+1) );
         }
       }
-      lua_pushnil(L);
       break;
     case GC_type::VEC_INTEGER:
       { vec_int_type const & vi = gc.get_vec_int();
@@ -379,6 +390,7 @@ namespace GC_namespace {
       "LuaInterpreter::do_file('" << filename <<
       "')\nlua_State invalid!"
     )
+    LuaStackGuard guard(L);
     if ( luaL_loadfile(L, filename) || lua_pcall(L, 0, 0, 0)  ) {
       GC_ASSERT(
         lua_isnil(L,-1),
@@ -393,8 +405,9 @@ namespace GC_namespace {
   void
   LuaInterpreter::execute( char const cmd[] ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
+    GC_ASSERT( L != nullptr, "In LuaInterpreter::execute, lua_State invalid" )
+    LuaStackGuard guard(L);
     GC_ASSERT(
-      L != nullptr &&
       !luaL_loadbuffer(L, cmd, strlen(cmd), "line") &&
       !lua_pcall(L, 0, 0, 0),
       "In LuaInterpreter::execute('" << cmd <<
@@ -409,11 +422,13 @@ namespace GC_namespace {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
 
     // args must be of type MAP
-    string_view            fname = fun_io("function").get_string();
+    string                 fname{ fun_io("function").get_string() };
     GenericContainer const & args = fun_io("args");
 
+    LuaStackGuard guard(L);
+
     // push functions and arguments
-    lua_getglobal( L, fname.data() );  // function to be called
+    lua_getglobal( L, fname.c_str() );  // function to be called
     GC_to_lua( L, args );
 
     /* do the call (1 arguments, 1 result) */
@@ -440,6 +455,7 @@ namespace GC_namespace {
       L != nullptr, "LuaInterpreter::global_to_GC(...) lua_State invalid!"
     )
 
+    LuaStackGuard guard(L);
     lua_getglobal( L, global_var );
     GC_ASSERT(
       !lua_isnil(L,-1),
@@ -465,7 +481,6 @@ namespace GC_namespace {
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
       //global_to_GC( gc );
-      lua_settop(L, 0);
       break;
     default:
       GC_DO_ERROR(
@@ -486,6 +501,7 @@ namespace GC_namespace {
     char             const * global_var
   ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
+    LuaStackGuard guard(L);
     GC_to_lua( L, gc );
     lua_setglobal( L, global_var );
   }
-- 
2.43.0


From 2523c71b670d108148a220bcd0af2d982f49cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:13 +0000
Subject: [PATCH 34/43] fix: texts exchanged with Lua were cut at the first
 zero character

---
 .../GenericContainerInterface_lua.cc          | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 4425118..b769e1c 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -95,6 +95,15 @@ namespace GC_namespace {
            isZero( x-floor(x) );
   }
 
+  // text at position idx of the stack, which must hold a string
+  static
+  string
+  lua_to_string( lua_State * L, int idx ) {
+    size_t len{0};
+    char const * s = lua_tolstring( L, idx, &len );
+    return string( s, len );
+  }
+
   // restore the depth of the Lua stack at the end of the scope
   class LuaStackGuard {
     lua_State * m_L;
@@ -154,7 +163,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.get_string_at(idx) = lua_tostring(L, -1);
+      gc.get_string_at(idx) = lua_to_string(L, -1);
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc[idx] );
@@ -168,7 +177,7 @@ namespace GC_namespace {
   void
   push_hash_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
-    string key  = lua_tostring(L, -2);
+    string key  = lua_to_string(L, -2);
     int    type = lua_type(L, -1);
     switch( type ) {
       case LUA_TBOOLEAN:
@@ -182,7 +191,7 @@ namespace GC_namespace {
         }
         break;
       case LUA_TSTRING:
-        gc[key].set_string(lua_tostring(L, -1));
+        gc[key].set_string(lua_to_string(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc[key] );
@@ -228,7 +237,7 @@ namespace GC_namespace {
         }
         break;
       case LUA_TSTRING:
-        gc.set_string(lua_tostring(L, -1));
+        gc.set_string(lua_to_string(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
@@ -271,7 +280,9 @@ namespace GC_namespace {
       lua_pushnumber( L, gc.get_real() );
       break;
     case GC_type::STRING:
-      lua_pushstring( L, gc.get_string().data() );
+      { string_view const s = gc.get_string();
+        lua_pushlstring( L, s.data(), s.length() );
+      }
       break;
     case GC_type::VEC_POINTER:
       lua_pushnil(L);
@@ -316,7 +327,7 @@ namespace GC_namespace {
       { vec_string_type const & vs = gc.get_vec_string();
         lua_createtable( L, int(vs.size()), 0);
         for ( unsigned i = 0; i < vs.size(); ++i ) {
-          lua_pushstring( L, vs[i].c_str() );
+          lua_pushlstring( L, vs[i].data(), vs[i].length() );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -334,7 +345,7 @@ namespace GC_namespace {
       { map_type const & m = gc.get_map();
         lua_createtable(L, int(m.size()), 0);
         for ( map_type::const_iterator it = m.begin(); it != m.end(); ++it ) {
-          lua_pushstring(L, it->first.c_str());
+          lua_pushlstring( L, it->first.data(), it->first.length() );
           GC_to_lua( L, it->second );
           lua_settable( L, -3 );
         }
@@ -476,7 +487,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.set_string(lua_tostring(L, -1));
+      gc.set_string(lua_to_string(L, -1));
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
-- 
2.43.0


From c64e96dd751f4c9046a06793239ea982ead3aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:10 +0000
Subject: [PATCH 35/43] fix: file names passed as views to the YAML and TOML
 readers were read up to a terminating zero

---
 include/GenericContainer/GenericContainerInterface_toml.hh | 2 +-
 include/GenericContainer/GenericContainerInterface_yaml.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GenericContainer/GenericContainerInterface_toml.hh b/include/GenericContainer/GenericContainerInterface_toml.hh
index 2302031..0d8ae45 100644
--- a/include/GenericContainer/GenericContainerInterface_toml.hh
+++ b/include/GenericContainer/GenericContainerInterface_toml.hh
@@ -55,7 +55,7 @@ namespace GC_namespace {
     string_view        file_name,
     GenericContainer & gc
   ) {
-    ifstream stream(file_name.data());
+    ifstream stream{ string(file_name) };
     gc.clear();
     return gc.from_toml( stream );
   }
diff --git a/include/GenericContainer/GenericContainerInterface_yaml.hh b/include/GenericContainer/GenericContainerInterface_yaml.hh
index 595d29e..9bb07cf 100644
--- a/include/GenericContainer/GenericContainerInterface_yaml.hh
+++ b/include/GenericContainer/GenericContainerInterface_yaml.hh
@@ -55,7 +55,7 @@ namespace GC_namespace {
     string_view        file_name,
     GenericContainer & gc
   ) {
-    ifstream stream(file_name.data());
+    ifstream stream{ string(file_name) };
     gc.clear();
     return gc.from_yaml( stream );
   }
-- 
2.43.0


From 7d6d8e93e3f99de363afaceafe92520cbc3af789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:19 +0000
Subject: [PATCH 36/43] fix: reading a TOML file which cannot be opened was
 reported as a success

---
 src_toml_interface/from_toml.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 1f67f87..6c51f19 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -200,6 +200,7 @@ namespace GC_namespace {
   GenericContainer::from_toml( istream_type & stream ) {
     bool ok{true};
     try {
+      GC_ASSERT( !stream.fail(), "from_toml, cannot read the stream" )
       // deserialize the loaded file contents.
       ok = TOML_to_GC( toml::parse(stream), *this );
       if ( ok ) this->collapse();
-- 
2.43.0


From 5b82e877ee440771a9af608a299df37dcbd3e542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:08 +0000
Subject: [PATCH 37/43] fix: push_string with a text stored in the container
 itself read it after its release

---
 src/GenericContainer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 2d9f707..c47a7fd 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1263,7 +1263,8 @@ namespace GC_namespace {
   }
 
   void
-  GenericContainer::push_string( string_view const s ) {
+  GenericContainer::push_string( string_view const str ) {
+    string_type const s( str ); // str may be stored in *this
     if ( m_data_type != GC_type::VEC_STRING ) promote_to_vector();
     if ( m_data_type == GC_type::VEC_STRING ) {
       m_data.v_s->emplace_back( s );
-- 
2.43.0


From 5a69596a2028243a9cb9c6f3e2f46d6cdd5d76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:08 +0000
Subject: [PATCH 38/43] fix: push_complex with a value stored in the container
 itself read it after its release

---
 src/GenericContainer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index c47a7fd..4bb3225 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1246,7 +1246,8 @@ namespace GC_namespace {
   }
 
   void
-  GenericContainer::push_complex( complex_type & c ) {
+  GenericContainer::push_complex( complex_type & value ) {
+    complex_type const c{ value }; // value may be stored in *this
     if ( m_data_type == GC_type::VECTOR ) {
       m_data.v->resize(m_data.v->size()+1);
       m_data.v->back().set_complex( c );
-- 
2.43.0


From 283187948f19fea43f7f3df91f22f86483ee6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:08 +0000
Subject: [PATCH 39/43] fix: operator[] with a key stored in the container
 itself read it after its release

---
 src/GenericContainer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 4bb3225..18f86a3 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3439,8 +3439,9 @@ namespace GC_namespace {
 
   GenericContainer &
   GenericContainer::operator [] ( string_view const s ) {
+    string const key( s ); // s may be stored in *this
     if ( ck( GC_type::MAP ) != 0 ) set_map(); // if not data present allocate!
-    return (*m_data.m)[string(s)];
+    return (*m_data.m)[key];
   }
 
   GenericContainer const &
-- 
2.43.0


From 112c8323ec361bcd41d9af0f277e95fa57d5dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:08 +0000
Subject: [PATCH 40/43] fix: a scalar accessor on an empty container exposed
 the storage of an earlier payload

---
 src/GenericContainer.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 18f86a3..79070d8 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -762,8 +762,18 @@ namespace GC_namespace {
 
   void
   GenericContainer::ck_or_set( string_view const where, TypeAllowed const tp ) {
-    if ( m_data_type == GC_type::NOTYPE ) m_data_type = tp;
-    else                                  ck(where,tp);
+    if ( m_data_type == GC_type::NOTYPE ) {
+      switch ( tp ) {
+      case GC_type::BOOL:    m_data.b = false; break;
+      case GC_type::INTEGER: m_data.i = 0;     break;
+      case GC_type::LONG:    m_data.l = 0;     break;
+      case GC_type::REAL:    m_data.r = 0;     break;
+      default: break;
+      }
+      m_data_type = tp;
+    } else {
+      ck(where,tp);
+    }
   }
 
   /*
-- 
2.43.0


From 49354391e8eaa5cb69567d6cda3fb62f8d5b4832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:08 +0000
Subject: [PATCH 41/43] fix: a truncated buffer left a scalar type without a
 value

---
 src/GenericContainerSerialize.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 68c6daf..b545826 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -418,26 +418,26 @@ namespace GC_namespace {
       m_data_type = GC_type::NOTYPE;
       break;
     case GC_type::BOOL:
-      m_data_type = GC_type::BOOL;
       uint8_t b;
       nb = buffer_to_uint8( buffer, &b, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       m_data.b = b > 0;
+      m_data_type = GC_type::BOOL;
       break;
     case GC_type::INTEGER:
-      m_data_type = GC_type::INTEGER;
       nb = buffer_to_int32( buffer, &m_data.i, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      m_data_type = GC_type::INTEGER;
       break;
     case GC_type::LONG:
-      m_data_type = GC_type::LONG;
       nb = buffer_to_int64( buffer, &m_data.l, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      m_data_type = GC_type::LONG;
       break;
     case GC_type::REAL:
-      m_data_type = GC_type::REAL;
       nb = buffer_to_double( buffer, &m_data.r, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      m_data_type = GC_type::REAL;
       break;
     case GC_type::POINTER:
       { int64_t p;
-- 
2.43.0


From fd556f749890274c89b0be9ae24eccd14d372b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:03 +0000
Subject: [PATCH 42/43] fix: get_map_bool and get_map_string of a read-only
 container gave an empty element a type

---
 src/GenericContainer.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 79070d8..acba89e 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2372,7 +2372,8 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_bool( where );
+    GenericContainer const & item{ this->m_data.m->at(string(key)) };
+    return item.get_bool( where );
   }
 
   bool_type
@@ -2395,7 +2396,8 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_bool( where );
+    GenericContainer const & item{ this->m_data.m->at(who) };
+    return item.get_bool( where );
   }
 
   int_type
@@ -2468,7 +2470,8 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_string( where );
+    GenericContainer const & item{ this->m_data.m->at(string(key)) };
+    return item.get_string( where );
   }
 
   string_view
@@ -2491,7 +2494,8 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_string( where );
+    GenericContainer const & item{ this->m_data.m->at(who) };
+    return item.get_string( where );
   }
 
   vec_real_type const &
-- 
2.43.0


From b97ab69e704de8b266a69fe12e63096f20e06829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:59 +0000
Subject: [PATCH 43/43] fix: copyto_vec_uint refused long values between 2^31
 and 2^32-1

---
 src/GenericContainerPromote.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 5d13bfa..d6c6989 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -218,7 +218,7 @@ namespace GC_namespace {
       case GC_type::LONG:
         lval = m_data.l;
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval && lval >= 0,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -248,7 +248,7 @@ namespace GC_namespace {
       case GC_type::VEC_LONG:
         lval = (*m_data.v_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval && lval >= 0,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -293,7 +293,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:
         lval = (*m_data.m_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval && lval >= 0,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
-- 
2.43.0

