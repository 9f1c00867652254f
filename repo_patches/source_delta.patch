From f182c5d7e61676d99341aa6b7fe80d332c289c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 01/93] fix: enforce and report read-only marks through config
 block views

mark_read_only() and is_read_only() on a subblock view kept their own list
that nothing consulted, so a value marked through a view could still be
changed and a read-only value was reported as writable.
---
 vital/config/config_block.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index e888069..f4d5437 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -227,6 +227,11 @@ bool
 config_block
 ::is_read_only( config_block_key_t const& key ) const
 {
+  if ( m_parent )
+  {
+    return m_parent->is_read_only( m_name + block_sep + key );
+  }
+
   return 0 != m_ro_list.count( key );
 }
 
@@ -237,6 +242,12 @@ void
 config_block
 ::mark_read_only( config_block_key_t const& key )
 {
+  if ( m_parent )
+  {
+    m_parent->mark_read_only( m_name + block_sep + key );
+    return;
+  }
+
   m_ro_list.insert( key );
 }
 
-- 
2.43.0


From 0ec6ce72c65c736e1c307fa93f379e7d51bc14f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 02/93] fix: keep source locations set and read through config
 block views

A view stored locations in its own table, so the location of an entry was
not seen through the other block.
---
 vital/config/config_block.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index f4d5437..d667b09 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -411,6 +411,12 @@ void
 config_block
 ::set_location( config_block_key_t const& key, std::shared_ptr< std::string > file, int line )
 {
+  if ( m_parent )
+  {
+    m_parent->set_location( m_name + block_sep + key, file, line );
+    return;
+  }
+
   m_def_store[key] = source_location( file, line );
 }
 
@@ -422,6 +428,11 @@ config_block
                 std::string& f,
                 int& l) const
 {
+  if ( m_parent )
+  {
+    return m_parent->get_location( m_name + block_sep + key, f, l );
+  }
+
   location_t::const_iterator i = m_def_store.find( key );
   if ( i != m_def_store.end() )
   {
-- 
2.43.0


From 6c12c5c8ea574052972a796d32abe066b1ee65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 03/93] fix: make global values of a config block usable
 through its views

available_values() of a view lists the keys of the _global block unchanged,
but every other operation looked them up below the name of the view, so
merging, copying, printing or writing a view threw an exception.
---
 vital/config/config_block.cxx | 44 ++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index d667b09..831453a 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -97,6 +97,10 @@ static bool does_not_begin_with( config_block_key_t const&  key,
 static config_block_key_t strip_block_name( config_block_key_t const& subblock,
                                             config_block_key_t const& key );
 
+/// private helper method to convert a key of a view to the key in its parent
+static config_block_key_t key_in_parent( config_block_key_t const& subblock,
+                                         config_block_key_t const& key );
+
 // Create an empty configuration.
 config_block_sptr
 config_block
@@ -167,7 +171,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->get_description( m_name + block_sep + key );
+    return m_parent->get_description( key_in_parent( m_name, key ) );
   }
 
   store_t::const_iterator i = m_descr_store.find( key );
@@ -188,7 +192,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->unset_value( m_name + block_sep + key );
+    m_parent->unset_value( key_in_parent( m_name, key ) );
   }
   else
   {
@@ -229,7 +233,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->is_read_only( m_name + block_sep + key );
+    return m_parent->is_read_only( key_in_parent( m_name, key ) );
   }
 
   return 0 != m_ro_list.count( key );
@@ -244,7 +248,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->mark_read_only( m_name + block_sep + key );
+    m_parent->mark_read_only( key_in_parent( m_name, key ) );
     return;
   }
 
@@ -313,7 +317,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->has_value( m_name + block_sep + key );
+    return m_parent->has_value( key_in_parent( m_name, key ) );
   }
 
   return ( 0 != m_store.count( key ) );
@@ -358,7 +362,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->i_get_value( m_name + block_sep + key );
+    return m_parent->i_get_value( key_in_parent( m_name, key ) );
   }
 
   store_t::const_iterator i = m_store.find( key );
@@ -382,7 +386,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->set_value( m_name + block_sep + key, value, descr );
+    m_parent->set_value( key_in_parent( m_name, key ), value, descr );
   }
   else
   {
@@ -413,7 +417,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->set_location( m_name + block_sep + key, file, line );
+    m_parent->set_location( key_in_parent( m_name, key ), file, line );
     return;
   }
 
@@ -430,7 +434,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->get_location( m_name + block_sep + key, f, l );
+    return m_parent->get_location( key_in_parent( m_name, key ), f, l );
   }
 
   location_t::const_iterator i = m_def_store.find( key );
@@ -540,6 +544,28 @@ strip_block_name( config_block_key_t const& subblock, config_block_key_t const&
 }
 
 
+// ------------------------------------------------------------------
+// private helper method to convert a key of a view to the key in its parent
+/**
+ * This is the inverse of strip_block_name(). Global values are listed by a view
+ * under their own name, so they have the same key in the parent.
+ *
+ * \param subblock  The name of the view.
+ * \param key       The key in the view.
+ * \returns The key in the parent block.
+ */
+config_block_key_t
+key_in_parent( config_block_key_t const& subblock, config_block_key_t const& key )
+{
+  if ( starts_with( key, config_block::global_value + config_block::block_sep ) )
+  {
+    return key;
+  }
+
+  return subblock + config_block::block_sep + key;
+}
+
+
 // ------------------------------------------------------------------
 /// Format config block in a printable stream
 void
-- 
2.43.0


From c1818d0c8f116ce7dba2a13a971e3bf05682423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 04/93] fix: reject config values that are not timestamps

A value that could not be converted gave a timestamp with an uninitialized
frame number instead of the documented bad cast exception.
---
 vital/types/timestamp_config.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vital/types/timestamp_config.h b/vital/types/timestamp_config.h
index f2e04ad..3053991 100644
--- a/vital/types/timestamp_config.h
+++ b/vital/types/timestamp_config.h
@@ -62,14 +62,19 @@ config_block_get_value_cast( config_block_value_t const& value )
   std::stringstream str; // add string to stream
   str << value;
 
-  timestamp::time_t t;
+  timestamp::time_t t( 0 );
   str >> t;
   obj.set_time_usec( t );
 
-  timestamp::frame_t f;
+  timestamp::frame_t f( 0 );
   str >> f;
   obj.set_frame( f );
 
+  if ( str.fail() )
+  {
+    throw bad_config_block_cast( "failed to convert from string representation \"" + value + "\" to timestamp" );
+  }
+
   return obj;
 }
 
-- 
2.43.0


From 81767039bca4b25d0eae33388914fb4491c9e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 05/93] fix: store floating point config values with enough
 digits

set_value() of a double kept six significant digits, so get_value() did not
return the value that was set.
---
 vital/config/config_block.h | 49 +++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/vital/config/config_block.h b/vital/config/config_block.h
index 9a573b3..f8c8f6e 100644
--- a/vital/config/config_block.h
+++ b/vital/config/config_block.h
@@ -51,6 +51,7 @@
 #include <ostream>
 #include <memory>
 #include <exception>
+#include <limits>
 #include <sstream>
 
 namespace kwiver {
@@ -676,6 +677,54 @@ config_block_set_value_cast( T const& value )
 }
 
 
+/// Convert a floating point value to its string representation
+/**
+ * The default number of digits is used where it is sufficient to get the same
+ * value back, otherwise as many digits as needed to represent the value.
+ *
+ * \param value The floating point value to convert.
+ * \returns The value of \p value as a string.
+ */
+template < typename T >
+inline
+config_block_value_t
+config_block_set_value_cast_real( T const& value )
+{
+  config_block_value_t const val_str = config_block_set_value_cast_default< T > ( value );
+
+  std::stringstream interpreter( val_str );
+  T result( 0 );
+  if ( ( interpreter >> result ) && ( result == value ) )
+  {
+    return val_str;
+  }
+
+  std::stringstream exact;
+  exact.precision( std::numeric_limits< T >::max_digits10 );
+  exact << value;
+
+  return exact.str();
+}
+
+
+template < >
+inline
+config_block_value_t
+config_block_set_value_cast( float const& value )
+{
+  return config_block_set_value_cast_real< float > ( value );
+}
+
+
+template < >
+inline
+config_block_value_t
+config_block_set_value_cast( double const& value )
+{
+  return config_block_set_value_cast_real< double > ( value );
+}
+
+
 // ------------------------------------------------------------------
 // Set a value within the configuration.
 template < typename T >
-- 
2.43.0


From f8a93ca6b7a8edc04703fc5450e195d13ea6d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 06/93] fix: accept config keys and block names shorter than
 three characters

Words of one or two characters were a syntax error, so a config block with
such a key could not be read back after it was written.
---
 vital/config/config_parser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 85fc5a5..f9eb5b2 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -537,7 +537,7 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
+    static kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
     static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
 
     // Test for end of line while processing
-- 
2.43.0


From 2cbe7b3b6a75d727cdcb457b4eb64f9bae1f7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 07/93] fix: report config files that can not be written

A file that could not be opened, or a write that failed, was silently ignored
although an exception is documented.
---
 vital/config/config_block_io.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vital/config/config_block_io.cxx b/vital/config/config_block_io.cxx
index ba47e56..05a5b98 100644
--- a/vital/config/config_block_io.cxx
+++ b/vital/config/config_block_io.cxx
@@ -394,9 +394,19 @@ write_config_file( config_block_sptr const& config,
 
   // open output file and write each key/value to a line.
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path,
+          "Could not open file for writing." );
+  }
 
   write_config( config, ofile );
   ofile.close();
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path,
+          "Not all of the config_block could be written." );
+  }
 }
 
 
-- 
2.43.0


From f47ebb074ae555fd6b5a6f020c61e6db555d154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 08/93] fix: report config files that include themselves

Recursive includes were followed until the process ran out of file descriptors
or of stack.
---
 vital/config/config_parser.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index f9eb5b2..8a67bfd 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -273,6 +273,17 @@ public:
           throw config_file_not_found_exception( resolv_filename, sstr.str() );
         }
 
+        // A file that includes itself, directly or not, never ends.
+        if ( std::find( m_include_stack.begin(), m_include_stack.end(), resolv_filename )
+             != m_include_stack.end() )
+        {
+          std::ostringstream sstr;
+          sstr << "file \"" << resolv_filename << "\" includes itself at "
+               << file_path << ":" << current_line;
+
+          throw config_file_not_parsed_exception( file_path, sstr.str() );
+        }
+
         process_file( resolv_filename ); // process included file
 
         m_line_number = current_line; // restore line number
-- 
2.43.0


From 5b2afc5f1407c1785a9698f29fe9c9114c0245fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 09/93] fix: do not look for included config files on the
 program search path

The directories of PATH were searched before the config search path and the
directories of the including files, so a program could be parsed instead of
the documented config file.
---
 vital/config/config_parser.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 8a67bfd..3bd93c0 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -654,7 +654,7 @@ public:
 
     // The file is on a relative path.
     // See if file can be found in the search path.
-    std::string res_file = kwiversys::SystemTools::FindFile( file_name, this->m_search_path, false );
+    std::string res_file = kwiversys::SystemTools::FindFile( file_name, this->m_search_path, true );
     if ( "" != res_file )
     {
       return res_file;
@@ -681,7 +681,7 @@ public:
       }
     } // end for
 
-    return kwiversys::SystemTools::FindFile( file_name, include_paths, false );
+    return kwiversys::SystemTools::FindFile( file_name, include_paths, true );
   }
 
 
-- 
2.43.0


From c69358ffaf96957a39c3245d28b74855a82efd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 10/93] fix: report frames of track sets from the states of
 their tracks

first_frame() was never above 0, and tracks without states were taken to be on
frame 0: their missing last state was read.
---
 vital/types/track_set.cxx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 2c84c6f..d9ed96b 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -100,13 +100,16 @@ track_set
 ::last_frame() const
 {
   frame_id_t last_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() > last_frame )
+    // a track without states is on no frame
+    if( ! t->empty() && ( ! found || t->last_frame() > last_frame ) )
     {
       last_frame = t->last_frame();
+      found = true;
     }
   }
 
@@ -120,13 +123,16 @@ track_set
 ::first_frame() const
 {
   frame_id_t first_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() < first_frame )
+    // a track without states is on no frame
+    if( ! t->empty() && ( ! found || t->first_frame() < first_frame ) )
     {
       first_frame = t->first_frame();
+      found = true;
     }
   }
 
@@ -205,7 +211,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() == frame_number )
+    if( ! t->empty() && t->first_frame() == frame_number )
     {
       new_tracks.push_back(t);
     }
@@ -226,7 +232,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == frame_number )
+    if( ! t->empty() && t->last_frame() == frame_number )
     {
       terminated_tracks.push_back(t);
     }
@@ -275,7 +281,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_features.push_back((t->end()-1)->feat);
     }
@@ -296,7 +302,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_descriptors.push_back((t->end()-1)->desc);
     }
-- 
2.43.0


From eef6f1b1be6d0a0e66f89873b9aa1b2ed7b05b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 11/93] fix: convert all elements of a covariance to another
 type

Only the first N of the N*(N+1)/2 stored elements were copied, the others were
left uninitialised.
---
 vital/types/covariance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/covariance.h b/vital/types/covariance.h
index 9c0b8e3..1dad0c4 100644
--- a/vital/types/covariance.h
+++ b/vital/types/covariance.h
@@ -68,7 +68,7 @@ public:
   {
     const U* in = other.data();
     T* out = this->data_;
-    for ( unsigned i = 0; i < N; ++i, ++in, ++out )
+    for ( unsigned i = 0; i < data_size; ++i, ++in, ++out )
     {
       *out = static_cast< T > ( *in );
     }
-- 
2.43.0


From 0fdc887a0b9a4434c52fd1dfc7198302ae5f0b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 12/93] fix: keep the covariance when features and landmarks
 are copied

The constructors from the abstract types left it uninitialised.
---
 vital/types/feature.cxx  | 1 +
 vital/types/landmark.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index 1a3361b..a728594 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -88,6 +88,7 @@ feature_< T >
   magnitude_( static_cast< T > ( f.magnitude() ) ),
   scale_( static_cast< T > ( f.scale() ) ),
   angle_( static_cast< T > ( f.angle() ) ),
+  covar_( f.covar() ),
   color_( f.color() )
 {
 }
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 79682e8..2a15000 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -86,6 +86,7 @@ landmark_< T >
   : loc_( lm.loc().cast< T > () ),
     scale_( static_cast< T > ( lm.scale() ) ),
     normal_( lm.normal().cast< T > () ),
+    covar_( lm.covar() ),
     color_( lm.color() ),
     observations_( lm.observations() )
 {
-- 
2.43.0


From 4e903708b5676fe28f7ca6744b12401a8bb375ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 13/93] fix: use the jacobian of tangential distortion when
 undistorting

The y derivative of the second component was added to the first one, so the
iteration did not converge for tangential distortion.
---
 vital/types/camera_intrinsics.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/camera_intrinsics.cxx b/vital/types/camera_intrinsics.cxx
index b6b2c3e..5aef4db 100644
--- a/vital/types/camera_intrinsics.cxx
+++ b/vital/types/camera_intrinsics.cxx
@@ -223,7 +223,7 @@ distortion_jacobian( const Eigen::Matrix< T, 2, 1 >& pt,
     J( 0, 0 ) += ay + 3 * ax;
     J( 0, 1 ) += axy;
     J( 1, 0 ) += axy;
-    J( 0, 0 ) += 3 * ay + ax;
+    J( 1, 1 ) += 3 * ay + ax;
   }
   return J;
 }
-- 
2.43.0


From 1b71ccdeb85a58ca4144ed92f5366cecdc6fa4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 14/93] fix: read no more vertices from a PLY file than it
 declares

The line after the last vertex, for example a face, was read as a vertex.
---
 vital/io/landmark_map_io.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 4f8501e..f8b70ab 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -247,6 +247,12 @@ read_ply_file( path_t const& file_path )
       continue;
     }
 
+    // exit if we have read the expected number of points
+    if ( vert_count >= num_verts )
+    {
+      break;
+    }
+
     // TODO throw exceptions if tokens.size() != vert_props.size()
     // or if the values do not parse as expected
     double x=0, y=0, z=0;
@@ -307,12 +313,6 @@ read_ply_file( path_t const& file_path )
     lm->set_color( color );
     lm->set_observations( observations );
     landmarks[id] = lm;
-
-    // exit if we have read the expected number of points
-    if ( vert_count > num_verts )
-    {
-      break;
-    }
   }
 
   ifile.close();
-- 
2.43.0


From 7f1966e62be9192c023726183f854d5fdf84b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 15/93] fix: report camera, landmark and track files that can
 not be written

The documented file_write_exception was not thrown when the file could not be
opened or the data did not reach it.
---
 vital/io/camera_io.cxx       | 8 ++++++++
 vital/io/landmark_map_io.cxx | 8 ++++++++
 vital/io/track_set_io.cxx    | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index bfbb322..cb1cba5 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -117,8 +117,16 @@ write_krtd_file( camera const&  cam,
 
   // open output file and write the ins_data
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file at given path." );
+  }
   ofile << cam;
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write all data to the file." );
+  }
 }
 
 
diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index f8b70ab..c538b48 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -85,6 +85,10 @@ write_ply_file( landmark_map_sptr const&  landmarks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file at given path." );
+  }
   // write the PLY header
   ofile << "ply\n"
            "format ascii 1.0\n"
@@ -119,6 +123,10 @@ write_ply_file( landmark_map_sptr const&  landmarks,
           << " " << p.first << " " << p.second->observations() << "\n";
   }
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write all data to the file." );
+  }
 } // write_ply_file
 
 
diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 672bbc9..8d595ae 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -141,6 +141,10 @@ write_track_file( track_set_sptr const& tracks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file at given path." );
+  }
   std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
@@ -150,6 +154,10 @@ write_track_file( track_set_sptr const& tracks,
     }
   }
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write all data to the file." );
+  }
 } // write_track_file
 
 } } // end namespace
-- 
2.43.0


From 2dea05a9cc789fb8dd697fd98abb1fa2ce20576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 16/93] fix: write landmarks and tracks with more than 6 digits

Coordinates read back from these files were off by up to half a unit in the
sixth digit; cameras are written with 12 digits.
---
 vital/io/landmark_map_io.cxx | 4 ++++
 vital/io/track_set_io.cxx    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index c538b48..d2e01a8 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -43,6 +43,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
 #include <iterator>
 #include <sstream>
@@ -89,6 +90,9 @@ write_ply_file( landmark_map_sptr const&  landmarks,
   {
     throw file_write_exception( file_path, "Could not open file at given path." );
   }
+  // as many digits as are written for cameras
+  ofile << std::setprecision( 12 );
+
   // write the PLY header
   ofile << "ply\n"
            "format ascii 1.0\n"
diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 8d595ae..7794239 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -38,6 +38,7 @@
 #include "track_set_io.h"
 
 #include <fstream>
+#include <iomanip>
 #include <iostream>
 #include <sstream>
 #include <vector>
@@ -145,6 +146,8 @@ write_track_file( track_set_sptr const& tracks,
   {
     throw file_write_exception( file_path, "Could not open file at given path." );
   }
+  // as many digits as are written for cameras
+  ofile << std::setprecision( 12 );
   std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
-- 
2.43.0


From bf9aa6e556aab63f40ff6456fcf4913a44311fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 17/93] fix: read features and landmarks without undetermined
 values

When the text ended early, members of the result were never initialised.
---
 vital/types/feature.cxx  | 7 ++++---
 vital/types/landmark.cxx | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index a728594..c7eedca 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -116,9 +116,10 @@ operator>>( std::istream& s, feature_< T >& f )
 {
   // TODO include covariance once stream operators are defined
   Eigen::Matrix< T, 2, 1 > loc;
-  T magnitude;
-  T scale;
-  T angle;
+  // the values of a new feature, if the stream ends early
+  T magnitude = T( 0 );
+  T scale = T( 1 );
+  T angle = T( 0 );
   rgb_color color;
 
   s >> loc
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 2a15000..15daea3 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -118,7 +118,7 @@ operator>>( std::istream& s, landmark_< T >& m )
   Eigen::Matrix< T, 3, 1 > normal;
   T scale;
   rgb_color color;
-  unsigned int observations;
+  unsigned int observations = 0;
 
   s >> loc
     >> scale
-- 
2.43.0


From 171942e90ade51b4339b82b5c20650d525101107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 18/93] fix: read the distortion coefficients of cameras

The input operator for matrices read nothing into a vector of dynamic size, so
cameras and intrinsics lost their distortion when they were read from a stream
or a KRTD file.
---
 vital/io/eigen_io.h | 47 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/vital/io/eigen_io.h b/vital/io/eigen_io.h
index b90296c..63e4a2d 100644
--- a/vital/io/eigen_io.h
+++ b/vital/io/eigen_io.h
@@ -37,8 +37,12 @@
 #define VITAL_EIGEN_IO_H_
 
 
+#include <algorithm>
 #include <iostream>
 #include <cstring>
+#include <sstream>
+#include <string>
+#include <vector>
 
 #include <Eigen/Core>
 
@@ -75,6 +79,49 @@ operator>>( std::istream& s, Matrix< T, M, N >& m )
   return s;
 }
 
+/// input stream operator for an Eigen column vector of any length
+/**
+ * The elements are the numbers on the next line that is not blank. The vector
+ * is empty if there is no such line.
+ *
+ * \throws vital::invalid_data
+ *    Throws an invalid data exception when there is something else than
+ *    numbers on the line.
+ *
+ * \param s an input stream
+ * \param v a vector to stream into
+ */
+template < typename T >
+std::istream&
+operator>>( std::istream& s, Matrix< T, Dynamic, 1 >& v )
+{
+  std::vector< T > values;
+  std::string line;
+
+  if ( s.good() )
+  {
+    s >> std::ws;
+  }
+  if ( s.good() && std::getline( s, line ) )
+  {
+    std::istringstream numbers( line );
+    T value;
+    while ( numbers >> value )
+    {
+      values.push_back( value );
+    }
+    if ( ! numbers.eof() )
+    {
+      throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
+                                  "parsing an Eigen::Matrix" );
+    }
+  }
+
+  v.resize( values.size() );
+  std::copy( values.begin(), values.end(), v.data() );
+  return s;
+}
+
 } // end namespace Eigen
 
 #endif // VITAL_EIGEN_IO_H_
-- 
2.43.0


From b81b3b663664244b9ecb6ab97b448f22653a3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 19/93] fix: refuse an incomplete last number in distortion
 coefficients

---
 vital/io/eigen_io.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vital/io/eigen_io.h b/vital/io/eigen_io.h
index 63e4a2d..8792076 100644
--- a/vital/io/eigen_io.h
+++ b/vital/io/eigen_io.h
@@ -105,16 +105,16 @@ operator>>( std::istream& s, Matrix< T, Dynamic, 1 >& v )
   if ( s.good() && std::getline( s, line ) )
   {
     std::istringstream numbers( line );
-    T value;
-    while ( numbers >> value )
+    while ( ! ( numbers >> std::ws ).eof() )
     {
+      T value;
+      if ( ! ( numbers >> value ) )
+      {
+        throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
+                                    "parsing an Eigen::Matrix" );
+      }
       values.push_back( value );
     }
-    if ( ! numbers.eof() )
-    {
-      throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
-                                  "parsing an Eigen::Matrix" );
-    }
   }
 
   v.resize( values.size() );
-- 
2.43.0


From dbd44831aca4565953a92fae66b44e7db23ea673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 20/93] fix: load plugins by their whole module name

---
 vital/algorithm_plugin_manager.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 41b7d30..f2769a0 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -174,7 +174,7 @@ public:
       // suffix and matches a provided module name if one was provided.
 
       if ( ( ST::GetFilenameLastExtension( file ) == shared_library_suffix ) &&
-           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutExtension( file ) == name ) ) )
+           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutLastExtension( file ) == name ) ) )
       {
         // Check that we're looking a file
         if ( ! ST::FileIsDirectory( file ) )
-- 
2.43.0


From 5d0fabcac2b2c112940793c43b032c1100db41d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 21/93] fix: keep a plugin open whose registration failed in
 part

---
 vital/algorithm_plugin_manager.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index f2769a0..014f50b 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -247,7 +247,9 @@ public:
                 "more algorithms in plugin module, possibly due to duplicate "
                 "registration: " << module_path );
       // TODO: Throw exception here?
-      DL::CloseLibrary( library );
+
+      // The library must stay open, since algorithms registered before the
+      // failure are still in the registrar.
       return false;
     }
     else
-- 
2.43.0


From 4a28d0b8399848943571fa7ff5d1e0c0cc6f2780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 22/93] fix: write the milliseconds of log times with all their
 digits

5 ms was written as .5, and the second was read from the clock again,
so it could belong to a later time than the milliseconds. localtime()
is used under the lock because its result is shared by all threads.
---
 vital/logger/default_logger.cxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 44910df..f497576 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -203,16 +203,20 @@ private:
     std::istringstream ss( msg );
 
     char buf[1024];
-    time(&t);
-    strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
+
+    // All three digits are needed: 5 ms is ".005"
+    std::ostringstream frac;
+    frac << std::setfill( '0' ) << std::setw( 3 ) << fractional_seconds;
+    std::string const fraction = frac.str();
 
     {
-      std::lock_guard< std::mutex > guard( lock ); // serialize access to stream
+      std::lock_guard< std::mutex > guard( lock ); // serialize access to stream and localtime()
+      strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
       std::ostream* str = &get_stream();
       while ( getline( ss, msg_part ) )
       {
         *str << buf
-             << '.' << fractional_seconds
+             << '.' << fraction
              << ' ' << level_str << ' ' << location << msg_part << '\n';
       }
     }
-- 
2.43.0


From cebc0e953834d859ca2389856cf7a1d7e1a57e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 23/93] fix: honour the level of the logger in log_message()

The interface says that messages below the level of the logger are not
written, which held for log_info() and the like only.
---
 vital/logger/default_logger.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index f497576..1c55020 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -172,6 +172,8 @@ private:
   virtual void log_message( log_level_t         level,
                             std::string const&  msg )
   {
+    if ( m_logLevel > level ) { return; }
+
     log_message_i( level, msg, "" );
   }
 
@@ -228,6 +230,8 @@ private:
                             std::string const&              msg,
                             logger_ns::location_info const& location )
   {
+    if ( m_logLevel > level ) { return; }
+
     // format location
     std::stringstream loc;
     loc << location.get_file_name() << "(" << location.get_line_number() << "): ";
-- 
2.43.0


From 28fee8ae12866ce3b9c93a2cc705ef9c41af034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 24/93] fix: let several threads ask the default factory for
 loggers

The map of loggers was used without a lock, so that threads got
different loggers of one name, or none, or crashed.
---
 vital/logger/default_logger.cxx | 2 ++
 vital/logger/default_logger.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 1c55020..54221ee 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -267,6 +267,8 @@ logger_handle_t
 logger_factory_default
 ::get_logger( std::string const& name )
 {
+  std::lock_guard< std::mutex > guard( m_mutex );
+
   // look for logger in the map
   std::map< std::string, logger_handle_t >::iterator it = m_active_loggers.find( name );
   if (it != m_active_loggers.end() )
diff --git a/vital/logger/default_logger.h b/vital/logger/default_logger.h
index e81315e..6666cba 100644
--- a/vital/logger/default_logger.h
+++ b/vital/logger/default_logger.h
@@ -35,6 +35,7 @@
 #include "kwiver_logger_factory.h"
 
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace kwiver {
@@ -71,6 +72,7 @@ public:
   virtual logger_handle_t get_logger( std::string const& name );
 
 private:
+  std::mutex m_mutex; // serializes access to the map
   std::map< std::string, logger_handle_t > m_active_loggers;
 
 }; // end class logger_factory
-- 
2.43.0


From fbc7a5d94a1e2adab20b2d500bdd6df28922ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 25/93] fix: export the C functions on camera maps and
 algorithms

They were defined inside of namespace kwiver, so the functions that the
headers declare were missing from the library.
---
 vital/bindings/c/algorithm.cxx  |  5 ++---
 vital/bindings/c/camera_map.cxx | 25 ++++++++++++-------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 81f399e..6dbea9e 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -52,7 +52,7 @@ namespace vital_c {
 SharedPointerCache< kwiver::vital::algorithm,
                     vital_algorithm_t > ALGORITHM_SPTR_CACHE( "algorithm" );
 
-}
+} } // end namespace vital_c
 
 
 // ===========================================================================
@@ -127,5 +127,4 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
     );
   );
   return false;
-
-} } // end namespace
+}
diff --git a/vital/bindings/c/camera_map.cxx b/vital/bindings/c/camera_map.cxx
index 2d3c432..14b3499 100644
--- a/vital/bindings/c/camera_map.cxx
+++ b/vital/bindings/c/camera_map.cxx
@@ -49,7 +49,7 @@ namespace vital_c {
 SharedPointerCache< vital::camera_map,
                     vital_camera_map_t > CAM_MAP_SPTR_CACHE( "camera_map" );
 
-}
+} } // end namespace vital_c
 
 
 /// New, simple camera map
@@ -66,13 +66,13 @@ vital_camera_map_t* vital_camera_map_new( size_t length,
     // Create std::map of the paired items given
     // This assumes that the sptr type defined in the cache type is the same as
     // the type defined in C++-land (which is should be?)
-    vital::camera_map::map_camera_t cmap;
+    kwiver::vital::camera_map::map_camera_t cmap;
     for( size_t i=0; i < length; i++ )
     {
-      cmap[frame_numbers[i]] = vital_c::CAMERA_SPTR_CACHE.get( cameras[i] );
+      cmap[frame_numbers[i]] = kwiver::vital_c::CAMERA_SPTR_CACHE.get( cameras[i] );
     }
-    vital::camera_map_sptr cm_sptr( new vital::simple_camera_map( cmap ) );
-    vital_c::CAM_MAP_SPTR_CACHE.store( cm_sptr );
+    kwiver::vital::camera_map_sptr cm_sptr( new kwiver::vital::simple_camera_map( cmap ) );
+    kwiver::vital_c::CAM_MAP_SPTR_CACHE.store( cm_sptr );
     return reinterpret_cast<vital_camera_map_t*>( cm_sptr.get() );
   );
   return 0;
@@ -85,7 +85,7 @@ void vital_camera_map_destroy( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::destroy", eh,
-    vital_c::CAM_MAP_SPTR_CACHE.erase( cam_map );
+    kwiver::vital_c::CAM_MAP_SPTR_CACHE.erase( cam_map );
   );
 }
 
@@ -96,7 +96,7 @@ size_t vital_camera_map_size( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::size", eh,
-    return vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->size();
+    return kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->size();
   );
   return 0;
 }
@@ -111,19 +111,18 @@ void vital_camera_map_get_map( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::get_map", eh,
-    vital::camera_map::map_camera_t map_cams =
-      vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
+    kwiver::vital::camera_map::map_camera_t map_cams =
+      kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
     *length = map_cams.size();
     *frame_numbers = (unsigned int*)malloc(sizeof(unsigned int) * *length);
     *cameras = (vital_camera_t**)malloc(sizeof(vital_camera_t*) * *length);
     size_t i=0;
-    VITAL_FOREACH( vital::camera_map::map_camera_t::value_type const& p, map_cams )
+    VITAL_FOREACH( kwiver::vital::camera_map::map_camera_t::value_type const& p, map_cams )
     {
       (*frame_numbers)[i] = static_cast< unsigned int >(p.first);
-      vital_c::CAMERA_SPTR_CACHE.store( p.second );
+      kwiver::vital_c::CAMERA_SPTR_CACHE.store( p.second );
       (*cameras)[i] = reinterpret_cast<vital_camera_t*>( p.second.get() );
       ++i;
     }
   );
-
-} }
+}
-- 
2.43.0


From 041f86c4e27c180c937c1adb9cd7e34c847c2742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 26/93] fix: allocate C strings with room for their terminator

Error messages and string lists were written one byte past their
allocation. Reading and writing config files also wrote to a null error
handle.
---
 vital/bindings/c/config_block.cxx    | 16 ++++------------
 vital/bindings/c/helpers/c_utils.cxx |  2 +-
 vital/bindings/c/helpers/c_utils.h   |  2 +-
 3 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/vital/bindings/c/config_block.cxx b/vital/bindings/c/config_block.cxx
index 6437c1a..79f2ef8 100644
--- a/vital/bindings/c/config_block.cxx
+++ b/vital/bindings/c/config_block.cxx
@@ -404,21 +404,15 @@ read_config_file_helper( vital_error_handle_t* eh, Args... args )
   }
   catch ( kwiver::vital::config_file_not_found_exception const& e )
   {
-    eh->error_code = 1;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 1, e.what() );
   }
   catch ( kwiver::vital::config_file_not_read_exception const& e )
   {
-    eh->error_code = 2;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 2, e.what() );
   }
   catch ( kwiver::vital::config_file_not_parsed_exception const& e )
   {
-    eh->error_code = 3;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 3, e.what() );
   }
 
   return 0;
@@ -478,9 +472,7 @@ vital_config_block_file_write( vital_config_block_t*  cb,
     }
     catch ( kwiver::vital::config_file_write_exception const& e )
     {
-      eh->error_code = 1;
-      eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-      strcpy( eh->message, e.what() );
+      POPULATE_EH( eh, 1, e.what() );
     }
 
                 );
diff --git a/vital/bindings/c/helpers/c_utils.cxx b/vital/bindings/c/helpers/c_utils.cxx
index f21dff0..6876968 100644
--- a/vital/bindings/c/helpers/c_utils.cxx
+++ b/vital/bindings/c/helpers/c_utils.cxx
@@ -46,7 +46,7 @@ void make_string_list( std::vector<std::string> const &list,
   strings = (char**)malloc( sizeof(char*) * length );
   for( unsigned int i = 0; i < length; i++ )
   {
-    strings[i] = (char*)malloc(sizeof(char) * list[i].length());
+    strings[i] = (char*)malloc(sizeof(char) * (list[i].length() + 1));
     std::strcpy( strings[i], list[i].c_str() );
   }
 }
diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index 16ec7ae..ed1fd1b 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -70,7 +70,7 @@ static auto m_logger( kwiver::vital::get_logger( "vital.c_utils" ) );
       vital_error_handle_t *PEH_eh_ptr_cast =                                \
         reinterpret_cast<vital_error_handle_t*>(eh_ptr);                     \
       PEH_eh_ptr_cast->error_code = ec;                                      \
-      PEH_eh_ptr_cast->message = (char*)malloc(sizeof(char) * strlen(msg));  \
+      PEH_eh_ptr_cast->message = (char*)malloc(strlen(msg) + 1);             \
       strcpy(PEH_eh_ptr_cast->message, msg);                                 \
     }                                                                        \
   } while(0)
-- 
2.43.0


From 232a6eae0daa4afa43d7fa673b9ff58b949779ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 27/93] fix: return the result of checking an algorithm's
 configuration

---
 vital/bindings/c/algorithm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 6dbea9e..07501f9 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -122,7 +122,7 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
 {
   STANDARD_CATCH(
     "C::algorithm::check_impl_configuration", eh,
-    kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
+    return kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
       kwiver::vital_c::CONFIG_BLOCK_SPTR_CACHE.get( cb )
     );
   );
-- 
2.43.0


From 85338da0908cc5250f715974472a9713cf75a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 28/93] fix: report the destruction of unknown objects in the C
 interface

camera.h documents that destroying a pointer that is no valid camera
populates the error handle, but unknown pointers were ignored.
---
 vital/bindings/c/helpers/c_utils.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index ed1fd1b..261ffc7 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -248,6 +248,13 @@ public:
         ref_count_cache_.erase(ptr);
       }
     }
+    else
+    {
+      std::ostringstream ss;
+      ss << get_log_prefix(ptr) << ": "
+         << " No cached shared_ptr for the given pointer (ptr: " << ptr << ")";
+      throw NoEntryException( ss.str() );
+    }
   }
 
   /// Erase an entry in the cache by C Interface opaque type pointer
-- 
2.43.0


From 3ec5c49ada8d4f9a7ad8978a9ac19a1de3159d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 29/93] fix: enumerate sparse matrices without rows or columns

The first inner vector of a matrix without any was read out of bounds, and
every empty inner vector took a level of recursion.
---
 vital/util/enumerate_matrix.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/vital/util/enumerate_matrix.h b/vital/util/enumerate_matrix.h
index a159334..11040a0 100644
--- a/vital/util/enumerate_matrix.h
+++ b/vital/util/enumerate_matrix.h
@@ -122,12 +122,15 @@ sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 template < typename ValueT, int Options, typename IndexT >
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::iterator(Eigen::SparseMatrix< ValueT, Options, IndexT > const& mat)
-  : m_matrix(&mat), m_end(mat.outerSize()), m_outer(0),
-    m_inner(new iterator_t(mat, 0))
+  : m_matrix(&mat), m_end(mat.outerSize()), m_outer(0)
 {
-  if (!(*(this->m_inner)))
+  if (this->m_end > 0)
   {
-    ++(*this);
+    this->m_inner.reset(new iterator_t(mat, 0));
+    if (!(*(this->m_inner)))
+    {
+      ++(*this);
+    }
   }
 }
 
@@ -164,19 +167,21 @@ sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator&
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::operator++()
 {
-  if (this->m_inner && !(++(*(this->m_inner))))
+  if (this->m_inner)
   {
-    if (++this->m_outer < this->m_end)
+    ++(*(this->m_inner));
+
+    // Skip the inner vectors without (further) cells
+    while (this->m_inner && !(*(this->m_inner)))
     {
-      this->m_inner.reset(new iterator_t(*(this->m_matrix), m_outer));
-      if (!(*(this->m_inner)))
+      if (++this->m_outer < this->m_end)
       {
-        return ++(*this);
+        this->m_inner.reset(new iterator_t(*(this->m_matrix), m_outer));
+      }
+      else
+      {
+        this->m_inner.reset();
       }
-    }
-    else
-    {
-      this->m_inner.reset();
     }
   }
 
-- 
2.43.0


From f7245eccac8b8a542d762b90595016daa53f50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 30/93] fix: time with the wall timer where chrono is available

The header tested a macro that is never defined, so that the timer was
always the empty one.
---
 vital/util/wall_timer.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/wall_timer.h.in b/vital/util/wall_timer.h.in
index 7dc3c6c..3fbb026 100644
--- a/vital/util/wall_timer.h.in
+++ b/vital/util/wall_timer.h.in
@@ -38,7 +38,7 @@
 
 #include <vital/util/timer.h>
 
-#if VITAL_USE_CHRONO
+#if VITAL_USE_STD_CHRONO
 
 #include <string>
 #include <chrono>
-- 
2.43.0


From 601d4b2ea7212ce04861cf1b4c6dc840079e1822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 31/93] fix: terminate the path of the module and not the empty
 result

---
 vital/util/get_paths.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/get_paths.cxx b/vital/util/get_paths.cxx
index 70d44f9..77e8cd0 100644
--- a/vital/util/get_paths.cxx
+++ b/vital/util/get_paths.cxx
@@ -79,7 +79,7 @@ get_module_path()
     char ppath[4096];
     int length(0);
     wai_getModulePath( ppath, sizeof ppath, &length );
-    path[length] = '\0';
+    ppath[length] = '\0';
 
     // convert to string
     path = ppath;
-- 
2.43.0


From f58c65cb1c03ff8240d56d28fa1946b87badb8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 32/93] fix: find the path of a module whose name has spaces

---
 vital/util/whereami.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/whereami.c b/vital/util/whereami.c
index 01b03cd..efefd4f 100644
--- a/vital/util/whereami.c
+++ b/vital/util/whereami.c
@@ -250,7 +250,7 @@ int WAI_PREFIX(getModulePath)(char* out, int capacity, int* dirname_length)
         break;
       }
 
-      if (sscanf(buffer, "%" PRIx64 "-%" PRIx64 " %s %" PRIx64 " %x:%x %u %s\n",
+      if (sscanf(buffer, "%" PRIx64 "-%" PRIx64 " %s %" PRIx64 " %x:%x %u %[^\n]\n",
                  &low, &high, perms, &offset, &major, &minor, &inode, path) == 8)
       {
         uint64_t addr = (uint64_t)(uintptr_t) __builtin_extract_return_addr(__builtin_return_address(0));
-- 
2.43.0


From 9c233fc603117e08a18be34a8bbda1ca91b2a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 33/93] fix: expand home directories that are the root
 directory

---
 vital/kwiversys/SystemTools.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index da34eb9..9c03e22 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -3988,8 +3988,8 @@ void SystemTools::SplitPath(const std::string& p,
         }
       }
 #endif
-    if(!homedir.empty() && (*homedir.rbegin() == '/' ||
-                            *homedir.rbegin() == '\\'))
+    if(homedir.size() > 1 && (*homedir.rbegin() == '/' ||
+                              *homedir.rbegin() == '\\'))
       {
       homedir.resize(homedir.size() - 1);
       }
-- 
2.43.0


From c850a36c76d23dce5d75b04ad1ce963792807a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 34/93] fix: find files inside of the root directory

---
 vital/kwiversys/SystemTools.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 9c03e22..22d1751 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4866,7 +4866,14 @@ bool SystemTools::IsSubDirectory(const std::string& cSubdir, const std::string&
   std::string dir = cDir;
   SystemTools::ConvertToUnixSlashes(subdir);
   SystemTools::ConvertToUnixSlashes(dir);
-  if(subdir.size() > dir.size() && subdir[dir.size()] == '/')
+  if(dir.empty() || subdir.size() <= dir.size())
+    {
+    return false;
+    }
+  // A root directory is the only one that ends with a slash.
+  bool isRoot = *dir.rbegin() == '/';
+  std::string::size_type slashPos = isRoot ? dir.size() - 1 : dir.size();
+  if(subdir[slashPos] == '/')
     {
     std::string s = subdir.substr(0, dir.size());
     return SystemTools::ComparePath(s, dir);
-- 
2.43.0


From 27ee914949e510c1585142f23603cd992c769f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 35/93] fix: do not double the slash after a home directory

---
 vital/kwiversys/SystemTools.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 22d1751..27c1def 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2044,7 +2044,9 @@ void SystemTools::ConvertToUnixSlashes(std::string& path)
       const char* homeEnv = SystemTools::GetEnv("HOME");
       if (homeEnv)
         {
-        path.replace(0,1,homeEnv);
+        // do not double the slash after a home that ends with one
+        bool endsWithSlash = *homeEnv && homeEnv[strlen(homeEnv)-1] == '/';
+        path.replace(0, endsWithSlash && path.size() > 1 ? 2 : 1, homeEnv);
         }
       }
 #ifdef HAVE_GETPWNAM
@@ -2055,7 +2057,12 @@ void SystemTools::ConvertToUnixSlashes(std::string& path)
       passwd* pw = getpwnam(user.c_str());
       if(pw)
         {
-        path.replace(0, idx, pw->pw_dir);
+        std::string home = pw->pw_dir;
+        if(idx != std::string::npos && !home.empty() && *home.rbegin() == '/')
+          {
+          ++idx;
+          }
+        path.replace(0, idx, home);
         }
       }
 #endif
-- 
2.43.0


From a3750e9527205bf3a211d073a1fc67cb4724af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 36/93] fix: report that a directory to copy can not be read

---
 vital/kwiversys/SystemTools.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 27c1def..df4dfea 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2524,11 +2524,15 @@ bool SystemTools::CopyADirectory(const std::string& source, const std::string& d
 {
   Directory dir;
 #ifdef _WIN32
-  dir.Load(Encoding::ToNarrow(
+  bool loaded = dir.Load(Encoding::ToNarrow(
              SystemTools::ConvertToWindowsExtendedPath(source)));
 #else
-  dir.Load(source);
+  bool loaded = dir.Load(source);
 #endif
+  if ( !loaded )
+    {
+    return false;
+    }
   size_t fileNum;
   if ( !SystemTools::MakeDirectory(destination) )
     {
-- 
2.43.0


From bf2e428117240930aceaf1b770274e80a12378a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 37/93] fix: do not copy from a directory made for the copy

---
 vital/kwiversys/SystemTools.cxx | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index df4dfea..fedd6d4 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2405,6 +2405,20 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
     const int bufferSize = 4096;
     char buffer[bufferSize];
 
+    // Open the source before anything is created
+#if defined(_WIN32)
+    kwsys::ifstream fin(Encoding::ToNarrow(
+      SystemTools::ConvertToWindowsExtendedPath(source)).c_str(),
+                  std::ios::in | std::ios::binary);
+#else
+    kwsys::ifstream fin(source.c_str(),
+                  std::ios::in | std::ios::binary);
+#endif
+    if(!fin)
+      {
+      return false;
+      }
+
     // If destination is a directory, try to create a file with the same
     // name as the source in that directory.
 
@@ -2427,20 +2441,6 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
 
     SystemTools::MakeDirectory(destination_dir);
 
-    // Open files
-#if defined(_WIN32)
-    kwsys::ifstream fin(Encoding::ToNarrow(
-      SystemTools::ConvertToWindowsExtendedPath(source)).c_str(),
-                  std::ios::in | std::ios::binary);
-#else
-    kwsys::ifstream fin(source.c_str(),
-                  std::ios::in | std::ios::binary);
-#endif
-    if(!fin)
-      {
-      return false;
-      }
-
     // try and remove the destination file so that read only destination files
     // can be written to.
     // If the remove fails continue so that files in read only directories
-- 
2.43.0


From 27f300afdf9019323bf152a41b376231ac0341b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 38/93] fix: report that a directory can not be made where
 something else exists

---
 vital/kwiversys/SystemTools.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index fedd6d4..076b6f8 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -766,6 +766,8 @@ bool SystemTools::MakeDirectory(const std::string& path)
       {
       return false;
       }
+    // What exists may be a file or a link to nothing.
+    return SystemTools::FileIsDirectory(topdir);
     }
   return true;
 }
-- 
2.43.0


From 8c2d0247a103cc0e7030884cd1d2551877a23aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 39/93] fix: search on behind an entry of another kind in
 FindFile and FindDirectory

---
 vital/kwiversys/SystemTools.cxx    | 16 ++++++++++------
 vital/kwiversys/SystemTools.hxx.in | 10 +++++-----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 076b6f8..ca4d165 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2877,7 +2877,8 @@ size_t SystemTools::GetMaximumFilePathLength()
 std::string SystemTools
 ::FindName(const std::string& name,
            const std::vector<std::string>& userPaths,
-           bool no_system_path)
+           bool no_system_path,
+           bool directory)
 {
   // Add the system search path to our path first
   std::vector<std::string> path;
@@ -2913,7 +2914,8 @@ std::string SystemTools
     {
     tryPath = *p;
     tryPath += name;
-    if(SystemTools::FileExists(tryPath))
+    if(SystemTools::FileExists(tryPath) &&
+       SystemTools::FileIsDirectory(tryPath) == directory)
       {
       return tryPath;
       }
@@ -2932,8 +2934,9 @@ std::string SystemTools
            const std::vector<std::string>& userPaths,
            bool no_system_path)
 {
-  std::string tryPath = SystemTools::FindName(name, userPaths, no_system_path);
-  if(!tryPath.empty() && !SystemTools::FileIsDirectory(tryPath))
+  std::string tryPath =
+    SystemTools::FindName(name, userPaths, no_system_path, false);
+  if(!tryPath.empty())
     {
     return SystemTools::CollapseFullPath(tryPath);
     }
@@ -2951,8 +2954,9 @@ std::string SystemTools
                 const std::vector<std::string>& userPaths,
                 bool no_system_path)
 {
-  std::string tryPath = SystemTools::FindName(name, userPaths, no_system_path);
-  if(!tryPath.empty() && SystemTools::FileIsDirectory(tryPath))
+  std::string tryPath =
+    SystemTools::FindName(name, userPaths, no_system_path, true);
+  if(!tryPath.empty())
     {
     return SystemTools::CollapseFullPath(tryPath);
     }
diff --git a/vital/kwiversys/SystemTools.hxx.in b/vital/kwiversys/SystemTools.hxx.in
index bba5a5c..af9397d 100644
--- a/vital/kwiversys/SystemTools.hxx.in
+++ b/vital/kwiversys/SystemTools.hxx.in
@@ -972,14 +972,14 @@ private:
   static bool FileIsFullPath(const char*, size_t);
 
   /**
-   * Find a filename (file or directory) in the system PATH, with
-   * optional extra paths.
+   * Find a filename (directory or file, as asked for) in the system
+   * PATH, with optional extra paths.
    */
   static std::string FindName(
     const std::string& name,
-    const std::vector<std::string>& path =
-    std::vector<std::string>(),
-    bool no_system_path = false);
+    const std::vector<std::string>& path,
+    bool no_system_path,
+    bool directory);
 
 
   /**
-- 
2.43.0


From 47283845389fbdf60d9a93a40704641231d73148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 40/93] fix: locate files only in sub-directories that exist

---
 vital/kwiversys/SystemTools.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index ca4d165..c649916 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4461,8 +4461,10 @@ bool SystemTools::LocateFileInDir(const char *filename,
           }
         temp += filename_dir_bases;
 
-        res = SystemTools::LocateFileInDir(
-          filename_base.c_str(), temp.c_str(), filename_found, 0);
+        // A directory that does not exist would stand for its parent.
+        res = SystemTools::FileIsDirectory(temp) &&
+          SystemTools::LocateFileInDir(
+            filename_base.c_str(), temp.c_str(), filename_found, 0);
 
         } while (!res && !filename_dir_base.empty());
       }
-- 
2.43.0


From 93c36e8234d054354d74ae984f912177f52071d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 41/93] fix: stop looking for programs at a space in front

---
 vital/kwiversys/SystemTools.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index c649916..87708a8 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4622,6 +4622,10 @@ void SystemTools::SplitProgramFromArgs(const std::string& path,
       return;
       }
     // move past the space for the next search
+    if(spacePos == 0)
+      {
+      break;
+      }
     spacePos--;
     spacePos = dir.rfind(' ', spacePos);
     }
-- 
2.43.0


From 60aaa48e35581f96cdecd979e78dd2e80071b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 42/93] fix: count non-text bytes of files as documented

---
 vital/kwiversys/SystemTools.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 87708a8..36b3b55 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4350,7 +4350,7 @@ SystemTools::DetectFileType(const char *filename,
 
   while (ptr != buffer_end)
     {
-    if ((*ptr >= 0x20 && *ptr <= 0x7F) ||
+    if ((*ptr >= 0x20 && *ptr <= 0x7E) ||
         *ptr == '\n' ||
         *ptr == '\r' ||
         *ptr == '\t')
@@ -4366,7 +4366,7 @@ SystemTools::DetectFileType(const char *filename,
     (static_cast<double>(read_length - text_count) /
      static_cast<double>(read_length));
 
-  if (current_percent_bin >= percent_bin)
+  if (current_percent_bin > percent_bin)
     {
     return SystemTools::FileTypeBinary;
     }
-- 
2.43.0


From 6c2af554bfa2671f82424096680c93182b13feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 43/93] fix: remove carriage returns only from the end of lines

---
 vital/kwiversys/SystemTools.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 36b3b55..93cd8e3 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4712,12 +4712,6 @@ bool SystemTools::GetLineFromStream(std::istream& is,
       haveNewline = true;
       }
 
-    // Avoid storing a carriage return character.
-    if(length > 0 && buffer[length-1] == '\r')
-      {
-      buffer[length-1] = 0;
-      }
-
     // if we read too much then truncate the buffer
     if (leftToRead > 0)
       {
@@ -4736,6 +4730,12 @@ bool SystemTools::GetLineFromStream(std::istream& is,
     line.append(buffer);
     }
 
+  // Avoid storing a carriage return character.
+  if(!line.empty() && *line.rbegin() == '\r')
+    {
+    line.resize(line.size() - 1);
+    }
+
   // Return the results.
   if(has_newline)
     {
-- 
2.43.0


From 9a35cda2ef6c240065bf141e329161730f3fe5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 44/93] fix: do not copy files onto themselves in their own
 directory

---
 vital/kwiversys/SystemTools.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 93cd8e3..22b7cdf 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2433,6 +2433,10 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
       real_destination += '/';
       std::string source_name = source;
       real_destination += SystemTools::GetFilenameName(source_name);
+      if(SystemTools::SameFile(source, real_destination))
+        {
+        return true;
+        }
       }
     else
       {
-- 
2.43.0


From e6bb871276255b012d32291dd788fa244df888fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:20 +0000
Subject: [PATCH 45/93] fix: copies of a regular expression had undetermined
 match positions

Only the start and end of the whole match were copied, not those of the
sub-expressions nor the text they refer to.  Assigning an empty expression
leaked the program assigned to.
---
 vital/kwiversys/RegularExpression.cxx | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 598e7ca..2bd46f7 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -55,8 +55,12 @@ RegularExpression::RegularExpression (const RegularExpression& rxp) {
   this->program = new char[this->progsize];     // Allocate storage
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=0; ind < NSUBEXP; ++ind)              // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
@@ -81,6 +85,7 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
     }
   if ( !rxp.program )
     {
+    delete [] this->program;
     this->program = 0;
     return *this;
     }
@@ -90,8 +95,12 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
   this->program = new char[this->progsize];     // Allocate storage
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=0; ind < NSUBEXP; ++ind)              // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
@@ -366,7 +375,11 @@ bool RegularExpression::compile (const char* exp) {
         printf ("RegularExpression::compile(): Error in compile.\n");
         return false;
       }
-    this->startp[0] = this->endp[0] = this->searchstring = 0;
+    for(int i=0; i < NSUBEXP; ++i)
+      {
+      this->startp[i] = this->endp[i] = 0;
+      }
+    this->searchstring = 0;
 
     // Small enough for pointer-storage convention?
     if (regsize >= 32767L) {    // Probably could be 65535L.
-- 
2.43.0


From f5694638f125c915ebdf74739edf5503af4bc481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:40 +0000
Subject: [PATCH 46/93] fix: the help of command line arguments overflowed its
 buffers

Names of more than 75 characters did not fit the buffers, a column of names
as wide as the line made the wrapping of the help text read out of bounds, and
so did a space at the end of the text.
---
 vital/kwiversys/CommandLineArguments.cxx | 43 ++++++++++++------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 3636836..11027e1 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -579,6 +579,7 @@ void CommandLineArguments::GenerateHelp()
         case CommandLineArguments::CONCAT_ARGUMENT: clen += 3; break;
         case CommandLineArguments::SPACE_ARGUMENT:  clen += 4; break;
         case CommandLineArguments::EQUAL_ARGUMENT:  clen += 4; break;
+        case CommandLineArguments::MULTI_ARGUMENT:  clen += 12; break;
         }
       if ( clen > maxlen )
         {
@@ -587,12 +588,17 @@ void CommandLineArguments::GenerateHelp()
       }
     }
 
-  // Create format for that string
-  char format[80];
-  sprintf(format, "  %%-%us  ", static_cast<unsigned int>(maxlen));
-
+  CommandLineArguments::Internal::String::size_type optlen = maxlen;
   maxlen += 4; // For the space before and after the option
 
+  // Room for the help, which is not split if there is none
+  CommandLineArguments::Internal::String::size_type room =
+    CommandLineArguments::Internal::String::npos;
+  if ( maxlen < this->LineLength )
+    {
+    room = this->LineLength - maxlen;
+    }
+
   // Print help for each option
   for ( mpit = mp.begin();
     mpit != mp.end();
@@ -602,19 +608,17 @@ void CommandLineArguments::GenerateHelp()
     for ( sit = mpit->second.begin(); sit != mpit->second.end(); sit++ )
       {
       str << std::endl;
-      char argument[100];
-      sprintf(argument, "%s", sit->c_str());
+      std::string argument = *sit;
       switch ( this->Internals->Callbacks[*sit].ArgumentType )
         {
         case CommandLineArguments::NO_ARGUMENT: break;
-        case CommandLineArguments::CONCAT_ARGUMENT: strcat(argument, "opt"); break;
-        case CommandLineArguments::SPACE_ARGUMENT:  strcat(argument, " opt"); break;
-        case CommandLineArguments::EQUAL_ARGUMENT:  strcat(argument, "=opt"); break;
-        case CommandLineArguments::MULTI_ARGUMENT:  strcat(argument, " opt opt ..."); break;
+        case CommandLineArguments::CONCAT_ARGUMENT: argument += "opt"; break;
+        case CommandLineArguments::SPACE_ARGUMENT:  argument += " opt"; break;
+        case CommandLineArguments::EQUAL_ARGUMENT:  argument += "=opt"; break;
+        case CommandLineArguments::MULTI_ARGUMENT:  argument += " opt opt ..."; break;
         }
-      char buffer[80];
-      sprintf(buffer, format, argument);
-      str << buffer;
+      argument.resize(optlen, ' ');
+      str << "  " << argument << "  ";
       }
     const char* ptr = this->Internals->Callbacks[mpit->first].Help;
     size_t len = strlen(ptr);
@@ -624,13 +628,10 @@ void CommandLineArguments::GenerateHelp()
       // If argument with help is longer than line length, split it on previous
       // space (or tab) and continue on the next line
       CommandLineArguments::Internal::String::size_type cc;
-      for ( cc = 0; ptr[cc]; cc ++ )
+      while ( *ptr == ' ' || *ptr == '\t' )
         {
-        if ( *ptr == ' ' || *ptr == '\t' )
-          {
-          ptr ++;
-          len --;
-          }
+        ptr ++;
+        len --;
         }
       if ( cnt > 0 )
         {
@@ -640,9 +641,9 @@ void CommandLineArguments::GenerateHelp()
           }
         }
       CommandLineArguments::Internal::String::size_type skip = len;
-      if ( skip > this->LineLength - maxlen )
+      if ( skip > room )
         {
-        skip = this->LineLength - maxlen;
+        skip = room;
         for ( cc = skip-1; cc > 0; cc -- )
           {
           if ( ptr[cc] == ' ' || ptr[cc] == '\t' )
-- 
2.43.0


From f486483f30b74d0d42ce8239cd459b5cdf817e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:40 +0000
Subject: [PATCH 47/93] fix: values of command line arguments were returned as
 remaining arguments

The value after a SPACE_ARGUMENT and those of a MULTI_ARGUMENT were not counted
as parsed.
---
 vital/kwiversys/CommandLineArguments.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 11027e1..decc034 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -239,6 +239,7 @@ int CommandLineArguments::Parse()
           return 0;
           }
         cc ++;
+        this->Internals->LastArgument = cc;
         break;
       case EQUAL_ARGUMENT:
         if ( arg.size() == sarg.size() || arg.at(sarg.size()) != '=' )
@@ -276,6 +277,7 @@ int CommandLineArguments::Parse()
             {
             return 0;
             }
+          this->Internals->LastArgument = cc;
           }
         if ( cc != this->Internals->Argv.size() )
           {
-- 
2.43.0


From 397e84348227c7e5413cece59d76026d8b2d786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:40 +0000
Subject: [PATCH 48/93] fix: callbacks of arguments without value did not get
 the documented "1"

---
 vital/kwiversys/CommandLineArguments.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index decc034..5a5bc90 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -220,7 +220,7 @@ int CommandLineArguments::Parse()
         {
       case NO_ARGUMENT:
         // No value
-        if ( !this->PopulateVariable(cs, 0) )
+        if ( !this->PopulateVariable(cs, "1") )
           {
           return 0;
           }
-- 
2.43.0


From 5720f22df3f70ee751643eba4bc2e741cb043eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 49/93] fix: replacing in strings with null characters lost or
 overread text

---
 vital/kwiversys/SystemTools.cxx | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 22b7cdf..1baf0f2 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -806,36 +806,32 @@ void SystemTools::ReplaceString(std::string& source,
                                 size_t replaceSize,
                                 const std::string& with)
 {
-  const char *src = source.c_str();
-  char *searchPos = const_cast<char *>(strstr(src,replace));
+  std::string::size_type searchPos = source.find(replace, 0, replaceSize);
 
   // get out quick if string is not found
-  if (!searchPos)
+  if (searchPos == std::string::npos)
     {
     return;
     }
 
   // perform replacements until done
-  char *orig = strdup(src);
-  char *currentPos = orig;
-  searchPos = searchPos - src + orig;
+  const std::string orig = source;
+  std::string::size_type currentPos = 0;
 
   // initialize the result
   source.erase(source.begin(),source.end());
   do
     {
-    *searchPos = '\0';
-    source += currentPos;
+    source.append(orig, currentPos, searchPos - currentPos);
     currentPos = searchPos + replaceSize;
     // replace
     source += with;
-    searchPos = strstr(currentPos,replace);
+    searchPos = orig.find(replace, currentPos, replaceSize);
     }
-  while (searchPos);
+  while (searchPos != std::string::npos);
 
   // copy any trailing text
-  source += currentPos;
-  free(orig);
+  source.append(orig, currentPos, std::string::npos);
 }
 
 #if defined(KEY_WOW64_32KEY) && defined(KEY_WOW64_64KEY)
-- 
2.43.0


From 15bd84038988c192a28615e01b68e8efe54243fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 50/93] fix: the estimated length of formatted text was too
 small

---
 vital/kwiversys/SystemTools.cxx | 64 ++++-----------------------------
 1 file changed, 7 insertions(+), 57 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 1baf0f2..ef675c7 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1870,65 +1870,15 @@ int SystemTools::EstimateFormatLength(const char *format, va_list ap)
     return 0;
     }
 
-  // Quick-hack attempt at estimating the length of the string.
-  // Should never under-estimate.
+  // Print the string without storing it.
 
-  // Start with the length of the format string itself.
-
-  size_t length = strlen(format);
-
-  // Increase the length for every argument in the format.
-
-  const char* cur = format;
-  while(*cur)
-    {
-    if(*cur++ == '%')
-      {
-      // Skip "%%" since it doesn't correspond to a va_arg.
-      if(*cur != '%')
-        {
-        while(!int(isalpha(*cur)))
-          {
-          ++cur;
-          }
-        switch (*cur)
-          {
-          case 's':
-          {
-          // Check the length of the string.
-          char* s = va_arg(ap, char*);
-          if(s)
-            {
-            length += strlen(s);
-            }
-          } break;
-          case 'e':
-          case 'f':
-          case 'g':
-          {
-          // Assume the argument contributes no more than 64 characters.
-          length += 64;
-
-          // Eat the argument.
-          static_cast<void>(va_arg(ap, double));
-          } break;
-          default:
-          {
-          // Assume the argument contributes no more than 64 characters.
-          length += 64;
-
-          // Eat the argument.
-          static_cast<void>(va_arg(ap, int));
-          } break;
-          }
-        }
-
-      // Move past the characters just tested.
-      ++cur;
-      }
-    }
+#if defined(_MSC_VER)
+  int length = _vscprintf(format, ap);
+#else
+  int length = vsnprintf(NULL, 0, format, ap);
+#endif
 
-  return static_cast<int>(length);
+  return length < 0 ? 0 : length;
 }
 
 std::string SystemTools::EscapeChars(
-- 
2.43.0


From db17bfd77ae50207b8a9326ed9e6f4667c86f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 51/93] fix: incomplete dates and unknown months were converted
 to undetermined times

---
 vital/kwiversys/SystemTools.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index ef675c7..4e185ae 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2612,7 +2612,7 @@ long int SystemTools::CreationTime(const std::string& filename)
 
 bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 {
-  if (!str || !tmt || strlen(str) > 11)
+  if (!str || !tmt || strlen(str) != 11)
     {
     return false;
     }
@@ -2635,7 +2635,7 @@ bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 
   buffer[3] = 0;
   char *ptr = strstr(month_names, buffer);
-  if (!ptr)
+  if (!ptr || (ptr - month_names) % 3 != 0)
     {
     return false;
     }
@@ -2660,7 +2660,7 @@ bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 
 bool SystemTools::ConvertTimeStampMacroString(const char *str, time_t *tmt)
 {
-  if (!str || !tmt || strlen(str) > 26)
+  if (!str || !tmt || strlen(str) < 24 || strlen(str) > 26)
     {
     return false;
     }
@@ -2686,7 +2686,7 @@ bool SystemTools::ConvertTimeStampMacroString(const char *str, time_t *tmt)
 
   buffer[7] = 0;
   char *ptr = strstr(month_names, buffer + 4);
-  if (!ptr)
+  if (!ptr || (ptr - month_names) % 3 != 0)
     {
     return false;
     }
-- 
2.43.0


From 4b3cc881bbe46a296c2f21febc0ddb3c1372e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 52/93] fix: a date longer than the buffer was undetermined
 text

---
 vital/kwiversys/SystemTools.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 4e185ae..e1e3706 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4589,8 +4589,8 @@ std::string SystemTools::GetCurrentDateTime(const char* format)
   char buf[1024];
   time_t t;
   time(&t);
-  strftime(buf, sizeof(buf), format, localtime(&t));
-  return std::string(buf);
+  size_t length = strftime(buf, sizeof(buf), format, localtime(&t));
+  return std::string(buf, length);
 }
 
 std::string SystemTools::MakeCidentifier(const std::string& s)
-- 
2.43.0


From 57bd73a44b2e46c106d7af080dc8a44030c1208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:49 +0000
Subject: [PATCH 53/93] fix: a similarity from a matrix that is none was
 undetermined

---
 vital/types/similarity.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vital/types/similarity.cxx b/vital/types/similarity.cxx
index 436b373..0447f84 100644
--- a/vital/types/similarity.cxx
+++ b/vital/types/similarity.cxx
@@ -46,7 +46,9 @@ namespace vital {
 template < typename T >
 similarity_< T >
 ::similarity_( const Eigen::Matrix< T, 4, 4 >& M )
-  : m_logger( kwiver::vital::get_logger( "vital.similarity" ) )
+  : scale_( 1 ),
+  trans_( 0, 0, 0 ),
+  m_logger( kwiver::vital::get_logger( "vital.similarity" ) )
 {
   if ( ( M( 3, 0 ) != T( 0 ) )
        || ( M( 3, 1 ) != T( 0 ) )
@@ -59,8 +61,8 @@ similarity_< T >
     return;
   }
   Eigen::Matrix< T, 3, 3 > sr = M.template block< 3, 3 > ( 0, 0 );
-  this->scale_ = sr.determinant();
-  if ( this->scale_ <= T( 0 ) )
+  const T det = sr.determinant();
+  if ( det <= T( 0 ) )
   {
     // similarity must have positive scale
     // TODO throw an exception
@@ -68,7 +70,7 @@ similarity_< T >
     return;
   }
   // take the cube root
-  this->scale_ = std::pow( this->scale_, static_cast< T > ( 1 / 3.0 ) );
+  this->scale_ = std::pow( det, static_cast< T > ( 1 / 3.0 ) );
   // factor scale out of sr
   sr /= this->scale_;
   this->rot_ = rotation_< T > ( sr );
-- 
2.43.0


From 8febd592980a29775fd1d58fd40ffe68b1fa94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 54/93] fix: inverse refused homographies of a small scale

---
 vital/types/homography.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vital/types/homography.cxx b/vital/types/homography.cxx
index 46a4f5e..db05a25 100644
--- a/vital/types/homography.cxx
+++ b/vital/types/homography.cxx
@@ -175,7 +175,15 @@ homography_< T >
   matrix_t inv;
   bool isvalid;
 
-  this->h_.computeInverseWithCheck( inv, isvalid );
+  // The scale of a homography is arbitrary, so its determinant only tells a
+  // singular matrix when compared with the terms it is made of.
+  matrix_t const a = this->h_.cwiseAbs();
+  T const terms = a( 0, 0 ) * ( a( 1, 1 ) * a( 2, 2 ) + a( 1, 2 ) * a( 2, 1 ) ) +
+                  a( 0, 1 ) * ( a( 1, 0 ) * a( 2, 2 ) + a( 1, 2 ) * a( 2, 0 ) ) +
+                  a( 0, 2 ) * ( a( 1, 0 ) * a( 2, 1 ) + a( 1, 1 ) * a( 2, 0 ) );
+
+  this->h_.computeInverseWithCheck( inv, isvalid,
+                                    10 * Eigen::NumTraits< T >::epsilon() * terms );
   if ( ! isvalid )
   {
     throw non_invertible_matrix();
-- 
2.43.0


From 7ac4f7baf9206e7016f589e4894fe480929ff302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 55/93] fix: documented unit of the SYSENV memory sizes is MB

---
 vital/config/doc/config_file_format.md.dox | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/config/doc/config_file_format.md.dox b/vital/config/doc/config_file_format.md.dox
index bd4e05b..96214fe 100644
--- a/vital/config/doc/config_file_format.md.dox
+++ b/vital/config/doc/config_file_format.md.dox
@@ -157,10 +157,10 @@ This macro provider supports the following symbols derived from the current host
 
 - cwd - current working directory
 - numproc - number of processors in the current system
-- totalvirtualmemory - number of KB of total virtual memory
-- availablevirtualmemory - number of KB of available virtual memory
-- totalphysicalmemory - number of KB of total physical memory
-- availablephysicalmemory - number of KB of physical virtual memory
+- totalvirtualmemory - number of MB of total virtual memory
+- availablevirtualmemory - number of MB of available virtual memory
+- totalphysicalmemory - number of MB of total physical memory
+- availablephysicalmemory - number of MB of available physical memory
 - hostname - name of the host computer
 - domainname - name of the conputer in the domain
 - osname - name of the host operating system
-- 
2.43.0


From a360e3cc2e932013e0f6d08151b3ef0d7c688a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 56/93] fix: data of elements before the vertices was read as
 landmarks

---
 vital/io/landmark_map_io.cxx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index d2e01a8..01438d5 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -209,6 +209,9 @@ read_ply_file( path_t const& file_path )
   std::string line;
 
   unsigned int num_verts = 0, vert_count = 0;
+  // number of lines with the data of elements in front of the vertices
+  bool found_vertices = false;
+  unsigned int num_skip = 0;
   while ( std::getline( ifile, line ) )
   {
     std::vector<std::string> tokens = get_tokens(line);
@@ -233,10 +236,18 @@ read_ply_file( path_t const& file_path )
         std::istringstream iss(tokens[2]);
         iss >> num_verts;
         parsing_vertex_props = true;
+        found_vertices = true;
       }
       else if ( tokens[0] == "element" )
       {
         parsing_vertex_props = false;
+        if ( ! found_vertices && tokens.size() == 3 )
+        {
+          unsigned int num_items = 0;
+          std::istringstream iss(tokens[2]);
+          iss >> num_items;
+          num_skip += num_items;
+        }
       }
 
       if ( parsing_vertex_props )
@@ -259,6 +270,12 @@ read_ply_file( path_t const& file_path )
       continue;
     }
 
+    if ( num_skip > 0 )
+    {
+      --num_skip;
+      continue;
+    }
+
     // exit if we have read the expected number of points
     if ( vert_count >= num_verts )
     {
-- 
2.43.0


From 0ef11cb55709344530225a83155725c4c15c9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 57/93] fix: landmark files with CRLF line ends were read as
 empty

---
 vital/io/landmark_map_io.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 01438d5..d5ab87e 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -221,7 +221,7 @@ read_ply_file( path_t const& file_path )
     }
     if ( ! parsed_header )
     {
-      if ( line == "end_header" )
+      if ( tokens.size() == 1 && tokens[0] == "end_header" )
       {
         parsed_header = true;
         // TODO check that provided properties are meaningful
-- 
2.43.0


From cfcb0412dc32c8926c0b781f10f91d9de8762ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 58/93] fix: a directory was read as an empty landmark file

---
 vital/io/landmark_map_io.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index d5ab87e..56ab6d0 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -168,6 +168,11 @@ read_ply_file( path_t const& file_path )
   {
     throw file_not_found_exception( file_path, "Cannot find file." );
   }
+  else if ( kwiversys::SystemTools::FileIsDirectory( file_path ) )
+  {
+    throw file_not_found_exception( file_path,
+          "Path given doesn't point to a regular file!" );
+  }
 
   landmark_map::map_landmark_t landmarks;
 
-- 
2.43.0


From 3163c8e36a704085a3ddc5297be8e8259c4df05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:19 +0000
Subject: [PATCH 59/93] fix: python get_description of a missing key raised
 ValueError

---
 vital/bindings/python/vital/config_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/python/vital/config_block.py b/vital/bindings/python/vital/config_block.py
index 1475643..2d731f7 100644
--- a/vital/bindings/python/vital/config_block.py
+++ b/vital/bindings/python/vital/config_block.py
@@ -259,7 +259,7 @@ class ConfigBlock (VitalObject):
         cb_get_descr.restype = self.MST_TYPE_PTR
 
         mst_ptr = cb_get_descr(self, key)
-        if mst_ptr is not None:
+        if bool(mst_ptr):
             s = mst_ptr.contents.str
             self.MST_FREE(mst_ptr)
             return s
-- 
2.43.0


From 8d6f8dc39fd8066194b0ff84a645cf59d820a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:48 +0000
Subject: [PATCH 60/93] fix: maptk_track_features reported failure after
 success

---
 vital/bindings/python/vital/bin/maptk_track_features.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/bindings/python/vital/bin/maptk_track_features.py b/vital/bindings/python/vital/bin/maptk_track_features.py
index 3194d90..6e3fe0c 100755
--- a/vital/bindings/python/vital/bin/maptk_track_features.py
+++ b/vital/bindings/python/vital/bin/maptk_track_features.py
@@ -271,6 +271,7 @@ class TrackFeaturesTool (object):
 
         self.log.info("Frame processing complete, writing out track set...")
         tracks.write_tracks_file(self.output_tracks_filepath)
+        return True
 
 
 def cli_main():
-- 
2.43.0


From fb5bf0481e0041153103cfdfdaf7ca779848b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 61/93] fix: python destroyed config blocks without the error
 handle the C function takes

---
 vital/bindings/python/vital/config_block.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/bindings/python/vital/config_block.py b/vital/bindings/python/vital/config_block.py
index 2d731f7..bc5a01b 100644
--- a/vital/bindings/python/vital/config_block.py
+++ b/vital/bindings/python/vital/config_block.py
@@ -116,7 +116,10 @@ class ConfigBlock (VitalObject):
     def _destroy(self):
         # print "Destroying CB: \"%s\" %d" % (self.name, self._inst_ptr)
         if self.c_pointer:
-            self.VITAL_LIB.vital_config_block_destroy(self)
+            cb_destroy = self.VITAL_LIB.vital_config_block_destroy
+            cb_destroy.argtypes = [self.C_TYPE_PTR, VitalErrorHandle.C_TYPE_PTR]
+            with VitalErrorHandle() as eh:
+                cb_destroy(self, eh)
 
     @property
     def name(self):
-- 
2.43.0


From 84d13f1c2d69b3a3c4b24e94289dcbc447dfcd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:12 +0000
Subject: [PATCH 62/93] fix: running a process replaced the program's handlers
 of SIGINT and SIGTERM

---
 vital/kwiversys/ProcessUNIX.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 6d9b109..07eb61a 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2883,7 +2883,7 @@ static int kwsysProcessesAdd(kwsysProcess* cp)
     sigemptyset(&newSigAction.sa_mask);
     sigaddset(&newSigAction.sa_mask, SIGINT);
     while((sigaction(SIGTERM, &newSigAction,
-                     &kwsysProcessesOldSigIntAction) < 0) &&
+                     &kwsysProcessesOldSigTermAction) < 0) &&
           (errno == EINTR));
     }
   }
-- 
2.43.0


From 202bd6686453bac410684008b92e2c17a9c3ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 63/93] fix: killing a process again signalled whatever had its
 PID by then

---
 vital/kwiversys/ProcessUNIX.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 07eb61a..60d5571 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1575,6 +1575,9 @@ void kwsysProcess_Kill(kwsysProcess* cp)
       /* Reap the child.  Keep trying until the call is not
          interrupted.  */
       while((waitpid(cp->ForkPIDs[i], &status, 0) < 0) && (errno == EINTR));
+
+      /* The PID may now be reused.  Do not signal it again.  */
+      cp->ForkPIDs[i] = 0;
       }
     }
 
-- 
2.43.0


From af8accf6febf06142fe96b7c293947a07780beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:32 +0000
Subject: [PATCH 64/93] fix: a signal during the start of a process made the
 start fail

---
 vital/kwiversys/ProcessUNIX.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 60d5571..c69ff7e 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1974,7 +1974,8 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
   /* Make sure the child is in the process group before we proceed.  This
      avoids race conditions with calls to the kill function that we make for
      signalling process groups.  */
-  while((readRes = read(pgidPipe[0], &tmp, 1)) > 0);
+  while((readRes = read(pgidPipe[0], &tmp, 1)) > 0 ||
+        (readRes < 0 && errno == EINTR));
   if(readRes < 0)
     {
     sigprocmask(SIG_SETMASK, &old_mask, 0);
-- 
2.43.0


From 29bb923d8eed7aac58e375c9b836fbbfa574490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 65/93] fix: stderr merged into a shared stdout went into the
 pipeline

---
 vital/kwiversys/ProcessUNIX.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index c69ff7e..0b415a8 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1920,14 +1920,16 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
       {
       close(0);
       }
-    if(si->StdOut != 1)
-      {
-      dup2(si->StdOut, 1);
-      }
+    /* Setup stderr before stdout because it may be merged into the
+       stdout shared with the parent.  */
     if(si->StdErr != 2)
       {
       dup2(si->StdErr, 2);
       }
+    if(si->StdOut != 1)
+      {
+      dup2(si->StdOut, 1);
+      }
 
     /* Clear the close-on-exec flag for stdin, stdout, and stderr.
        All other pipe handles will be closed when exec succeeds.  */
-- 
2.43.0


From a68ce78103fa479dc943f0b32f13d2e2a5d94674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:59 +0000
Subject: [PATCH 66/93] fix: an error message ended in the rest of an earlier
 one

---
 vital/kwiversys/ProcessUNIX.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 0b415a8..70f99ad 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2021,6 +2021,7 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
   if(total > 0)
     {
     /* The child failed to execute the process.  */
+    cp->ErrorMessage[total] = 0;
     return 0;
     }
   }
-- 
2.43.0


From a45a0fae0bbe1f1d8f6d5513a84dbc91e66fc918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:29 +0000
Subject: [PATCH 67/93] fix: a failing fork signalled all processes of the user

---
 vital/kwiversys/ProcessUNIX.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 70f99ad..984a600 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1892,6 +1892,8 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
 #endif
   if(cp->ForkPIDs[prIndex] < 0)
     {
+    /* There is no child.  Do not signal all processes in its place.  */
+    cp->ForkPIDs[prIndex] = 0;
     sigprocmask(SIG_SETMASK, &old_mask, 0);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[0]);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[1]);
-- 
2.43.0


From 601a9d2f72548b7b82271b74bfd7da688085bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:39 +0000
Subject: [PATCH 68/93] fix: in a program with closed standard streams pipes of
 processes were mixed up

---
 vital/kwiversys/ProcessUNIX.c | 56 ++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 984a600..fcdadea 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -157,6 +157,8 @@ static void kwsysProcessCleanup(kwsysProcess* cp, int error);
 static void kwsysProcessCleanupDescriptor(int* pfd);
 static void kwsysProcessClosePipes(kwsysProcess* cp);
 static int kwsysProcessSetNonBlocking(int fd);
+static int kwsysProcessAvoidStandard(int* pfd);
+static int kwsysProcessAvoidStandardPipe(int p[2]);
 static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
                               kwsysProcessCreateInformation* si);
 static void kwsysProcessDestroy(kwsysProcess* cp);
@@ -809,7 +811,7 @@ void kwsysProcess_Execute(kwsysProcess* cp)
     {
     /* Open a file for the child's stdin to read.  */
     cp->PipeChildStd[0] = open(cp->PipeFileSTDIN, O_RDONLY);
-    if(cp->PipeChildStd[0] < 0)
+    if(!kwsysProcessAvoidStandard(&cp->PipeChildStd[0]))
       {
       kwsysProcessCleanup(cp, 1);
       return;
@@ -851,7 +853,8 @@ void kwsysProcess_Execute(kwsysProcess* cp)
   {
   /* Create the pipe.  */
   int p[2];
-  if(pipe(p KWSYSPE_VMS_NONBLOCK) < 0)
+  if(pipe(p KWSYSPE_VMS_NONBLOCK) < 0 ||
+     !kwsysProcessAvoidStandardPipe(p))
     {
     kwsysProcessCleanup(cp, 1);
     return;
@@ -911,7 +914,8 @@ void kwsysProcess_Execute(kwsysProcess* cp)
   {
   /* Create the pipe.  */
   int p[2];
-  if(pipe(p KWSYSPE_VMS_NONBLOCK) < 0)
+  if(pipe(p KWSYSPE_VMS_NONBLOCK) < 0 ||
+     !kwsysProcessAvoidStandardPipe(p))
     {
     kwsysProcessCleanup(cp, 1);
     return;
@@ -987,7 +991,8 @@ void kwsysProcess_Execute(kwsysProcess* cp)
       {
       /* Create a pipe to sit between the children.  */
       int p[2] = {-1,-1};
-      if(pipe(p KWSYSPE_VMS_NONBLOCK) < 0)
+      if(pipe(p KWSYSPE_VMS_NONBLOCK) < 0 ||
+         !kwsysProcessAvoidStandardPipe(p))
         {
         if (nextStdIn != cp->PipeChildStd[0])
           {
@@ -1814,6 +1819,37 @@ static void kwsysProcessClosePipes(kwsysProcess* cp)
     }
 }
 
+/*--------------------------------------------------------------------------*/
+/* Descriptors 0 to 2 are never closed by kwsysProcessCleanupDescriptor and
+   have a meaning of their own in the child.  They may be free in a program
+   whose standard streams are closed, so move a descriptor we got there.  */
+static int kwsysProcessAvoidStandard(int* pfd)
+{
+  if(*pfd >= 0 && *pfd <= 2)
+    {
+    int fd = fcntl(*pfd, F_DUPFD, 3);
+    int e = errno;
+    close(*pfd);
+    *pfd = fd;
+    errno = e;
+    }
+  return *pfd >= 0;
+}
+
+/*--------------------------------------------------------------------------*/
+static int kwsysProcessAvoidStandardPipe(int p[2])
+{
+  if(!kwsysProcessAvoidStandard(&p[0]) || !kwsysProcessAvoidStandard(&p[1]))
+    {
+    int e = errno;
+    kwsysProcessCleanupDescriptor(&p[0]);
+    kwsysProcessCleanupDescriptor(&p[1]);
+    errno = e;
+    return 0;
+    }
+  return 1;
+}
+
 /*--------------------------------------------------------------------------*/
 static int kwsysProcessSetNonBlocking(int fd)
 {
@@ -1840,14 +1876,16 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
   ssize_t readRes;
 
   /* Create the error reporting pipe.  */
-  if(pipe(si->ErrorPipe) < 0)
+  if(pipe(si->ErrorPipe) < 0 ||
+     !kwsysProcessAvoidStandardPipe(si->ErrorPipe))
     {
     return 0;
     }
 
   /* Create a pipe for detecting that the child process has created a process
      group and session.  */
-  if(pipe(pgidPipe) < 0)
+  if(pipe(pgidPipe) < 0 ||
+     !kwsysProcessAvoidStandardPipe(pgidPipe))
     {
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[0]);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[1]);
@@ -2099,7 +2137,8 @@ static int kwsysProcessSetupOutputPipeFile(int* p, const char* name)
   kwsysProcessCleanupDescriptor(p);
 
   /* Open a file for the pipe to write.  */
-  if((fout = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0666)) < 0)
+  fout = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+  if(!kwsysProcessAvoidStandard(&fout))
     {
     return 0;
     }
@@ -2790,7 +2829,8 @@ static int kwsysProcessesAdd(kwsysProcess* cp)
   {
   /* Create the pipe.  */
   int p[2];
-  if(pipe(p KWSYSPE_VMS_NONBLOCK) < 0)
+  if(pipe(p KWSYSPE_VMS_NONBLOCK) < 0 ||
+     !kwsysProcessAvoidStandardPipe(p))
     {
     return 0;
     }
-- 
2.43.0


From 8cf74283aa9c45ebd5994f7ac627b4dead5900d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:39 +0000
Subject: [PATCH 69/93] fix: waiting for a process wrote outside of its object
 when many files are open

---
 vital/kwiversys/ProcessUNIX.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index fcdadea..c46e824 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -969,6 +969,19 @@ void kwsysProcess_Execute(kwsysProcess* cp)
       }
     }
 
+#if KWSYSPE_USE_SELECT
+  /* Descriptors beyond the size of the set can not be given to select.  */
+  for(i=0; i < KWSYSPE_PIPE_COUNT; ++i)
+    {
+    if(cp->PipeReadEnds[i] >= FD_SETSIZE)
+      {
+      errno = EMFILE;
+      kwsysProcessCleanup(cp, 1);
+      return;
+      }
+    }
+#endif
+
   /* The timeout period starts now.  */
   cp->StartTime = kwsysProcessTimeGetCurrent();
   cp->TimeoutTime.tv_sec = -1;
-- 
2.43.0


From ed95ef0c277c0f42480fccd6bae0896acecd3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 70/93] fix: the cores of the only processor, or of all with
 gaps in their numbers, were miscounted

A machine with one physical id, 0, had one physical CPU whatever its number
of cores; ids 0 and 2 counted as three processors.
---
 vital/kwiversys/SystemInformation.cxx | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 703e45f..a63806e 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -52,6 +52,7 @@
 #include <iostream>
 #include <sstream>
 #include <fstream>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -3204,17 +3205,13 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
     }
 
 #ifdef __linux
-  // Find the largest physical id.
-  int maxId = -1;
+  // Find the physical ids; they need not be consecutive.
+  std::set<int> physicalIds;
   std::string idc =
                        this->ExtractValueFromCpuInfoFile(buffer,"physical id");
   while(this->CurrentPositionInFile != buffer.npos)
     {
-      int id = atoi(idc.c_str());
-      if(id > maxId)
-      {
-       maxId=id;
-      }
+    physicalIds.insert(atoi(idc.c_str()));
     idc = this->ExtractValueFromCpuInfoFile(buffer,"physical id",
                                             this->CurrentPositionInFile+1);
     }
@@ -3224,10 +3221,14 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
   std::string cores =
                         this->ExtractValueFromCpuInfoFile(buffer,"cpu cores");
   int numberOfCoresPerCPU=atoi(cores.c_str());
-  if (maxId > 0)
+  if (!physicalIds.empty())
     {
+    if (numberOfCoresPerCPU < 1)
+      {
+      numberOfCoresPerCPU=1;
+      }
     this->NumberOfPhysicalCPU=static_cast<unsigned int>(
-      numberOfCoresPerCPU*(maxId+1));
+      numberOfCoresPerCPU*physicalIds.size());
     }
   else
     {
-- 
2.43.0


From 8a835411ed3d20d943a4f9310b2e8945f85e13af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 71/93] fix: reading the CPU description copied it once for
 every similar word in it

A search that passes over N other occurrences of the word held N copies of the
whole text (hundreds of megabytes on a machine with many processors).  Also, a
key without a value returned the rest of the text, a value could be taken from
the middle of another line, and an empty file ended in an exception.
---
 vital/kwiversys/SystemInformation.cxx | 38 ++++++++++++---------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index a63806e..474d874 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -478,7 +478,7 @@ protected:
 
   // For Linux and Cygwin, /proc/cpuinfo formats are slightly different
   bool RetreiveInformationFromCpuInfoFile();
-  std::string ExtractValueFromCpuInfoFile(std::string buffer,
+  std::string ExtractValueFromCpuInfoFile(const std::string& buffer,
                                           const char* word, size_t init=0);
 
   bool QueryLinuxMemory();
@@ -3146,27 +3146,25 @@ bool SystemInformationImplementation::RetrieveClassicalCPUIdentity()
 
 
 /** Extract a value from the CPUInfo file */
-std::string SystemInformationImplementation::ExtractValueFromCpuInfoFile(std::string buffer,const char* word,size_t init)
+std::string SystemInformationImplementation::ExtractValueFromCpuInfoFile(const std::string& buffer,const char* word,size_t init)
 {
+  const size_t length = strlen(word);
   size_t pos = buffer.find(word,init);
-  if(pos != buffer.npos)
+  for(; pos != buffer.npos; pos = buffer.find(word,pos+1))
     {
-    this->CurrentPositionInFile = pos;
-    pos = buffer.find(":",pos);
-    size_t pos2 = buffer.find("\n",pos);
-    if(pos!=buffer.npos && pos2!=buffer.npos)
+    // The word is the requested key only if it is alone on its line, up to the colon.
+    // An example is looking for "cpu" when "cpu family" comes first.
+    size_t colon = buffer.find_first_not_of(" \t",pos+length);
+    if((pos == 0 || buffer[pos-1] == '\n') &&
+       colon != buffer.npos && buffer[colon] == ':')
       {
-      // It may happen that the beginning matches, but this is still not the requested key.
-      // An example is looking for "cpu" when "cpu family" comes first. So we check that
-      // we have only spaces from here to pos, otherwise we search again.
-      for(size_t i=this->CurrentPositionInFile+strlen(word); i < pos; ++i)
+      this->CurrentPositionInFile = pos;
+      size_t pos2 = buffer.find("\n",colon);
+      if(pos2 == buffer.npos)
         {
-        if(buffer[i] != ' ' && buffer[i] != '\t')
-          {
-          return this->ExtractValueFromCpuInfoFile(buffer, word, pos2);
-          }
+        pos2 = buffer.size();
         }
-      return buffer.substr(pos+2,pos2-pos-2);
+      return colon+2 < pos2 ? buffer.substr(colon+2,pos2-colon-2) : "";
       }
     }
   this->CurrentPositionInFile = buffer.npos;
@@ -3187,14 +3185,12 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
     return false;
     }
 
-  size_t fileSize = 0;
-  while(!feof(fd))
+  int c;
+  while((c = fgetc(fd)) != EOF)
     {
-    buffer += static_cast<char>(fgetc(fd));
-    fileSize++;
+    buffer += static_cast<char>(c);
     }
   fclose( fd );
-  buffer.resize(fileSize-2);
   // Number of logical CPUs (combination of multiple processors, multi-core
   // and hyperthreading)
   size_t pos = buffer.find("processor\t");
-- 
2.43.0


From 5bad79986d51da61b8a324476f527ec405e8dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 72/93] fix: the memory was not understood on kernels whose
 version has two digits

Only the first digit of the major version was looked at, so that version 10
counts as 1 and /proc/meminfo is expected in its format of before 2.6.
---
 vital/kwiversys/SystemInformation.cxx | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 474d874..5d3655d 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3890,22 +3890,8 @@ bool SystemInformationImplementation::QueryLinuxMemory()
     return false;
     }
 
-  if( strlen(unameInfo.release)>=3 )
-    {
-    // release looks like "2.6.3-15mdk-i686-up-4GB"
-    char majorChar=unameInfo.release[0];
-    char minorChar=unameInfo.release[2];
-
-    if( isdigit(majorChar) )
-      {
-      linuxMajor=majorChar-'0';
-      }
-
-    if( isdigit(minorChar) )
-      {
-      linuxMinor=minorChar-'0';
-      }
-    }
+  // release looks like "2.6.3-15mdk-i686-up-4GB"
+  sscanf(unameInfo.release, "%d.%d", &linuxMajor, &linuxMinor);
 
   FILE *fd = fopen("/proc/meminfo", "r" );
   if ( !fd )
-- 
2.43.0


From f7980e5af46f83c81774ba72b8f9f7db8552b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 73/93] fix: a resource limit above the largest signed number
 made the available memory negative

---
 vital/kwiversys/SystemInformation.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 5d3655d..de07fd2 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3524,13 +3524,13 @@ SystemInformationImplementation::GetProcMemoryAvailable(
   ierr=GetResourceLimit(RLIMIT_DATA,&rlim);
   if ((ierr==0) && (rlim.rlim_cur != RLIM_INFINITY))
     {
-    memAvail=min((SystemInformation::LongLong)rlim.rlim_cur/1024,memAvail);
+    memAvail=min((SystemInformation::LongLong)(rlim.rlim_cur/1024),memAvail);
     }
 
   ierr=GetResourceLimit(RLIMIT_AS,&rlim);
   if ((ierr==0) && (rlim.rlim_cur != RLIM_INFINITY))
     {
-    memAvail=min((SystemInformation::LongLong)rlim.rlim_cur/1024,memAvail);
+    memAvail=min((SystemInformation::LongLong)(rlim.rlim_cur/1024),memAvail);
     }
 #elif defined(__APPLE__)
   struct rlimit rlim;
-- 
2.43.0


From 92a767e1ab8c5eced5434d13fafd3825f2ccce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:05 +0000
Subject: [PATCH 74/93] fix: ranges could not be put into hash containers

std::distance has no third argument.
---
 vital/kwiversys/hashtable.hxx.in | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index 9a20226..d30a192 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -427,8 +427,7 @@ public:
   void insert_unique(_ForwardIterator __f, _ForwardIterator __l,
                      std::forward_iterator_tag)
   {
-    size_type __n = 0;
-    std::distance(__f, __l, __n);
+    size_type __n = static_cast<size_type>(std::distance(__f, __l));
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_unique_noresize(*__f);
@@ -438,8 +437,7 @@ public:
   void insert_equal(_ForwardIterator __f, _ForwardIterator __l,
                     std::forward_iterator_tag)
   {
-    size_type __n = 0;
-    std::distance(__f, __l, __n);
+    size_type __n = static_cast<size_type>(std::distance(__f, __l));
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_equal_noresize(*__f);
-- 
2.43.0


From 9f875fc9c754ab76c65c6366006131e97da0e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:43 +0000
Subject: [PATCH 75/93] fix: erasing elements of a hash container by the key of
 one of them read freed memory

---
 vital/kwiversys/hashtable.hxx.in | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index d30a192..2c459d6 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -763,6 +763,8 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
   const size_type __n = _M_bkt_num_key(__key);
   _Node* __first = _M_buckets[__n];
   size_type __erased = 0;
+  // The key may be part of an erased element, so delete them at the end.
+  _Node* __removed = 0;
 
   if (__first) {
     _Node* __cur = __first;
@@ -770,7 +772,8 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
     while (__next) {
       if (_M_equals(_M_get_key(__next->_M_val), __key)) {
         __cur->_M_next = __next->_M_next;
-        _M_delete_node(__next);
+        __next->_M_next = __removed;
+        __removed = __next;
         __next = __cur->_M_next;
         ++__erased;
         --_M_num_elements;
@@ -782,10 +785,16 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
     }
     if (_M_equals(_M_get_key(__first->_M_val), __key)) {
       _M_buckets[__n] = __first->_M_next;
-      _M_delete_node(__first);
+      __first->_M_next = __removed;
+      __removed = __first;
       ++__erased;
       --_M_num_elements;
     }
+    while (__removed) {
+      __next = __removed->_M_next;
+      _M_delete_node(__removed);
+      __removed = __next;
+    }
   }
   return __erased;
 }
-- 
2.43.0


From 6724d8230804c01ecd5a4dbeefd8933a49c326fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:04 +0000
Subject: [PATCH 76/93] fix: a hash function that failed during a resize left a
 wrong size

---
 vital/kwiversys/hashtable.hxx.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index 2c459d6..325f0a2 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -901,6 +901,7 @@ void hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>
             _Node* __next = __tmp[__bucket]->_M_next;
             _M_delete_node(__tmp[__bucket]);
             __tmp[__bucket] = __next;
+            --_M_num_elements;
           }
         }
         throw;
-- 
2.43.0


From e5ba30d6837c079add3e21e85a47c65c81629d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:19 +0000
Subject: [PATCH 77/93] fix: the mark at the end of Base64 text was decoded as
 a byte

---
 vital/kwiversys/Base64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index 4b8ede2..420f2b8 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -171,9 +171,10 @@ int kwsysBase64_Decode3(const unsigned char *src, unsigned char *dest)
   d2 = kwsysBase64DecodeChar(src[2]);
   d3 = kwsysBase64DecodeChar(src[3]);
   
-  /* Make sure all characters were valid */
+  /* Make sure all characters were valid; padding is not where a byte begins */
 
-  if (d0 == 0xFF || d1 == 0xFF || d2 == 0xFF || d3 == 0xFF)
+  if (d0 == 0xFF || d1 == 0xFF || d2 == 0xFF || d3 == 0xFF ||
+      src[0] == '=' || src[1] == '=')
     { 
     return 0; 
     }
-- 
2.43.0


From f2a2c4903e2afdb5bbb443645fe85f30957eb861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:28 +0000
Subject: [PATCH 78/93] fix: decoding Base64 text of a length not divisible by
 four read past its end

---
 vital/kwiversys/Base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index 420f2b8..a5f7153 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -221,7 +221,7 @@ size_t kwsysBase64_Decode(const unsigned char *input,
   if (max_input_length)
     {
     const unsigned char *end = input + max_input_length;
-    while (ptr < end)
+    while ((end - ptr) >= 4)
       {
       int len = kwsysBase64_Decode3(ptr, optr);
       optr += len;
-- 
2.43.0


From 1ad5fc1e10bfbe19a7d6895538e5325e10080ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:41 +0000
Subject: [PATCH 79/93] fix: converting a string between narrow and wide cut it
 at a null character

---
 vital/kwiversys/EncodingCXX.cxx | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/EncodingCXX.cxx b/vital/kwiversys/EncodingCXX.cxx
index 597d4bd..54da5b6 100644
--- a/vital/kwiversys/EncodingCXX.cxx
+++ b/vital/kwiversys/EncodingCXX.cxx
@@ -143,12 +143,28 @@ char const* const* Encoding::CommandLineArguments::argv() const
 
 std::wstring Encoding::ToWide(const std::string& str)
 {
-  return ToWide(str.c_str());
+  // The string may contain null characters; convert what is between them.
+  std::wstring wstr = ToWide(str.c_str());
+  for(size_t pos = str.find('\0'); pos != std::string::npos;
+      pos = str.find('\0', pos + 1))
+    {
+    wstr += L'\0';
+    wstr += ToWide(str.c_str() + pos + 1);
+    }
+  return wstr;
 }
 
 std::string Encoding::ToNarrow(const std::wstring& str)
 {
-  return ToNarrow(str.c_str());
+  // The string may contain null characters; convert what is between them.
+  std::string nstr = ToNarrow(str.c_str());
+  for(size_t pos = str.find(L'\0'); pos != std::wstring::npos;
+      pos = str.find(L'\0', pos + 1))
+    {
+    nstr += '\0';
+    nstr += ToNarrow(str.c_str() + pos + 1);
+    }
+  return nstr;
 }
 
 std::wstring Encoding::ToWide(const char* cstr)
-- 
2.43.0


From a3da49e1fb022d70b9895d9f901c1173c3e704bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:29 +0000
Subject: [PATCH 80/93] fix: looking for a byte order mark made short streams
 unreadable

---
 vital/kwiversys/FStream.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vital/kwiversys/FStream.cxx b/vital/kwiversys/FStream.cxx
index 018652c..583b2f5 100644
--- a/vital/kwiversys/FStream.cxx
+++ b/vital/kwiversys/FStream.cxx
@@ -34,6 +34,7 @@ BOM ReadBOM(std::istream& in)
   in.read(reinterpret_cast<char*>(bom), 2);
   if(!in.good())
     {
+    in.clear();
     in.seekg(orig);
     return BOM_None;
     }
@@ -65,9 +66,11 @@ BOM ReadBOM(std::istream& in)
       {
       return BOM_UTF32LE;
       }
+    in.clear();
     in.seekg(p);
     return BOM_UTF16LE;
     }
+  in.clear();
   in.seekg(orig);
   return BOM_None;
 }
-- 
2.43.0


From 073a5255081211772cff8c923b002d607e54ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 81/93] fix: a launcher added the working directory to an empty
 library search path

---
 vital/kwiversys/SharedForward.h.in | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index f22fa58..a8f5dd2 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -840,9 +840,14 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
       {
       /* Append the old runtime search path.  */
       const char* old_ldpath = getenv(KWSYS_SHARED_FORWARD_LDPATH);
-      if(old_ldpath)
+      if(old_ldpath && *old_ldpath)
         {
-        strcat(kwsys_shared_forward_ldpath, kwsys_shared_forward_path_sep);
+        /* An empty entry would name the working directory.  */
+        if(strcmp(kwsys_shared_forward_ldpath,
+                  KWSYS_SHARED_FORWARD_LDPATH "=") != 0)
+          {
+          strcat(kwsys_shared_forward_ldpath, kwsys_shared_forward_path_sep);
+          }
         strcat(kwsys_shared_forward_ldpath, old_ldpath);
         }
 
-- 
2.43.0


From 3af95a8f3c1ce6b1f427cb22f3939e770d40db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 82/93] fix: a launcher overran its buffer with a long library
 search path

---
 vital/kwiversys/SharedForward.h.in | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index a8f5dd2..bd8a152 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -840,19 +840,28 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
       {
       /* Append the old runtime search path.  */
       const char* old_ldpath = getenv(KWSYS_SHARED_FORWARD_LDPATH);
+      char* ldpath = kwsys_shared_forward_ldpath;
       if(old_ldpath && *old_ldpath)
         {
+        /* The old path may have any length.  */
+        ldpath = (char*)malloc(strlen(kwsys_shared_forward_ldpath) + 1 +
+                               strlen(old_ldpath) + 1);
+        if(!ldpath)
+          {
+          fprintf(stderr, "Out of memory.\n");
+          return 1;
+          }
+        strcpy(ldpath, kwsys_shared_forward_ldpath);
         /* An empty entry would name the working directory.  */
-        if(strcmp(kwsys_shared_forward_ldpath,
-                  KWSYS_SHARED_FORWARD_LDPATH "=") != 0)
+        if(strcmp(ldpath, KWSYS_SHARED_FORWARD_LDPATH "=") != 0)
           {
-          strcat(kwsys_shared_forward_ldpath, kwsys_shared_forward_path_sep);
+          strcat(ldpath, kwsys_shared_forward_path_sep);
           }
-        strcat(kwsys_shared_forward_ldpath, old_ldpath);
+        strcat(ldpath, old_ldpath);
         }
 
       /* Store the environment variable.  */
-      putenv(kwsys_shared_forward_ldpath);
+      putenv(ldpath);
 
 #if defined(KWSYS_SHARED_FORWARD_OPTION_COMMAND)
       /* Look for the command line replacement option.  */
@@ -879,7 +888,7 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
       /* Look for the print command line option.  */
       if(argc > 1 && strcmp(argv[1], KWSYS_SHARED_FORWARD_OPTION_PRINT) == 0)
         {
-        fprintf(stdout, "%s\n", kwsys_shared_forward_ldpath);
+        fprintf(stdout, "%s\n", ldpath);
         fprintf(stdout, "%s\n", exe);
         return 0;
         }
-- 
2.43.0


From 89edc6ccd09e9bf6ed200feb430c2e7ba5353c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 83/93] fix: a launcher overran its buffers with long paths

---
 vital/kwiversys/SharedForward.h.in | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index bd8a152..dc24623 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -610,7 +610,12 @@ static int kwsys_shared_forward_self_path(const char* argv0, char* result)
       }
     }
 
-  if(has_slash)
+  if(has_slash && strlen(argv0) >= KWSYS_SHARED_FORWARD_MAXPATH)
+    {
+    /* No file can have this name.  */
+    return 0;
+    }
+  else if(has_slash)
     {
     /* There is a slash.  Use the dirname of the given location.  */
     kwsys_shared_forward_dirname(argv0, result);
@@ -635,7 +640,8 @@ static int kwsys_shared_forward_self_path(const char* argv0, char* result)
       for(last = first;*last && *last != KWSYS_SHARED_FORWARD_PATH_SEP; ++last);
 
       /* If we got a non-empty directory, look for the executable there.  */
-      if(first < last)
+      if(first < last && (size_t)(last-first) + 1 + strlen(argv0) <
+         KWSYS_SHARED_FORWARD_MAXPATH)
         {
         /* Determine the length without trailing slash.  */
         size_t length = (size_t)(last-first);
@@ -692,6 +698,15 @@ static int kwsys_shared_forward_fullpath(const char* self_path,
     {
     /* Relative to self path.  */
     char temp_path[KWSYS_SHARED_FORWARD_MAXPATH];
+    if(strlen(self_path) + 1 + strlen(in_path) >= sizeof(temp_path))
+      {
+      if(desc)
+        {
+        fprintf(stderr, "Error converting %s \"%s/%s\" to real path: "
+                "the name is too long\n", desc, self_path, in_path);
+        }
+      return 0;
+      }
     strcpy(temp_path, self_path);
     strcat(temp_path, kwsys_shared_forward_path_slash);
     strcat(temp_path, in_path);
@@ -870,6 +885,12 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
         if(argc > 2)
           {
           /* Use the command line given.  */
+          if(strlen(argv[2]) >= sizeof(exe))
+            {
+            errno = ENAMETOOLONG;
+            kwsys_shared_forward_print_failure(argv+2);
+            return 1;
+            }
           strcpy(exe, argv[2]);
           argv += 2;
           argc -= 2;
-- 
2.43.0


From df74b3cd3f54696d4eab1d4760f6b3b463c05dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 84/93] fix: a launcher took a directory in PATH for itself

---
 vital/kwiversys/SharedForward.h.in | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index dc24623..6a9c516 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -584,6 +584,14 @@ static int kwsys_shared_forward_is_executable(const char* f)
 # define KWSYS_SHARED_FORWARD_ACCESS_OK X_OK
 #else
 # define KWSYS_SHARED_FORWARD_ACCESS_OK 04
+#endif
+#if !defined(_WIN32) || defined(__CYGWIN__)
+  /* A directory may have the permission as well.  */
+  struct stat fs;
+  if(stat(f, &fs) != 0 || !S_ISREG(fs.st_mode))
+    {
+    return 0;
+    }
 #endif
   if(KWSYS_SHARED_FORWARD_ACCESS(f, KWSYS_SHARED_FORWARD_ACCESS_OK) == 0)
     {
-- 
2.43.0


From 0b09bfdff9d88b39ba1122322bd292c1cf5c8600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 85/93] fix: a launcher of a build configuration did not start
 from its own directory

---
 vital/kwiversys/SharedForward.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index 6a9c516..20020cd 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -780,7 +780,7 @@ static int kwsys_shared_forward_get_settings(const char* self_path,
 
 #if defined(KWSYS_SHARED_FORWARD_CONFIG_NAME)
     /* Remove the configuration directory from self_path.  */
-    kwsys_shared_forward_dirname(self_path, self_path_logical);
+    kwsys_shared_forward_dirname(self_path_real, self_path_logical);
 #endif
     }
   else
-- 
2.43.0


From fb8506707d45d2289bf5d348a85c3009091f5a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:15 +0000
Subject: [PATCH 86/93] fix: an invalid matrix operation did not keep its
 reason

---
 vital/exceptions/math.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/exceptions/math.cxx b/vital/exceptions/math.cxx
index 8d85e8e..3aad037 100644
--- a/vital/exceptions/math.cxx
+++ b/vital/exceptions/math.cxx
@@ -77,6 +77,7 @@ point_maps_to_infinity
 
 invalid_matrix_operation
 ::invalid_matrix_operation(std::string reason) VITAL_NOTHROW
+  : m_reason(reason)
 {
   m_what = "Invalid operation: " + reason;
 }
-- 
2.43.0


From f9a2a9fca2234c882194950f4e2bfe770b1eada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:06 +0000
Subject: [PATCH 87/93] fix: parsing configuration files in several threads
 mixed up their text

---
 vital/config/config_parser.cxx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 3bd93c0..870c817 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -134,6 +134,8 @@ public:
     : m_line_number( 0 ),
       m_file_count( 0 ),
       m_parse_error( false ),
+      m_re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" ),
+      m_re_flag( "^\\[[a-zA-Z,]+\\]" ),
       m_symtab( new kwiver::vital::token_type_symtab( "LOCAL" ) ),
       m_config_block( kwiver::vital::config_block::empty_config() ),
       m_logger( kwiver::vital::get_logger( "vital.config_parser" ) )
@@ -548,8 +550,6 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
-    static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
 
     // Test for end of line while processing
     if ( m_token_line.size() == 0)
@@ -576,20 +576,20 @@ public:
       trim( token.value );
       m_token_line.clear();
     }
-    else if ( re_flag.find( m_token_line ) )
+    else if ( m_re_flag.find( m_token_line ) )
     {
       token.type = token_t::TK_FLAG;
-      token.value = re_flag.match( 0 );
+      token.value = m_re_flag.match( 0 );
 
-      m_token_line = m_token_line.substr( re_flag.end(0) ); // remove token from input
+      m_token_line = m_token_line.substr( m_re_flag.end(0) ); // remove token from input
       trim( m_token_line );
     }
-    else if ( re_word.find( m_token_line ) )
+    else if ( m_re_word.find( m_token_line ) )
     {
       token.type = token_t::TK_WORD;
-      token.value = re_word.match( 0 );
+      token.value = m_re_word.match( 0 );
 
-      m_token_line = m_token_line.substr( re_word.end(0) ); // remove token from input
+      m_token_line = m_token_line.substr( m_re_word.end(0) ); // remove token from input
       trim( m_token_line );
     }
     else
@@ -714,6 +714,10 @@ public:
   // the error but allows the parser to continue to find more errors.
   bool m_parse_error;
 
+  // expressions for tokens: matching changes them, so each parser has its own
+  kwiversys::RegularExpression m_re_word;
+  kwiversys::RegularExpression m_re_flag;
+
   // macro provider
   token_expander m_token_expander;
   token_type_symtab* m_symtab;
-- 
2.43.0


From a6032ec5f0cfd092a75cff5cc5e2d2e65b9aec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:06 +0000
Subject: [PATCH 88/93] fix: expanding tokens in several threads or from a
 token type mixed up the text

---
 vital/config/token_expander.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/config/token_expander.cxx b/vital/config/token_expander.cxx
index 6fd60ce..a57e7bf 100644
--- a/vital/config/token_expander.cxx
+++ b/vital/config/token_expander.cxx
@@ -86,7 +86,8 @@ token_expander::
 expand_token( std::string const& initial_string )
 {
   std::string new_value;
-  static kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
+  // matching changes the expression, so it can not be shared
+  kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
 
   std::string::const_iterator start, end;
   start = initial_string.begin();
-- 
2.43.0


From d45641d1f8fc412d05e04ee81f3fa9c559fd7ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:06 +0000
Subject: [PATCH 89/93] fix: asking for the executable or module path in
 several threads was a race

---
 vital/util/get_paths.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vital/util/get_paths.cxx b/vital/util/get_paths.cxx
index 77e8cd0..344c5f7 100644
--- a/vital/util/get_paths.cxx
+++ b/vital/util/get_paths.cxx
@@ -35,6 +35,8 @@
 
 #include <vital/util/get_paths.h>
 
+#include <mutex>
+
 namespace kwiver {
 namespace vital{
 
@@ -51,8 +53,10 @@ namespace vital{
 std::string
 get_executable_path()
 {
+  static std::mutex local_lock;          // synchronization lock
   static std::string path; // cached path
 
+  std::lock_guard<std::mutex> lock(local_lock);
   if ( path.empty() )
   {
     char ppath[4096];
@@ -72,8 +76,10 @@ get_executable_path()
 std::string
 get_module_path()
 {
+  static std::mutex local_lock;          // synchronization lock
   static std::string path; // cached path
 
+  std::lock_guard<std::mutex> lock(local_lock);
   if ( path.empty() )
   {
     char ppath[4096];
-- 
2.43.0


From 67c2f1e9c33e4ac83c3bd7cc5ff9610c009d74fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:06 +0000
Subject: [PATCH 90/93] fix: singletons were read without synchronization while
 being made

---
 vital/algorithm_plugin_manager.cxx     | 10 ----------
 vital/logger/kwiver_logger_manager.cxx |  5 -----
 2 files changed, 15 deletions(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 014f50b..b48746f 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -323,11 +323,6 @@ algorithm_plugin_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return *s_instance;
-  }
-
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
@@ -347,11 +342,6 @@ algorithm_plugin_manager
    static bool first( true );
    static std::mutex local_lock;          // synchronization lock
 
-   if ( ! first )
-   {
-     return false;
-   }
-
    std::lock_guard<std::mutex> lock(local_lock);
    if ( first )
    {
diff --git a/vital/logger/kwiver_logger_manager.cxx b/vital/logger/kwiver_logger_manager.cxx
index 4830c47..9b211b5 100644
--- a/vital/logger/kwiver_logger_manager.cxx
+++ b/vital/logger/kwiver_logger_manager.cxx
@@ -162,11 +162,6 @@ kwiver_logger_manager * kwiver_logger_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return s_instance;
-  }
-
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
-- 
2.43.0


From 55a4611521cd14fbb69941cfa8e369bf11485da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:06 +0000
Subject: [PATCH 91/93] fix: using the C interface from several threads
 corrupted its caches

---
 vital/bindings/c/config_block.cxx  | 5 +++++
 vital/bindings/c/helpers/c_utils.h | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/vital/bindings/c/config_block.cxx b/vital/bindings/c/config_block.cxx
index 79f2ef8..8d23747 100644
--- a/vital/bindings/c/config_block.cxx
+++ b/vital/bindings/c/config_block.cxx
@@ -40,6 +40,7 @@
 #include <cstring>
 
 #include <map>
+#include <mutex>
 #include <sstream>
 #include <string>
 
@@ -67,8 +68,10 @@ CONFIG_BLOCK_SPTR_CACHE( "config_block" );
 vital_string_t*
 vital_config_block_block_sep()
 {
+  static std::mutex local_lock;          // synchronization lock
   static vital_string_t* static_bs = 0;
 
+  std::lock_guard< std::mutex > lock( local_lock );
   if ( ! static_bs )
   {
     STANDARD_CATCH(
@@ -85,8 +88,10 @@ vital_config_block_block_sep()
 vital_string_t*
 vital_config_block_global_value()
 {
+  static std::mutex local_lock;          // synchronization lock
   static vital_string_t* static_gv = 0;
 
+  std::lock_guard< std::mutex > lock( local_lock );
   if ( ! static_gv )
   {
     STANDARD_CATCH(
diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index 261ffc7..1ee6583 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -43,6 +43,7 @@
 #include <cstring>
 #include <exception>
 #include <map>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -184,6 +185,7 @@ public:
       throw NullPointerException(ss.str());
     }
 
+    std::lock_guard< std::mutex > lock( lock_ );
     // If an sptr referencing the underlying pointer already exists in the map,
     // don't bother bashing the existing entry
     if( cache_.count( sptr.get() ) == 0 )
@@ -207,6 +209,7 @@ public:
       throw NullPointerException(ss.str());
     }
 
+    std::lock_guard< std::mutex > lock( lock_ );
     typename cache_t::const_iterator it = cache_.find( ptr );
     if( it != cache_.end() )
     {
@@ -237,6 +240,7 @@ public:
       throw NullPointerException(ss.str());
     }
 
+    std::lock_guard< std::mutex > lock( lock_ );
     typename cache_t::iterator c_it = cache_.find( ptr );
     if( c_it != cache_.end() )
     {
@@ -264,6 +268,8 @@ public:
   }
 
 private:
+  /// Serializes access to the cache, which all threads of the program share
+  mutable std::mutex lock_;
   /// Cache of shared pointers for concrete instances
   cache_t cache_;
   /// Number of times an instance has been "stored" in this cache
-- 
2.43.0


From 480b85d31886beb536f70d5fda3fc1471e9587ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:33 +0000
Subject: [PATCH 92/93] fix: regular expressions used in several threads
 disturbed each other

compile() and find() kept their work in variables of the whole program.
---
 vital/kwiversys/RegularExpression.cxx | 136 ++++++++++++++------------
 1 file changed, 71 insertions(+), 65 deletions(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 2bd46f7..ae905e8 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -301,32 +301,33 @@ const unsigned char MAGIC = 0234;
 /////////////////////////////////////////////////////////////////////////
 
 
-/*
- * Global work variables for compile().
- */
-static const char* regparse;    // Input-scan pointer.
-static       int   regnpar;     // () count.
 static       char  regdummy;
-static       char* regcode;     // Code-emit pointer; &regdummy = don't.
-static       long  regsize;     // Code size.
+static const char* regnext (const char*);
+static       char* regnext (char*);
 
 /*
- * Forward declarations for compile()'s friends.
+ * Work variables and helper functions for compile().  They are not global,
+ * so that expressions can be compiled in several threads.
  */
-// #ifndef static
-// #define      static  static
-// #endif
-static       char* reg (int, int*);
-static       char* regbranch (int*);
-static       char* regpiece (int*);
-static       char* regatom (int*);
-static       char* regnode (char);
-static const char* regnext (const char*);
-static       char* regnext (char*);
-static void        regc (char);
-static void        reginsert (char, char*);
-static void        regtail (char*, const char*);
-static void        regoptail (char*, const char*);
+namespace {
+struct RegExpCompile
+{
+  const char* regparse;    // Input-scan pointer.
+        int   regnpar;     // () count.
+        char* regcode;     // Code-emit pointer; &regdummy = don't.
+        long  regsize;     // Code size.
+
+  char* reg (int, int*);
+  char* regbranch (int*);
+  char* regpiece (int*);
+  char* regatom (int*);
+  char* regnode (char);
+  void  regc (char);
+  void  reginsert (char, char*);
+  void  regtail (char*, const char*);
+  void  regoptail (char*, const char*);
+};
+}
 
 #ifdef STRCSPN
 static int strcspn ();
@@ -365,12 +366,13 @@ bool RegularExpression::compile (const char* exp) {
     }
 
     // First pass: determine size, legality.
-    regparse = exp;
-    regnpar = 1;
-    regsize = 0L;
-    regcode = &regdummy;
-    regc(static_cast<char>(MAGIC));
-    if(!reg(0, &flags))
+    RegExpCompile comp;
+    comp.regparse = exp;
+    comp.regnpar = 1;
+    comp.regsize = 0L;
+    comp.regcode = &regdummy;
+    comp.regc(static_cast<char>(MAGIC));
+    if(!comp.reg(0, &flags))
       {
         printf ("RegularExpression::compile(): Error in compile.\n");
         return false;
@@ -382,7 +384,7 @@ bool RegularExpression::compile (const char* exp) {
     this->searchstring = 0;
 
     // Small enough for pointer-storage convention?
-    if (regsize >= 32767L) {    // Probably could be 65535L.
+    if (comp.regsize >= 32767L) {    // Probably could be 65535L.
       //RAISE Error, SYM(RegularExpression), SYM(Expr_Too_Big),
       printf ("RegularExpression::compile(): Expression too big.\n");
       return false;
@@ -392,8 +394,8 @@ bool RegularExpression::compile (const char* exp) {
 //#ifndef WIN32
     if (this->program != 0) delete [] this->program;
 //#endif
-    this->program = new char[regsize];
-    this->progsize = static_cast<int>(regsize);
+    this->program = new char[comp.regsize];
+    this->progsize = static_cast<int>(comp.regsize);
 
     if (this->program == 0) {
       //RAISE Error, SYM(RegularExpression), SYM(Out_Of_Memory),
@@ -402,11 +404,11 @@ bool RegularExpression::compile (const char* exp) {
     }
 
     // Second pass: emit code.
-    regparse = exp;
-    regnpar = 1;
-    regcode = this->program;
-    regc(static_cast<char>(MAGIC));
-    reg(0, &flags);
+    comp.regparse = exp;
+    comp.regnpar = 1;
+    comp.regcode = this->program;
+    comp.regc(static_cast<char>(MAGIC));
+    comp.reg(0, &flags);
 
     // Dig out information for optimizations.
     this->regstart = '\0';              // Worst-case defaults.
@@ -456,7 +458,7 @@ bool RegularExpression::compile (const char* exp) {
  * is a trifle forced, but the need to tie the tails of the branches to what
  * follows makes it hard to avoid.
  */
-static char* reg (int paren, int *flagp) {
+char* RegExpCompile::reg (int paren, int *flagp) {
     char* ret;
     char* br;
     char* ender;
@@ -537,7 +539,7 @@ static char* reg (int paren, int *flagp) {
  *
  * Implements the concatenation operator.
  */
-static char* regbranch (int *flagp) {
+char* RegExpCompile::regbranch (int *flagp) {
     char* ret;
     char* chain;
     char* latest;
@@ -574,7 +576,7 @@ static char* regbranch (int *flagp) {
  * It might seem that this node could be dispensed with entirely, but the
  * endmarker role is not redundant.
  */
-static char* regpiece (int *flagp) {
+char* RegExpCompile::regpiece (int *flagp) {
     char* ret;
     char  op;
     char* next;
@@ -643,7 +645,7 @@ static char* regpiece (int *flagp) {
  * faster to run.  Backslashed characters are exceptions, each becoming a
  * separate node; the code is simpler that way and it's not worth fixing.
  */
-static char* regatom (int *flagp) {
+char* RegExpCompile::regatom (int *flagp) {
     char* ret;
     int   flags;
 
@@ -766,7 +768,7 @@ static char* regatom (int *flagp) {
  - regnode - emit a node
    Location.
  */
-static char* regnode (char op) {
+char* RegExpCompile::regnode (char op) {
     char* ret;
     char* ptr;
 
@@ -789,7 +791,7 @@ static char* regnode (char op) {
 /*
  - regc - emit (if appropriate) a byte of code
  */
-static void regc (char b) {
+void RegExpCompile::regc (char b) {
     if (regcode != &regdummy)
         *regcode++ = b;
     else
@@ -802,7 +804,7 @@ static void regc (char b) {
  *
  * Means relocating the operand.
  */
-static void reginsert (char op, char* opnd) {
+void RegExpCompile::reginsert (char op, char* opnd) {
     char* src;
     char* dst;
     char* place;
@@ -828,7 +830,7 @@ static void reginsert (char op, char* opnd) {
 /*
  - regtail - set the next-pointer at the end of a node chain
  */
-static void regtail (char* p, const char* val) {
+void RegExpCompile::regtail (char* p, const char* val) {
     char* scan;
     char* temp;
     int   offset;
@@ -857,7 +859,7 @@ static void regtail (char* p, const char* val) {
 /*
  - regoptail - regtail on operand of first argument; nop if operandless
  */
-static void regoptail (char* p, const char* val) {
+void RegExpCompile::regoptail (char* p, const char* val) {
     // "Operandless" and "op != BRANCH" are synonymous in practice.
     if (p == 0 || p == &regdummy || OP(p) != BRANCH)
         return;
@@ -874,20 +876,23 @@ static void regoptail (char* p, const char* val) {
 
 
 /*
- * Global work variables for find().
- */
-static const char*  reginput;   // String-input pointer.
-static const char*  regbol;     // Beginning of input, for ^ check.
-static const char* *regstartp;  // Pointer to startp array.
-static const char* *regendp;    // Ditto for endp.
-
-/*
- * Forwards.
+ * Work variables and helper functions for find().  They are not global, so
+ * that expressions can be matched in several threads.
  */
-static int regtry (const char*, const char* *,
-                   const char* *, const char*);
-static int regmatch (const char*);
-static int regrepeat (const char*);
+namespace {
+struct RegExpFind
+{
+  const char*  reginput;   // String-input pointer.
+  const char*  regbol;     // Beginning of input, for ^ check.
+  const char* *regstartp;  // Pointer to startp array.
+  const char* *regendp;    // Ditto for endp.
+
+  int regtry (const char*, const char* *,
+              const char* *, const char*);
+  int regmatch (const char*);
+  int regrepeat (const char*);
+};
+}
 
 #ifdef DEBUG
 int          regnarrate = 0;
@@ -928,18 +933,19 @@ bool RegularExpression::find (const char* string) {
     }
 
     // Mark beginning of line for ^ .
-    regbol = string;
+    RegExpFind finder;
+    finder.regbol = string;
 
     // Simplest case:  anchored match need be tried only once.
     if (this->reganch)
-        return (regtry(string, this->startp, this->endp, this->program) != 0);
+        return (finder.regtry(string, this->startp, this->endp, this->program) != 0);
 
     // Messy cases:  unanchored match.
     s = string;
     if (this->regstart != '\0')
         // We know what char it must start with.
         while ((s = strchr(s, this->regstart)) != 0) {
-            if (regtry(s, this->startp, this->endp, this->program))
+            if (finder.regtry(s, this->startp, this->endp, this->program))
                 return (1);
             s++;
 
@@ -947,7 +953,7 @@ bool RegularExpression::find (const char* string) {
     else
         // We don't -- general case.
         do {
-            if (regtry(s, this->startp, this->endp, this->program))
+            if (finder.regtry(s, this->startp, this->endp, this->program))
                 return (1);
         } while (*s++ != '\0');
 
@@ -960,7 +966,7 @@ bool RegularExpression::find (const char* string) {
  - regtry - try match at specific point
    0 failure, 1 success
  */
-static int regtry (const char* string, const char* *start,
+int RegExpFind::regtry (const char* string, const char* *start,
                    const char* *end, const char* prog) {
                    int    i;
                    const char* *sp1;
@@ -997,7 +1003,7 @@ static int regtry (const char* string, const char* *start,
  * by recursion.
  * 0 failure, 1 success
  */
-static int regmatch (const char* prog) {
+int RegExpFind::regmatch (const char* prog) {
     const char* scan;  // Current node.
     const char* next;  // Next node.
 
@@ -1179,7 +1185,7 @@ static int regmatch (const char* prog) {
 /*
  - regrepeat - repeatedly match something simple, report how many
  */
-static int regrepeat (const char* p) {
+int RegExpFind::regrepeat (const char* p) {
     int         count = 0;
     const char* scan;
     const char* opnd;
-- 
2.43.0


From 4adccb0bb15ca4075e740588d26e3a4218e74adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:51 +0000
Subject: [PATCH 93/93] fix: describing timestamps in several threads mixed up
 their times

---
 vital/kwiversys/SystemTools.cxx | 10 +++++++++-
 vital/types/timestamp.cxx       | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index e1e3706..71566ad 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4589,7 +4589,15 @@ std::string SystemTools::GetCurrentDateTime(const char* format)
   char buf[1024];
   time_t t;
   time(&t);
-  size_t length = strftime(buf, sizeof(buf), format, localtime(&t));
+#if defined(_WIN32)
+  struct tm* local = localtime(&t);
+#else
+  // localtime() answers in a place that all threads share
+  tzset();
+  struct tm buffer;
+  struct tm* local = localtime_r(&t, &buffer);
+#endif
+  size_t length = strftime(buf, sizeof(buf), format, local);
   return std::string(buf, length);
 }
 
diff --git a/vital/types/timestamp.cxx b/vital/types/timestamp.cxx
index 7c8c8de..2ef1e2c 100644
--- a/vital/types/timestamp.cxx
+++ b/vital/types/timestamp.cxx
@@ -34,6 +34,7 @@
 #include <string>
 #include <cstring>
 #include <ctime>
+#include <mutex>
 
 namespace kwiver {
 namespace vital {
@@ -240,7 +241,18 @@ std::string timestamp
 
   if ( this->has_valid_time() )
   {
-    char* p = ctime( &tt ); // this may return null if <tt> is out of range,
+    // localtime() and asctime() answer in places that all threads share
+    static std::mutex lock;
+    std::lock_guard< std::mutex > guard( lock );
+
+#if defined(_WIN32)
+    std::tm* local = localtime( &tt );
+#else
+    tzset();
+    std::tm local_buffer;
+    std::tm* local = localtime_r( &tt, &local_buffer );
+#endif
+    char* p = local ? asctime( local ) : 0; // null if <tt> is out of range,
     if ( p )
     {
       char buffer[128];
-- 
2.43.0

