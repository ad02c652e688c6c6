From 65639338aaa50563fd5838a54e68aeef8443eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 01/91] fix: momentum label of odd lattice extents

get_site_2piBZ shifted the momentum L/2 of an odd extent to -L/2-1, giving a
negative coordinate and a site index outside the lattice.
---
 src/Geometry/geometry.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Geometry/geometry.c b/src/Geometry/geometry.c
index fc8bc4e..4ab2f43 100755
--- a/src/Geometry/geometry.c
+++ b/src/Geometry/geometry.c
@@ -48,12 +48,11 @@ get_site_2piBZ( int x[ ND ] ,
     L_2 = Latt.dims[ mu ] >> 1 ;
     temp[mu] = x[mu] ;
     if( mu != DIMS ) {
-      if( temp[ mu ] >= (int)L_2 ) {
+      // an odd extent has its largest momentum at +L/2 rather than -L/2
+      if( temp[ mu ] >= (int)( Latt.dims[ mu ] - L_2 ) ) {
 	temp [ mu ] -= (int)Latt.dims[ mu ] ;
       } 
-      if( temp[ mu ] < (int)L_2 ) {
-	temp [ mu ] += (int)L_2 ;
-      }
+      temp [ mu ] += (int)L_2 ;
     } else { // fill the rest with 0's
       temp[ mu ] = 0 ;
     }
-- 
2.43.0


From e2ca9c48687a271aecb633dd990a8eb978444ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 02/91] fix: draughtboard colouring of odd extents with L%3 ==
 1

Sites 0 and L-1 are neighbours across the boundary but had the same colour for
extents such as 7 and 13, so coupled links were updated in parallel.
---
 src/Geometry/draughtboard.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index f857884..bece34c 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -60,6 +60,11 @@ get_midx( const size_t i ,
       even_sum += n[mu] ;
     } else {
       odd_sum  += n[mu] ;
+      // when L%3 == 1 the last site would share the color of the first one
+      if( Latt.dims[mu] > 1 && Latt.dims[mu]%3 == 1 &&
+	  n[mu] + 1 == (int)Latt.dims[mu] ) {
+	odd_sum++ ;
+      }
     }
   }
 #ifdef verbose
-- 
2.43.0


From 2066c64a2dfcbbfe3509a0f6f90b078189c73de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 03/91] fix: memory-cheap configuration writer wrote past its
 time-slice buffer

---
 src/IO/writers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index 48554ef..3c23a5a 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -265,8 +265,8 @@ copy_data( GLU_real *uout ,
     // puts the matrix in glu_real temporary called site
     grab_sitedata( site , lat[i] , LOOP_VAR , checktype ) ;
 
-    // set this up here
-    const size_t val = (size_t)( LOOP_VAR * ( i * ND ) ) ;
+    // position within this chunk of the lattice
+    const size_t val = (size_t)( LOOP_VAR * ( ( i - START ) * ND ) ) ;
     for( size_t j = 0 ; j < ND*LOOP_VAR ; j++ ) {
 #ifdef OUT_DOUBLE
       uout[ val + j ] = (double)site[ j ] ;
-- 
2.43.0


From 5e9a78b0dadd3001259eb7925c6e8acd3851877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 04/91] fix: BQCD checksum of double precision data read
 through the float buffer

---
 src/IO/readers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IO/readers.c b/src/IO/readers.c
index 5022953..429726b 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -213,8 +213,8 @@ lattice_reader_suNC( struct site *lat ,
       size_t i ;
       for( i = 0 ; i < LVOLUME ; i++ ) {
 	// BQCD's
-	CKSUM_ADD( ( uin + ( i * ND * LOOP_VAR ) ) , 
-		   sizeof(float) * ND * LOOP_VAR ) ;
+	CKSUM_ADD( ( uind + ( i * ND * LOOP_VAR ) ) , 
+		   sizeof(double) * ND * LOOP_VAR ) ;
       }
       uint32_t nbytes ;
       CKSUM_GET( &CRC_BQCD , &nbytes ) ;
-- 
2.43.0


From 1abafa624098733f7dfe6a932bd4579be8e01020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 05/91] fix: BQCD checksum state survived into the next file

---
 src/IO/crc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/IO/crc.c b/src/IO/crc.c
index 3217901..37b240c 100755
--- a/src/IO/crc.c
+++ b/src/IO/crc.c
@@ -251,6 +251,10 @@ CKSUM_GET( INT8 *total_crc , INT8 *total_bytes )
 
   *total_crc = (INT8) crc;
   *total_bytes = the_bytes;
+
+  // start afresh for the next file
+  the_crc = 0 ;
+  the_bytes = 0 ;
   return ;
 }
 
-- 
2.43.0


From 09962224223bad6d538d0057a292d28a876f171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 06/91] fix: BQCD checksum of an unfinished read survived into
 the next file

---
 src/IO/readers.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IO/readers.c b/src/IO/readers.c
index 429726b..051cb7b 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -378,6 +378,9 @@ lattice_reader_suNC_cheaper( struct site *lat ,
 
   uint32_t k = 0 , sum29 = 0 , sum31 = 0 ; // NERSC & MILC checksums ...
   uint32_t CRCsum29 = 0 , CRCsum31 = 0 ;
+  uint32_t CRC_BQCD , nbytes ;
+  // discard whatever an earlier, unfinished read accumulated
+  CKSUM_GET( &CRC_BQCD , &nbytes ) ;
   size_t i ;
   // do this in serial reads in site by site
   for( i = 0 ; i < LVOLUME ; i++ ) {
@@ -464,7 +467,6 @@ lattice_reader_suNC_cheaper( struct site *lat ,
   }
 
   // BQCD checksum is just the crc of the whol thing
-  uint32_t CRC_BQCD , nbytes ;
   CKSUM_GET( &CRC_BQCD , &nbytes ) ;
 
   if( HEAD_DATA.precision == DOUBLE_PREC ) {
-- 
2.43.0


From 556b120bcd0b24f8150caf24728d4b59cc01b1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 07/91] fix: HiRep SU(2) files were written in a different
 order than they are read

---
 src/IO/HIREP.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index 0b58f63..d4278ef 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -162,7 +162,19 @@ write_gauge_field( const struct site *__restrict lat ,
   for( i = 0 ; i < LVOLUME ; i++ ) {
     // loop HiRep indices
     const size_t idx = translate_to_GLU_geom( i ) ;
-    size_t mu , j , a = 0 ;
+    size_t mu , a = 0 ;
+    #if NC==2
+    // the quaternion order the reader expects, t first
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      const GLU_complex *O = lat[idx].O[ ( mu + ND - 1 ) % ND ] ;
+      uoutd[ a + 0 ] = ( double )creal( O[0] ) ;
+      uoutd[ a + 1 ] = ( double )cimag( O[1] ) ;
+      uoutd[ a + 2 ] = -( double )creal( O[1] ) ;
+      uoutd[ a + 3 ] = ( double )cimag( O[0] ) ;
+      a += 2*NC ;
+    }
+    #else
+    size_t j ;
     // t first
     for( j = 0 ; j < mat_stride ; j++ ) {
       uoutd[ a + 0 ] = ( double )creal( lat[idx].O[ ND - 1 ][ j ] ) ; 
@@ -177,6 +189,7 @@ write_gauge_field( const struct site *__restrict lat ,
 	a += 2 ;
       }
     } 
+    #endif
     #ifdef OUT_BIG
     if( !WORDS_BIGENDIAN ) {
       bswap_64( stride , uoutd ) ; 
-- 
2.43.0


From c49a8c4ecb7f469e9ffbb95c6d60042ccc34707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 08/91] fix: MILC header wrote uninitialised stack bytes after
 the date

---
 src/IO/write_headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/write_headers.c b/src/IO/write_headers.c
index c7bd907..54f1c84 100755
--- a/src/IO/write_headers.c
+++ b/src/IO/write_headers.c
@@ -58,7 +58,7 @@ write_header_MILC( FILE *__restrict out ,
   for (int i = 0; i < ND; i ++) dims[i] = Latt.dims[i];
   swap_and_write_int( out , dims , ND ) ;
 
-  char str[ 64 ] ;
+  char str[ 64 ] = { 0 } ;
   sprintf( str , "%s GMT" , get_date( ) ) ;
   fprintf( stdout , "[IO] MILC time %s\n" , str ) ;
   fwrite( str , sizeof( char ) , 64 , out ) ;
-- 
2.43.0


From a5362e726b968bb9e7a1534178de99743b0db8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 09/91] fix: NERSC files with configuration number zero were
 rejected

---
 src/IO/chklat_stuff.c | 15 ++++++---------
 src/IO/read_headers.c |  2 +-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/IO/chklat_stuff.c b/src/IO/chklat_stuff.c
index 5305d68..9b58f4b 100755
--- a/src/IO/chklat_stuff.c
+++ b/src/IO/chklat_stuff.c
@@ -57,8 +57,7 @@ get_float( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%f" , q ) ;
-  return GLU_SUCCESS ;
+  return sscanf( p , "%f" , q ) == 1 ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // get_int: return value as an int  
@@ -72,8 +71,7 @@ get_int( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%d" , q ) ;
-  return GLU_SUCCESS ;
+  return sscanf( p , "%d" , q ) == 1 ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // get a long unsigned int
@@ -87,8 +85,7 @@ get_size_t( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%zu" , q ) ;
-  return GLU_SUCCESS ;
+  return sscanf( p , "%zu" , q ) == 1 ? GLU_SUCCESS : GLU_FAILURE ;
 }
 
 // get_header: read from stream, parsing tokens 
@@ -170,13 +167,13 @@ get_uint32_t( char *s ,
   if( p == NULL ) { return GLU_FAILURE ; }
 
 #ifdef INTS_ARE_32BIT
-  sscanf( p , "%x" , q ) ;
+  return sscanf( p , "%x" , q ) == 1 ? GLU_SUCCESS : GLU_FAILURE ;
 #else
   uint32_t j ;
-  sscanf( p , "%x" , &j ) ;
+  if( sscanf( p , "%x" , &j ) != 1 ) return GLU_FAILURE ;
   *q = (uint32_t) j ;
-#endif
   return GLU_SUCCESS;
+#endif
 }
 
 // skips the header file because sometimes I don't care what's in it 
diff --git a/src/IO/read_headers.c b/src/IO/read_headers.c
index 3105066..b9a399e 100755
--- a/src/IO/read_headers.c
+++ b/src/IO/read_headers.c
@@ -248,7 +248,7 @@ get_header_data_NERSC( FILE *CONFIG ,
   if( str == NULL ) { str = "(not specified)" ; }
 
   size_t i = get_size_t( "SEQUENCE_NUMBER" , hdr , &Latt.flow ) ; 
-  if( i != 0 || Latt.flow == 0 ) {
+  if( i != 0 ) {
     fprintf( stderr , "[IO] Unknown sequence number.... \n" ) ; 
     return GLU_FAILURE ;
   }
-- 
2.43.0


From 1d80f631930ac35517a2fe092357a4f757a578d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 10/91] fix: unreadable HiRep and CERN payloads were taken for
 configurations

---
 src/IO/CERN.c         | 21 ++++++++++++++-------
 src/IO/read_config.c  |  8 ++++++--
 src/IO/read_headers.c |  9 +++++++++
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/IO/CERN.c b/src/IO/CERN.c
index 79a46bf..4c5e171 100644
--- a/src/IO/CERN.c
+++ b/src/IO/CERN.c
@@ -46,19 +46,24 @@ read_CLS_field( struct site *__restrict lat ,
   // these guys also seem to save only in double, making things easy
   const size_t stride = 16*NCNC ;
   uint32_t k = 0 ;
+  int failure = 0 ;
   size_t t ;
-  #pragma omp parallel for private(t)
+  #pragma omp parallel for private(t) reduction(+:failure)
   for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) {
 
     // test idea
     FILE *file = fopen( config_in , "rb" ) ;
-
-    double uin[ LCU*8*NCNC ] GLUalign ;
-    const size_t offset = 4*sizeof(int)+sizeof(double) +( LCU*t )*8*NCNC*sizeof(double) ;
-    fseek( file , offset , SEEK_CUR) ;
-    if( fread( uin , sizeof( double ) , 2*LCU*NCNC*ND , file ) != 2*LCU*NCNC*ND ) {
+    double *uin = NULL ;
+    const long offset = 4*sizeof(int)+sizeof(double) +( LCU*t )*8*NCNC*sizeof(double) ;
+    if( file == NULL ||
+	GLU_malloc( (void**)&uin , ALIGNMENT , LCU*8*NCNC*sizeof(double) ) != 0 ||
+	fseek( file , offset , SEEK_CUR ) != 0 ||
+	fread( uin , sizeof( double ) , 2*LCU*NCNC*ND , file ) != 2*LCU*NCNC*ND ) {
       fprintf( stderr , "File read error .. Leaving \n " ) ;
-      exit(1) ;
+      if( file != NULL ) fclose( file ) ;
+      free( uin ) ;
+      failure++ ;
+      continue ;
     }
     
     double *uind = (double*)(uin) ;
@@ -116,7 +121,9 @@ read_CLS_field( struct site *__restrict lat ,
       }
     }
     fclose( file ) ;
+    free( uin ) ;
   }
+  if( failure != 0 ) return GLU_FAILURE ;
 
   if( WORDS_BIGENDIAN ) {
     bswap_32( LVOLUME*NCNC*2 , lat ) ;
diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 32a1df3..3c5cb0d 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -159,10 +159,14 @@ get_config_SUNC( FILE *__restrict CONFIG ,
       }
     } break ;
   case HIREP_HEADER : // HIREP uses a weird geometry compared to everyone else
-    read_gauge_field( lat , CONFIG , &chksum ) ;
+    if( read_gauge_field( lat , CONFIG , &chksum ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     return chksum ;
   case CERN_HEADER :
-    read_CLS_field( lat , config_in , &chksum ) ;
+    if( read_CLS_field( lat , config_in , &chksum ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     return chksum ;
   case RANDOM_CONFIG :
     random_suNC( lat ) ;
diff --git a/src/IO/read_headers.c b/src/IO/read_headers.c
index b9a399e..881950b 100755
--- a/src/IO/read_headers.c
+++ b/src/IO/read_headers.c
@@ -59,6 +59,15 @@ get_header_data_CERN( FILE *CONFIG ,
   }
   Latt.dims[ mu ] = NAV[0] ;
 
+  // only even extents have an odd half that neighbours every link
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[ mu ]%2 != 0 ) {
+      fprintf( stderr , "[IO] CERN files need even extents, read %zu\n" ,
+	       Latt.dims[ mu ] ) ;
+      return GLU_FAILURE ;
+    }
+  }
+
   double plaq[1] ;
   if( !fread( plaq , sizeof ( double ) , 1 , CONFIG ) ) {
     printf( "[IO] Cannot understand plaquette details .. Leaving \n" ) ;
-- 
2.43.0


From e374bef608e179a83791f2c621632f27cd3ffbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 11/91] fix: configuration writer reported success when nothing
 valid was written

---
 src/Headers/CERN.h         |  4 ++--
 src/IO/CERN.c              | 17 +++++++++++++----
 src/IO/writers.c           |  4 ++--
 src/Wrappers/GLUlib_wrap.c | 14 ++++++++++++--
 4 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/Headers/CERN.h b/src/Headers/CERN.h
index 8454322..4e0ea85 100644
--- a/src/Headers/CERN.h
+++ b/src/Headers/CERN.h
@@ -37,12 +37,12 @@ read_CLS_field( struct site *lat ,
 		uint32_t *chksum ) ;
 
 /**
-   @fn void write_CLS_field( const struct site *lat ,  FILE *outfile )
+   @fn int write_CLS_field( const struct site *lat ,  FILE *outfile )
    @param lat :: lattice gauge field
    @param outfile :: string we are writing out to
    @brief write a CERN gauge field
  */
-void
+int
 write_CLS_field( const struct site *lat ,
 		 FILE *outfile ) ;
 
diff --git a/src/IO/CERN.c b/src/IO/CERN.c
index 4c5e171..86f4663 100644
--- a/src/IO/CERN.c
+++ b/src/IO/CERN.c
@@ -134,13 +134,22 @@ read_CLS_field( struct site *__restrict lat ,
 }
 
 // writes my gauge field out in the CERN format 
-void
+int
 write_CLS_field( const struct site *__restrict lat ,
 		 FILE *__restrict outfile )
 {
   if( ND != 4 ) {
     fprintf( stderr , "No known CERN format for Nd != 4\n" ) ;
-    return ;
+    return GLU_FAILURE ;
+  }
+  // the odd sites only reach every link when the extents are even
+  size_t mu ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[ mu ]%2 != 0 ) {
+      fprintf( stderr , "CERN format needs even extents, not %zu\n" ,
+	       Latt.dims[ mu ] ) ;
+      return GLU_FAILURE ;
+    }
   }
   
   const size_t stride = 16*NCNC ; 
@@ -165,7 +174,7 @@ write_CLS_field( const struct site *__restrict lat ,
   // create a copy
   double *uout = NULL ;
   if( GLU_malloc( (void**)&uout , ALIGNMENT, LVOLUME*ND*NCNC*2*sizeof(double) ) != 0 ) {
-    return ;
+    return GLU_FAILURE ;
   }
 
   // the idea is to do all of the translation stuff in parallel and then dump it to a file
@@ -245,5 +254,5 @@ write_CLS_field( const struct site *__restrict lat ,
   
   free( uout ) ;
   
-  return ;
+  return GLU_SUCCESS ;
 }
diff --git a/src/IO/writers.c b/src/IO/writers.c
index 3c23a5a..3387e98 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -339,9 +339,9 @@ write_lat( struct site *lat ,
   if( type == OUTPUT_CERN ) {
     printf( "[IO] Writing out in CERN format\n" ) ;
     start_timer() ;
-    write_CLS_field( lat , out ) ;
+    const int flag = write_CLS_field( lat , out ) ;
     print_time() ;
-    return GLU_SUCCESS ;
+    return flag ;
   }
   // HIREP stuff is all handled in HIREP.c
   if( type == OUTPUT_HIREP ) {
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index fc10871..d12e7b1 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -180,9 +180,19 @@ write_configuration( struct site *lat ,
     return GLU_FAILURE ;
   } else {
     FILE *out_config = fopen( outfile , "w" ) ;
-    write_lat( lat , out_config , storage , output_details ) ;
+    if( out_config == NULL ) {
+      fprintf( stderr , "[IO] cannot open %s for writing\n" , outfile ) ;
+      return GLU_FAILURE ;
+    }
+    int FLAG = write_lat( lat , out_config , storage , output_details ) ;
+    if( ferror( out_config ) != 0 ) FLAG = GLU_FAILURE ;
+    if( fclose( out_config ) != 0 ) FLAG = GLU_FAILURE ;
+    if( FLAG == GLU_FAILURE ) {
+      fprintf( stderr , "[IO] writing %s failed\n" , outfile ) ;
+      remove( outfile ) ;
+      return GLU_FAILURE ;
+    }
     fprintf( stdout , "[IO] Configuration written to %s \n", outfile ) ; 
-    fclose( out_config ) ;
   }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 35442c82a70ac3e0e6847b192168c72c7fe3e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 12/91] fix: read_file used an unset header, closed a missing
 file and leaked rejected fields

---
 src/Wrappers/GLUlib_wrap.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index d12e7b1..294850b 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -89,10 +89,10 @@ read_file( struct head_data *HEAD_DATA ,
   fprintf( stdout , "[IO] reading file %s\n" , config_in ) ;
  
   // initialise the configuration number to zero
-  struct head_data tmp ;
+  struct head_data tmp = { 0 } ;
   if( read_header( infile , &tmp , GLU_TRUE ) == GLU_FAILURE ) {
     fprintf( stderr , "[IO] Header reading failure\n" ) ;
-    fclose( infile ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
     return NULL ;
   } 
 
@@ -101,7 +101,7 @@ read_file( struct head_data *HEAD_DATA ,
 
   // check for having enough memory for the gauge field
   if( have_memory_gauge( ) == GLU_FAILURE ) {
-    fclose( infile ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
     return NULL ;
   }
 
@@ -109,6 +109,7 @@ read_file( struct head_data *HEAD_DATA ,
   struct site *lat = NULL ;
   if( ( lat = allocate_lat( ) ) == NULL ) {
     fprintf( stderr , "[IO] Gauge field allocation failure\n" ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
     return NULL ;
   }
 
@@ -123,8 +124,8 @@ read_file( struct head_data *HEAD_DATA ,
   // read in the configuration ...  
   if( check == GLU_FAILURE ) {
     fprintf( stderr , "[IO] File read error ... Leaving \n" ) ;
-    fclose( infile ) ;
-    free( lat ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
+    free_lat( lat ) ;
     return NULL ;
   }
 
@@ -137,8 +138,8 @@ read_file( struct head_data *HEAD_DATA ,
 
   // have a look at some available checks
   if( checks( lat , check , tmp ) == GLU_FAILURE ) { 
-    fclose( infile ) ;
-    free( lat ) ;
+    if( infile != NULL ) { fclose( infile ) ; }
+    free_lat( lat ) ;
     return NULL ; 
   }
 
-- 
2.43.0


From feb4dce94763ccdfa1c1963f7d076b96d9b33a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 13/91] fix: lattice extents of a header were used unchecked

---
 src/Wrappers/GLUlib_wrap.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 294850b..f947c7b 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -39,6 +39,7 @@
 #include "taylor_logs.h"    // Taylor series brute force logarithm
 #include "writers.h"        // write out a configuration
 #include "GLU_timer.h"      // reporting IO timing
+#include <limits.h>         // INT_MAX
 
 // allow for some very necessary precomputations ...
 #if NC > 3 
@@ -59,6 +60,24 @@ attach_GLU( void )
   return ;
 }
 
+// are the extents we were given those of a lattice we can address?
+static int
+check_dimensions( void )
+{
+  const size_t max = SIZE_MAX / ( 8 * ND * NCNC * sizeof( GLU_complex ) ) ;
+  size_t mu , volume = 1 ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[ mu ] < 1 || Latt.dims[ mu ] > INT_MAX ||
+	Latt.dims[ mu ] > max / volume ) {
+      fprintf( stderr , "[IO] Impossible extent %zu in direction %zu\n" ,
+	       Latt.dims[ mu ] , mu ) ;
+      return GLU_FAILURE ;
+    }
+    volume *= Latt.dims[ mu ] ;
+  }
+  return GLU_SUCCESS ;
+}
+
 // read a file, has to be out of order because it is called by the others
 struct site*
 read_file( struct head_data *HEAD_DATA , 
@@ -96,6 +115,12 @@ read_file( struct head_data *HEAD_DATA ,
     return NULL ;
   } 
 
+  // the header of a damaged file can hold anything
+  if( check_dimensions( ) == GLU_FAILURE ) {
+    if( infile != NULL ) { fclose( infile ) ; }
+    return NULL ;
+  }
+
   // initialise geometry so that we can use LVOLUME and stuff
   init_latt( ) ;
 
-- 
2.43.0


From 949f2d81880daa252c9362f461f6caa7c508882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 14/91] fix: NERSC header lines without an equals sign or
 beyond the token table

---
 src/IO/chklat_stuff.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/IO/chklat_stuff.c b/src/IO/chklat_stuff.c
index 9b58f4b..8a8b118 100755
--- a/src/IO/chklat_stuff.c
+++ b/src/IO/chklat_stuff.c
@@ -130,8 +130,20 @@ get_header( FILE *__restrict in )
       break;
     }
 
-    // Tokens are terminated by a space 
+    // Tokens are terminated by a space and followed by an equals
     q = index( line,' ' ) ;
+    if( q == NULL || index( q , '=' ) == NULL || n == MAX_TOKENS ) {
+      fprintf( stderr , "[IO] Misformed header line %zu ... Leaving \n" , n ) ;
+      while( n > 0 ) {
+	n-- ;
+	free( (*hdr).token[n] ) ;
+	free( (*hdr).value[n] ) ;
+      }
+      free( hdr -> token ) ;
+      free( hdr -> value ) ;
+      free( hdr ) ;
+      return NULL ;
+    }
 
     // Overwrite space with a terminating null 
     *q = '\0';
@@ -146,8 +158,8 @@ get_header( FILE *__restrict in )
     q++ ;
 
     len = strlen( q ) ;
-    q[len-1] = 0;
-    p = malloc( len ) ;
+    if( len > 0 && q[len-1] == '\n' ) { q[--len] = 0; }
+    p = malloc( len+1 ) ;
     (*hdr).value[n] = p ;
     strcpy( p , q ) ;
     n++ ;
-- 
2.43.0


From 524bacf7cbcb9a517e8c7bd6a2df23b4f5ce4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 15/91] fix: SciDAC records of any length, empty or with too
 many extents

---
 src/IO/Scidac.c   | 17 ++++++++++++++++-
 src/IO/XML_info.c |  5 +++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 1f7852e..24910e6 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -103,8 +103,18 @@ parse_SCIDAC_hdr( FILE *infile ,
     // and so we exit ...
     return GLU_EOF ; // is not end of file, but not error either
   }
+  // the record cannot be longer than what is left of the file
+  const long here = ftell( infile ) ;
+  if( here < 0 || fseek( infile , 0 , SEEK_END ) != 0 ) return GLU_FAILURE ;
+  const long end = ftell( infile ) ;
+  if( fseek( infile , here , SEEK_SET ) != 0 ||
+      i_data_length[0] > (uint64_t)( end - here ) ) {
+    fprintf( stderr , "[IO] record is longer than the file ... Leaving \n" ) ;
+    return GLU_FAILURE ;
+  }
   // we should be able to read the remaining data
   char *io_data = malloc( ( i_data_length[0] + 1 ) * sizeof( char ) ) ;
+  if( io_data == NULL ) return GLU_FAILURE ;
   if( fread( io_data , sizeof( char ) , i_data_length[0] , infile ) != 
       i_data_length[0] ) {
     fprintf( stderr , "[IO] xml information reading failed ... Leaving \n" ) ;
@@ -119,6 +129,7 @@ parse_SCIDAC_hdr( FILE *infile ,
     tmp.plaquette = strtod( io_data , &endptr ) ;
     if( io_data == endptr ) {
       printf( "[IO] BQCD plaquette misread \n" ) ;
+      free( io_data ) ;
       return GLU_FAILURE ;
     }
     *HEAD_DATA = tmp ;
@@ -127,7 +138,11 @@ parse_SCIDAC_hdr( FILE *infile ,
   if( strcmp( (const char*)typebuf , "bqcd-cksum" ) == 0 ) {
     struct head_data tmp = *HEAD_DATA ;
     unsigned long int cksum ;
-    sscanf( io_data , "%lu" , &cksum ) ;
+    if( sscanf( io_data , "%lu" , &cksum ) != 1 ) {
+      printf( "[IO] BQCD checksum misread \n" ) ;
+      free( io_data ) ;
+      return GLU_FAILURE ;
+    }
     tmp.checksum = (uint32_t)cksum ;
     *HEAD_DATA = tmp ;
   }
diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index 9d4f381..c84609a 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -65,7 +65,7 @@ get_prec_tag( char *pch , const char *tag )
   // loop tokens
   while( ( pch = strtok( 0 , "<>" ) ) ) {
     if( !strncmp( pch , tmp , length+1 ) ) break ;
-    sprintf( prec , "%s" , pch ) ;
+    snprintf( prec , sizeof( prec ) , "%s" , pch ) ;
   }
   if( !strcmp( prec , "F" ) ) return FLOAT_PREC ;
   if( !strcmp( prec , "D" ) ) return DOUBLE_PREC ;
@@ -86,7 +86,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
   // We use the C tokenize capabilities to parse this string
   char *pch = strtok( xml_info , "<>" ) ;
   // this is not an error
-  if (strncmp( pch , "?xml" , 4 ) ) {
+  if ( pch == NULL || strncmp( pch , "?xml" , 4 ) ) {
     return 0 ;
   }
   int dimensions = 0 ;
@@ -188,6 +188,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 	  Latt.dims[ idx++ ] = strtol( token , &pEnd , 10 ) ;
 	  while( ( token = strtok( NULL , " " ) ) != NULL ) {
 	    if(  ( are_equal( token , "/dims" ) ) ) break ;
+	    if( idx == ND ) return GLU_FAILURE ;
 	    Latt.dims[ idx ] = strtol( token , &pEnd , 10 ) ;
 	    idx++ ;
 	  } 
-- 
2.43.0


From ec2b011f148ecf9ac504ae811af39836dd09596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 16/91] fix: SciDAC files of another gauge group were accepted

---
 src/IO/Scidac.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 24910e6..75aeb1c 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -146,7 +146,10 @@ parse_SCIDAC_hdr( FILE *infile ,
     tmp.checksum = (uint32_t)cksum ;
     *HEAD_DATA = tmp ;
   }
-  parse_and_set_xml_SCIDAC( io_data , HEAD_DATA ) ;
+  if( parse_and_set_xml_SCIDAC( io_data , HEAD_DATA ) == GLU_FAILURE ) {
+    free( io_data ) ;
+    return GLU_FAILURE ;
+  }
 
   // free for now
   free( io_data ) ;
@@ -332,7 +335,7 @@ write_header_ILDG( FILE *__restrict out )
   sprintf( tmp , "%zu" , Latt.dims[mu] ) ;
   append_char( &str , tmp ) ;
 
-  append_char( &str , "</dims><volfmt>0</volfmt></ScidacFile>" ) ;
+  append_char( &str , "</dims><volfmt>0</volfmt></scidacFile>" ) ;
   // some dummy file
   write_SCIDAC_binary( out , str , strlen( str ) , "scidac-private-file-xml" ) ;
   free( str ) ;
@@ -379,10 +382,11 @@ write_header_ILDG( FILE *__restrict out )
   // begin with the usual spiel and the versioning ...
   sprintf( ILDG_str , "%s" , ILDG_start ) ;
 #ifdef SINGLE_PREC
-  append_char( &ILDG_str , "<field>su3gauge</field><precision>32</precision>" ) ;
+  sprintf( tmp , "<field>su%dgauge</field><precision>32</precision>" , NC ) ;
 #else
-  append_char( &ILDG_str , "<field>su3gauge</field><precision>64</precision>" ) ;
+  sprintf( tmp , "<field>su%dgauge</field><precision>64</precision>" , NC ) ;
 #endif
+  append_char( &ILDG_str , tmp ) ;
   // and input the geometry .. I enumerate the extra (>4) dimensions, always leaving t running slowest
   const char open[4][5] = { "<lx>" , "<ly>" , "<lz>" , "<lt>" } ;
   const char close[4][6] = { "</lx>" , "</ly>" , "</lz>" , "</lt>" } ;
-- 
2.43.0


From cd0061d64116fc675250d995c4417456a988982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 17/91] fix: extents missing from a SciDAC header were
 inherited from the previous file

---
 src/IO/read_headers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IO/read_headers.c b/src/IO/read_headers.c
index 881950b..a7473f6 100755
--- a/src/IO/read_headers.c
+++ b/src/IO/read_headers.c
@@ -389,6 +389,8 @@ read_header( FILE *infile ,
   case SCIDAC_HEADER : // usual scidac header type
   case ILDG_SCIDAC_HEADER : // ILDG and SCIDAC are basically the same ...
   case ILDG_BQCD_HEADER : // ILDG and SCIDAC are basically the same ...
+    // the extents have to come from this file, not from an earlier one
+    for( size_t mu = 0 ; mu < ND ; mu++ ) { Latt.dims[ mu ] = 0 ; }
     return get_header_data_SCIDAC( infile , HEAD_DATA ) ; // in Scidac.c
   case JLQCD_HEADER :
     // type it out by hand
-- 
2.43.0


From 7708cbfa75df0fde62b38f439791cc671eb150e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 18/91] fix: a plaquette that is not a number passed every
 plaquette check

---
 src/IO/read_config.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 3c5cb0d..d9721bf 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -58,7 +58,7 @@ check_sums( const double plaq ,
     } else {
       TTOL = PLAQ_AND_TRACE_TOL ;
     }
-    if( fabs( HEAD_DATA.plaquette - plaq ) > TTOL ) {
+    if( !( fabs( HEAD_DATA.plaquette - plaq ) <= TTOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Plaquettes %e %e \n\n" , 
 	       plaq , HEAD_DATA.plaquette ) ; 
       return GLU_FAILURE ;
@@ -73,7 +73,7 @@ check_sums( const double plaq ,
   case HIREP_HEADER :
   case CERN_HEADER :
     // only check available is the plaquette
-    if( fabs( plaq - HEAD_DATA.plaquette ) > 10*PREC_TOL ) {
+    if( !( fabs( plaq - HEAD_DATA.plaquette ) <= 10*PREC_TOL ) ) {
       fprintf( stderr , "[IO] Config Plaquette Mismatch %e vs %e "
 	       " < diff > %e ... Leaving \n" , plaq , HEAD_DATA.plaquette , 
 	       fabs( plaq - HEAD_DATA.plaquette ) ) ;
@@ -87,12 +87,12 @@ check_sums( const double plaq ,
 	       chksum , HEAD_DATA.checksum ) ; 
       error ++ ; 
       // TOL is defined as 10^-6
-    } if( fabs( plaq - HEAD_DATA.plaquette ) > PLAQ_AND_TRACE_TOL ) {
+    } if( !( fabs( plaq - HEAD_DATA.plaquette ) <= PLAQ_AND_TRACE_TOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Plaquettes Calc %f || Read %f " 
 	       " < diff > %e \n\n" , plaq , HEAD_DATA.plaquette , 
 	       fabs( plaq - HEAD_DATA.plaquette ) ) ; 
       error ++ ; 
-    } if( fabs( tr - HEAD_DATA.trace) > PLAQ_AND_TRACE_TOL ) {
+    } if( !( fabs( tr - HEAD_DATA.trace) <= PLAQ_AND_TRACE_TOL ) ) {
       fprintf( stderr , "\n[IO] Unequal Link_Traces Calc %1.8f || "
 	       "Read %1.8f \n\n" , tr , HEAD_DATA.trace ) ; 
       error ++ ; 
-- 
2.43.0


From 58df456aeb583d9a0055bd47e38c0aa044f8c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 19/91] fix: the trailing records of a SciDAC file could change
 the lattice extents

---
 src/Wrappers/GLUlib_wrap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index f947c7b..4890edd 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -158,7 +158,10 @@ read_file( struct head_data *HEAD_DATA ,
   // this is taken from the bottom of the file
   if( Latt.head == SCIDAC_HEADER || Latt.head == ILDG_SCIDAC_HEADER ||
       Latt.head == ILDG_BQCD_HEADER ) {
+    const struct latt_info copy = Latt ;
     get_header_data_SCIDAC( infile , &tmp ) ;
+    // nothing at the end can change the geometry we have just read in
+    for( size_t mu = 0 ; mu < ND ; mu++ ) { Latt.dims[ mu ] = copy.dims[ mu ] ; }
   }
 
   // have a look at some available checks
-- 
2.43.0


From ebbb95db43e82c75d1efc1fedf27472247b47a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 20/91] fix: maximum of the theta tests was overwritten by a
 smaller value between threads

---
 src/Gfix/gftests.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index a3eccc5..2713732 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -236,7 +236,8 @@ theta_test_lin( const struct site *__restrict lat ,
     #ifdef GLU_OMP_MEAS
     if( res > *max ) { 
       omp_set_lock( &writelock ) ;
-      *max = res ;
+      // another thread may have stored a larger one in the meantime
+      if( res > *max ) { *max = res ; }
       omp_unset_lock( &writelock ) ;
     } 
     #else
@@ -276,7 +277,8 @@ theta_test_log( const struct site *__restrict lat ,
     #ifdef GLU_OMP_MEAS
     if( res > *max ) { 
       omp_set_lock( &writelock ) ;
-      *max = res ;
+      // another thread may have stored a larger one in the meantime
+      if( res > *max ) { *max = res ; }
       omp_unset_lock( &writelock ) ;
     } 
     #else
-- 
2.43.0


From daf028bf77f1d21503b89feb9a6341c41f9c1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:29 +0000
Subject: [PATCH 21/91] fix: SU(2) temporal constancy test compared the first
 slice with itself

---
 src/Gfix/gftests.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index 2713732..04c2411 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -94,11 +94,11 @@ const_time( const struct site *__restrict lat ,
 
       #elif NC == 2
 
-      register const double re0 = creal( sum1[0] ) - creal( sum1[0] ) ;
+      register const double re0 = creal( sum1[0] ) - creal( sum2[0] ) ;
       av += (double)fabs( re0 ) ; 
       av += (double)cabs( sum1[1] - sum2[1] ) ;
       // log def
-      register const double rel0 = creal( sum1[0] ) - creal( sum1[0] ) ;
+      register const double rel0 = creal( sum1_log[0] ) - creal( sum2_log[0] ) ;
       avlog += (double)fabs( rel0 ) ; 
       avlog += (double)cabs( sum1_log[1] - sum2_log[1] ) ;
 
-- 
2.43.0


From d17a7c512f92b7af2da8a9aaef71db2397dee143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:59 +0000
Subject: [PATCH 22/91] fix: Landau restart dereferenced NULL and reported
 success when the configuration cannot be reread

---
 src/Gfix/Landau.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 53580b0..17d4235 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -244,10 +244,15 @@ grab_file( struct site *lat ,
 {
   struct head_data HEAD_DATA ;
   FILE *config = fopen( infile , "rb" ) ;
+  if( config == NULL ) {
+    printf( "[IO] cannot open %s \n" , infile ) ;
+    return GLU_FAILURE ;
+  }
   // assume the chksum is correct
   if( read_header( config , &HEAD_DATA , GLU_FALSE ) == GLU_FAILURE ||
       get_config_SUNC( config , lat , HEAD_DATA , infile ) == GLU_FAILURE ) {
     printf( "[IO] binary file read error \n" ) ;
+    fclose( config ) ;
     return GLU_FAILURE ;
   } 
   random_transform( lat , gauge ) ; 
@@ -323,6 +328,7 @@ Landau( struct site *lat ,
       //repeat procedure have to read in the file :( 
       if( grab_file( lat , gauge , infile ) == GLU_FAILURE ) { 
 	printf( "[IO] Something funky happened when trying to read in config again!\n" ) ;
+	failure = GF_GLU_FAILURES ;
 	goto MemFree ; 
       }
       // and the callback
-- 
2.43.0


From 3911c1c8ff69fd613e09b488a7758fd3c6a6c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 23/91] fix: checkpoint names overflowed their buffer and were
 cut at the first dot of the path

---
 src/Update/KPHB.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index b5338a3..5acb82c 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -127,9 +127,15 @@ hb_update( struct site *lat ,
 	   const GLU_output storage , 
 	   const char *output_details )
 {
-  // strip the number in the infile if it has one
-  char *pch = strtok( (char*)traj_name , "." ) ;
-  char str[ strlen(pch)+6+sizeof(size_t) ] ;
+  // strip the number in the infile if it has one, leave the path alone
+  const char *base = strrchr( traj_name , '/' ) ;
+  base = ( base == NULL ) ? traj_name : base + 1 ;
+  base += strspn( base , "." ) ;
+  char pch[ strlen( traj_name ) + 1 ] ;
+  strcpy( pch , traj_name ) ;
+  pch[ ( base - traj_name ) + strcspn( base , "." ) ] = '\0' ;
+  // room for the separators, the extension and the digits of a size_t
+  char str[ strlen( pch ) + 8 + 3*sizeof( size_t ) ] ;
   sprintf( str , "%s.%zu.rand" , pch , Latt.flow ) ;
   
   if( HBINFO.continuation == GLU_FALSE ) {
-- 
2.43.0


From 6b75fd3411c6532443aa2dbb2409960e48bd8058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 24/91] fix: checkpoint could carry the previous trajectory
 number

---
 src/Update/KPHB.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 5acb82c..b1befc9 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -223,7 +223,9 @@ hb_update( struct site *lat ,
       if( i%HBINFO.Nsave == 0 && i != start ) {
 	#pragma omp single
 	{
-	  // write a configuration
+	  // write a configuration, the master may not have moved the flow on
+	  // yet if there was no measurement since the last update
+	  Latt.flow = i ;
 	  sprintf( str , "%s.%zu" , pch , i ) ;
 	  if( write_configuration( lat , str , storage , output_details )
 	      != GLU_FAILURE ) {
-- 
2.43.0


From 830cb8594b23321b936e5554c31c22c074752081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 25/91] fix: series coefficients of the NC>3 logarithm were set
 up with omp single inside a loop and read past their end

---
 src/Matrix_Ops/taylor_logs.c | 49 ++++++++----------------------------
 1 file changed, 11 insertions(+), 38 deletions(-)

diff --git a/src/Matrix_Ops/taylor_logs.c b/src/Matrix_Ops/taylor_logs.c
index 89dd8d0..789d910 100755
--- a/src/Matrix_Ops/taylor_logs.c
+++ b/src/Matrix_Ops/taylor_logs.c
@@ -34,17 +34,13 @@
  */
 static const size_t NMAX = 25 ; // set this quite high to give it a chance
 
-/**
-   @param TAYLOR_SET
-   @brief have we set the Taylor expansion coefficients?
- */
-static int TAYLOR_SET ;
-
-/**
-   @param fact
-   @breif Taylor expansion coefficients precomputes
- */
-static double *fact ;
+// Taylor expansion coefficients, needs no precomputed table that threads
+// would have to agree on
+static inline double
+fact( const size_t n )
+{
+  return 1.0 / ( 2.0 * (double)n - 1.0 ) ;
+}
 
 // Computes the square-root of the matrix A
 //  using a denman-beavers iteration routine
@@ -152,23 +148,6 @@ denman_rootZ( GLU_complex *__restrict Z )
   return GLU_SUCCESS ;
 }
 
-// precomputation, this should be put in Mainfile.c
-static void
-precompute_taylor_factors( void ) 
-{
-  // make sure this isn't getting overwritten by different threads
-#pragma omp single
-  {
-    fact = malloc( NMAX * sizeof( double ) ) ;
-    size_t n ;
-    for( n = 0 ; n < NMAX ; n++ ) {
-      fact[ n ] = 1.0 / (double)( 2 * ( n ) - 1 ) ;
-    }
-    TAYLOR_SET = GLU_TRUE ;
-  }
-  return ;
-}
-
 static int
 log_asinh( GLU_complex *__restrict Q , 
 	   const GLU_complex *__restrict U ,
@@ -323,9 +302,6 @@ brute_force_log( GLU_complex *Q ,
 		 const GLU_complex *U ,
 		 const size_t NROOTS )
 {
-  // check to see if we can do precomputations
-  if( TAYLOR_SET == GLU_FALSE ) { precompute_taylor_factors( ) ; } 
-
 #if NC < 10
   const double SCALING = pow( 2.0 , ( NROOTS ) ) ;
 #else
@@ -391,7 +367,7 @@ brute_force_log( GLU_complex *Q ,
     // power of the yy matrix
     matrix_power( pert , yy , n + 1 ) ;
     for( j = 0 ; j < NCNC ; j++ ) { 
-      pert[ j ] *= fact[ n + 1 ] ;
+      pert[ j ] *= fact( n + 1 ) ;
     }
     // multiply finally by the parameter "y"
     multab_atomic_left( pert , y ) ;
@@ -414,7 +390,7 @@ brute_force_log( GLU_complex *Q ,
   // compute the next order term in the series in step Q is the n+1 series approx
   //double fact = 1.0 / ( 2. * (n+1) - 1.0 ) ;
   for( j = 0 ; j < NCNC ; j++ ) { 
-    Q[j] = yy[j] * fact[ n+1 ] ;
+    Q[j] = yy[j] * fact( n+1 ) ;
   }
 
   // Now we have an estimate for when the last term in the series is negligible
@@ -423,7 +399,7 @@ brute_force_log( GLU_complex *Q ,
   for ( i = n ; i > 1 ; i-- ) {
     //fact = 1.0 / ( 2. * i - 1.0 ) ;
     for( j = 0 ; j < NC ; j++ ) { 
-      Q[j*(NC+1)]  += fact[ i ] ; 
+      Q[j*(NC+1)]  += fact( i ) ; 
     }
     //xx = yy * ( fact + xx ) ;
     multab_atomic_left( Q , yy ) ;
@@ -459,13 +435,10 @@ brute_force_log( GLU_complex *Q ,
   return GLU_SUCCESS ;
 }
 
-// we free this in Mainfile.c
+// nothing is precomputed any more
 void
 free_taylors( void )
 {
-  if( TAYLOR_SET == GLU_TRUE ) {
-    free( fact ) ;
-  }
   return ;
 }
 
-- 
2.43.0


From 89ebc2d1a81d989bb6c09739b104e512afc63506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:33 +0000
Subject: [PATCH 26/91] fix: direction index was shared between threads in the
 configuration-space correlator

---
 src/Cuts/config_gluons.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index bc9eb0c..f6aa285 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -137,7 +137,7 @@ spatial_correlator( struct site *__restrict A ,
   }
 
   // compute the convolution in momentum space
-#pragma omp parallel for private(i)
+#pragma omp parallel for private(i,mu)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex tr , sum = 0.0 ;
     #ifdef CUT_FORWARD
-- 
2.43.0


From 2141f6b6be624860ecc3230caa34473c9a9364b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:38 +0000
Subject: [PATCH 27/91] fix: slab sum without FFTW was accumulated by all
 threads at once

---
 src/Field/Qslab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index 0bb25b1..25eb2ae 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -150,7 +150,7 @@ compute_slabs( const GLU_complex *qtop ,
       }
       // perform convolution the dumb way
       #else
-      #pragma omp parallel for private(i)
+      #pragma omp parallel for private(i) reduction(+:sum_slab)
       for( i = 0 ; i < subvol ; i++ ) {
 	const size_t src = slab_idx( i , dims , SLAB_DIR , T0 ) ;
 	const double qsrc = qtop[ src ] ;
-- 
2.43.0


From 4eb4be8fc60f5e22c3420fd0353fec55da068ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:20 +0000
Subject: [PATCH 28/91] fix: non-exceptional vertex wrote one uninitialised
 triplet and indexed momenta that are not in the list

---
 src/Cuts/MOMggg.c      | 2 +-
 src/Cuts/cuts.c        | 2 +-
 src/Cuts/triplet_gen.c | 9 +++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Cuts/MOMggg.c b/src/Cuts/MOMggg.c
index cc2e74a..a3bdcc5 100755
--- a/src/Cuts/MOMggg.c
+++ b/src/Cuts/MOMggg.c
@@ -97,7 +97,7 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
   read_trip( trip , nnmax ) ;
 
   size_t nn ;
-  size_t counter[ 1 ] = { 1 } ;
+  size_t counter[ 1 ] = { 0 } ;
   for( nn = 0 ; nn < nnmax/2 ; nn++ ) {
     counter[ 0 ] += trip[ nn ] ;
   }
diff --git a/src/Cuts/cuts.c b/src/Cuts/cuts.c
index de4a2b5..082b3c6 100755
--- a/src/Cuts/cuts.c
+++ b/src/Cuts/cuts.c
@@ -156,7 +156,7 @@ cuts_struct( struct site *__restrict A ,
   case NONEXCEPTIONAL :
     // we write the mom-list internally in the g2g3 code as it can
     // be different from the cut-momentum one..
-    write_nonexceptional_g2g3( Ap , A , list , in , CUTINFO.max_mom ) ;
+    check = write_nonexceptional_g2g3( Ap , A , list , in , CUTINFO.max_mom ) ;
     break ;
   case GLUON_PROPS :
     write_mom_veclist( Ap , in , list , ND ) ;
diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 530fa80..870bc28 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -238,6 +238,15 @@ get_triplet( int *__restrict *__restrict triplet ,
 
     printf( "Checking mom-conservation orbit :: %zu \n" , nn ) ; 
   }
+
+  // every momentum has to be one that is in our list
+  for( nn = 0 ; nn < count ; nn++ ) {
+    if( triplet[ nn ][ 0 ] < 0 || triplet[ nn ][ 1 ] < 0 ||
+	triplet[ nn ][ 2 ] < 0 ) {
+      fprintf( stderr , "[CUTS] Triplet %zu is not in the momentum list\n" , nn ) ;
+      return GLU_FAILURE ;
+    }
+  }
   return GLU_SUCCESS ;
 }
 
-- 
2.43.0


From 4eddfaef080347750bfafec4aae389beb86af11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:49 +0000
Subject: [PATCH 29/91] fix: non-exceptional projector used twice the lattice
 momentum

---
 src/Cuts/triplet_gen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 870bc28..8712072 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -449,9 +449,9 @@ compute_projector( int *__restrict *__restrict triplet ,
       mom[ 2 ][ mu ] = momentum[ triplet[ i ][ 2 ] ][ mu ] * Latt.twiddles[ mu ] ;
       #else
       // SIN variant
-      mom[ 0 ][ mu ] = 2.0 * sin( momentum[ triplet[ i ][ 0 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
-      mom[ 1 ][ mu ] = 2.0 * sin( momentum[ triplet[ i ][ 1 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
-      mom[ 2 ][ mu ] = 2.0 * sin( momentum[ triplet[ i ][ 2 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
+      mom[ 0 ][ mu ] = 2.0 * sin( 0.5 * momentum[ triplet[ i ][ 0 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
+      mom[ 1 ][ mu ] = 2.0 * sin( 0.5 * momentum[ triplet[ i ][ 1 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
+      mom[ 2 ][ mu ] = 2.0 * sin( 0.5 * momentum[ triplet[ i ][ 2 ] ][ mu ] * Latt.twiddles[ mu ] ) ;
       #endif
     }
 
-- 
2.43.0


From 8735253a381e029fefa1ec92ad68b1298f586b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 30/91] fix: non-exceptional vertex overran its triplet tables
 for an odd maximum momentum

---
 src/Cuts/MOMggg.c      | 6 +++---
 src/Cuts/triplet_gen.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Cuts/MOMggg.c b/src/Cuts/MOMggg.c
index a3bdcc5..e2a671a 100755
--- a/src/Cuts/MOMggg.c
+++ b/src/Cuts/MOMggg.c
@@ -81,7 +81,7 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
 
   // fill up trip by calling get_triplet again .. read from a file ..
   // set up the number of triplets ... 
-  int *trip = malloc( nnmax/2 * sizeof( int ) ) ;
+  int *trip = malloc( ( nnmax + 1 )/2 * sizeof( int ) ) ;
 
   // allocate both the triplet and the projector
   int **triplet = NULL ;
@@ -98,7 +98,7 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
 
   size_t nn ;
   size_t counter[ 1 ] = { 0 } ;
-  for( nn = 0 ; nn < nnmax/2 ; nn++ ) {
+  for( nn = 0 ; nn < ( nnmax + 1 )/2 ; nn++ ) {
     counter[ 0 ] += trip[ nn ] ;
   }
   
@@ -135,7 +135,7 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
   
   write_triplet_mom_list( Ap , counter , momentum , triplet ) ;
 
-  for( nn = 0 ; nn < nnmax/2 ; nn ++ ) {
+  for( nn = 0 ; nn < ( nnmax + 1 )/2 ; nn ++ ) {
 
     double psq = 0. ;
     double oneOpsq = 0. ;
diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 8712072..fe9c3c3 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -482,7 +482,7 @@ read_trip( int *__restrict trip ,
 	   const size_t nnmax )
 {
 #ifdef NOT_CONDOR_MODE
-  const size_t nn = nnmax / 2 ;
+  const size_t nn = ( nnmax + 1 ) / 2 ;
   char *str = malloc( (1+strlen(HAVE_PREFIX))*sizeof(char)) , tmp[ 64 ] ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
   sprintf( tmp , "/Local/Moments/TRIP_%zu.config" , nnmax ) ;
-- 
2.43.0


From 638387a3820460697e7dc4142511b142798c00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 31/91] fix: smearing wrapper reported success whatever the
 smearing routine returned

---
 src/Wrappers/SM_wrap.c | 48 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/Wrappers/SM_wrap.c b/src/Wrappers/SM_wrap.c
index f679820..f005d6e 100755
--- a/src/Wrappers/SM_wrap.c
+++ b/src/Wrappers/SM_wrap.c
@@ -38,7 +38,7 @@
 #include "wflow.h"          // fixed-epsilon wilson flow
 
 // Selects the correct code to run ...
-static void
+static int
 hyp_chooser( struct site *__restrict lat ,
 	     const struct sm_info SMINFO ,
 	     const int meminfo )
@@ -50,9 +50,8 @@ hyp_chooser( struct site *__restrict lat ,
     if( SMINFO.type == SM_ADAPTWFLOW_LOG ) {
       GENTYPE = SM_LOG ;
     }
-    flow_adaptive_RK3( lat , SMINFO.smiters , 
-		      GLU_FORWARD , GENTYPE ) ;
-    return ;
+    return flow_adaptive_RK3( lat , SMINFO.smiters , 
+			      GLU_FORWARD , GENTYPE ) ;
   }
   // RK4 method of integrating the flow equation
   if( SMINFO.type == SM_WFLOW_LOG || 
@@ -63,13 +62,11 @@ hyp_chooser( struct site *__restrict lat ,
     }
     switch( meminfo ){
     case FAST :
-      flow_RK3( lat , SMINFO.smiters , 
-		GLU_FORWARD , GENTYPE , GLU_FALSE ) ;
-      return ;
+      return flow_RK3( lat , SMINFO.smiters , 
+		       GLU_FORWARD , GENTYPE , GLU_FALSE ) ;
     case MODERATE :
-      flow_RK3( lat , SMINFO.smiters , 
-		GLU_FORWARD , GENTYPE , GLU_TRUE ) ;
-      return ;
+      return flow_RK3( lat , SMINFO.smiters , 
+		       GLU_FORWARD , GENTYPE , GLU_TRUE ) ;
     }
   }
   // The original decision for the smearing methods
@@ -78,31 +75,28 @@ hyp_chooser( struct site *__restrict lat ,
   if( SMINFO.type == SM_APE || SMINFO.type == SM_STOUT 
       || SMINFO.type == SM_LOG ) {
     if( SMINFO.dir == SPATIAL_LINKS_ONLY ) {
-      smear3D( lat , SMINFO.smiters , GENTYPE ) ;
+      return smear3D( lat , SMINFO.smiters , GENTYPE ) ;
     } else {
-      smear4D( lat , SMINFO.smiters , GENTYPE ) ;
+      return smear4D( lat , SMINFO.smiters , GENTYPE ) ;
     }
   } else {
     #if ND != 4
-    HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
+    return HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
     #else
     if( SMINFO.dir == SPATIAL_LINKS_ONLY ) {
-      HYPSLsmear3D( lat , SMINFO.smiters , GENTYPE ) ; 
-      return ;
+      return HYPSLsmear3D( lat , SMINFO.smiters , GENTYPE ) ; 
     } else {
       switch( meminfo ) {
       case FAST :
-	HYPSLsmear4D_expensive( lat , SMINFO.smiters , GENTYPE ) ;
-	return ;
+	return HYPSLsmear4D_expensive( lat , SMINFO.smiters , GENTYPE ) ;
       case MODERATE :
       case SLOW :
-	HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
-	return ;
+	return HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
       }
     }
     #endif
   }
-  return ;
+  return GLU_FAILURE ;
 }
 
 // is it smear or wilson flow?
@@ -238,24 +232,30 @@ SM_wrap_struct( struct site *__restrict lat ,
   fprintf( stdout , "[SMEAR] O(a^2) Clover Term being used ... \n" ) ;
   #endif
 #endif
+  int flag = GLU_FAILURE ;
+
   start_timer( ) ;
   print_smearinfo( SMINFO ) ;
   if( SMINFO.type == SM_HYP || 
       SMINFO.type == SM_HEX || 
       SMINFO.type == SM_HYL )  {
     const int meminfo = have_memory_hyp( SMINFO ) ;
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    flag = hyp_chooser( lat , SMINFO , meminfo ) ;
   } else if( SMINFO.type == SM_WFLOW_LOG || 
 	     SMINFO.type == SM_ADAPTWFLOW_LOG ||
 	     SMINFO.type == SM_WFLOW_STOUT || 
 	     SMINFO.type == SM_ADAPTWFLOW_STOUT )  {
     const int meminfo = have_memory_wf( SMINFO ) ;
     if( meminfo == GLU_FAILURE ) { return GLU_FAILURE ; }
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    flag = hyp_chooser( lat , SMINFO , meminfo ) ;
   } else {
     const int meminfo = 0 ;
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    flag = hyp_chooser( lat , SMINFO , meminfo ) ;
   }
   print_time( ) ;
-  return GLU_SUCCESS ;
+  if( flag == GLU_FAILURE ) {
+    fprintf( stderr , "[SMEAR] smearing or flow was not performed\n" ) ;
+  }
+
+  return flag ;
 }
-- 
2.43.0


From f1570ecf9c4346f0b3b542e8744e6d1607d5a7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 32/91] fix: Wilson flow reported success when its fields could
 not be allocated

---
 src/Smear/wflow.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index d0eff63..2e4b3cd 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -48,7 +48,11 @@ flow_RK3( struct site *__restrict lat ,
 
   // Set up the temporary fields ...
   struct wflow_temps WF ;
-  if( allocate_WF( &WF , memcheap , GLU_FALSE ) == GLU_FAILURE ) goto memfree ;
+  int FLAG = GLU_SUCCESS ;
+  if( allocate_WF( &WF , memcheap , GLU_FALSE ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+    goto memfree ;
+  }
 
   void (*f) ( struct site *__restrict lat ,
 	      struct wflow_temps WF ,
@@ -81,7 +85,8 @@ flow_RK3( struct site *__restrict lat ,
     break ;
   default :
     fprintf( stderr , "[SMEARING] unrecognised smearing projection \n" ) ;
-    return GLU_FAILURE ;
+    FLAG = GLU_FAILURE ;
+    goto memfree ;
   }
 
   const double inplaq = av_plaquette( lat ) ;
@@ -180,5 +185,5 @@ flow_RK3( struct site *__restrict lat ,
   
   free_WF( &WF , memcheap , GLU_FALSE ) ;
    
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
-- 
2.43.0


From 0b1c323e5c407133e367fedbbd04785a4797bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:14 +0000
Subject: [PATCH 33/91] fix: plaquette averages were normalised for four
 dimensions only

---
 src/Field/plaqs_links.c   | 6 +++---
 src/Smear/adaptive_flow.c | 2 +-
 src/Smear/wflow.c         | 2 +-
 src/Update/KPHB.c         | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index a2518d1..bbb0d65 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -234,8 +234,8 @@ all_plaquettes( const struct site *__restrict lat ,
     tplaq = tplaq + (double)p ;
   }
   *sp_plaq = 2.0 * spplaq / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  *t_plaq  = 2.0 * tplaq /  (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  return 0.5 * ( *sp_plaq + *t_plaq ) ; 
+  *t_plaq  = tplaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ;
+  return 2.0 * ( spplaq + tplaq ) / (double)( ND * ( ND - 1 ) * NC * LVOLUME ) ; 
 }
 
 // average plaquette
@@ -339,7 +339,7 @@ t_plaq( const struct site *__restrict lat )
     }
     plaq = plaq + (double)p ;
   }
-  return 2.0 * ( plaq ) / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ; 
+  return plaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ; 
 }
 
 // sexy wrapper for the topological charge measurements to be called in parallel
diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index c895a77..ff4e0fa 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -78,7 +78,7 @@ get_plaq_th( struct site *lat ,
   for( size_t k = 0 ; k < Latt.Nthreads ; k++ ) {
     new_plaq += WF.red[ 3 + CLINE*k ] ;
   }
-  return new_plaq/( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+  return 2.0*new_plaq/( NC * ND * ( ND-1 ) * LVOLUME ) ;
 }
 
 // two step adaptive routine
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index 2e4b3cd..5a38c19 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -129,7 +129,7 @@ flow_RK3( struct site *__restrict lat ,
       for( k = 0 ; k < Latt.Nthreads ; k++ ) {
 	new_plaq += WF.red[ 3 + CLINE*k ] ;
       }
-      new_plaq /= ( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+      new_plaq *= 2.0/( NC * ND * ( ND-1 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_t ,
 			err_est , lat ) ;
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index b1befc9..1eafb54 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -63,7 +63,7 @@ perform_measurements( double *PLAQred ,
   {
     // write out the plaquette
     fprintf( stdout , "[UPDATE] %zu :: {P} %1.12f \n" , 
-	     conf_idx , pl/( NC*(ND-1)*(ND-2)*LVOLUME ) ) ;
+	     conf_idx , 2*pl/( NC*ND*(ND-1)*LVOLUME ) ) ;
   }
 
   // icc really hates this for some reason
-- 
2.43.0


From e2c84353553407d52640061ee8a0a1d08140f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 34/91] fix: staple weights of the smearing assumed four
 dimensions

---
 src/Smear/ND_generic_HYP.c | 2 +-
 src/Smear/smear.c          | 4 ++--
 src/Wrappers/SM_wrap.c     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Smear/ND_generic_HYP.c b/src/Smear/ND_generic_HYP.c
index edbf791..20ac7a3 100755
--- a/src/Smear/ND_generic_HYP.c
+++ b/src/Smear/ND_generic_HYP.c
@@ -49,7 +49,7 @@ init_smearing_alphas( const size_t MAXDIR )
 #else
   size_t mu ;
   for( mu = 0 ; mu < MAXDIR-1 ; mu++ ) {
-    smear_alphas[ mu+1 ] = Latt.sm_alpha[mu] / ( ( ND-mu-1 ) * ( ND-2 ) ) ;
+    smear_alphas[ mu+1 ] = Latt.sm_alpha[mu] / ( 2.*( ND-mu-1 ) ) ;
     one_minus_smalpha[ mu+1 ] = ( 1.0 - Latt.sm_alpha[mu] ) ;
   }
 #endif
diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 64a30f1..378d964 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -46,7 +46,7 @@ smear3D( struct site *__restrict lat ,
   if( smiters == 0 ) { return GLU_SUCCESS ; }
 
 #if ND != 4 
-  const GLU_real alpha1 = Latt.sm_alpha[0] / ( ( ND-1 ) * ( ND -2 ) ) ;
+  const GLU_real alpha1 = Latt.sm_alpha[0] / ( 2.*( ND-1 ) ) ;
   const GLU_real one_min_a1 = ( 1.0 - Latt.sm_alpha[0] ) ;
 #endif
   
@@ -181,7 +181,7 @@ smear4D( struct site *__restrict lat ,
   if( smiters == 0 ) { return GLU_SUCCESS ; }
 
 #if ND != 4 
-  const GLU_real alpha1 = ND > 2 ? Latt.sm_alpha[0] / ( ( ND - 1 ) * ( ND - 2 ) ) : Latt.sm_alpha[0] ;
+  const GLU_real alpha1 = Latt.sm_alpha[0] / ( 2.*( ND-1 ) ) ;
   const GLU_real one_min_a1 = ( 1.0 - Latt.sm_alpha[0] ) ;
 #endif	
 				     
diff --git a/src/Wrappers/SM_wrap.c b/src/Wrappers/SM_wrap.c
index f005d6e..b9c528f 100755
--- a/src/Wrappers/SM_wrap.c
+++ b/src/Wrappers/SM_wrap.c
@@ -179,7 +179,7 @@ print_smearinfo( const struct sm_info SMINFO )
       size_t i ;
       for( i = 0 ; i < ND-1 ; i++ ) {
 	fprintf( stdout , "             (alpha%zu) %f\n" , i+1 , 
-		 Latt.sm_alpha[i]/( ( ND-i-1 ) * ( ND-2 ) ) ) ;
+		 Latt.sm_alpha[i]/( 2.*( ND-i-1 ) ) ) ;
       }
     } else { 
       fprintf( stdout , "             (alpha) %f \n" , 
-- 
2.43.0


From bd4aeb6d55ed04e810e1f25c67221a91a5110d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:49 +0000
Subject: [PATCH 35/91] fix: Wilson flow corrected back to the stopping time
 reported the previous time and plaquette

---
 src/Smear/wflow.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index 5a38c19..549d193 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -152,9 +152,17 @@ flow_RK3( struct site *__restrict lat ,
       const double delta_tcorr = WFLOW_TIME_STOP - count * delta_t ; 
       f( lat , WF , delta_tcorr , SM_TYPE , project ) ;
       // update the linked list
+      t = WFLOW_TIME_STOP ;
+      av_plaquette_th( WF.red , lat ) ;
+      size_t k ;
+      new_plaq = 0.0 ;
+      for( k = 0 ; k < Latt.Nthreads ; k++ ) {
+	new_plaq += WF.red[ 3 + CLINE*k ] ;
+      }
+      new_plaq *= 2.0/( NC * ND * ( ND-1 ) * LVOLUME ) ;
       curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
       update_meas_list( head , curr , WF.red ,
-			new_plaq , t , delta_t ,
+			new_plaq , t , delta_tcorr ,
 			err_est , lat ) ;
       head = curr ;
       count++ ;
-- 
2.43.0


From 00ec6dfd963bfd30da0a4e5e5f71c09e87cfe02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:53 +0000
Subject: [PATCH 36/91] fix: failed operations wrote their field as a result
 and exited with success

---
 src/Run/Mainfile.c         | 15 ++++++++-------
 src/Wrappers/GF_wrap.c     |  2 +-
 src/Wrappers/GLUlib_wrap.c | 25 +++++++++++++++++--------
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/Run/Mainfile.c b/src/Run/Mainfile.c
index 6e7303f..f74fc08 100755
--- a/src/Run/Mainfile.c
+++ b/src/Run/Mainfile.c
@@ -60,28 +60,29 @@ main( const int argc ,
   const struct infile_data INFILE = infile_struct ;
 
   // and the options
+  int FLAG = GLU_SUCCESS ;
   switch( INFILE.mode ) {
   case MODE_GF :
-    read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
+    FLAG = read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
 		  argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_CUTS :
-    read_and_cut( argv[ READ ] , INFILE.CUTINFO , INFILE.SMINFO ) ;
+    FLAG = read_and_cut( argv[ READ ] , INFILE.CUTINFO , INFILE.SMINFO ) ;
     break ;
   case MODE_SMEARING :
-    read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
+    FLAG = read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
 		    argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_CROSS_U1 :
-    read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
+    FLAG = read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
 		 argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
     break ;
   case MODE_HEATBATH :
-    heatbath( argv[ READ ] , INFILE.HBINFO , INFILE.storage ,
+    FLAG = heatbath( argv[ READ ] , INFILE.HBINFO , INFILE.storage ,
 	      INFILE.output_details ) ;
     break ;
   default :
-    read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
+    FLAG = read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
 		    INFILE.storage , INFILE.output_details ) ;
     break ;
   }
@@ -89,5 +90,5 @@ main( const int argc ,
   // un-initialise GLU
   unstick_GLU( ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
diff --git a/src/Wrappers/GF_wrap.c b/src/Wrappers/GF_wrap.c
index bcc8850..e8ce2d1 100755
--- a/src/Wrappers/GF_wrap.c
+++ b/src/Wrappers/GF_wrap.c
@@ -195,7 +195,7 @@ GF_wrap( const char *infile ,
   case GLU_COULOMB_FIX :
     return GF_wrap_coulomb( lat , GFINFO ) ;
   case GLU_COULOMB_RESIDUAL_FIX :
-    GF_wrap_coulomb( lat , GFINFO ) ;
+    if( GF_wrap_coulomb( lat , GFINFO ) == GLU_FAILURE ) return GLU_FAILURE ;
     fprintf( stdout , "\n[GF] Residual gauge fixing step \n" ) ;
     residual_fix( lat ) ;
     output_information( lat ) ;
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 4890edd..358499e 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -240,12 +240,13 @@ heatbath( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // heatbath updates
-  hb_update( lat , HBINFO , infile , storage , output_details ) ;
+  const int FLAG = hb_update( lat , HBINFO , infile , storage , 
+			      output_details ) ;
   
   // free the gauge fields
   free_lat( lat ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // checks unitarity and can write out a configuration
@@ -314,10 +315,14 @@ read_and_fix( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  GF_wrap( infile , lat , GFINFO ) ;
+  FLAG = GF_wrap( infile , lat , GFINFO ) ;
 
-  if( (Latt.argc-1) == WRITE ) {
-    FLAG = write_configuration( lat , outfile , storage , output_details ) ;
+  // a field the operation failed on is not a result
+  if( FLAG != GLU_FAILURE ) {
+    FLAG = GLU_SUCCESS ;
+    if( (Latt.argc-1) == WRITE ) {
+      FLAG = write_configuration( lat , outfile , storage , output_details ) ;
+    }
   }
 
   free_lat( lat ) ;
@@ -343,10 +348,14 @@ read_and_smear( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  SM_wrap_struct( lat , SMINFO ) ;
+  FLAG = SM_wrap_struct( lat , SMINFO ) ;
 
-  if( (Latt.argc-1) == WRITE ) {
-    FLAG = write_configuration( lat , outfile , storage , output_details ) ;
+  // a field the operation failed on is not a result
+  if( FLAG != GLU_FAILURE ) {
+    FLAG = GLU_SUCCESS ;
+    if( (Latt.argc-1) == WRITE ) {
+      FLAG = write_configuration( lat , outfile , storage , output_details ) ;
+    }
   }
 
   free_lat( lat ) ;
-- 
2.43.0


From f9196e2ee28ccd3613ca08dff29229b57db6b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:19 +0000
Subject: [PATCH 37/91] fix: exponential of a vanishing or degenerate Q is
 finite

---
 src/Matrix_Ops/expMat.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index a283c29..459e5fd 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -174,9 +174,13 @@ exponentiate( GLU_complex U[ NCNC ] ,
 		      + REQ2 * REQ2 + IMQ2 * IMQ2			\
 		      + REQ5 * REQ5 + IMQ5 * IMQ5 ) / 3. ; 
  
+  // compute the constants c0_max and the root of c1 ...
+  const double rc1 = sqrt( c1 ) ;
+  const double c0_max = 2. * rc1 * c1 ; 
+
   //Iff c0_max < ( smallest representable double) the matrix Q is zero and its
   //exponential is the identity matrix ..
-  if( c1 < DBL_MIN ) {
+  if( c0_max < DBL_MIN ) {
     *( U + 0 ) = 1. ; 
     *( U + 1 ) = 0. ; 
     *( U + 2 ) = 0. ; 
@@ -204,10 +208,8 @@ exponentiate( GLU_complex U[ NCNC ] ,
   const double flag = c0 < 0 ? -1.0 : 1.0 ;
   c0 *= flag ;
  
-  // compute the constants c0_max and the root of c1 ...
-  const double rc1 = sqrt( c1 ) ;
-  const double c0_max = 2. * rc1 * c1 ; 
-  const double theta = acos( c0 / c0_max ) / 3. ;
+  // c0 <= c0_max up to rounding
+  const double theta = c0 < c0_max ? acos( c0 / c0_max ) / 3. : 0.0 ;
 
   // use sincos as it is cheaper
   double s , c ;
@@ -388,9 +390,13 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
 		      + REQ2 * REQ2 + IMQ2 * IMQ2			\
 		      + REQ5 * REQ5 + IMQ5 * IMQ5 ) / 3. ;
   
+  // compute the constants c0_max and the root of c1 ...
+  const double rc1 = sqrt( c1 ) ;
+  const double c0_max = 2. * rc1 * c1 ; 
+
   //  Iff c0_max < ( smallest representable double) the matrix Q is zero and its
   //  exponential is the identity matrix .
-  if( c1 < DBL_MIN ) {
+  if( c0_max < DBL_MIN ) {
     *( U + 0 ) = 1. ; 
     *( U + 1 ) = 0. ; 
     *( U + 2 ) = 0. ; 
@@ -424,10 +430,8 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
   const double flag = c0 < 0 ? -1.0 : 1.0 ;
   c0 *= flag ;
 
-    // compute the constants c0_max and the root of c1 ...
-  const double rc1 = sqrt( c1 ) ;
-  const double c0_max = 2. * rc1 * c1 ; 
-  const double theta = acos( c0 / c0_max ) / 3. ;
+  // c0 <= c0_max up to rounding
+  const double theta = c0 < c0_max ? acos( c0 / c0_max ) / 3. : 0.0 ;
 
   // use sincos as it is cheaper
   double s , c ;
-- 
2.43.0


From 42044c78da941ad3e303fb91f96729373e81aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 38/91] fix: SU(2) exponential and logarithm near the identity

---
 src/Matrix_Ops/effs.c   | 2 +-
 src/Matrix_Ops/exactQ.c | 8 ++++----
 src/Matrix_Ops/expMat.c | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Matrix_Ops/effs.c b/src/Matrix_Ops/effs.c
index 990cc9b..2d2e7c8 100755
--- a/src/Matrix_Ops/effs.c
+++ b/src/Matrix_Ops/effs.c
@@ -95,7 +95,7 @@ f_hermitian_log_suNC( double complex f[ NC ] ,
   f[2] *= denom ;  
 #elif NC == 2
   f[0] = cos( z ) ;
-  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : I * sin( z ) / z ; 
+  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1. - z*z / 6. * ( 1. - z*z / 20. * ( 1. - z*z / 42. ) ) ) : I * sin( z ) / z ; 
 #else
   calculate_effs_VDM_suNC( f , z ) ;
 #endif
diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 54dee52..03bb704 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -193,10 +193,10 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
 #elif NC == 2
   // inlined the two necessary routines ...
   register const double reU0 = (double)creal( U[0] ) ;
-  const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  const double complex z = reU0 + I * sqrt ( reU0 * reU0 < 1.0 ? 1.0 - reU0 * reU0 : 0.0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = creal( z ) ; //cos( herm_z ) ;
-  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z / 6. * ( 1. - herm_z / 20. * ( 1. - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z*herm_z / 6. * ( 1. - herm_z*herm_z / 20. * ( 1. - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
 
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
@@ -291,10 +291,10 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   *( Q + 4 ) = trce * ( con * U[5] - f[2] * conj( U[7] ) ) ; 
 #elif NC == 2
   register const double reU0 = (double)creal( U[0] ) ;
-  const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  const double complex z = reU0 + I * sqrt ( reU0 * reU0 < 1.0 ? 1.0 - reU0 * reU0 : 0.0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = reU0 ; //cos( herm_z ) ;
-  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z / 6. * ( 1 - herm_z / 20. * ( 1 - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1. - herm_z*herm_z / 6. * ( 1. - herm_z*herm_z / 20. * ( 1. - herm_z*herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
   register const double complex oneOf1 = -I / ( f1 ) ;
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index 459e5fd..591ef07 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -278,7 +278,7 @@ exponentiate( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1. - z*z / 6. * ( 1. - z*z / 20. * ( 1. - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * creal( Q[0] ) ;
   const double complex f1Q1 = I * f1 * Q[1] ;
@@ -505,7 +505,7 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1. - z*z / 6. * ( 1. - z*z / 20. * ( 1. - z*z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * Q[0] ;
   const double complex f1Q1 = I * f1 * Q[1] ;
-- 
2.43.0


From 54604f026a1133ebb600de5431f60725649d6378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:47 +0000
Subject: [PATCH 39/91] fix: logarithm of the identity

---
 src/Matrix_Ops/exactQ.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 03bb704..410ee3d 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -143,7 +143,7 @@ AntiHermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   tr /= (GLU_real)NC ;
   for( i = 0 ; i < NC-1 ; i++ ) {
     for( j = i ; j < NC ; j++ ) { 
-      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * cimag( U[ j + NC * i ] ) - tr ;
+      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * ( cimag( U[ j + NC * i ] ) - tr ) ;
       idx++ ;
     }
   }
@@ -166,6 +166,9 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   // logically the log of these gives the hermitian z's
   z[2] = -( z[0] - z[1] ) ; 
   if( ( z[0] == z[1] ) && ( z[1] == z[2] ) ) {
+    // the identity, its log is zero
+    size_t i ;
+    for( i = 0 ; i < NCNC ; i++ ) { Q[i] = 0.0 ; }
     return ;
   }
   f_hermitian_log_suNC( f , z ) ;
@@ -251,6 +254,12 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   // This is now "numerically stable", just as the MP prescription
   // logically the log of these gives the hermitian z's
   z[2] = -( z[0] - z[1] ) ; 
+  if( ( z[0] == z[1] ) && ( z[1] == z[2] ) ) {
+    // the identity, its log is zero
+    size_t i ;
+    for( i = 0 ; i < HERMSIZE ; i++ ) { Q[i] = 0.0 ; }
+    return ;
+  }
   register const double a = 0.5 * creal( z[0] ) ;
   const double u = a ;
   register const double w = creal( z[1] ) + a ;
-- 
2.43.0


From 668dafc09f9447c487bfc3317bdc75e9f3d463ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 40/91] fix: exact logarithms of matrices with nearly
 degenerate eigenvalues

---
 src/Matrix_Ops/exactQ.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 410ee3d..a6e13be 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -28,16 +28,18 @@
 // We have the bindings for Lapacke now
 #ifdef HAVE_LAPACKE_H
   #include <lapacke.h> // we must be careful here
-#else
-// taylor approximation logs are pretty slow
-  #include "taylor_logs.h"
 #endif
+// taylor approximation logs are pretty slow
+#include "taylor_logs.h"
 
 #if (defined HAVE_IMMINTRIN_H) && !(defined SINGLE_PREC)
   #include <immintrin.h>
   #include "SSE2_OPS.h"
 #endif
 
+// eigenvalues this close are considered degenerate by the exact logs
+#define DEGENERATE (1E-6)
+
 // compute eigenvectors from s ,  put into v ,  need eigenvalues z//
 static void 
 vectors( GLU_complex *__restrict v ,
@@ -165,10 +167,10 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   // This is now "numerically stable", just as the MP prescription
   // logically the log of these gives the hermitian z's
   z[2] = -( z[0] - z[1] ) ; 
-  if( ( z[0] == z[1] ) && ( z[1] == z[2] ) ) {
-    // the identity, its log is zero
-    size_t i ;
-    for( i = 0 ; i < NCNC ; i++ ) { Q[i] = 0.0 ; }
+  // the f's divide by the difference of z[0] and the other two, if they are 
+  // (nearly) degenerate we have to use the series
+  if( cabs( ( z[0] - z[1] ) * ( 2. * z[0] + z[1] ) ) < DEGENERATE ) {
+    brute_force_log( Q , U , NC ) ;
     return ;
   }
   f_hermitian_log_suNC( f , z ) ;
@@ -254,10 +256,10 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   // This is now "numerically stable", just as the MP prescription
   // logically the log of these gives the hermitian z's
   z[2] = -( z[0] - z[1] ) ; 
-  if( ( z[0] == z[1] ) && ( z[1] == z[2] ) ) {
-    // the identity, its log is zero
-    size_t i ;
-    for( i = 0 ; i < HERMSIZE ; i++ ) { Q[i] = 0.0 ; }
+  if( cabs( ( z[0] - z[1] ) * ( 2. * z[0] + z[1] ) ) < DEGENERATE ) {
+    GLU_complex QP[ NCNC ] ;
+    brute_force_log( QP , U , NC ) ;
+    pack_hermitian( Q , QP ) ;
     return ;
   }
   register const double a = 0.5 * creal( z[0] ) ;
-- 
2.43.0


From 625dc6a854927d3258fd21910919e9f016b2913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 41/91] fix: topological charge without a four dimensional
 lattice

---
 src/Field/clover.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Field/clover.c b/src/Field/clover.c
index 6cec5a5..5b83ab1 100755
--- a/src/Field/clover.c
+++ b/src/Field/clover.c
@@ -926,6 +926,8 @@ compute_q( GLU_complex q[ NCNC ] ,
   #endif
   // compute the product of G_MUNU_1 with G_MUNU_2
   multab( q , GMUNU_1 , GMUNU_2 ) ;
+#else
+  zero_mat( q ) ;
 #endif
   return ;
 }
@@ -979,6 +981,8 @@ compute_Gmunu_kernel( double *__restrict plaq_t ,
   *plaq_sp = 2.0 * ( (double)NC - (double)trace( sum_1 ) ) ;
   *plaq_t  = 2.0 * ( (double)NC - (double)trace( sum_2 ) ) ;
 #endif
+#else
+  *plaq_t = *plaq_sp = *qtop = 0.0 ;
 #endif
   return ;
 }
-- 
2.43.0


From b2398129f363bb77cd66958989155bf53eac4802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 42/91] fix: Fourier accelerated gauge fixing of a field that
 already satisfies the condition

---
 src/Gfix/CFACG.c | 4 ++++
 src/Gfix/FACG.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index b87add8..bc8977a 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -353,6 +353,10 @@ steep_step_FACG( GLU_complex **gauge ,
   if( *tr < CG_TOL ) {
     beta = insum / inold ;
   }
+  // the derivative vanished, there is no search direction to conjugate
+  if( !( inold > 0.0 ) ) {
+    beta = 0.0 ;
+  }
   inold = insum ;
   
   #pragma omp for private(i)
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 41d0c2c..0c201f6 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -310,6 +310,10 @@ steep_Landau_FACG( struct site *lat ,
   if( *tr < CG_TOL ) {
     beta = insum / inold ;
   }
+  // the derivative vanished, there is no search direction to conjugate
+  if( !( inold > 0.0 ) ) {
+    beta = 0.0 ;
+  }
   inold = insum ;
   
 #pragma omp for private(i)
-- 
2.43.0


From 12c0e8b703ef418c6c76b96044f7726889feac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:39 +0000
Subject: [PATCH 43/91] fix: heat bath and overrelaxation for small or
 vanishing staples

---
 src/Update/SU2_rotate.c     | 12 +++++++++---
 src/Update/SU2_rotate_SSE.c |  5 +++++
 src/Update/hb.c             | 35 ++++++++++++++++++++++++-----------
 3 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/Update/SU2_rotate.c b/src/Update/SU2_rotate.c
index f34f5a8..c42e45a 100644
--- a/src/Update/SU2_rotate.c
+++ b/src/Update/SU2_rotate.c
@@ -120,10 +120,16 @@ only_subgroup( GLU_complex *s0 ,
 #endif
   *s0 = temp0 + conj( temp3 ) ;
   *s1 = temp1 - conj( temp2 ) ;
+  const double norm = 
+    sqrt( creal(*s0)*creal(*s0) + cimag(*s0)*cimag(*s0) +
+	  creal(*s1)*creal(*s1) + cimag(*s1)*cimag(*s1) ) ;
+  // the staple can vanish, in which case every rotation is as good
+  if( norm < DBL_MIN ) {
+    *s0 = 1.0 ; *s1 = 0.0 ; *scale = 1.0 / DBL_MIN ;
+    return ;
+  }
   // pass the inverse determinant
-  *scale =								\
-    1.0 / sqrt( creal(*s0)*creal(*s0) + cimag(*s0)*cimag(*s0) +		\
-		creal(*s1)*creal(*s1) + cimag(*s1)*cimag(*s1) ) ;
+  *scale = 1.0 / norm ;
   *s0 *= (*scale) ;
   *s1 *= (*scale) ;
   return ;
diff --git a/src/Update/SU2_rotate_SSE.c b/src/Update/SU2_rotate_SSE.c
index 57cd7f2..aca58b2 100644
--- a/src/Update/SU2_rotate_SSE.c
+++ b/src/Update/SU2_rotate_SSE.c
@@ -204,6 +204,11 @@ only_subgroup( GLU_complex *s0 ,
   register __m128d z = SSE2_FMA( sm0 , sm0 , _mm_mul_pd( sm1 , sm1 ) ) ; 
   z = _mm_add_pd( z , _mm_shuffle_pd( z , z , 1 ) ) ;
   z = _mm_sqrt_pd( z ) ;
+  // the staple can vanish, in which case every rotation is as good
+  if( _mm_cvtsd_f64( z ) < DBL_MIN ) {
+    *s0 = 1.0 ; *s1 = 0.0 ; *scale = 1.0 / DBL_MIN ;
+    return ;
+  }
   z = _mm_div_pd( _mm_set1_pd( 1.0 ) , z ) ;
   sm0 = _mm_mul_pd( sm0 , z ) ;
   sm1 = _mm_mul_pd( sm1 , z ) ;
diff --git a/src/Update/hb.c b/src/Update/hb.c
index 7336315..419c2d0 100644
--- a/src/Update/hb.c
+++ b/src/Update/hb.c
@@ -58,7 +58,8 @@ KP( double *__restrict d ,
   *d = -( log( par_rng_dbl( thread ) ) + log( par_rng_dbl( thread ) ) * x3*x3 ) * NORM ;
   return ( 1. - 0.5*(*d) ) < x4*x4 ;
 }
-#else
+#endif
+
 // Creutz heatbath algorithm
 static int
 Creutz( double *__restrict d ,
@@ -72,7 +73,22 @@ Creutz( double *__restrict d ,
   *d = 1.0 - a0 ;
   return ( 1.0 - a0*a0 ) < x4*x4 ;
 }
-#endif
+
+// draw (1-a0) by Creutz's algorithm
+static void
+draw_Creutz( double *__restrict d ,
+	     const double NORM ,
+	     const uint32_t thread )
+{
+  // the log is flat for (very) large NORM, do not lose all the digits
+  const double N = NORM < 1E8 ? NORM : 1E8 ;
+  const double xl = exp( -2./N ) ; 
+  size_t iters = 1 ;
+  while( Creutz( d , xl , N , thread ) && iters < NHBMAX ) {
+    iters++ ;
+  }
+  return ;
+}
 
 // generate SU(2) matrix proportional to boltzmann weight
 static int
@@ -82,24 +98,21 @@ generate_SU2( GLU_complex *s0 ,
 	      const int thread )
 {
   double d = 0.0 ;
-  size_t iters = 1 ;
 
   // compute d which is (1-a0) = the leftmost su2 matrix element
 #ifdef USE_KP
-  if( KP( &d ,  NORM , thread ) ) {
+  // Kennedy-Pendleton hardly ever accepts at strong coupling
+  if( NORM > 1.0 ) {
+    draw_Creutz( &d , NORM , thread ) ;
+  } else if( KP( &d ,  NORM , thread ) ) {
     // redo the algorithm
+    size_t iters = 1 ;
     while( KP( &d , NORM , thread ) && iters < NHBMAX ) {
       iters++ ;
     }
   }
 #else
-  const double xl = exp( -2./NORM ) ; 
-  if( Creutz( &d , xl , NORM , thread ) ) {
-    // redo the algorithm
-    while( Creutz( &d , xl , NORM , thread ) && iters < NHBMAX ) {
-      iters++ ;
-    }
-  }
+  draw_Creutz( &d , NORM , thread ) ;
 #endif
   
   // generate SU(2) matrix
-- 
2.43.0


From 6450ffbda353e747e437cc0b9d94a0a9744d3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 44/91] fix: tenth moment of the charge was divided by 362800
 instead of 10!

---
 src/Field/Qmoments.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index d222d3b..88afacf 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -84,7 +84,7 @@ Time_Moments( double *Moment ,
   
   // factorials
   const double fac[ NQMOMENTS ] = { 1 , 1 , 2 , 6 , 24 , 120 , 720 ,
-				    5040 , 40320 , 362880 , 362800 ,
+				    5040 , 40320 , 362880 , 3628800 ,
 				    39916800 } ;
   const int LT = (int)Latt.dims[ DIR ] ;
   size_t dims[ ND ] ;
-- 
2.43.0


From 09b1aee9856ff8b643b547db4049b2d876553a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:51 +0000
Subject: [PATCH 45/91] fix: moments of the charge left out two slices of an
 odd extent

---
 src/Field/Qmoments.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index 88afacf..c176f53 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -121,7 +121,8 @@ Time_Moments( double *Moment ,
   // loop increasing powers of moments of Q
   for( n = 0 ; n < NQMOMENTS ; n++ ) {
     double sum = 0.0 ;
-    for( t = -LT/2+1 ; t < LT/2 ; t++ ) {
+    // symmetric about zero, an even extent leaves out its antipodal slice
+    for( t = -(LT-1)/2 ; t <= (LT-1)/2 ; t++ ) {
       const int posit = ( t + LT ) % LT ;
       sum += tpow[ posit ] * creal( Qt[ posit ] ) ;
       tpow[ posit ] *= t ;
-- 
2.43.0


From 86ba0056a4d4844625e97955bf8d1a89e15524fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:58 +0000
Subject: [PATCH 46/91] fix: powers of the slice index overflowed for extents
 above 16

---
 src/Field/Qmoments.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index c176f53..9cd84d7 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -113,7 +113,7 @@ Time_Moments( double *Moment ,
   }
 
   // initialise powers of t to t^0
-  int *tpow = malloc( Latt.dims[ DIR ] * sizeof( int ) ) ;
+  double *tpow = malloc( Latt.dims[ DIR ] * sizeof( double ) ) ;
   for( t = 0 ; t < (int)LT ; t++ ) {
     tpow[ t ] = 1 ;
   }
-- 
2.43.0


From 2dc1f48a85d87bb32f7b9aa08be38a7307aaec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 47/91] fix: temporal charge correlator without FFTW was the
 charge density

---
 src/Field/Qcorr.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index f858a70..65662df 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -120,6 +120,7 @@ compute_Qcorr( struct site *__restrict lat ,
 #ifndef HAVE_FFTW3_H
   FFTW.in = FFTW.out = FFTW.psq = NULL ;
   FFTW.in = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
+  FFTW.out = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
 #else
   small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
 #endif
@@ -131,7 +132,7 @@ compute_Qcorr( struct site *__restrict lat ,
   // logic to fail
   if( list == NULL ) goto memfree ;
   if( qcorr == NULL ) goto memfree ;
-  if( FFTW.in == NULL ) goto memfree ;
+  if( FFTW.in == NULL || FFTW.out == NULL ) goto memfree ;
 
   // precompute all of charge densities q(x)
   compute_Gmunu_array( FFTW.in , lat ) ;
@@ -174,14 +175,14 @@ compute_Qcorr( struct site *__restrict lat ,
   // above it probably shouldn't be used unless under duress
 #else
 
-  // loop the possible rsqs
+  // loop all of the separations, the temporal correlator needs them too
   #pragma omp parallel for private(i)
-  for( i = 0 ; i < size[0] ; i++ ) {
+  for( i = 0 ; i < LVOLUME ; i++ ) {
     // some storage for the traces
     register double sumqq = 0.0 ;
 
     int separation[ ND ] ;
-    get_mom_2piBZ( separation , list[i].idx , ND ) ;
+    get_mom_2piBZ( separation , i , ND ) ;
 
     // loop the lattice varying source and sink with the correct separation
     size_t source = 0 ;
@@ -191,7 +192,19 @@ compute_Qcorr( struct site *__restrict lat ,
       //trace of the products
       sumqq += creal( FFTW.in[source] * FFTW.in[sink] ) ;
     }
-    qcorr[i] = sumqq * NORMSQ ;
+    FFTW.out[i] = sumqq * NORMSQ ;
+  }
+
+  // the correlator is used in place of the charge density from here
+  #pragma omp parallel for private(i)
+  for( i = 0 ; i < LVOLUME ; i++ ) {
+    FFTW.in[i] = FFTW.out[i] ;
+  }
+
+  // and the ones in our list
+  #pragma omp parallel for private(i)
+  for( i = 0 ; i < size[0] ; i++ ) {
+    qcorr[i] = (double)creal( FFTW.in[ list[i].idx ] ) ;
   }
 #endif
 
@@ -220,6 +233,7 @@ compute_Qcorr( struct site *__restrict lat ,
   small_clean_up_fftw( FFTW ) ;
 #else
   free( FFTW.in ) ;
+  free( FFTW.out ) ;
 #endif
   
   // free the list
-- 
2.43.0


From 179bf4f351eb17d6d2ad833caf1e861f094ab66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:30 +0000
Subject: [PATCH 48/91] fix: slab correlator leaked its work array

---
 src/Field/Qslab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index 25eb2ae..3a32dd5 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -189,6 +189,7 @@ compute_slabs( const GLU_complex *qtop ,
 
   // free allocated memory
   free( str ) ;
+  free( ct ) ;
   fclose( Ap ) ;
 
   return GLU_SUCCESS ;
-- 
2.43.0


From c69c37d3fc0faa813e842345fa57379295cedd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 49/91] fix: largest link trace was never below zero

---
 src/Field/plaqs_links.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index bbb0d65..aed8418 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -424,7 +424,7 @@ double
 indivlinks( const struct site *__restrict lat , GLU_real *max )
 {
   double link = 0.0 ;
-  *max = 0.0 ;
+  *max = -(GLU_real)NC ; // the smallest trace there can be
   size_t i ; 
 
   for( i = 0 ; i < LVOLUME ; i++ ) {
-- 
2.43.0


From 2fffa02311a57a41039db130894cc37ce41664a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:54 +0000
Subject: [PATCH 50/91] fix: printed Polyakov loops were divided by the
 perpendicular volume twice

---
 src/Wrappers/OBS_wrap.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/Wrappers/OBS_wrap.c b/src/Wrappers/OBS_wrap.c
index 94247ae..16ee2b9 100755
--- a/src/Wrappers/OBS_wrap.c
+++ b/src/Wrappers/OBS_wrap.c
@@ -213,13 +213,8 @@ gauge( const struct site *__restrict lat )
 #if !(defined OBC_HACK)
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    // compute correct denominator
-    size_t denom = 1 , nu ;
-    for( nu = 0 ; nu < ND ; nu++ ) {
-      denom *= ( nu != mu ) ? Latt.dims[nu] : 1 ;
-    }
-    // average
-    const double DENOM = 1.0 / ( ( double )NC * denom ) ;
+    // poly() has averaged over the perpendicular volume already
+    const double DENOM = 1.0 / (double)NC ;
     double complex R = poly( lat , mu ) ;
     fprintf( stdout , "[POLY SU(%d) DIR_%zu] ( %e , %e ) , MODULUS :: %e \n" ,
 	    NC , mu , creal( R ) * DENOM , cimag( R ) * DENOM , 
-- 
2.43.0


From 0d3c100b29eafc376d2ed5eb4e1350aaf03e6e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:11 +0000
Subject: [PATCH 51/91] fix: static potential without FFTW lacked a conjugation

---
 src/Field/POLY.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index b176010..c31bf76 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -287,14 +287,14 @@ static_quark_correlator( double complex *result ,
 	const size_t source = k + LCU * t ;
 	const size_t sink   = translate + LCU * t ;
 	
-	// trace of the product
-	trace_ab_dag( &res , poly[source] , poly[sink] ) ;
+	// trace of the product, as the FFTW version r = sink - source
+	trace_ab_dag( &res , poly[sink] , poly[source] ) ;
 	tr += res ;
 	
 	// and the trace-trace
 	const GLU_complex tr1 = trace( poly[source] ) ;
 	const GLU_complex tr2 = trace( poly[sink] ) ;
-	tracetrace += tr1 * tr2 ;
+	tracetrace += tr2 * conj( tr1 ) ;
       }
     }
     result[i] = tr * NORM ;
-- 
2.43.0


From 36d3467f3569ba605da05d4db38f7dcb00c5d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 52/91] fix: cylinder cut projects onto the body diagonal in
 any dimension

---
 src/Cuts/cut_routines.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Cuts/cut_routines.c b/src/Cuts/cut_routines.c
index 8497415..90d67ad 100755
--- a/src/Cuts/cut_routines.c
+++ b/src/Cuts/cut_routines.c
@@ -194,7 +194,8 @@ cylinder_DF( const GLU_real q[ ND ] ,
 	     const double cyl_width )
 {
   // test that this satisfies the correct cylinder cutting procedure
-  const GLU_real norm = 1. / ( 2. * sqrt( DIMS ) ) ;
+  // the squared length of the diagonal is DIMS
+  const GLU_real norm = 1. / (GLU_real)DIMS ;
   const int diagonals = 2 << ( ND - 1 ) ;
  
   // generix for loop over the diagonals
-- 
2.43.0


From ed51034b632bfd88166872520fb82f2be29a40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:40 +0000
Subject: [PATCH 53/91] fix: conical cut keeps vectors that lie on the diagonal

---
 src/Cuts/cut_routines.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Cuts/cut_routines.c b/src/Cuts/cut_routines.c
index 90d67ad..3f3c38a 100755
--- a/src/Cuts/cut_routines.c
+++ b/src/Cuts/cut_routines.c
@@ -285,7 +285,8 @@ cylinder_CJD( const GLU_real q[ ND ] ,
     }
 
     // the angle theta is 
-    const GLU_real theta = acos( scalar_prod ) ;
+    // rounding can take this slightly past unity
+    const GLU_real theta = acos( scalar_prod > 1.0 ? 1.0 : ( scalar_prod < -1.0 ? -1.0 : scalar_prod ) ) ;
     const GLU_real delta_q = sin( theta ) / qnorm ;
 
     if( ( delta_q <= cyl_width ) && ( theta <= ang( arc ) ) ) {
-- 
2.43.0


From 7120c67567187288a64629a40fb146b731ef6999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:46 +0000
Subject: [PATCH 54/91] fix: stored vector lists that are missing or incomplete
 are computed

---
 src/Cuts/cut_routines.c | 75 ++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 46 deletions(-)

diff --git a/src/Cuts/cut_routines.c b/src/Cuts/cut_routines.c
index 3f3c38a..35d7bf2 100755
--- a/src/Cuts/cut_routines.c
+++ b/src/Cuts/cut_routines.c
@@ -503,7 +503,6 @@ compute_veclist( size_t *__restrict list_size ,
 
   // if we can, we look for a file
 #ifndef CONDOR_MODE
-  int flag = MOMENTUM_CONFIG ;
   char *str = malloc( (1+strlen(HAVE_PREFIX))*sizeof(char) ) , tmp[ 64 ] ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
   append_char( &str , "/Local/Moments/" ) ;
@@ -533,23 +532,28 @@ compute_veclist( size_t *__restrict list_size ,
     #endif
   }
 
-  // open the configuration file
+  // look for a stored list, one that is incomplete is computed again
+  int flag = NO_MOMENTUM_CONFIG , stored = 0 ;
   FILE *config = fopen( str , "rb" ) ;
-
-  // force it to open ->create a file if needed
-  if( config == NULL ) {
-    flag = NO_MOMENTUM_CONFIG ;
-  } else {
-    fclose( config ) ; 
+  if( config != NULL ) {
+    if( fread( &stored , sizeof(int) , 1 , config ) == 1 &&
+	stored > 0 && (size_t)stored <= LOOP ) {
+      in[0] = (size_t)stored ;
+      list = malloc( in[0] * sizeof( struct veclist ) ) ;
+      if( list != NULL &&
+	  fread( list , sizeof( struct veclist ) , in[0] , config ) == in[0] ) {
+	flag = MOMENTUM_CONFIG ;
+      } else {
+	free( list ) ;
+	list = NULL ;
+      }
+    }
+    fclose( config ) ;
   }
 
-  // if we can't find the file we create one ...
+  // if we can't find a complete one we compute it ...
   if( flag == NO_MOMENTUM_CONFIG ) {
 
-    fprintf( stdout , "[CUTS] Storing Momentum list @@@ ...\n%s\n" , str ) ;
-
-    FILE *config2 = fopen( str , "wb" ) ;
-
     struct veclist *kept = malloc( LOOP * sizeof( struct veclist ) ) ;
     if( CONFIGSPACE == GLU_TRUE ) {
       in[0] = get_veclist( kept , CUTINFO , LOOP , DIMS ) ;
@@ -566,47 +570,26 @@ compute_veclist( size_t *__restrict list_size ,
       return NULL ;
     }
 
-    // write out the length of the array first
-    fwrite( in , sizeof(int) , 1 , config2 ) ;
-     
     list = malloc( in[0] * sizeof( struct veclist) ) ;
     #pragma omp parallel for private(i)
     for( i = 0 ; i < in[0] ; i ++  ) {
       memcpy( &list[i] , &kept[i] , sizeof( struct veclist ) )  ;
     }
+    free( kept ) ;
 
-    // and write it out again
-    fwrite( list , sizeof( struct veclist ) , in[0]  , config2 ) ;
-    fclose( config2 ) ;
-
-    free( kept ) ; 
-  }
-  // reopen the file
-  config = fopen( str , "rb" ) ;
-  // malloc list if not already done so
-  int check = fread( in , sizeof(int) , 1 , config ) ;
-  if( check != 1 ) {
-    fprintf( stderr , "[CUTS] cut file cannot be read\n" ) ;
-    fclose( config ) ;
-    *list_size = 0 ;
-    free( list ) ;
-    free( str ) ;
-    return NULL ;
-  }
-  if( flag != NO_MOMENTUM_CONFIG ) {
-    list = ( struct veclist* )malloc( in[0] * sizeof( struct veclist ) ) ;
-  }
-  check = fread( list , sizeof(struct veclist) , in[0] , config ) ;
-  if( check == 0 ) {
-    fprintf( stderr , "[CUTS] Empty Momentum list ... Leaving\n" ) ;
-    fclose( config ) ;
-    *list_size = 0 ;
-    free( list ) ;
-    free( str ) ;
-    return NULL ;
+    // and store it if we can, the length of the array goes first
+    FILE *config2 = fopen( str , "wb" ) ;
+    if( config2 == NULL ) {
+      fprintf( stderr , "[CUTS] Cannot store the list in %s\n" , str ) ;
+    } else {
+      fprintf( stdout , "[CUTS] Storing Momentum list @@@ ...\n%s\n" , str ) ;
+      stored = (int)in[0] ;
+      fwrite( &stored , sizeof(int) , 1 , config2 ) ;
+      fwrite( list , sizeof( struct veclist ) , in[0]  , config2 ) ;
+      fclose( config2 ) ;
+    }
   }
   free( str ) ;
-  fclose( config ) ;
 #else
   struct veclist *kept = malloc( LOOP * sizeof( struct veclist ) ) ;
   if( CONFIGSPACE == GLU_TRUE ) {
-- 
2.43.0


From f7b2432160ada779624734096b872629fcd1afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:53 +0000
Subject: [PATCH 55/91] fix: stored triplet lists that are missing or
 incomplete are computed

---
 src/Cuts/triplet_gen.c | 122 +++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 66 deletions(-)

diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index fe9c3c3..82325c8 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -485,17 +485,21 @@ read_trip( int *__restrict trip ,
   const size_t nn = ( nnmax + 1 ) / 2 ;
   char *str = malloc( (1+strlen(HAVE_PREFIX))*sizeof(char)) , tmp[ 64 ] ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
-  sprintf( tmp , "/Local/Moments/TRIP_%zu.config" , nnmax ) ;
+  append_char( &str , "/Local/Moments/TRIP_" ) ;
+  size_t mu ;
+  for( mu = 0 ; mu < ND-1 ; mu++ ) {
+    sprintf( tmp , "%zux" , Latt.dims[mu] ) ;
+    append_char( &str , tmp ) ;
+  }
+  sprintf( tmp , "%zu_%zu.config" , Latt.dims[mu] , nnmax ) ;
   append_char( &str , tmp ) ;
-  
-  FILE *tripfile = fopen( str , "rb" ) ;
-  int flag = 0 ;
 
-  //force it to open ->create a file if needed
-  if( tripfile == NULL ) {
-    flag = 1 ;
-  } else {
-    fclose( tripfile ) ; 
+  // read the stored list if there is a complete one
+  int flag = 1 ;
+  FILE *tripfile = fopen( str , "rb" ) ;
+  if( tripfile != NULL ) {
+    if( fread( trip , sizeof( int ) , nn , tripfile ) == nn ) flag = 0 ;
+    fclose( tripfile ) ;
   }
   // calculate and write out to a file
   if( flag == 1 ) {
@@ -503,16 +507,16 @@ read_trip( int *__restrict trip ,
     // get the triplet
     get_trip( trip , nnmax ) ;
 
-    fprintf( stdout , "[CUTS] Storing Trip list @@@ ...\n%s\n",str) ;
-    // write to a file 
-    FILE *tripfile2 = fopen( str , "wb" ) ;
-    fwrite( trip , sizeof(int) , nn , tripfile2 ) ;
-    fclose( tripfile2 ) ;
+    // write to a file
+    tripfile = fopen( str , "wb" ) ;
+    if( tripfile == NULL ) {
+      fprintf( stderr , "[CUTS] Cannot store the list in %s\n" , str ) ;
+    } else {
+      fprintf( stdout , "[CUTS] Storing Trip list @@@ ...\n%s\n",str) ;
+      fwrite( trip , sizeof(int) , nn , tripfile ) ;
+      fclose( tripfile ) ;
+    }
   }
-  // otherwise we read it in ...
-  tripfile = fopen( str , "rb" ) ;
-  if( fread( trip , sizeof( int ) , nn , tripfile ) != nn ) return GLU_FAILURE ; 
-  fclose( tripfile) ;
   free( str ) ;
 
 #else
@@ -553,70 +557,56 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
   sprintf( tmp , "%zu_%zu.config" , Latt.dims[mu] , nnmax ) ;
   append_char( &str , tmp ) ;
 
+  // read the triplet and the projector if there is a complete file, the
+  // projector is directly beneath the triplet-idxs
   FILE *config = fopen( str , "rb" ) ;
-  //force it to open ->create a file if needed
   if( config == NULL ) {
     flag = 1 ;
   } else {
-    fclose( config ) ; 
+    for( i = 0 ; i < count && flag == 0 ; i++ ) {
+      if( fread( triplet[i] , sizeof( int ) , 3 , config ) != 3 ) {
+	flag = 1 ;
+      }
+    }
+    for( i = 0 ; i < count && flag == 0 ; i++ ) {
+      if( fread( proj[i] , sizeof( double ) , ND * ND * ND , config )
+	  != ND * ND * ND ) {
+	flag = 1 ;
+      }
+    }
+    fclose( config ) ;
   }
 
-  // create a file
+  // otherwise compute them and create the file
   if( flag == 1 ) {
     init_delta( ) ;
-    // open a temporary file
-    FILE *config2 = fopen( str , "wb" ) ;
-
-    fprintf( stdout , "[CUTS] Storing Triplet and Proj list @@@ ...\n%s\n" ,
-	     str ) ;
-
-    // allocate our triplet 
-    int **triple = ( int **)malloc( count * sizeof( int* ) ) ;
-    #pragma omp parallel for private(i)
-    for( i = 0 ; i < count ; i++ ) {
-      triple[i] = (int*)malloc( 3 *  sizeof (int ) ) ;
-    }
     fprintf( stdout , "[CUTS] Precomputing triplet \n" ) ;
     // compute the triplet in the stupidest manner possible
-    get_triplet( triple , momentum , nnmax , nmom ) ;
-    // write out "triple" our triplet
-    for( i = 0 ; i < count ; i++ ) {
-      fwrite( triple[i] , sizeof(int) , 3 , config2 ) ;
+    if( get_triplet( triplet , momentum , nnmax , nmom ) == GLU_FAILURE ) {
+      free_delta( ) ;
+      free( str ) ;
+      return GLU_FAILURE ;
     }
     fprintf( stdout , "[CUTS] Computing projector ... \n" ) ;
-    // compute our projector 
-    compute_projector( triple , proj , momentum , count ) ;
-    // I want to write the projector here too
-    for( i = 0 ; i < count ; i++ ) {
-      fwrite( proj[i] , sizeof( double ) , ND * ND * ND , config2 ) ;
-    }
-    // close the temporary file
-    fclose( config2 ) ;
+    // compute our projector
+    compute_projector( triplet , proj , momentum , count ) ;
     free_delta( ) ;
-    // free the temporary triplet "triple"
-    #pragma omp parallel for private(i)
-    for( i = 0 ; i < count ; i++ ) {
-      free( triple[i] ) ;
-    }
-    free( triple ) ; 
-  }
 
-  // (re)open the file to read the triplet and the projector 
-  config = fopen( str , "rb" ) ;
-  for( i = 0 ; i < count ; i++ ) {
-    if( fread( triplet[i] , sizeof( int ) , 3 , config ) != 3 ) { 
-      return GLU_FAILURE ; 
-    }
-  }
-  // read in the projector too, is directly beneath the triplet-idxs
-  for( i = 0 ; i < count ; i++ ) {
-    if( fread( proj[i] , sizeof( double ) , ND * ND * ND , config )
-	!= ND * ND * ND ) {
-      return GLU_FAILURE ; 
+    config = fopen( str , "wb" ) ;
+    if( config == NULL ) {
+      fprintf( stderr , "[CUTS] Cannot store the list in %s\n" , str ) ;
+    } else {
+      fprintf( stdout , "[CUTS] Storing Triplet and Proj list @@@ ...\n%s\n" ,
+	       str ) ;
+      for( i = 0 ; i < count ; i++ ) {
+	fwrite( triplet[i] , sizeof(int) , 3 , config ) ;
+      }
+      for( i = 0 ; i < count ; i++ ) {
+	fwrite( proj[i] , sizeof( double ) , ND * ND * ND , config ) ;
+      }
+      fclose( config ) ;
     }
   }
-  // and close the file 
-  fclose( config ) ;
   free( str ) ;
 #else
   // initialise the delta
-- 
2.43.0


From 94997b5f82d0bd821f8c215a133d0f6c4049243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:04 +0000
Subject: [PATCH 56/91] fix: SU(2) plaquette trace without SSE

---
 src/Field/plaqs_links.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index aed8418..69cc5e5 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -190,7 +190,7 @@ complete_plaquette( const GLU_complex *__restrict a ,
   tr += (double)creal( ( tra3 * conj(c[0]) + tra4 * conj(c[1]))*conj(d[2]) ) ;
   tr += (double)creal( ( tra3 * conj(c[2]) + tra4 * conj(c[3]))*conj(d[3]) ) ;
 
-  return tra + trb ;
+  return tr ;
   
   #endif
 #else
-- 
2.43.0


From 60a5924953f237352a89aad59401cd2195329df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 57/91] fix: plain-C product of two daggered matrices for large
 NC

---
 src/Matrix_Ops/MMUL/MMULdagdag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/MMUL/MMULdagdag.c b/src/Matrix_Ops/MMUL/MMULdagdag.c
index 5cd8171..b53af30 100755
--- a/src/Matrix_Ops/MMUL/MMULdagdag.c
+++ b/src/Matrix_Ops/MMUL/MMULdagdag.c
@@ -63,7 +63,7 @@ multab_dagdag( GLU_complex a[ NCNC ] ,
 	sumi += REB * IMC + IMB * REC ;
 	pB += NC ;
       }
-      a[ j + NC*i ] = sumr + I * sumi ;
+      a[ j + NC*i ] = sumr - I * sumi ;
       pC += NC ;
     }
   }
-- 
2.43.0


From 8abec9b12bf20c4d88761ade275964eb2bdd0ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:16 +0000
Subject: [PATCH 58/91] fix: SU(3) matrix times vector

---
 src/Matrix_Ops/U_Nops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/U_Nops.c b/src/Matrix_Ops/U_Nops.c
index 6d3a881..9e67b50 100755
--- a/src/Matrix_Ops/U_Nops.c
+++ b/src/Matrix_Ops/U_Nops.c
@@ -414,7 +414,7 @@ mat_mult_vec( GLU_complex vect[ NC ] ,
 {
 #if NC == 3
   vect[0] = S[0] * v[0] + S[1] * v[1] + S[2] * v[2] ; 
-  vect[1] = S[3] * v[0] + S[4] * v[1] + S[6] * v[2] ; 
+  vect[1] = S[3] * v[0] + S[4] * v[1] + S[5] * v[2] ; 
   vect[2] = S[6] * v[0] + S[7] * v[1] + S[8] * v[2] ; 
 #elif NC == 2
   vect[0] = S[ 0 ] * v[ 0 ] + S[ 1 ] * v[ 1 ] ;
-- 
2.43.0


From 8e9a7d08f80179174613096dc7ea86ca9179be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:23 +0000
Subject: [PATCH 59/91] fix: matrix inversion pivots and reports singular
 matrices

---
 src/Matrix_Ops/invert.c      | 17 +++++++++++++++--
 src/Matrix_Ops/invert_SSE.c  | 19 ++++++++++++++++---
 src/Matrix_Ops/taylor_logs.c | 16 ++++++++++++----
 3 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/Matrix_Ops/invert.c b/src/Matrix_Ops/invert.c
index a1e8c38..8cd85d4 100755
--- a/src/Matrix_Ops/invert.c
+++ b/src/Matrix_Ops/invert.c
@@ -160,12 +160,21 @@ gauss_jordan( GLU_complex M_1[ NCNC ] ,
     }
     #endif
 
+    // nothing left in this column to divide by
+    if( creal( a[ piv_idx ] ) == 0.0 && cimag( a[ piv_idx ] ) == 0.0 ) {
+      return GLU_FAILURE ;
+    }
+
     // perform gaussian elimination to obtain the upper triangular
     for( j = NC-1 ; j > i ; j-- ) { // go up in other columns
       eliminate_column( a , ainv , i , j ) ;
     }
   }
 
+  if( creal( a[ NCNC-1 ] ) == 0.0 && cimag( a[ NCNC-1 ] ) == 0.0 ) {
+    return GLU_FAILURE ;
+  }
+
   // a is upper triangular, do the same for the upper half
   // no pivoting to be done here
   for( i = NC-1 ; i > 0 ; i-- ) {
@@ -241,8 +250,12 @@ inverse( GLU_complex M_1[ NCNC ] ,
   return GLU_SUCCESS ;
 #else
   #if NC == 2 
-  // use the identity, should warn for singular matrices
-  const double complex INV_detM = 1.0 / ( det( M ) ) ;
+  // use the identity, singular matrices do not have an inverse
+  const double complex detM = det( M ) ;
+  if( creal( detM ) == 0.0 && cimag( detM ) == 0.0 ) {
+    return GLU_FAILURE ;
+  }
+  const double complex INV_detM = 1.0 / detM ;
   M_1[ 0 ] =  M[ 3 ] * INV_detM ;
   M_1[ 1 ] = -M[ 1 ] * INV_detM ;
   M_1[ 2 ] = -M[ 2 ] * INV_detM ;
diff --git a/src/Matrix_Ops/invert_SSE.c b/src/Matrix_Ops/invert_SSE.c
index f63b7e3..e8945e4 100644
--- a/src/Matrix_Ops/invert_SSE.c
+++ b/src/Matrix_Ops/invert_SSE.c
@@ -118,7 +118,7 @@ gauss_jordan( GLU_complex M_1[ NCNC ] ,
     piv = i ;
     best = absfac( *( pA + i*(NC+1) ) ) ;
     for( j = i+1 ; j < NC ; j++ ) {
-       attempt = absfac( *( pB + i + j*NC ) ) ;
+      attempt = absfac( *( pA + i + j*NC ) ) ;
       if( _mm_ucomilt_sd( best , attempt ) ) { 
 	piv = j ; 
 	best = attempt ; 
@@ -129,6 +129,11 @@ gauss_jordan( GLU_complex M_1[ NCNC ] ,
     if( piv != i ) {
       swap_rows( pA , pB , piv , i ) ;
     }
+
+    // nothing left in this column to divide by
+    if( _mm_cvtsd_f64( best ) == 0.0 ) {
+      return GLU_FAILURE ;
+    }
   
     // perform gaussian elimination to obtain the upper triangular
     fac = _mm_div_pd( SSE2_CONJ( *( pA + i*(NC+1) ) ) , best ) ;
@@ -137,6 +142,10 @@ gauss_jordan( GLU_complex M_1[ NCNC ] ,
     }
   }
 
+  if( _mm_cvtsd_f64( absfac( *( pA + NCNC - 1 ) ) ) == 0.0 ) {
+    return GLU_FAILURE ;
+  }
+
   // a is upper triangular, do the same for the upper half
   // no pivoting to be done here
   for( i = NC-1 ; i > 0 ; i-- ) {
@@ -190,8 +199,12 @@ inverse( GLU_complex M_1[ NCNC ] ,
   return GLU_SUCCESS ;
 #else
   #if NC == 2 
-  // use the identity, should warn for singular matrices
-  const double complex INV_detM = 1.0 / ( det( M ) ) ;
+  // use the identity, singular matrices do not have an inverse
+  const double complex detM = det( M ) ;
+  if( creal( detM ) == 0.0 && cimag( detM ) == 0.0 ) {
+    return GLU_FAILURE ;
+  }
+  const double complex INV_detM = 1.0 / detM ;
   M_1[ 0 ] =  M[ 3 ] * INV_detM ;
   M_1[ 1 ] = -M[ 1 ] * INV_detM ;
   M_1[ 2 ] = -M[ 2 ] * INV_detM ;
diff --git a/src/Matrix_Ops/taylor_logs.c b/src/Matrix_Ops/taylor_logs.c
index 789d910..29ac90d 100755
--- a/src/Matrix_Ops/taylor_logs.c
+++ b/src/Matrix_Ops/taylor_logs.c
@@ -57,7 +57,9 @@ denman_rootY( GLU_complex Y[ NCNC ] )
   while( tol > PREC_TOL && iters < 25 ) { // aggressive
 
     // invert M into INVM
-    inverse( INVM , M ) ;
+    if( inverse( INVM , M ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
 
     // M^-1 -> ( 1 + M^-1 ) :: M -> 1 + M
     for( i = 0 ; i < NC ; i++ ) {
@@ -111,7 +113,9 @@ denman_rootZ( GLU_complex *__restrict Z )
   while( tol > PREC_TOL && iters < 25 ) {
 
     // invert M into INVM
-    inverse( INVM , M ) ;
+    if( inverse( INVM , M ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
 
     // add the identity
     for( i = 0 ; i < NC ; i++ ) {
@@ -208,7 +212,9 @@ log_asinh( GLU_complex *__restrict Q ,
   for( i = 0 ; i < NC ; i++ ) {
     denominator[i*(NC+1)] += 1.0 ;
   }
-  inverse( y , denominator ) ;
+  if( inverse( y , denominator ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   multab_atomic_right( numerator , y ) ;
 
@@ -347,7 +353,9 @@ brute_force_log( GLU_complex *Q ,
     }
   }
   // invert x + 1
-  inverse( Q , y ) ;
+  if( inverse( Q , y ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   // recall :: y is the n^th square root of U + I
   //        :: yy is the n^th square root of U - I
-- 
2.43.0


From daf403da4cac213eab0120c9237439d0e77de81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:29 +0000
Subject: [PATCH 60/91] fix: diagonal generators for large NC

---
 src/Matrix_Ops/lie_mats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/lie_mats.c b/src/Matrix_Ops/lie_mats.c
index b344bea..5417a44 100755
--- a/src/Matrix_Ops/lie_mats.c
+++ b/src/Matrix_Ops/lie_mats.c
@@ -417,7 +417,7 @@ init_generators( void )
     for( i = 0 ; i < subblock-1 ; i++ ) {
       lambda[idx][ mat_idx(i,i) ] = fact ;
     }
-    lambda[idx][ mat_idx(i,i) ] = fact * ( -i ) ;
+    lambda[idx][ mat_idx(i,i) ] = -fact * (GLU_real)i ;
     idx++ ;
     // increment the size of the block matrix we are in
     subblock ++ ;
-- 
2.43.0


From 22e38d4420a27441f26c579ed85261fa72c42510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:35 +0000
Subject: [PATCH 61/91] fix: SU(2) eigenvalues close to the identity

---
 src/Matrix_Ops/evalues.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/evalues.c b/src/Matrix_Ops/evalues.c
index 30e6fec..f6e620b 100755
--- a/src/Matrix_Ops/evalues.c
+++ b/src/Matrix_Ops/evalues.c
@@ -338,7 +338,9 @@ Eigenvalues_suNC( double complex z[ NC ] ,
   z[2] = z[1] - minus ; 
 #elif NC == 2
   const double reU0 = (double)creal( U[0] ) ;
-  z[0] = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
+  z[0] = reU0 + I * sqrt( cimag( U[0] ) * cimag( U[0] ) +
+			  creal( U[1] ) * creal( U[1] ) +
+			  cimag( U[1] ) * cimag( U[1] ) ) ;
   z[1] = conj( z[0] ) ;
 #else
   // not supported, yet. Wrap to eigenvalues ....
-- 
2.43.0


From 73b8d2bc45eb4d45a4e2730430423813afc30dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:40 +0000
Subject: [PATCH 62/91] fix: exact exponentiation from the eigenvalues for
 large NC

---
 src/Matrix_Ops/effs.c        | 63 ++++++++++++++++++++++++++++++++++--
 src/Matrix_Ops/vandermonde.c |  4 +--
 2 files changed, 63 insertions(+), 4 deletions(-)

diff --git a/src/Matrix_Ops/effs.c b/src/Matrix_Ops/effs.c
index 2d2e7c8..87ef29e 100755
--- a/src/Matrix_Ops/effs.c
+++ b/src/Matrix_Ops/effs.c
@@ -26,12 +26,71 @@
 
 #include "vandermonde.h" // golub and van loan generic VDM solver is pretty unstable
 
-// cheap and dirty solver -> OK for hermitian eigenvalues
+// the divided differences of exp( i z ) are the first row of exp( i Z ), where
+// Z has the z on its diagonal and ones above it. Unlike the usual differences
+// of the function values these are fine when eigenvalues (nearly) coincide
+static void
+divided_differences( double complex *__restrict f , 
+		     const double *__restrict z )
+{
+  double complex A[ NC ][ NC ] , E[ NC ][ NC ] , T[ NC ][ NC ] ;
+  double max = 1.0 ;
+  size_t i , j , k , n , nsq = 0 ;
+  for( i = 0 ; i < NC ; i++ ) {
+    max = fabs( z[i] ) + 1.0 > max ? fabs( z[i] ) + 1.0 : max ;
+  }
+  while( max > 0.5 && nsq < 64 ) { max *= 0.5 ; nsq++ ; }
+  const double complex fac = I * ldexp( 1.0 , -(int)nsq ) ;
+  for( i = 0 ; i < NC ; i++ ) {
+    for( j = 0 ; j < NC ; j++ ) {
+      A[i][j] = ( i == j ) ? fac * z[i] : ( j == i+1 ) ? fac : 0.0 ;
+      E[i][j] = ( i == j ) ? 1.0 : 0.0 ;
+    }
+  }
+  // horner's rule for the Taylor series, then undo the scaling by squaring
+  for( n = 18 + nsq ; n > 0 ; n-- ) {
+    for( i = 0 ; i < NC ; i++ ) {
+      for( j = i ; j < NC ; j++ ) {
+	T[i][j] = 0.0 ;
+	for( k = i ; k <= j ; k++ ) {
+	  T[i][j] += ( n > nsq ? A[i][k] : E[i][k] ) * E[k][j] ;
+	}
+      }
+    }
+    for( i = 0 ; i < NC ; i++ ) {
+      for( j = i ; j < NC ; j++ ) {
+	E[i][j] = n > nsq ? ( i == j ) + T[i][j] / (double)( n - nsq ) : T[i][j] ;
+      }
+    }
+  }
+  for( i = 0 ; i < NC ; i++ ) {
+    f[i] = E[0][i] ;
+  }
+  return ;
+}
+
+// cheap and dirty solver -> OK for well-separated hermitian eigenvalues
 void 
 calculate_effs_VDM_herm( double complex *__restrict f , 
 			 const double *__restrict z )
 {
-  size_t i ; 
+  double gap = 1.0 ;
+  size_t i , k ; 
+  for( i = 0 ; i < NC ; i++ ) {
+    for( k = 0 ; k < i ; k++ ) {
+      gap = fabs( z[i] - z[k] ) < gap ? fabs( z[i] - z[k] ) : gap ;
+    }
+  }
+  // the differences of close eigenvalues lose too many digits
+  if( gap < 0.2 ) {
+    divided_differences( f , z ) ;
+    for( k = NC - 1 ; k-- != 0 ; ) {
+      for( i = k ; i < NC - 1 ; i++ ) {
+	f[ i ] -= f[ i + 1 ] * z[ k ] ;
+      }
+    }
+    return ;
+  }
   for( i = 0 ; i < NC ; i++ ) {
     f[ i ] = cos( z[ i ] ) + I * sin( z[i] ) ;
   }
diff --git a/src/Matrix_Ops/vandermonde.c b/src/Matrix_Ops/vandermonde.c
index 0286a3c..3af6ee8 100755
--- a/src/Matrix_Ops/vandermonde.c
+++ b/src/Matrix_Ops/vandermonde.c
@@ -36,7 +36,7 @@ solvandermonde( double complex f[ NC ] ,
     }
   }
   /// plug in values for the interpolator ///
-  for( k = NC - 1 ; k != 0 ; k-- ) {
+  for( k = NC - 1 ; k-- != 0 ; ) {
     for(i = k ; i < NC - 1 ; i++ ) {
       f[i] = f[i] - ( f[ i + 1 ] * x[k] ) ;
     }
@@ -68,7 +68,7 @@ solvandermonde_new( const double q[ NC ] ,
     }
   }
   /// plug in values for the interpolator ///
-  for( k = NC - 1 ; k != 0 ; k-- ) {
+  for( k = NC - 1 ; k-- != 0 ; ) {
     for(i = k ; i < NC - 1 ; i++ ) {
       f[ i ] -= ( f[ i + 1 ] * q[k] ) ;
     }
-- 
2.43.0


From f1d3403e0770b141f72b5d097b8c7e04efd7ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 63/91] fix: the WELL_512 generator links and saves its state

---
 src/Utils/par_rng.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 6a66874..0b28899 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -198,7 +198,7 @@ par_rng_dbl( const uint32_t thread )
 #elif (defined MWC_1038_RNG)
   return par_MWC_1038_dbl( thread ) ;
 #elif (defined WELL_512_RNG)
-  return par_Well_512_dbl( thread ) ;
+  return par_WELL_512_dbl( thread ) ;
 #else
   return par_MWC_4096_dbl( thread ) ;
 #endif
@@ -329,6 +329,8 @@ write_par_rng_state( const char *outfile )
   fprintf( out , "RNG = PAR_XOR_1024\n" ) ;
 #elif (defined MWC_1038_RNG)
   fprintf( out , "RNG = PAR_MWC_1038\n" ) ;
+#elif (defined WELL_512_RNG)
+  fprintf( out , "RNG = PAR_WELL_512\n" ) ;
 #else
   fprintf( out , "RNG = PAR_MWC_4096\n" ) ;
 #endif
@@ -344,6 +346,8 @@ write_par_rng_state( const char *outfile )
   write_par_XOR_1024_table( out ) ;
 #elif (defined MWC_1038_RNG)
   write_par_MWC_1038_table( out ) ;
+#elif (defined WELL_512_RNG)
+  write_par_WELL_512_table( out ) ;
 #else
   write_par_MWC_4096_table( out ) ;
 #endif
-- 
2.43.0


From 09a082ab5c535173ba88730fd2447bf1bbe446ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:57 +0000
Subject: [PATCH 64/91] fix: byte order when reading back a KISS generator
 state

---
 src/Utils/par_KISS.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils/par_KISS.c b/src/Utils/par_KISS.c
index 6f97899..4688200 100644
--- a/src/Utils/par_KISS.c
+++ b/src/Utils/par_KISS.c
@@ -103,6 +103,10 @@ read_par_KISS_table( FILE *rng_file )
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
       return GLU_FAILURE ;
     }
+    // swap them if we aren't big endian
+    if( !WORDS_BIGENDIAN ) { 
+      bswap_32( RNG_TABLE , table[i] ) ; 
+    }
   }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 29c4c17c42ca283e08762749c1ba588f1d4e7abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:02 +0000
Subject: [PATCH 65/91] fix: a restored generator counts as running

---
 src/Utils/par_rng.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 0b28899..ace5874 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -260,7 +260,9 @@ read_par_rng_state( const char *infile )
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (KISS) RNG\n" ) ;
     return init_new_rng_sequence( ) ;
   }
+  free_par_rng( ) ;
   if( read_par_KISS_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined MWC_4096_RNG)
@@ -268,7 +270,9 @@ read_par_rng_state( const char *infile )
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (MWC_4096) RNG\n" ) ;
     return init_new_rng_sequence( ) ;
   }
+  free_par_rng( ) ;
   if( read_par_MWC_4096_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined XOR_1024_RNG)
@@ -276,7 +280,9 @@ read_par_rng_state( const char *infile )
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (XOR_1024) RNG\n" ) ;
     return init_new_rng_sequence( ) ;
   }
+  free_par_rng( ) ;
   if( read_par_XOR_1024_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined MWC_1038_RNG)
@@ -284,7 +290,9 @@ read_par_rng_state( const char *infile )
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (MWC_1038) RNG\n" ) ;
     return init_new_rng_sequence( ) ;
   }
+  free_par_rng( ) ;
   if( read_par_MWC_1038_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #elif (defined WELL_512_RNG)
@@ -292,7 +300,9 @@ read_par_rng_state( const char *infile )
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (WELL_512) RNG\n" ) ;
     return init_new_rng_sequence( ) ;
   }
+  free_par_rng( ) ;
   if( read_par_WELL_512_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #else
@@ -300,13 +310,18 @@ read_par_rng_state( const char *infile )
     fprintf( stderr , "[PAR_RNG] state RNG differs from compiled (MWC_4096) RNG\n" ) ;
     return init_new_rng_sequence( ) ;
   }
+  free_par_rng( ) ;
   if( read_par_MWC_4096_table( in ) == GLU_FAILURE ) {
+    fclose( in ) ;
     return GLU_FAILURE ;
   }
 #endif
 
   fclose( in ) ;
 
+  // the generator now runs with the state we have read
+  RNG_inited = GLU_TRUE ;
+
   return GLU_SUCCESS ;
 }
 
-- 
2.43.0


From 0e160542faf6580c4757e2e6571258080adb090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:07 +0000
Subject: [PATCH 66/91] fix: XOR_1024 deviates stay below one

---
 src/Utils/par_XOR_1024.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils/par_XOR_1024.c b/src/Utils/par_XOR_1024.c
index 8b107b5..e36842a 100644
--- a/src/Utils/par_XOR_1024.c
+++ b/src/Utils/par_XOR_1024.c
@@ -89,7 +89,8 @@ free_par_XOR_1024( void )
 double
 par_XOR_1024_dbl( const uint32_t thread ) 
 {
-  return ( par_XOR_1024( thread ) * 5.421010862427522e-20 ) ;
+  // only the top 53 bits, all 64 would be rounded up to one
+  return ( ( par_XOR_1024( thread ) >> 11 ) * 1.1102230246251565e-16 ) ;
 }
 
 // read the MWC table
-- 
2.43.0


From 3e4b3d92f31cf720cffad8e088c4619d225af899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:13 +0000
Subject: [PATCH 67/91] fix: Gaussian deviates when a uniform deviate is zero

---
 src/Utils/par_rng.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index ace5874..1d07bbe 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -172,7 +172,8 @@ GLU_real
 par_polar( const uint32_t thread )
 {
   const GLU_real u = par_rng_dbl( thread ) , v = par_rng_dbl( thread ) ;
-  return sqrt( -2. * log( u ) ) * cos( TWOPI * v ) ;
+  // u is in [0,1), its logarithm must not be taken at zero
+  return sqrt( -2. * log( 1. - u ) ) * cos( TWOPI * v ) ;
 }
 
 // looks more complicated , is faster.
@@ -182,7 +183,7 @@ par_polar_box( const uint32_t thread )
   register const GLU_real u = (GLU_real)( 2. * par_rng_dbl( thread ) - 1. ) ;
   register const GLU_real v = (GLU_real)( 2. * par_rng_dbl( thread ) - 1. ) ;
   const GLU_real s = u * u + v * v ;
-  return s < 1. ? sqrt( -log( s ) / s ) * ( u + I * v ) : par_polar_box( thread ) ;
+  return s < 1. && s > 0. ? sqrt( -log( s ) / s ) * ( u + I * v ) : par_polar_box( thread ) ;
 }
 
 // return a double precision number
-- 
2.43.0


From 667da03fa353016e6af43decbbc40e1de82cfd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:18 +0000
Subject: [PATCH 68/91] fix: report a generator state file that cannot be
 written

---
 src/Utils/par_rng.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 1d07bbe..c7dbcc5 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -331,6 +331,10 @@ void
 write_par_rng_state( const char *outfile )
 {
   FILE *out = fopen( outfile , "wb" ) ;
+  if( out == NULL ) {
+    fprintf( stderr , "[PAR_RNG] cannot open %s for writing\n" , outfile ) ;
+    return ;
+  }
 
   // write out in a NERSC-like header so I can reuse that code
   fprintf( out , "BEGIN_HEADER\n" ) ;
-- 
2.43.0


From 2eb1bdf6439c3f98b869c19d8f0c115b0d9aeeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 69/91] fix: bound the words and lines read from the input file

---
 src/IO/input_reader.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 28ccc58..eb2b3d9 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -47,14 +47,33 @@ static struct inputs *INPUT = NULL ;
 static int NTAGS = 0 ;
 
 // allocate the input file struct
-static void 
+static int
 pack_inputs( FILE *setup )
 {
   INPUT = ( struct inputs* )calloc( INPUTS_LENGTH , sizeof( struct inputs ) ) ;
-  // and put into the buffer
-  while( NTAGS++ , fscanf( setup , "%s = %s" , INPUT[ NTAGS ].TOKEN , 
-			   INPUT[ NTAGS ].VALUE )  != EOF ) { }
-  return ;
+  if( INPUT == NULL ) {
+    fprintf( stderr , "[IO] input file buffer allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
+  // and put into the buffer, the widths are GLU_STR_LENGTH - 1
+  NTAGS = 0 ;
+  while( fscanf( setup , "%63s = %63s" , INPUT[ NTAGS ].TOKEN , 
+		 INPUT[ NTAGS ].VALUE ) != EOF ) {
+    // words that fill the buffer could have been cut short
+    if( strlen( INPUT[ NTAGS ].TOKEN ) == GLU_STR_LENGTH - 1 ||
+	strlen( INPUT[ NTAGS ].VALUE ) == GLU_STR_LENGTH - 1 ) {
+      fprintf( stderr , "[IO] input file option %s is too long\n" ,
+	       INPUT[ NTAGS ].TOKEN ) ;
+      return GLU_FAILURE ;
+    }
+    NTAGS++ ;
+    if( NTAGS == INPUTS_LENGTH ) {
+      fprintf( stderr , "[IO] more than %d options in the input file\n" ,
+	       INPUTS_LENGTH - 1 ) ;
+      return GLU_FAILURE ;
+    }
+  }
+  return GLU_SUCCESS ;
 }
 
 // frees up the struct
@@ -62,6 +81,8 @@ static void
 unpack_inputs( void )
 {
   free( INPUT ) ;
+  INPUT = NULL ;
+  NTAGS = 0 ;
   return ;
 }
 
@@ -593,7 +614,11 @@ get_input_data( struct infile_data *INFILE ,
   }
 
   // if we can open the file we push it into a big structure
-  pack_inputs( infile ) ;
+  if( pack_inputs( infile ) == GLU_FAILURE ) {
+    fclose( infile ) ;
+    unpack_inputs( ) ;
+    return GLU_FAILURE ;
+  }
 
   int INPUT_FAILS = 0 ; // counter for the number of failures
 
-- 
2.43.0


From a37dcc028600ec6e61a288958df3f472030979e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:31 +0000
Subject: [PATCH 70/91] fix: a missing CONFIG_INFO or RANDOM_TRANSFORM is an
 error

---
 src/IO/input_reader.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index eb2b3d9..9b96dba 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -179,6 +179,7 @@ static int
 config_information( char *details )
 {
   const int details_idx = tag_search( "CONFIG_INFO" ) ;
+  if( details_idx == GLU_FAILURE ) { return tag_failure( "CONFIG_INFO" ) ; }
   sprintf( details , "%s" , INPUT[details_idx].VALUE ) ;
   return GLU_SUCCESS ;
 }
@@ -529,12 +530,14 @@ read_suNC_x_U1( struct u1_info *U1INFO )
 }
 
 // are we performing a random transform?
-static GLU_bool
-rtrans( void )
+static int
+random_transform( GLU_bool *rtrans )
 {
   const int rtrans_idx = tag_search( "RANDOM_TRANSFORM" ) ;
-  if( are_equal( INPUT[rtrans_idx].VALUE , "YES" ) ) return GLU_TRUE ;
-  return GLU_FALSE ;
+  if( rtrans_idx == GLU_FAILURE ) { return tag_failure( "RANDOM_TRANSFORM" ) ; }
+  *rtrans = are_equal( INPUT[rtrans_idx].VALUE , "YES" ) ? 
+    GLU_TRUE : GLU_FALSE ;
+  return GLU_SUCCESS ;
 }
 
 // pack the sm_info struct
@@ -636,7 +639,7 @@ get_input_data( struct infile_data *INFILE ,
   if( read_suNC_x_U1( &( INFILE -> U1INFO ) ) == GLU_FAILURE ) INPUT_FAILS++ ;
  
   // are we performing a random transform
-  INFILE -> rtrans = rtrans( ) ;
+  if( random_transform( &( INFILE -> rtrans ) ) == GLU_FAILURE ) INPUT_FAILS++ ;
 
   // get the header type
   if( header_type( &( INFILE -> head ) ) == GLU_FAILURE ) { 
@@ -651,7 +654,9 @@ get_input_data( struct infile_data *INFILE ,
   }
 
   // put the config info 
-  config_information( INFILE -> output_details ) ;
+  if( config_information( INFILE -> output_details ) == GLU_FAILURE ) {
+    INPUT_FAILS++ ;
+  }
 
   // poke in some heatbath related things
   INFILE -> HBINFO.continuation = GLU_FALSE ;
-- 
2.43.0


From 699754a775fe8626b3d0166e1ecfbfed975af047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 71/91] fix: a unit field without its extents is an error

---
 src/IO/input_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 9b96dba..a4cd6bc 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -325,7 +325,7 @@ header_type( header_mode *HEADINFO )
     } else if( are_equal( INPUT[header_idx].VALUE , "UNIT" ) ) {
       fprintf( stdout , "[IO] Attempting to generate an %dx%d UNIT config \n" 
 	       , NC , NC ) ;
-      read_random_lattice_info( ) ;
+      if( read_random_lattice_info( ) == GLU_FAILURE ) return GLU_FAILURE ;
       *HEADINFO = UNIT_GAUGE ;
     } else if( are_equal( INPUT[header_idx].VALUE , "INSTANTON" ) ) {
       fprintf( stdout , "[IO] Attempting to generate a SU(%d) BPST "
-- 
2.43.0


From 1391d8798ba57c6b17d22cf5f3765ed3d353c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:43 +0000
Subject: [PATCH 72/91] fix: refuse values that are not the number asked for

---
 src/IO/input_reader.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index a4cd6bc..0d39213 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -106,6 +106,15 @@ tag_search( const char *tag )
   return GLU_FAILURE ;
 }
 
+// the value cannot be what the user wanted
+static int
+value_failure( const int idx )
+{
+  fprintf( stderr , "[IO] I do not understand %s = %s in input file "
+	   "... Leaving\n" , INPUT[idx].TOKEN , INPUT[idx].VALUE ) ;
+  return GLU_FAILURE ;
+}
+
 // I use this pattern quite a bit
 static int
 setint( size_t *val ,
@@ -115,10 +124,12 @@ setint( size_t *val ,
   errno = 0 ;
   const int idx = tag_search( tag ) ;
   if( idx == GLU_FAILURE ) { return tag_failure( tag ) ; }
-  *val = (size_t)strtol( INPUT[idx].VALUE , &endptr , 10 ) ;
-  if( endptr == INPUT[idx].VALUE || errno == ERANGE ) {
-    return GLU_FAILURE ;
+  const long int res = strtol( INPUT[idx].VALUE , &endptr , 10 ) ;
+  if( endptr == INPUT[idx].VALUE || *endptr != '\0' ||
+      errno == ERANGE || res < 0 ) {
+    return value_failure( idx ) ;
   }
+  *val = (size_t)res ;
   return GLU_SUCCESS ;
 }
 
@@ -131,10 +142,12 @@ setdbl( double *val ,
   errno = 0 ;
   const int idx = tag_search( tag ) ;
   if( idx == GLU_FAILURE ) { return tag_failure( tag ) ; }
-  *val = strtod( INPUT[idx].VALUE , &endptr ) ;
-  if( endptr == INPUT[idx].VALUE || errno == ERANGE ) {
-    return GLU_FAILURE ;
+  const double res = strtod( INPUT[idx].VALUE , &endptr ) ;
+  if( endptr == INPUT[idx].VALUE || *endptr != '\0' ||
+      errno == ERANGE || !isfinite( res ) ) {
+    return value_failure( idx ) ;
   }
+  *val = res ;
   return GLU_SUCCESS ;
 }
 
@@ -209,9 +222,10 @@ get_mode( GLU_mode *mode )
   }
   // look at what seed type we are going to use
   {
-    const int seed_idx = tag_search( "SEED" ) ;
-    if( seed_idx == GLU_FAILURE ) { return tag_failure( "SEED" ) ; }
-    sscanf( INPUT[seed_idx].VALUE , "%u" , &Latt.Seed[0] ) ;
+    size_t seed ;
+    if( setint( &seed , "SEED" ) == GLU_FAILURE ) { return GLU_FAILURE ; }
+    if( seed > UINT32_MAX ) { return value_failure( tag_search( "SEED" ) ) ; }
+    Latt.Seed[0] = (uint32_t)seed ;
   }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 48e6897a9a85df5d137c8965b85bcf755f10fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:49 +0000
Subject: [PATCH 73/91] fix: the help names the options as they are read

---
 src/IO/input_help.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/IO/input_help.c b/src/IO/input_help.c
index d539e0a..9afe676 100755
--- a/src/IO/input_help.c
+++ b/src/IO/input_help.c
@@ -77,7 +77,7 @@ create_input_file( const char *mode_str ,
 static void
 cuttype_types( void )
 {
-  fprintf( stdout , "CUTTYPE = CONFIGSPACE_GLUE           - "
+  fprintf( stdout , "CUTTYPE = CONFIGSPACE_GLUONS         - "
 	   "Computes the configuration space gluon propagator,"
 	   "must be gauge fixed \n" ) ;
   fprintf( stdout , "CUTTYPE = EXCEPTIONAL                - "
@@ -157,7 +157,7 @@ cuttype_types( void )
 	   "                                       Also performs smearing "
 	   "specified by the smearing options in the input file\n" ) ;
   fprintf( stdout , "CUTTYPE = {ALL ELSE} - Do Nothing \n" ) ;
-  fprintf( stdout , "\nCONFIGSPACE_GLUE, EXCEPTIONAL, GLUON_PROPS and "
+  fprintf( stdout , "\nCONFIGSPACE_GLUONS, EXCEPTIONAL, GLUON_PROPS and "
 	   "NON_EXCEPTIONAL require the gauge field to be fixed to "
 	   "Landau gauge\n" ) ;
   fprintf( stdout , "\nINSTANTANEOUS_GLUONS and STATIC_POTENTIAL "
@@ -399,8 +399,8 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "        0 - Generates a SEED from urandom if it is available\n") ;
   } else if( are_equal( help_str , "--help=GFTYPE" ) ) {
     gftype_types( ) ;
-  } else if( are_equal( help_str , "--help=GFTUNE" ) ) {
-    fprintf( stdout , "GFTUNE = %%lf - User specified tuning parameter for "
+  } else if( are_equal( help_str , "--help=GF_TUNE" ) ) {
+    fprintf( stdout , "GF_TUNE = %%lf - User specified tuning parameter for "
 	     "the gauge fixing this should generally be < 0.1, less "
 	     "important for the default CG routines\n" ) ;
   } else if( are_equal( help_str , "--help=IMPROVEMENTS" ) ) {
@@ -417,10 +417,10 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "changing the tuning\n" , GF_GLU_FAILURES ) ;
   } else if( are_equal( help_str , "--help=CUTTYPE" ) ) {
     cuttype_types( ) ;
-  } else if( are_equal( help_str , "--help=FIELD_DEFINTION" ) ) {
-    fprintf( stdout , "FIELD_DEFINITION = LOG        - Exact logarithm "
+  } else if( are_equal( help_str , "--help=FIELD_DEFINITION" ) ) {
+    fprintf( stdout , "FIELD_DEFINITION = LOGARITHMIC - Exact logarithm "
 	     "definition of the gauge fields\n" ) ;
-    fprintf( stdout , "FIELD_DEFINITION = {ALL ELSE} - Hermitian projection "
+    fprintf( stdout , "FIELD_DEFINITION = {ALL ELSE}  - Hermitian projection "
 	     "definition of the gauge fields (denoted LINEAR)\n" ) ;
   } else if( are_equal( help_str , "--help=MOM_CUT" ) ) {
     momcut_types( ) ;
@@ -497,8 +497,8 @@ GLU_helps_those_who_help_themselves( const char *help_str )
   } else if( are_equal( help_str , "--help=SAVE" ) ) {
     fprintf( stdout , "SAVE = %%d - the iteration count at which we save "
 	     "a configuration in the HB-OR\n" ) ;
-  } else if( are_equal( help_str , "--help=THERMALISATION" ) ) {
-    fprintf( stdout , "THERMALISATION = %%d - the number of HB-OR iterations "
+  } else if( are_equal( help_str , "--help=THERM" ) ) {
+    fprintf( stdout , "THERM = %%d - the number of HB-OR iterations "
 	     "of thermalisation before measurement and saving\n" ) ;    
   } else if( are_equal( help_str , "--autoin=LANDAU" ) ) {
     create_input_file( "GAUGE_FIXING" , "LANDAU" ,
-- 
2.43.0


From d54227ba10e5df9234e87f196f5157aa62cc2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:54 +0000
Subject: [PATCH 74/91] fix: the help lists the options and examples that exist

---
 src/IO/input_help.c | 54 +++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/src/IO/input_help.c b/src/IO/input_help.c
index 9afe676..43c3785 100755
--- a/src/IO/input_help.c
+++ b/src/IO/input_help.c
@@ -41,7 +41,6 @@ create_input_file( const char *mode_str ,
 	   "SEED = 0\n" ) ;
   fprintf( stdout , "GFTYPE = %s\n" , gf_str ) ;
   fprintf( stdout , "    GF_TUNE = 0.08\n" 
-	   "    IMPROVEMENTS = NONE\n" 
 	   "    ACCURACY = 14\n"
 	   "    MAX_ITERS = 1000\n" ) ;
   fprintf( stdout , "CUTTYPE = %s\n"
@@ -169,11 +168,17 @@ cuttype_types( void )
 static void
 gftype_types( void )
 {
-  fprintf( stdout , "GFTYPE = COULOMB    - Coulomb gauge fixing using "
+  fprintf( stdout , "GFTYPE = AXIALT           - Axial gauge fixing, the "
+	   "temporal links are set to the identity up to the last slice\n" ) ;
+  fprintf( stdout , "GFTYPE = COULOMB          - Coulomb gauge fixing using "
 	   "a time-slice by time-slice Cornell method\n" ) ;
-  fprintf( stdout , "GFTYPE = LANDAU     - Landau gauge fixing using "
+  fprintf( stdout , "GFTYPE = COULOMB_RESIDUAL - As COULOMB, then fixes the "
+	   "remaining temporal degree of freedom\n" ) ;
+  fprintf( stdout , "GFTYPE = LANDAU           - Landau gauge fixing using "
 	   "the Cornell method/or OR depnding on compile flags\n" ) ;
-  fprintf( stdout , "GFTYPE = {All ELSE} - Do nothing\n" ) ;
+  fprintf( stdout , "GFTYPE = MAG              - Fixes to the so-called "
+	   "maximal axial gauge\n" ) ;
+  fprintf( stdout , "GFTYPE = {All ELSE}       - Do nothing\n" ) ;
   fprintf( stdout , "\nDepending on what configure flags you have "
 	   "specified these will either be Fourier accelerated or not\n" ) ;
   return ;
@@ -216,38 +221,24 @@ help_usage( void )
 {
   fprintf( stdout , "\nHelp usage : \n\n./GLU --help={options}\n\n" ) ;
   fprintf( stdout , "The available options are:\n" ) ;
-  fprintf( stdout , "MODE, HEADER, DIM , CONFNO, RANDOM_TRANSFORM, \n" ) ;
-  fprintf( stdout , "GFTYPE, GF_TUNE, IMPROVEMENTS, ACCURACY, MAX_ITERS, \n" ) ;
+  fprintf( stdout , "MODE, HEADER, DIM , CONFNO, RANDOM_TRANSFORM, SEED, \n" ) ;
+  fprintf( stdout , "GFTYPE, GF_TUNE, ACCURACY, MAX_ITERS, \n" ) ;
   fprintf( stdout , "CUTTYPE, FIELD_DEFINITION, MOM_CUT, MAX_T, MAXMOM, "
 	            "CYL_WIDTH, ANGLE, OUTPUT,\n" ) ;
   fprintf( stdout , "SMEARTYPE, DIRECTION, SMITERS, ALPHA,\n" ) ;
   fprintf( stdout , "U1_MEAS, U1_ALPHA, U1_CHARGE,\n" ) ;
   fprintf( stdout , "CONFIG_INFO, STORAGE,\n" ) ;
+  fprintf( stdout , "BETA, ITERS, MEASURE, OVER_ITERS, SAVE, THERM\n" ) ;
   fprintf( stdout , "*caution* in the {input_file} each one of these have "
 	   "to be specified\n"
 	  "          ONCE AND ONLY ONCE!\n" ) ;
   fprintf( stdout , "\nIf you would like an example input file, try:\n"
 	   "\n./GLU --autoin={options}\n\n"
-	   "Where options can be COULOMB, LANDAU, STATIC_POTENTIAL, "
+	   "Where options can be COULOMB, HEATBATH, LANDAU, STATIC_POTENTIAL, "
 	   "SUNCxU1, TOPOLOGICAL_SUSCEPTIBILITY or WFLOW\n\n" ) ;
   return ;
 }
 
-// possible gauge fixing improvement types
-static void
-improvement_types( void )
-{
-  fprintf( stdout , "IMPOVEMENTS = MAG        - Fixes to the so-called "
-	   "maximal axial gauge before fixing to Landau or Coulomb\n" ) ;
-  fprintf( stdout , "            = SMEAR      - Uses the smeared "
-	   "preconditioning of Hettrick and de forcrand using the smearing\n"
-	  "                           routines specified in the input file\n") ;
-  fprintf( stdout , "            = RESIDUAL   - Fixes the remaining temporal "
-	   "degree of freedom after Coulomb gauge fixing\n" ) ;
-  fprintf( stdout , "            = {ALL ELSE} - Do nothing\n" ) ;
-  return ;
-}
-
 // standard modes available
 static void
 mode_types( void ) 
@@ -285,7 +276,7 @@ momcut_types( void )
 	   "the momentum-space lattice\n" ) ;
   fprintf( stdout , "        = HYPERCUBIC_CUT - Include individual momenta "
 	   "that satisfy |p| < sqrt(MAX_MOM) \n" ) ;
-  fprintf( stdout , "        = {ALL ELSE}     - Do nothing \n" ) ;
+  fprintf( stdout , "        = {ALL ELSE}     - Defaults to SPHERICAL_CUT \n" ) ;
   fprintf( stdout , "\nn^{2} is (anisotropy corrected) n_{mu}n_{mu} Fourier "
 	   "mode product, for {mu} being polarisations on the lattice\n" ) ;
   return ;
@@ -344,8 +335,8 @@ storage_types( void )
 	   "link matrices\n" ) ;
   fprintf( stdout , "        = SCIDAC      - Writes a SCIDAC format "
 	   "configuration\n" ) ;
-  fprintf( stdout , "        = {ALL ELSE}  - Defaults to the NERSC_NCxNC "
-	   "format\n" ) ;
+  fprintf( stdout , "        = {ALL ELSE}  - Not recognised, GLU "
+	   "leaves\n" ) ;
   fprintf( stdout , "\n*caution* our MILC configurations are not *actually* "
 	   "MILC standard, as they don't have a double precision\n"
 	   "           output at the moment. We will see if that changes.\n" ) ;
@@ -403,8 +394,6 @@ GLU_helps_those_who_help_themselves( const char *help_str )
     fprintf( stdout , "GF_TUNE = %%lf - User specified tuning parameter for "
 	     "the gauge fixing this should generally be < 0.1, less "
 	     "important for the default CG routines\n" ) ;
-  } else if( are_equal( help_str , "--help=IMPROVEMENTS" ) ) {
-    improvement_types( ) ;
   } else if( are_equal( help_str , "--help=ACCURACY" ) ) {
     fprintf( stdout , "ACCURACY = %%d - Stops the gauge fixing after an "
 	     "average accuracy of better than 10^{-ACCURACY} has been "
@@ -459,12 +448,12 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "often finish\n"
 	     "               before this number is reached\n" ) ;
   } else if( are_equal( help_str , "--help=ALPHA" ) ) {
-    fprintf( stdout , "ALPHA_%%d = %%lf - Smearing parameters for each "
+    fprintf( stdout , "ALPHA%%d = %%lf - Smearing parameters for each "
 	     "level of smearing, expects ND-1 of these\n"
-	     "                 e.g. ALPHA_1, ALPHA_2 .. ALPHA_ND-1 "
+	     "                 e.g. ALPHA1, ALPHA2 .. ALPHA{ND-1} "
 	     "for Hypercubically blocked smearing in\n"
 	     "                 all directions. For the Wilson flow and for "
-	     "APE, LOG and STOUT smearings ALPHA_1 is the only relevant\n"
+	     "APE, LOG and STOUT smearings ALPHA1 is the only relevant\n"
 	     "                 parameter and all others are ignored\n" ) ;
   } else if( are_equal( help_str , "--help=U1_MEAS" ) ) {
     U1meas_types( ) ;
@@ -512,6 +501,9 @@ GLU_helps_those_who_help_themselves( const char *help_str )
   } else if( are_equal( help_str , "--autoin=STATIC_POTENTIAL" ) ) {
     create_input_file( "CUTTING" , "LANDAU" ,
 		       "STATIC_POTENTIAL" ) ;
+  } else if( are_equal( help_str , "--autoin=TOPOLOGICAL_SUSCEPTIBILITY" ) ) {
+    create_input_file( "CUTTING" , "LANDAU" ,
+		       "TOPOLOGICAL_SUSCEPTIBILITY" ) ;
   } else if( are_equal( help_str , "--autoin=SUNCxU1" ) ) {
     create_input_file( "SUNCxU1" , "LANDAU" ,
 		       "TOPOLOGICAL_SUSCEPTIBILITY" ) ;
@@ -538,7 +530,7 @@ GLUsage( void )
   fprintf( stdout , "To automatically generate a standard input file use:\n\n"
 	   "./GLU --autoin={options}\n"
 	   "\nWhere {options} can be COULOMB, HEATBATH , LANDAU, "
-	   "STATIC_POTENTIAL, SUNCxU1, WFLOW\n\n" ) ;
+	   "STATIC_POTENTIAL, SUNCxU1, TOPOLOGICAL_SUSCEPTIBILITY, WFLOW\n\n" ) ;
   return fprintf( stdout , "If using the CG gauge fixing, "
 		  "please cite my paper\n"
 		  "\"Fourier Accelerated Conjugate Gradient Lattice "
-- 
2.43.0


From bc479d9018348761f0a7d8a0f6b59b77655831b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:59 +0000
Subject: [PATCH 75/91] fix: topological moments with MAX_T = 0

---
 src/Field/Qsusc.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Field/Qsusc.c b/src/Field/Qsusc.c
index 5bd26e2..6c4dcb6 100755
--- a/src/Field/Qsusc.c
+++ b/src/Field/Qsusc.c
@@ -42,12 +42,15 @@ compute_Qsusc_step( struct site *__restrict lat ,
   fprintf( stdout , "[QSUSC] performing %zu measurements at %zu" 
 	   " smearing steps\n" , CUTINFO.max_t , SMINFO.smiters ) ;
 
+  // the moments are computed after every smearing step
+  const size_t Nmoments = CUTINFO.max_t > 0 ? CUTINFO.max_t - 1 : 0 ;
+
   // allocations for the moments
   struct Qmoments *Qmom = NULL ;
   if( CUTINFO.dir == TOPOLOGICAL_MOMENTS ) {
-    Qmom = malloc( ( CUTINFO.max_t - 1 ) * sizeof( struct Qmoments ) ) ;
+    Qmom = malloc( Nmoments * sizeof( struct Qmoments ) ) ;
     size_t t ;
-    for( t = 0 ; t < CUTINFO.max_t-1 ; t++ ) {
+    for( t = 0 ; t < Nmoments ; t++ ) {
       Qmom[t].Q  = malloc( ND * NQMOMENTS * sizeof( double ) ) ;
       Qmom[t].Q2 = malloc( ND * NQMOMENTS * sizeof( double ) ) ;
     }
@@ -89,10 +92,10 @@ compute_Qsusc_step( struct site *__restrict lat ,
   if( CUTINFO.dir == TOPOLOGICAL_MOMENTS ) {
 
     // write to a file
-    write_moments( Qmom , CUTINFO.max_t-1 ) ;
+    write_moments( Qmom , Nmoments ) ;
     
     size_t t ;
-    for( t = 0 ; t < CUTINFO.max_t-1 ; t++ ) {
+    for( t = 0 ; t < Nmoments ; t++ ) {
       free( Qmom[t].Q ) ; free( Qmom[t].Q2 ) ;
     }
     free( Qmom ) ; 
-- 
2.43.0


From d9df0fa288f3b899d4748a7dca45c4a5b0670bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:05 +0000
Subject: [PATCH 76/91] fix: refuse heat-bath parameters that are divided by
 zero

---
 src/Update/KPHB.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 1eafb54..8cb4dff 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -127,6 +127,14 @@ hb_update( struct site *lat ,
 	   const GLU_output storage , 
 	   const char *output_details )
 {
+  // these we divide by
+  if( HBINFO.Nsave == 0 || HBINFO.Nmeasure == 0 || HBINFO.beta == 0.0 ) {
+    fprintf( stderr , "[UPDATE] SAVE (%zu), MEASURE (%zu), and BETA (%f) "
+	     "cannot be zero\n" , HBINFO.Nsave , HBINFO.Nmeasure ,
+	     HBINFO.beta ) ;
+    return GLU_FAILURE ;
+  }
+
   // strip the number in the infile if it has one, leave the path alone
   const char *base = strrchr( traj_name , '/' ) ;
   base = ( base == NULL ) ? traj_name : base + 1 ;
-- 
2.43.0


From 39945418e4c94d4357379f709084860eb2909de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:22 +0000
Subject: [PATCH 77/91] fix: heat bath: refuse lattices with an extent of one

---
 src/Update/KPHB.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 8cb4dff..fef82c2 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -134,6 +134,15 @@ hb_update( struct site *lat ,
 	     HBINFO.beta ) ;
     return GLU_FAILURE ;
   }
+  // the staples of a link contain the link itself if it wraps onto its site
+  size_t mu ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    if( Latt.dims[ mu ] < 2 ) {
+      fprintf( stderr , "[UPDATE] cannot update a lattice of extent %zu in "
+	       "direction %zu\n" , Latt.dims[ mu ] , mu ) ;
+      return GLU_FAILURE ;
+    }
+  }
 
   // strip the number in the infile if it has one, leave the path alone
   const char *base = strrchr( traj_name , '/' ) ;
-- 
2.43.0


From 601e3ee206d46b623811b9e4f6d79792954d84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:01 +0000
Subject: [PATCH 78/91] fix: write a configuration under a temporary name and
 rename it when complete

---
 src/Wrappers/GLUlib_wrap.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index 358499e..ac5afdf 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -208,17 +208,23 @@ write_configuration( struct site *lat ,
 	     "file %s .. I will not do this!\n" , outfile ) ;
     return GLU_FAILURE ;
   } else {
-    FILE *out_config = fopen( outfile , "w" ) ;
+    // a configuration only appears under its name once it is complete
+    char part[ strlen( outfile ) + 6 ] ;
+    sprintf( part , "%s.part" , outfile ) ;
+    FILE *out_config = fopen( part , "w" ) ;
     if( out_config == NULL ) {
-      fprintf( stderr , "[IO] cannot open %s for writing\n" , outfile ) ;
+      fprintf( stderr , "[IO] cannot open %s for writing\n" , part ) ;
       return GLU_FAILURE ;
     }
     int FLAG = write_lat( lat , out_config , storage , output_details ) ;
     if( ferror( out_config ) != 0 ) FLAG = GLU_FAILURE ;
     if( fclose( out_config ) != 0 ) FLAG = GLU_FAILURE ;
+    if( FLAG != GLU_FAILURE && rename( part , outfile ) != 0 ) {
+      FLAG = GLU_FAILURE ;
+    }
     if( FLAG == GLU_FAILURE ) {
       fprintf( stderr , "[IO] writing %s failed\n" , outfile ) ;
-      remove( outfile ) ;
+      remove( part ) ;
       return GLU_FAILURE ;
     }
     fprintf( stdout , "[IO] Configuration written to %s \n", outfile ) ; 
-- 
2.43.0


From 6a7c7364bd70ad4401b8a4e12c21f612ce235299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:16 +0000
Subject: [PATCH 79/91] fix: save the generator before the configuration and
 report failed checkpoints

---
 src/Headers/par_rng.h |  7 ++++---
 src/Update/KPHB.c     | 27 ++++++++++++++++++++++-----
 src/Utils/par_rng.c   | 13 +++++++++----
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/Headers/par_rng.h b/src/Headers/par_rng.h
index 5d22747..6f3355a 100755
--- a/src/Headers/par_rng.h
+++ b/src/Headers/par_rng.h
@@ -95,11 +95,12 @@ int
 read_par_rng_state( const char *infile ) ;
 
 /**
-   @fn int read_par_rng_state( const char *outfile )
-   @brief read the rng table to outfile
+   @fn int write_par_rng_state( const char *outfile )
+   @brief write the rng table to outfile
    @param outfile :: file to be written
+   @return #GLU_SUCCESS or #GLU_FAILURE
 */
-void
+int
 write_par_rng_state( const char *outfile ) ;
 
 #endif
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index fef82c2..3a964d6 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -198,6 +198,9 @@ hb_update( struct site *lat ,
 #ifdef POLY_MEAS
   double *POLYred = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ;
 #endif
+  // set if a configuration could not be saved
+  int FLAG = GLU_SUCCESS ;
+
   // thermalise
   start_timer( ) ;
   
@@ -243,12 +246,26 @@ hb_update( struct site *lat ,
 	  // write a configuration, the master may not have moved the flow on
 	  // yet if there was no measurement since the last update
 	  Latt.flow = i ;
+	  // the generator comes first : a configuration that is there has one
 	  sprintf( str , "%s.%zu" , pch , i ) ;
-	  if( write_configuration( lat , str , storage , output_details )
-	      != GLU_FAILURE ) {
-	    // write out the rng state
+	  FILE *exists = fopen( str , "r" ) ;
+	  if( exists != NULL ) {
+	    fprintf( stderr , "[UPDATE] WARNING :: keeping the existing %s\n" ,
+		     str ) ;
+	    fclose( exists ) ;
+	    latt_reunitU( lat ) ; // writing it does this too
+	  } else {
 	    sprintf( str , "%s.%zu.rand" , pch , i ) ;
-	    write_par_rng_state( str ) ;
+	    int flag = write_par_rng_state( str ) ;
+	    sprintf( str , "%s.%zu" , pch , i ) ;
+	    if( flag == GLU_SUCCESS ) {
+	      flag = write_configuration( lat , str , storage , 
+					  output_details ) ;
+	    }
+	    if( flag == GLU_FAILURE ) {
+	      fprintf( stderr , "[UPDATE] saving %s failed\n" , str ) ;
+	      FLAG = GLU_FAILURE ;
+	    }
 	  }
 	}
       }
@@ -278,6 +295,6 @@ hb_update( struct site *lat ,
   // free the rng
   free_par_rng( ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index c7dbcc5..ed0faf3 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -327,13 +327,13 @@ read_par_rng_state( const char *infile )
 }
 
 // write out the parallel rng
-void
+int
 write_par_rng_state( const char *outfile )
 {
   FILE *out = fopen( outfile , "wb" ) ;
   if( out == NULL ) {
     fprintf( stderr , "[PAR_RNG] cannot open %s for writing\n" , outfile ) ;
-    return ;
+    return GLU_FAILURE ;
   }
 
   // write out in a NERSC-like header so I can reuse that code
@@ -372,7 +372,12 @@ write_par_rng_state( const char *outfile )
   write_par_MWC_4096_table( out ) ;
 #endif
 
-  fclose( out ) ;
+  int FLAG = ( ferror( out ) != 0 ) ? GLU_FAILURE : GLU_SUCCESS ;
+  if( fclose( out ) != 0 ) FLAG = GLU_FAILURE ;
+  if( FLAG == GLU_FAILURE ) {
+    fprintf( stderr , "[PAR_RNG] writing %s failed\n" , outfile ) ;
+    remove( outfile ) ;
+  }
 
-  return ;
+  return FLAG ;
 }
-- 
2.43.0


From 9b87868661d6aaf935ea3c308045e71434a77a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 80/91] fix: C08 SU(2) Landau derivative has the same norm as
 the other gauge groups

---
 src/Gfix/lin_derivs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Gfix/lin_derivs.c b/src/Gfix/lin_derivs.c
index 2cd6c36..c5659e2 100755
--- a/src/Gfix/lin_derivs.c
+++ b/src/Gfix/lin_derivs.c
@@ -187,7 +187,7 @@ fast_deriv_AntiHermitian_proj( GLU_complex sum[ HERMSIZE ] ,
   *( sum + 0 ) = REsum0 ;
   *( sum + 1 ) = -I * REsum1 + IMsum1 ;
 
-  return ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
+  return 4.0 * ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
 
 #endif
 }
-- 
2.43.0


From 9b3a59f4527a1ca5e30da481ebc5c6ce06aa234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 81/91] fix: C08 over-relaxed gauge fixing reports
 non-convergence and leaves sites without a direction alone

---
 src/Gfix/Or.c    | 22 +++++++++++++++++++---
 src/Headers/Or.h |  2 ++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/Gfix/Or.c b/src/Gfix/Or.c
index 510e39d..fedd8e0 100755
--- a/src/Gfix/Or.c
+++ b/src/Gfix/Or.c
@@ -39,6 +39,8 @@ OrRotation( GLU_complex *__restrict s0 ,
 	    GLU_complex *__restrict s1 ,
 	    const double OrParam )
 { 
+  // nothing to rotate to
+  if( *s0 == 0.0 && *s1 == 0.0 ) { *s0 = 1.0 ; return ; }
   // I use the MILC OR step here
   register const GLU_real asq = cimag(*s0)*cimag(*s0) 
     + creal(*s1)*creal(*s1) + cimag(*s1)*cimag(*s1) ;
@@ -106,6 +108,9 @@ OR_single( struct site *__restrict lat ,
 #ifdef SOR
   if( par_rng_dbl( get_GLU_thread() ) < OrParam ) {
     OrRotation( &s0 , &s1 , 2 ) ;
+  } else if( s0 == 0.0 && s1 == 0.0 ) {
+    // nothing to rotate to
+    s0 = 1.0 ;
   } else {
     const GLU_real NORM = 1.0 / sqrt( creal(s0)*creal(s0) +
 				      cimag(s0)*cimag(s0) +
@@ -195,12 +200,13 @@ OrLandau( struct site *__restrict lat ,
   size_t iters = 0 ;
 #ifdef SOR
   if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
-    iters = 123456789 ;
+    iters = GLU_FAILURE ;
     goto end ;
   }
   if( OrParam < 0.0 || OrParam >= 1.0 ) {
     fprintf( stderr , "[OR] SOR param should be between 0 and 1, not %f \n" ,
 	     OrParam ) ;
+    iters = GLU_FAILURE ;
     goto end ;
   }
 #endif
@@ -234,6 +240,11 @@ OrLandau( struct site *__restrict lat ,
   // and print it out
   output_fixing_info( lat , *theta , iters ) ;
 
+  if( !( fabs( *theta ) <= ACC ) ) {
+    fprintf( stderr , "[GF] Insufficient convergence\n" ) ;
+    iters = GLU_FAILURE ;
+  }
+
  end :
   free_cb( &db ) ;
 
@@ -277,7 +288,6 @@ OrCoulomb( struct site *__restrict lat ,
   size_t iters = 0 ;
 #ifdef SOR
   if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
-    iters = 123456789 ;
     goto end ;
   }
   if( OrParam < 0.0 || OrParam >= 1.0 ) {
@@ -287,6 +297,9 @@ OrCoulomb( struct site *__restrict lat ,
   }
 #endif
 
+  // have all of the slices converged?
+  int flag = GLU_SUCCESS ;
+
   size_t t ;
   for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) {
 
@@ -316,7 +329,8 @@ OrCoulomb( struct site *__restrict lat ,
       loc_iters++ ;
     }
 
-    if( loc_iters == MAX_ITERS ) {
+    if( !( fabs( *theta ) <= ACC ) ) {
+      flag = GLU_FAILURE ;
       fprintf( stdout , "[GF] Slice :: %zu {Stopped by MAX_ITERS} \n"
 	       "[GF] Accuracy :: %1.5e || Iterations :: %zu\n"
 	       "[GF] Failures :: %d\n\n" , t , *theta , loc_iters , 0 ) ;
@@ -336,6 +350,8 @@ OrCoulomb( struct site *__restrict lat ,
 	   "[GF] Plaquette :: %1.15f \n" , Latt.gf_alpha , iters , 
 	   tlink , splink , av_plaquette( lat ) ) ;
 
+  if( flag == GLU_FAILURE ) { iters = 0 ; }
+
  end :
   // memory frees
   free_cb( &db ) ;
diff --git a/src/Headers/Or.h b/src/Headers/Or.h
index 01a0040..42e52f8 100755
--- a/src/Headers/Or.h
+++ b/src/Headers/Or.h
@@ -31,6 +31,7 @@
    @param MAX_ITERS :: maximum number of iterations before complaint
    @param ACC :: accuracy intended to be fixed to
    @param OrParam :: Over-relaxation parameter
+   @return the number of iterations or 0 if something went wrong or a slice did not converge
  */
 size_t
 OrCoulomb( struct site *__restrict lat ,
@@ -47,6 +48,7 @@ OrCoulomb( struct site *__restrict lat ,
    @param MAX_ITERS :: maximum number of iterations before complaint
    @param ACC :: accuracy intended to be fixed to
    @param OrParam :: Over-relaxation parameter
+   @return the number of iterations or #GLU_FAILURE if something went wrong or it did not converge
  */
 size_t
 OrLandau( struct site *__restrict lat ,
-- 
2.43.0


From 982b34c9289a0acb1c7e142dd8f3c1569383e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 82/91] fix: C08 Landau gauge fixing stops on the fields it
 measured and reports failed convergence

---
 src/Gfix/FACG.c   | 73 +++++++++++++++++++++++++++++++----------------
 src/Gfix/Landau.c | 21 ++++++++------
 2 files changed, 61 insertions(+), 33 deletions(-)

diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 0c201f6..6ee5104 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -131,8 +131,9 @@ sum_PR3( double *red ,
     GLU_complex a[ HERMSIZE ] GLUalign = {} , b[ HERMSIZE ] GLUalign = {} ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      a[mu] = in[mu][i] ;
-      b[mu] = in[mu][i] - in_old[mu][i];
+      // these are hermitian, "in" is antihermitian
+      a[mu] = -I * in[mu][i] ;
+      b[mu] = -I * ( in[mu][i] - in_old[mu][i] ) ;
     }
     trace_ab_herm_short( &loc_sum1 , a , a ) ;
     trace_ab_herm_short( &loc_sum2 , a , b ) ;
@@ -165,7 +166,8 @@ sum_DER3( double *red ,
     GLU_complex temp[ HERMSIZE ] GLUalign ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp[mu] = in[mu][i] ;
+      // this is hermitian, "in" is antihermitian
+      temp[mu] = -I * in[mu][i] ;
     }
     GLU_real tr ;
     trace_ab_herm_short( &tr , temp , temp ) ;
@@ -182,10 +184,7 @@ steep_Landau_FA( double *red ,
 		 struct site *lat ,
 		 struct fftw_stuff *FFTW )
 {
-  // do a steepest-descents step with the result in "out"
-  FA_deriv( red , FFTW -> in , lat ) ;
-  
-  // and do the fourier acceleration
+  // do the fourier acceleration on the derivative
   FOURIER_ACCELERATE3( FFTW ) ;
   
   // and step length gf_alpha provided from the input file
@@ -219,7 +218,8 @@ steep_Landau_FASD( struct site *lat ,
     CG -> red[k] = 0.0 ;
   }
   
-  steep_Landau_FA( CG -> red , lat , FFTW ) ;
+  // do a steepest-descents step with the result in "out"
+  FA_deriv( CG -> red , FFTW -> in , lat ) ;
 
   double trAA = 0.0 ;
   for( k = 0 ; k < Latt.Nthreads ; k++ ) {
@@ -228,8 +228,15 @@ steep_Landau_FASD( struct site *lat ,
   *tr = trAA * GFNORM_LANDAU ;
 
   loc_iters++ ;
+
+  // this is the accuracy of the fields as they are now, if it is good
+  // enough they should not be touched again
+  if( *tr <= acc ) return loc_iters ;
+
+  // otherwise step
+  steep_Landau_FA( CG -> red , lat , FFTW ) ;
   
-  if( ( *tr > acc ) && ( loc_iters < max_iters ) ) goto top ;
+  if( loc_iters < max_iters ) goto top ;
 
   return loc_iters ;
 }
@@ -246,6 +253,7 @@ steep_Landau_FACG( struct site *lat ,
   double trAA = 0.0 , inold = 0.0 , insum = 0.0 , sum_conj = 0.0 ;
     
   // perform an SD start
+  FA_deriv( CG -> red , FFTW -> in , lat ) ;
   steep_Landau_FA( CG -> red , lat , FFTW ) ;
 
   for( k = 0 ; k < Latt.Nthreads ; k++ ) {
@@ -289,6 +297,12 @@ steep_Landau_FACG( struct site *lat ,
     trAA += CG -> red[ LINE_NSTEPS + 2 + k*CLINE ] ;
   }
   *tr = trAA * GFNORM_LANDAU ;
+
+  loc_iters++ ;
+
+  // this is the accuracy of the fields as they are now, if it is good
+  // enough they should not be touched again
+  if( *tr <= acc ) return loc_iters ;
   
   // and FA
   FOURIER_ACCELERATE3( FFTW ) ;
@@ -332,10 +346,8 @@ steep_Landau_FACG( struct site *lat ,
     egauge_Landau( lat , (const GLU_complex**)CG -> sn , Latt.gf_alpha ) ;
   }
 
-  loc_iters++ ;
-  
   // increment
-  if( ( *tr > acc ) && ( loc_iters < max_iters ) ) goto top ;
+  if( loc_iters < max_iters ) goto top ;
   
   return loc_iters ;
 }
@@ -359,12 +371,14 @@ FACG( struct site *lat ,
   struct CGtemps CG ;
   if( allocate_temp_lg( &CG , GLU_TRUE ) == GLU_FAILURE ) {
     fprintf( stderr , "[FACG] allocation of temporaries failed\n" ) ;
+    iters = 123456789 ;
     goto end ;
   }
 
 #pragma omp parallel
   {
     size_t loc_iters = 1 ;
+    double last_th = 1E3*acc ;
   top :
     loc_iters = steep_Landau_FACG( lat , FFTW , &CG , th ,
 				   acc , max_iters ) ;
@@ -374,14 +388,18 @@ FACG( struct site *lat ,
       iters = loc_iters ;
     }
     
-    if( loc_iters >= max_iters ) {
-      if( ( *th < 1E3*acc ) ) {
+    // continue if we are close and still getting closer
+    if( loc_iters >= max_iters && !( *th <= acc ) ) {
+      if( *th < last_th ) {
+	last_th = *th ;
 	#pragma omp master
 	{
 	  fprintf( stdout , "[GF] Continuation run \n" ) ;
 	}
 	goto top ;
-      } else {
+      }
+      #pragma omp master
+      {
 	iters = 123456789 ;
       }
     }
@@ -413,33 +431,38 @@ FASD( struct site *lat ,
   struct CGtemps CG ;
   if( allocate_temp_lg( &CG , GLU_FALSE ) == GLU_FAILURE ) {
     fprintf( stderr , "[FACG] allocation of temporaries failed\n" ) ;
+    iters = 123456789 ;
     goto end ;
   }
 
 #pragma omp parallel
   {
-    size_t loc_iters = 1 ;    
+    size_t loc_iters = 1 ;
+    double last_th = 1E3*acc ;
   top :
     loc_iters = steep_Landau_FASD( lat , FFTW , &CG , th ,
 				   acc , max_iters ) ;
     
-    if( loc_iters >= max_iters ) {
-      if( ( *th < 1E3*acc ) ) {
-	loc_iters = 0 ;
+    #pragma omp master
+    {
+      iters += loc_iters ;
+    }
+
+    // continue if we are close and still getting closer
+    if( loc_iters >= max_iters && !( *th <= acc ) ) {
+      if( *th < last_th ) {
+	last_th = *th ;
 	#pragma omp master
 	{
-	  iters += loc_iters ;
 	  fprintf( stdout , "[GF] Continuation run \n" ) ;
 	}
 	goto top ;
-      } else {
+      }
+      #pragma omp master
+      {
 	iters = 123456789 ;
       }
     }
-#pragma omp master
-    {
-      iters += loc_iters ;
-    }
   }
 
  end :
diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 17d4235..4285cad 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -95,7 +95,8 @@ luxury_copy_fast( struct site *lat ,
 		  const double acc ,
 		  const size_t max_iters ) 
 {
-  size_t i , iters = 0 , copies ;
+  size_t i , iters = 123456789 , copies ;
+  GLU_bool found = GLU_FALSE ;
 
   struct site *lat_copy = NULL , *lat_best = NULL ;
   GLU_complex **gauge = NULL ;
@@ -158,6 +159,7 @@ luxury_copy_fast( struct site *lat ,
     #endif
       {
 	maxlink = newlink ;
+	found = GLU_TRUE ;
 	fprintf( stdout , " -> Copy accepted\n" ) ;
 	// copy our lattice fields
         #pragma omp parallel for private(i)
@@ -174,20 +176,22 @@ luxury_copy_fast( struct site *lat ,
   }
 
  
-  // set our lattice to our chosen copy
+  // set our lattice to our chosen copy, if there is one
+  if( found == GLU_TRUE ) {
 #pragma omp parallel for private(i)
-  for( i = 0 ; i < LVOLUME ; i++ ) {
-    size_t mu ;
-    for( mu = 0 ; mu < ND ; mu++ ) {
-      equiv( lat[i].O[mu] , lat_best[i].O[mu] ) ;
+    for( i = 0 ; i < LVOLUME ; i++ ) {
+      size_t mu ;
+      for( mu = 0 ; mu < ND ; mu++ ) {
+	equiv( lat[i].O[mu] , lat_best[i].O[mu] ) ;
+      }
     }
   }
   
   // final convergence run god I hope this one doesn't fail! Pretty unlikely
   #ifdef GLU_GFIX_SD
-  iters += FASD( lat , FFTW , tr , acc , max_iters ) ; 
+  iters = FASD( lat , FFTW , tr , acc , max_iters ) ; 
   #else
-  iters += FACG( lat , FFTW , tr , acc , max_iters ) ; 
+  iters = FACG( lat , FFTW , tr , acc , max_iters ) ; 
   #endif
   
   printf( "FINISHED\n" ) ;
@@ -324,6 +328,7 @@ Landau( struct site *lat ,
     print_failure_info( failure , max_iter , theta ) ;
     
     size_t iters_loc = 0 ;
+    iters = max_iter ;
     for( failure = 1 ; failure < GF_GLU_FAILURES ; failure++ ) {
       //repeat procedure have to read in the file :( 
       if( grab_file( lat , gauge , infile ) == GLU_FAILURE ) { 
-- 
2.43.0


From 980b6956e2945e1a80101750ed239d2f5db6ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:30 +0000
Subject: [PATCH 83/91] fix: C08 Coulomb gauge fixing reports slices that did
 not converge

---
 src/Gfix/CFACG.c       | 66 +++++++++++++++++++++++++++---------------
 src/Headers/CFACG.h    |  2 +-
 src/Headers/Coulomb.h  |  2 +-
 src/Wrappers/GF_wrap.c | 14 +++++----
 4 files changed, 53 insertions(+), 31 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index bc8977a..86f267f 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -49,7 +49,7 @@ get_info( const size_t t ,
   {
     if( t == 0 ) {
       fprintf( stdout , "\n" ) ;
-    } if( tr < accuracy ) {
+    } if( tr <= accuracy ) {
       fprintf( stdout , "[GF] Slice :: %zu {Stopped by convergence} "
 	       "\n[GF] Accuracy :: %1.5e"
 	       " || Iterations :: %zu\n[GF] Failures :: %d\n" , 
@@ -185,7 +185,8 @@ sum_DER2( double *red ,
     GLU_complex temp[ HERMSIZE ] ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp[mu] = in[mu][i] ;
+      // this is hermitian, "in" is antihermitian
+      temp[mu] = -I * in[mu][i] ;
     }
     GLU_real tr ;
     trace_ab_herm_short( &tr , temp , temp ) ;
@@ -232,8 +233,9 @@ sum_PR( double *red ,
     GLU_complex temp1[ HERMSIZE ] , temp2[ HERMSIZE ] ;
     size_t mu ;
     for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
-      temp1[mu] = in[mu][i] ;
-      temp2[mu] = in[mu][i] - in_old[mu][i] ;
+      // these are hermitian, "in" is antihermitian
+      temp1[mu] = -I * in[mu][i] ;
+      temp2[mu] = -I * ( in[mu][i] - in_old[mu][i] ) ;
     }
     GLU_real tr1 , tr2 ;
     trace_ab_herm_short( &tr1 , temp1 , temp1 ) ;
@@ -258,7 +260,7 @@ sum_PR( double *red ,
   return ;
 }
 
-// perform a Fourier-accelerated SD step
+// perform a SD step with the Fourier-accelerated derivative
 static void
 steep_step_SD( GLU_complex **slice_gauge , 
 	       struct CGtemps CG ,
@@ -266,11 +268,6 @@ steep_step_SD( GLU_complex **slice_gauge ,
 	       const struct site *lat , 
 	       const size_t t )
 {
-  steep_deriv_CG( FFTW -> in , lat , (const GLU_complex**)slice_gauge , t ) ;
-
-  // if we want to Fourier accelerate, we call this otherwise it is the SD
-  FOURIER_ACCELERATE2( FFTW ) ;
-  
 #if !(defined GLU_GFIX_SD) && !(defined GLU_FR_CG)
   line_search_Coulomb( CG.red , slice_gauge , CG.db , lat , 
 		       (const GLU_complex**)FFTW -> in , t ) ;
@@ -346,6 +343,12 @@ steep_step_FACG( GLU_complex **gauge ,
     sum_conj += CG.red[ LINE_NSTEPS + 1 + CLINE*k ] ;
   }
   *tr = insum * GFNORM_COULOMB ;
+
+  loc_iters++ ;
+
+  // this is the accuracy of the fields as they are now, if it is good
+  // enough they should not be touched again
+  if( *tr <= accuracy ) return loc_iters ;
   
   // compute the beta value, who knows what value is best?
   double beta = PRfmax( 0.0 , sum_conj / inold ) ;
@@ -377,10 +380,8 @@ steep_step_FACG( GLU_complex **gauge ,
 			   (const GLU_complex**)CG.sn , Latt.gf_alpha ) ;
   }
 
-  loc_iters++ ;
-
   // increment
-  if( ( *tr > accuracy ) && ( loc_iters < max_iters ) ) goto top ;
+  if( loc_iters < max_iters ) goto top ;
   
   return loc_iters ;
 }
@@ -415,7 +416,10 @@ steep_step_FASD( GLU_complex **gauge ,
     CG.red[ k ] = 0.0 ;
   }
   
-  steep_step_SD( gauge , CG , FFTW , lat , t ) ;
+  steep_deriv_CG( FFTW -> in , lat , (const GLU_complex**)gauge , t ) ;
+
+  // if we want to Fourier accelerate, we call this otherwise it is the SD
+  FOURIER_ACCELERATE2( FFTW ) ;
 
   sum_DER2( CG.red , (const GLU_complex**)FFTW -> in ) ;
 
@@ -427,8 +431,14 @@ steep_step_FASD( GLU_complex **gauge ,
   *tr = trAA * GFNORM_COULOMB ;
   
   loc_iters++ ;
+
+  // this is the accuracy of the fields as they are now, if it is good
+  // enough they should not be touched again
+  if( *tr <= accuracy ) return loc_iters ;
+
+  steep_step_SD( gauge , CG , FFTW , lat , t ) ;
   
-  if( ( *tr > accuracy ) && ( loc_iters < max_iters) ) goto top ;
+  if( loc_iters < max_iters ) goto top ;
   
   return loc_iters ;
 }
@@ -476,10 +486,11 @@ steep_fix( GLU_complex **gauge ,
 			const struct site *lat , 
 			const size_t t ,
 			const double accuracy , 
-			const size_t max_iters ) )
+			const size_t max_iters ) ,
+	   int *flag )
 {
   // perform a Fourier accelerated step, this is where the CG can go ...
-    double tr = 1.0 ;
+    double tr = 1.0 , last_tr = 1E4*accuracy ;
     size_t loc_iters = 0 , tot_iters = 0 , control = 0 ;
     GLU_bool trans_flag = GLU_FALSE ;
 
@@ -489,7 +500,7 @@ steep_fix( GLU_complex **gauge ,
 		   lat , t , accuracy , max_iters ) ;
     
     // quick test for unitarity of our gauge transformation matrices
-    if( tr < accuracy ) {
+    if( tr <= accuracy ) {
       if( adequate_solution( gauge , loc_iters > 0 ? loc_iters : 1 ) 
 	  == GLU_FALSE ) {
 	trans_flag = GLU_TRUE ;
@@ -497,8 +508,10 @@ steep_fix( GLU_complex **gauge ,
     }
 
     // attempt a continuation run if we are close to the desired accuracy
-    if( loc_iters >= (max_iters) ) {
-      if( tr < 1E4*accuracy && !isnan( tr ) && !isinf( tr ) ) {
+    // and still getting closer to it
+    if( loc_iters >= (max_iters) && !( tr <= accuracy ) ) {
+      if( tr < last_tr && !isnan( tr ) && !isinf( tr ) ) {
+	last_tr = tr ;
 	tot_iters += loc_iters ;
 	goto top ;
       }
@@ -521,6 +534,7 @@ steep_fix( GLU_complex **gauge ,
       }
       tot_iters += loc_iters ;
       control++ ;
+      last_tr = 1E4*accuracy ;
       trans_flag = GLU_FALSE ;
       goto top ;
     }
@@ -529,6 +543,9 @@ steep_fix( GLU_complex **gauge ,
     // get the general gauge fixing information
     get_info( t , tr , tot_iters , control , accuracy ) ;
 
+    // this slice did not make it
+    if( !( tr <= accuracy ) ) { *flag = GLU_FAILURE ; }
+
     return tot_iters ;
 }
 
@@ -576,6 +593,7 @@ Coulomb_FA( struct site  *__restrict lat ,
   #pragma omp parallel
   {
     size_t t = 0 , i , thread_its = 0 ;
+    int flag = GLU_SUCCESS ;
     #ifdef OBC_HACK
     const double bcval = 1E-7 ;
     #else
@@ -583,11 +601,11 @@ Coulomb_FA( struct site  *__restrict lat ,
     #endif
     // OK so we have set up the gauge transformation matrices
     thread_its = steep_fix( G.g_end , CG , FFTW ,
-			    lat , t , bcval , max_iter , f ) ;
+			    lat , t , bcval , max_iter , f , &flag ) ;
     
     // and t+1
     thread_its += steep_fix( G.g , CG , FFTW ,
-			     lat , t+1 , accuracy , max_iter , f ) ;
+			     lat , t+1 , accuracy , max_iter , f , &flag ) ;
        
     //gauge transform the links at x and set slice_gauge_up to be slice_gauge
     gtransform_slice_th( (const GLU_complex **)G.g_end , lat , 
@@ -602,7 +620,7 @@ Coulomb_FA( struct site  *__restrict lat ,
       // gauge fix on this slice
       thread_its += steep_fix( G.g_up , CG , FFTW , lat ,
 			       t , t==Latt.dims[ND-1]-1?bcval:accuracy ,
-			       max_iter , f ) ;
+			       max_iter , f , &flag ) ;
             
       //gauge transform the links for this slice "g"
       gtransform_slice_th( (const GLU_complex **)G.g , lat , 
@@ -624,7 +642,7 @@ Coulomb_FA( struct site  *__restrict lat ,
 
 #pragma omp master
     {
-      tot_its = thread_its ;
+      tot_its = ( flag == GLU_SUCCESS ) ? thread_its : 0 ;
     }
   }
 
diff --git a/src/Headers/CFACG.h b/src/Headers/CFACG.h
index b8d046e..88e528a 100755
--- a/src/Headers/CFACG.h
+++ b/src/Headers/CFACG.h
@@ -31,7 +31,7 @@
    @param accuracy :: the accuracy we wish to attain
    @param max_iter :: the maximum number of (per slice) iterations we wish to have before random transform
    @param FACG :: are we using the CG routines?
-   @return the maximum number of iterations (i.e. the sum of each slice's) or 0 if something went wrong
+   @return the maximum number of iterations (i.e. the sum of each slice's) or 0 if something went wrong or a slice did not converge
  */
 size_t
 Coulomb_FA( struct site  *__restrict lat , 
diff --git a/src/Headers/Coulomb.h b/src/Headers/Coulomb.h
index 8d93ef4..49d8aa3 100755
--- a/src/Headers/Coulomb.h
+++ b/src/Headers/Coulomb.h
@@ -34,7 +34,7 @@
    @param accuracy :: Gauge fixing accuracy we are iterating to
    @param iter :: Maximum number of iterations before restarting
 
-   @return the number of iterations
+   @return the number of iterations or 0 if something went wrong or a slice did not converge
  */
 size_t 
 Coulomb( struct site *__restrict lat , 
diff --git a/src/Wrappers/GF_wrap.c b/src/Wrappers/GF_wrap.c
index e8ce2d1..e15f60d 100755
--- a/src/Wrappers/GF_wrap.c
+++ b/src/Wrappers/GF_wrap.c
@@ -46,17 +46,21 @@ GF_wrap_coulomb( struct site *lat ,
   if( have_memory_Cgf( ) == GLU_FAILURE ) { return GLU_FAILURE ; }
 
 #ifdef OVERRELAXED_GF
-  // we could check iters if we wanted, actually we do want to
   double acc ;
-  OrCoulomb( lat , &acc , GFINFO.max_iters ,
-	     GFINFO.accuracy , Latt.gf_alpha ) ;
+  const size_t iters = OrCoulomb( lat , &acc , GFINFO.max_iters ,
+				  GFINFO.accuracy , Latt.gf_alpha ) ;
 #else
-  // we could check iters if we wanted, actually we do want to
-  Coulomb( lat , GFINFO.accuracy , GFINFO.max_iters ) ; 
+  const size_t iters = Coulomb( lat , GFINFO.accuracy , GFINFO.max_iters ) ;
 #endif
 
   print_time() ;
 
+  // no iterations means that something went wrong
+  if( iters == 0 ) {
+    fprintf( stderr , "[GF] Coulomb gauge fixing did not converge \n" ) ;
+    return GLU_FAILURE ;
+  }
+
   return GLU_SUCCESS ;
 }
 
-- 
2.43.0


From 5a3456c8720cbe5bc72b22136bbba9ac347a81b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 84/91] fix: C08 residual gauge fixing of vanishing subgroup
 sums

---
 src/Gfix/MAG.c          |  8 +++++++-
 src/Matrix_Ops/givens.c | 14 ++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/Gfix/MAG.c b/src/Gfix/MAG.c
index 031c2e5..41e4266 100755
--- a/src/Gfix/MAG.c
+++ b/src/Gfix/MAG.c
@@ -198,7 +198,13 @@ residual_fix( struct site *lat )
       a_plus_b( sum , lat[ i + LCU*t ].O[ND-1] ) ;
     }
     // turn it into the average ... not needed?
-    for( i = 0 ; i < NCNC ; i++ ) { sum[i] *= one_LCU ; }
+    double norm = 0.0 ;
+    for( i = 0 ; i < NCNC ; i++ ) {
+      sum[i] *= one_LCU ;
+      norm += creal( sum[i] ) * creal( sum[i] ) + cimag( sum[i] ) * cimag( sum[i] ) ;
+    }
+    // an average that vanishes has no direction
+    if( norm < PREC_TOL*PREC_TOL ) { identity( sum ) ; }
 
     // project the sum of the temporal links back to SU(NC) 
     // two ways of doing this I can think of
diff --git a/src/Matrix_Ops/givens.c b/src/Matrix_Ops/givens.c
index 1edf939..e232f46 100755
--- a/src/Matrix_Ops/givens.c
+++ b/src/Matrix_Ops/givens.c
@@ -62,6 +62,8 @@ rotation1( GLU_complex *U ,
   register __m128d sum = _mm_add_pd( _mm_mul_pd( s0 , s0 ) ,
 				     _mm_mul_pd( s1 , s1 ) ) ;
   sum = _mm_add_pd( sum , _mm_shuffle_pd( sum , sum , 1 ) ) ;
+  // no rotation improves on this
+  if( _mm_cvtsd_f64( sum ) == 0.0 ) return ;
   sum = _mm_sqrt_pd( sum ) ;
   s0  = _mm_div_pd( s0 , sum ) ;
   s1  = _mm_div_pd( s1 , sum ) ;  
@@ -117,6 +119,8 @@ rotation2( GLU_complex *U ,
   register __m128d sum = _mm_add_pd( _mm_mul_pd( s0 , s0 ) ,
 				     _mm_mul_pd( s1 , s1 ) ) ;
   sum = _mm_add_pd( sum , _mm_shuffle_pd( sum , sum , 1 ) ) ;
+  // no rotation improves on this
+  if( _mm_cvtsd_f64( sum ) == 0.0 ) return ;
   sum = _mm_sqrt_pd( sum ) ;
   s0  = _mm_div_pd( s0 , sum ) ;
   s1  = _mm_div_pd( s1 , sum ) ;  
@@ -172,6 +176,8 @@ rotation3( GLU_complex *U ,
   register __m128d sum = _mm_add_pd( _mm_mul_pd( s0 , s0 ) ,
 				     _mm_mul_pd( s1 , s1 ) ) ;
   sum = _mm_add_pd( sum , _mm_shuffle_pd( sum , sum , 1 ) ) ;
+  // no rotation improves on this
+  if( _mm_cvtsd_f64( sum ) == 0.0 ) return ;
   sum = _mm_sqrt_pd( sum ) ;
   s0  = _mm_div_pd( s0 , sum ) ;
   s1  = _mm_div_pd( s1 , sum ) ;
@@ -229,6 +235,8 @@ rotation1( GLU_complex U[ NCNC ] ,
 {
   register GLU_complex s0 = U[0] + conj( U[4] ) ;
   register GLU_complex s1 = U[1] - conj( U[3] ) ;
+  // no rotation improves on this
+  if( s0 == 0.0 && s1 == 0.0 ) return ;
   const double scale = 1.0 / sqrt( creal(s0)*creal(s0) + cimag(s0)*cimag(s0) + \
 				   creal(s1)*creal(s1) + cimag(s1)*cimag(s1) ) ;  
   s0 *= scale ;
@@ -277,6 +285,8 @@ rotation2( GLU_complex U[ NCNC ] ,
 {
   register GLU_complex s0 = U[4] + conj( U[8] ) ;
   register GLU_complex s1 = U[5] - conj( U[7] ) ;
+  // no rotation improves on this
+  if( s0 == 0.0 && s1 == 0.0 ) return ;
   const double scale = 1.0 / sqrt( creal(s0)*creal(s0) + cimag(s0)*cimag(s0) + \
 				   creal(s1)*creal(s1) + cimag(s1)*cimag(s1) ) ;
   s0 *= scale ;
@@ -326,6 +336,8 @@ rotation3( GLU_complex U[ NCNC ] ,
 {
   register GLU_complex s0 = U[8] + conj( U[0] ) ;
   register GLU_complex s1 = U[6] - conj( U[2] ) ;
+  // no rotation improves on this
+  if( s0 == 0.0 && s1 == 0.0 ) return ;
   const double scale = 1.0 / sqrt( creal(s0)*creal(s0) + cimag(s0)*cimag(s0) + \
 				   creal(s1)*creal(s1) + cimag(s1)*cimag(s1) ) ;
   s0 *= scale ;
@@ -379,6 +391,8 @@ rotation( GLU_complex U[ NCNC ] ,
   register GLU_complex s1 = U[b] - conj( U[c] ) ;
 
   // I know how to hypot this, but don't know whether it is worth it
+  // no rotation improves on this
+  if( s0 == 0.0 && s1 == 0.0 ) return ;
   const double scale = 1.0 / sqrt( creal(s0)*creal(s0) + cimag(s0)*cimag(s0) + \
 				   creal(s1)*creal(s1) + cimag(s1)*cimag(s1) ) ;
   s0 *= scale ;
-- 
2.43.0


From 9cbd8ee5926a06e247d01401ac8b6d58bdff0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 85/91] fix: C08 gauge fixing neither leaves the gauge group
 nor follows an uphill search direction

---
 src/Gfix/CFACG.c | 39 +++++++++++++++++++++++++++++++++----
 src/Gfix/CG.c    | 26 +++++++++++++++++++++++++
 src/Gfix/FACG.c  | 50 +++++++++++++++++++++++++++++++++++++++++++-----
 src/Headers/CG.h |  9 +++++++++
 4 files changed, 115 insertions(+), 9 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index 86f267f..6e38adc 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -88,6 +88,21 @@ FOURIER_ACCELERATE2( struct fftw_stuff *FFTW )
   return ;
 }
 
+// rounding errors of the transformation steps are not damped
+#define REUNIT_STEPS (25)
+
+// put the gauge transformation matrices back into the gauge group
+static void
+reunit_gauge( GLU_complex **gauge )
+{
+  size_t i ;
+#pragma omp for private(i)
+  for( i = 0 ; i < LCU ; i ++ ) {
+    gram_reunit( gauge[i] ) ;
+  }
+  return ;
+}
+
 // bit that calculates the steepest descent with fourier acceleration
 static void
 steep_deriv_CG( GLU_complex **in ,
@@ -206,7 +221,8 @@ sum_DER2( double *red ,
 static void
 sum_PR( double *red ,
 	const GLU_complex **in , 
-	const GLU_complex **in_old )
+	const GLU_complex **in_old ,
+	const GLU_complex **sn )
 {
   double c[2] = { 0. , 0. } ;
   size_t i ;
@@ -255,6 +271,8 @@ sum_PR( double *red ,
     const double t2 = red[ LINE_NSTEPS + 1 + th * CLINE ] + y2 ;
     c[1] = ( t2 - red[ LINE_NSTEPS + 1 + th * CLINE ] ) - y2 ;
     red[ LINE_NSTEPS + 1 + th * CLINE ] = t2 ;
+
+    red[ LINE_NSTEPS + 3 + th * CLINE ] += trace_deriv_product( in , sn , i ) ;
   }
 
   return ;
@@ -292,7 +310,7 @@ steep_step_FACG( GLU_complex **gauge ,
 {
   // loop a set number of CG-iterations
   size_t k , i , loc_iters = 0 ;
-  double trAA = 0.0 , inold = 0.0 , insum = 0.0 , sum_conj = 0.0 ;
+  double trAA = 0.0 , inold = 0.0 , insum = 0.0 , sum_conj = 0.0 , sum_sn = 0.0 ;
   
   // set everything to zero
   #pragma omp for private(k)
@@ -311,6 +329,9 @@ steep_step_FACG( GLU_complex **gauge ,
     inold += CG.red[ LINE_NSTEPS + CLINE*k ] ;
   }
   *tr = inold * GFNORM_COULOMB ;
+
+  // nothing to be done
+  if( *tr <= accuracy ) return 1 ;
   
   line_search_Coulomb( CG.red , gauge , CG.db , lat , 
 		       (const GLU_complex**)FFTW -> in , t ) ;
@@ -325,22 +346,26 @@ steep_step_FACG( GLU_complex **gauge ,
  top :
 
   // set everything to zero
-  insum = sum_conj =  trAA = 0.0 ;
+  insum = sum_conj = sum_sn = trAA = 0.0 ;
   for( k = 0 ; k < LINE_NSTEPS + CLINE*Latt.Nthreads ; k++ ) {
     CG.red[ k ] = 0.0 ;
   }
+
+  if( loc_iters%REUNIT_STEPS == 0 ) { reunit_gauge( gauge ) ; }
   
   steep_deriv_CG( FFTW -> in , lat , (const GLU_complex**)gauge ,  t ) ;
   
   FOURIER_ACCELERATE2( FFTW ) ;
   
   sum_PR( CG.red , (const GLU_complex**)FFTW -> in ,
-	  (const GLU_complex**)CG.in_old ) ;
+	  (const GLU_complex**)CG.in_old ,
+	  (const GLU_complex**)CG.sn ) ;
 
   // reduction happens for all threads
   for( k = 0 ; k < Latt.Nthreads ; k++ ) {
     insum    += CG.red[ LINE_NSTEPS + CLINE*k ] ;
     sum_conj += CG.red[ LINE_NSTEPS + 1 + CLINE*k ] ;
+    sum_sn   += CG.red[ LINE_NSTEPS + 3 + CLINE*k ] ;
   }
   *tr = insum * GFNORM_COULOMB ;
 
@@ -360,6 +385,10 @@ steep_step_FACG( GLU_complex **gauge ,
   if( !( inold > 0.0 ) ) {
     beta = 0.0 ;
   }
+  // restart if the search direction does not go downhill
+  if( !( insum + beta * sum_sn > 0.0 ) ) {
+    beta = 0.0 ;
+  }
   inold = insum ;
   
   #pragma omp for private(i)
@@ -415,6 +444,8 @@ steep_step_FASD( GLU_complex **gauge ,
   for( k = 0 ; k < LINE_NSTEPS + CLINE*Latt.Nthreads ; k++ ) {
     CG.red[ k ] = 0.0 ;
   }
+
+  if( loc_iters%REUNIT_STEPS == 0 ) { reunit_gauge( gauge ) ; }
   
   steep_deriv_CG( FFTW -> in , lat , (const GLU_complex**)gauge , t ) ;
 
diff --git a/src/Gfix/CG.c b/src/Gfix/CG.c
index db262ee..4d383da 100755
--- a/src/Gfix/CG.c
+++ b/src/Gfix/CG.c
@@ -40,6 +40,32 @@ PRfmax( const double a , const double b )
   return ( b < a ? a : b ) ;
 }
 
+// trace of the product of two derivatives
+double
+trace_deriv_product( const GLU_complex **a ,
+		     const GLU_complex **b ,
+		     const size_t i )
+{
+#if NC == 3
+  return 2.0 * ( creal( a[0][i] ) * creal( b[0][i] ) + cimag( a[0][i] ) * cimag( b[0][i] )
+		 + creal( a[1][i] ) * creal( b[1][i] ) + cimag( a[1][i] ) * cimag( b[1][i] )
+		 + creal( a[2][i] ) * creal( b[2][i] ) + cimag( a[2][i] ) * cimag( b[2][i] )
+		 + creal( a[3][i] ) * creal( b[3][i] ) + cimag( a[3][i] ) * cimag( b[3][i] ) )
+    + creal( a[0][i] ) * cimag( b[0][i] ) + cimag( a[0][i] ) * creal( b[0][i] ) ;
+#else
+  GLU_complex A[ HERMSIZE ] GLUalign , B[ HERMSIZE ] GLUalign ;
+  GLU_real tr ;
+  size_t mu ;
+  for( mu = 0 ; mu < HERMSIZE ; mu++ ) {
+    // these are hermitian, the derivatives are antihermitian
+    A[mu] = -I * a[mu][i] ;
+    B[mu] = -I * b[mu][i] ;
+  }
+  trace_ab_herm_short( &tr , A , B ) ;
+  return (double)tr ;
+#endif
+}
+
 // this is the same between Landau and Coulomb so I put it here
 // I know that this probably cache misses really badly, the difficulty is
 // that fftw wants the "in" matrix to be ordered this way
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 6ee5104..1b17802 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -27,6 +27,7 @@
 #include "CG.h"          // routines used by both CG codes
 #include "CGalloc.h"     // CG temporary allocations
 #include "GLU_sums.h"    // round off resistant summations
+#include "gramschmidt.h" // for reunitarisation
 #include "gftests.h"     // theta_test stopping condition
 #include "gtrans.h"      // gauge transformations
 #include "lin_derivs.h"  // linear approximation of lie matrices
@@ -34,6 +35,24 @@
 #include "log_derivs.h"  // log-def of lie matrices 
 #include "plaqs_links.h" // plaquette routine might be called
 
+// rounding errors of the transformation steps are not damped
+#define REUNIT_STEPS (25)
+
+// put the links back into the gauge group
+static void
+reunit_links( struct site *lat )
+{
+  size_t i ;
+  #pragma omp for private(i)
+  for( i = 0 ; i < LVOLUME ; i++ ) {
+    size_t mu ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      gram_reunit( lat[i].O[mu] ) ;
+    }
+  }
+  return ;
+}
+
 static int
 FA_deriv( double *red ,
 	  GLU_complex **in , 
@@ -98,7 +117,8 @@ FOURIER_ACCELERATE3( struct fftw_stuff *FFTW )
 static void
 sum_PR3( double *red ,
 	 const GLU_complex **in , 
-	 const GLU_complex **in_old )
+	 const GLU_complex **in_old ,
+	 const GLU_complex **sn )
 {
   size_t i ;
 #pragma omp for private(i)
@@ -141,6 +161,7 @@ sum_PR3( double *red ,
     const size_t th = get_GLU_thread() ;
     red[ LINE_NSTEPS + 0 + th * CLINE ] += loc_sum1 ;
     red[ LINE_NSTEPS + 1 + th * CLINE ] += loc_sum2 ;
+    red[ LINE_NSTEPS + 3 + th * CLINE ] += trace_deriv_product( in , sn , i ) ;
   }
   return ;
 }
@@ -217,6 +238,8 @@ steep_Landau_FASD( struct site *lat ,
   for( k = 0 ; k < CLINE*Latt.Nthreads ; k++ ) {
     CG -> red[k] = 0.0 ;
   }
+
+  if( loc_iters%REUNIT_STEPS == 0 ) { reunit_links( lat ) ; }
   
   // do a steepest-descents step with the result in "out"
   FA_deriv( CG -> red , FFTW -> in , lat ) ;
@@ -250,16 +273,25 @@ steep_Landau_FACG( struct site *lat ,
 		   const size_t max_iters )
 {  
   size_t k , loc_iters = 0  ;
-  double trAA = 0.0 , inold = 0.0 , insum = 0.0 , sum_conj = 0.0 ;
+  double trAA = 0.0 , inold = 0.0 , insum = 0.0 , sum_conj = 0.0 , sum_sn = 0.0 ;
     
+  #pragma omp for private(k)
+  for( k = 0 ; k < CLINE*Latt.Nthreads ; k++ ) {
+    CG -> red[k] = 0.0 ;
+  }
+
   // perform an SD start
   FA_deriv( CG -> red , FFTW -> in , lat ) ;
-  steep_Landau_FA( CG -> red , lat , FFTW ) ;
 
   for( k = 0 ; k < Latt.Nthreads ; k++ ) {
     trAA += CG -> red[ LINE_NSTEPS + 2 + k*CLINE ] ;
   }
   *tr = trAA * GFNORM_LANDAU ;
+
+  // nothing to be done
+  if( *tr <= acc ) return loc_iters ;
+
+  steep_Landau_FA( CG -> red , lat , FFTW ) ;
   
   size_t i ;
 #pragma omp for private(i)
@@ -283,11 +315,13 @@ steep_Landau_FACG( struct site *lat ,
   }
 
   // might not need a barrier here... not sure
-  trAA = insum = sum_conj = 0.0 ;
+  trAA = insum = sum_conj = sum_sn = 0.0 ;
   #pragma omp for private(k)
   for( k = 0 ; k < CLINE*Latt.Nthreads ; k++ ) {
     CG -> red[k] = 0.0 ;
   }
+
+  if( loc_iters%REUNIT_STEPS == 0 ) { reunit_links( lat ) ; }
   
   // this ONLY works with out and in, make sure that is what we use
   FA_deriv( CG -> red , FFTW -> in , lat ) ;
@@ -309,12 +343,14 @@ steep_Landau_FACG( struct site *lat ,
   
   // is the sum of the trace of in * in_old
   sum_PR3( CG -> red , (const GLU_complex**)FFTW -> in , 
-	   (const GLU_complex**)CG -> in_old ) ; 
+	   (const GLU_complex**)CG -> in_old ,
+	   (const GLU_complex**)CG -> sn ) ; 
   
   // reduction happens for all threads
   for( k = 0 ; k < Latt.Nthreads ; k++ ) {
     insum    += CG -> red[ LINE_NSTEPS + CLINE*k ] ;
     sum_conj += CG -> red[ LINE_NSTEPS + 1 + CLINE*k ] ;
+    sum_sn   += CG -> red[ LINE_NSTEPS + 3 + CLINE*k ] ;
   }
       
   // compute the beta value, who knows what value is best?
@@ -328,6 +364,10 @@ steep_Landau_FACG( struct site *lat ,
   if( !( inold > 0.0 ) ) {
     beta = 0.0 ;
   }
+  // restart if the search direction does not go downhill
+  if( !( insum + beta * sum_sn > 0.0 ) ) {
+    beta = 0.0 ;
+  }
   inold = insum ;
   
 #pragma omp for private(i)
diff --git a/src/Headers/CG.h b/src/Headers/CG.h
index 0a2853e..8eadacd 100755
--- a/src/Headers/CG.h
+++ b/src/Headers/CG.h
@@ -30,6 +30,15 @@
 double
 PRfmax( const double a , const double b ) ;
 
+/**
+   @fn double trace_deriv_product( const GLU_complex **a , const GLU_complex **b , const size_t i )
+   @brief returns the trace of the product of two derivatives at site i
+ */
+double
+trace_deriv_product( const GLU_complex **a ,
+		     const GLU_complex **b ,
+		     const size_t i ) ;
+
 /**
    @fn void set_gauge_matrix( GLU_complex *__restrict gx , const GLU_complex *__restrict *__restrict in , const double alpha , const size_t i ) 
    @brief unpacks and exponentiates the derivative into the array gx at site i
-- 
2.43.0


From c6e4bd6eb5467250b9fbf0055164f1b5338d3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:49 +0000
Subject: [PATCH 86/91] fix: C22 refused memory and output files are reported

---
 src/Cuts/3Dcuts.c            | 18 +++++++++---
 src/Cuts/MOMgg.c             |  4 +--
 src/Cuts/MOMggg.c            | 18 ++++++------
 src/Cuts/config_gluons.c     | 11 ++++++--
 src/Cuts/cut_output.c        | 23 +++++++++------
 src/Cuts/cut_routines.c      | 12 ++++----
 src/Cuts/cuts.c              | 11 ++++++--
 src/Cuts/glueprop.c          |  4 +--
 src/Cuts/smearing_param.c    | 29 ++++++++++++++-----
 src/Cuts/triplet_gen.c       | 20 ++++++-------
 src/Field/POLY.c             | 37 ++++++++++++++++++------
 src/Field/Qcorr.c            | 16 +++++++++--
 src/Field/Qmoments.c         |  8 +++---
 src/Field/Qslab.c            | 17 ++++++++---
 src/Field/Qsusc.c            | 14 +++++----
 src/Field/balls.c            | 10 ++++---
 src/Geometry/draughtboard.c  | 13 +++++----
 src/Geometry/plan_ffts.c     | 22 +++++++--------
 src/Geometry/random_config.c |  6 ++--
 src/Gfix/CGalloc.c           | 41 +++++++++++++++++++++------
 src/Gfix/Coulomb.c           |  6 ++--
 src/Gfix/Landau.c            | 12 ++++----
 src/Gfix/MAG.c               |  7 +++--
 src/Gfix/Or.c                | 11 +++++---
 src/Headers/CUT_wrap.h       |  4 +--
 src/Headers/GLU_malloc.h     | 10 +++++++
 src/Headers/SUNCxU1_config.h |  4 +--
 src/Headers/cut_output.h     |  4 +--
 src/IO/HIREP.c               |  4 +--
 src/IO/Scidac.c              | 12 ++++----
 src/IO/chklat_stuff.c        | 10 +++----
 src/IO/readers.c             |  8 +++---
 src/IO/writers.c             |  6 ++--
 src/Matrix_Ops/U_Nops.c      |  2 +-
 src/Matrix_Ops/expMat.c      |  4 +--
 src/Matrix_Ops/gramschmidt.c |  2 +-
 src/Matrix_Ops/lie_mats.c    | 18 ++++++------
 src/Smear/4D_fast.c          |  2 +-
 src/Smear/HYP.c              |  2 +-
 src/Smear/ND_generic_HYP.c   |  2 +-
 src/Smear/adaptive_flow.c    | 13 +++++----
 src/Smear/smear.c            |  4 +--
 src/Smear/wflow.c            |  6 ++--
 src/Smear/wflowfuncs.c       |  6 ++--
 src/U1/SUNCxU1_config.c      | 11 ++++++--
 src/U1/U1_top.c              |  4 +--
 src/Update/KPHB.c            |  4 +--
 src/Update/SU2_rotate.c      |  2 +-
 src/Update/SU2_rotate_SSE.c  |  2 +-
 src/Utils/GLU_malloc.c       | 55 +++++++++++++++++++++++++-----------
 src/Utils/par_KISS.c         |  8 +++---
 src/Utils/par_MWC_1038.c     | 16 +++++------
 src/Utils/par_MWC_4096.c     | 16 +++++------
 src/Utils/par_WELL_512.c     | 12 ++++----
 src/Utils/par_XOR_1024.c     | 12 ++++----
 src/Utils/par_rng.c          |  2 +-
 src/Utils/str_stuff.c        |  2 +-
 src/Wrappers/CUT_wrap.c      | 20 +++++++------
 src/Wrappers/GF_wrap.c       |  4 +--
 src/Wrappers/GLUlib_wrap.c   |  8 +++---
 60 files changed, 417 insertions(+), 254 deletions(-)

diff --git a/src/Cuts/3Dcuts.c b/src/Cuts/3Dcuts.c
index 067a158..f96f7f2 100755
--- a/src/Cuts/3Dcuts.c
+++ b/src/Cuts/3Dcuts.c
@@ -135,14 +135,17 @@ cuts_spatial ( struct site *__restrict A ,
 {
   fprintf( stdout , "\n[CUTS] Instantaneous Spatial/Temporal prop calculating ... \n" ) ; 
   // performs LOG and FFT of A, rewrites "A" to save space
-  mom_gauge_spatial( A , CUTINFO.definition ) ; 
+  if( mom_gauge_spatial( A , CUTINFO.definition ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   if( check_psq( CUTINFO ) == GLU_FAILURE ) {
     return GLU_FAILURE ;
   }
   
   // calculate the momentum list
-  size_t *num_mom = malloc( sizeof( size_t ) ) ; 
+  size_t *num_mom = GLU_checked( malloc( sizeof( size_t ) ) ) ; 
   const struct veclist *list = compute_veclist( num_mom , CUTINFO ,
 						ND-1 , GLU_FALSE ) ;
 
@@ -152,6 +155,13 @@ cuts_spatial ( struct site *__restrict A ,
   // create some useful output and open the file
   char *str = output_str_struct( CUTINFO ) ;
   FILE *Aps = fopen( str , "wb" ) ; 
+  if( Aps == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s for writing\n" , str ) ;
+    free( (void*)list ) ; 
+    free( num_mom ) ; 
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   write_mom_veclist( Aps , num_mom , list , ND - 1 ) ;
 
@@ -176,8 +186,8 @@ g( p ) =   ----------    >    Tr < A_( ND - 1 )( p ) . A_( ND - 1 )( -p ) >
   */
 
   //this is the gluon propagator we will be writing
-  double *g2_spatial = ( double* )malloc( num_mom[0] * sizeof( double ) ) ; 
-  double *g2_temporal = ( double* )malloc( num_mom[0] * sizeof( double ) ) ; 
+  double *g2_spatial = ( double* )GLU_checked( malloc( num_mom[0] * sizeof( double ) ) ) ; 
+  double *g2_temporal = ( double* )GLU_checked( malloc( num_mom[0] * sizeof( double ) ) ) ; 
 
   // we average between the time slices to improve the signal some more ...
   const double g2_norm = ND > 2 ? 2.0 / ( ( NCNC - 1 ) * ( ND - 2 ) * LVOLUME ) : 2.0 / ( ( NCNC - 1 ) * LVOLUME ) ; 
diff --git a/src/Cuts/MOMgg.c b/src/Cuts/MOMgg.c
index c9484b2..255d50c 100755
--- a/src/Cuts/MOMgg.c
+++ b/src/Cuts/MOMgg.c
@@ -164,8 +164,8 @@ write_exceptional_g2g3_MOMgg( FILE *__restrict Ap ,
   const size_t posit_zero_mat = ( num_mom[0] - 1 ) / 2 ;
   const size_t lzero_mat = list [ posit_zero_mat ].idx ;
   
-  double *g2 = malloc( num_mom[0] * sizeof( double ) ) ;
-  double *g3 = malloc( num_mom[0] * sizeof( double ) ) ;
+  double *g2 = GLU_checked( malloc( num_mom[0] * sizeof( double ) ) ) ;
+  double *g3 = GLU_checked( malloc( num_mom[0] * sizeof( double ) ) ) ;
 
   size_t i ;
   #pragma omp parallel for private(i)
diff --git a/src/Cuts/MOMggg.c b/src/Cuts/MOMggg.c
index e2a671a..28f575d 100755
--- a/src/Cuts/MOMggg.c
+++ b/src/Cuts/MOMggg.c
@@ -67,12 +67,12 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
 #endif
  
   //need to compute the triplet, first we compute the momentum of our list
-  int **momentum = malloc( num_mom[ 0 ] * sizeof( int * ) ) ; 
+  int **momentum = GLU_checked( malloc( num_mom[ 0 ] * sizeof( int * ) ) ) ; 
 
   size_t i ;
 #pragma omp parallel for private(i)
   for( i = 0 ; i < num_mom[0] ; i++ ) {
-    momentum[ i ] = ( int * )malloc( ND * sizeof ( int ) ) ;
+    momentum[ i ] = ( int * )GLU_checked( malloc( ND * sizeof ( int ) ) ) ;
     size_t mu ;
     for( mu = 0 ; mu < ND ; mu++ ) {
       momentum[ i ][ mu ] = list[i].MOM[mu] ;
@@ -81,7 +81,7 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
 
   // fill up trip by calling get_triplet again .. read from a file ..
   // set up the number of triplets ... 
-  int *trip = malloc( ( nnmax + 1 )/2 * sizeof( int ) ) ;
+  int *trip = GLU_checked( malloc( ( nnmax + 1 )/2 * sizeof( int ) ) ) ;
 
   // allocate both the triplet and the projector
   int **triplet = NULL ;
@@ -109,17 +109,17 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
     goto memfree ;
   }
 
-  triplet = malloc( count * sizeof( int* ) ) ;
-  proj = malloc( count * sizeof( double* ) ) ;
+  triplet = GLU_checked( malloc( count * sizeof( int* ) ) ) ;
+  proj = GLU_checked( malloc( count * sizeof( double* ) ) ) ;
 
 #pragma omp parallel for private(i)
   for( i = 0 ; i < count ; i++ ) {
-    proj[i] = ( double* )malloc( ND * ND * ND *  sizeof ( double ) ) ;
-    triplet[i] = ( int* )malloc( 3 *  sizeof( int ) ) ;
+    proj[i] = ( double* )GLU_checked( malloc( ND * ND * ND *  sizeof ( double ) ) ) ;
+    triplet[i] = ( int* )GLU_checked( malloc( 3 *  sizeof( int ) ) ) ;
   }
 
-  g2 = malloc( count * sizeof( double ) ) ;
-  g3 = malloc( count * sizeof( double ) ) ;
+  g2 = GLU_checked( malloc( count * sizeof( double ) ) ) ;
+  g3 = GLU_checked( malloc( count * sizeof( double ) ) ) ;
 
   // read in the triplet and the projector 
   flag = read_triplet_and_proj( triplet , // reads in the trips
diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index f6aa285..941d3c8 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -346,7 +346,9 @@ cuts_struct_configspace( struct site *__restrict A ,
 	   "gluon propagator\n" ) ;
 
   // smeared gluon field to extract the ground state?
-  SM_wrap_struct( A , SMINFO ) ;
+  if( SM_wrap_struct( A , SMINFO ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   // take the log
   if( Amu_fields( A , CUTINFO.definition ) != GLU_SUCCESS ) {
@@ -361,9 +363,14 @@ cuts_struct_configspace( struct site *__restrict A ,
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;  
   FILE *Ap = fopen( str , "wb" ) ; 
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s for writing\n" , str ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   // compute the temporal and spatial correlators
-  double *gsp = malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ;
+  double *gsp = GLU_checked( malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ) ;
 
   // normalisations :: LVOLUME is the FFT norm
   const double spat_norm = 1.0 / ( ( ND-1 ) * LCU * LVOLUME ) ;
diff --git a/src/Cuts/cut_output.c b/src/Cuts/cut_output.c
index 4505df2..7ace646 100755
--- a/src/Cuts/cut_output.c
+++ b/src/Cuts/cut_output.c
@@ -117,11 +117,11 @@ output_str_struct( const struct cut_info CUTINFO )
   char tmp[ 256 ] ;
 
   #ifndef CONDOR_MODE
-  char *str = malloc( (1+strlen(CUTINFO.where))*sizeof( char ) ) ;
+  char *str = GLU_checked( malloc( (1+strlen(CUTINFO.where))*sizeof( char ) ) ) ;
   sprintf( str , "%s" , CUTINFO.where ) ;
   fprintf( stdout , "[CUTS] Our file is located @ %s \n", str ) ;
   #else
-  char *str = malloc( (1+strlen("./"))*sizeof( char ) ) ;
+  char *str = GLU_checked( malloc( (1+strlen("./"))*sizeof( char ) ) ) ;
   sprintf( str , "./" ) ;
   #endif
 
@@ -346,7 +346,7 @@ write_lattice_fields( FILE *Ap ,
 
   //write lattice fields
   const size_t stride = ND * NCNC * 2 ; // the 2 is for the re/im parts
-  double *aout = malloc( stride * sizeof( double ) ) ;
+  double *aout = GLU_checked( malloc( stride * sizeof( double ) ) ) ;
 
   size_t i ;
   for( i = 0 ; i < num_mom[0] ; i++ ) {
@@ -374,7 +374,7 @@ write_mom_veclist( FILE *Ap ,
 		   const size_t DIR )
 {
   const int stride = ( DIR + 1 ) * num_mom[ 0 ] ;
-  int *kall = malloc( stride * sizeof(int) ) ;
+  int *kall = GLU_checked( malloc( stride * sizeof(int) ) ) ;
 
   uint32_t nmom[1] = { num_mom[0] } ;
   FWRITE( nmom , sizeof(int) , 1 , Ap ) ;
@@ -398,12 +398,12 @@ write_mom_veclist( FILE *Ap ,
 }
 
 // write out some moments, re and imaginary
-void
+int
 write_moments( struct Qmoments *Qmom ,
 	       const size_t Nmeasurements )
 {
   FILE *Qm = NULL , *Q2m = NULL ;
-  double *re = malloc( NQMOMENTS * sizeof( double ) ) ;
+  double *re = GLU_checked( malloc( NQMOMENTS * sizeof( double ) ) ) ;
   uint32_t nmom[ 1 ] = { NQMOMENTS } ;
   uint32_t Nmeas[ 1 ] = { Nmeasurements } ;
   char filename[ 256 ] ;
@@ -415,6 +415,13 @@ write_moments( struct Qmoments *Qmom ,
     Qm = fopen( filename , "wb" ) ;
     sprintf( filename , "Q2moment_d%zu.%zu.bin" , mu , Latt.flow ) ;
     Q2m = fopen( filename , "wb" ) ;
+    if( Qm == NULL || Q2m == NULL ) {
+      fprintf( stderr , "[CUTS] cannot open %s for writing\n" , filename ) ;
+      if( Qm != NULL ) { fclose( Qm ) ; }
+      if( Q2m != NULL ) { fclose( Q2m ) ; }
+      free( re ) ;
+      return GLU_FAILURE ;
+    }
 
     FWRITE( Nmeas , sizeof( uint32_t ) , 1 , Qm ) ;
     FWRITE( Nmeas , sizeof( uint32_t ) , 1 , Q2m ) ;
@@ -438,7 +445,7 @@ write_moments( struct Qmoments *Qmom ,
   
   free( re ) ;
   
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // write out rsq's for the correlator
@@ -481,7 +488,7 @@ write_triplet_mom_list( FILE *Ap ,
 			int **triplet )
 {
   const size_t stride = ( ND + 1 ) * num_mom[0] ;
-  int *kall = malloc( stride * sizeof( int ) ) ;
+  int *kall = GLU_checked( malloc( stride * sizeof( int ) ) ) ;
 
 #ifdef ASCII_CHECK
   fprintf( stdout , "[CUTS] triplet momlist\n%d\n", num_mom[0] ) ;
diff --git a/src/Cuts/cut_routines.c b/src/Cuts/cut_routines.c
index 35d7bf2..1250c91 100755
--- a/src/Cuts/cut_routines.c
+++ b/src/Cuts/cut_routines.c
@@ -503,7 +503,7 @@ compute_veclist( size_t *__restrict list_size ,
 
   // if we can, we look for a file
 #ifndef CONDOR_MODE
-  char *str = malloc( (1+strlen(HAVE_PREFIX))*sizeof(char) ) , tmp[ 64 ] ;
+  char *str = GLU_checked( malloc( (1+strlen(HAVE_PREFIX))*sizeof(char) ) ) , tmp[ 64 ] ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
   append_char( &str , "/Local/Moments/" ) ;
 
@@ -539,7 +539,7 @@ compute_veclist( size_t *__restrict list_size ,
     if( fread( &stored , sizeof(int) , 1 , config ) == 1 &&
 	stored > 0 && (size_t)stored <= LOOP ) {
       in[0] = (size_t)stored ;
-      list = malloc( in[0] * sizeof( struct veclist ) ) ;
+      list = GLU_checked( malloc( in[0] * sizeof( struct veclist ) ) ) ;
       if( list != NULL &&
 	  fread( list , sizeof( struct veclist ) , in[0] , config ) == in[0] ) {
 	flag = MOMENTUM_CONFIG ;
@@ -554,7 +554,7 @@ compute_veclist( size_t *__restrict list_size ,
   // if we can't find a complete one we compute it ...
   if( flag == NO_MOMENTUM_CONFIG ) {
 
-    struct veclist *kept = malloc( LOOP * sizeof( struct veclist ) ) ;
+    struct veclist *kept = GLU_checked( malloc( LOOP * sizeof( struct veclist ) ) ) ;
     if( CONFIGSPACE == GLU_TRUE ) {
       in[0] = get_veclist( kept , CUTINFO , LOOP , DIMS ) ;
     } else {
@@ -570,7 +570,7 @@ compute_veclist( size_t *__restrict list_size ,
       return NULL ;
     }
 
-    list = malloc( in[0] * sizeof( struct veclist) ) ;
+    list = GLU_checked( malloc( in[0] * sizeof( struct veclist) ) ) ;
     #pragma omp parallel for private(i)
     for( i = 0 ; i < in[0] ; i ++  ) {
       memcpy( &list[i] , &kept[i] , sizeof( struct veclist ) )  ;
@@ -591,7 +591,7 @@ compute_veclist( size_t *__restrict list_size ,
   }
   free( str ) ;
 #else
-  struct veclist *kept = malloc( LOOP * sizeof( struct veclist ) ) ;
+  struct veclist *kept = GLU_checked( malloc( LOOP * sizeof( struct veclist ) ) ) ;
   if( CONFIGSPACE == GLU_TRUE ) {
     in[0] = get_veclist( kept , CUTINFO , LOOP , DIMS ) ;
   } else {
@@ -604,7 +604,7 @@ compute_veclist( size_t *__restrict list_size ,
     free( kept ) ;
     return NULL ;
   }
-  list = malloc( in[0] * sizeof(struct veclist) );
+  list = GLU_checked( malloc( in[0] * sizeof(struct veclist) ) );
 #pragma omp parallel for private(i)
   for( i = 0 ; i < in[0] ; i ++  ) {
     memcpy( &list[i] , &kept[i] , sizeof( struct veclist ) )  ;
diff --git a/src/Cuts/cuts.c b/src/Cuts/cuts.c
index 082b3c6..a8d3463 100755
--- a/src/Cuts/cuts.c
+++ b/src/Cuts/cuts.c
@@ -125,7 +125,7 @@ cuts_struct( struct site *__restrict A ,
   }
 
   // this contains the momentum list
-  size_t *in = malloc( sizeof(size_t) ) ;
+  size_t *in = GLU_checked( malloc( sizeof(size_t) ) ) ;
  
   struct cut_info TEMP = CUTINFO ;
   // NONEXCEPTIONAL MUST USE PSQ TO CONSERVE MOMENTUM
@@ -141,6 +141,13 @@ cuts_struct( struct site *__restrict A ,
   
   char *str = output_str_struct( CUTINFO ) ;  
   FILE *Ap = fopen( str , "wb" ) ; 
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s for writing\n" , str ) ;
+    free( (void*)list ) ;
+    free( in ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   int check = 0 ;
   switch( CUTINFO.dir ) {
@@ -160,7 +167,7 @@ cuts_struct( struct site *__restrict A ,
     break ;
   case GLUON_PROPS :
     write_mom_veclist( Ap , in , list , ND ) ;
-    compute_gluon_prop( Ap , A , list , in ) ;
+    check = compute_gluon_prop( Ap , A , list , in ) ;
     break ;
   default : // default behaviour to the Exceptional triple glue
     write_mom_veclist( Ap , in , list , ND ) ;
diff --git a/src/Cuts/glueprop.c b/src/Cuts/glueprop.c
index 680988f..2a709ae 100755
--- a/src/Cuts/glueprop.c
+++ b/src/Cuts/glueprop.c
@@ -104,8 +104,8 @@ compute_gluon_prop( FILE *__restrict Ap ,
   const double long_norm = 2.0 / ( ( NCNC - 1 ) * LVOLUME ) ;
 
   // allocate the props
-  double *transverse = malloc( num_mom[0] * sizeof( double ) ) ;
-  double *longitudinal = malloc( num_mom[0] * sizeof( double ) ) ;
+  double *transverse = GLU_checked( malloc( num_mom[0] * sizeof( double ) ) ) ;
+  double *longitudinal = GLU_checked( malloc( num_mom[0] * sizeof( double ) ) ) ;
 
   // set up the zero position
   const size_t zero_pos = ( num_mom[0] ) >> 1 ;
diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index 063b86f..d4a507c 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -212,7 +212,7 @@ cuts_struct_smeared( struct site *__restrict A ,
   }
 
   // allocate room for the smeared gauge field
-  struct site *SM_A = malloc( LVOLUME * sizeof ( struct site ) ) ;
+  struct site *SM_A = GLU_checked( malloc( LVOLUME * sizeof ( struct site ) ) ) ;
   init_navig( SM_A ) ;
 
   // dirty, create a very weak field
@@ -225,7 +225,10 @@ cuts_struct_smeared( struct site *__restrict A ,
   for( j = 0 ; j < LVOLUME ; j++ ) {
     memcpy( &SM_A[j] , &A[j] , sizeof( struct site ) ) ; 
   }
-  SM_wrap_struct( SM_A , SMINFO ) ;
+  if( SM_wrap_struct( SM_A , SMINFO ) == GLU_FAILURE ) {
+    free( SM_A ) ;
+    return GLU_FAILURE ;
+  }
 
 #ifdef TADPOLE_IMPROVE
   const double u0 = 1.0 / sqrt( av_plaquette( A ) ) ;
@@ -235,11 +238,15 @@ cuts_struct_smeared( struct site *__restrict A ,
 #endif
 
   // performs LOG and FFT , rewrites "A"
-  mom_gauge( A , CUTINFO.definition ) ;
-  mom_gauge( SM_A , CUTINFO.definition ) ;
+  if( mom_gauge( A , CUTINFO.definition ) == GLU_FAILURE ||
+      mom_gauge( SM_A , CUTINFO.definition ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
+    free( SM_A ) ;
+    return GLU_FAILURE ;
+  }
   
   // this contains the length of the momentum list
-  size_t *in = malloc( sizeof(size_t) ) ;
+  size_t *in = GLU_checked( malloc( sizeof(size_t) ) ) ;
   const struct veclist *list = compute_veclist( in , CUTINFO , 
 						ND , GLU_FALSE) ;
 
@@ -250,6 +257,14 @@ cuts_struct_smeared( struct site *__restrict A ,
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;  
   FILE *Ap = fopen( str , "wb" ) ; 
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s for writing\n" , str ) ;
+    free( (void*)list ) ;
+    free( in ) ;
+    free( str ) ;
+    free( SM_A ) ;
+    return GLU_FAILURE ;
+  }
 
   // Here we write the two LANDAU gauge gluon propagators, 
   // unsmeared first and then smeared
@@ -257,8 +272,8 @@ cuts_struct_smeared( struct site *__restrict A ,
   const double g2_norm = 2.0 / ( ( NCNC - 1 ) * ( ND - 1 ) * LVOLUME ) ;
   const double g0_norm = 2.0 / ( ( NCNC - 1 ) * ( ND ) * LVOLUME ) ;
 
-  double *g2 = malloc( in[0] * sizeof( double ) ) ;
-  double *g2_SM = malloc( in[0] * sizeof( double ) ) ;
+  double *g2 = GLU_checked( malloc( in[0] * sizeof( double ) ) ) ;
+  double *g2_SM = GLU_checked( malloc( in[0] * sizeof( double ) ) ) ;
 
   size_t i ;
 #pragma omp parallel for private(i)
diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 82325c8..061ce10 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -57,10 +57,10 @@ get_posit( const int *p ,
 static void
 init_delta( void )
 {
-  d = (double**)malloc( ND * sizeof( double* ) ) ;
+  d = (double**)GLU_checked( malloc( ND * sizeof( double* ) ) ) ;
   int i , j ;
   for( i = 0 ; i < ND ; i++ ) {
-    d[i] = (double*)malloc( ND * sizeof( double ) ) ;
+    d[i] = (double*)GLU_checked( malloc( ND * sizeof( double ) ) ) ;
     for( j = 0 ; j < ND ; j++ ) {
       d[i][j] = ( i!=j ) ? 0.0 : 1.0 ;
     }
@@ -116,9 +116,9 @@ recurse_p2( int *__restrict *__restrict triplet ,
       if( FIRST_PASS != GLU_TRUE ) {
 
 	// compute the asymmetry-adjusted momenta ...
-	int *adp1 = malloc( ND * sizeof( int ) ) ;
-	int *adp2 = malloc( ND * sizeof( int ) ) ;
-	int *adp3 = malloc( ND * sizeof( int ) ) ;
+	int *adp1 = GLU_checked( malloc( ND * sizeof( int ) ) ) ;
+	int *adp2 = GLU_checked( malloc( ND * sizeof( int ) ) ) ;
+	int *adp3 = GLU_checked( malloc( ND * sizeof( int ) ) ) ;
 
 	// compute the asymmetry-adjusted momenta ...
 	int sumzeros = 0 ;
@@ -179,7 +179,7 @@ recurse_p( int *__restrict *__restrict triplet ,
   }
   // if we have a hit we recurse down a level
   if( sum == nn ) {
-    int *p2 = malloc( ND * sizeof( int ) ) ;
+    int *p2 = GLU_checked( malloc( ND * sizeof( int ) ) ) ;
     for( mu = 0 ; mu < ND ; mu++ ) {
       p2[ mu ] = -(int)r_nn ; 
     }  
@@ -225,7 +225,7 @@ get_triplet( int *__restrict *__restrict triplet ,
   // loop the nn's
   for( nn = 0 ; nn < nnmax ; nn += 2 ) {
     const size_t root_nn = (size_t)sqrt( nn ) ;
-    int *p = malloc( ND * sizeof( int ) ) ;
+    int *p = GLU_checked( malloc( ND * sizeof( int ) ) ) ;
     for( mu = 0 ; mu < ND ; mu ++ ) {
       p[mu] = ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? \
 	-(int)root_nn : 0.0 ;
@@ -272,7 +272,7 @@ get_trip( int *__restrict trip ,
   for( nn = 0 ; nn < nnmax ; nn += 2 ) {
 
     const size_t root_nn = (size_t)sqrt( nn ) ;
-    int *p = malloc( ND * sizeof( int ) ) ;
+    int *p = GLU_checked( malloc( ND * sizeof( int ) ) ) ;
     for( mu = 0 ; mu < ND ; mu ++ ) {
       p[mu] = ( fabs( rats[mu] - (int)rats[mu] ) < PREC_TOL ) ? -(int)root_nn : 0.0 ;
     }
@@ -483,7 +483,7 @@ read_trip( int *__restrict trip ,
 {
 #ifdef NOT_CONDOR_MODE
   const size_t nn = ( nnmax + 1 ) / 2 ;
-  char *str = malloc( (1+strlen(HAVE_PREFIX))*sizeof(char)) , tmp[ 64 ] ;
+  char *str = GLU_checked( malloc( (1+strlen(HAVE_PREFIX))*sizeof(char)) ) , tmp[ 64 ] ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
   append_char( &str , "/Local/Moments/TRIP_" ) ;
   size_t mu ;
@@ -539,7 +539,7 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
   size_t mu , i , flag = 0 ;
 
   // look for a configuration file that has the available triplets in ...
-  char *str = malloc( (1+strlen(HAVE_PREFIX))*sizeof(char)) , tmp[64] ;
+  char *str = GLU_checked( malloc( (1+strlen(HAVE_PREFIX))*sizeof(char)) ) , tmp[64] ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
   sprintf( tmp , "/Local/Moments/TRIPNP.PROJ%d." ,
 	   #ifndef PROJ_GRACEY
diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index c31bf76..fcebec6 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -208,7 +208,9 @@ static_quark_correlator( double complex *result ,
   size_t i ;
   #pragma omp parallel for private(i)
   for( i = 0 ; i < LCU ; i++ ) {
-    GLU_malloc( (void**)&slice_poly[i] , 16 , NCNC * sizeof( GLU_complex ) ) ;
+    if( GLU_malloc( (void**)&slice_poly[i] , 16 , NCNC * sizeof( GLU_complex ) ) != 0 ) {
+      GLU_checked( NULL ) ;
+    }
   }
 
   // FFTW routines
@@ -313,7 +315,7 @@ Coul_staticpot( struct site *lat ,
 {
   // do some smearing? Overwrites lat, should I state that I only think
   // SPATIAL dimensional smearing is safe ... probably
-  SM_wrap_struct( lat , SMINFO ) ;
+  if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) return GLU_FAILURE ;
 
   // important!! T is the length of the polyakov loop in time direction
   const size_t T = CUTINFO.max_t ;
@@ -336,7 +338,9 @@ Coul_staticpot( struct site *lat ,
   size_t i ;
   #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) { 
-    GLU_malloc( (void**)&poly[i] , 16 , NCNC * sizeof( GLU_complex ) ) ;
+    if( GLU_malloc( (void**)&poly[i] , 16 , NCNC * sizeof( GLU_complex ) ) != 0 ) {
+      GLU_checked( NULL ) ;
+    }
     identity( poly[i] ) ;
   }
 
@@ -347,6 +351,17 @@ Coul_staticpot( struct site *lat ,
   // set up the outputs
   const char *str = output_str_struct( CUTINFO ) ;  
   FILE *Ap = fopen( str , "wb" ) ;
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s for writing\n" , str ) ;
+    free( (void*)str ) ;
+#pragma omp parallel for private(i)
+    for( i = 0 ; i < LVOLUME ; i++ ) { 
+      free( poly[i] ) ;
+    }
+    free( poly ) ;
+    free( list ) ;
+    return GLU_FAILURE ;
+  }
 
   // write the list, in cut_outputs.c
   write_mom_veclist( Ap , size , list , ND-1 ) ;
@@ -363,10 +378,11 @@ Coul_staticpot( struct site *lat ,
   if( !WORDS_BIGENDIAN ) { bswap_32( 1 , Tcorrs ) ; }  
 
   // allocate the results
-  double complex *result = malloc( size[0] * sizeof( double complex ) ) ; 
-  double complex *trtr   = malloc( size[0] * sizeof( double complex ) ) ; 
+  double complex *result = GLU_checked( malloc( size[0] * sizeof( double complex ) ) ) ; 
+  double complex *trtr   = GLU_checked( malloc( size[0] * sizeof( double complex ) ) ) ; 
 
   // precompute the polyakov loop
+  int FLAG = GLU_SUCCESS ;
   size_t t ;
   for( t = 1 ; t < T ; t++ ) {
 
@@ -387,9 +403,12 @@ Coul_staticpot( struct site *lat ,
     }
     
     // compute the two quark correlator
-    static_quark_correlator( result , trtr , 
-			     (const GLU_complex**)poly , 
-			     list , size[0] ) ;
+    if( static_quark_correlator( result , trtr , 
+				 (const GLU_complex**)poly , 
+				 list , size[0] ) == GLU_FAILURE ) {
+      FLAG = GLU_FAILURE ;
+      break ;
+    }
 
     // write out the result of all that work
     write_complex_g2g3_to_list( Ap , result , trtr , size ) ;
@@ -415,5 +434,5 @@ Coul_staticpot( struct site *lat ,
   // free the momentum list
   free( list ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index 65662df..ad62066 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -41,11 +41,15 @@ temporal_correlator( const GLU_complex *qtop ,
   char cstr[ strlen(str)+7 ] ;
   sprintf( cstr , "%s.tcorr" , str ) ; 
   FILE *Ap = fopen( cstr , "wb" ) ; 
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s for writing\n" , cstr ) ;
+    return GLU_FAILURE ;
+  }
 
   // timeslice length
   size_t lt[ 1 ] = { Latt.dims[ND-1] } ;
 
-  double *ct = malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ;
+  double *ct = GLU_checked( malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ) ;
 
   // write out the timeslice list ...
   write_tslice_list( Ap , lt ) ;
@@ -108,6 +112,13 @@ compute_Qcorr( struct site *__restrict lat ,
   sprintf( tmp , "m%zu" , measurement ) ;
   append_char( &str , tmp ) ; 
   FILE *Ap = fopen( str , "wb" ) ; 
+  if( Ap == NULL || list == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s for writing\n" , str ) ;
+    if( Ap != NULL ) { fclose( Ap ) ; }
+    free( str ) ;
+    free( list ) ;
+    return GLU_FAILURE ;
+  }
 
   // flag for success or failure
   int FLAG = GLU_FAILURE ;
@@ -130,7 +141,6 @@ compute_Qcorr( struct site *__restrict lat ,
   double *qcorr = malloc( size[0] * sizeof( double ) ) ; 
 
   // logic to fail
-  if( list == NULL ) goto memfree ;
   if( qcorr == NULL ) goto memfree ;
   if( FFTW.in == NULL || FFTW.out == NULL ) goto memfree ;
 
@@ -209,7 +219,7 @@ compute_Qcorr( struct site *__restrict lat ,
 #endif
 
   // look at the correlator of this thing too
-  temporal_correlator( FFTW.in , str ) ;
+  if( temporal_correlator( FFTW.in , str ) == GLU_FAILURE ) goto memfree ;
 
   // tell us where to go
   fprintf( stdout , "[CUTS] Outputting to %s \n" , str ) ;
diff --git a/src/Field/Qmoments.c b/src/Field/Qmoments.c
index 9cd84d7..02c2cdf 100644
--- a/src/Field/Qmoments.c
+++ b/src/Field/Qmoments.c
@@ -80,7 +80,7 @@ Time_Moments( double *Moment ,
 	      const size_t DIR )
 {
   // sum qtop into a correlator q(t)
-  GLU_complex *Qt = malloc( Latt.dims[ DIR ] * sizeof( GLU_complex ) ) ;
+  GLU_complex *Qt = GLU_checked( malloc( Latt.dims[ DIR ] * sizeof( GLU_complex ) ) ) ;
   
   // factorials
   const double fac[ NQMOMENTS ] = { 1 , 1 , 2 , 6 , 24 , 120 , 720 ,
@@ -113,7 +113,7 @@ Time_Moments( double *Moment ,
   }
 
   // initialise powers of t to t^0
-  double *tpow = malloc( Latt.dims[ DIR ] * sizeof( double ) ) ;
+  double *tpow = GLU_checked( malloc( Latt.dims[ DIR ] * sizeof( double ) ) ) ;
   for( t = 0 ; t < (int)LT ; t++ ) {
     tpow[ t ] = 1 ;
   }
@@ -241,8 +241,8 @@ compute_Qmoments( struct site *__restrict lat ,
 #ifdef HAVE_FFTW3_H
   small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
 #else
-  FFTW.in = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
-  FFTW.out = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
+  FFTW.in = GLU_checked( malloc( LVOLUME * sizeof( GLU_complex ) ) ) ;
+  FFTW.out = GLU_checked( malloc( LVOLUME * sizeof( GLU_complex ) ) ) ;
 #endif
   int FLAG = GLU_FAILURE ;
 
diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index 3a32dd5..227ba9f 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -83,12 +83,17 @@ compute_slabs( const GLU_complex *qtop ,
   sprintf( tmp , ".m%zu.tcorr_d%zu" , measurement , SLAB_DIR ) ;
   append_char( &str , tmp ) ;
   FILE *Ap = fopen( str , "wb" ) ;
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s for writing\n" , str ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   // timeslice length
   size_t lt[ 1 ] = { Latt.dims[ SLAB_DIR ] } ;
 
   // temporal correlator
-  double *ct = malloc( Latt.dims[ SLAB_DIR ] * sizeof( double ) ) ;
+  double *ct = GLU_checked( malloc( Latt.dims[ SLAB_DIR ] * sizeof( double ) ) ) ;
 
   // write out the timeslice list ...
   write_tslice_list( Ap , lt ) ;
@@ -202,18 +207,22 @@ compute_Qsusc( struct site *lat ,
 	       const size_t measurement )
 {
   // set up the matrix-valued array of the topological charge
-  GLU_complex *qtop = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
+  GLU_complex *qtop = GLU_checked( malloc( LVOLUME * sizeof( GLU_complex ) ) ) ;
 
   // precompute all of charge densities q(x) over whole lattice
   compute_Gmunu_array( qtop , lat ) ;
 
   // slabby slab slab
   size_t mu ;
+  int FLAG = GLU_SUCCESS ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    compute_slabs( qtop , CUTINFO , mu , measurement ) ;
+    if( compute_slabs( qtop , CUTINFO , mu , measurement ) == GLU_FAILURE ) {
+      FLAG = GLU_FAILURE ;
+      break ;
+    }
   }
   
   free( qtop ) ;
   
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
diff --git a/src/Field/Qsusc.c b/src/Field/Qsusc.c
index 6c4dcb6..ce4985e 100755
--- a/src/Field/Qsusc.c
+++ b/src/Field/Qsusc.c
@@ -48,11 +48,11 @@ compute_Qsusc_step( struct site *__restrict lat ,
   // allocations for the moments
   struct Qmoments *Qmom = NULL ;
   if( CUTINFO.dir == TOPOLOGICAL_MOMENTS ) {
-    Qmom = malloc( Nmoments * sizeof( struct Qmoments ) ) ;
+    Qmom = GLU_checked( malloc( Nmoments * sizeof( struct Qmoments ) ) ) ;
     size_t t ;
     for( t = 0 ; t < Nmoments ; t++ ) {
-      Qmom[t].Q  = malloc( ND * NQMOMENTS * sizeof( double ) ) ;
-      Qmom[t].Q2 = malloc( ND * NQMOMENTS * sizeof( double ) ) ;
+      Qmom[t].Q  = GLU_checked( malloc( ND * NQMOMENTS * sizeof( double ) ) ) ;
+      Qmom[t].Q2 = GLU_checked( malloc( ND * NQMOMENTS * sizeof( double ) ) ) ;
     }
   }
 
@@ -67,7 +67,9 @@ compute_Qsusc_step( struct site *__restrict lat ,
   for( measurement = 1 ; measurement < CUTINFO.max_t ; measurement++ ) {
 
     // do some smearing ...
-    SM_wrap_struct( lat , SMINFO ) ;
+    if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) {
+      flag = GLU_FAILURE ; break ;
+    }
     
     // compute the topological correlator in r and the temporal correlator
     if( CUTINFO.dir == TOPOLOGICAL_SUSCEPTIBILITY ) {
@@ -92,7 +94,9 @@ compute_Qsusc_step( struct site *__restrict lat ,
   if( CUTINFO.dir == TOPOLOGICAL_MOMENTS ) {
 
     // write to a file
-    write_moments( Qmom , Nmoments ) ;
+    if( flag != GLU_FAILURE ) {
+      flag = write_moments( Qmom , Nmoments ) ;
+    }
     
     size_t t ;
     for( t = 0 ; t < Nmoments ; t++ ) {
diff --git a/src/Field/balls.c b/src/Field/balls.c
index f8b5c3d..a23d535 100644
--- a/src/Field/balls.c
+++ b/src/Field/balls.c
@@ -84,8 +84,8 @@ correlator( double *gsp ,
   }
 
   // FFTW routines
-  GLU_complex *out = fftw_malloc( LVOLUME * sizeof( GLU_complex ) ) ;
-  GLU_complex *in = fftw_malloc( LVOLUME * sizeof( GLU_complex ) ) ;
+  GLU_complex *out = GLU_checked( fftw_malloc( LVOLUME * sizeof( GLU_complex ) ) ) ;
+  GLU_complex *in = GLU_checked( fftw_malloc( LVOLUME * sizeof( GLU_complex ) ) ) ;
 
   // create some plans
   fftw_plan forward , backward ;
@@ -131,10 +131,12 @@ int
 GLU_balls( struct site *lat ,
 	   struct sm_info SMINFO )
 {
-  SM_wrap_struct( lat , SMINFO ) ;
+  if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) return GLU_FAILURE ;
 
   GLU_complex *result = NULL ;
-  GLU_malloc( (void**)&result , 16 , LVOLUME*sizeof(GLU_complex) ) ;
+  if( GLU_malloc( (void**)&result , 16 , LVOLUME*sizeof(GLU_complex) ) != 0 ) {
+    GLU_checked( NULL ) ;
+  }
 
   // create a plaquette correlator
   int path[ 4 ] ;
diff --git a/src/Geometry/draughtboard.c b/src/Geometry/draughtboard.c
index bece34c..35e132d 100644
--- a/src/Geometry/draughtboard.c
+++ b/src/Geometry/draughtboard.c
@@ -86,12 +86,13 @@ init_cb( struct draughtboard *db ,
 
   // initially set up the database
   db -> Ncolors = 3 ;
-  db -> square  = malloc( db -> Ncolors * sizeof( size_t* ) ) ;
-  db -> Nsquare = malloc( db -> Ncolors * sizeof( size_t ) ) ;
+  db -> square  = GLU_checked( malloc( db -> Ncolors * sizeof( size_t* ) ) ) ;
+  db -> Nsquare = GLU_checked( malloc( db -> Ncolors * sizeof( size_t ) ) ) ;
   
   // set the counters to zero
   for( i = 0 ; i < db -> Ncolors ; i++ ) {
     db -> Nsquare[i] = 0 ;
+    db -> square[i] = NULL ;
   }
 
   // get the coloring
@@ -113,7 +114,7 @@ init_cb( struct draughtboard *db ,
       db -> square[i] = NULL ;
       return GLU_FAILURE ;
     } else {
-      db -> square[i] = malloc( db -> Nsquare[i] * sizeof( size_t ) ) ;
+      db -> square[i] = GLU_checked( malloc( db -> Nsquare[i] * sizeof( size_t ) ) ) ;
     }
     db -> Nsquare[i] = 0 ;
   }
@@ -150,13 +151,13 @@ init_improved_cb( struct draughtboard *db )
   
   // initially set up the database
   db -> Ncolors = 16 ;
-  db -> square  = malloc( db -> Ncolors * sizeof( size_t* ) ) ;
-  db -> Nsquare = malloc( db -> Ncolors * sizeof( size_t ) ) ;
+  db -> square  = GLU_checked( malloc( db -> Ncolors * sizeof( size_t* ) ) ) ;
+  db -> Nsquare = GLU_checked( malloc( db -> Ncolors * sizeof( size_t ) ) ) ;
 
   // set the counters to zero
   for( size_t i = 0 ; i < db -> Ncolors ; i++ ) {
     db -> Nsquare[i] = LVOLUME/4 ;
-    db->square[ i ] = malloc( db->Nsquare[i]*sizeof( size_t ) ) ;
+    db->square[ i ] = GLU_checked( malloc( db->Nsquare[i]*sizeof( size_t ) ) ) ;
     memset( db->square[i] , 0 , sizeof( size_t )*db->Nsquare[i] ) ;
   }
 
diff --git a/src/Geometry/plan_ffts.c b/src/Geometry/plan_ffts.c
index e988d04..e3e7db0 100755
--- a/src/Geometry/plan_ffts.c
+++ b/src/Geometry/plan_ffts.c
@@ -43,7 +43,7 @@ obtain_wisdom( int *planflag ,
 	       const size_t DIR , 
 	       const char *type )
 {
-  char *str = malloc( (1+strlen(HAVE_PREFIX))* sizeof( char ) ) ;
+  char *str = GLU_checked( malloc( (1+strlen(HAVE_PREFIX))* sizeof( char ) ) ) ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
   
   FILE *wizzard ;
@@ -119,18 +119,18 @@ create_plans_DFT( struct fftw_stuff *FFTW ,
   start_timer( ) ;
   #endif
 
-  FFTW -> forward  = malloc( ARR_SIZE * sizeof( fftw_plan ) ) ; 
-  FFTW -> backward = malloc( ARR_SIZE * sizeof( fftw_plan ) ) ; 
-  FFTW -> out      = fftw_malloc( ARR_SIZE * sizeof( GLU_complex* ) ) ; 
-  FFTW -> in       = fftw_malloc( ARR_SIZE * sizeof( GLU_complex* ) ) ;
+  FFTW -> forward  = GLU_checked( malloc( ARR_SIZE * sizeof( fftw_plan ) ) ) ; 
+  FFTW -> backward = GLU_checked( malloc( ARR_SIZE * sizeof( fftw_plan ) ) ) ; 
+  FFTW -> out      = GLU_checked( fftw_malloc( ARR_SIZE * sizeof( GLU_complex* ) ) ) ; 
+  FFTW -> in       = GLU_checked( fftw_malloc( ARR_SIZE * sizeof( GLU_complex* ) ) ) ;
   FFTW -> psq      = NULL ;
 
 #pragma omp parallel
   {
     #pragma omp for private(i)
     for(  i = 0 ; i < ARR_SIZE ; i++  ) {
-      FFTW -> out[i] = ( GLU_complex* )fftw_malloc( VOL * sizeof( GLU_complex ) ) ; 
-      FFTW -> in[i] = ( GLU_complex* )fftw_malloc( VOL * sizeof( GLU_complex ) ) ; 
+      FFTW -> out[i] = ( GLU_complex* )GLU_checked( fftw_malloc( VOL * sizeof( GLU_complex ) ) ) ; 
+      FFTW -> in[i] = ( GLU_complex* )GLU_checked( fftw_malloc( VOL * sizeof( GLU_complex ) ) ) ; 
     }
   }
   
@@ -138,7 +138,7 @@ create_plans_DFT( struct fftw_stuff *FFTW ,
   int planflag = NOPLAN ;
   char *str = obtain_wisdom( &planflag , dims , DIR , "" ) ;
 #else
-  char *str = malloc( (1+strlen(HAVE_PREFIX))* sizeof( char ) ) ;
+  char *str = GLU_checked( malloc( (1+strlen(HAVE_PREFIX))* sizeof( char ) ) ) ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
 #endif
   
@@ -199,8 +199,8 @@ small_create_plans_DFT( struct fftw_small_stuff *FFTW ,
   }
 
   // allocations
-  FFTW -> in = fftw_malloc( VOL * sizeof( GLU_complex ) ) ;
-  FFTW -> out = fftw_malloc( VOL * sizeof( GLU_complex ) ) ;
+  FFTW -> in = GLU_checked( fftw_malloc( VOL * sizeof( GLU_complex ) ) ) ;
+  FFTW -> out = GLU_checked( fftw_malloc( VOL * sizeof( GLU_complex ) ) ) ;
   FFTW -> psq = NULL ;
 
   // initialise the clock
@@ -212,7 +212,7 @@ small_create_plans_DFT( struct fftw_small_stuff *FFTW ,
   int planflag = NOPLAN ;
   char *str = obtain_wisdom( &planflag , dims , DIR , "single_" ) ;
 #else
-  char *str = malloc( (1+strlen(HAVE_PREFIX))* sizeof( char ) ) ;
+  char *str = GLU_checked( malloc( (1+strlen(HAVE_PREFIX))* sizeof( char ) ) ) ;
   sprintf( str , "%s" , HAVE_PREFIX ) ;
 #endif
 
diff --git a/src/Geometry/random_config.c b/src/Geometry/random_config.c
index 1cae438..9b22c79 100755
--- a/src/Geometry/random_config.c
+++ b/src/Geometry/random_config.c
@@ -67,13 +67,15 @@ random_gtrans( struct site *__restrict lat )
   GLU_complex **gauge = NULL ;
   
   if( GLU_malloc( (void**)&gauge , ALIGNMENT , LVOLUME * sizeof( GLU_complex* ) ) != 0 ) {
-    fprintf( stdout , "[RANDOM] Allocation failed \n" ) ;
+    GLU_checked( NULL ) ;
   }
 
   size_t i ;
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
-    GLU_malloc( (void**)&gauge[i] , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) ;
+    if( GLU_malloc( (void**)&gauge[i] , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) != 0 ) {
+      GLU_checked( NULL ) ;
+    }
     Sunitary_gen( gauge[i] , get_GLU_thread( ) ) ;
   }
 
diff --git a/src/Gfix/CGalloc.c b/src/Gfix/CGalloc.c
index b644877..fb6491c 100644
--- a/src/Gfix/CGalloc.c
+++ b/src/Gfix/CGalloc.c
@@ -32,6 +32,10 @@ allocate_temp_cg( struct gauges *G ,
 {
   GLU_bool FLAG = GLU_FALSE ;
   size_t i ;
+  // what has not been allocated can be freed
+  G -> g = NULL ; G -> g_end = NULL ; G -> g_up = NULL ;
+  CG -> sn = NULL ; CG -> in_old = NULL ; CG -> red = NULL ;
+  CG -> db.square = NULL ; CG -> db.Nsquare = NULL ; CG -> db.Ncolors = 0 ;
   if( ( CG -> red = calloc( LINE_NSTEPS + CLINE * Latt.Nthreads , sizeof( double ) ) ) == NULL ) {
     FLAG = GLU_TRUE ;  goto end ;
   }
@@ -43,14 +47,25 @@ allocate_temp_cg( struct gauges *G ,
   if( GLU_malloc( (void**)&G->g      , ALIGNMENT , LCU * sizeof( GLU_complex* ) ) != 0 ||
       GLU_malloc( (void**)&G->g_end  , ALIGNMENT , LCU * sizeof( GLU_complex* ) ) != 0 ||
       GLU_malloc( (void**)&G->g_up   , ALIGNMENT , LCU * sizeof( GLU_complex* ) ) != 0 ) {
-    FLAG = GLU_TRUE ; goto end ;
+    FLAG = GLU_TRUE ;
+  }
+  for( i = 0 ; i < LCU ; i++ ) {
+    if( G -> g     != NULL ) { G -> g[i]     = NULL ; }
+    if( G -> g_end != NULL ) { G -> g_end[i] = NULL ; }
+    if( G -> g_up  != NULL ) { G -> g_up[i]  = NULL ; }
   }
+  if( FLAG == GLU_TRUE ) goto end ;
   // FACG has two other temporaries
   if( FACG == GLU_TRUE ) {
     if( GLU_malloc( (void**)&CG -> sn     , ALIGNMENT , TRUE_HERM * sizeof( GLU_complex* ) ) != 0 ||
 	GLU_malloc( (void**)&CG -> in_old , ALIGNMENT , TRUE_HERM * sizeof( GLU_complex* ) ) != 0 ) {
-      FLAG = GLU_TRUE ; goto end ;
+      FLAG = GLU_TRUE ;
+    }
+    for( i = 0 ; i < TRUE_HERM ; i++ ) {
+      if( CG -> sn     != NULL ) { CG -> sn[i]     = NULL ; }
+      if( CG -> in_old != NULL ) { CG -> in_old[i] = NULL ; }
     }
+    if( FLAG == GLU_TRUE ) goto end ;
   }
   // reduce some overhead here
 #pragma omp parallel
@@ -60,7 +75,9 @@ allocate_temp_cg( struct gauges *G ,
       for( i = 0 ; i < TRUE_HERM ; i ++  ) {
 	if( GLU_malloc( (void**)&CG -> sn[i] , ALIGNMENT , LCU * sizeof( GLU_complex ) ) != 0 ||
 	    GLU_malloc( (void**)&CG -> in_old[i] , ALIGNMENT , LCU * sizeof( GLU_complex ) ) != 0 ) {
+          #pragma omp atomic write
 	  FLAG = GLU_TRUE ;
+	  continue ;
 	}
 	size_t j ;
 	for( j = 0 ; j < LCU ; j++ ) {
@@ -75,14 +92,14 @@ allocate_temp_cg( struct gauges *G ,
       if( GLU_malloc( (void**)&G->g[i]     , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) != 0 ||
 	  GLU_malloc( (void**)&G->g_up[i]  , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) != 0 ||
 	  GLU_malloc( (void**)&G->g_end[i] , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) != 0 ) {
+        #pragma omp atomic write
 	FLAG = GLU_TRUE ;
+	continue ;
       }
-      if( FLAG != GLU_TRUE ) {
-	// set gauge matrices to the identity
-	identity( G->g_up[i] ) ;
-	identity( G->g[i] ) ;
-	identity( G->g_end[i] ) ;
-      }
+      // set gauge matrices to the identity
+      identity( G->g_up[i] ) ;
+      identity( G->g[i] ) ;
+      identity( G->g_end[i] ) ;
     }
   }
  end :
@@ -109,14 +126,20 @@ allocate_temp_lg( struct CGtemps *CG ,
   
   if( GLU_malloc( (void**)&CG->sn     , ALIGNMENT , TRUE_HERM * sizeof( GLU_complex* ) ) != 0 ||
       GLU_malloc( (void**)&CG->in_old , ALIGNMENT , TRUE_HERM * sizeof( GLU_complex* ) ) != 0 ) {
-    FLAG = GLU_TRUE ;  goto end ;
+    FLAG = GLU_TRUE ;
+  }
+  for( i = 0 ; i < TRUE_HERM ; i++ ) {
+    if( CG -> sn     != NULL ) { CG -> sn[i]     = NULL ; }
+    if( CG -> in_old != NULL ) { CG -> in_old[i] = NULL ; }
   }
+  if( FLAG == GLU_TRUE ) goto end ;
 
   // allocate the conjugate directions
   #pragma omp parallel for private(i)
   for( i = 0 ; i < TRUE_HERM ; i++ ) {
     if( GLU_malloc( (void**)&CG->sn[i]     , ALIGNMENT , LVOLUME * sizeof( GLU_complex ) ) != 0  ||
 	GLU_malloc( (void**)&CG->in_old[i] , ALIGNMENT , LVOLUME * sizeof( GLU_complex ) ) != 0 ) {
+      #pragma omp atomic write
       FLAG = GLU_TRUE ;
     }
   }
diff --git a/src/Gfix/Coulomb.c b/src/Gfix/Coulomb.c
index 74bc52d..689aeb6 100755
--- a/src/Gfix/Coulomb.c
+++ b/src/Gfix/Coulomb.c
@@ -50,7 +50,7 @@ Coulomb( struct site *__restrict lat ,
   // create the fftw plans, or read them if they are stored
   create_plans_DFT( &FFTW , Latt.dims , TRUE_HERM , ND - 1 ) ;
   
-  FFTW.psq = malloc( LCU * sizeof( GLU_real ) ) ; 
+  FFTW.psq = GLU_checked( malloc( LCU * sizeof( GLU_real ) ) ) ; 
   
   // we calculate the lattice p-squared here and pass it to the FFT-accelerator
 #pragma omp parallel for private(i) 
@@ -61,10 +61,10 @@ Coulomb( struct site *__restrict lat ,
   /////  End of the search for Wisdom  ////
 #else
   
-  FFTW.in = malloc( ( TRUE_HERM ) * sizeof( GLU_complex* ) ) ; 
+  FFTW.in = GLU_checked( malloc( ( TRUE_HERM ) * sizeof( GLU_complex* ) ) ) ; 
   #pragma omp parallel for private(i)
   for(  i = 0 ; i < TRUE_HERM ; i++  ) {
-    FFTW.in[i] = ( GLU_complex* )malloc( LCU * sizeof( GLU_complex ) ) ; 
+    FFTW.in[i] = ( GLU_complex* )GLU_checked( malloc( LCU * sizeof( GLU_complex ) ) ) ; 
   }
   // these are dummy arrays
   FFTW.out = NULL ;
diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 4285cad..8ccdd28 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -109,7 +109,7 @@ luxury_copy_fast( struct site *lat ,
   }
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
-    gauge[i] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ; 
+    gauge[i] = ( GLU_complex* )GLU_checked( malloc( NCNC * sizeof( GLU_complex ) ) ) ; 
     identity( gauge[i] ) ;
   }
   
@@ -283,7 +283,7 @@ Landau( struct site *lat ,
   /////////////// Look for Wisdom //////////////
   create_plans_DFT( &FFTW , Latt.dims , TRUE_HERM , ND ) ;
 
-  FFTW.psq = malloc( LVOLUME * sizeof( GLU_real ) ) ; 
+  FFTW.psq = GLU_checked( malloc( LVOLUME * sizeof( GLU_real ) ) ) ; 
   #pragma omp parallel
   {
     #pragma omp for private(i)
@@ -294,10 +294,12 @@ Landau( struct site *lat ,
   
   ///////// End of the search for Wisdom //////
 #else 
-  FFTW.in = malloc( ( TRUE_HERM ) * sizeof( GLU_complex* ) ) ; 
+  FFTW.in = GLU_checked( malloc( ( TRUE_HERM ) * sizeof( GLU_complex* ) ) ) ; 
   #pragma omp parallel for private(i)
   for(  i = 0 ; i < TRUE_HERM ; i++  ) {
-    GLU_malloc( (void**)&FFTW.in[i] , ALIGNMENT , LVOLUME * sizeof( GLU_complex ) ) ;
+    if( GLU_malloc( (void**)&FFTW.in[i] , ALIGNMENT , LVOLUME * sizeof( GLU_complex ) ) != 0 ) {
+      GLU_checked( NULL ) ;
+    }
   }
   // these are really dummy variables that don't get used in the SD
   FFTW.out = NULL ; FFTW.psq = NULL ;
@@ -321,7 +323,7 @@ Landau( struct site *lat ,
     }
 #pragma omp parallel for private(i)
     for( i = 0 ; i < LVOLUME ; i++ ) {
-      gauge[i] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ; 
+      gauge[i] = ( GLU_complex* )GLU_checked( malloc( NCNC * sizeof( GLU_complex ) ) ) ; 
       identity( gauge[i] ) ;
     }
 
diff --git a/src/Gfix/MAG.c b/src/Gfix/MAG.c
index 41e4266..97b64b6 100755
--- a/src/Gfix/MAG.c
+++ b/src/Gfix/MAG.c
@@ -72,7 +72,7 @@ MAG_fix( struct site *lat )
   }
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
-    gauge[i] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ; 
+    gauge[i] = ( GLU_complex* )GLU_checked( malloc( NCNC * sizeof( GLU_complex ) ) ) ; 
     identity( gauge[i] ) ;
   }
 
@@ -108,7 +108,7 @@ axial_gauge( struct site *lat ,
 {
   latt_reunitU( lat ) ; 
   
-  GLU_complex **gauge ;
+  GLU_complex **gauge = NULL ;
   size_t i , subvolume = 1 ;
   int flag = GLU_SUCCESS ;
   
@@ -120,7 +120,7 @@ axial_gauge( struct site *lat ,
   }
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
-    gauge[i] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ; 
+    gauge[i] = ( GLU_complex* )GLU_checked( malloc( NCNC * sizeof( GLU_complex ) ) ) ; 
     identity( gauge[i] ) ;
   }
   
@@ -180,6 +180,7 @@ residual_fix( struct site *lat )
     goto end ;
   }
 
+  for( i = 0 ; i < Latt.dims[ND-1] ; i++ ) { gauge[i] = NULL ; }
   for( i = 0 ; i < Latt.dims[ND-1] ; i++ ) {
     if( GLU_malloc( (void**)&gauge[i] , 16 , NCNC * sizeof( GLU_complex ) ) != 0 ) {
       fprintf( stderr , "[RESFIX] temporary gauge allocation failure\n" ) ;
diff --git a/src/Gfix/Or.c b/src/Gfix/Or.c
index fedd8e0..23fba51 100755
--- a/src/Gfix/Or.c
+++ b/src/Gfix/Or.c
@@ -193,11 +193,14 @@ OrLandau( struct site *__restrict lat ,
 
   // initialise the draughtboard
   struct draughtboard db ;
-  init_cb( &db , LVOLUME , ND ) ;
+  size_t iters = 0 ;
+  if( init_cb( &db , LVOLUME , ND ) == GLU_FAILURE ) {
+    iters = GLU_FAILURE ;
+    goto end ;
+  }
 
   fprintf( stdout , "[GF] Over-Relaxation parameter %f \n" , OrParam ) ;
 
-  size_t iters = 0 ;
 #ifdef SOR
   if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
     iters = GLU_FAILURE ;
@@ -281,11 +284,11 @@ OrCoulomb( struct site *__restrict lat ,
 {
   // initialise the draughtboarding
   struct draughtboard db ;
-  init_cb( &db , LCU , ND-1 ) ;
+  size_t iters = 0 ;
+  if( init_cb( &db , LCU , ND-1 ) == GLU_FAILURE ) goto end ;
 
   fprintf( stdout , "[GF] Over-Relaxation parameter %f \n\n" , OrParam ) ;
 
-  size_t iters = 0 ;
 #ifdef SOR
   if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
     goto end ;
diff --git a/src/Headers/CUT_wrap.h b/src/Headers/CUT_wrap.h
index c5ef364..1900e93 100755
--- a/src/Headers/CUT_wrap.h
+++ b/src/Headers/CUT_wrap.h
@@ -24,14 +24,14 @@
 #define GLU_CUT_WRAP
 
 /**
-   @fn void cuts_wrap_struct( struct site *__restrict lat , const struct cut_info CUTINFO , const struct sm_info SMINFO )
+   @fn int cuts_wrap_struct( struct site *__restrict lat , const struct cut_info CUTINFO , const struct sm_info SMINFO )
    @brief Wrapper function
 
    @param lat :: Gauge fields
    @param CUTINFO :: cutting information
    @param SMINFO :: smearing information
  */
-void
+int
 cuts_wrap_struct( struct site *__restrict lat , 
 		  const struct cut_info CUTINFO ,
 		  const struct sm_info SMINFO ) ;
diff --git a/src/Headers/GLU_malloc.h b/src/Headers/GLU_malloc.h
index 9d6903c..f15ab97 100755
--- a/src/Headers/GLU_malloc.h
+++ b/src/Headers/GLU_malloc.h
@@ -35,6 +35,16 @@ GLU_malloc( void **memptr ,
 	    const size_t alignment , 
 	    const size_t size ) ;
 
+/**
+   @fn void *GLU_checked( void *ptr )
+   @brief checks the result of an allocation there is no way of carrying on without
+   @param ptr :: what the allocation returned
+   @return ptr
+   @warning says so and ends the program with a failure status if memory ran out
+ */
+void *
+GLU_checked( void *ptr ) ;
+
 /**
    @fn struct site * allocate_lat( void )
    @brief allocate the lattice gauge fields
diff --git a/src/Headers/SUNCxU1_config.h b/src/Headers/SUNCxU1_config.h
index 6d81587..fab33aa 100755
--- a/src/Headers/SUNCxU1_config.h
+++ b/src/Headers/SUNCxU1_config.h
@@ -24,7 +24,7 @@
 #define GLU_SUNCxU1_CONFIG_H
 
 /**
-   @fn void suNC_cross_u1( struct site *__restrict lat , const struct u1_info U1INFO ) 
+   @fn int suNC_cross_u1( struct site *__restrict lat , const struct u1_info U1INFO ) 
    @brief creates links which are multiplied by a non-compact U(1) field
 
    @warning rewrites the gauge field
@@ -33,7 +33,7 @@
    calls compute_U1_obs()
    
  */
-void 
+int 
 suNC_cross_u1( struct site *__restrict lat , 
 	       const struct u1_info U1INFO ) ;
 
diff --git a/src/Headers/cut_output.h b/src/Headers/cut_output.h
index ef30e84..810d98b 100755
--- a/src/Headers/cut_output.h
+++ b/src/Headers/cut_output.h
@@ -129,9 +129,9 @@ write_mom_veclist( FILE *Ap ,
 		   const size_t DIR ) ;
 
 /**
-   @fn void write_moments( struct Qmoments *Qmom , const size_t Nmeasurements )
+   @fn int write_moments( struct Qmoments *Qmom , const size_t Nmeasurements )
  **/
-void
+int
 write_moments( struct Qmoments *Qmom ,
 	       const size_t Nmeasurements ) ;
 
diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index d4278ef..7bd02ba 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -54,7 +54,7 @@ read_gauge_field( struct site *__restrict lat ,
 #endif
   const size_t stride = 2 * Nelements * ND ;
   // these guys also seem to save only in double, making things easy
-  double *uind = malloc( stride * sizeof( double ) ) ; 
+  double *uind = GLU_checked( malloc( stride * sizeof( double ) ) ) ; 
 
   uint32_t k = 0 ;
   size_t i ;
@@ -156,7 +156,7 @@ write_gauge_field( const struct site *__restrict lat ,
   fwrite( plaq , sizeof( double ) , 1 , outfile ) ;
   // now to put the gauge field in, in HiRep's weird order!
 
-  double *uoutd = ( double* )malloc( stride *sizeof( double ) ) ; 
+  double *uoutd = ( double* )GLU_checked( malloc( stride *sizeof( double ) ) ) ; 
 
   size_t i ;
   for( i = 0 ; i < LVOLUME ; i++ ) {
diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 75aeb1c..8e2a895 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -234,7 +234,7 @@ write_header_SCIDAC( FILE *__restrict out )
 {
   // initialisation 
   const char *start = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" ;
-  char *str = malloc( (1+strlen(start))*sizeof(char) ) ;
+  char *str = GLU_checked( malloc( (1+strlen(start))*sizeof(char) ) ) ;
   sprintf( str , "%s" , start ) ;
   
   // sprintf in some xml stuff
@@ -260,7 +260,7 @@ write_header_SCIDAC( FILE *__restrict out )
 		       "scidac-file-xml" ) ;
   
   // gauge file informations
-  char *gstr = malloc( (1+strlen(start))*sizeof(char) ) ;
+  char *gstr = GLU_checked( malloc( (1+strlen(start))*sizeof(char) ) ) ;
   sprintf( gstr , "%s" , start ) ;
   sprintf( tmp , "<scidacRecord><version>1.0</version><date>%s GMT</date>"
 	   "<globaldata>0</globaldata>" , get_date( ) ) ;
@@ -303,7 +303,7 @@ write_trailing_header_SCIDAC( FILE *__restrict out ,
 			      const uint32_t cksumb )
 {
   const char *start = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><scidacChecksum>" ;
-  char *str = malloc( (1+strlen(start))*sizeof(char) ) , tmp[128] ;
+  char *str = GLU_checked( malloc( (1+strlen(start))*sizeof(char) ) ) , tmp[128] ;
   sprintf( str , "%s" , start ) ; 
   sprintf( tmp , "<version>1.0</version><suma>%x</suma><sumb>%x</sumb>" ,
 	   cksuma , cksumb ) ;
@@ -321,7 +321,7 @@ write_header_ILDG( FILE *__restrict out )
 {
   // initialisation 
   const char *start = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" ;
-  char *str = malloc( (1+strlen(start))*sizeof( char ) ) , tmp[ 128 ] ;
+  char *str = GLU_checked( malloc( (1+strlen(start))*sizeof( char ) ) ) , tmp[ 128 ] ;
   sprintf( str , "%s" , start ) ;
   // sprintf in some xml stuff
   sprintf( tmp , "<scidacFile><version>1.1</version>"
@@ -344,7 +344,7 @@ write_header_ILDG( FILE *__restrict out )
 		       "scidac-file-xml" ) ;
 
   // SCIDAC gauge file informations
-  char *gstr = malloc( (1+strlen(start))*sizeof( char ) ) ;
+  char *gstr = GLU_checked( malloc( (1+strlen(start))*sizeof( char ) ) ) ;
   sprintf( gstr , "%s" , start ) ;
   sprintf( tmp , "<scidacRecord><version>1.0</version><date>%s GMT</date>"
 	   "<globaldata>0</globaldata>" , get_date( ) ) ;
@@ -378,7 +378,7 @@ write_header_ILDG( FILE *__restrict out )
     "schemaLocation=\"http://www.lqcd.org/ildg/filefmt.xsd\">"
     "<version>1.0</version>" ;
   const char *ILDG_end = "</ildgFormat>" ;
-  char *ILDG_str = malloc( (1+strlen(ILDG_start))*sizeof(char) ) ;
+  char *ILDG_str = GLU_checked( malloc( (1+strlen(ILDG_start))*sizeof(char) ) ) ;
   // begin with the usual spiel and the versioning ...
   sprintf( ILDG_str , "%s" , ILDG_start ) ;
 #ifdef SINGLE_PREC
diff --git a/src/IO/chklat_stuff.c b/src/IO/chklat_stuff.c
index 8a8b118..07e9304 100755
--- a/src/IO/chklat_stuff.c
+++ b/src/IO/chklat_stuff.c
@@ -109,9 +109,9 @@ get_header( FILE *__restrict in )
   }
 
   // Allocate space for QCDheader and its pointers 
-  tokens = ( char ** )malloc( MAX_TOKENS * sizeof( char * ) );
-  values = ( char ** )malloc( MAX_TOKENS * sizeof( char * ) );
-  hdr = ( struct QCDheader * ) malloc( sizeof ( struct QCDheader ) ) ;
+  tokens = ( char ** )GLU_checked( malloc( MAX_TOKENS * sizeof( char * ) ) );
+  values = ( char ** )GLU_checked( malloc( MAX_TOKENS * sizeof( char * ) ) );
+  hdr = ( struct QCDheader * ) GLU_checked( malloc( sizeof ( struct QCDheader ) ) ) ;
   hdr -> token = tokens ;
   hdr -> value = values ;
 
@@ -150,7 +150,7 @@ get_header( FILE *__restrict in )
     len = q - line ;
 
     // allocate space and copy the token in to it 
-    p = malloc( len+1 ) ;
+    p = GLU_checked( malloc( len+1 ) ) ;
     (*hdr).token[n] = p ;
     strcpy( p , line ) ;
 
@@ -159,7 +159,7 @@ get_header( FILE *__restrict in )
 
     len = strlen( q ) ;
     if( len > 0 && q[len-1] == '\n' ) { q[--len] = 0; }
-    p = malloc( len+1 ) ;
+    p = GLU_checked( malloc( len+1 ) ) ;
     (*hdr).value[n] = p ;
     strcpy( p , q ) ;
     n++ ;
diff --git a/src/IO/readers.c b/src/IO/readers.c
index 051cb7b..9ce55ea 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -184,7 +184,7 @@ lattice_reader_suNC( struct site *lat ,
   uint32_t CRCsum29 = 0 , CRCsum31 = 0 , CRC_BQCD = 0 ;
 
   if( HEAD_DATA.precision == DOUBLE_PREC ) {
-    uind = ( double* )malloc( LATT_LOOP * sizeof( double ) ) ; 
+    uind = ( double* )GLU_checked( malloc( LATT_LOOP * sizeof( double ) ) ) ; 
     if( fread( uind , sizeof( double ) , LATT_LOOP , in ) != LATT_LOOP ) {
       fprintf( stderr , "[IO] Configuration File reading failure "
 	       ".. Leaving \n" ) ;
@@ -225,7 +225,7 @@ lattice_reader_suNC( struct site *lat ,
     }
     p = uind ; 
   } else {
-    uin = ( float* )malloc( LATT_LOOP * sizeof( float ) ) ; 
+    uin = ( float* )GLU_checked( malloc( LATT_LOOP * sizeof( float ) ) ) ; 
     if( fread( uin , sizeof( float ) , LATT_LOOP  , in ) != LATT_LOOP ) {
       fprintf( stderr , "[IO] Configuration File reading failure "
 	       ".. Leaving \n" ) ;
@@ -371,9 +371,9 @@ lattice_reader_suNC_cheaper( struct site *lat ,
   static float *uin , *q ; 
 
   if( HEAD_DATA.precision == DOUBLE_PREC ) {
-    uind = ( double* )malloc( ND*LOOP_VAR * sizeof( double ) ) ; 
+    uind = ( double* )GLU_checked( malloc( ND*LOOP_VAR * sizeof( double ) ) ) ; 
   } else {
-    uin = ( float* )malloc( ND*LOOP_VAR * sizeof( float ) ) ; 
+    uin = ( float* )GLU_checked( malloc( ND*LOOP_VAR * sizeof( float ) ) ) ; 
   }
 
   uint32_t k = 0 , sum29 = 0 , sum31 = 0 ; // NERSC & MILC checksums ...
diff --git a/src/IO/writers.c b/src/IO/writers.c
index 3387e98..0904975 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -288,7 +288,7 @@ write_binary_data( const struct site *lat ,
 		   const size_t LOOP_VAR )
 { 
   // write out in working precision
-  GLU_real *uout = ( GLU_real* ) malloc( LATT_LOOP  * sizeof( GLU_real ) ) ; 
+  GLU_real *uout = ( GLU_real* ) GLU_checked( malloc( LATT_LOOP  * sizeof( GLU_real ) ) ) ; 
 
   // copy lattice data into uout 
   copy_data( uout , lat , 0 , LVOLUME , LOOP_VAR , checktype ) ;
@@ -308,8 +308,8 @@ write_binary_data_cheap( const struct site *__restrict lat ,
 			 const size_t LOOP_VAR )
 { 
   // write out in working precision
-  GLU_real *uout = ( GLU_real* ) malloc( LCU * LOOP_VAR * 
-					 ND * sizeof( GLU_real ) ) ; 
+  GLU_real *uout = ( GLU_real* ) GLU_checked( malloc( LCU * LOOP_VAR * 
+					 ND * sizeof( GLU_real ) ) ) ; 
 
   size_t t ;
   for( t = 0 ; t < Latt.dims[ ND - 1 ] ; t++ ) {
diff --git a/src/Matrix_Ops/U_Nops.c b/src/Matrix_Ops/U_Nops.c
index 9e67b50..4c693b9 100755
--- a/src/Matrix_Ops/U_Nops.c
+++ b/src/Matrix_Ops/U_Nops.c
@@ -473,7 +473,7 @@ matrix_power( GLU_complex a[ NCNC ] ,
     size_t nn = n , length = 0 , i ;
     // compute the list, and its length
     while( nn > 2 ) {
-      curr = (struct node*)malloc( sizeof( struct node ) ) ;
+      curr = (struct node*)GLU_checked( malloc( sizeof( struct node ) ) ) ;
       if( nn%2 == 0 ) {
 	nn = nn >> 1 ;
 	curr -> squareable = GLU_TRUE ;
diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index 591ef07..4f9aaae 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -60,14 +60,14 @@ init_factorial( void )
 {
 #ifdef USE_PADE
   // mix of 4,4 pade and 3 rootings is nice combination
-  pade = ( GLU_real* ) malloc( (PADE_ORDER+1) * sizeof( GLU_real ) ) ;
+  pade = ( GLU_real* ) GLU_checked( malloc( (PADE_ORDER+1) * sizeof( GLU_real ) ) ) ;
   pade[ 0 ] = 1.0 ;
   pade[ 1 ] = 1.0/2.0 ;
   pade[ 2 ] = 3.0/28.0 ;
   pade[ 3 ] = 1.0/84.0 ;
   pade[ 4 ] = 1.0/1680.0 ;
 #else
-  factorial = ( GLU_real* ) malloc ( MAX_FACTORIAL * sizeof( GLU_real ) ) ;
+  factorial = ( GLU_real* ) GLU_checked( malloc ( MAX_FACTORIAL * sizeof( GLU_real ) ) ) ;
   factorial[ 0 ] = 1.0 ;
   factorial[ 1 ] = 1.0 ;
   factorial[ 2 ] = 0.5 ;
diff --git a/src/Matrix_Ops/gramschmidt.c b/src/Matrix_Ops/gramschmidt.c
index abb34d8..2c86368 100755
--- a/src/Matrix_Ops/gramschmidt.c
+++ b/src/Matrix_Ops/gramschmidt.c
@@ -200,7 +200,7 @@ gram_reunit( GLU_complex *__restrict U )
     }
   }
   // OK so this process leaves the bottom row as was, need to complete
-  GLU_complex *array = malloc( ( NC - 1 ) * ( NC - 1 ) * sizeof( GLU_complex ) ) ;
+  GLU_complex *array = GLU_checked( malloc( ( NC - 1 ) * ( NC - 1 ) * sizeof( GLU_complex ) ) ) ;
   for( i = (NCNC-NC) ; i < NCNC ; i++ ) { // our bona-fide minor index loops the bottom row
     size_t idx = 0 ;
     for( j = 0 ; j < ( NCNC - NC ) ; j++ ) {
diff --git a/src/Matrix_Ops/lie_mats.c b/src/Matrix_Ops/lie_mats.c
index 5417a44..71f45be 100755
--- a/src/Matrix_Ops/lie_mats.c
+++ b/src/Matrix_Ops/lie_mats.c
@@ -69,8 +69,8 @@ actually_compute_fs_and_ds( void )
 #if NC == 3
   fcount = 54 ;
   dcount = 58 ;
-  f = ( struct struc_func* )malloc( fcount * sizeof( struct struc_func ) ) ;
-  d = ( struct struc_func* )malloc( dcount * sizeof( struct struc_func ) ) ;
+  f = ( struct struc_func* )GLU_checked( malloc( fcount * sizeof( struct struc_func ) ) ) ;
+  d = ( struct struc_func* )GLU_checked( malloc( dcount * sizeof( struct struc_func ) ) ) ;
   register const GLU_real r3_two = 0.8660254037844386 ;
   f[0].val = 1.0      ; f[0].a = 0 ; f[0].b = 1 ; f[0].c = 2 ; 
   f[1].val = -1.0     ; f[1].a = 0 ; f[1].b = 2 ; f[1].c = 1 ; 
@@ -190,7 +190,7 @@ actually_compute_fs_and_ds( void )
   // well that was gratuitous
 #elif NC == 2
   fcount = 6 ;
-  f = ( struct struc_func* )malloc( fcount * sizeof( struct struc_func ) ) ;
+  f = ( struct struc_func* )GLU_checked( malloc( fcount * sizeof( struct struc_func ) ) ) ;
   f[0].val = 1.0  ; f[0].a = 0 ; f[0].b = 1 ; f[0].c = 2 ; 
   f[1].val = -1.0 ; f[1].a = 0 ; f[1].b = 2 ; f[1].c = 1 ; 
   f[2].val = -1.0 ; f[2].a = 1 ; f[2].b = 0 ; f[2].c = 2 ; 
@@ -212,8 +212,8 @@ actually_compute_fs_and_ds( void )
       }
     }
   }
-  f = ( struct struc_func* )malloc( fcount * sizeof( struct struc_func ) ) ;
-  d = ( struct struc_func* )malloc( dcount * sizeof( struct struc_func ) ) ;
+  f = ( struct struc_func* )GLU_checked( malloc( fcount * sizeof( struct struc_func ) ) ) ;
+  d = ( struct struc_func* )GLU_checked( malloc( dcount * sizeof( struct struc_func ) ) ) ;
   fcount = dcount = 0 ;
   for( a = 0 ; a < NCNC - 1 ; a++ ) {
     for( b = 0 ; b < NCNC - 1 ; b++ ) {
@@ -296,8 +296,8 @@ compute_fs_and_ds( void )
     fprintf( stdout , "[LIE] File found (%s) ... Reading it \n" , str ) ; 
     if( fread( &fcount , sizeof( int ) , 1 , fabc_dabc ) != 1 ) return ;
     if( fread( &dcount , sizeof( int ) , 1 , fabc_dabc ) != 1 ) return ;
-    f = ( struct struc_func* )malloc( fcount * sizeof( struct struc_func ) ) ;
-    d = ( struct struc_func* )malloc( dcount * sizeof( struct struc_func ) ) ;
+    f = ( struct struc_func* )GLU_checked( malloc( fcount * sizeof( struct struc_func ) ) ) ;
+    d = ( struct struc_func* )GLU_checked( malloc( dcount * sizeof( struct struc_func ) ) ) ;
     if( fread( f , sizeof( struct struc_func ) , fcount , fabc_dabc ) != fcount ) return ;
     if( fread( d , sizeof( struct struc_func ) , dcount , fabc_dabc ) != dcount ) return ;
   }
@@ -393,10 +393,10 @@ ifabc_dabc_ABC( const GLU_complex A[ NCNC ] ,
 void
 init_generators( void )
 {
-  lambda = ( GLU_complex** )malloc( ( NCNC-1 ) * sizeof( GLU_complex* ) ) ;
+  lambda = ( GLU_complex** )GLU_checked( malloc( ( NCNC-1 ) * sizeof( GLU_complex* ) ) ) ;
   size_t i , j ;
   for( i = 0 ; i < NCNC-1 ; i++ ) {
-    lambda[ i ] = ( GLU_complex* )malloc( NCNC * sizeof( GLU_complex ) ) ;
+    lambda[ i ] = ( GLU_complex* )GLU_checked( malloc( NCNC * sizeof( GLU_complex ) ) ) ;
     for( j = 0 ; j < NCNC ; j++ ) { lambda[i][j] = 0.0 ; } // initialise to 0
   }  
   // the idea is to compute the 2x2, and then embed in the 3x3 and so on
diff --git a/src/Smear/4D_fast.c b/src/Smear/4D_fast.c
index 3083bd7..bfe9e09 100755
--- a/src/Smear/4D_fast.c
+++ b/src/Smear/4D_fast.c
@@ -233,7 +233,7 @@ HYPSLsmear4D_expensive( struct site *__restrict lat ,
   int FLAG = GLU_SUCCESS ;
   
 #ifdef TOP_VALUE
-  red = malloc( CLINE * Latt.Nthreads * sizeof( double ) ) ;
+  red = GLU_checked( malloc( CLINE * Latt.Nthreads * sizeof( double ) ) ) ;
 #endif
 
   // callback for the projections
diff --git a/src/Smear/HYP.c b/src/Smear/HYP.c
index cf4b4ef..c259904 100755
--- a/src/Smear/HYP.c
+++ b/src/Smear/HYP.c
@@ -159,7 +159,7 @@ HYPSLsmear3D( struct site *__restrict lat ,
   double *red = NULL ;
   int FLAG = GLU_SUCCESS ;
 #ifdef TOP_VALUE
-  red = malloc( CLINE*Latt.Nthreads*sizeof( double ) ) ;
+  red = GLU_checked( malloc( CLINE*Latt.Nthreads*sizeof( double ) ) ) ;
 #endif
 
   // callback for the projections
diff --git a/src/Smear/ND_generic_HYP.c b/src/Smear/ND_generic_HYP.c
index 20ac7a3..e1e3164 100755
--- a/src/Smear/ND_generic_HYP.c
+++ b/src/Smear/ND_generic_HYP.c
@@ -200,7 +200,7 @@ HYsmearND( struct site *__restrict lat ,
   double *red = NULL ;
   int FLAG = GLU_SUCCESS ;
 #ifdef TOP_VALUE
-  red = malloc( CLINE*Latt.Nthreads*sizeof( double ) ) ;
+  red = GLU_checked( malloc( CLINE*Latt.Nthreads*sizeof( double ) ) ) ;
 #endif
   
   // callback for the projections
diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index ff4e0fa..ce823ab 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -215,12 +215,13 @@ flow_adaptive_RK3( struct site *__restrict lat ,
   
   // allocate temps
   struct wflow_temps WF ;
+  int FLAG = GLU_SUCCESS ;
   if( allocate_WF( &WF , GLU_FALSE , GLU_TRUE ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
     goto memfree ;
   }
 
   const double inplaq = av_plaquette( lat ) ;
-  int FLAG = GLU_SUCCESS ;
   
 #pragma omp parallel
   {
@@ -231,7 +232,7 @@ flow_adaptive_RK3( struct site *__restrict lat ,
     size_t i ;
     double delta_t = SIGN * Latt.sm_alpha[0] ;
 
-    curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+    curr = (struct wfmeas*)GLU_checked( malloc( sizeof( struct wfmeas ) ) ) ;
     update_meas_list( head , curr , WF.red ,
 		      new_plaq , t , delta_t , 0.0 , lat ) ;
     head = curr ;
@@ -281,7 +282,7 @@ flow_adaptive_RK3( struct site *__restrict lat ,
     }
     
     if( t > WFLOW_MEAS_START ) {
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      curr = (struct wfmeas*)GLU_checked( malloc( sizeof( struct wfmeas ) ) ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_t ,
 			errmax*ADAPTIVE_EPS , lat ) ;
@@ -307,7 +308,7 @@ flow_adaptive_RK3( struct site *__restrict lat ,
       step_distance( lat , WF , delta_t , SM_TYPE , project ) ;
       
       new_plaq = get_plaq_th( lat , WF ) ;
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      curr = (struct wfmeas*)GLU_checked( malloc( sizeof( struct wfmeas ) ) ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t = t+delta_t , delta_t ,
 			errmax*ADAPTIVE_EPS , lat ) ;
@@ -333,7 +334,7 @@ flow_adaptive_RK3( struct site *__restrict lat ,
       
       step_distance( lat , WF , delta_t , SM_TYPE , project ) ;
 
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      curr = (struct wfmeas*)GLU_checked( malloc( sizeof( struct wfmeas ) ) ) ;
       new_plaq = get_plaq_th( lat , WF ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t += delta_t , delta_t ,
@@ -371,7 +372,7 @@ flow_adaptive_RK3( struct site *__restrict lat ,
       delta_t = WFLOW_TIME_STOP - t ;
       step_distance( lat , WF , delta_t , SM_TYPE , project ) ;
       new_plaq = get_plaq_th( lat , WF ) ;
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      curr = (struct wfmeas*)GLU_checked( malloc( sizeof( struct wfmeas ) ) ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t += delta_t , delta_t ,
 			errmax*ADAPTIVE_EPS , lat ) ;
diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 378d964..fbccd21 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -55,7 +55,7 @@ smear3D( struct site *__restrict lat ,
   int FLAG = GLU_SUCCESS ;
 
 #ifdef TOP_VALUE
-  red = malloc( CLINE*Latt.Nthreads*sizeof(double) ) ;
+  red = GLU_checked( malloc( CLINE*Latt.Nthreads*sizeof(double) ) ) ;
 #endif
 
   // allocate temporary lattice field
@@ -191,7 +191,7 @@ smear4D( struct site *__restrict lat ,
   int FLAG = GLU_SUCCESS ;
   
 #ifdef TOP_VALUE
-  red = malloc( CLINE*Latt.Nthreads*sizeof( double ) ) ;
+  red = GLU_checked( malloc( CLINE*Latt.Nthreads*sizeof( double ) ) ) ;
 #endif
   
   // callback for the projections
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index 549d193..b010215 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -98,7 +98,7 @@ flow_RK3( struct site *__restrict lat ,
     size_t count = 0 , meas_count = 0 ;
     
     struct wfmeas *head = NULL , *curr ;
-    curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+    curr = (struct wfmeas*)GLU_checked( malloc( sizeof( struct wfmeas ) ) ) ;
     update_meas_list( head , curr , WF.red ,
 		      new_plaq , t , delta_t ,
 		      err_est , lat ) ;
@@ -121,7 +121,7 @@ flow_RK3( struct site *__restrict lat ,
     
     // update the linked list
     if( t >= WFLOW_MEAS_START ) {
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      curr = (struct wfmeas*)GLU_checked( malloc( sizeof( struct wfmeas ) ) ) ;
       // compute plaquette
       av_plaquette_th( WF.red , lat ) ;
       size_t k ;
@@ -160,7 +160,7 @@ flow_RK3( struct site *__restrict lat ,
 	new_plaq += WF.red[ 3 + CLINE*k ] ;
       }
       new_plaq *= 2.0/( NC * ND * ( ND-1 ) * LVOLUME ) ;
-      curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      curr = (struct wfmeas*)GLU_checked( malloc( sizeof( struct wfmeas ) ) ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_tcorr ,
 			err_est , lat ) ;
diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index 464ee55..5c69cbe 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -441,9 +441,9 @@ scaleset( struct wfmeas *curr ,
 	  const GLU_bool is_clover ) 
 {
   // now we have the number of measurements in count
-  double *GT   = malloc( ( count + 1 ) * sizeof( double ) ) ;
-  double *time = malloc( ( count + 1 ) * sizeof( double ) ) ;
-  double *der  = malloc( ( count + 1 ) * sizeof( double ) ) ;
+  double *GT   = GLU_checked( malloc( ( count + 1 ) * sizeof( double ) ) ) ;
+  double *time = GLU_checked( malloc( ( count + 1 ) * sizeof( double ) ) ) ;
+  double *der  = GLU_checked( malloc( ( count + 1 ) * sizeof( double ) ) ) ;
   // error handling
   double t0 = -1 , w0 = -1 ;
   int flag = GLU_SUCCESS ;
diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index a9025d2..36f469d 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -205,14 +205,16 @@ suNC_cross_u1( struct site *lat ,
   start_timer( ) ;
 
   // initialise the rng
-  initialise_par_rng( NULL ) ;
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   struct fftw_stuff FFTW ;
   create_plans_DFT( &FFTW , Latt.dims , ND , ND ) ;
 
   // set psq to the QEDL prescription
   size_t i ; 
-  FFTW.psq = malloc( LVOLUME*sizeof( GLU_real ) ) ;
+  FFTW.psq = GLU_checked( malloc( LVOLUME*sizeof( GLU_real ) ) ) ;
   for( i = 0 ; i < LVOLUME ; i++ ) {
     int flag = 0 ;
     register const GLU_real f = 1.0 / (GLU_real)sqrt( gen_p_sq_feyn( i , &flag ) ) ;
@@ -224,7 +226,10 @@ suNC_cross_u1( struct site *lat ,
   }
 
   // create the U1 field ...
-  create_u1( lat , &FFTW, U1INFO ) ;
+  if( create_u1( lat , &FFTW, U1INFO ) == GLU_FAILURE ) {
+    clean_up_fftw( FFTW , ND ) ;
+    return GLU_FAILURE ;
+  }
 
   fprintf( stdout , "[U1] SUNCxU1 created ....\n" ) ;
   
diff --git a/src/U1/U1_top.c b/src/U1/U1_top.c
index 401f1e8..e576e7b 100755
--- a/src/U1/U1_top.c
+++ b/src/U1/U1_top.c
@@ -155,10 +155,10 @@ U1_topological( int *monopole ,
 		double *qtop , 
 		const GLU_complex **O  )
 {
-  int **M = calloc( ND , sizeof( int * ) ) ;
+  int **M = GLU_checked( calloc( ND , sizeof( int * ) ) ) ;
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    M[ mu ] = ( int* )calloc( LVOLUME , sizeof( int ) ) ; 
+    M[ mu ] = ( int* )GLU_checked( calloc( LVOLUME , sizeof( int ) ) ) ; 
   }
 
   // initialise the dirac measurement
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 3a964d6..abad073 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -194,9 +194,9 @@ hb_update( struct site *lat ,
 	   HBINFO.Nsave ) ;
   fprintf( stdout , "[UPDATE] Using beta = %1.12f \n" , HBINFO.beta ) ;
 
-  double *PLAQred = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ;
+  double *PLAQred = GLU_checked( calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ) ;
 #ifdef POLY_MEAS
-  double *POLYred = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ;
+  double *POLYred = GLU_checked( calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ) ;
 #endif
   // set if a configuration could not be saved
   int FLAG = GLU_SUCCESS ;
diff --git a/src/Update/SU2_rotate.c b/src/Update/SU2_rotate.c
index c42e45a..a38d689 100644
--- a/src/Update/SU2_rotate.c
+++ b/src/Update/SU2_rotate.c
@@ -28,7 +28,7 @@
 void
 compute_pertinent_indices( void )
 {
-  Latt.su2_data = malloc( NSU2SUBGROUPS * sizeof( struct su2_subgroups ) ) ;
+  Latt.su2_data = GLU_checked( malloc( NSU2SUBGROUPS * sizeof( struct su2_subgroups ) ) ) ;
   size_t su2_index , i1 , i2 ;
   for( su2_index = 0 ; su2_index < NSU2SUBGROUPS ; su2_index ++ ) {
     size_t found = 0 , del_i = 0 , index = 0 ;
diff --git a/src/Update/SU2_rotate_SSE.c b/src/Update/SU2_rotate_SSE.c
index aca58b2..eeb161a 100644
--- a/src/Update/SU2_rotate_SSE.c
+++ b/src/Update/SU2_rotate_SSE.c
@@ -32,7 +32,7 @@
 void
 compute_pertinent_indices( void )
 {
-  Latt.su2_data = malloc( NSU2SUBGROUPS * sizeof( struct su2_subgroups ) ) ;
+  Latt.su2_data = GLU_checked( malloc( NSU2SUBGROUPS * sizeof( struct su2_subgroups ) ) ) ;
   size_t su2_index , i1 , i2 ;
   for( su2_index = 0 ; su2_index < NSU2SUBGROUPS ; su2_index ++ ) {
     size_t found = 0 , del_i = 0 , index = 0 ;
diff --git a/src/Utils/GLU_malloc.c b/src/Utils/GLU_malloc.c
index 53acd8d..3001e42 100644
--- a/src/Utils/GLU_malloc.c
+++ b/src/Utils/GLU_malloc.c
@@ -44,6 +44,17 @@ GLU_malloc( void **memptr ,
 #endif
 }
 
+// for small allocations there is no way of carrying on without
+void *
+GLU_checked( void *ptr )
+{
+  if( ptr == NULL ) {
+    fprintf( stderr , "[MALLOC] out of memory, giving up\n" ) ;
+    exit( EXIT_FAILURE ) ;
+  }
+  return ptr ;
+}
+
 // allocate the gauge fields
 struct site *
 allocate_lat( void )
@@ -55,17 +66,26 @@ allocate_lat( void )
   }
   #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
+    lat[i].O = NULL ;
     if( GLU_malloc( (void**)&lat[i].O , ALIGNMENT , ND * sizeof( GLU_complex* ) ) != 0 ) {
+      lat[i].O = NULL ;
+      #pragma omp atomic write
       flag = 1 ;
+      continue ;
     }
     size_t mu ;
     for( mu = 0 ; mu < ND ; mu++ ) {
       if( GLU_malloc( (void**)&lat[i].O[mu] , ALIGNMENT , NCNC * sizeof( GLU_complex ) ) != 0 ) {
+	lat[i].O[mu] = NULL ;
+        #pragma omp atomic write
 	flag = 1 ;
       }
     }
   }
-  if( flag == 1 ) return NULL ;
+  if( flag == 1 ) {
+    free_lat( lat ) ;
+    return NULL ;
+  }
   init_navig( lat ) ;
   return lat ;
 }
@@ -75,21 +95,18 @@ void
 free_lat( struct site *lat )
 {
   size_t i ;
+  if( lat == NULL ) return ;
   #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     size_t mu ;
-    for( mu = 0 ; mu < ND ; mu++ ) {
-      if( lat[i].O[mu] != NULL ) {
+    if( lat[i].O != NULL ) {
+      for( mu = 0 ; mu < ND ; mu++ ) {
 	free( lat[i].O[mu] ) ;
       }
-    }
-    if( lat[i].O != NULL ) {
       free( lat[i].O ) ;
     }
   }
-  if( lat != NULL ) {
-    free( lat ) ;
-  }
+  free( lat ) ;
   return ;
 }
 
@@ -106,18 +123,27 @@ allocate_s_site( const size_t LENGTH1 ,
   }
   #pragma omp parallel for private(i)
   for( i = 0 ; i < LENGTH1 ; i++ ) {
+    lat[i].O = NULL ;
     if( GLU_malloc( (void**)&lat[i].O , ALIGNMENT , LENGTH2 * sizeof( GLU_complex* ) ) != 0 ) {
+      lat[i].O = NULL ;
+      #pragma omp atomic write
       flag = 1 ;
+      continue ;
     }
     //
     size_t mu ;
     for( mu = 0 ; mu < LENGTH2 ; mu++ ) {
       if( GLU_malloc( (void**)&lat[i].O[mu] , ALIGNMENT , LENGTH3 * sizeof( GLU_complex ) ) != 0 ) {
+	lat[i].O[mu] = NULL ;
+        #pragma omp atomic write
 	flag = 1 ;
       }
     }
   }
-  if( flag == 1 ) return NULL ;
+  if( flag == 1 ) {
+    free_s_site( lat , LENGTH1 , LENGTH2 ) ;
+    return NULL ;
+  }
   return lat ;
 }
 
@@ -129,20 +155,17 @@ free_s_site( struct s_site *lat ,
 {
 
   size_t i ;
+  if( lat == NULL ) return ;
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LENGTH1 ; i++ ) {
     size_t mu ;
-    for( mu = 0 ; mu < LENGTH2 ; mu++ ) {
-      if( lat[i].O[mu] != NULL ) {
+    if( lat[i].O != NULL ) {
+      for( mu = 0 ; mu < LENGTH2 ; mu++ ) {
 	free( lat[i].O[mu] ) ;
       }
-    }
-    if( lat[i].O != NULL ) {
       free( lat[i].O ) ;
     }
   }
-  if( lat != NULL ) {
-    free( lat ) ;
-  }
+  free( lat ) ;
   return ;
 }
diff --git a/src/Utils/par_KISS.c b/src/Utils/par_KISS.c
index 4688200..361a14a 100644
--- a/src/Utils/par_KISS.c
+++ b/src/Utils/par_KISS.c
@@ -56,10 +56,10 @@ free_par_KISS( void )
 void
 GLU_set_par_KISS_table( const uint32_t seed[ Latt.Nthreads ] )
 {
-  table = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
+  table = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ) ;
   size_t i , j ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    table[i] = GLU_checked( malloc( RNG_TABLE * sizeof( uint32_t ) ) ) ;
     table[i][0] = seed[i] ;
     for( j = 1 ; j < RNG_TABLE ; j++ ) {
       table[i][j] = ( 1812433253UL * ( table[i][j-1] ^ ( table[i][j-1] >> 30)) + j ) ;
@@ -95,10 +95,10 @@ par_KISS_dbl( const uint32_t thread )
 int
 read_par_KISS_table( FILE *rng_file )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
+  table  = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ) ;
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    table[i] = GLU_checked( malloc( RNG_TABLE * sizeof( uint32_t ) ) ) ;
     if( fread( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
       return GLU_FAILURE ;
diff --git a/src/Utils/par_MWC_1038.c b/src/Utils/par_MWC_1038.c
index 9bddb7d..4aa2936 100644
--- a/src/Utils/par_MWC_1038.c
+++ b/src/Utils/par_MWC_1038.c
@@ -64,12 +64,12 @@ free_par_MWC_1038( void )
 void
 GLU_set_par_MWC_1038_table( const uint32_t seed[ Latt.Nthreads ] )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
-  mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
-  carry  = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  table  = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ) ;
+  mcwc_i = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
+  carry  = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
   size_t i , j ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    table[i] = GLU_checked( malloc( RNG_TABLE * sizeof( uint32_t ) ) ) ;
     table[i][0] = seed[i] ;
     for( j = 1 ; j < RNG_TABLE ; j++ ) {
       table[i][j] = ( 1812433253UL * ( table[i][j-1] ^ ( table[i][j-1] >> 30)) + j ) ;
@@ -108,12 +108,12 @@ par_MWC_1038_dbl( const uint32_t thread )
 int
 read_par_MWC_1038_table( FILE *rng_file )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
-  mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
-  carry  = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  table  = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ) ;
+  mcwc_i = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
+  carry  = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    table[i] = GLU_checked( malloc( RNG_TABLE * sizeof( uint32_t ) ) ) ;
     if( fread( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
       return GLU_FAILURE ;
diff --git a/src/Utils/par_MWC_4096.c b/src/Utils/par_MWC_4096.c
index ae207fc..b62973f 100644
--- a/src/Utils/par_MWC_4096.c
+++ b/src/Utils/par_MWC_4096.c
@@ -71,12 +71,12 @@ free_par_MWC_4096( void )
 void
 GLU_set_par_MWC_4096_table( const uint32_t seed[ Latt.Nthreads ] )
 {
-  table = malloc( RNG_TABLE * sizeof( uint32_t* ) ) ;
-  mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
-  carry  = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  table = GLU_checked( malloc( RNG_TABLE * sizeof( uint32_t* ) ) ) ;
+  mcwc_i = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
+  carry  = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
   size_t i , j ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    table[i] = GLU_checked( malloc( RNG_TABLE * sizeof( uint32_t ) ) ) ;
     table[i][0] = seed[i] ;
     for( j = 1 ; j < 4096 ; j++ ) {
       table[i][j] = ( 1812433253UL * ( table[i][j-1] ^ ( table[i][j-1] >> 30)) + j ) ;
@@ -115,12 +115,12 @@ par_MWC_4096_dbl( const uint32_t thread )
 int
 read_par_MWC_4096_table( FILE *rng_file )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
-  mcwc_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
-  carry  = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  table  = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ) ;
+  mcwc_i = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
+  carry  = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    table[i] = GLU_checked( malloc( RNG_TABLE * sizeof( uint32_t ) ) ) ;
     if( fread( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
       return GLU_FAILURE ;
diff --git a/src/Utils/par_WELL_512.c b/src/Utils/par_WELL_512.c
index 4e09458..da166f7 100644
--- a/src/Utils/par_WELL_512.c
+++ b/src/Utils/par_WELL_512.c
@@ -63,11 +63,11 @@ free_par_WELL_512( void )
 void
 GLU_set_par_WELL_512_table( const uint32_t seed[ Latt.Nthreads ] )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
-  well_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  table  = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ) ;
+  well_i = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
   size_t i , j ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    table[i] = GLU_checked( malloc( RNG_TABLE * sizeof( uint32_t ) ) ) ;
     table[i][0] = seed[i] ;
     for( j = 1 ; j < RNG_TABLE ; j++ ) {
       table[i][j] = ( 1812433253UL * ( table[i][j-1] ^ ( table[i][j-1] >> 30)) + j ) ;
@@ -106,11 +106,11 @@ par_WELL_512_dbl( const uint32_t thread )
 int
 read_par_WELL_512_table( FILE *rng_file )
 {
-  table  = malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ;
-  well_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  table  = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t* ) ) ) ;
+  well_i = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint32_t ) ) ;
+    table[i] = GLU_checked( malloc( RNG_TABLE * sizeof( uint32_t ) ) ) ;
     if( fread( table[i] , sizeof( uint32_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
       return GLU_FAILURE ;
diff --git a/src/Utils/par_XOR_1024.c b/src/Utils/par_XOR_1024.c
index e36842a..eb1bf55 100644
--- a/src/Utils/par_XOR_1024.c
+++ b/src/Utils/par_XOR_1024.c
@@ -46,12 +46,12 @@ par_XOR_1024( const uint32_t thread )
 void
 GLU_set_par_XOR_1024_table( const uint32_t seed[ Latt.Nthreads ] )
 {
-  table = malloc( Latt.Nthreads * sizeof( uint64_t* ) ) ;
-  xor_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  table = GLU_checked( malloc( Latt.Nthreads * sizeof( uint64_t* ) ) ) ;
+  xor_i = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
   size_t i , j ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
 
-    table[i] = malloc( RNG_TABLE * sizeof( uint64_t ) ) ;
+    table[i] = GLU_checked( malloc( RNG_TABLE * sizeof( uint64_t ) ) ) ;
 
     // type-pun the 64-bit table
     union {
@@ -97,11 +97,11 @@ par_XOR_1024_dbl( const uint32_t thread )
 int
 read_par_XOR_1024_table( FILE *rng_file )
 {
-  table = malloc( Latt.Nthreads * sizeof( uint64_t* ) ) ;
-  xor_i = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+  table = GLU_checked( malloc( Latt.Nthreads * sizeof( uint64_t* ) ) ) ;
+  xor_i = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
   size_t i ;
   for( i = 0 ; i < Latt.Nthreads ; i++ ) {
-    table[i] = malloc( RNG_TABLE * sizeof( uint64_t ) ) ;
+    table[i] = GLU_checked( malloc( RNG_TABLE * sizeof( uint64_t ) ) ) ;
     if( fread( table[i] , sizeof( uint64_t ) , RNG_TABLE , rng_file ) != RNG_TABLE ) {
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
       return GLU_FAILURE ;
diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index ed0faf3..cc9c2dd 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -61,7 +61,7 @@ initialise_par_rng( const char *rng_file )
 
     if( rng_file == NULL ) {
       // pull from the entropy pool?
-      uint32_t *Seeds = malloc( Latt.Nthreads * sizeof( uint32_t ) ) ;
+      uint32_t *Seeds = GLU_checked( malloc( Latt.Nthreads * sizeof( uint32_t ) ) ) ;
 
       size_t i ;
       if( Latt.Seed[0] == 0 ) {
diff --git a/src/Utils/str_stuff.c b/src/Utils/str_stuff.c
index 8f73370..f4181d2 100644
--- a/src/Utils/str_stuff.c
+++ b/src/Utils/str_stuff.c
@@ -9,7 +9,7 @@ void
 append_char( char **str ,
 	     const char *tmp )
 {
-  *str = realloc( *str , (1+strlen(tmp)+strlen(*str))*sizeof(char) ) ;
+  *str = GLU_checked( realloc( *str , (1+strlen(tmp)+strlen(*str))*sizeof(char) ) ) ;
   *str = strcat( *str , tmp ) ;
 }
 
diff --git a/src/Wrappers/CUT_wrap.c b/src/Wrappers/CUT_wrap.c
index 0506e6d..d800086 100755
--- a/src/Wrappers/CUT_wrap.c
+++ b/src/Wrappers/CUT_wrap.c
@@ -31,44 +31,46 @@
 #include "smearing_param.h" // smeared gluon propagator
 
 // wrapper for the variousfa momentum-cutting and other measurement options
-void
+int
 cuts_wrap_struct( struct site *__restrict lat , 
 		  const struct cut_info CUTINFO ,
 		  const struct sm_info SMINFO )
 {
+  int FLAG = GLU_FAILURE ;
+
   start_timer( ) ;
 
   ///////////// CREATE CUTS ////////////
   switch( CUTINFO.dir ) {
   case INSTANTANEOUS_GLUONS :
-    cuts_spatial( lat , CUTINFO ) ;
+    FLAG = cuts_spatial( lat , CUTINFO ) ;
     break ;
   case CONFIGSPACE_GLUONS :
-    cuts_struct_configspace( lat , CUTINFO , SMINFO ) ;
+    FLAG = cuts_struct_configspace( lat , CUTINFO , SMINFO ) ;
     break ;
   case SMEARED_GLUONS :
-    cuts_struct_smeared( lat , CUTINFO , SMINFO ) ;
+    FLAG = cuts_struct_smeared( lat , CUTINFO , SMINFO ) ;
     break ;
   case STATIC_POTENTIAL :
-    Coul_staticpot( lat , CUTINFO , SMINFO ) ;
+    FLAG = Coul_staticpot( lat , CUTINFO , SMINFO ) ;
     break ;
   case TOPOLOGICAL_CORRELATOR :
   case TOPOLOGICAL_MOMENTS :
   case TOPOLOGICAL_SUSCEPTIBILITY :
-    compute_Qsusc_step( lat , CUTINFO , SMINFO ) ;
+    FLAG = compute_Qsusc_step( lat , CUTINFO , SMINFO ) ;
     break ;
   case GLUON_PROPS :
   case EXCEPTIONAL :
   case NONEXCEPTIONAL :
   case FIELDS :
     // all of the other momentum space routines are in here
-    cuts_struct( lat , CUTINFO ) ;
+    FLAG = cuts_struct( lat , CUTINFO ) ;
     break ;
   default :
-    return ;
+    return GLU_FAILURE ;
   }
 
   print_time( ) ;
 
-  return ;
+  return FLAG ;
 }
diff --git a/src/Wrappers/GF_wrap.c b/src/Wrappers/GF_wrap.c
index e15f60d..78888ab 100755
--- a/src/Wrappers/GF_wrap.c
+++ b/src/Wrappers/GF_wrap.c
@@ -201,9 +201,9 @@ GF_wrap( const char *infile ,
   case GLU_COULOMB_RESIDUAL_FIX :
     if( GF_wrap_coulomb( lat , GFINFO ) == GLU_FAILURE ) return GLU_FAILURE ;
     fprintf( stdout , "\n[GF] Residual gauge fixing step \n" ) ;
-    residual_fix( lat ) ;
+    flag = residual_fix( lat ) ;
     output_information( lat ) ;
-    return GLU_SUCCESS ;
+    return flag ;
   case GLU_LANDAU_FIX :
     return GF_wrap_landau( lat , infile , GFINFO ) ;
   case GLU_MAG_FIX :
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index ac5afdf..b5b816b 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -296,11 +296,11 @@ read_and_cut( const char *infile ,
   // should print out a warning
   if( lat == NULL ) return GLU_FAILURE ;
 
-  cuts_wrap_struct( lat , CUTINFO , SMINFO ) ;
+  const int FLAG = cuts_wrap_struct( lat , CUTINFO , SMINFO ) ;
 
   free_lat( lat ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // gauge fixing
@@ -387,9 +387,9 @@ read_and_U1( const char *infile ,
   // if we want a random transform then here is where we do it
   if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
 
-  suNC_cross_u1( lat , U1INFO ) ;
+  FLAG = suNC_cross_u1( lat , U1INFO ) ;
 
-  if( (Latt.argc-1) == WRITE ) {
+  if( FLAG != GLU_FAILURE && (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
-- 
2.43.0


From 387749aa01ee0aab71885f093fbb344e2ba60ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:31 +0000
Subject: [PATCH 87/91] fix: C18 quenched U(1) fields on odd extents and
 outside four dimensions

---
 src/U1/SUNCxU1_config.c | 40 ++++++++--------------------------------
 src/U1/U1_top.c         |  6 ++++--
 2 files changed, 12 insertions(+), 34 deletions(-)

diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index 36f469d..80b67c5 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -38,40 +38,17 @@
 // just to make it clear what we are doing
 enum{ CONJUGATE_NOT_IN_LIST , CONJUGATE_IN_LIST } ;
 
-// little inline for the ( 0 , 0 , .. , 0 ) point in the -Pi -> Pi BZ
-static size_t
-compute_zeropoint( void )
-{
-#if ND == 4
-  return ( Latt.dims[0] * ( 1 + Latt.dims[1] * ( 1 + Latt.dims[2] * ( 1 + Latt.dims[3] ) ) ) ) >> 1 ;
-#else
-  size_t check = Latt.dims[ ND-1 ] , mu ;
-  for( mu = ND-2 ; mu != 0 ; mu-- ) {
-    check = Latt.dims[ mu ] * ( 1 + check ) ;
-  }
-  return check >> 1 ;
-#endif
-}
-
 // compute the conjugate site to "i"
 static size_t
 conjugate_site( const size_t i )
 {
   int x[ ND ] ;
-  get_mom_pipi( x , i , ND ) ;
-  #if ND == 4
-  x[0] = -x[0] ;
-  x[1] = -x[1] ;
-  x[2] = -x[2] ;
-  x[3] = -x[3] ;
-  #else
   size_t mu ;
-  for( mu = 0 ; mu < ND ; mu++ ) { x[mu] = -x[mu] ; }
-  #endif
-  //  contrary to what its name may suggest get_site_2piBZ translates
-  //  the -pi to pi BZ coordinates to a site in the 0->2Pi lattice
-  //  which is what the FFT uses
-  return get_site_2piBZ( x , ND ) ;
+  get_mom_2piBZ( x , i , ND ) ;
+  for( mu = 0 ; mu < ND ; mu++ ) {
+    x[mu] = ( x[mu] == 0 ) ? 0 : (int)Latt.dims[mu] - x[mu] ;
+  }
+  return gen_site( x ) ;
 }
 
 // periodic fields using the DFT
@@ -94,12 +71,11 @@ periodic_dft( struct fftw_stuff *FFTW )
     }
     #endif
   }  
-  const size_t SYMM_POINT = compute_zeropoint( ) + 1 ;
-  for( i = 0 ; i < SYMM_POINT ; i++ ) {
+  for( i = 0 ; i < LVOLUME ; i++ ) {
     const size_t b = conjugate_site( i ) ;
-    if( i == b ) {
+    if( i == b ) { // a real mode has all of its variance in one component
       for( size_t mu = 0 ; mu < ND ; mu++ ) {
-	FFTW -> in[mu][i] = creal( FFTW -> in[mu][i] ) + I*0.0 ;
+	FFTW -> in[mu][i] = M_SQRT2 * creal( FFTW -> in[mu][i] ) + I*0.0 ;
       }
     } else if( b < i ) { // case is already done
       continue ;
diff --git a/src/U1/U1_top.c b/src/U1/U1_top.c
index e576e7b..b9c0c42 100755
--- a/src/U1/U1_top.c
+++ b/src/U1/U1_top.c
@@ -44,7 +44,7 @@ current( const int **M )
 static inline int 
 mod_2pi( const GLU_real theta )
 {
-  return (int)theta / TWOPI ; 
+  return (int)( theta / TWOPI ) ;
 }
 
 // the noncompact face of the plaquette
@@ -113,7 +113,7 @@ dirac( int **M ,
 		continue ;
 	      } else {
 		int factor = -1 ;
-		if( ( nu % 2 ) == 1 ) {
+		if( ( ( nu % 2 ) == 1 ) == ( nu > mu ) ) {
 		  factor = 1 ;
 		}
 		const size_t temp = gen_shift( i , nu ) ;
@@ -135,6 +135,7 @@ static double
 non_Qtop( const GLU_complex **O )
 {
   double charge = 0.0 ;
+#if ND == 4
   size_t i;
 #pragma omp parallel for private(i) reduction(+:charge)
   for( i = 0 ; i < LVOLUME ; i++ ) {
@@ -145,6 +146,7 @@ non_Qtop( const GLU_complex **O )
     // parallel reduction on charge
     charge = charge + (double)qtemp ;
   }
+#endif
   return charge * 0.001583143494411527678811 ;
 }
 
-- 
2.43.0


From 0e59c1e1212ed4dbaea06bf85c68a9584ae3cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:44 +0000
Subject: [PATCH 88/91] fix: C17 gluon correlators of lists without mirror
 images, smeared propagators and configuration-space normalisation

---
 src/Cuts/3Dcuts.c         | 15 ++++++---------
 src/Cuts/MOMgg.c          | 31 +++++++++++++++++--------------
 src/Cuts/config_gluons.c  | 29 ++++++++++++++++-------------
 src/Cuts/glueprop.c       | 29 +++++------------------------
 src/Cuts/smearing_param.c | 28 +++++++++++++++++-----------
 5 files changed, 61 insertions(+), 71 deletions(-)

diff --git a/src/Cuts/3Dcuts.c b/src/Cuts/3Dcuts.c
index f96f7f2..6ab1f9f 100755
--- a/src/Cuts/3Dcuts.c
+++ b/src/Cuts/3Dcuts.c
@@ -193,29 +193,26 @@ g( p ) =   ----------    >    Tr < A_( ND - 1 )( p ) . A_( ND - 1 )( -p ) >
   const double g2_norm = ND > 2 ? 2.0 / ( ( NCNC - 1 ) * ( ND - 2 ) * LVOLUME ) : 2.0 / ( ( NCNC - 1 ) * LVOLUME ) ; 
   const double g0_norm = ND > 1 ? 2.0 / ( ( NCNC - 1 ) * ( ND - 1 ) * LVOLUME ) : 2.0 / ( ( NCNC - 1 ) * LVOLUME ) ; 
 
-  // logically this is the zero momentum position as our list is symmetric
-  const size_t midpoint = ( num_mom[0] - 1 ) >> 1 ;
-
   size_t i ;
 #pragma omp parallel for private(i) 
   for( i = 0  ;  i < num_mom[0]  ;  i++  ) {
     double sum_spatial = 0. ; 
     double sum_temporal = 0. ;
     GLU_complex tr ;
-    size_t t , mu , mom , cnj ;
+    size_t t , mu , mom ;
     for( t = 0 ;  t < Latt.dims[ ND - 1 ]  ;  t++ ) {
       mom = LCU * t + list[ i ].idx ;  
-      cnj = LCU * t + list[ num_mom[0] - i - 1 ].idx ;  
-      // prod all spatial directions
+      // prod all spatial directions, A(-p) is A(p)^{\dagger}
       for( mu = 0 ; mu < ND - 1 ; mu++ ) {      
-	trace_ab( &tr , A[ mom ].O[mu] , A[ cnj ].O[mu] ) ;
+	trace_ab_dag( &tr , A[ mom ].O[mu] , A[ mom ].O[mu] ) ;
 	sum_spatial += (double)creal( tr ) ;
       }
-      trace_ab( &tr , A[ mom ].O[ ND - 1 ] , A[ cnj ].O[ ND - 1 ] ) ;
+      trace_ab_dag( &tr , A[ mom ].O[ ND - 1 ] , A[ mom ].O[ ND - 1 ] ) ;
       sum_temporal += (double)creal( tr ) ;
     }
       
-    if( i != midpoint ) {
+    // index 0 is zero momentum
+    if( list[ i ].idx != 0 ) {
       sum_spatial *= g2_norm ; 
       sum_temporal *= g2_norm ; 
     } else {	  
diff --git a/src/Cuts/MOMgg.c b/src/Cuts/MOMgg.c
index 255d50c..06d1a60 100755
--- a/src/Cuts/MOMgg.c
+++ b/src/Cuts/MOMgg.c
@@ -39,7 +39,7 @@
 static double complex
 contraction_lies( const struct site *__restrict A ,
 		  const size_t posit ,
-		  const size_t conj ,
+		  const GLU_complex conj[ ND ][ NCNC ] ,
 		  const size_t lzero_mat ,
 		  const double mom[ ND ] ,
 		  const double spsq )
@@ -51,9 +51,9 @@ contraction_lies( const struct site *__restrict A ,
       for( rho = 0 ; rho < ND ; rho++ ) {
 	// OK so the vertex should be proportional to if^{abc} unless we messed up somewhere
 	// I checked the symmetric piece and it averages to 0
-	//tr = ifabc_dabc_ABC( A[ posit ].O[mu] , A[ conj ].O[nu] , A[ lzero_mat ].O[rho] ) ;
-	//tr = dabc_ABC( A[ posit ].O[mu] , A[ conj ].O[nu] , A[ lzero_mat ].O[rho] ) ;
-	tr = ifabc_ABC( A[ posit ].O[mu] , A[ conj ].O[nu] , A[ lzero_mat ].O[rho] ) ;
+	//tr = ifabc_dabc_ABC( A[ posit ].O[mu] , conj[nu] , A[ lzero_mat ].O[rho] ) ;
+	//tr = dabc_ABC( A[ posit ].O[mu] , conj[nu] , A[ lzero_mat ].O[rho] ) ;
+	tr = ifabc_ABC( A[ posit ].O[mu] , conj[nu] , A[ lzero_mat ].O[rho] ) ;
 	tr = (mu!=nu) ? (-mom[mu]*mom[nu]/spsq)*mom[rho]*tr : (1.0-mom[mu]*mom[nu]/spsq)*mom[rho]*tr ;
 	res += tr ;
       }
@@ -66,7 +66,7 @@ contraction_lies( const struct site *__restrict A ,
 static double complex
 contraction_traces( const struct site *__restrict A ,
 		    const size_t posit ,
-		    const size_t conj ,
+		    const GLU_complex conj[ ND ][ NCNC ] ,
 		    const size_t lzero_mat ,
 		    const double mom[ ND ] ,
 		    const double spsq )
@@ -78,7 +78,7 @@ contraction_traces( const struct site *__restrict A ,
   for( mu = 0 ; mu < ND ; mu++ ) {
     for( nu = 0 ; nu < ND ; nu++ ) {
       for( rho = 0 ; rho < ND ; rho++ ) {
-	trace_abc( &tr , A[ posit ].O[mu] , A[ conj ].O[nu] , 
+	trace_abc( &tr , A[ posit ].O[mu] , conj[nu] , 
 		   A[ lzero_mat ].O[rho] ) ;
 	tr = (mu!=nu) ? (-mom[mu]*mom[nu]*invspsq)*mom[rho]*tr :\
 	  (1.0-mom[mu]*mom[nu]*invspsq)*mom[rho]*tr ;
@@ -92,7 +92,7 @@ contraction_traces( const struct site *__restrict A ,
 static double complex
 contraction_matrices( const struct site *__restrict A ,
 		      const size_t posit ,
-		      const size_t conj , 
+		      const GLU_complex conj[ ND ][ NCNC ] , 
 		      const size_t lzero_mat ,
 		      const double mom[ ND ] , 
 		      const double spsq )
@@ -106,14 +106,14 @@ contraction_matrices( const struct site *__restrict A ,
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
     // AA is g_{\mu\nu}A_\mu(p) A_\nu(-p)
-    multab( temp , A[ posit ].O[mu] , A[ conj ].O[mu] ) ;
+    multab( temp , A[ posit ].O[mu] , conj[mu] ) ;
     a_plus_b( AA , temp ) ;
     // Arho portion
     a_plus_Sxb( Arho , A[ lzero_mat ].O[mu] , mom[mu] ) ;
     // AP portion
     a_plus_Sxb( AP , A[ posit ].O[mu] , mom[mu] ) ;
     // AM portion
-    a_plus_Sxb( AM , A[ conj ].O[mu] , -mom[mu] / spsq ) ;
+    a_plus_Sxb( AM , conj[mu] , -mom[mu] / spsq ) ;
   }
   GLU_complex WIV , TRANS ;
   trace_ab( &TRANS , AA , Arho ) ;
@@ -161,8 +161,8 @@ write_exceptional_g2g3_MOMgg( FILE *__restrict Ap ,
   const double g3_norm = 4.0 / ( 2.0 * NC * ( NCNC - 1 ) * ( ND - 1 ) *	\
 				 LVOLUME ) ;
 
-  const size_t posit_zero_mat = ( num_mom[0] - 1 ) / 2 ;
-  const size_t lzero_mat = list [ posit_zero_mat ].idx ;
+  // zero momentum has index 0
+  const size_t lzero_mat = 0 ;
   
   double *g2 = GLU_checked( malloc( num_mom[0] * sizeof( double ) ) ) ;
   double *g3 = GLU_checked( malloc( num_mom[0] * sizeof( double ) ) ) ;
@@ -171,18 +171,21 @@ write_exceptional_g2g3_MOMgg( FILE *__restrict Ap ,
   #pragma omp parallel for private(i)
   for( i = 0 ; i < num_mom[0] ; i++ ) {
     const size_t posit = list[i].idx ;
-    const size_t conj =  list[ num_mom[0] - i - 1].idx ;
+    
+    // A(-p) is the hermitian conjugate of A(p)
+    GLU_complex conj[ ND ][ NCNC ] GLUalign ;
     
     // Two point function calc
     size_t mu ;
     g2[i] = 0. ;
     for( mu = 0 ; mu < ND ; mu++ ) {	  
       GLU_complex t ;
-      trace_ab( &t , A[ posit ].O[ mu ] , A[ conj ].O[mu] ) ;
+      trace_ab_dag( &t , A[ posit ].O[ mu ] , A[ posit ].O[mu] ) ;
+      dagger( conj[mu] , A[ posit ].O[mu] ) ;
       g2[i] += (double)creal( t ) ;
     }
 
-    if( i != posit_zero_mat ) {
+    if( posit != lzero_mat ) {
       g2[i] *= g2_norm ;
     } else {
       g2[i] *= g0_norm ;
diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index 941d3c8..4b31655 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -163,7 +163,8 @@ spatial_correlator( struct site *__restrict A ,
   fftw_execute( FFTW.forward ) ;
 #endif
 
-  // compute the sum
+  // compute the sum, the transforms are not normalised
+  const double fftnorm = gsnorm / LVOLUME ;
   size_t t ;
 #pragma omp parallel for private(i)
   for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) {
@@ -177,7 +178,7 @@ spatial_correlator( struct site *__restrict A ,
       sum += creal( *p ) ;
       p++ ;
     }
-    gsp[ t ] = sum * gsnorm ;
+    gsp[ t ] = sum * fftnorm ;
   }
 
   // free the FFTs
@@ -188,7 +189,7 @@ spatial_correlator( struct site *__restrict A ,
 
 #else
 
-// contract = Tr( A_\mu(x) A_\mu(y) ) ( for \mu < ND )
+// contract = Tr( A_\mu(x) A_\mu(y) ) ( for all \mu < ND )
 static double
 contract_slices( const struct site *__restrict A ,
 		 const size_t x ,
@@ -206,11 +207,11 @@ contract_slices( const struct site *__restrict A ,
     loc_tr += (double)tr ;
     trace_ab_herm( &tr , A[x].O[2] , A[y].O[2] ) ;
     loc_tr += (double)tr ;
-    //trace_ab_herm( &tr , A[x].O[3] , A[y].O[3] ) ;
-    //loc_tr += (double)tr ;
+    trace_ab_herm( &tr , A[x].O[3] , A[y].O[3] ) ;
+    loc_tr += (double)tr ;
     #else
     size_t mu ;
-    for( mu = 0 ; mu < ND-1 ; mu++ ) {
+    for( mu = 0 ; mu < ND ; mu++ ) {
       trace_ab_herm( &tr , A[x].O[mu] , A[y].O[mu] ) ;
       loc_tr += (double)tr ;
     }
@@ -280,11 +281,11 @@ spatial_pointsource( const struct site *__restrict A ,
 	  loc_tr += (double)tr ;
 	  trace_ab_herm( &tr , A[x].O[2] , A[y].O[2] ) ;
 	  loc_tr += (double)tr ;
-	  //trace_ab_herm( &tr , A[x].O[3] , A[y].O[3] ) ;
-	  //loc_tr += (double)tr ;
+	  trace_ab_herm( &tr , A[x].O[3] , A[y].O[3] ) ;
+	  loc_tr += (double)tr ;
 	  #else
 	  size_t mu ;
-	  for( mu = 0 ; mu < ND-1 ; mu++ ) {
+	  for( mu = 0 ; mu < ND ; mu++ ) {
 	    trace_ab_herm( &tr , A[x].O[mu] , A[y].O[mu] ) ;
 	    loc_tr += (double)tr ;
 	  }
@@ -292,7 +293,7 @@ spatial_pointsource( const struct site *__restrict A ,
 	}
       }
     }
-    gs[t] = loc_tr * 2 / ( LCU * LCU * LT ) ;
+    gs[t] = loc_tr * gsnorm ;
   }
 #pragma omp parallel for private(t)
   for( t = LT/2+1 ; t < LT ; t++ ) {
@@ -309,6 +310,7 @@ spatial_correlator( const struct site *__restrict A ,
 		    const double gsnorm ,
 		    const size_t spacing )
 {
+  if( spacing == 0 || spacing > LT ) { return GLU_FAILURE ; }
   // this one is more effective
   if( spacing == 1 ) {
     return spatial_pointsource( A , gs , gsnorm ) ;
@@ -328,7 +330,8 @@ spatial_correlator( const struct site *__restrict A ,
       loc_tr += recurse_sum( A , idx1 , idx2 , spacing , 
 			     x , 0 , &norm ) ;
     }
-    gs[t] = loc_tr * 2.0 / (double)norm ;
+    // an average over norm of the LVOLUME sources
+    gs[t] = loc_tr * gsnorm * LCU * LVOLUME / (double)norm ;
   }
   // we are so successful
   return GLU_SUCCESS ;
@@ -372,8 +375,8 @@ cuts_struct_configspace( struct site *__restrict A ,
   // compute the temporal and spatial correlators
   double *gsp = GLU_checked( malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ) ;
 
-  // normalisations :: LVOLUME is the FFT norm
-  const double spat_norm = 1.0 / ( ( ND-1 ) * LCU * LVOLUME ) ;
+  // normalisation of the sum over time slices and spatial source and sink
+  const double spat_norm = 2.0 / ( ( NCNC - 1 ) * ( ND - 1 ) * LVOLUME ) ;
 
   // flag whether it worked or not
   int FLAG = GLU_FAILURE ;
diff --git a/src/Cuts/glueprop.c b/src/Cuts/glueprop.c
index 2a709ae..6c170d4 100755
--- a/src/Cuts/glueprop.c
+++ b/src/Cuts/glueprop.c
@@ -22,7 +22,7 @@
 
    writes the transverse scalar G(p^2) and the Longitudinal F(p^2) to a file
 
-   @warning uses momentum list p,-p symmetry
+   A(-p) is the hermitian conjugate of A(p), the list need not contain -p
  */
 #include "Mainfile.h"
 
@@ -107,39 +107,20 @@ compute_gluon_prop( FILE *__restrict Ap ,
   double *transverse = GLU_checked( malloc( num_mom[0] * sizeof( double ) ) ) ;
   double *longitudinal = GLU_checked( malloc( num_mom[0] * sizeof( double ) ) ) ;
 
-  // set up the zero position
-  const size_t zero_pos = ( num_mom[0] ) >> 1 ;
-  const size_t zero_mom = list[ zero_pos ].idx ; // ist das wahr?
-
-  // obviously only need to compute num_mom[0]/2 of these due to symmetry
   size_t i ;
   #pragma omp parallel for private(i)
-  for( i = 0 ; i < zero_pos ; i++ ) {
+  for( i = 0 ; i < num_mom[0] ; i++ ) {
     // uses p of list -p contrib IS the hermitian conjugate.
-    const int posit = list[i].idx ;
+    const size_t posit = list[i].idx ;
     
     // projections
     project_trans_long( &transverse[i] , &longitudinal[i] , A , posit ) ;
 
-    // normalisations
-    transverse[i] *= g2_norm ;
+    // normalisations, index 0 is zero momentum
+    transverse[i] *= ( posit == 0 ) ? g0_norm : g2_norm ;
     longitudinal[i] *= long_norm ;
   }
 
-  // contract the zero
-  project_trans_long( &transverse[zero_pos] , 
-		      &longitudinal[zero_pos] ,
-		      A , zero_mom ) ;
-  transverse[zero_pos] *= g0_norm ;
-  longitudinal[zero_pos] *= long_norm ;
-
-  // fill up the rest using p, -p symmetry
-  #pragma omp parallel for private(i)
-  for( i = zero_pos+1 ; i < num_mom[0] ; i++ ) {
-    transverse[i] = transverse[ num_mom[0] - i - 1 ] ;
-    longitudinal[i] = longitudinal[ num_mom[0] - i - 1 ] ;
-  }
-
   // and write out to a file ...
   write_g2g3_to_list( Ap , transverse , longitudinal , num_mom ) ;
 
diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index d4a507c..739b7fa 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -212,8 +212,11 @@ cuts_struct_smeared( struct site *__restrict A ,
   }
 
   // allocate room for the smeared gauge field
-  struct site *SM_A = GLU_checked( malloc( LVOLUME * sizeof ( struct site ) ) ) ;
-  init_navig( SM_A ) ;
+  struct site *SM_A = allocate_lat( ) ;
+  if( SM_A == NULL ) {
+    fprintf( stderr , "[CUTS] smeared field allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   // dirty, create a very weak field
 #ifdef WEAK_FIELD
@@ -223,10 +226,13 @@ cuts_struct_smeared( struct site *__restrict A ,
   size_t j ; 
 #pragma omp parallel for private(j)
   for( j = 0 ; j < LVOLUME ; j++ ) {
-    memcpy( &SM_A[j] , &A[j] , sizeof( struct site ) ) ; 
+    size_t mu ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      equiv( SM_A[j].O[mu] , A[j].O[mu] ) ;
+    }
   }
   if( SM_wrap_struct( SM_A , SMINFO ) == GLU_FAILURE ) {
-    free( SM_A ) ;
+    free_lat( SM_A ) ;
     return GLU_FAILURE ;
   }
 
@@ -241,7 +247,7 @@ cuts_struct_smeared( struct site *__restrict A ,
   if( mom_gauge( A , CUTINFO.definition ) == GLU_FAILURE ||
       mom_gauge( SM_A , CUTINFO.definition ) == GLU_FAILURE ) {
     fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
-    free( SM_A ) ;
+    free_lat( SM_A ) ;
     return GLU_FAILURE ;
   }
   
@@ -262,7 +268,7 @@ cuts_struct_smeared( struct site *__restrict A ,
     free( (void*)list ) ;
     free( in ) ;
     free( str ) ;
-    free( SM_A ) ;
+    free_lat( SM_A ) ;
     return GLU_FAILURE ;
   }
 
@@ -278,18 +284,18 @@ cuts_struct_smeared( struct site *__restrict A ,
   size_t i ;
 #pragma omp parallel for private(i)
   for( i = 0 ; i < in[0] ; i++ ) {
-    // these require that this list is p -> -p symmetric, it is
+    // A(-p) is the hermitian conjugate of A(p), index 0 is zero momentum
     const size_t posit = list[i].idx ;
-    const size_t conj  = list[ in[0] - i - 1 ].idx ;
+    const double norm = ( posit == 0 ) ? g0_norm : g2_norm ;
     double trans , longitudinal ;
 
     // project out the transverse and longitudinal for the unsmeared case ...
     project_trans_long( &trans , &longitudinal , A , posit ) ;
-    g2[i] = ( conj != posit ) ? trans * g2_norm : trans * g0_norm ;
+    g2[i] = trans * norm ;
 
     // projection for the smeared case ...
     project_trans_long( &trans , &longitudinal , SM_A , posit ) ;
-    g2_SM[i] = ( conj != posit ) ? trans * g2_norm : trans * g0_norm ;
+    g2_SM[i] = trans * norm ;
 
 #ifdef TADPOLE_IMPROVE
     // our u0's are ( 1 / u0 ) ^ 2, one correction for each A-field 
@@ -314,7 +320,7 @@ cuts_struct_smeared( struct site *__restrict A ,
   free( (void*)list ) ;
   free( in ) ;
   free( str ) ;
-  free( SM_A ) ;
+  free_lat( SM_A ) ;
 
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 27f48b82b356b69e5776283522aee1b136e71100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:03 +0000
Subject: [PATCH 89/91] fix: C12 a failed operation is reported by the program

---
 src/Run/Mainfile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Run/Mainfile.c b/src/Run/Mainfile.c
index f74fc08..7332bc8 100755
--- a/src/Run/Mainfile.c
+++ b/src/Run/Mainfile.c
@@ -87,6 +87,10 @@ main( const int argc ,
     break ;
   }
 
+  if( FLAG == GLU_FAILURE ) {
+    fprintf( stderr , "[GLU] the requested operation failed\n" ) ;
+  }
+
   // un-initialise GLU
   unstick_GLU( ) ;
 
-- 
2.43.0


From 8ac7102af9f4f2c2dd825338daccf4e75316cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:01 +0000
Subject: [PATCH 90/91] fix: C21 fields with a U(1) phase keep it in storage
 formats that hold the whole matrix

---
 src/Geometry/random_config.c | 32 ++++++++++++++++++++++++++++++++
 src/Headers/random_config.h  |  9 +++++++++
 src/IO/HIREP.c               |  2 +-
 src/IO/input_reader.c        |  5 +++++
 src/IO/writers.c             | 11 ++++++++---
 5 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/src/Geometry/random_config.c b/src/Geometry/random_config.c
index 9b22c79..56934d9 100755
--- a/src/Geometry/random_config.c
+++ b/src/Geometry/random_config.c
@@ -56,6 +56,38 @@ latt_reunitU( struct site *__restrict lat )
   return ;
 }
 
+//lattice reunitarization of links that may have a U(1) phase
+void 
+latt_unitarise( struct site *__restrict lat )
+{
+  size_t i ; 
+#pragma omp parallel for private(i)
+  for( i = 0 ; i < LVOLUME ; i++ ) {
+    size_t mu , j ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      #ifdef OBC_HACK
+      if( (i/(LCU) == Latt.dims[ND-1]-1) && (mu == ND-1) ) continue ;
+      #endif
+      const double phi = carg( det( lat[i].O[mu] ) ) / NC ;
+      // smaller phases than this are rounding errors, this catches nans
+      if( !( fabs( phi ) > 1E-6 ) ) {
+	gram_reunit( lat[i].O[mu] ) ;
+	continue ;
+      }
+      // split off the phase, any of its NC roots gives the same link
+      const GLU_complex ph = cos( phi ) + I * sin( phi ) ;
+      for( j = 0 ; j < NCNC ; j++ ) {
+	lat[i].O[mu][j] *= conj( ph ) ;
+      }
+      gram_reunit( lat[i].O[mu] ) ;
+      for( j = 0 ; j < NCNC ; j++ ) {
+	lat[i].O[mu][j] *= ph ;
+      }
+    }
+  }
+  return ;
+}
+
 // random gauge transform for our su(NC) matrix
 void 
 random_gtrans( struct site *__restrict lat )
diff --git a/src/Headers/random_config.h b/src/Headers/random_config.h
index 535e513..ead58e1 100755
--- a/src/Headers/random_config.h
+++ b/src/Headers/random_config.h
@@ -41,6 +41,15 @@ latt_reunitg( GLU_complex *__restrict *__restrict gauge ) ;
 void 
 latt_reunitU( struct site *__restrict lat ) ;
 
+/**
+   @fn void latt_unitarise( struct site *__restrict lat )
+   @brief reunitarises the gauge field keeping the phase of the determinants
+   @param lat :: lattice gauge field
+   a field that was multiplied by a U(1) field is U(NC), not SU(NC). Links whose determinant is one up to rounding are treated as latt_reunitU() does
+ */
+void 
+latt_unitarise( struct site *__restrict lat ) ;
+
 /**
    @fn void random_gtrans( struct site *__restrict lat )
    @brief generates a random gauge transform on the field
diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index 7bd02ba..b12d76a 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -104,7 +104,7 @@ read_gauge_field( struct site *__restrict lat ,
 
 #endif
   }
-  latt_reunitU( lat ) ;
+  latt_unitarise( lat ) ;
   
   *chksum = k ;
   free( uind ) ;
diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 0d39213..c9bf6d9 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -251,7 +251,12 @@ out_details( GLU_output *storage ,
     } else if( are_equal( INPUT[storage_idx].VALUE , "NERSC_NCxNC" ) ) {
       *storage = OUTPUT_NCxNC ;
     } else if( are_equal( INPUT[storage_idx].VALUE , "HIREP" ) ) {
+      // stores SU(2) as quaternions, there is no room for a U(1) phase
+      #if NC == 2
+      *storage = ( mode != MODE_CROSS_U1 ) ? OUTPUT_HIREP : OUTPUT_NCxNC ;
+      #else
       *storage = OUTPUT_HIREP ;
+      #endif
     } else if( are_equal( INPUT[storage_idx].VALUE , "MILC" ) ) {
       *storage = OUTPUT_MILC ;
     } else if( are_equal( INPUT[storage_idx].VALUE , "SCIDAC" ) ) {
diff --git a/src/IO/writers.c b/src/IO/writers.c
index 0904975..9ff8af8 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -29,7 +29,7 @@
 #include "GLU_timer.h"     // timers for the IO
 #include "HIREP.h"         // write out a HIREP config
 #include "plaqs_links.h"   // compute plaquette and links again
-#include "random_config.h" // latt_reunitU()
+#include "random_config.h" // latt_reunitU(), latt_unitarise()
 #include "Scidac.h"        // write out a scidac file
 #include "write_headers.h" // write the config header
 
@@ -332,8 +332,13 @@ write_lat( struct site *lat ,
 	   const GLU_output type , 
 	   char *__restrict details )
 {
-  // reunitarise the field before writing out
-  latt_reunitU( lat ) ;
+  // reunitarise the field before writing out, types that store the whole
+  // matrix can hold a U(1) phase
+  if( type == OUTPUT_SMALL || type == OUTPUT_GAUGE ) {
+    latt_reunitU( lat ) ;
+  } else {
+    latt_unitarise( lat ) ;
+  }
   
   // CERN stuff is all handled in CERN.c
   if( type == OUTPUT_CERN ) {
-- 
2.43.0


From 0b7ec3f7cc703f5812dc38810b0fe6af0fe0c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:46 +0000
Subject: [PATCH 91/91] fix: an ILDG header names the fourth extent of more
 than four dimensions

---
 src/IO/Scidac.c   | 2 +-
 src/IO/XML_info.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 8e2a895..db161a3 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -391,7 +391,7 @@ write_header_ILDG( FILE *__restrict out )
   const char open[4][5] = { "<lx>" , "<ly>" , "<lz>" , "<lt>" } ;
   const char close[4][6] = { "</lx>" , "</ly>" , "</lz>" , "</lt>" } ;
   for( mu = 0 ; mu < ND-1 ; mu++ ) {
-    if( mu < 4 ) {
+    if( mu < 3 ) {
       sprintf( tmp , "%s%zu%s" , open[mu] , Latt.dims[mu] , close[mu] ) ;
       append_char( &ILDG_str , tmp ) ;
     } else {
diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index c84609a..4b83ecf 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -96,7 +96,7 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
   char search[ND][3] ;
   size_t mu ;
   for( mu = 0 ; mu < ND-1 ; mu++ ) {
-    if( mu < 4 ) {
+    if( mu < 3 ) {
       sprintf( search[mu] , "%s" , open[mu] ) ;
     } else {
       sprintf( search[mu] , "l%zu" , mu ) ;
-- 
2.43.0

