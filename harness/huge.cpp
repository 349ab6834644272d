// Files beyond 4 GiB, written and read back. Pages of zeros are kept as holes: the storage calls of the
// library go through stand-ins which turn a page of zeros into a hole and back, so that such files take
// hardly any space. Used for C01 (record sections), C03 (blobs) and C05 (what the file says about itself).
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "api.h"
#include "ref.h"
using namespace api;

// ------------------------------------------------------------ storage
static char zeroPage[1024];
static uint64_t pagesSkipped = 0;
static const bool zeroReady = [] {
   ref::sealPage( zeroPage );
   return true;
}();

extern "C"
{
   ssize_t __real_read( int, void *, size_t );
   ssize_t __real_write( int, const void *, size_t );
   ssize_t __real_pread64( int, void *, size_t, off64_t );
   ssize_t __real_pwrite64( int, const void *, size_t, off64_t );

   static bool regular( int fd )
   {
      static int last = -1;
      static bool was = false;
      if ( fd != last )
      {
         struct stat st;
         was = fstat( fd, &st ) == 0 && S_ISREG( st.st_mode );
         last = fd;
      }
      return was;
   }
   static bool zeros( const char *p, size_t n )
   {
      return n == 0 || ( p[0] == 0 && memcmp( p, p + 1, n - 1 ) == 0 );
   }
   static void page( int fd, off64_t at, char *buf )
   {
      const ssize_t n = __real_pread64( fd, buf, 1024, at );
      if ( n < 1024 )
      {
         memset( buf + std::max<ssize_t>( n, 0 ), 0, size_t( 1024 - std::max<ssize_t>( n, 0 ) ) );
      }
      if ( zeros( buf, 1024 ) )
      {
         memcpy( buf, zeroPage, 1024 );
      }
   }
   static ssize_t put( int fd, const char *b, size_t n, off64_t at )
   {
      size_t done = 0;
      while ( done < n )
      {
         const off64_t p = at + off64_t( done );
         const size_t in = size_t( p % 1024 ), k = std::min( n - done, 1024 - in );
         struct stat st;
         if ( k == 1024 && memcmp( b + done, zeroPage, 1024 ) == 0 )
         {
            static const char none[1024] = {};
            // a hole; the last byte fixes the length
            if ( fstat( fd, &st ) == 0 && st.st_size >= p + 1024 )
            {
               char old[1024];
               if ( __real_pread64( fd, old, 1024, p ) == 1024 && !zeros( old, 1024 ) && __real_pwrite64( fd, none, 1024, p ) != 1024 )
               {
                  return -1;
               }
            }
            else if ( ftruncate( fd, p + 1024 ) != 0 )
            {
               return -1;
            }
            pagesSkipped++;
         }
         else if ( k == 1024 )
         {
            if ( __real_pwrite64( fd, b + done, 1024, p ) != 1024 )
            {
               return -1;
            }
         }
         else
         {
            char whole[1024];
            page( fd, p - off64_t( in ), whole );
            memcpy( whole + in, b + done, k );
            const bool grows = fstat( fd, &st ) == 0 && st.st_size < p + off64_t( k );
            if ( __real_pwrite64( fd, whole, grows ? in + k : 1024, p - off64_t( in ) ) < 0 )
            {
               return -1;
            }
         }
         done += k;
      }
      return ssize_t( n );
   }
   static ssize_t get( int fd, char *b, size_t n, off64_t at )
   {
      struct stat st;
      if ( fstat( fd, &st ) != 0 )
      {
         return -1;
      }
      if ( at >= st.st_size )
      {
         return 0;
      }
      n = size_t( std::min<int64_t>( int64_t( n ), st.st_size - at ) );
      size_t done = 0;
      while ( done < n )
      {
         const off64_t p = at + off64_t( done );
         const size_t in = size_t( p % 1024 ), k = std::min( n - done, 1024 - in );
         char whole[1024];
         page( fd, p - off64_t( in ), whole );
         memcpy( b + done, whole + in, k );
         done += k;
      }
      return ssize_t( n );
   }
   static bool active = false; // the driver's own pipes and logs are left alone
   ssize_t __wrap_write( int fd, const void *b, size_t n )
   {
      if ( !active || !regular( fd ) )
      {
         return __real_write( fd, b, n );
      }
      const off64_t at = lseek64( fd, 0, SEEK_CUR );
      const ssize_t r = put( fd, static_cast<const char *>( b ), n, at );
      if ( r > 0 )
      {
         lseek64( fd, at + r, SEEK_SET );
      }
      return r;
   }
   ssize_t __wrap_read( int fd, void *b, size_t n )
   {
      if ( !active || !regular( fd ) )
      {
         return __real_read( fd, b, n );
      }
      const off64_t at = lseek64( fd, 0, SEEK_CUR );
      const ssize_t r = get( fd, static_cast<char *>( b ), n, at );
      if ( r > 0 )
      {
         lseek64( fd, at + r, SEEK_SET );
      }
      return r;
   }
   ssize_t __wrap_pread64( int fd, void *b, size_t n, off64_t at )
   {
      return active ? get( fd, static_cast<char *>( b ), n, at ) : __real_pread64( fd, b, n, at );
   }
   ssize_t __wrap_pwrite64( int fd, const void *b, size_t n, off64_t at )
   {
      return active ? put( fd, static_cast<const char *>( b ), n, at ) : __real_pwrite64( fd, b, n, at );
   }
   ssize_t __wrap_pread( int fd, void *b, size_t n, off_t at )
   {
      return __wrap_pread64( fd, b, n, at );
   }
   ssize_t __wrap_pwrite( int fd, const void *b, size_t n, off_t at )
   {
      return __wrap_pwrite64( fd, b, n, at );
   }
}

// ------------------------------------------------------------ looking at the file without the library
struct Raw
{
   int fd;
   uint64_t size;
   explicit Raw( const string &p ) : fd( ::open( p.c_str(), O_RDONLY ) )
   {
      struct stat st;
      fstat( fd, &st );
      size = uint64_t( st.st_size );
   }
   ~Raw()
   {
      ::close( fd );
   }
   bytes logical( uint64_t at, uint64_t n )
   {
      bytes out;
      for ( uint64_t p = at / 1020; out.size() < n + at % 1020; p++ )
      {
         MON_CHECK( ( p + 1 ) * 1024 <= size, "out-of-file", fmt( "page %" PRIu64, p ) );
         char buf[1024];
         page( fd, off64_t( p * 1024 ), buf );
         MON_CHECK( ref::pageOk( buf ), "page-checksum", fmt( "page %" PRIu64, p ) );
         out.append( buf, 1020 );
      }
      return out.substr( at % 1020, n );
   }
};
static uint64_t attrOf( const ref::Elem &e, const char *a )
{
   auto *t = e.attr( a );
   MON_CHECK( t != nullptr, "attribute-missing", a );
   return strtoull( t->c_str(), nullptr, 10 );
}

// ------------------------------------------------------------ the file
struct Huge // a blob of zeros with some bytes in it
{
   string name;
   uint64_t size;
   vector<std::pair<uint64_t, bytes>> parts; // later ones lie over earlier ones
   bytes want( uint64_t at, size_t n ) const
   {
      bytes out( n, 0 );
      for ( auto &p : parts )
      {
         for ( size_t k = 0; k < p.second.size(); k++ )
         {
            if ( p.first + k >= at && p.first + k - at < n )
            {
               out[p.first + k - at] = p.second[k];
            }
         }
      }
      return out;
   }
};
static uint64_t spot( Rng &r, uint64_t size, size_t n )
{
   const uint64_t marks[] = { 0, 1u << 20, 1u << 24, 1u << 30, 1ull << 31, 3ull << 30, 1ull << 32, size };
   const uint64_t m = marks[r.below( 8 )];
   const uint64_t back = r.below( 5000 ), at = m > back ? m - back + r.below( 2500 ) : r.below( 2000 );
   return std::min( at, size - n );
}
static void readSpots( Rng &r, e57::BlobNode node, const Huge &h, const char *when )
{
   MON_CHECK( uint64_t( node.byteCount() ) == h.size, "byte-count", fmt( "%s: %" PRId64, h.name.c_str(), node.byteCount() ) );
   for ( int k = 0; k < 60; k++ )
   {
      size_t n = size_t( std::min<uint64_t>( h.size, 1 + r.below( 3000 ) ) );
      uint64_t at = spot( r, h.size, n );
      if ( k % 2 && !h.parts.empty() )
      {
         auto &p = r.pick( h.parts );
         at = p.first - std::min<uint64_t>( p.first, r.below( 50 ) );
         n = size_t( std::min<uint64_t>( h.size - at, n ) );
      }
      bytes got( n, '\x5A' );
      node.read( reinterpret_cast<uint8_t *>( &got[0] ), int64_t( at ), n );
      MON_CHECK( got == h.want( at, n ), "bytes-differ", fmt( "%s: %s at %" PRIu64 " (+%zu)", when, h.name.c_str(), at, n ) );
      mon::count( "bytes compared", n );
   }
   // outside
   for ( int64_t at : { int64_t( h.size ), int64_t( h.size ) - int64_t( 1ull << 32 ) - 4000, int64_t( -1 ) } )
   {
      if ( at < 0 || uint64_t( at ) + 1 > h.size )
      {
         uint8_t x = 0x5A;
         auto o = mon::attempt( [&] { node.read( &x, at, 1 ); } );
         MON_CHECK( o.threw && x == 0x5A, "outside-read-accepted", fmt( "%s at %" PRId64, when, at ) );
      }
   }
}

static string property()
{
   const char *p = getenv( "HUGE_FOR" );
   return p ? p : "C03";
}

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   active = true;
   const string path = c.path( "huge.e57" );
   const uint64_t G4 = 1ull << 32;
   // where the boundary falls: inside the big section, in what follows, in the XML
   const bool points = property() == "C01" || ( property() == "C05" && c.caseNo % 2 );
   Node cvs[3];
   vector<Node> small;
   vector<Huge> blobs;
   auto smallCv = [&]( const char *name ) { return g.compressedVector( name, 1 + unsigned( r.below( 4 ) ), false, 200 + r.below( 3000 ) ); };
   cvs[0] = smallCv( "before" );
   cvs[1] = smallCv( "after" );
   uint64_t bigRecords = 0, step = 1;
   {
      ImageFile imf( path, "w" );
      auto root = imf.root();
      auto addCv = [&]( Node &m ) {
         Builder bl( imf, r );
         e57::CompressedVectorNode cv( bl.full( m ) );
         root.set( m.name, cv );
         writeRecords( imf, cv, m, r );
      };
      auto addBlob = [&]( const char *name, uint64_t size ) {
         Huge h{ name, size, {} };
         e57::BlobNode b( imf, int64_t( size ) );
         root.set( name, b );
         for ( int k = 0; k < 30 && size; k++ )
         {
            const size_t n = size_t( std::min<uint64_t>( size, 1 + r.below( 2500 ) ) );
            const uint64_t at = spot( r, size, n );
            bytes d = g.binary( n );
            b.write( reinterpret_cast<uint8_t *>( &d[0] ), int64_t( at ), n );
            h.parts.emplace_back( at, d );
         }
         blobs.push_back( h );
         readSpots( r, b, h, "before closing" );
      };
      addBlob( "first", 1 + r.below( 5000 ) );
      addCv( cvs[0] );
      if ( points )
      {
         // a record section of about 4 GiB of doubles, nearly all of them zero
         bigRecords = ( G4 - r.below( 40000 ) + ( r.chance( 1, 2 ) ? r.below( 40000000 ) : 0 ) ) / 16;
         e57::StructureNode proto( imf );
         proto.set( "a", e57::FloatNode( imf, 0.0 ) );
         proto.set( "b", e57::FloatNode( imf, 0.0 ) );
         e57::CompressedVectorNode cv( imf, proto, e57::VectorNode( imf, true ) );
         root.set( "big", cv );
         const size_t block = 1u << 20;
         vector<double> a( block, 0.0 ), b( block, 0.0 );
         vector<e57::SourceDestBuffer> sd;
         sd.emplace_back( imf, "a", a.data(), block );
         sd.emplace_back( imf, "b", b.data(), block );
         auto w = cv.writer( sd );
         step = 100000 + r.below( 100000 );
         for ( uint64_t done = 0; done < bigRecords; )
         {
            const size_t n = size_t( std::min<uint64_t>( block, bigRecords - done ) );
            for ( uint64_t k = ( done + step - 1 ) / step * step; k < done + n; k += step )
            {
               a[k - done] = double( k );
               b[k - done] = -double( k );
            }
            w.write( n );
            for ( uint64_t k = ( done + step - 1 ) / step * step; k < done + n; k += step )
            {
               a[k - done] = b[k - done] = 0;
            }
            done += n;
         }
         w.close();
         MON_CHECK( uint64_t( cv.childCount() ) == bigRecords, "record-count", fmt( "%" PRId64, cv.childCount() ) );
      }
      else
      {
         addBlob( "big", r.chance( 1, 2 ) ? G4 - 20000 + r.below( 40000 ) : G4 + r.below( 30000000 ) );
      }
      addCv( cvs[1] );
      addBlob( "last", 1 + r.below( 5000 ) );
      imf.close();
   }
   Raw raw( path );
   MON_CHECK( raw.size > G4 - 100000, "file-length", fmt( "%" PRIu64, raw.size ) );
   mon::note( fmt( "%" PRIu64 " bytes, %" PRIu64 " pages of zeros", raw.size, pagesSkipped ) );
   // what the file says about itself
   const bytes head = raw.logical( 0, 48 );
   MON_CHECK( head.compare( 0, 8, "ASTM-E57" ) == 0 && ref::rd<uint64_t>( head, 40 ) == 1024, "file-header", mon::hex( head ) );
   MON_CHECK( ref::rd<uint64_t>( head, 16 ) == raw.size, "file-length", fmt( "header %" PRIu64 ", file %" PRIu64, ref::rd<uint64_t>( head, 16 ), raw.size ) );
   const uint64_t xmlAt = ref::rd<uint64_t>( head, 24 ), xmlLen = ref::rd<uint64_t>( head, 32 );
   MON_CHECK( xmlAt % 1024 < 1020 && xmlAt % 4 == 0, "xml-offset", fmt( "%" PRIu64, xmlAt ) );
   const string xml = raw.logical( ref::toLog( xmlAt ), xmlLen );
   try
   {
      ref::XmlParser xp( xml );
      const ref::Elem doc = xp.document();
      uint64_t end = 48;
      for ( auto &e : doc.kids )
      {
         const bool blob = *e.attr( "type" ) == "Blob";
         if ( !blob && *e.attr( "type" ) != "CompressedVector" )
         {
            continue;
         }
         const uint64_t at = attrOf( e, "fileOffset" );
         MON_CHECK( at % 1024 < 1020 && ref::toLog( at ) >= end, "section-offset", fmt( "%s at %" PRIu64, e.name.c_str(), at ) );
         const bytes h = raw.logical( ref::toLog( at ), 32 );
         const uint64_t len = ref::rd<uint64_t>( h, 8 );
         MON_CHECK( h[0] == ( blob ? 0 : 1 ), "section-id", e.name );
         MON_CHECK( len % 4 == 0 && ref::toLog( at ) + len <= ref::toLog( xmlAt ), "section-length", fmt( "%s %" PRIu64, e.name.c_str(), len ) );
         if ( blob )
         {
            const uint64_t n = attrOf( e, "length" );
            MON_CHECK( len >= 16 + n && len < 16 + n + 4, "section-length", fmt( "%s: %" PRIu64 " for %" PRIu64 " bytes", e.name.c_str(), len, n ) );
            for ( auto &x : blobs )
            {
               for ( size_t k = 0; x.name == e.name && k < x.parts.size(); k++ )
               {
                  auto &p = x.parts[k];
                  MON_CHECK( raw.logical( ref::toLog( at ) + 16 + p.first, p.second.size() ) == x.want( p.first, p.second.size() ), "stored-bytes-differ",
                             fmt( "%s at %" PRIu64, e.name.c_str(), p.first ) );
                  mon::count( "stored bytes compared", p.second.size() );
               }
            }
         }
         else
         {
            const uint64_t data = ref::rd<uint64_t>( h, 16 ), index = ref::rd<uint64_t>( h, 24 );
            MON_CHECK( data > at && ref::toLog( data ) < ref::toLog( at ) + len && raw.logical( ref::toLog( data ), 1 )[0] == 1, "data-offset", fmt( "%s %" PRIu64, e.name.c_str(), data ) );
            MON_CHECK( index > at && ref::toLog( index ) < ref::toLog( at ) + len && raw.logical( ref::toLog( index ), 1 )[0] == 0, "index-offset", fmt( "%s %" PRIu64, e.name.c_str(), index ) );
            // the packets follow each other up to the end of the section
            uint64_t p = ref::toLog( data ), n = 0;
            while ( p < ref::toLog( at ) + len )
            {
               const bytes ph = raw.logical( p, 4 );
               const uint64_t pl = uint64_t( ref::rd<uint16_t>( ph, 2 ) ) + 1;
               MON_CHECK( uint8_t( ph[0] ) <= 2 && pl % 4 == 0, "packet", fmt( "%s: packet %" PRIu64 " at %" PRIu64, e.name.c_str(), n, p ) );
               p += pl;
               n++;
            }
            MON_CHECK( p == ref::toLog( at ) + len, "section-length", fmt( "%s: packets end at %" PRIu64, e.name.c_str(), p ) );
            mon::count( "packets followed", n );
         }
         end = ref::toLog( at ) + len;
         mon::count( at >= G4 ? "sections beyond 4 GiB" : "sections below 4 GiB" );
      }
   }
   catch ( const ref::Bad &e )
   {
      mon::fail( "file-not-conformant", e.key + " " + e.detail );
   }
   mon::count( "files beyond 4 GiB written" );
   // and what the library reads
   ImageFile imf( path, "r", r.pick( { 0, 50, 100 } ) );
   auto root = imf.root();
   for ( auto &h : blobs )
   {
      readSpots( r, e57::BlobNode( root.get( h.name ) ), h, "reopened" );
   }
   for ( int k = 0; k < 2; k++ )
   {
      Node back = describe( root.get( cvs[k].name ) );
      back.name = cvs[k].name;
      const string d = model::diff( cvs[k], back );
      MON_CHECK( d.empty(), "records-differ", cvs[k].name + ": " + d );
      mon::count( "values compared", cvs[k].records );
   }
   if ( points )
   {
      e57::CompressedVectorNode cv( root.get( "big" ) );
      MON_CHECK( uint64_t( cv.childCount() ) == bigRecords, "record-count", fmt( "%" PRId64, cv.childCount() ) );
      const size_t block = ( 1u << 20 ) - r.below( 5000 );
      vector<double> a( block, 0.0 ), b( block, 0.0 );
      vector<e57::SourceDestBuffer> sd;
      sd.emplace_back( imf, "a", a.data(), block );
      sd.emplace_back( imf, "b", b.data(), block );
      auto rd = cv.reader( sd );
      uint64_t done = 0;
      for ( ;; )
      {
         const unsigned n = rd.read();
         MON_CHECK( n == std::min<uint64_t>( block, bigRecords - done ), "short-read", fmt( "%u at %" PRIu64, n, done ) );
         if ( n == 0 )
         {
            break;
         }
         double sa = 0, sb = 0;
         for ( unsigned k = 0; k < n; k++ )
         {
            sa += a[k] != 0;
            sb += b[k] != 0;
         }
         double want = 0;
         for ( uint64_t k = ( done + step - 1 ) / step * step; k < done + n; k += step )
         {
            MON_CHECK( a[k - done] == double( k ) && b[k - done] == -double( k ), "records-differ", fmt( "record %" PRIu64 ": %g %g", k, a[k - done], b[k - done] ) );
            want += k != 0;
            mon::count( "values compared", 2 );
         }
         MON_CHECK( sa == want && sb == want, "records-differ", fmt( "%g and %g values other than zero up to record %" PRIu64 ", not %g", sa, sb, done + n, want ) );
         done += n;
      }
      rd.close();
   }
   imf.close();
   mon::distinct( "case", fmt( "%d %" PRIu64, points, raw.size ) );
   mon::sample( fmt( "case %ld: file of %" PRIu64 " bytes, XML at %" PRIu64, c.caseNo, raw.size, xmlAt ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   const string p = property();
   s.property = p.c_str();
   s.run = run;
   s.cpuLimit = 400;
   return mon::mainLoop( argc, argv, s );
}
