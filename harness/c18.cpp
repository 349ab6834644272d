// C18: output and results depend only on the calls made.
// The same work is done in worlds that differ in everything else: what fresh memory contains (heap and stack), locale, directory,
// environment, clock, descriptors, thread, history of the process. The runs of the other builds do the same cases; their
// results are compared by the runner (mon::digest).
#include "work.h"
#include <atomic>
#include <clocale>
#include <ctime>
#include <fcntl.h>
#include <locale>
#include <malloc.h>
#include <new>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
using namespace work;

// ------------------------------------------------------------------ memory
namespace
{
   volatile int g_heap = -1;  // fills fresh memory
   volatile int g_stack = -1; // fills what lies below the stack pointer
   std::atomic<uint64_t> g_fills{ 0 }, g_times{ 0 };
   volatile long g_skew = 0;
   volatile bool g_other = false;

   __attribute__( ( noinline, optimize( "O0" ), no_sanitize( "address", "undefined" ) ) ) void scrub( int v )
   {
      char room[6000];
      memset( room, v, sizeof room );
      asm volatile( "" ::"r"( room ) : "memory" );
   }
   void *fresh( size_t n )
   {
      void *p = malloc( n ? n : 1 );
      if ( !p )
      {
         throw std::bad_alloc();
      }
      if ( g_heap >= 0 )
      {
         memset( p, g_heap, n );
         g_fills++;
      }
      if ( g_stack >= 0 )
      {
         scrub( g_stack );
      }
      return p;
   }
   void gone( void *p )
   {
      if ( p && g_heap >= 0 )
      {
         memset( p, g_heap ^ 0x55, malloc_usable_size( p ) );
      }
      free( p );
   }
}
void *operator new( size_t n )
{
   return fresh( n );
}
void *operator new[]( size_t n )
{
   return fresh( n );
}
void operator delete( void *p ) noexcept
{
   gone( p );
}
void operator delete[]( void *p ) noexcept
{
   gone( p );
}
void operator delete( void *p, size_t ) noexcept
{
   gone( p );
}
void operator delete[]( void *p, size_t ) noexcept
{
   gone( p );
}

// ------------------------------------------------------- clock, chance, environment
extern "C"
{
   time_t __real_time( time_t * );
   time_t __wrap_time( time_t *t )
   {
      g_times++;
      const time_t v = __real_time( nullptr ) + g_skew;
      return t ? *t = v : v;
   }
   int __real_gettimeofday( timeval *, void * );
   int __wrap_gettimeofday( timeval *t, void *z )
   {
      const int r = __real_gettimeofday( t, z );
      t->tv_sec += g_skew;
      return r;
   }
   int __real_clock_gettime( clockid_t, timespec * );
   int __wrap_clock_gettime( clockid_t c, timespec *t )
   {
      const int r = __real_clock_gettime( c, t );
      t->tv_sec += g_skew;
      return r;
   }
   int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
   int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv()
   {
      g_times++;
      return __real__ZNSt6chrono3_V212system_clock3nowEv() + int64_t( g_skew ) * 1000000000;
   }
   int __real_rand();
   int __wrap_rand()
   {
      return g_other ? __real_rand() ^ int( g_skew & 0x7fff ) : __real_rand();
   }
   pid_t __real_getpid();
   pid_t __wrap_getpid()
   {
      return __real_getpid() + ( g_other ? pid_t( g_skew & 0xff ) : 0 );
   }
   char *__real_getenv( const char * );
   char *__wrap_getenv( const char *n )
   {
      static char value[] = "1";
      return g_other && ( g_skew & 1 ) ? value : __real_getenv( n );
   }
}

namespace
{
   struct Grouping : std::numpunct<char>
   {
      char do_decimal_point() const override
      {
         return ',';
      }
      char do_thousands_sep() const override
      {
         return '.';
      }
      string do_grouping() const override
      {
         return "\3";
      }
      string do_truename() const override
      {
         return "vrai";
      }
      string do_falsename() const override
      {
         return "faux";
      }
   };

   struct World
   {
      int heap = -1, stack = -1;
      const char *locale = nullptr;
      bool grouping = false, relative = false, env = false, thread = false, noStdin = false, existing = false, history = false;
      unsigned spare = 0, blocks = 0;
      long skew = 0;
      mode_t mask = 022;
      string text() const
      {
         return fmt( "heap %d stack %d locale %s%s%s%s%s%s%s%s descriptors %u blocks %u clock %ld umask %o", heap, stack, locale ? locale : "C", grouping ? " grouping" : "", relative ? " relative path" : "",
                     env ? " environment" : "", thread ? " thread" : "", noStdin ? " descriptor 0" : "", existing ? " file exists" : "", history ? " history" : "", spare, blocks, skew, unsigned( mask ) );
      }
   };
   vector<const char *> &locales()
   {
      static vector<const char *> v = [] {
         vector<const char *> out;
         for ( const char *n : { "fr_FR", "fr_FR.utf8", "de_DE.utf8", "de_DE", "C.utf8" } )
         {
            if ( setlocale( LC_ALL, n ) )
            {
               out.push_back( n );
            }
         }
         setlocale( LC_ALL, "C" );
         return out;
      }();
      return v;
   }
   World other( Rng &r )
   {
      World w;
      w.heap = int( r.pick( { 0, 0xff, 0xa5, 0x01, 0x80, int( '7' ) } ) );
      w.stack = r.chance( 3, 4 ) ? int( r.pick( { 0, 0xff, 0x5a, 0x01 } ) ) : -1;
      if ( r.chance( 1, 2 ) && !locales().empty() )
      {
         w.locale = r.pick( locales() );
      }
      w.grouping = r.chance( 1, 2 );
      w.relative = r.chance( 1, 3 );
      w.env = r.chance( 1, 3 );
      w.thread = r.chance( 1, 3 );
      w.noStdin = r.chance( 1, 6 );
      w.existing = r.chance( 1, 2 );
      w.history = r.chance( 1, 3 );
      w.spare = r.chance( 1, 3 ) ? unsigned( r.below( 40 ) ) : 0;
      w.blocks = r.chance( 1, 2 ) ? unsigned( r.below( 300 ) ) : 0;
      w.skew = long( r.below( 200000000 ) ) * ( r.chance( 1, 2 ) ? 1 : -1 );
      w.mask = r.chance( 1, 4 ) ? 077 : 022;
      return w;
   }

   // Does the work in that world; all is as before afterwards.
   template <class F> void in( const World &w, const string &dir, const string &name, const F &f )
   {
      string path = dir + "/" + name;
      vector<int> spare;
      for ( unsigned k = 0; k < w.spare; k++ )
      {
         spare.push_back( ::open( "/dev/null", O_RDONLY | O_CLOEXEC ) );
      }
      vector<void *> blocks;
      Rng r( w.blocks, w.spare );
      for ( unsigned k = 0; k < w.blocks; k++ )
      {
         blocks.push_back( malloc( r.below( 3000 ) ) );
      }
      for ( size_t k = 0; k < blocks.size(); k += 2 )
      {
         free( blocks[k] );
         blocks[k] = nullptr;
      }
      char here[4096];
      MON_CHECK( getcwd( here, sizeof here ), "harness", "getcwd" );
      if ( w.relative )
      {
         ::mkdir( ( dir + "/sub" ).c_str(), 0700 );
         MON_CHECK( ::chdir( ( dir + "/sub" ).c_str() ) == 0, "harness", "chdir" );
         path = "../" + name;
      }
      const mode_t mask = ::umask( w.mask );
      const int in0 = w.noStdin ? ::dup( 0 ) : -1;
      if ( w.noStdin )
      {
         ::close( 0 );
      }
      if ( w.env )
      {
         for ( const char *n : { "TZ", "LANG", "LC_ALL", "LC_NUMERIC", "E57_DEBUG", "HOME", "TMPDIR", "USER" } )
         {
            ::setenv( n, "Somewhere/else", 1 );
         }
      }
      if ( w.locale )
      {
         setlocale( LC_ALL, w.locale );
      }
      const std::locale before = w.grouping ? std::locale::global( std::locale( std::locale(), new Grouping ) ) : std::locale();
      g_skew = w.skew;
      g_other = w.skew != 0;
      std::exception_ptr error;
      auto body = [&] {
         try
         {
            g_heap = w.heap;
            g_stack = w.stack;
            f( path );
         }
         catch ( ... )
         {
            error = std::current_exception();
         }
         g_heap = g_stack = -1;
      };
      if ( w.thread )
      {
         std::thread( body ).join();
      }
      else
      {
         body();
      }
      g_skew = 0;
      g_other = false;
      std::locale::global( before );
      setlocale( LC_ALL, "C" );
      if ( w.env )
      {
         for ( const char *n : { "TZ", "LANG", "LC_ALL", "LC_NUMERIC", "E57_DEBUG", "HOME", "TMPDIR", "USER" } )
         {
            ::unsetenv( n );
         }
      }
      if ( in0 >= 0 )
      {
         ::dup2( in0, 0 );
         ::close( in0 );
      }
      ::umask( mask );
      MON_CHECK( ::chdir( here ) == 0, "harness", "chdir" );
      for ( void *p : blocks )
      {
         free( p );
      }
      for ( int fd : spare )
      {
         ::close( fd );
      }
      if ( error )
      {
         std::rethrow_exception( error );
      }
   }

   string firstDifference( const bytes &a, const bytes &b )
   {
      size_t k = 0;
      while ( k < a.size() && k < b.size() && a[k] == b[k] )
      {
         k++;
      }
      const size_t from = k < 24 ? 0 : k - 24;
      return fmt( "sizes %zu and %zu, first difference at %zu (page %zu + %zu): %s | %s  (%s | %s)", a.size(), b.size(), k, k / 1024, k % 1024, mon::hex( a.substr( std::min( from, a.size() ), 64 ), 64 ).c_str(),
                  mon::hex( b.substr( std::min( from, b.size() ), 64 ), 64 ).c_str(), mon::quote( a.substr( std::min( from, a.size() ), 64 ) ).c_str(),
                  mon::quote( b.substr( std::min( from, b.size() ), 64 ) ).c_str() );
   }

   Job prepare( Rng &r )
   {
      const unsigned size = r.chance( 1, 8 ) ? 2 : r.chance( 1, 3 ) ? 1 : 0;
      Job j = make( r, int( size ) );
      if ( !j.simple && r.chance( 1, 5 ) )
      {
         // more than a thousand children, and numbers of many digits
         Node v( T::Vector, "many" );
         const size_t n = 900 + r.below( 400 );
         for ( size_t k = 0; k < n; k++ )
         {
            Node i( T::Integer );
            i.iv = int64_t( r.u64() >> r.below( 64 ) );
            i.imin = INT64_MIN;
            i.imax = INT64_MAX;
            v.kids.push_back( i );
         }
         j.root.kids.push_back( v );
      }
      return j;
   }
   // something else to have been done before
   void history( const string &dir, Rng &r )
   {
      const string p = dir + "/history.e57";
      for ( unsigned k = 0; k < 1 + r.below( 2 ); k++ )
      {
         Job j = make( r, 0 );
         write( j, p, {}, r.chance( 3, 4 ) );
         if ( mon::exists( p ) )
         {
            string what;
            const bytes b = damaged( mon::slurp( p ), r, what );
            mon::spew( p, b );
            outcome( p, r.chance( 1, 2 ) ? 100 : 0, r.chance( 1, 2 ) );
            ::remove( p.c_str() );
         }
      }
   }

   void run( mon::Ctx &c )
   {
      Rng &r = c.rng;
      Job j = prepare( r );
      mon::note( j.shape );
      const string path = c.path( "c18.e57" );
      const string dir = path.substr( 0, path.rfind( '/' ) );
      bytes file, said;
      write( j, path );
      file = mon::slurp( path );
      said = readAll( path );
      mon::digest( "file", mon::fnv( file ) );
      mon::digest( "read", mon::fnv( said ) );
      mon::count( "digests told", 2 );
      Rng again( j.seed, 5 );
      const unsigned worlds = 3 + unsigned( r.below( 3 ) );
      for ( unsigned k = 0; k < worlds; k++ )
      {
         const World w = other( r );
         mon::note( w.text() );
         Rng hr( r.u64(), 9 );
         bytes got;
         if ( w.existing )
         {
            bytes old( size_t( r.below( 3 ) ? r.below( 40000 ) : file.size() + r.below( 5000 ) ), 0 );
            for ( auto &ch : old )
            {
               ch = char( hr.u64() );
            }
            mon::spew( path, old );
         }
         else
         {
            ::remove( path.c_str() );
         }
         in( w, dir, "c18.e57", [&]( const string &p ) {
            if ( w.history )
            {
               history( dir, hr );
            }
            write( j, p );
         } );
         got = mon::slurp( path );
         MON_CHECK( got == file, "file-differs", firstDifference( file, got ) + "; " + w.text() + "; " + j.shape );
         mon::count( "files compared" );
         mon::count( "bytes compared", got.size() );
         const World w2 = other( r );
         mon::note( "reading: " + w2.text() );
         in( w2, dir, "c18.e57", [&]( const string &p ) {
            if ( w2.history )
            {
               history( dir, hr );
            }
            got = readAll( p );
            if ( j.simple )
            {
               e57::Reader rd( p, e57::ReaderOptions{} );
               for ( size_t i = 0; i < j.scans.size(); i++ )
               {
                  simple::readScan( rd, int64_t( i ), j.scans[i], again );
               }
               for ( size_t i = 0; i < j.images.size(); i++ )
               {
                  simple::readImage( rd, int64_t( i ), j.images[i], again );
               }
            }
         } );
         MON_CHECK( got == said, "reading-differs", firstDifference( said, got ) + "; " + w2.text() + "; " + j.shape );
         mon::count( "readings compared" );
         mon::count( "worlds with another locale", ( w.locale || w.grouping ) + ( w2.locale || w2.grouping ) );
         mon::count( "worlds with descriptor 0", w.noStdin + w2.noStdin );
         mon::count( "worlds with a history", w.history + w2.history );
         mon::count( "files overwritten", w.existing );
         mon::distinct( "world", w.text() );
      }
      // damaged ones
      for ( unsigned k = 0; k < 6; k++ )
      {
         string what;
         const bytes bad = damaged( file, r, what );
         mon::spew( path, bad );
         const int pol = r.chance( 1, 2 ) ? 100 : 0;
         const bool simple = r.chance( 1, 3 );
         const bytes first = outcome( path, pol, simple );
         mon::digest( fmt( "damaged-%u", k ).c_str(), mon::fnv( first ) );
         for ( unsigned t = 0; t < 2; t++ )
         {
            const World w = other( r );
            mon::note( "damaged: " + what + ": " + w.text() );
            bytes got;
            in( w, dir, "c18.e57", [&]( const string &p ) { got = outcome( p, pol, simple ); } );
            MON_CHECK( got == first, "damaged-reading-differs", firstDifference( first, got ) + "; " + w.text() + "; " + what );
            mon::count( "readings of damaged files compared" );
         }
      }
      ::remove( path.c_str() );
      mon::count( "fresh blocks filled", g_fills.exchange( 0 ) );
      mon::distinct( "case", j.shape + fmt( " %zu", file.size() ) );
      mon::sample( j.shape + fmt( ", %zu bytes, %u worlds", file.size(), worlds ) );
   }
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C18";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
