// C17: independent files can be used from different threads at once.
// Threads do their tasks at the same time, with delays at storage calls, under the thread sanitizer; then the same tasks are
// done one after the other, and the results must be the same. The library is first used by the threads of a process' first case.
#include "work.h"
#include <atomic>
#include <cstdarg>
#include <fcntl.h>
#include <E57Version.h>
#include <sstream>
#include <sched.h>
#include <thread>
#include <unistd.h>
using namespace work;

// ------------------------------------------------------------ what the threads do, and delays
namespace
{
   thread_local int g_me = -1;
   thread_local uint64_t g_dice = 0;
   // relaxed: must not order the threads
   std::atomic<uint32_t> g_calls{ 0 };
   std::atomic<uint8_t> g_trace[1 << 16];

   uint64_t dice()
   {
      g_dice ^= g_dice << 13;
      g_dice ^= g_dice >> 7;
      g_dice ^= g_dice << 17;
      return g_dice;
   }
   void storageCall()
   {
      if ( g_me < 0 )
      {
         return;
      }
      const uint32_t k = g_calls.fetch_add( 1, std::memory_order_relaxed );
      g_trace[k & 0xffff].store( uint8_t( g_me ), std::memory_order_relaxed );
      const uint64_t d = dice() & 127;
      if ( d == 0 )
      {
         usleep( useconds_t( dice() % 300 ) );
      }
      else if ( d < 24 )
      {
         sched_yield();
      }
   }
   // The XML parser's code isn't instrumented. Its set-up and end may not be called at the same time, and here that is a race on this.
   int g_parser = 0;
}
extern "C"
{
   int __real_open( const char *, int, ... );
   int __wrap_open( const char *p, int flags, ... )
   {
      va_list a;
      va_start( a, flags );
      const mode_t m = mode_t( va_arg( a, int ) );
      va_end( a );
      storageCall();
      return __real_open( p, flags, m );
   }
   int __real_open64( const char *, int, ... );
   int __wrap_open64( const char *p, int flags, ... )
   {
      va_list a;
      va_start( a, flags );
      const mode_t m = mode_t( va_arg( a, int ) );
      va_end( a );
      storageCall();
      return __real_open64( p, flags, m );
   }
   ssize_t __real_read( int, void *, size_t );
   ssize_t __wrap_read( int f, void *b, size_t n )
   {
      storageCall();
      return __real_read( f, b, n );
   }
   ssize_t __real_write( int, const void *, size_t );
   ssize_t __wrap_write( int f, const void *b, size_t n )
   {
      storageCall();
      return __real_write( f, b, n );
   }
   off64_t __real_lseek64( int, off64_t, int );
   off64_t __wrap_lseek64( int f, off64_t o, int w )
   {
      storageCall();
      return __real_lseek64( f, o, w );
   }
   int __real_close( int );
   int __wrap_close( int f )
   {
      storageCall();
      return __real_close( f );
   }
   int __real_remove( const char * );
   int __wrap_remove( const char *p )
   {
      storageCall();
      return __real_remove( p );
   }
   void __real__ZN11xercesc_3_216XMLPlatformUtils10InitializeEPKcS2_PNS_12PanicHandlerEPNS_13MemoryManagerE( const char *, const char *, void *, void * );
   void __wrap__ZN11xercesc_3_216XMLPlatformUtils10InitializeEPKcS2_PNS_12PanicHandlerEPNS_13MemoryManagerE( const char *a, const char *b, void *c, void *d )
   {
      g_parser++;
      __real__ZN11xercesc_3_216XMLPlatformUtils10InitializeEPKcS2_PNS_12PanicHandlerEPNS_13MemoryManagerE( a, b, c, d );
   }
   void __real__ZN11xercesc_3_216XMLPlatformUtils9TerminateEv();
   void __wrap__ZN11xercesc_3_216XMLPlatformUtils9TerminateEv()
   {
      g_parser--;
      __real__ZN11xercesc_3_216XMLPlatformUtils9TerminateEv();
   }
}

namespace
{
   struct Task
   {
      int kind;
      uint64_t seed;
      const bytes *stock; // a file written earlier
      string shared;      // where it lies
   };
   const char *kinds[] = { "write and read", "damaged file", "shared file", "shared memory", "new identifiers", "texts", "given up", "no file" };
   struct Result
   {
      vector<bytes> got;
      vector<string> ids;
   };

   void simpleBack( Job &j, const string &path, Rng &r )
   {
      if ( !j.simple )
      {
         return;
      }
      e57::Reader rd( path, e57::ReaderOptions{} );
      for ( size_t i = 0; i < j.scans.size(); i++ )
      {
         simple::readScan( rd, int64_t( i ), j.scans[i], r );
      }
      for ( size_t i = 0; i < j.images.size(); i++ )
      {
         simple::readImage( rd, int64_t( i ), j.images[i], r );
      }
      rd.Close();
   }
   void perform( const Task &t, const string &path, Result &res )
   {
      Rng r( t.seed, 3 );
      mon::count( ( string( "tasks: " ) + kinds[t.kind] ).c_str() );
      switch ( t.kind )
      {
         case 0:
         {
            Job j = make( r, r.chance( 1, 4 ) ? 1 : 0 );
            write( j, path );
            res.got.push_back( mon::slurp( path ) );
            res.got.push_back( readAll( path ) );
            simpleBack( j, path, r );
            break;
         }
         case 1:
         {
            string what;
            const bytes bad = damaged( *t.stock, r, what );
            mon::spew( path, bad );
            const int pol = r.chance( 1, 2 ) ? 100 : 0;
            res.got.push_back( outcome( path, pol, r.chance( 1, 2 ) ) );
            break;
         }
         case 2:
            for ( unsigned k = 0; k < 2; k++ )
            {
               res.got.push_back( readAll( t.shared ) );
               res.got.push_back( outcome( t.shared, 100, true ) );
            }
            break;
         case 3:
         {
            ImageFile imf( t.stock->data(), t.stock->size() );
            bytes o;
            put( o, describe( imf.root() ) );
            imf.close();
            res.got.push_back( o );
            break;
         }
         case 4:
         {
            {
               e57::WriterOptions o;
               e57::Writer w( path, o );
               e57::Data3D h;
               h.pointCount = 1;
               h.pointFields.cartesianXField = h.pointFields.cartesianYField = h.pointFields.cartesianZField = true;
               e57::Data3DPointsFloat b( h );
               b.cartesianX[0] = b.cartesianY[0] = b.cartesianZ[0] = 1;
               w.WriteData3DData( h, b );
               w.Close();
            }
            e57::Reader rd( path, e57::ReaderOptions{} );
            e57::E57Root root;
            MON_CHECK( rd.GetE57Root( root ), "root-not-read", "" );
            res.ids.push_back( root.guid );
            e57::Data3D h;
            MON_CHECK( rd.ReadData3D( 0, h ), "scan-not-read", "" );
            res.ids.push_back( h.guid );
            break;
         }
         case 5:
         {
            bytes o;
            for ( int k = 0; k < 60; k++ )
            {
               o += e57::Utilities::errorCodeToString( e57::ErrorCode( k ) );
            }
            o += e57::Version::astm() + e57::Version::library();
            uint32_t major = 0, minor = 0;
            string lib;
            e57::Version::get( major, minor, lib );
            o += fmt( "%u %u %s", major, minor, lib.c_str() );
            auto a = mon::attempt( [&] { ImageFile imf( path + ".missing", "r" ); } );
            o += e57::Utilities::errorCodeToString( a.code );
            std::ostringstream s;
            try
            {
               ImageFile imf( path, "nonsense" );
            }
            catch ( const e57::E57Exception &e )
            {
               e.report( __FILE__, __LINE__, __func__, s );
               o += fmt( "%d", int( e.errorCode() ) );
            }
            res.got.push_back( o );
            break;
         }
         case 6:
         {
            Job j = make( r, 0, 0 );
            write( j, path, {}, false );
            res.got.push_back( mon::exists( path ) ? "kept" : "removed" );
            break;
         }
         default:
         {
            mon::spew( path, r.chance( 1, 2 ) ? bytes( r.below( 3000 ), 'x' ) : ref::addPages( bytes( 1020 * ( 1 + r.below( 3 ) ), 'x' ) ) );
            res.got.push_back( outcome( path, 100, r.chance( 1, 2 ) ) );
         }
      }
      ::unlink( path.c_str() );
   }

   bool g_used = false;

   void run( mon::Ctx &c )
   {
      Rng &r = c.rng;
      const unsigned n = 2 + unsigned( r.below( 4 ) );
      const bool same = r.chance( 1, 4 ); // all do the same kind
      const int kind = int( r.below( 8 ) );
      const string shared = c.path( "shared.e57" );
      // the first cases of processes leave the library untouched until the threads come
      vector<bytes> stock;
      if ( c.caseNo / 8 % 5 )
      {
         g_used = true;
         for ( unsigned k = 0; k < 2; k++ )
         {
            Job j = make( r, r.chance( 1, 3 ) ? 1 : 0 );
            write( j, shared );
            stock.push_back( mon::slurp( shared ) );
         }
      }
      vector<vector<Task>> tasks( n );
      string shape = fmt( "%u threads:", n );
      for ( auto &v : tasks )
      {
         const unsigned m = 2 + unsigned( r.below( 3 ) );
         for ( unsigned k = 0; k < m; k++ )
         {
            Task t;
            t.kind = same ? kind : int( r.pick( vector<int>{ 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7 } ) );
            if ( stock.empty() && t.kind >= 1 && t.kind <= 3 )
            {
               t.kind = r.chance( 1, 2 ) ? 0 : 7;
            }
            t.seed = r.u64();
            t.stock = stock.empty() ? nullptr : t.kind == 1 ? &stock[r.below( stock.size() )] : &stock.back();
            t.shared = shared;
            v.push_back( t );
            shape += fmt( " %d", t.kind );
         }
         shape += ";";
      }
      mon::note( shape );
      mon::count( "cases with a cold start", !g_used );
      g_used = true;
      // at once
      vector<Result> got( n ), alone( n );
      vector<std::exception_ptr> errors( n );
      std::atomic<unsigned> ready{ 0 };
      std::atomic<bool> go{ false };
      g_calls.store( 0, std::memory_order_relaxed );
      const uint64_t dice0 = r.u64() | 1;
      vector<std::thread> threads;
      for ( unsigned k = 0; k < n; k++ )
      {
         threads.emplace_back( [&, k] {
            mon::Apart apart;
            g_me = int( k );
            g_dice = dice0 * ( 2 * k + 1 ) | 1;
            ready.fetch_add( 1, std::memory_order_relaxed );
            while ( !go.load( std::memory_order_relaxed ) )
            {
               sched_yield();
            }
            try
            {
               for ( size_t i = 0; i < tasks[k].size(); i++ )
               {
                  perform( tasks[k][i], c.path( fmt( "t%u-%zu.e57", k, i ) ), got[k] );
               }
            }
            catch ( ... )
            {
               errors[k] = std::current_exception();
            }
            g_me = -1;
         } );
      }
      while ( ready.load( std::memory_order_relaxed ) < n )
      {
         sched_yield();
      }
      go.store( true, std::memory_order_relaxed );
      for ( auto &t : threads )
      {
         t.join();
      }
      const uint32_t calls = g_calls.load();
      bytes order;
      unsigned switches = 0;
      for ( uint32_t k = 0; k < std::min<uint32_t>( calls, 1 << 16 ); k++ )
      {
         order += char( g_trace[k].load( std::memory_order_relaxed ) );
         switches += k && order[k] != order[k - 1];
      }
      mon::distinct( "interleaving", order );
      mon::count( "storage calls of threads", calls );
      mon::count( "changes of thread between storage calls", switches );
      for ( unsigned k = 0; k < n; k++ )
      {
         if ( errors[k] )
         {
            mon::note( fmt( "thread %u failed", k ) );
            std::rethrow_exception( errors[k] );
         }
      }
      MON_CHECK( g_parser >= 0, "parser-ended-too-often", fmt( "%d", g_parser ) );
      // one after the other
      for ( unsigned k = 0; k < n; k++ )
      {
         for ( size_t i = 0; i < tasks[k].size(); i++ )
         {
            perform( tasks[k][i], c.path( fmt( "t%u-%zu.e57", k, i ) ), alone[k] );
         }
      }
      std::set<string> ids;
      for ( unsigned k = 0; k < n; k++ )
      {
         MON_CHECK( got[k].got.size() == alone[k].got.size(), "results-differ", shape );
         for ( size_t i = 0; i < got[k].got.size(); i++ )
         {
            const bytes &a = got[k].got[i], &b = alone[k].got[i];
            size_t d = 0;
            while ( d < a.size() && d < b.size() && a[d] == b[d] )
            {
               d++;
            }
            MON_CHECK( a == b, "results-differ", fmt( "thread %u result %zu: %zu and %zu bytes, differing at %zu; %s", k, i, a.size(), b.size(), d, shape.c_str() ) );
            mon::count( "results compared" );
            mon::count( "bytes compared", a.size() );
         }
         for ( auto *v : { &got[k].ids, &alone[k].ids } )
         {
            for ( auto &g : *v )
            {
               MON_CHECK( g.size() == 38 && g[0] == '{' && g[37] == '}', "identifier-malformed", g );
               MON_CHECK( ids.insert( g ).second, "identifier-repeated", g );
               mon::count( "identifiers compared" );
            }
         }
      }
      mon::distinct( "case", shape );
      mon::sample( shape + fmt( " %u storage calls, %u changes of thread", calls, switches ) );
   }
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C17";
   s.run = run;
   s.cpuLimit = 240;
   return mon::mainLoop( argc, argv, s );
}
