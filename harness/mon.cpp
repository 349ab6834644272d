#include "mon.h"
#include <cxxabi.h>

#include <execinfo.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <mutex>
#include <unordered_set>

namespace mon
{
   static std::mutex g_mutex;
   static std::map<string, uint64_t> g_counts;
   static std::map<string, std::unordered_set<string>> g_distinct;
   static std::vector<string> g_samples;
   static std::vector<string> g_notes;
   static int g_log = -1;
   static size_t g_sampleLimit = 3;

   string fmt( const char *f, ... )
   {
      va_list ap;
      va_start( ap, f );
      char small[512];
      va_list ap2;
      va_copy( ap2, ap );
      int n = vsnprintf( small, sizeof small, f, ap );
      va_end( ap );
      string out;
      if ( n < int( sizeof small ) )
      {
         out.assign( small, size_t( n ) );
      }
      else
      {
         out.resize( size_t( n ) + 1 );
         vsnprintf( &out[0], out.size(), f, ap2 );
         out.resize( size_t( n ) );
      }
      va_end( ap2 );
      return out;
   }

   struct Own
   {
      bool on = false;
      std::map<string, uint64_t> counts;
      std::vector<std::pair<string, string>> distinct;
      std::vector<string> samples, notes;
   };
   static thread_local Own g_own;
   Apart::Apart()
   {
      g_own = Own();
      g_own.on = true;
   }
   Apart::~Apart()
   {
      g_own.on = false;
      for ( auto &kv : g_own.counts )
      {
         count( kv.first.c_str(), kv.second );
      }
      for ( auto &d : g_own.distinct )
      {
         mon::distinct( d.first.c_str(), d.second );
      }
      for ( auto &x : g_own.samples )
      {
         sample( x );
      }
      for ( auto &x : g_own.notes )
      {
         note( x );
      }
   }
   void count( const char *what, uint64_t n )
   {
      if ( g_own.on )
      {
         g_own.counts[what] += n;
         return;
      }
      std::lock_guard<std::mutex> l( g_mutex );
      g_counts[what] += n;
   }
   uint64_t counter( const char *what )
   {
      std::lock_guard<std::mutex> l( g_mutex );
      return g_counts[what];
   }
   void distinct( const char *cls, const string &key )
   {
      if ( g_own.on )
      {
         g_own.distinct.emplace_back( cls, key );
         return;
      }
      std::lock_guard<std::mutex> l( g_mutex );
      auto &s = g_distinct[cls];
      if ( s.size() < 200000 )
      {
         s.insert( key );
      }
   }
   void sample( const string &text )
   {
      if ( g_own.on )
      {
         g_own.samples.push_back( text );
         return;
      }
      std::lock_guard<std::mutex> l( g_mutex );
      if ( g_samples.size() < g_sampleLimit )
      {
         g_samples.push_back( text );
      }
   }
   void note( const string &text )
   {
      if ( g_own.on )
      {
         g_own.notes.push_back( text );
         return;
      }
      std::lock_guard<std::mutex> l( g_mutex );
      if ( g_notes.size() > 400 )
      {
         g_notes.erase( g_notes.begin(), g_notes.begin() + 200 );
      }
      g_notes.push_back( text.size() > 300 ? text.substr( 0, 300 ) + "..." : text );
   }

   string quote( const string &s )
   {
      string o = "\"";
      for ( unsigned char c : s )
      {
         if ( c == '"' || c == '\\' )
         {
            o += '\\';
            o += char( c );
         }
         else if ( c < 0x20 || c >= 0x7f )
         {
            o += fmt( "\\u%04x", c );
         }
         else
         {
            o += char( c );
         }
      }
      return o + "\"";
   }

   static void logLine( const string &s )
   {
      string t = s + "\n";
      size_t done = 0;
      while ( done < t.size() )
      {
         // not through the interposed write()
         long r = syscall( SYS_write, g_log, t.data() + done, t.size() - done );
         if ( r <= 0 )
         {
            _exit( 97 );
         }
         done += size_t( r );
      }
   }

   static long g_case = -1;
   void digest( const char *what, uint64_t value )
   {
      logLine( fmt( "G {\"case\":%ld,\"what\":%s,\"value\":\"%016" PRIx64 "\"}", g_case, quote( what ).c_str(), value ) );
   }

   static void onCpu( int )
   {
      static const char m[] = "HANG\n";
      syscall( SYS_write, g_log, m, sizeof m - 1 );
      void *fr[40];
      int n = backtrace( fr, 40 );
      backtrace_symbols_fd( fr, n, 2 );
      _exit( 98 );
   }

   bytes slurp( const string &path )
   {
      bytes out;
      FILE *f = fopen( path.c_str(), "rb" );
      if ( !f )
      {
         throw std::runtime_error( "harness cannot read " + path );
      }
      char buf[65536];
      size_t n;
      while ( ( n = fread( buf, 1, sizeof buf, f ) ) > 0 )
      {
         out.append( buf, n );
      }
      fclose( f );
      return out;
   }
   void spew( const string &path, const bytes &data )
   {
      FILE *f = fopen( path.c_str(), "wb" );
      if ( !f || fwrite( data.data(), 1, data.size(), f ) != data.size() || fclose( f ) != 0 )
      {
         throw std::runtime_error( "harness cannot write " + path );
      }
   }
   bool exists( const string &path )
   {
      struct stat st;
      return ::lstat( path.c_str(), &st ) == 0;
   }
   uint64_t fnv( const bytes &b )
   {
      uint64_t h = 1469598103934665603ULL;
      for ( unsigned char c : b )
      {
         h = ( h ^ c ) * 1099511628211ULL;
      }
      return h;
   }
   string hex( const bytes &b, size_t max )
   {
      string o;
      for ( size_t i = 0; i < b.size() && i < max; i++ )
      {
         o += fmt( "%02x", static_cast<unsigned char>( b[i] ) );
      }
      return b.size() > max ? o + ".." : o;
   }

   static void report( const char *what, long caseNo, const string &key, const string &detail )
   {
      string notes;
      for ( auto &n : g_notes )
      {
         notes += ( notes.empty() ? "" : "," ) + quote( n );
      }
      logLine( fmt( "V {\"case\":%ld,\"name\":%s,\"key\":%s,\"detail\":%s,\"notes\":[", caseNo, quote( what ).c_str(),
                    quote( key ).c_str(), quote( detail.size() > 3000 ? detail.substr( 0, 3000 ) + "..." : detail ).c_str() ) +
               notes + "]}" );
   }

   static bool runOne( const char *name, const CaseFn &fn, Ctx &c )
   {
      {
         std::lock_guard<std::mutex> l( g_mutex );
         g_notes.clear();
      }
      g_case = c.caseNo;
      logLine( fmt( "B %ld", c.caseNo ) );
      bool ok = false;
      try
      {
         fn( c );
         ok = true;
      }
      catch ( const Violation &v )
      {
         report( name, c.caseNo, v.key, v.detail );
      }
      catch ( const e57::E57Exception &e )
      {
         report( name, c.caseNo,
                 fmt( "unexpected-error:%s:%s", e57::Utilities::errorCodeToString( e.errorCode() ).substr( 0, 60 ).c_str(),
                      e.sourceFunctionName() ? e.sourceFunctionName() : "?" ),
                 e.context() );
      }
      catch ( const std::exception &e )
      {
         report( name, c.caseNo, string( "foreign-exception:" ) + typeid( e ).name(), e.what() );
      }
      catch ( ... )
      {
         report( name, c.caseNo, string( "foreign-exception:" ) + abi::__cxa_current_exception_type()->name(), "" );
      }
      logLine( fmt( "E %ld", c.caseNo ) );
      return ok;
   }

   int mainLoop( int argc, char **argv, const Suite &suite )
   {
      Ctx c;
      long from = 0, to = 0, step = 1;
      string log, probe;
      double cpuScale = 1;
      for ( int i = 1; i + 1 < argc; i += 2 )
      {
         string a = argv[i], v = argv[i + 1];
         if ( a == "--seed" )
            c.seed = strtoull( v.c_str(), nullptr, 10 );
         else if ( a == "--from" )
            from = atol( v.c_str() );
         else if ( a == "--to" )
            to = atol( v.c_str() );
         else if ( a == "--step" )
            step = atol( v.c_str() );
         else if ( a == "--dir" )
            c.dir = v;
         else if ( a == "--log" )
            log = v;
         else if ( a == "--probe" )
            probe = v;
         else if ( a == "--cpu-scale" )
            cpuScale = atof( v.c_str() );
         else if ( a == "--tier" )
            c.thorough = v == "thorough";
         else
         {
            fprintf( stderr, "bad argument %s\n", a.c_str() );
            return 96;
         }
      }
      g_log = log.empty() ? 1 : ::open( log.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600 );
      if ( g_log < 0 || c.dir.empty() )
      {
         fprintf( stderr, "bad --log or --dir\n" );
         return 96;
      }
      if ( probe == "?" )
      {
         for ( auto &p : suite.probes )
         {
            logLine( "P " + p.first );
         }
         return 0;
      }
      signal( SIGPROF, onCpu );
      void *warm[2];
      backtrace( warm, 2 ); // loads libgcc now, not in the handler
      auto arm = [&]( double s ) {
         itimerval t{};
         t.it_value.tv_sec = long( s );
         setitimer( ITIMER_PROF, &t, nullptr );
      };
      const uint64_t pid = fnv( suite.property );
      if ( !probe.empty() )
      {
         auto it = suite.probes.find( probe );
         if ( it == suite.probes.end() )
         {
            fprintf( stderr, "no such probe\n" );
            return 96;
         }
         c.rng = Rng( c.seed, pid, fnv( probe ) );
         c.caseNo = 0;
         arm( suite.cpuLimit * cpuScale );
         runOne( probe.c_str(), it->second, c );
      }
      else
      {
         for ( long k = from; k < to; k += step )
         {
            c.caseNo = k;
            c.rng = Rng( c.seed, pid, uint64_t( k ) );
            arm( suite.cpuLimit * cpuScale );
            runOne( "run", suite.run, c );
         }
      }
      arm( 0 );
      if ( suite.atEnd )
      {
         try
         {
            suite.atEnd();
         }
         catch ( const Violation &v )
         {
            report( "end", to, v.key, v.detail );
         }
      }
      for ( auto &kv : g_counts )
      {
         logLine( fmt( "C {\"k\":%s,\"n\":%" PRIu64 "}", quote( kv.first ).c_str(), kv.second ) );
      }
      for ( auto &kv : g_distinct )
      {
         string s = "D {\"k\":" + quote( kv.first ) + ",\"v\":[";
         bool first = true;
         for ( auto &v : kv.second )
         {
            s += ( first ? "" : "," ) + ( v.size() <= 24 ? quote( v ) : fmt( "\"#%016" PRIx64 "\"", fnv( v ) ) );
            first = false;
         }
         logLine( s + "]}" );
      }
      for ( auto &s : g_samples )
      {
         logLine( "X " + quote( s ) );
      }
      logLine( "OK" );
      return 0;
   }
}
