// Monitor runtime: seeded case loop, violation reporting, observation counters.
#pragma once
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <memory>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "E57Format.h"

namespace mon
{
   using std::string;
   using bytes = std::string;

   // ---------------------------------------------------------------- random
   struct Rng
   {
      uint64_t s[4];
      static uint64_t mix( uint64_t &x )
      {
         uint64_t z = ( x += 0x9E3779B97F4A7C15ULL );
         z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ULL;
         z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBULL;
         return z ^ ( z >> 31 );
      }
      explicit Rng( uint64_t a = 0, uint64_t b = 0, uint64_t c = 0 )
      {
         uint64_t x = a;
         uint64_t t = mix( x ) ^ b;
         x = t;
         t = mix( x ) ^ c;
         x = t;
         for ( auto &v : s )
         {
            v = mix( x );
         }
      }
      uint64_t u64()
      {
         auto rotl = []( uint64_t v, int k ) { return ( v << k ) | ( v >> ( 64 - k ) ); };
         const uint64_t r = rotl( s[1] * 5, 7 ) * 9;
         const uint64_t t = s[1] << 17;
         s[2] ^= s[0];
         s[3] ^= s[1];
         s[1] ^= s[2];
         s[0] ^= s[3];
         s[2] ^= t;
         s[3] = rotl( s[3], 45 );
         return r;
      }
      // uniform in [0,n)
      uint64_t below( uint64_t n )
      {
         return n ? u64() % n : 0;
      }
      // uniform in [a,b] (any 64 bit range)
      int64_t range( int64_t a, int64_t b )
      {
         const uint64_t span = static_cast<uint64_t>( b ) - static_cast<uint64_t>( a );
         const uint64_t r = span == UINT64_MAX ? u64() : u64() % ( span + 1 );
         return static_cast<int64_t>( static_cast<uint64_t>( a ) + r );
      }
      bool chance( unsigned num, unsigned den )
      {
         return below( den ) < num;
      }
      double unit()
      {
         return static_cast<double>( u64() >> 11 ) * 0x1p-53;
      }
      template <class T> const T &pick( const std::vector<T> &v )
      {
         return v[below( v.size() )];
      }
      template <class T, size_t N> const T &pick( const T ( &v )[N] )
      {
         return v[below( N )];
      }
   };

   // ------------------------------------------------------------ violations
   struct Violation
   {
      string key;
      string detail;
   };
   [[noreturn]] inline void fail( const string &key, const string &detail = "" )
   {
      throw Violation{ key, detail };
   }
#define MON_CHECK( cond, key, detail )                                                             \
   do                                                                                              \
   {                                                                                               \
      ::mon::count( "oracle evaluations" );                                                        \
      if ( !( cond ) )                                                                             \
      {                                                                                            \
         ::mon::fail( ( key ), ( detail ) );                                                       \
      }                                                                                            \
   } while ( 0 )

   string fmt( const char *f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );

   // ---------------------------------------------------------- observations
   void count( const char *what, uint64_t n = 1 );
   // remember a distinct observation of a class (class "case" is the shape of a case)
   void distinct( const char *cls, const string &key );
   void sample( const string &text ); // a few are kept
   // While one exists, what its thread counts and notes is kept by the thread, so that the monitor doesn't order the threads.
   struct Apart
   {
      Apart();
      ~Apart();
   };
   // a value which every build must get in this case; compared by the runner
   void digest( const char *what, uint64_t value );
   void note( const string &text );   // trail of the current case, printed with a violation
   uint64_t counter( const char *what );

   struct Ctx
   {
      uint64_t seed = 1;
      long caseNo = 0;
      bool thorough = false;
      string dir; // scratch directory of this worker
      Rng rng;
      string path( const string &name ) const
      {
         return dir + "/" + name;
      }
   };

   using CaseFn = std::function<void( Ctx & )>;
   // cases by name: "run" is the random case function; others are probes
   struct Suite
   {
      const char *property;
      CaseFn run;
      std::map<string, CaseFn> probes;
      std::function<void()> atEnd; // optional, after the loop
      double cpuLimit = 60;        // seconds of CPU per case before it counts as a hang
   };
   int mainLoop( int argc, char **argv, const Suite &suite );

   // what an operation did: 0 = ok, otherwise the e57 error code
   struct Outcome
   {
      bool threw = false;
      e57::ErrorCode code = e57::Success;
      string where;
      string context;
      explicit operator bool() const
      {
         return !threw;
      }
      string str() const
      {
         return threw ? fmt( "E57Exception(%d %s in %s: %s)", int( code ), e57::Utilities::errorCodeToString( code ).c_str(), where.c_str(),
                             context.c_str() )
                      : string( "ok" );
      }
   };
   template <class F> Outcome attempt( F &&f )
   {
      Outcome o;
      try
      {
         f();
      }
      catch ( const e57::E57Exception &e )
      {
         o.threw = true;
         o.code = e.errorCode();
         o.where = e.sourceFunctionName() ? e.sourceFunctionName() : "?";
         o.context = e.context();
      }
      return o;
   }

   bytes slurp( const string &path );
   void spew( const string &path, const bytes &data );
   bool exists( const string &path );
   uint64_t fnv( const bytes &b );
   string hex( const bytes &b, size_t max = 32 );
   string quote( const string &s ); // JSON string
}
