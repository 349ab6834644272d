// C14: unfinished files never pass as complete.
// The storage calls of whole workloads are recorded; every prefix of them is what a process that stops there leaves behind.
#include "io.h"
#include "work.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace work;

namespace
{
   const vector<int> policies{ 100, 0, 25, 50 };

   // what opening says; complete files return ""
   string opened( const bytes &b, int policy, const Node &want, bool &passes )
   {
      passes = false;
      std::unique_ptr<char[]> exact( new char[b.size() + 1] );
      memcpy( exact.get(), b.data(), b.size() );
      string d;
      const auto a = mon::attempt( [&] {
         ImageFile f( exact.get(), b.size(), e57::ReadChecksumPolicy( policy ) );
         passes = true;
         d = model::diff( want, describe( f.root() ) );
         f.close();
      } );
      mon::count( "oracle evaluations" );
      return a.threw ? a.str() : d;
   }
   void judge( const bytes &b, int policy, const Node &want, const string &what )
   {
      bool passes;
      const string d = opened( b, policy, want, passes );
      MON_CHECK( !passes || d.empty(), "unfinished-file-passes", what + fmt( ", policy %d: ", policy ) + d );
      mon::count( passes ? "states complete" : "states refused" );
   }
   void judgeDisk( const string &path, const Node &want, const string &what, Rng &r )
   {
      bool passes = false;
      string d;
      const auto a = mon::attempt( [&] {
         ImageFile f( path, "r", e57::ReadChecksumPolicy( r.pick( policies ) ) );
         passes = true;
         d = model::diff( want, describe( f.root() ) );
         f.close();
      } );
      MON_CHECK( !passes || ( !a.threw && d.empty() ), "unfinished-file-passes", what + ": " + ( a.threw ? a.str() : d ) );
      bool simplePasses = false;
      const auto s = mon::attempt( [&] {
         e57::Reader rd( path, e57::ReaderOptions{} );
         e57::E57Root root;
         simplePasses = rd.IsOpen() && rd.GetE57Root( root );
      } );
      MON_CHECK( passes || s.threw || !simplePasses, "unfinished-file-passes", what + ": to the simple interface" );
      mon::count( passes ? "states complete" : "states refused" );
   }
   struct Stamp
   {
      bytes content;
      struct stat st
      {
      };
      explicit Stamp( const string &p ) : content( mon::slurp( p ) )
      {
         stat( p.c_str(), &st );
      }
      bool operator==( const Stamp &o ) const
      {
         return content == o.content && st.st_ino == o.st.st_ino && st.st_mode == o.st.st_mode && st.st_mtim.tv_sec == o.st.st_mtim.tv_sec && st.st_mtim.tv_nsec == o.st.st_mtim.tv_nsec;
      }
   };
}

static void prefixes( mon::Ctx &c )
{
   Rng &r = c.rng;
   Job j = make( r, r.chance( 1, 12 ) ? 1 : 0 );
   const string path = c.path( "c14.e57" );
   // perhaps in place of an older file
   bytes old;
   if ( r.chance( 1, 3 ) )
   {
      Job k = make( r, r.chance( 1, 4 ) ? 1 : 0 );
      write( k, path );
      old = mon::slurp( path );
   }
   const string what = j.shape + ( old.empty() ? "" : ", over an older file" );
   vector<bytes> snaps;
   io::start( true );
   write( j, path, [&]( ImageFile & ) { snaps.push_back( mon::slurp( path ) ); } );
   io::stop();
   const vector<io::Op> log = io::log();
   const bytes final = mon::slurp( path );
   const Node want = describeFile( path );
   // what the calls did to the file
   bytes image = old;
   int fd = -1;
   vector<size_t> writes;
   for ( size_t k = 0; k < log.size(); k++ )
   {
      if ( log[k].kind == io::Write || ( log[k].kind == io::Sync && log[k].size == 1 ) )
      {
         writes.push_back( k );
      }
   }
   MON_CHECK( !writes.empty(), "harness", "no writes recorded" );
   mon::count( "storage calls recorded", log.size() );
   const size_t dense = 40;
   size_t done = 0;
   for ( size_t k = 0; k < log.size(); k++ )
   {
      const io::Op &o = log[k];
      if ( o.kind == io::Open && o.path == path && o.fd >= 0 )
      {
         fd = o.fd;
         if ( o.size & O_TRUNC )
         {
            image.clear();
         }
         if ( o.size & ( O_WRONLY | O_RDWR ) )
         {
            judge( image, 0, want, what + ": just opened" );
         }
      }
      if ( o.fd != fd || fd < 0 || o.ret < 0 )
      {
         continue;
      }
      if ( o.kind == io::Close )
      {
         fd = -1;
      }
      bytes before;
      const bool change = o.kind == io::Write || ( o.kind == io::Sync && o.size == 1 );
      if ( !change )
      {
         continue;
      }
      done++;
      const bool look = done <= dense || done + dense > writes.size() || r.below( writes.size() ) < 60;
      if ( o.kind == io::Write )
      {
         if ( look && !o.data.empty() && r.chance( 1, 2 ) )
         {
            // stopped in the middle of it
            before = image;
            const size_t part = r.below( o.data.size() );
            before.resize( std::max<size_t>( before.size(), o.at + part ), 0 );
            std::copy( o.data.begin(), o.data.begin() + long( part ), before.begin() + long( o.at ) );
            judge( before, r.pick( policies ), want, what + fmt( ": stopped within write %zu of %zu", done, writes.size() ) );
            mon::count( "states within a write" );
         }
         image.resize( std::max<size_t>( image.size(), o.at + o.data.size() ), 0 );
         std::copy( o.data.begin(), o.data.end(), image.begin() + long( o.at ) );
      }
      else
      {
         image.resize( o.at, 0 );
      }
      if ( look )
      {
         judge( image, r.pick( policies ), want, what + fmt( ": stopped after write %zu of %zu", done, writes.size() ) );
         mon::distinct( "case", fmt( "%" PRIu64 ":%zu:%zu", o.at, o.data.size(), image.size() ) + fmt( "%016" PRIx64, mon::fnv( image ) ) );
      }
   }
   MON_CHECK( image == final, "harness", "recorded calls do not explain the file" );
   bool passes;
   for ( int p : policies )
   {
      const string d = opened( final, p, want, passes );
      MON_CHECK( passes && d.empty(), "closed-file-refused", what + ": " + d );
   }
   for ( auto &s : snaps )
   {
      judge( s, r.pick( policies ), want, what + ": between calls" );
      mon::count( "states between calls" );
   }
   mon::sample( what + fmt( "; %zu storage calls, %zu writes", log.size(), writes.size() ) );
   // processes which really end there
   for ( int k = 0; k < 2; k++ )
   {
      if ( old.empty() )
      {
         unlink( path.c_str() );
      }
      else
      {
         mon::spew( path, old );
      }
      io::Fault f;
      f.mode = io::Stop;
      f.kinds = io::Open | io::Read | io::Write | io::Seek | io::Close;
      f.at = r.chance( 1, 3 ) ? log.size() - 1 - r.below( std::min<size_t>( log.size(), 30 ) ) : r.below( log.size() );
      fflush( nullptr );
      const pid_t pid = fork();
      MON_CHECK( pid >= 0, "harness", "fork" );
      if ( pid == 0 )
      {
         io::start();
         io::arm( f );
         try
         {
            write( j, path );
         }
         catch ( ... )
         {
            _exit( 5 );
         }
         _exit( 0 );
      }
      int st = 0;
      waitpid( pid, &st, 0 );
      MON_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == 77, "harness", fmt( "stopped process: status %d", st ) );
      // the open call itself may not have happened; the old file is then still whole
      if ( mon::exists( path ) && !( !old.empty() && mon::slurp( path ) == old ) )
      {
         judgeDisk( path, want, what + fmt( ": process ended before call %" PRIu64 " of %zu", f.at, log.size() ), r );
      }
      mon::count( "processes stopped" );
   }
}

// files that are given up
static void abandoned( mon::Ctx &c )
{
   Rng &r = c.rng;
   const string path = c.path( "c14a.e57" );
   for ( unsigned k = 0; k < 10; k++ )
   {
      Job j = make( r, 0, 0 );
      if ( r.chance( 1, 2 ) )
      {
         unlink( path.c_str() );
      }
      const int how = int( r.below( 5 ) );
      mon::note( fmt( "given up by %d", how ) );
      if ( how == 0 )
      {
         write( j, path, {}, false ); // destroyed
      }
      else if ( how == 1 )
      {
         // an exception of the program goes through
         struct Own
         {
         };
         bool came = false;
         try
         {
            unsigned n = 0;
            const unsigned at = unsigned( r.below( 2 ) );
            write( j, path, [&]( ImageFile & ) {
               if ( n++ == at )
               {
                  throw Own();
               }
            },
                   false );
         }
         catch ( Own & )
         {
            came = true;
         }
         mon::count( came ? "given up by an exception" : "given up at the end" );
      }
      else
      {
         ImageFile imf( path, "w" );
         Rng q( j.seed, 77 );
         for ( auto &x : j.ext )
         {
            imf.extensionsAdd( x.first, x.second );
         }
         Builder b( imf, q );
         b.populate( imf.root(), j.root );
         b.writeBlobs();
         std::unique_ptr<e57::CompressedVectorWriter> open;
         int64_t x[4] = { 1, 2, 3, 4 };
         if ( r.chance( 1, 2 ) )
         {
            e57::StructureNode p( imf );
            p.set( "x", e57::IntegerNode( imf, 0 ) );
            e57::CompressedVectorNode cv( imf, p, e57::VectorNode( imf, true ) );
            imf.root().set( "more", cv );
            vector<e57::SourceDestBuffer> sb{ e57::SourceDestBuffer( imf, "x", x, 4 ) };
            open.reset( new e57::CompressedVectorWriter( cv.writer( sb ) ) );
            open->write( r.below( 5 ) );
         }
         MON_CHECK( mon::exists( path ), "no-file-while-writing", "" );
         if ( how == 2 )
         {
            imf.cancel();
            MON_CHECK( !mon::exists( path ), "cancelled-file-left", "" );
            MON_CHECK( !imf.isOpen(), "open-after-cancel", "" );
            imf.cancel();
            imf.close();
         }
         else if ( how == 3 )
         {
            imf.cancel();
            // the name is free for another file, which later destructors leave alone
            mon::spew( path, "something else" );
         }
         open.reset();
      }
      if ( how == 3 )
      {
         MON_CHECK( mon::exists( path ) && mon::slurp( path ) == "something else", "other-file-removed", "" );
         unlink( path.c_str() );
      }
      else
      {
         MON_CHECK( !mon::exists( path ), "given-up-file-left", fmt( "by %d", how ) );
      }
      mon::count( "files given up" );
      mon::count( "oracle evaluations" );
      mon::distinct( "case", fmt( "a%d:", how ) + j.shape );
   }
   // closed files stay, whatever is called later
   Job j = make( r, 0, 0 );
   bytes all;
   {
      ImageFile imf( path, "w" );
      Rng q( j.seed, 77 );
      for ( auto &x : j.ext )
      {
         imf.extensionsAdd( x.first, x.second );
      }
      Builder b( imf, q );
      b.populate( imf.root(), j.root );
      b.writeBlobs();
      for ( auto &p : b.cvs )
      {
         writeRecords( imf, e57::CompressedVectorNode( p.node ), *p.m, q );
      }
      imf.close();
      all = mon::slurp( path );
      bool passes;
      const string d = opened( all, 100, describeFile( path ), passes );
      MON_CHECK( passes && d.empty(), "closed-file-refused", d );
      r.chance( 1, 2 ) ? imf.cancel() : imf.close();
      imf.cancel();
   }
   MON_CHECK( mon::exists( path ) && mon::slurp( path ) == all, "closed-file-changed", "" );
   mon::count( "closed files kept" );
}

// files only read
static void readOnly( mon::Ctx &c )
{
   Rng &r = c.rng;
   const string path = c.path( "c14r.e57" );
   for ( unsigned k = 0; k < 12; k++ )
   {
      Job j = make( r );
      write( j, path );
      const bool bad = r.chance( 1, 2 );
      if ( bad )
      {
         bytes b = mon::slurp( path );
         switch ( r.below( 4 ) )
         {
            case 0:
               b.resize( r.below( b.size() ) );
               break;
            case 1:
               b.resize( b.size() / 1024 * 1024 - 1024 * r.below( 2 ) );
               b[r.below( std::min<size_t>( 48, b.size() ) )] ^= 0x41;
               break;
            case 2:
               b[r.below( b.size() )] ^= char( 1 + r.below( 255 ) );
               break;
            default:
               b += string( 1 + r.below( 3000 ), 'x' );
         }
         mon::spew( path, b );
      }
      const Stamp before( path );
      const int how = int( r.below( 6 ) );
      const auto a = mon::attempt( [&] {
         if ( how == 5 )
         {
            e57::Reader rd( path, e57::ReaderOptions{} );
            e57::E57Root h;
            rd.GetE57Root( h );
            if ( r.chance( 1, 2 ) )
            {
               rd.Close();
            }
            return;
         }
         ImageFile imf( path, "r" );
         if ( how >= 1 )
         {
            mon::attempt( [&] { describe( imf.root() ); } );
         }
         if ( how >= 2 )
         {
            // changes are refused
            mon::attempt( [&] { imf.root().set( "new", e57::IntegerNode( imf, 1 ) ); } );
            mon::attempt( [&] { e57::BlobNode n( imf, 100 ); } );
            mon::attempt( [&] { imf.extensionsAdd( "abc", "http://abc" ); } );
         }
         if ( how == 3 )
         {
            imf.cancel();
            MON_CHECK( !imf.isOpen(), "open-after-cancel", "" );
         }
         if ( how == 4 )
         {
            imf.close();
         }
      } );
      MON_CHECK( mon::exists( path ), "read-file-removed", fmt( "%d %s", how, a.str().c_str() ) );
      MON_CHECK( Stamp( path ) == before, "read-file-changed", fmt( "%d %s", how, a.str().c_str() ) );
      mon::count( a.threw ? "files refused and untouched" : "files read and untouched" );
      mon::count( "oracle evaluations" );
   }
   // failing to create leaves nothing
   const string none = c.path( "no" ) + "/such/dir.e57";
   const auto a = mon::attempt( [&] { ImageFile imf( none, "w" ); } );
   MON_CHECK( a.threw && a.code == e57::ErrorOpenFailed && !mon::exists( c.path( "no" ) ), "created-nowhere", a.str() );
   // an illegal mode neither
   const Stamp before( path );
   const auto b = mon::attempt( [&] { ImageFile imf( path, r.pick( { string( "a" ), string( "rw" ), string( "" ), string( "w+" ), string( "R" ) } ) ); } );
   MON_CHECK( b.threw && b.code == e57::ErrorBadAPIArgument && Stamp( path ) == before, "illegal-mode", b.str() );
}

static void run( mon::Ctx &c )
{
   switch ( c.caseNo % 4 )
   {
      case 0:
      case 1:
         return prefixes( c );
      case 2:
         return abandoned( c );
      default:
         return readOnly( c );
   }
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C14";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
