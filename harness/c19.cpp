// C19: all memory and file handles are released on every path.
#include "io.h"
#include "work.h"
#include <dirent.h>
#include <regex>
#include <thread>
#include <unistd.h>
extern "C" int __lsan_do_recoverable_leak_check( void );
extern "C" void __sanitizer_set_report_path( const char * );
extern "C" size_t __sanitizer_get_current_allocated_bytes( void );
using namespace work;

namespace
{
   // descriptors of this process
   unsigned descriptors()
   {
      unsigned n = 0;
      DIR *d = opendir( "/proc/self/fd" );
      MON_CHECK( d, "harness", "/proc/self/fd" );
      while ( readdir( d ) )
      {
         n++;
      }
      closedir( d );
      return n;
   }
   // whether a file is open
   bool held( const string &path )
   {
      bool any = false;
      DIR *d = opendir( "/proc/self/fd" );
      while ( dirent *e = readdir( d ) )
      {
         char to[4096];
         const ssize_t n = readlink( ( string( "/proc/self/fd/" ) + e->d_name ).c_str(), to, sizeof to );
         const string t( to, n > 0 ? size_t( n ) : 0 );
         any = any || t == path || t == path + " (deleted)";
      }
      closedir( d );
      return any;
   }
   void released( const string &path, const char *when )
   {
      MON_CHECK( !held( path ), "descriptor-held", when );
      mon::count( "descriptors seen released" );
   }

   struct Body
   {
      const char *name;
      std::function<void( mon::Ctx &, Rng & )> run;
   };

   void readBack( Job &j, const string &path, Rng &r )
   {
      ImageFile imf( path, "r" );
      const Node n = describe( imf.root() );
      imf.close();
      released( path, "after close" );
      if ( j.simple )
      {
         e57::Reader rd( path, e57::ReaderOptions{} );
         for ( size_t i = 0; i < j.scans.size(); i++ )
         {
            simple::readScan( rd, int64_t( i ), j.scans[i], r );
         }
         for ( size_t i = 0; i < j.images.size(); i++ )
         {
            simple::readImage( rd, int64_t( i ), j.images[i], r );
         }
         rd.Close();
         released( path, "after Close" );
      }
   }
   io::Fault someFault( Rng &r, uint64_t n )
   {
      io::Fault f;
      f.kinds = r.chance( 1, 2 ) ? io::Open | io::Read | io::Write | io::Seek | io::Close : r.pick( vector<int>{ io::Read, io::Write, io::Seek, io::Close, io::Open } );
      f.at = r.chance( 1, 3 ) ? r.below( 6 ) : r.below( n );
      f.mode = r.pick( { io::Fail, io::Short, io::ShortFull } );
      f.lasting = r.chance( 1, 3 );
      return f;
   }

   // calls that fail while objects are being made
   void mistakes( const string &path, Rng &r )
   {
      ImageFile imf( path, "w" );
      auto no = [&]( const std::function<void()> &f ) { mon::count( mon::attempt( f ).threw ? "calls refused" : "calls done" ); };
      e57::StructureNode proto( imf );
      proto.set( "x", e57::IntegerNode( imf, 0, 0, 100 ) );
      proto.set( "s", e57::StringNode( imf, "" ) );
      e57::VectorNode codecs( imf, true );
      e57::CompressedVectorNode cv( imf, proto, codecs );
      imf.root().set( "cv", cv );
      int64_t x[10] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 };
      vector<string> s( 10, string( 100, 'q' ) );
      vector<e57::SourceDestBuffer> good{ e57::SourceDestBuffer( imf, "x", x, 10 ), e57::SourceDestBuffer( imf, "s", &s ) };
      const unsigned n = 3 + unsigned( r.below( 8 ) );
      for ( unsigned k = 0; k < n; k++ )
      {
         switch ( r.below( 14 ) )
         {
            case 0:
               no( [&] { e57::IntegerNode( imf, 5, 6, 7 ); } );
               break;
            case 1:
               no( [&] { imf.root().set( "no such/place", e57::StringNode( imf, string( 300, 'x' ) ) ); } );
               break;
            case 2:
               no( [&] { imf.root().set( "cv", e57::StructureNode( imf ) ); } );
               break;
            case 3:
               no( [&] { e57::CompressedVectorNode( imf, imf.root(), e57::VectorNode( imf, true ) ); } );
               break;
            case 4:
               no( [&] { vector<e57::SourceDestBuffer> one{ good[0] }; cv.writer( one ).close(); } );
               break;
            case 5:
               no( [&] {
                  vector<e57::SourceDestBuffer> b{ good[0], e57::SourceDestBuffer( imf, "nope", x, 10 ) };
                  cv.writer( b ).close();
               } );
               break;
            case 6:
               no( [&] {
                  auto w = cv.writer( good );
                  x[3] = 1000; // out of bounds
                  const auto back = mon::attempt( [&] { w.write( 10 ); } );
                  x[3] = 4;
                  if ( r.chance( 1, 2 ) )
                  {
                     w.close();
                  }
               } );
               break;
            case 7:
               no( [&] { cv.reader( good ).close(); } );
               break;
            case 8:
               no( [&] { e57::BlobNode b( imf, 10000 ); b.read( reinterpret_cast<uint8_t *>( x ), 9999, 20 ); } );
               break;
            case 9:
               no( [&] { e57::ScaledIntegerNode( imf, int64_t( 1 ), int64_t( 5 ), int64_t( 3 ), 1.0, 0.0 ); } );
               break;
            case 10:
               no( [&] { e57::SourceDestBuffer( imf, "bad name", x, 10 ); } );
               break;
            case 11:
               no( [&] {
                  // a tree nobody keeps
                  e57::StructureNode a( imf ), b( imf );
                  e57::VectorNode v( imf, true );
                  a.set( "b", b );
                  b.set( "v", v );
                  v.append( e57::FloatNode( imf, 1 ) );
                  v.append( e57::BlobNode( imf, 10 ) );
                  b.set( "v", e57::IntegerNode( imf, 0 ) );
               } );
               break;
            case 12:
               no( [&] { ImageFile again( "/nonexistent/x", "w" ); } );
               break;
            default:
               no( [&] {
                  e57::StructureNode a( imf );
                  e57::CompressedVectorNode w( imf, a, e57::VectorNode( imf, true ) );
                  imf.root().set( "fine" + std::to_string( k ), w );
                  a.set( "late", e57::StringNode( imf, "x" ) );
                  vector<e57::SourceDestBuffer> one{ good[1] }; w.writer( one );
               } );
         }
      }
      if ( r.chance( 1, 3 ) )
      {
         no( [&] { imf.close(); } );
         released( path, "after close" );
      }
      else if ( r.chance( 1, 2 ) )
      {
         imf.cancel();
         released( path, "after cancel" );
      }
   }
   // objects outliving one another
   void handles( const string &path, Rng &r )
   {
      {
         Job j = make( r, 0, 0 );
         j.root.kids.push_back( Node( T::CompressedVector, "last" ) );
         model::Gen g( r );
         j.root.kids.back() = g.compressedVector( "last", 3, false, 200 + r.below( 4000 ), {}, -1 );
         write( j, path );
      }
      std::unique_ptr<ImageFile> imf( new ImageFile( path, "r" ) );
      std::unique_ptr<e57::CompressedVectorReader> rd;
      std::unique_ptr<e57::Node> node;
      std::unique_ptr<e57::CompressedVectorNode> cv( new e57::CompressedVectorNode( imf->root().get( "last" ) ) );
      node.reset( new e57::Node( cv->prototype() ) );
      vector<std::unique_ptr<Buf>> bufs;
      vector<e57::SourceDestBuffer> sd;
      e57::StructureNode p( cv->prototype() );
      for ( int64_t k = 0; k < p.childCount(); k++ )
      {
         const auto t = p.get( k ).type();
         bufs.emplace_back( new Buf( t == e57::TypeString ? Mem::STR : t == e57::TypeFloat ? Mem::F64 : Mem::I64, 50 ) );
         sd.push_back( bufs.back()->sdb( *imf, p.get( k ).elementName() ) );
      }
      rd.reset( new e57::CompressedVectorReader( cv->reader( sd ) ) );
      mon::attempt( [&] { rd->read(); } );
      const bool closes = r.chance( 1, 2 );
      if ( closes )
      {
         r.chance( 1, 2 ) ? imf->close() : imf->cancel();
         released( path, "after close with an open reader" );
      }
      vector<int> order{ 0, 1, 2, 3, 4 };
      for ( size_t k = order.size(); k > 1; k-- )
      {
         std::swap( order[k - 1], order[r.below( k )] );
      }
      for ( int o : order )
      {
         o == 0 ? imf.reset() : o == 1 ? rd.reset() : o == 2 ? cv.reset() : o == 3 ? node.reset() : sd.clear();
      }
      p = e57::StructureNode( ImageFile( path, "r" ).root() );
   }
   vector<Body> bodies()
   {
      vector<Body> b;
      b.push_back( { "writing and reading", []( mon::Ctx &c, Rng &r ) {
                       const string path = c.path( "c19.e57" );
                       Job j = make( r, r.chance( 1, 20 ) ? 1 : 0 );
                       write( j, path, [&]( ImageFile & ) { mon::count( "between" ); } );
                       released( path, "after writing" );
                       readBack( j, path, r );
                    } } );
      b.push_back( { "writing with a fault", []( mon::Ctx &c, Rng &r ) {
                       const string path = c.path( "c19.e57" );
                       Job j = make( r );
                       io::arm( someFault( r, 800 ) );
                       mon::attempt( [&] { write( j, path ); } );
                       mon::count( "faults injected", io::fired() );
                       io::disarm();
                    } } );
      b.push_back( { "reading with a fault", []( mon::Ctx &c, Rng &r ) {
                       const string path = c.path( "c19.e57" );
                       Job j = make( r );
                       write( j, path );
                       for ( int k = 0; k < 4; k++ )
                       {
                          io::arm( someFault( r, 300 ) );
                          mon::attempt( [&] { readBack( j, path, r ); } );
                          mon::count( "faults injected", io::fired() );
                          io::disarm();
                       }
                    } } );
      b.push_back( { "damaged files", []( mon::Ctx &c, Rng &r ) {
                       const string path = c.path( "c19.e57" );
                       Job j = make( r );
                       write( j, path );
                       const bytes good = mon::slurp( path );
                       for ( int k = 0; k < 6; k++ )
                       {
                          string what;
                          const bytes bad = damaged( good, r, what );
                          const auto pol = e57::ReadChecksumPolicy( r.chance( 1, 2 ) ? 100 : 0 );
                          mon::Outcome a;
                          try
                          {
                             if ( r.chance( 1, 3 ) )
                             {
                                a = mon::attempt( [&] {
                                   ImageFile imf( bad.data(), bad.size(), pol );
                                   describe( imf.root() );
                                } );
                             }
                             else
                             {
                                mon::spew( path, bad );
                                a = mon::attempt( [&] {
                                   if ( j.simple && r.chance( 1, 2 ) )
                                   {
                                      e57::Reader rd( path, e57::ReaderOptions{ pol } );
                                      for ( int64_t i = 0; i < rd.GetData3DCount(); i++ )
                                      {
                                         e57::Data3D h;
                                         rd.ReadData3D( i, h );
                                      }
                                      for ( int64_t i = 0; i < rd.GetImage2DCount(); i++ )
                                      {
                                         e57::Image2D h;
                                         rd.ReadImage2D( i, h );
                                      }
                                      return;
                                   }
                                   describeFile( path, pol );
                                } );
                             }
                          }
                          catch ( const mon::Violation & )
                          {
                             mon::count( "damaged files not as promised" ); // short of records, say
                          }
                          released( path, "after a damaged file" );
                          mon::count( a.threw ? "damaged files refused" : "damaged files read" );
                          mon::distinct( "damage", what + ":" + ( a.threw ? e57::Utilities::errorCodeToString( a.code ) + ":" + a.where : "" ) );
                       }
                    } } );
      b.push_back( { "mistakes", []( mon::Ctx &c, Rng &r ) {
                       for ( int k = 0; k < 4; k++ )
                       {
                          mistakes( c.path( "c19.e57" ), r );
                       }
                    } } );
      b.push_back( { "handles", []( mon::Ctx &c, Rng &r ) { handles( c.path( "c19.e57" ), r ); } } );
      b.push_back( { "given up", []( mon::Ctx &c, Rng &r ) {
                       const string path = c.path( "c19.e57" );
                       Job j = make( r );
                       write( j, path, {}, false );
                       released( path, "after destroying" );
                    } } );
      return b;
   }
   int gWarm = 0;

   // whether memory was lost, and where it came from
   bool leaks( mon::Ctx &c, string &from )
   {
      const string base = c.path( "lsan" ), file = base + "." + std::to_string( getpid() );
      __sanitizer_set_report_path( base.c_str() );
      const bool any = __lsan_do_recoverable_leak_check() != 0;
      __sanitizer_set_report_path( "stderr" );
      if ( any )
      {
         const string t = mon::exists( file ) ? mon::slurp( file ) : "";
         std::smatch m;
         if ( std::regex_search( t, m, std::regex( "in ([A-Za-z_0-9:~]+)[^\n]*/src/([A-Za-z0-9_]+\\.(cpp|h):[0-9]+)" ) ) )
         {
            from = m[1].str() + " " + m[2].str();
         }
         from += "; " + t.substr( 0, 3000 );
      }
      unlink( file.c_str() );
      return any;
   }
   // on a stack of its own, which keeps no stray pointers
   void apart( const std::function<void()> &f )
   {
      std::exception_ptr e;
      std::thread t( [&] {
         try
         {
            f();
         }
         catch ( ... )
         {
            e = std::current_exception();
         }
      } );
      t.join();
      if ( e )
      {
         std::rethrow_exception( e );
      }
   }
}

static void run( mon::Ctx &c )
{
   static const vector<Body> all = bodies();
   if ( !gWarm++ )
   {
      // the detector must be able to see something
      static volatile uintptr_t hidden;
      apart( [] { hidden = ~reinterpret_cast<uintptr_t>( malloc( 12345 ) ); } );
      string from;
      const bool before = leaks( c, from );
      free( reinterpret_cast<void *>( ~hidden ) );
      MON_CHECK( before, "harness", "leak detector does not work" );
      mon::count( "leak detector tested" );
   }
   Rng &r = c.rng;
   const Body &b = all[size_t( c.caseNo ) % all.size()];
   const uint64_t seed = r.u64();
   mon::note( b.name );
   const unsigned before = descriptors();
   size_t bytes[4] = {};
   for ( int k = 0; k < 4; k++ )
   {
      io::start();
      {
         apart( [&] {
            Rng q( seed, 5 );
            b.run( c, q );
         } );
      }
      io::stop();
      MON_CHECK( io::open() == 0, "descriptor-leaked", string( b.name ) + fmt( ": %d left open", io::open() ) );
      MON_CHECK( io::misused() == 0, "descriptor-misused", string( b.name ) + fmt( ": %" PRIu64 " calls with descriptors that are not open", io::misused() ) );
      mon::count( "storage calls watched", io::log().size() );
      io::start(); // forgets the log
      io::stop();
      bytes[k] = __sanitizer_get_current_allocated_bytes();
      mon::count( "oracle evaluations" );
   }
   MON_CHECK( descriptors() == before, "descriptor-leaked", string( b.name ) + fmt( ": %u before, %u after", before, descriptors() ) );
   MON_CHECK( !( bytes[3] > bytes[2] && bytes[2] > bytes[1] ), "memory-grows", string( b.name ) + fmt( ": %zu, %zu, %zu bytes in use after the same work", bytes[1], bytes[2], bytes[3] ) );
   string from;
   MON_CHECK( !leaks( c, from ), "memory-leaked", string( b.name ) + ": " + from );
   mon::count( "leak checks" );
   mon::distinct( "case", b.name + fmt( "%" PRIu64, seed % 4096 ) );
   mon::sample( string( b.name ) + fmt( ": %zu bytes in use afterwards, four times", bytes[3] ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C19";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
