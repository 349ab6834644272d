// C13: storage failures are reported and never produce a wrong file silently.
// The storage calls of the library go through io.cpp, which makes a chosen one fail, or be short, or fail from then on.
#include "io.h"
#include "work.h"
#include <unistd.h>
using namespace work;

namespace
{
   io::Fault draw( Rng &r, uint64_t total, uint64_t opens, uint64_t reads, uint64_t writes, uint64_t seeks, uint64_t closes )
   {
      io::Fault f;
      uint64_t n = total;
      switch ( r.below( 10 ) )
      {
         case 0:
            f.kinds = io::Open;
            n = opens;
            break;
         case 1:
         case 2:
            f.kinds = io::Read;
            n = reads;
            break;
         case 3:
         case 4:
         case 5:
            f.kinds = writes ? io::Write : io::Read;
            n = writes ? writes : reads;
            break;
         case 6:
            f.kinds = io::Seek;
            n = seeks;
            break;
         case 7:
            f.kinds = io::Close;
            n = closes;
            break;
         default:
            f.kinds = io::Open | io::Read | io::Write | io::Seek | io::Close;
      }
      // towards the end as often as anywhere
      f.at = n == 0 ? 0 : r.chance( 1, 3 ) ? n - 1 - r.below( std::min<uint64_t>( n, 12 ) ) : r.below( n );
      f.mode = r.pick( { io::Fail, io::Fail, io::Short, io::ShortFull, io::Interrupted } );
      f.lasting = f.mode == io::Fail && r.chance( 1, 2 );
      f.error = r.pick( { 5 /* EIO */, 28 /* ENOSPC */, 122 /* EDQUOT */, 9 /* EBADF */, 27 /* EFBIG */, 24 /* EMFILE */, 13 /* EACCES */ } );
      f.part = r.chance( 1, 4 ) ? 0 : r.chance( 1, 2 ) ? 1 + r.below( 1023 ) : r.pick( vector<uint64_t>{ 1, 48, 512, 1019, 1020, 1021, 1023 } );
      return f;
   }
   string str( const io::Fault &f )
   {
      string k;
      for ( int b = 1; b <= 32; b *= 2 )
      {
         k += f.kinds & b ? string( k.empty() ? "" : "/" ) + io::name( b ) : "";
      }
      return fmt( "%s %" PRIu64 " %s%s error %d part %" PRIu64, k.c_str(), f.at, f.mode == io::Fail ? "fails" : f.mode == io::Short ? "is short" : f.mode == io::ShortFull ? "is short, then fails" : "is interrupted",
                  f.lasting ? " and all later" : "", f.error, f.part );
   }
   // the call that failed first
   string where()
   {
      for ( auto &o : io::log() )
      {
         if ( o.faulty )
         {
            return fmt( "%s of %" PRIu64 " at %" PRIu64, io::name( o.kind ), o.size, o.at );
         }
      }
      return "none";
   }
   void observed( const mon::Outcome &a, const io::Fault &f )
   {
      if ( io::fired() )
      {
         mon::count( "faults injected", io::fired() );
         mon::count( a.threw ? "faults reported" : "faults overcome" );
         int kind = 0;
         for ( auto &o : io::log() )
         {
            kind = o.faulty && !kind ? o.kind : kind;
         }
         mon::count( ( string( "faulty " ) + io::name( kind ) ).c_str() );
         mon::distinct( "case", fmt( "%d:%d:%d:%s", kind, int( f.mode ), f.lasting, a.threw ? a.where.c_str() : "" ) + where() );
         mon::distinct( "error and origin", a.threw ? fmt( "%d ", a.code ) + a.where : "" );
      }
   }
   uint8_t *u8( const bytes &b )
   {
      return reinterpret_cast<uint8_t *>( const_cast<char *>( b.data() ) );
   }
   struct Counts
   {
      uint64_t total, opens, reads, writes, seeks, closes;
      Counts() : total( io::log().size() ), opens( io::calls( io::Open ) ), reads( io::calls( io::Read ) ), writes( io::calls( io::Write ) ), seeks( io::calls( io::Seek ) ), closes( io::calls( io::Close ) )
      {
      }
      io::Fault draw( Rng &r ) const
      {
         return ::draw( r, total, opens, reads, writes, seeks, closes );
      }
   };
}

static void writing( mon::Ctx &c )
{
   Rng &r = c.rng;
   Job j = make( r, r.chance( 1, 10 ) ? 1 : 0 );
   const string path = c.path( "c13.e57" );
   io::start();
   write( j, path );
   io::stop();
   const Counts n;
   MON_CHECK( n.opens >= 1 && n.writes >= 1 && n.closes >= 1, "harness", "storage calls not seen" );
   mon::count( "storage calls without faults", n.total );
   const Node want = describeFile( path );
   mon::sample( j.shape + fmt( "; %" PRIu64 " storage calls, %" PRIu64 " writes", n.total, n.writes ) );
   const unsigned runs = 30;
   for ( unsigned k = 0; k < runs; k++ )
   {
      const io::Fault f = n.draw( r );
      unlink( path.c_str() );
      mon::note( str( f ) );
      io::start();
      io::arm( f );
      const auto a = mon::attempt( [&] { write( j, path ); } );
      io::disarm();
      io::stop();
      observed( a, f );
      const string what = j.shape + ": " + str( f ) + ", " + where() + "; " + a.str();
      const bool there = mon::exists( path );
      if ( !a.threw )
      {
         MON_CHECK( there, "reported-success-no-file", what );
         string d;
         const auto b = mon::attempt( [&] { d = model::diff( want, describeFile( path ) ); } );
         MON_CHECK( !b.threw, "reported-success-unreadable", what + "; " + b.str() );
         MON_CHECK( d.empty(), "reported-success-wrong-file", what + "; " + d );
         mon::count( "files right after all" );
      }
      else if ( there )
      {
         // what a failed attempt leaves is refused or complete; the simple interface finishes files when it is destroyed
         const auto b = mon::attempt( [&] {
            const Node got = describeFile( path );
            if ( !j.simple )
            {
               const string d = model::diff( want, got );
               MON_CHECK( d.empty(), "failed-file-passes", what + "; " + d );
            }
         } );
         mon::count( b.threw ? "left files refused" : "left files opened" );
      }
      else
      {
         mon::count( "files removed after failure" );
      }
   }
}

// the calls of a program that tries again after an error
static void retrying( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   const string path = c.path( "c13r.e57" );
   for ( unsigned k = 0; k < 12; k++ )
   {
      const bytes data = g.binary( 1 + r.below( 4000 ) ), more = g.binary( 1 + r.below( 2000 ) );
      const string text = g.text( size_t( r.below( 1500 ) ) );
      unlink( path.c_str() );
      io::start();
      bool closed = false;
      unsigned failures = 0;
      string story;
      {
         ImageFile imf( path, "w" );
         io::Fault f = draw( r, 40, 0, 8, 12, 60, 1 );
         f.kinds &= ~( io::Close | io::Open );
         f.kinds = f.kinds ? f.kinds : int( io::Write );
         f.lasting = false;
         f.mode = f.mode == io::ShortFull ? io::Short : f.mode;
         story = str( f );
         mon::note( story );
         // every call is tried up to three times
         auto tried = [&]( const char *what, const std::function<void()> &call ) {
            for ( int t = 0; t < 3; t++ )
            {
               const auto a = mon::attempt( call );
               if ( !a.threw )
               {
                  return true;
               }
               failures++;
               story += string( "; " ) + what + ": " + a.str();
            }
            return false;
         };
         e57::BlobNode b( imf, int64_t( data.size() ) );
         imf.root().set( "b", b );
         imf.root().set( "t", e57::StringNode( imf, text ) );
         io::arm( f );
         bool ok = tried( "write", [&] { b.write( u8( data ), 0, data.size() ); } );
         std::unique_ptr<e57::BlobNode> b2;
         ok = ok && tried( "create", [&] { b2.reset( new e57::BlobNode( imf, int64_t( more.size() ) ) ); } );
         if ( ok )
         {
            imf.root().set( "b2", *b2 );
         }
         ok = ok && tried( "write 2", [&] { b2->write( u8( more ), 0, more.size() ); } );
         if ( ok )
         {
            // reading what has just been written
            bytes back( data.size(), 0 );
            if ( tried( "read", [&] { b.read( reinterpret_cast<uint8_t *>( &back[0] ), 0, back.size() ); } ) )
            {
               MON_CHECK( back == data, "retried-read-wrong", story );
            }
            closed = tried( "close", [&] { imf.close(); } );
         }
         io::disarm();
      }
      io::stop();
      mon::count( "faults injected", io::fired() );
      mon::count( "calls repeated", failures );
      if ( closed )
      {
         Node got;
         const auto a = mon::attempt( [&] { got = describeFile( path ); } );
         MON_CHECK( !a.threw, "retried-unreadable", story + "; " + a.str() );
         MON_CHECK( got.kids.size() == 3 && got.kid( "b" ) && got.kid( "b" )->blob == data && got.kid( "b2" ) && got.kid( "b2" )->blob == more && got.kid( "t" ) && got.kid( "t" )->sv == text, "retried-wrong-file",
                    story );
         mon::count( "files right after all" );
      }
      else
      {
         MON_CHECK( !mon::exists( path ), "failed-file-left", story );
      }
      mon::distinct( "case", "r" + story );
   }
}

static void reading( mon::Ctx &c )
{
   Rng &r = c.rng;
   Job j = make( r, r.chance( 1, 10 ) ? 1 : 0 );
   const string path = c.path( "c13.e57" );
   write( j, path );
   const auto pol = e57::ReadChecksumPolicy( r.pick( vector<int>{ 0, 25, 50, 100 } ) );
   const bytes before = mon::slurp( path );
   io::start();
   const Node want = describeFile( path, pol );
   io::stop();
   const Counts n;
   MON_CHECK( n.opens >= 1 && n.reads >= 1, "harness", "storage calls not seen" );
   mon::count( "storage calls without faults", n.total );
   for ( unsigned k = 0; k < 25; k++ )
   {
      const io::Fault f = n.draw( r );
      mon::note( str( f ) );
      io::start();
      io::arm( f );
      Node got;
      std::unique_ptr<ImageFile> imf;
      auto a = mon::attempt( [&] { imf.reset( new ImageFile( path, "r", pol ) ); } );
      if ( !a.threw )
      {
         a = mon::attempt( [&] { got = describe( imf->root() ); } );
         if ( a.threw )
         {
            // once more with the same file object
            Node again;
            const auto b = mon::attempt( [&] { again = describe( imf->root() ); } );
            if ( !b.threw )
            {
               const string d = model::diff( want, again );
               MON_CHECK( d.empty(), "read-again-wrong", str( f ) + "; " + a.str() + "; " + d );
               mon::count( "read again" );
            }
         }
         else
         {
            const string d = model::diff( want, got );
            MON_CHECK( d.empty(), "read-wrong", str( f ) + ", " + where() + "; " + d );
            a = mon::attempt( [&] { imf->close(); } );
         }
      }
      imf.reset();
      io::disarm();
      io::stop();
      observed( a, f );
   }
   if ( j.simple )
   {
      // the same through the simple interface, where errors are exceptions or refusals
      for ( unsigned k = 0; k < 15; k++ )
      {
         const io::Fault f = n.draw( r );
         mon::note( "simple " + str( f ) );
         io::start();
         io::arm( f );
         const auto a = mon::attempt( [&] {
            e57::Reader rd( path, e57::ReaderOptions{ pol } );
            for ( size_t i = 0; i < j.scans.size(); i++ )
            {
               simple::readScan( rd, int64_t( i ), j.scans[i], r );
            }
            for ( size_t i = 0; i < j.images.size(); i++ )
            {
               simple::readImage( rd, int64_t( i ), j.images[i], r );
            }
         } );
         io::disarm();
         io::stop();
         observed( a, f );
      }
   }
   MON_CHECK( mon::slurp( path ) == before, "file-changed-by-reading", "" );
   mon::sample( j.shape + fmt( "; reading: %" PRIu64 " storage calls", n.total ) );
}

static void run( mon::Ctx &c )
{
   switch ( c.caseNo % 4 )
   {
      case 0:
      case 1:
         return writing( c );
      case 2:
         return reading( c );
      default:
         return retrying( c );
   }
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C13";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
