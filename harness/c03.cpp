// C03: blob contents are stored and returned byte for byte.
#include "api.h"
using namespace api;

namespace
{
   const size_t kPage = 1020;

   size_t blobSize( Rng &r, bool thorough )
   {
      switch ( r.below( 12 ) )
      {
         case 0:
            return r.below( 9 );
         case 1:
         case 2: // around page boundaries, also counting the section header and file header
            return size_t( std::max<int64_t>( 0, int64_t( kPage * ( 1 + r.below( 8 ) ) ) - 70 + int64_t( r.below( 80 ) ) ) );
         case 3:
            return kPage * r.below( 6 ) + r.below( 5 );
         case 4:
            return r.chance( 1, 40 ) ? 1000000 + r.below( thorough ? 60000000 : 3000000 ) : r.below( 400000 );
         case 5:
            return r.below( 60000 );
         default:
            return r.below( 5000 );
      }
   }
   struct Blob
   {
      e57::BlobNode node;
      string name;
      bytes want;      // what must be in it
      bool attached = false;
   };

   // a range that lies inside
   void inside( Rng &r, size_t size, size_t &start, size_t &count )
   {
      switch ( r.below( 6 ) )
      {
         case 0:
            start = 0;
            count = size;
            break;
         case 1:
            start = r.below( size + 1 );
            count = size - start;
            break;
         case 2:
            start = r.below( size + 1 );
            count = std::min( size - start, size_t( r.below( 4 ) ) );
            break;
         case 3:
         { // aligned to pages of the blob or of the file, give or take
            const size_t p = kPage * r.below( size / kPage + 1 );
            start = std::min( size, p + r.below( 3 ) );
            count = std::min( size - start, kPage * r.below( 4 ) + r.below( 3 ) );
            break;
         }
         default:
            start = r.below( size + 1 );
            count = r.below( size - start + 1 );
      }
   }
   // a range that does not
   void outside( Rng &r, size_t size, int64_t &start, size_t &count )
   {
      const int64_t n = int64_t( size );
      switch ( r.below( 10 ) )
      {
         case 0:
            start = n;
            count = 1;
            break;
         case 1:
            start = 0;
            count = size + 1;
            break;
         case 2:
            start = int64_t( r.below( size + 1 ) );
            count = size - size_t( start ) + 1 + r.below( 3000 );
            break;
         case 3:
            start = n + 1 + int64_t( r.below( 2000 ) );
            count = r.below( 20 );
            break;
         case 4:
            start = -1 - int64_t( r.below( 100 ) );
            count = size_t( -start );
            break;
         case 5:
            start = -1 - int64_t( r.below( 100 ) );
            count = size_t( -start ) + r.below( size + 1 );
            break;
         case 6:
            start = r.chance( 1, 2 ) ? INT64_MIN : -1;
            count = r.below( 100 );
            break;
         case 7:
            start = INT64_MAX;
            count = r.below( 100 );
            break;
         case 8:
            start = int64_t( r.below( size + 1 ) );
            count = SIZE_MAX - r.below( 4 );
            break;
         default:
            start = 1 + int64_t( r.below( 1000 ) );
            count = SIZE_MAX - size_t( start ) + 1 + r.below( std::min( size + 1, size_t( start ) ) );
      }
   }

   void readInside( Rng &r, Blob &b, const char *when )
   {
      size_t start, count;
      inside( r, b.want.size(), start, count );
      const size_t room = count ? count : 1; // exact: over-long reads are caught
      std::unique_ptr<uint8_t[]> buf( new uint8_t[room] );
      std::fill_n( buf.get(), room, uint8_t( 0xCD ) );
      b.node.read( buf.get(), int64_t( start ), count );
      MON_CHECK( count || buf[0] == 0xCD, "bytes-from-nowhere", "reading nothing changed the buffer" );
      if ( count && memcmp( buf.get(), b.want.data() + start, count ) != 0 )
      {
         size_t k = 0;
         while ( buf[k] == uint8_t( b.want[start + k] ) )
         {
            k++;
         }
         mon::fail( "bytes-differ", fmt( "%s: blob %s of %zu bytes, read [%zu,+%zu): byte %zu is %02x, expected %02x", when, b.name.c_str(),
                                         b.want.size(), start, count, start + k, buf[k], uint8_t( b.want[start + k] ) ) );
      }
      mon::count( "bytes compared", count );
      mon::count( "reads inside" );
   }
   void writeInside( Rng &r, model::Gen &g, Blob &b )
   {
      size_t start, count;
      inside( r, b.want.size(), start, count );
      bytes data = g.binary( count );
      std::unique_ptr<uint8_t[]> buf( new uint8_t[count] );
      std::copy( data.begin(), data.end(), reinterpret_cast<char *>( buf.get() ) );
      b.node.write( buf.get(), int64_t( start ), count );
      MON_CHECK( memcmp( buf.get(), data.data(), count ) == 0, "source-changed", "write changed the caller's bytes" );
      b.want.replace( start, count, data );
      mon::count( "writes inside" );
   }
   void readOutside( Rng &r, Blob &b, const char *when )
   {
      int64_t start;
      size_t count;
      outside( r, b.want.size(), start, count );
      const size_t room = std::min<size_t>( count, 8192 );
      std::unique_ptr<uint8_t[]> buf( new uint8_t[room] );
      std::fill_n( buf.get(), room, uint8_t( 0xCD ) );
      mon::note( fmt( "%s: read outside [%" PRId64 ",+%zu) of %zu", when, start, count, b.want.size() ) );
      auto o = mon::attempt( [&] { b.node.read( buf.get(), start, count ); } );
      MON_CHECK( o.threw, "outside-read-accepted", fmt( "%s: [%" PRId64 ",+%zu) of a blob of %zu bytes", when, start, count, b.want.size() ) );
      for ( size_t k = 0; k < room; k++ )
      {
         MON_CHECK( buf[k] == 0xCD, "outside-read-delivered", fmt( "%s: byte %zu", when, k ) );
      }
      mon::count( "transfers outside refused" );
   }
   void writeOutside( Rng &r, Blob &b, const char *when )
   {
      int64_t start;
      size_t count;
      outside( r, b.want.size(), start, count );
      const size_t room = std::min<size_t>( count, 8192 );
      std::unique_ptr<uint8_t[]> buf( new uint8_t[room] );
      std::fill_n( buf.get(), room, uint8_t( 0xEE ) );
      mon::note( fmt( "%s: write outside [%" PRId64 ",+%zu) of %zu", when, start, count, b.want.size() ) );
      auto o = mon::attempt( [&] { b.node.write( buf.get(), start, count ); } );
      MON_CHECK( o.threw, "outside-write-accepted", fmt( "%s: [%" PRId64 ",+%zu) of a blob of %zu bytes", when, start, count, b.want.size() ) );
      mon::count( "transfers outside refused" );
   }

   void run( mon::Ctx &c )
   {
      Rng &r = c.rng;
      model::Gen g( r );
      const string path = c.path( "c03.e57" );
      Node expect( T::Structure, "" ); // what the closed file must hold
      vector<Blob> blobs;
      string shape;
      {
         ImageFile imf( path, "w" );
         auto root = imf.root();
         vector<Node> cvs;
         vector<e57::CompressedVectorNode> cvNodes;
         const int steps = int( 4 + r.below( 40 ) );
         for ( int s = 0; s < steps || blobs.empty(); s++ )
         {
            const unsigned what = unsigned( r.below( 20 ) );
            if ( blobs.empty() || ( what < 3 && blobs.size() < 12 ) )
            {
               const size_t n = blobSize( r, c.thorough );
               Blob b{ e57::BlobNode( imf, int64_t( n ) ), fmt( "b%zu", blobs.size() ), bytes( n, 0 ), false };
               MON_CHECK( b.node.byteCount() == int64_t( n ), "byte-count", fmt( "%" PRId64 " vs %zu", b.node.byteCount(), n ) );
               if ( r.chance( 3, 4 ) )
               {
                  root.set( b.name, b.node );
                  b.attached = true;
                  Node m( T::Blob, b.name );
                  expect.kids.push_back( m );
               }
               shape += fmt( "B%zu.", n );
               blobs.push_back( b );
            }
            else if ( what == 3 )
            {
               const size_t k = cvs.size();
               cvs.push_back( g.compressedVector( fmt( "cv%zu", k ), 1 + unsigned( r.below( 3 ) ), false, r.below( 400 ) ) );
               Builder bl( imf, r );
               e57::CompressedVectorNode cv( bl.full( cvs[k] ) );
               root.set( cvs[k].name, cv );
               expect.kids.push_back( cvs[k] );
               writeRecords( imf, cv, cvs[k], r, false, 0, [&] {
                  // blobs stay usable while records are being written
                  Blob &b = blobs[r.below( blobs.size() )];
                  if ( b.attached && r.chance( 1, 2 ) )
                  {
                     writeInside( r, g, b );
                  }
                  else
                  {
                     readInside( r, b, "during point data" );
                  }
               } );
               cvNodes.push_back( cv );
               shape += "C.";
            }
            else if ( what == 4 )
            {
               Node m = g.leafNode( fmt( "leaf%zu", expect.kids.size() ) );
               Builder bl( imf, r );
               root.set( m.name, bl.full( m ) );
               expect.kids.push_back( m );
            }
            else
            {
               Blob &b = blobs[r.below( blobs.size() )];
               if ( what == 5 && !b.attached )
               {
                  root.set( b.name, b.node );
                  b.attached = true;
                  expect.kids.emplace_back( T::Blob, b.name );
               }
               else if ( what < 13 && b.attached )
               {
                  writeInside( r, g, b );
               }
               else if ( what == 13 )
               {
                  if ( b.attached )
                  {
                     writeOutside( r, b, "before close" );
                  }
                  else
                  {
                     uint8_t x = 1;
                     auto o = mon::attempt( [&] { b.node.write( &x, 0, b.want.empty() ? 0 : 1 ); } );
                     MON_CHECK( o.threw, "unattached-write-accepted", "" );
                  }
               }
               else if ( what == 14 )
               {
                  readOutside( r, b, "before close" );
               }
               else
               {
                  readInside( r, b, "before close" );
               }
            }
         }
         for ( auto &b : blobs )
         {
            MON_CHECK( b.node.byteCount() == int64_t( b.want.size() ), "byte-count", b.name );
            readInside( r, b, "at end" );
            if ( b.attached )
            {
               expect.kid( b.name )->blob = b.want;
            }
         }
         // negative sizes are refused
         if ( r.chance( 1, 8 ) )
         {
            const int64_t n = r.pick( { int64_t( -1 ), int64_t( -16 ), int64_t( -17 ), INT64_MIN } );
            auto o = mon::attempt( [&] { e57::BlobNode b( imf, n ); } );
            MON_CHECK( o.threw, "negative-size-accepted", fmt( "%" PRId64, n ) );
            mon::count( "transfers outside refused" );
         }
         imf.close();
      }
      // everything in the file is as meant: blobs, and what lies around them
      const bytes file = mon::slurp( path );
      const bool mem = r.chance( 1, 4 );
      ImageFile imf = mem ? ImageFile( file.data(), file.size() ) : ImageFile( path, "r", r.pick( { 0, 25, 50, 100 } ) );
      const string d = model::diff( expect, describe( imf.root() ) );
      MON_CHECK( d.empty(), "file-differs", d );
      vector<Blob> back;
      for ( auto &b : blobs )
      {
         if ( b.attached )
         {
            back.push_back( { e57::BlobNode( imf.root().get( b.name ) ), b.name, b.want, true } );
         }
      }
      for ( int k = 0; k < 12 && !back.empty(); k++ )
      {
         Blob &b = back[r.below( back.size() )];
         if ( k % 4 == 3 )
         {
            readOutside( r, b, "reopened" );
         }
         else
         {
            readInside( r, b, "reopened" );
         }
         if ( k == 5 )
         {
            uint8_t x = 7;
            auto o = mon::attempt( [&] { b.node.write( &x, 0, 1 ); } );
            MON_CHECK( o.threw, "read-only-write-accepted", "" );
         }
      }
      imf.close();
      MON_CHECK( mon::slurp( path ) == file, "file-changed-by-reading", "" );
      mon::distinct( "case", shape );
      mon::sample( fmt( "case %ld: %s", c.caseNo, shape.c_str() ) );
   }
}

// Known finding: a blob created while records are being written lands between the packets of the
// record section and cuts it in two.
static void blobDuringWriter( mon::Ctx &c )
{
   Rng r( 5 );
   model::Gen g( r );
   const string path = c.path( "p.e57" );
   Node m = g.compressedVector( "cv", 2, false, 30000, {}, 3 );
   {
      ImageFile imf( path, "w" );
      Builder bl( imf, r );
      e57::CompressedVectorNode cv( bl.full( m ) );
      imf.root().set( "cv", cv );
      bool made = false;
      writeRecords( imf, cv, m, r, true, 10000, [&] {
         if ( !made )
         {
            imf.root().set( "b", e57::BlobNode( imf, 5000 ) );
            made = true;
         }
      } );
      imf.close();
   }
   Node back = m;
   auto o = mon::attempt( [&] {
      ImageFile imf( path, "r" );
      readRecords( imf, e57::CompressedVectorNode( imf.root().get( "cv" ) ), back );
   } );
   const string d = o.threw ? o.str() : model::diff( m, back );
   MON_CHECK( d.empty(), "point-data-damaged", d );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C03";
   s.run = run;
   s.probes["blob-during-writer"] = blobDuringWriter;
   return mon::mainLoop( argc, argv, s );
}
