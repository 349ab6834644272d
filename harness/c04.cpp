// C04: any conformant file is decoded to the values it encodes.
// Files are synthesised by an independent encoder with layouts this library would never choose.
#include <fcntl.h>
#include <unistd.h>

#include "api.h"
#include "ref.h"
using namespace api;

static Node recordsRoot( mon::Ctx &c, model::Gen &g, const vector<string> &prefixes )
{
   Rng &r = c.rng;
   Node root( T::Structure, "" );
   const unsigned n = 1 + unsigned( r.below( 3 ) );
   for ( unsigned k = 0; k < n; k++ )
   {
      const size_t recs = r.chance( 1, 8 ) ? r.below( 3 ) : r.chance( 1, 3 ) ? r.below( 5000 ) : r.below( 300 );
      const unsigned fields = r.chance( 1, 10 ) ? 8 + unsigned( r.below( 20 ) ) : 1 + unsigned( r.below( 5 ) );
      root.kids.push_back( g.compressedVector( fmt( "cv%u", k ), fields, r.chance( 1, 3 ), recs, prefixes, r.chance( 1, 3 ) ? int( r.below( 5 ) ) : -1 ) );
      if ( r.chance( 1, 8 ) )
      {
         for ( auto &col : root.kids.back().cols )
         {
            if ( !col.s.empty() )
            {
               col.s[r.below( col.s.size() )] = g.binary( r.below( 90000 ) );
            }
         }
      }
   }
   return root;
}
static Node describeRandom( const ImageFile &imf, const e57::Node &n, const Node &m, Rng &r )
{
   Node d = describe( n, false );
   std::function<void( Node &, const e57::Node &, const Node & )> fill = [&]( Node &a, const e57::Node &b, const Node &want ) {
      if ( a.type == T::CompressedVector )
      {
         readRecords( imf, e57::CompressedVectorNode( b ), a, r.chance( 1, 2 ) ? 0 : size_t( 1 + r.below( want.records + 5 ) ) );
      }
      if ( a.type == T::Blob )
      {
         a = describe( b );
         a.name = want.name;
      }
      for ( size_t k = 0; k < a.kids.size() && k < want.kids.size(); k++ )
      {
         fill( a.kids[k], a.type == T::Structure ? e57::StructureNode( b ).get( int64_t( k ) ) : e57::VectorNode( b ).get( int64_t( k ) ), want.kids[k] );
      }
   };
   fill( d, n, m );
   return d;
}
static void tally( const Node &n )
{
   for ( auto &c : n.cols )
   {
      mon::count( "values compared", c.i.size() + c.s.size() );
   }
   mon::count( "blob bytes compared", n.blob.size() );
   mon::count( "elements compared" );
   for ( auto &k : n.kids )
   {
      tally( k );
   }
}

// A file of more than 4 GiB: what lies between the sections is a hole in the storage
static void far( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   Node root( T::Structure, "" );
   root.kids.push_back( g.compressedVector( "cv", 1 + unsigned( r.below( 4 ) ), false, 1 + r.below( 20000 ) ) );
   Node b( T::Blob, "b" );
   b.blob = g.binary( r.below( 9000 ) );
   root.kids.push_back( b );
   root.kids.push_back( g.leafNode( "x" ) );
   // three places around interesting distances
   const uint64_t marks[] = { 1ull << 31, 1ull << 32, ( 1ull << 32 ) / 1024 * 1020, 5000000000ull, 1ull << 33, ( 1ull << 31 ) / 1024 * 1020, 3ull << 32 };
   uint64_t last = 48;
   const string path = c.path( "far.e57" );
   const int fd = open( path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 );
   if ( fd < 0 )
   {
      mon::fail( "harness", "cannot create " + path );
   }
   ref::Synth syn( r );
   syn.maxPacket = r.chance( 1, 2 ) ? 65536 : 600 + r.below( 3000 ) / 4 * 4;
   // logical bytes written at a distance; pages are completed by reading back
   auto put = [&]( uint64_t logical, const bytes &data ) {
      size_t done = 0;
      while ( done < data.size() )
      {
         const uint64_t page = ( logical + done ) / 1020;
         const size_t in = size_t( ( logical + done ) % 1020 );
         const size_t n = std::min( data.size() - done, 1020 - in );
         char buf[1024] = { 0 };
         if ( pread( fd, buf, 1024, off_t( page * 1024 ) ) < 0 )
         {
            mon::fail( "harness", "pread" );
         }
         memcpy( buf + in, data.data() + done, n );
         ref::sealPage( buf );
         if ( pwrite( fd, buf, 1024, off_t( page * 1024 ) ) != 1024 )
         {
            mon::fail( "harness", "pwrite" );
         }
         done += n;
      }
   };
   auto place = [&]( uint64_t len ) {
      uint64_t p = r.pick( marks ) + r.below( 8000 ) - 4000;
      if ( p < last )
      {
         p = last + r.below( 10000 );
      }
      p = ( p + 3 ) / 4 * 4;
      last = p + len;
      return p;
   };
   // sections in order of position
   auto &cv = root.kids[0];
   ref::Synth::Sec sec;
   sec.n = &cv;
   const uint64_t cvAt = r.chance( 1, 6 ) ? 48 : place( 4000000 );
   if ( cvAt == 48 )
   {
      last = 4000000;
   }
   syn.cvSection( sec, cvAt );
   put( cvAt, sec.data );
   last = std::max<uint64_t>( last, cvAt + sec.data.size() );
   const uint64_t blobAt = place( 20000 );
   bytes bs( 16, 0 );
   bs += b.blob;
   bs.append( ( 4 - bs.size() % 4 ) % 4, 0 );
   ref::wrAt<uint64_t>( bs, 8, bs.size() );
   put( blobAt, bs );
   // a blob longer than 4 GiB of which only its ends are looked at
   const uint64_t hugeLen = ( 1ull << 32 ) + 10000 + r.below( 5000 );
   const uint64_t hugeAt = last / 4 * 4 + 4;
   bytes head( 16, 0 );
   ref::wrAt<uint64_t>( head, 8, ( 16 + hugeLen + 3 ) / 4 * 4 );
   put( hugeAt, head );
   const bytes tailBytes = g.binary( 3000 );
   const uint64_t tailFrom = hugeLen - tailBytes.size();
   put( hugeAt + 16 + tailFrom, tailBytes );
   const bytes midBytes = g.binary( 2000 );
   const uint64_t midFrom = ( 1ull << 32 ) - 1000;
   put( hugeAt + 16 + midFrom, midBytes );
   last = hugeAt + 16 + hugeLen;
   // XML
   syn.secs.emplace_back( new ref::Synth::Sec );
   syn.secs.back()->n = &cv;
   syn.secs.emplace_back( new ref::Synth::Sec );
   syn.secs.back()->n = &root.kids[1];
   string x = syn.xml( root, "e57Root", true );
   auto sub = [&]( const string &what, uint64_t v ) {
      const size_t p = x.find( what );
      x.replace( p, what.size(), std::to_string( v ) );
   };
   sub( ref::Synth::token( 0 ), ref::toPhys( cvAt ) );
   sub( ref::Synth::token( 1 ), ref::toPhys( blobAt ) );
   const string huge = fmt( "<huge type=\"Blob\" fileOffset=\"%" PRIu64 "\" length=\"%" PRIu64 "\"/>", ref::toPhys( hugeAt ), hugeLen );
   x.insert( x.rfind( "</" ), huge );
   const uint64_t xa = ( last + 4000 + r.below( 3000 ) ) / 4 * 4;
   put( xa, x );
   const uint64_t pages = ( xa + x.size() + 1019 ) / 1020;
   bytes h( 48, 0 );
   memcpy( &h[0], "ASTM-E57", 8 );
   ref::wrAt<uint32_t>( h, 8, 1 );
   ref::wrAt<uint64_t>( h, 16, pages * 1024 );
   ref::wrAt<uint64_t>( h, 24, ref::toPhys( xa ) );
   ref::wrAt<uint64_t>( h, 32, x.size() );
   ref::wrAt<uint64_t>( h, 40, 1024 );
   put( 0, h );
   close( fd );
   mon::note( fmt( "cv at %" PRIu64 ", blob at %" PRIu64 ", huge blob at %" PRIu64 ", XML at %" PRIu64, cvAt, blobAt, hugeAt, xa ) );
   try
   {
      ImageFile imf( path, "r" );
      e57::StructureNode top = imf.root();
      for ( auto &k : root.kids )
      {
         Node got = describe( top.get( k.name ) );
         got.name = k.name;
         string d = model::diff( k, got );
         MON_CHECK( d.empty(), "far-data-differs", d );
         tally( k );
      }
      e57::BlobNode hb( top.get( "huge" ) );
      MON_CHECK( uint64_t( hb.byteCount() ) == hugeLen, "far-blob-length", fmt( "%" PRId64, hb.byteCount() ) );
      auto piece = [&]( uint64_t from, const bytes &want ) {
         bytes got( want.size(), 0 );
         hb.read( reinterpret_cast<uint8_t *>( &got[0] ), int64_t( from ), got.size() );
         MON_CHECK( got == want, "far-blob-bytes", fmt( "at %" PRIu64, from ) );
         mon::count( "bytes beyond 4 GiB compared", got.size() );
      };
      piece( tailFrom, tailBytes );
      piece( midFrom, midBytes );
      imf.close();
   }
   catch ( ... )
   {
      unlink( path.c_str() );
      throw;
   }
   unlink( path.c_str() );
   mon::count( "files beyond 4 GiB" );
   mon::distinct( "case", fmt( "far %" PRIu64, cvAt ) );
}

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   if ( c.caseNo % 50 == 49 )
   {
      far( c );
      return;
   }
   model::Gen g( r );
   auto ext = g.extensions( 3 );
   model::Gen::TreeOpts o;
   for ( auto &x : ext )
   {
      o.prefixes.push_back( x.first );
   }
   o.budget = r.chance( 1, 6 ) ? 150 : 30;
   o.maxBlob = r.chance( 1, 3 ) ? 5000 : 100;
   o.maxRecords = r.chance( 1, 3 ) ? 1000 : 60;
   Node root = r.chance( 1, 2 ) ? recordsRoot( c, g, o.prefixes ) : g.tree( o );
   ref::Synth syn( r );
   syn.ns = ext;
   switch ( r.below( 4 ) )
   {
      case 0:
         break;
      case 1:
         syn.maxPacket = 200 + r.below( 300 ) / 4 * 4; // many small packets: more than the reader caches
         break;
      default:
         syn.maxPacket = 300 + r.below( 65236 ) / 4 * 4;
   }
   const bytes file = syn.file( root );
   mon::note( fmt( "%zu bytes, %" PRIu64 " data, %" PRIu64 " index, %" PRIu64 " empty packets, packets up to %zu", file.size(), syn.dataPackets, syn.indexPackets,
                   syn.emptyPackets, syn.maxPacket ) );
   // the synthesiser and the independent parser must agree with each other
   try
   {
      ref::File f = ref::parseFile( file );
      string d = model::diff( root, f.root );
      if ( !d.empty() )
      {
         mon::fail( "harness", "synthesised file does not encode the model: " + d );
      }
   }
   catch ( const ref::Bad &b )
   {
      mon::fail( "harness", "synthesised file is not conformant: " + b.key + " " + b.detail );
   }
   const string path = c.path( "c04.e57" );
   mon::spew( path, file );
   const auto policy = r.chance( 1, 2 ) ? e57::ChecksumPolicy::ChecksumAll : e57::ChecksumPolicy::ChecksumNone;
   std::unique_ptr<ImageFile> imf;
   if ( r.chance( 1, 4 ) )
   {
      imf.reset( new ImageFile( file.data(), file.size(), policy ) );
   }
   else
   {
      imf.reset( new ImageFile( path, "r", policy ) );
   }
   const Node back = describeRandom( *imf, imf->root(), root, r );
   string d = model::diff( root, back );
   MON_CHECK( d.empty(), "decoded-differs", d );
   for ( auto &x : ext )
   {
      string uri;
      MON_CHECK( imf->extensionsLookupPrefix( x.first, uri ) && uri == x.second, "extension-differs", x.first + " " + uri );
   }
   imf->close();
   tally( root );
   mon::count( "foreign data packets", syn.dataPackets );
   mon::count( "foreign index packets", syn.indexPackets );
   mon::count( fmt( "files with %u index levels", syn.indexLevels ).c_str() );
   mon::count( "foreign empty packets", syn.emptyPackets );
   mon::count( "foreign files read" );
   mon::distinct( "case", fmt( "%" PRIu64 ":%" PRIu64 ":%" PRIu64 ":%zu", syn.dataPackets, syn.indexPackets, syn.emptyPackets, syn.places.size() ) );
   for ( auto &p : syn.places )
   {
      mon::distinct( "section start in page", fmt( "%s:%" PRIu64, p.what.c_str(), p.start % 1020 / 4 ) );
   }
   mon::sample( fmt( "case %ld: %zu bytes, %" PRIu64 " data, %" PRIu64 " index, %" PRIu64 " empty packets, %zu sections", c.caseNo, file.size(), syn.dataPackets,
                     syn.indexPackets, syn.emptyPackets, syn.places.size() ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C04";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
