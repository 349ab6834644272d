// C06: corruption of a file is detected, never returned as data.
#include "api.h"
#include "ref.h"
#include "E57SimpleReader.h"
using namespace api;

struct Made
{
   Node root;
   bytes phys;
   ref::File f;
   string path;
};

static Made make( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   Made m;
   m.root = Node( T::Structure, "" );
   const unsigned nCv = unsigned( r.below( 3 ) );
   for ( unsigned k = 0; k < nCv; k++ )
   {
      const size_t recs = r.chance( 1, 4 ) ? 3000 + r.below( 9000 ) : r.below( 600 );
      m.root.kids.push_back( g.compressedVector( fmt( "cv%u", k ), 1 + unsigned( r.below( 5 ) ), r.chance( 1, 3 ), recs, {}, -1 ) );
   }
   const unsigned nBlob = 1 + unsigned( r.below( 3 ) );
   for ( unsigned k = 0; k < nBlob; k++ )
   {
      Node b( T::Blob, fmt( "blob%u", k ) );
      b.blob = g.binary( r.chance( 1, 2 ) ? 3000 + r.below( 30000 ) : r.below( 3000 ) );
      m.root.kids.push_back( b );
   }
   const unsigned nLeaf = r.chance( 1, 3 ) ? 60 : unsigned( r.below( 10 ) );
   for ( unsigned k = 0; k < nLeaf; k++ )
   {
      m.root.kids.push_back( g.leafNode( fmt( "leaf%u", k ) ) );
   }
   m.path = c.path( "c06.e57" );
   if ( r.chance( 1, 2 ) )
   {
      ref::Synth syn( r );
      syn.maxPacket = r.chance( 1, 3 ) ? 65536 : 300 + r.below( 20000 ) / 4 * 4;
      mon::spew( m.path, syn.file( m.root ) );
   }
   else
   {
      ImageFile imf( m.path, "w" );
      Builder bd( imf, r );
      bd.populate( imf.root(), m.root );
      bd.writeBlobs();
      for ( auto &p : bd.cvs )
      {
         writeRecords( imf, e57::CompressedVectorNode( p.node ), *p.m, r, true );
      }
      imf.close();
   }
   m.phys = mon::slurp( m.path );
   try
   {
      m.f = ref::parseFile( m.phys );
   }
   catch ( const ref::Bad &b )
   {
      mon::fail( "file-not-conformant", b.key + " " + b.detail );
   }
   return m;
}

// Read everything in a random order. Whatever is delivered has to be right; says whether anything was refused.
struct Reading
{
   bool refused = false;
   string first;
   unsigned delivered = 0;
   void note( const mon::Outcome &o )
   {
      if ( o.threw && !refused )
      {
         refused = true;
         first = o.str();
         mon::distinct( "refusal", fmt( "%s:%s", e57::Utilities::errorCodeToString( o.code ).c_str(), o.where.c_str() ) );
      }
   }
};
static void readCv( const ImageFile &imf, const Node &m, Rng &r, Reading &rd, const string &desc )
{
   e57::CompressedVectorNode cv( imf.root().get( m.name ) );
   const auto lv = model::leaves( *m.proto );
   const size_t n = size_t( m.records );
   const size_t cap = r.chance( 1, 2 ) ? n : 1 + r.below( n );
   vector<std::unique_ptr<Buf>> bufs;
   vector<e57::SourceDestBuffer> sdbs;
   for ( size_t f = 0; f < lv.size(); f++ )
   {
      const Plan p = naturalPlan( *lv[f].node );
      bufs.emplace_back( new Buf( p.mem, cap, 1, p.conv, p.scal ) );
      sdbs.push_back( bufs.back()->sdb( imf, lv[f].path ) );
   }
   size_t at = 0;
   rd.note( mon::attempt( [&] {
      e57::CompressedVectorReader reader = cv.reader( sdbs );
      for ( ;; )
      {
         const unsigned got = reader.read();
         if ( got == 0 )
         {
            break;
         }
         MON_CHECK( at + got <= n, "corrupt-data-returned", fmt( "%zu records of %zu; %s", at + got, n, desc.c_str() ) );
         for ( size_t f = 0; f < lv.size(); f++ )
         {
            for ( unsigned k = 0; k < got; k++ )
            {
               const string d = mismatch( *bufs[f], k, *lv[f].node, m.cols[f], at + k );
               if ( !d.empty() )
               {
                  mon::fail( "corrupt-data-returned", fmt( "record %zu field %s: %s; %s", at + k, lv[f].path.c_str(), d.c_str(), desc.c_str() ) );
               }
            }
         }
         at += got;
         mon::count( "values compared", got * lv.size() );
      }
      reader.close();
      MON_CHECK( at == n, "records-missing-without-error", fmt( "%zu of %zu; %s", at, n, desc.c_str() ) );
      rd.delivered++;
   } ) );
}
static void readBlob( const ImageFile &imf, const Node &m, Rng &r, Reading &rd, const string &desc )
{
   e57::BlobNode b( imf.root().get( m.name ) );
   size_t at = 0;
   const bool pieces = r.chance( 1, 2 );
   while ( at < m.blob.size() )
   {
      const size_t len = pieces ? std::min<size_t>( m.blob.size() - at, 1 + r.below( 5000 ) ) : m.blob.size();
      bytes got( len, 0 );
      auto o = mon::attempt( [&] { b.read( reinterpret_cast<uint8_t *>( &got[0] ), int64_t( at ), len ); } );
      rd.note( o );
      if ( !o.threw )
      {
         MON_CHECK( m.blob.compare( at, len, got ) == 0, "corrupt-data-returned", fmt( "blob %s bytes %zu..%zu; %s", m.name.c_str(), at, at + len, desc.c_str() ) );
         mon::count( "blob bytes compared", len );
      }
      at += len;
   }
   rd.delivered++;
}
static Reading readAll( mon::Ctx &c, const Made &m, const bytes &phys, e57::ReadChecksumPolicy pol, const string &desc, bool full )
{
   Rng &r = c.rng;
   Reading rd;
   std::unique_ptr<char[]> mem;
   std::unique_ptr<ImageFile> imf;
   std::unique_ptr<e57::Reader> simple;
   const string path = c.path( "c06x.e57" );
   const unsigned how = unsigned( r.below( 5 ) );
   if ( how == 0 )
   {
      mem.reset( new char[phys.size() + 1] );
      memcpy( mem.get(), phys.data(), phys.size() );
   }
   else
   {
      mon::spew( path, phys );
   }
   mon::distinct( "source", how == 0 ? "memory" : how == 1 ? "simple reader" : "file" );
   rd.note( mon::attempt( [&] {
      if ( how == 0 )
      {
         imf.reset( pol == e57::ChecksumPolicy::ChecksumAll && r.chance( 1, 2 ) ? new ImageFile( mem.get(), phys.size() ) : new ImageFile( mem.get(), phys.size(), pol ) );
      }
      else if ( how == 1 )
      {
         e57::ReaderOptions opt;
         if ( pol != e57::ChecksumPolicy::ChecksumAll || r.chance( 1, 2 ) )
         {
            opt.checksumPolicy = pol;
         }
         simple.reset( new e57::Reader( path, opt ) );
         imf.reset( new ImageFile( simple->GetRawIMF() ) );
      }
      else
      {
         imf.reset( pol == e57::ChecksumPolicy::ChecksumAll && r.chance( 1, 2 ) ? new ImageFile( path, "r" ) : new ImageFile( path, "r", pol ) );
      }
   } ) );
   if ( rd.refused )
   {
      return rd;
   }
   if ( full )
   {
      // element values come from the XML section: they have been verified by now
      const Node &want = m.root;
      Node got = describe( imf->root(), false );
      MON_CHECK( got.kids.size() == want.kids.size(), "corrupt-data-returned", "children; " + desc );
      for ( size_t k = 0; k < got.kids.size(); k++ )
      {
         const Node &a = got.kids[k], &b = want.kids[k];
         MON_CHECK( a.name == b.name && a.type == b.type, "corrupt-data-returned", a.name + "; " + desc );
         if ( a.type == T::Blob )
         {
            MON_CHECK( e57::BlobNode( imf->root().get( b.name ) ).byteCount() == int64_t( b.blob.size() ), "corrupt-data-returned", "blob length; " + desc );
         }
         else if ( a.type == T::CompressedVector )
         {
            const string d = model::diff( *b.proto, *a.proto, "", false );
            MON_CHECK( a.records == b.records && d.empty(), "corrupt-data-returned", "prototype: " + d + "; " + desc );
         }
         else
         {
            const string d = model::diff( b, a );
            MON_CHECK( d.empty(), "corrupt-data-returned", d + "; " + desc );
         }
      }
   }
   vector<size_t> order;
   for ( size_t k = 0; k < m.root.kids.size(); k++ )
   {
      order.push_back( k );
   }
   for ( size_t k = order.size(); k > 1; k-- )
   {
      std::swap( order[k - 1], order[r.below( k )] );
   }
   for ( size_t k : order )
   {
      const Node &x = m.root.kids[k];
      if ( x.type == T::CompressedVector && x.records && !x.cols.empty() )
      {
         readCv( *imf, x, r, rd, desc );
      }
      if ( x.type == T::Blob )
      {
         readBlob( *imf, x, r, rd, desc );
      }
   }
   rd.note( mon::attempt( [&] {
      imf->close();
   } ) );
   return rd;
}
// every checksum-violating change of one page
static string damagePage( bytes &phys, size_t page, Rng &r )
{
   char *p = &phys[page * 1024];
   const bytes old( p, 1024 );
   string what;
   do
   {
      memcpy( p, old.data(), 1024 );
      switch ( r.below( 9 ) )
      {
         case 0:
         {
            const unsigned b = unsigned( r.below( 8192 ) );
            p[b / 8] = char( p[b / 8] ^ ( 1 << ( b % 8 ) ) );
            what = fmt( "bit %u", b );
            break;
         }
         case 1:
         {
            const size_t k = r.below( 1024 );
            p[k] = char( r.u64() );
            what = fmt( "byte %zu", k );
            break;
         }
         case 2:
         {
            const size_t k = 1020 + r.below( 4 );
            p[k] = char( p[k] + 1 + r.below( 255 ) );
            what = fmt( "checksum byte %zu", k );
            break;
         }
         case 3:
         {
            const size_t a = r.below( 1024 ), n = 1 + r.below( 1024 - a );
            for ( size_t k = a; k < a + n; k++ )
            {
               p[k] = char( r.u64() );
            }
            what = fmt( "burst %zu+%zu", a, n );
            break;
         }
         case 4:
         {
            const size_t a = r.below( 1024 ), n = 1 + r.below( 1024 - a );
            memset( p + a, r.chance( 1, 2 ) ? 0 : 0xff, n );
            what = fmt( "fill %zu+%zu", a, n );
            break;
         }
         case 5:
            memset( p, 0, 1020 ); // contents gone, checksum kept
            what = "zeroed contents";
            break;
         case 6:
            memset( p + 1020, r.chance( 1, 2 ) ? 0 : 0xff, 4 );
            what = "checksum gone";
            break;
         case 7:
         {
            const size_t a = r.below( 1020 ), b = r.below( 1020 ); // two bytes exchanged
            std::swap( p[a], p[b] );
            what = fmt( "swap %zu %zu", a, b );
            break;
         }
         default:
            std::reverse( p + 1020, p + 1024 );
            what = "checksum byte order";
      }
   } while ( memcmp( p, old.data(), 1024 ) == 0 || ref::pageOk( p ) );
   return what;
}
static void pagesOf( const ref::Section &s, size_t &from, size_t &to )
{
   from = size_t( s.start / 1020 );
   to = size_t( ( s.end - 1 ) / 1020 ) + 1;
}

// every bit of a file whose opening reads all of it, a few in each case: any one of them must make opening fail
static void everyBit( mon::Ctx &c )
{
   static const bytes whole = [&] {
      const string p = c.path( "bits.e57" );
      {
         ImageFile imf( p, "w" );
         imf.root().set( "text", e57::StringNode( imf, string( 1500, 'x' ) ) );
         imf.close();
      }
      return mon::slurp( p );
   }();
   const size_t bits = whole.size() * 8, per = 16;
   bytes x = whole;
   for ( size_t k = 0; k < per; k++ )
   {
      const size_t bit = ( size_t( c.caseNo ) * per + k + ( c.seed % 64 ) * 12007 ) % bits;
      x[bit / 8] = char( x[bit / 8] ^ ( 1 << ( bit % 8 ) ) );
      auto o = mon::attempt( [&] { ImageFile imf( x.data(), x.size() ); } );
      MON_CHECK( o.threw, "bit-undetected", fmt( "bit %zu of byte %zu of page %zu", bit % 8, bit / 8 % 1024, bit / 8 / 1024 ) );
      x[bit / 8] = whole[bit / 8];
      mon::count( "single bits refused" );
   }
}

static void run( mon::Ctx &c )
{
   everyBit( c );
   Rng &r = c.rng;
   const Made m = make( c );
   const size_t pages = m.phys.size() / 1024;
   vector<string> need( pages ); // why a page has to be read
   vector<const ref::Section *> requests;
   for ( auto &s : m.f.needed )
   {
      size_t a, b;
      pagesOf( s, a, b );
      for ( size_t p = a; p < b; p++ )
      {
         need[p] = s.what;
      }
      if ( s.what == "blob" || s.what == "data packet" )
      {
         requests.push_back( &s );
      }
   }
   // intact: every policy reads everything
   for ( int k = 0; k < 3; k++ )
   {
      const int pol = k == 0 ? r.pick( { 0, 25, 50, 100 } ) : k == 1 ? int( r.below( 101 ) ) : r.pick( { -1, 101, 1000, 1, 99, INT32_MIN, INT32_MAX, 67, 66, 33 } );
      const string desc = fmt( "intact, policy %d", pol );
      mon::note( desc );
      Reading rd = readAll( c, m, m.phys, pol, desc, true );
      MON_CHECK( !rd.refused, "intact-file-refused", rd.first + "; " + desc );
      mon::count( "intact readings" );
      mon::distinct( "policy", std::to_string( pol ) );
   }
   const unsigned n = 12;
   for ( unsigned k = 0; k < n; k++ )
   {
      // one or several pages, full verification
      bytes x = m.phys;
      const unsigned howMany = r.chance( 3, 4 ) ? 1 : 1 + unsigned( r.below( 4 ) );
      string desc = "full";
      string must;
      for ( unsigned q = 0; q < howMany; q++ )
      {
         const size_t p = r.chance( 1, 6 ) ? pages - 1 : r.chance( 1, 8 ) ? 0 : r.below( pages );
         if ( x.compare( p * 1024, 1024, m.phys, p * 1024, 1024 ) == 0 )
         {
            desc += fmt( " page %zu of %zu (%s): %s", p, pages, need[p].c_str(), damagePage( x, p, r ).c_str() );
            must += need[p];
            mon::distinct( "damaged", need[p].empty() ? "not needed" : need[p] );
         }
      }
      mon::note( desc );
      Reading rd = readAll( c, m, x, e57::ChecksumPolicy::ChecksumAll, desc, true );
      MON_CHECK( rd.refused || must.empty(), "corruption-undetected", desc );
      mon::count( rd.refused ? "corruptions refused" : "corruptions outside what is read" );
   }
   for ( unsigned k = 0; k < n / 2 && !requests.empty(); k++ )
   {
      // sampled verification: as many pages in a row as may be skipped plus one, or the last one
      const int pol = r.chance( 1, 2 ) ? int( r.pick( { 25, 50 } ) ) : 1 + int( r.below( 100 ) );
      const size_t w = size_t( ( 100 + pol - 1 ) / pol );
      const ref::Section &s = *requests[r.below( requests.size() )];
      size_t a, b;
      pagesOf( s, a, b );
      bytes x = m.phys;
      string desc = fmt( "policy %d, %s in pages %zu..%zu", pol, s.what.c_str(), a, b - 1 );
      size_t from = b - 1, to = b;
      if ( r.chance( 2, 3 ) && b - a >= w )
      {
         from = a + r.below( b - a - w + 1 );
         to = from + w;
         mon::count( "runs of damaged pages" );
      }
      else
      {
         mon::count( "damaged last pages" );
      }
      for ( size_t p = from; p < to; p++ )
      {
         // outside the header of the packet, so that nothing else can notice
         desc += fmt( " %zu", p );
         char *q = &x[p * 1024];
         do
         {
            const size_t lo = size_t( p * 1020 < s.start ? s.start % 1020 : 0 ), hi = size_t( ( p + 1 ) * 1020 > s.end ? ( s.end - 1 ) % 1020 + 1 : 1020 );
            const size_t at = r.chance( 1, 5 ) ? 1020 + r.below( 4 ) : lo + r.below( hi - lo );
            q[at] = char( q[at] ^ ( 1 << r.below( 8 ) ) );
         } while ( ref::pageOk( q ) );
      }
      mon::note( desc );
      Reading rd;
      const string path = c.path( "c06s.e57" );
      mon::spew( path, x );
      rd.note( mon::attempt( [&] {
         ImageFile imf( path, "r", pol );
         std::function<void( const e57::Node & )> walk = [&]( const e57::Node &nd ) {
            if ( nd.type() == e57::TypeStructure )
            {
               e57::StructureNode sn( nd );
               for ( int64_t q = 0; q < sn.childCount(); q++ )
               {
                  walk( sn.get( q ) );
               }
            }
            if ( nd.type() == e57::TypeBlob )
            {
               e57::BlobNode bn( nd );
               if ( bn.byteCount() )
               {
                  bytes got( size_t( bn.byteCount() ), 0 );
                  bn.read( reinterpret_cast<uint8_t *>( &got[0] ), 0, got.size() );
               }
            }
            if ( nd.type() == e57::TypeCompressedVector )
            {
               Node d = describe( nd, false );
               if ( d.records )
               {
                  readRecords( imf, e57::CompressedVectorNode( nd ), d );
               }
            }
         };
         walk( imf.root() );
         imf.close();
      } ) );
      MON_CHECK( rd.refused, "sampled-corruption-undetected", desc );
      mon::count( "sampled corruptions refused" );
   }
   for ( unsigned k = 0; k < n / 3; k++ )
   {
      // length changed
      bytes x = m.phys;
      string desc;
      switch ( r.below( 5 ) )
      {
         case 0:
            x.resize( r.below( x.size() ) );
            desc = "truncated";
            break;
         case 1:
            x.resize( r.below( pages ) * 1024 );
            desc = "truncated to whole pages";
            break;
         case 2:
            x.append( 1 + r.below( 3000 ), char( r.u64() ) );
            desc = "extended";
            break;
         case 3:
            for ( size_t q = 1 + r.below( 4 ); q > 0; q-- )
            {
               x += m.phys.substr( r.below( pages ) * 1024, 1024 ); // pages with right checksums
            }
            desc = "extended by valid pages";
            break;
         default:
            x += m.phys;
            desc = "doubled";
      }
      const int pol = int( r.pick( { 0, 25, 50, 100 } ) );
      desc += fmt( " from %zu to %zu bytes, policy %d", m.phys.size(), x.size(), pol );
      mon::note( desc );
      Reading rd = readAll( c, m, x, pol, desc, false );
      MON_CHECK( rd.refused, "length-change-undetected", desc );
      mon::count( "length changes refused" );
   }
   mon::distinct( "case", fmt( "%zu:%zu:%zu", pages, m.f.needed.size(), requests.size() ) );
   mon::sample( fmt( "case %ld: %zu pages, %zu needed extents", c.caseNo, pages, m.f.needed.size() ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C06";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
