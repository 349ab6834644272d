// C07: malformed or hostile files are rejected safely.
#include "ref.h"
#include "simple.h"
#include <atomic>
#include <poll.h>
#include <sys/inotify.h>
#include <unistd.h>
#if defined( __SANITIZE_ADDRESS__ )
extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( * )( const volatile void *, size_t ), void ( * )( const volatile void * ) );
extern "C" size_t __sanitizer_get_allocated_size( const volatile void * );
#endif
using namespace api;

// ------------------------------------------------------------------ meters
// live and largest allocations of the whole process, Xerces included
static std::atomic<int64_t> gLive{ 0 }, gPeak{ 0 }, gLargest{ 0 };
static std::atomic<uint64_t> gCalls{ 0 };
#if defined( __SANITIZE_ADDRESS__ )
static void onMalloc( const volatile void *, size_t n )
{
   const int64_t l = gLive += int64_t( n );
   gCalls++;
   if ( l > gPeak )
   {
      gPeak = l;
   }
   if ( int64_t( n ) > gLargest )
   {
      gLargest = int64_t( n );
   }
}
static void onFree( const volatile void *p )
{
   if ( p )
   {
      gLive -= int64_t( __sanitizer_get_allocated_size( p ) );
   }
}
static void meterOn()
{
   static const bool on = __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree ) > 0;
   if ( !on )
   {
      mon::fail( "harness", "no allocation hooks" );
   }
}
#else
static void meterOn()
{
}
#endif

// tells whether any of the bait files beside the file under test was opened
struct Bait
{
   int fd = -1;
   string dir, word;
   explicit Bait( mon::Ctx &c ) : dir( c.path( "bait" ) ), word( fmt( "BAIT%016" PRIx64, c.rng.u64() ) )
   {
      if ( system( ( "mkdir -p '" + dir + "'" ).c_str() ) )
      {
         mon::fail( "harness", "mkdir" );
      }
      mon::spew( dir + "/secret.txt", word );
      mon::spew( dir + "/bait.dtd", "<!ENTITY fromdtd \"" + word + "\">" );
      mon::spew( dir + "/bait.xsd",
                 "<?xml version=\"1.0\"?><xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" "
                 "targetNamespace=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"><xs:element name=\"e57Root\" type=\"xs:anyType\"/></xs:schema>" );
      fd = inotify_init1( IN_NONBLOCK | IN_CLOEXEC );
      if ( fd >= 0 && inotify_add_watch( fd, dir.c_str(), IN_OPEN | IN_ACCESS ) < 0 )
      {
         close( fd );
         fd = -1;
      }
      if ( fd >= 0 )
      {
         mon::count( "bait directories watched" );
      }
   }
   bool taken()
   {
      if ( fd < 0 )
      {
         return false;
      }
      char b[4096];
      bool any = false;
      while ( read( fd, b, sizeof b ) > 0 )
      {
         any = true;
      }
      return any;
   }
   ~Bait()
   {
      if ( fd >= 0 )
      {
         close( fd );
      }
   }
};

// ------------------------------------------------------------------ exercise
struct Hostile
{
   mon::Ctx &c;
   Rng &r;
   Bait &bait;
   string desc;
   unsigned nodes = 0, refusals = 0, deepest = 0;
   bool opened = false;
   uint64_t records = 0;

   // a call which may fail with a library exception, and with nothing else
   template <class F> bool ok( F f )
   {
      auto o = mon::attempt( f );
      mon::count( "calls on hostile files" );
      if ( o.threw )
      {
         refusals++;
         mon::distinct( "refusal", e57::Utilities::errorCodeToString( o.code ) + ":" + o.where );
         MON_CHECK( o.code != e57::Success, "exception-without-error-code", o.str() + "; " + desc );
      }
      return !o.threw;
   }
   void text( const string &s )
   {
      MON_CHECK( s.find( bait.word ) == string::npos, "other-file-disclosed", desc );
   }
   void blob( e57::BlobNode b )
   {
      int64_t n = 0;
      ok( [&] { n = b.byteCount(); } );
      for ( unsigned k = 0; k < 4; k++ )
      {
         const size_t len = 1 + r.below( r.chance( 1, 2 ) ? 65536 : 300 );
         int64_t at = 0;
         switch ( r.below( 5 ) )
         {
            case 0:
               break;
            case 1:
               at = int64_t( uint64_t( n ) - len ); // up to the end
               break;
            case 2:
               at = n; // right behind it
               break;
            case 3:
               at = int64_t( r.u64() >> r.below( 64 ) );
               break;
            default:
               at = n > 0 ? int64_t( r.below( uint64_t( n ) ) ) : -1;
         }
         const size_t want = k == 0 && n > 0 ? size_t( std::min<uint64_t>( uint64_t( n ), 65536 ) ) : len;
         std::unique_ptr<uint8_t[]> mem( new uint8_t[want] );
         ok( [&] { b.read( mem.get(), k == 0 ? 0 : at, want ); } );
      }
   }
   struct Field
   {
      string path;
      e57::NodeType type;
      bool single;
   };
   void fields( const e57::Node &n, const string &at, vector<Field> &out )
   {
      if ( out.size() > 200 )
      {
         return;
      }
      switch ( n.type() )
      {
         case e57::TypeStructure:
         {
            e57::StructureNode s( n );
            for ( int64_t k = 0; k < s.childCount(); k++ )
            {
               const e57::Node kid = s.get( k );
               fields( kid, ( at.empty() ? "" : at + "/" ) + kid.elementName(), out );
            }
            break;
         }
         case e57::TypeVector:
         {
            e57::VectorNode s( n );
            for ( int64_t k = 0; k < s.childCount(); k++ )
            {
               fields( s.get( k ), ( at.empty() ? "" : at + "/" ) + fmt( "%" PRId64, k ), out );
            }
            break;
         }
         case e57::TypeFloat:
            out.push_back( { at, n.type(), e57::FloatNode( n ).precision() == e57::PrecisionSingle } );
            break;
         default:
            out.push_back( { at, n.type(), false } );
      }
   }
   void points( const ImageFile &imf, e57::CompressedVectorNode cv )
   {
      vector<Field> f;
      if ( !ok( [&] { fields( cv.prototype(), "", f ); } ) )
      {
         return;
      }
      if ( f.size() > 40 || ( f.size() > 1 && r.chance( 1, 4 ) ) )
      {
         for ( size_t k = f.size(); k > 1; k-- )
         {
            std::swap( f[k - 1], f[r.below( k )] );
         }
         f.resize( 1 + r.below( std::min<size_t>( f.size(), 40 ) ) );
      }
      const size_t cap = r.chance( 1, 3 ) ? 1 + r.below( 5 ) : 1 + r.below( 1000 );
      vector<std::unique_ptr<Buf>> bufs;
      vector<e57::SourceDestBuffer> sdbs;
      const bool odd = r.chance( 1, 3 );
      if ( !ok( [&] {
              for ( auto &x : f )
              {
                 Mem m = x.type == e57::TypeString ? STR : x.type == e57::TypeFloat ? ( x.single ? F32 : F64 ) : I64;
                 bool conv = r.chance( 1, 2 ), scal = false;
                 if ( odd && m != STR )
                 {
                    m = r.pick( vector<Mem>{ I8, U8, I16, U16, I32, U32, I64, BOOL, F32, F64 } );
                    scal = r.chance( 1, 2 );
                 }
                 else if ( odd && r.chance( 1, 10 ) )
                 {
                    m = F64;
                 }
                 bufs.emplace_back( new Buf( m, cap, 1 + r.below( 2 ), conv, scal ) );
                 sdbs.push_back( bufs.back()->sdb( imf, x.path ) );
              }
           } ) )
      {
         return;
      }
      ok( [&] {
         e57::CompressedVectorReader rd = cv.reader( sdbs );
         rd.checkInvariant();
         for ( unsigned k = 0; k < 60; k++ )
         {
            const unsigned got = rd.read();
            MON_CHECK( got <= cap, "more-records-than-room", fmt( "%u of %zu; ", got, cap ) + desc );
            records += got;
            mon::count( "records read from hostile files", got );
            if ( got == 0 )
            {
               break;
            }
         }
         for ( auto &b : bufs )
         {
            for ( auto &s : b->strs )
            {
               text( s );
            }
         }
         rd.close();
      } );
   }
   void walk( const ImageFile &imf, e57::Node n, unsigned depth )
   {
      if ( nodes++ > 3000 || depth > 2000 )
      {
         return;
      }
      deepest = std::max( deepest, depth );
      ok( [&] {
         if ( nodes < 200 )
         {
            text( n.elementName() );
            text( n.pathName() );
            n.isRoot();
            n.isAttached();
            n.parent();
            n.checkInvariant( false );
         }
      } );
      switch ( n.type() )
      {
         case e57::TypeStructure:
         {
            e57::StructureNode s( n );
            int64_t kids = 0;
            ok( [&] { kids = s.childCount(); } );
            for ( int64_t k = 0; k < kids; k++ )
            {
               ok( [&] { walk( imf, s.get( k ), depth + 1 ); } );
            }
            ok( [&] { s.get( kids ); } );
            break;
         }
         case e57::TypeVector:
         {
            e57::VectorNode s( n );
            int64_t kids = 0;
            ok( [&] {
               kids = s.childCount();
               s.allowHeteroChildren();
            } );
            for ( int64_t k = 0; k < kids; k++ )
            {
               ok( [&] { walk( imf, s.get( k ), depth + 1 ); } );
            }
            ok( [&] { s.get( -1 ); } );
            break;
         }
         case e57::TypeInteger:
            ok( [&] {
               e57::IntegerNode s( n );
               s.value();
               s.minimum();
               s.maximum();
               s.checkInvariant();
            } );
            break;
         case e57::TypeScaledInteger:
            ok( [&] {
               e57::ScaledIntegerNode s( n );
               s.rawValue();
               s.scaledValue();
               s.scaledMinimum();
               s.scaledMaximum();
               s.checkInvariant();
            } );
            break;
         case e57::TypeFloat:
            ok( [&] {
               e57::FloatNode s( n );
               s.value();
               s.minimum();
               s.maximum();
               s.checkInvariant();
            } );
            break;
         case e57::TypeString:
            ok( [&] { text( e57::StringNode( n ).value() ); } );
            break;
         case e57::TypeBlob:
            blob( e57::BlobNode( n ) );
            break;
         case e57::TypeCompressedVector:
         {
            e57::CompressedVectorNode cv( n );
            ok( [&] { cv.childCount(); } );
            ok( [&] { walk( imf, cv.prototype(), depth + 1 ); } );
            ok( [&] { walk( imf, cv.codecs(), depth + 1 ); } );
            ok( [&] { cv.checkInvariant(); } );
            points( imf, cv );
            if ( r.chance( 1, 3 ) )
            {
               points( imf, cv );
            }
            break;
         }
      }
   }
   template <class D> void scanPoints( e57::Reader &rd, int64_t k, const e57::Data3D &h )
   {
      simple::Scan s;
      const size_t cap = 1 + r.below( 300 );
      auto fields = h.pointFields;
      if ( r.chance( 1, 5 ) )
      {
         fields.intensityField = fields.colorRedField = fields.colorGreenField = fields.colorBlueField = fields.cartesianXField = true;
      }
      simple::Bufs<D> b( s, fields, cap );
      ok( [&] {
         e57::CompressedVectorReader v = rd.SetUpData3DPointsData( k, cap, b.p );
         for ( unsigned q = 0; q < 40; q++ )
         {
            const unsigned got = v.read();
            MON_CHECK( got <= cap, "more-records-than-room", desc );
            records += got;
            mon::count( "records read from hostile files", got );
            if ( !got )
            {
               break;
            }
         }
         v.close();
      } );
   }
   void simpleReader( e57::Reader &rd )
   {
      ok( [&] {
         e57::E57Root h;
         rd.GetE57Root( h );
         text( h.guid );
      } );
      int64_t scans = 0, images = 0;
      ok( [&] { scans = rd.GetData3DCount(); } );
      ok( [&] { images = rd.GetImage2DCount(); } );
      for ( int64_t k = -1; k < std::min<int64_t>( scans, 6 ) + 1; k++ )
      {
         e57::Data3D h;
         ok( [&] {
            rd.ReadData3D( k, h );
            text( h.name );
         } );
         int64_t a = 0, b = 0, cnt = 0, grp = 0, per = 0;
         bool col = false;
         ok( [&] { rd.GetData3DSizes( k, a, b, cnt, grp, per, col ); } );
         const size_t room = 1 + r.below( 300 );
         vector<int64_t> g1( room ), g2( room ), g3( room );
         g1.shrink_to_fit();
         ok( [&] { rd.ReadData3DGroupsData( k, room, g1.data(), g2.data(), g3.data() ); } );
         if ( k >= 0 && k < scans )
         {
            scanPoints<float>( rd, k, h );
            scanPoints<double>( rd, k, h );
            mon::count( "hostile scans read" );
         }
      }
      for ( int64_t k = -1; k < std::min<int64_t>( images, 6 ) + 1; k++ )
      {
         e57::Image2D h;
         ok( [&] {
            rd.ReadImage2D( k, h );
            text( h.name );
         } );
         e57::Image2DProjection proj = e57::ProjectionNone;
         e57::Image2DType type = e57::ImageNone, mask = e57::ImageNone, vis = e57::ImageNone;
         int64_t w = 0, hgt = 0, size = 0;
         ok( [&] { rd.GetImage2DSizes( k, proj, type, w, hgt, size, mask, vis ); } );
         for ( auto p : { e57::ProjectionNone, e57::ProjectionVisual, e57::ProjectionPinhole, e57::ProjectionSpherical, e57::ProjectionCylindrical } )
         {
            for ( auto t : { e57::ImageNone, e57::ImageJPEG, e57::ImagePNG, e57::ImageMaskPNG } )
            {
               if ( p != proj && !r.chance( 1, 8 ) )
               {
                  continue;
               }
               const size_t len = size > 0 && size < 65536 && r.chance( 1, 2 ) ? size_t( size ) : 1 + r.below( 3000 );
               std::unique_ptr<uint8_t[]> mem( new uint8_t[len] );
               const int64_t at = r.chance( 1, 2 ) ? 0 : r.chance( 1, 2 ) ? int64_t( uint64_t( size ) - r.below( len + 3 ) ) : int64_t( r.u64() >> r.below( 64 ) );
               ok( [&] { rd.ReadImage2DData( k, p, t, mem.get(), at, len ); } );
            }
         }
         mon::count( "hostile images read", k >= 0 && k < images );
      }
   }
   void run( const bytes &phys )
   {
      meterOn();
      const string path = c.path( "c07.e57" );
      mon::note( desc + fmt( " (%zu bytes)", phys.size() ) );
      const int policy = r.chance( 2, 5 ) ? 100 : r.pick( vector<int>{ 0, 0, 25, 50, 100, 1, 99, -5, 1000, 67 } );
      const unsigned how = unsigned( r.below( 4 ) );
      bait.taken();
      gLargest = 0;
      const int64_t base = gLive;
      gPeak = base;
      {
         std::unique_ptr<char[]> mem;
         std::unique_ptr<ImageFile> imf;
         std::unique_ptr<e57::Reader> simple;
         if ( how == 0 )
         {
            mem.reset( new char[phys.size()] );
            memcpy( mem.get(), phys.data(), phys.size() );
            ok( [&] {
               imf.reset( new ImageFile( mem.get(), phys.size(), policy ) );
               opened = true;
            } );
         }
         else
         {
            mon::spew( path, phys );
            if ( how == 1 )
            {
               ok( [&] {
                  imf.reset( new ImageFile( path, "r", policy ) );
                  opened = true;
               } );
            }
            else
            {
               ok( [&] {
                  simple.reset( new e57::Reader( path, { policy } ) );
                  opened = true;
               } );
            }
         }
         if ( simple )
         {
            simpleReader( *simple );
            imf.reset( new ImageFile( simple->GetRawIMF() ) );
         }
         if ( imf )
         {
            size_t ext = 0;
            ok( [&] { ext = imf->extensionsCount(); } );
            for ( size_t k = 0; k < ext; k++ )
            {
               ok( [&] {
                  text( imf->extensionsPrefix( k ) );
                  text( imf->extensionsUri( k ) );
               } );
            }
            ok( [&] { walk( *imf, imf->root(), 0 ); } );
            ok( [&] {
               const e57::StructureNode root = imf->root();
               root.isDefined( "/data3D/0/points" );
               root.isDefined( "/images2D/0" );
               if ( deepest < 60 && nodes < 1000 )
               {
                  root.checkInvariant( true ); // looks up the path of each element from the top
               }
            } );
            if ( r.chance( 1, 2 ) )
            {
               ok( [&] { imf->close(); } );
            }
         }
         if ( simple && r.chance( 1, 2 ) )
         {
            imf.reset();
            ok( [&] { simple->Close(); } );
         }
      }
      const int64_t peak = gPeak - base, largest = gLargest;
      const int64_t room = ( 48 << 20 ) + 300 * int64_t( phys.size() );
      MON_CHECK( peak <= room, "memory-out-of-proportion", fmt( "%" PRId64 " bytes live for an input of %zu; %s", peak, phys.size(), desc.c_str() ) );
      MON_CHECK( largest <= room / 3, "allocation-out-of-proportion", fmt( "%" PRId64 " bytes at once for an input of %zu; %s", largest, phys.size(), desc.c_str() ) );
      MON_CHECK( !bait.taken(), "other-file-opened", desc );
      mon::distinct( "peak memory (MiB)", fmt( "%" PRId64, peak >> 20 ) );
      mon::count( opened ? "hostile files opened" : "hostile files refused at once" );
   }
};

// ------------------------------------------------------------------ mutation
static string number( Rng &r, const string &old )
{
   static const char *odd[] = { "0", "-1", "1", "2", "7", "255", "256", "-128", "65535", "65536", "2147483647", "-2147483648", "4294967295", "4294967296",
                                "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "99999999999999999999999",
                                "9223372036854775806", "-9223372036854775807", "4611686018427387904", "", " ", "abc", "1e308", "1e309", "-1e309", "nan", "inf", "-inf",
                                "1e-320", "0x10", "1,5", "3.5", "+5", "--5", "1 2", "48", "44", "47", "1020", "1023", "1024", "1016", "1e19", "-1e19", "9.3e18", "NAN(123)", "infinity" };
   if ( r.chance( 1, 3 ) )
   {
      // near the number which is there
      const int64_t v = strtoll( old.c_str(), nullptr, 10 );
      static const int64_t step[] = { 1, -1, 2, 3, 4, -4, 16, 1020, 1024, -1024, 32, 8, 100 };
      return fmt( "%" PRId64, int64_t( uint64_t( v ) + uint64_t( r.pick( step ) ) ) );
   }
   if ( r.chance( 1, 8 ) )
   {
      return fmt( "%" PRId64, int64_t( r.u64() >> r.below( 64 ) ) * ( r.chance( 1, 2 ) ? 1 : -1 ) );
   }
   return r.pick( odd );
}
struct Xml
{
   string t;
   Rng &r;
   string log;
   const Bait &bait;
   struct El
   {
      size_t a, b, ia, ib; // element and its content
      string name;
   };
   vector<El> els;
   void scan()
   {
      els.clear();
      vector<size_t> open;
      size_t p = 0;
      while ( ( p = t.find( '<', p ) ) != string::npos )
      {
         if ( t.compare( p, 4, "<!--" ) == 0 )
         {
            p = t.find( "-->", p );
            if ( p == string::npos )
            {
               break;
            }
            continue;
         }
         if ( t.compare( p, 9, "<![CDATA[" ) == 0 )
         {
            p = t.find( "]]>", p );
            if ( p == string::npos )
            {
               break;
            }
            continue;
         }
         const size_t e = t.find( '>', p );
         if ( e == string::npos )
         {
            break;
         }
         if ( t[p + 1] == '/' )
         {
            if ( !open.empty() )
            {
               els[open.back()].ib = p;
               els[open.back()].b = e + 1;
               open.pop_back();
            }
         }
         else if ( t[p + 1] != '?' && t[p + 1] != '!' )
         {
            El x;
            x.a = p;
            x.b = x.ia = x.ib = e + 1;
            x.name = t.substr( p + 1, t.find_first_of( " \t\r\n/>", p + 1 ) - p - 1 );
            els.push_back( x );
            if ( t[e - 1] != '/' )
            {
               open.push_back( els.size() - 1 );
            }
         }
         p = e + 1;
      }
   }
   // name="value" pairs within tags
   struct At
   {
      size_t a, va, vb;
      string name;
   };
   vector<At> attrs()
   {
      vector<At> out;
      for ( auto &e : els )
      {
         size_t p = e.a + 1 + e.name.size();
         while ( p < e.ia )
         {
            const size_t eq = t.find( '=', p );
            if ( eq == string::npos || eq >= e.ia )
            {
               break;
            }
            const size_t q = t.find_first_of( "'\"", eq );
            if ( q == string::npos || q >= e.ia )
            {
               break;
            }
            const size_t z = t.find( t[q], q + 1 );
            if ( z == string::npos || z >= e.ia )
            {
               break;
            }
            At x;
            x.a = t.find_last_of( " \t\r\n", eq - 1 );
            if ( x.a == string::npos || x.a < e.a )
            {
               break;
            }
            x.name = t.substr( x.a + 1, eq - x.a - 1 );
            x.va = q + 1;
            x.vb = z;
            out.push_back( x );
            p = z + 1;
         }
      }
      return out;
   }
   // half of the time one of the elements with a meaning of its own
   const El &important()
   {
      vector<size_t> k;
      if ( r.chance( 1, 2 ) )
      {
         for ( size_t q = 0; q < els.size(); q++ )
         {
            for ( const char *n : { "prototype", "codecs", "points", "groups", "idElementName", "idElementValue", "Minimum", "Maximum", "Representation", "Image", "guid", "rotation",
                                    "w", "isAtomicClockReferenced", "imageWidth", "pixelWidth" } )
            {
               if ( els[q].name.size() >= strlen( n ) && els[q].name.compare( els[q].name.size() - strlen( n ), string::npos, n ) == 0 )
               {
                  k.push_back( q );
                  break;
               }
            }
         }
      }
      return k.empty() ? r.pick( els ) : els[r.pick( k )];
   }
   void one()
   {
      scan();
      auto at = attrs();
      if ( els.empty() || at.empty() )
      {
         bytesOnly();
         return;
      }
      switch ( r.below( 22 ) )
      {
         case 0:
         case 1:
         case 2:
         case 3:
         case 4:
         {
            // numbers
            vector<At> num;
            for ( auto &a : at )
            {
               if ( a.name != "type" && a.name.compare( 0, 5, "xmlns" ) )
               {
                  num.push_back( a );
               }
            }
            if ( num.empty() )
            {
               break;
            }
            const At &a = r.pick( num );
            const string v = number( r, t.substr( a.va, a.vb - a.va ) );
            log += fmt( " @%s=%s", a.name.c_str(), v.c_str() );
            t.replace( a.va, a.vb - a.va, v );
            break;
         }
         case 5:
         case 6:
         {
            vector<At> ty;
            for ( auto &a : at )
            {
               if ( a.name == "type" )
               {
                  ty.push_back( a );
               }
            }
            if ( ty.empty() )
            {
               break;
            }
            const At &a = r.pick( ty );
            const char *v = r.pick( { "Structure", "Vector", "CompressedVector", "Integer", "ScaledInteger", "Float", "String", "Blob", "Bogus", "" } );
            log += fmt( " type %s->%s", t.substr( a.va, a.vb - a.va ).c_str(), v );
            t.replace( a.va, a.vb - a.va, v );
            if ( r.chance( 1, 2 ) )
            {
               t.insert( a.vb - ( a.vb - a.va ) + strlen( v ) + 1, " fileOffset=\"48\" length=\"20\" recordCount=\"3\"" );
            }
            break;
         }
         case 7:
         {
            const At &a = r.pick( at );
            log += " -@" + a.name;
            t.erase( a.a, a.vb + 1 - a.a );
            break;
         }
         case 8:
         {
            const At &a = r.pick( at );
            const string n = r.pick( { string( "minimum" ), string( "maximum" ), string( "scale" ), string( "offset" ), string( "precision" ), string( "allowHeterogeneousChildren" ),
                                       string( "fileOffset" ), string( "length" ), string( "recordCount" ), string( "xmlns" ), string( "xmlns:q" ), string( "type" ) } );
            const string v = number( r, "5" );
            log += " +@" + n + "=" + v;
            t.insert( a.a, " " + n + "=\"" + v + "\"" );
            break;
         }
         case 9:
         {
            const El &e = important();
            log += " -<" + e.name;
            t.erase( e.a, e.b - e.a );
            break;
         }
         case 10:
         {
            const El &e = r.pick( els );
            const El &to = r.pick( els );
            const string x = t.substr( e.a, std::min<size_t>( e.b - e.a, 20000 ) );
            log += " copy <" + e.name + " into <" + to.name;
            t.insert( r.chance( 1, 2 ) ? to.ia : to.b, x );
            break;
         }
         case 11:
         {
            // wrap
            const El e = r.pick( els );
            const unsigned n = r.chance( 1, 4 ) ? 100 + unsigned( r.below( 400 ) ) : 1 + unsigned( r.below( 5 ) );
            const bool vec = r.chance( 1, 3 );
            string o, z;
            for ( unsigned k = 0; k < n; k++ )
            {
               o += vec ? "<w type='Vector' allowHeterogeneousChildren='1'>" : "<w type='Structure'>";
               z += "</w>";
            }
            log += fmt( " wrap <%s %u", e.name.c_str(), n );
            t.insert( e.b, z );
            t.insert( e.a, o );
            break;
         }
         case 12:
         case 13:
         {
            // text of an element
            const El e = r.pick( els );
            string v;
            switch ( r.below( 8 ) )
            {
               case 0:
                  v = "text";
                  break;
               case 1:
                  v = "&undefined;";
                  break;
               case 2:
                  v = "<![CDATA[" + number( r, "1" ) + "]]>";
                  break;
               case 3:
                  v = "&#0;&#xFFFF;&#55555555;";
                  break;
               case 4:
                  v = "\xff\xfe\xc0\x80";
                  break;
               case 5:
                  v = string( 1 + r.below( 30000 ), '7' );
                  break;
               case 6:
                  v = "<?pi x?><!-- y -->";
                  break;
               default:
                  v = number( r, t.substr( e.ia, std::min<size_t>( e.ib - e.ia, 30 ) ) );
            }
            log += fmt( " text of <%s %s", e.name.c_str(), mon::quote( v.substr( 0, 30 ) ).c_str() );
            if ( t[e.ia - 2] == '/' )
            {
               t.replace( e.ia - 2, 2, ">" + v + "</" + e.name + ">" );
            }
            else if ( r.chance( 1, 2 ) )
            {
               t.replace( e.ia, e.ib - e.ia, v );
            }
            else
            {
               t.insert( e.ia, v );
            }
            break;
         }
         case 14:
         {
            // rename
            const El e = r.pick( els );
            const string n = r.pick( { string( "vectorChild" ), string( "prototype" ), string( "codecs" ), string( "points" ), string( "data3D" ), string( "images2D" ), string( "e57Root" ),
                                       string( "x:y" ), string( "pose" ), string( "a.b-c" ), string( "\xc3\xa9" ), string( 5000, 'n' ), string( "intensity" ), string( "colorRed" ),
                                       string( "intensityLimits" ), string( "cartesianX" ), string( "pinholeRepresentation" ), string( "jpegImage" ), string( "pngImage" ) } );
            log += " <" + e.name + " -> <" + n.substr( 0, 30 );
            if ( e.ib > e.ia || ( e.b > e.ib ) )
            {
               t.replace( e.ib + 2, e.name.size(), n );
            }
            t.replace( e.a + 1, e.name.size(), n );
            break;
         }
         case 15:
         {
            // swap two attribute values
            const At a = r.pick( at ), b = r.pick( at );
            if ( a.va < b.va )
            {
               const string x = t.substr( a.va, a.vb - a.va ), y = t.substr( b.va, b.vb - b.va );
               log += " swap @" + a.name + " @" + b.name;
               t.replace( b.va, b.vb - b.va, x );
               t.replace( a.va, a.vb - a.va, y );
            }
            break;
         }
         case 16:
            prolog();
            break;
         case 17:
         {
            // many siblings
            const El e = r.pick( els );
            const unsigned n = 50 + unsigned( r.below( 300 ) );
            const bool same = r.chance( 1, 2 );
            string o;
            for ( unsigned k = 0; k < n; k++ )
            {
               o += same ? "<s type='Integer'/>" : fmt( "<s%u type='String'/>", k );
            }
            log += fmt( " %u siblings in <%s", n, e.name.c_str() );
            t.insert( e.ia, o );
            break;
         }
         case 18:
         {
            const char *h = r.pick( { "<?xml version='1.1'?>", "<?xml version='1.0' encoding='UTF-16'?>", "<?xml version='1.0' encoding='bogus'?>", "<?xml version='9.9'?>",
                                      "<?xml?>", "\xef\xbb\xbf<?xml version='1.0'?>", "<?xml version='1.0' encoding='ISO-8859-1'?>", "<?xml version='1.0' standalone='maybe'?>",
                                      "<?xml version='1.0' encoding='UCS-4'?>", "<?xml version='1.0' encoding='EBCDIC-CP-US'?>" } );
            const size_t e = t.compare( 0, 5, "<?xml" ) == 0 ? t.find( "?>" ) + 2 : 0;
            log += string( " declaration " ) + h;
            t.replace( 0, e, h );
            break;
         }
         case 19:
            t.resize( r.below( t.size() + 1 ) );
            log += fmt( " XML cut at %zu", t.size() );
            break;
         case 20:
         {
            // a point field more or less: removed, copied or exchanged within the prototype
            vector<El> in;
            for ( auto &p : els )
            {
               if ( p.name == "prototype" )
               {
                  for ( auto &e : els )
                  {
                     if ( e.a >= p.ia && e.b <= p.ib )
                     {
                        in.push_back( e );
                     }
                  }
               }
            }
            if ( in.empty() )
            {
               break;
            }
            const El e = r.pick( in );
            log += " prototype <" + e.name;
            if ( r.chance( 1, 2 ) )
            {
               t.erase( e.a, e.b - e.a );
            }
            else
            {
               t.insert( e.b, r.pick( { string( "<extra type='Integer' minimum='0' maximum='0'/>" ), string( "<extra type='Integer'/>" ), string( "<extra type='String'/>" ),
                                        string( "<extra type='Blob' fileOffset='48' length='4'/>" ), string( "<extra type='Structure'/>" ),
                                        string( "<extra type='Float' precision='single'/>" ),
                                        string( "<extra type='CompressedVector' fileOffset='48' recordCount='1'><prototype type='Integer'/><codecs type='Vector' allowHeterogeneousChildren='1'/></extra>" ) } ) );
            }
            break;
         }
         default:
            bytesOnly();
      }
   }
   void bytesOnly()
   {
      const unsigned n = 1 + unsigned( r.below( 4 ) );
      for ( unsigned k = 0; k < n && !t.empty(); k++ )
      {
         const size_t p = r.below( t.size() );
         switch ( r.below( 4 ) )
         {
            case 0:
               t[p] = char( r.u64() );
               break;
            case 1:
               t[p] = r.pick( { '<', '>', '&', '"', '\'', '/', ' ', '\0', '=', ']' } );
               break;
            case 2:
               t.erase( p, 1 + r.below( 40 ) );
               break;
            default:
               t.insert( p, t.substr( r.below( t.size() ), r.below( 200 ) ) );
         }
         log += fmt( " byte %zu", p );
      }
   }
   void prolog()
   {
      string d, use = "&e;";
      bool content = true;
      switch ( r.below( 9 ) )
      {
         case 0:
            d = "<!DOCTYPE e57Root [<!ENTITY e \"5\">]>";
            break;
         case 1:
            d = "<!DOCTYPE e57Root [<!ENTITY e SYSTEM \"file://" + bait.dir + "/secret.txt\">]>";
            break;
         case 2:
            d = "<!DOCTYPE e57Root [<!ENTITY e SYSTEM \"" + bait.dir + "/secret.txt\">]>";
            break;
         case 3:
            d = "<!DOCTYPE e57Root SYSTEM \"" + bait.dir + "/bait.dtd\">";
            use = "&fromdtd;";
            break;
         case 4:
            d = "<!DOCTYPE e57Root [<!ENTITY % p SYSTEM \"" + bait.dir + "/bait.dtd\">%p;]>";
            use = "&fromdtd;";
            break;
         case 5:
         {
            // each entity stands for several of the one before
            const unsigned levels = 2 + unsigned( r.below( 11 ) ), each = 2 + unsigned( r.below( 9 ) );
            d = "<!DOCTYPE e57Root [<!ENTITY e0 \"0123456789\">";
            for ( unsigned k = 1; k <= levels; k++ )
            {
               d += fmt( "<!ENTITY e%u \"", k );
               for ( unsigned q = 0; q < each; q++ )
               {
                  d += fmt( "&e%u;", k - 1 );
               }
               d += "\">";
            }
            d += "]>";
            use = fmt( "&e%u;", levels );
            mon::count( "entity bombs" );
            break;
         }
         case 6:
            d = "<!DOCTYPE e57Root [<!ENTITY e \"&f;\"><!ENTITY f \"&e;\">]>";
            break;
         case 7:
            content = false;
            scan();
            if ( !els.empty() )
            {
               t.insert( els[0].a + 1 + els[0].name.size(),
                         " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0 " + bait.dir + "/bait.xsd\"" );
            }
            break;
         default:
            d = "<!DOCTYPE e57Root [<!ELEMENT e57Root ANY><!ATTLIST e57Root type CDATA \"Structure\" xmlns CDATA \"x\">]>";
            content = false;
      }
      const size_t e = t.compare( 0, 5, "<?xml" ) == 0 ? t.find( "?>" ) + 2 : 0;
      log += " " + ( d.empty() ? string( "schemaLocation" ) : d.substr( 0, 60 ) );
      t.insert( e, d );
      if ( content )
      {
         scan();
         // inside an element which may have text
         for ( unsigned k = 0; k < 50; k++ )
         {
            const El &x = r.pick( els );
            if ( x.b > x.ib && ( k > 40 || t.substr( x.a, x.ia - x.a ).find( "String" ) != string::npos ) )
            {
               t.insert( x.ia, use );
               break;
            }
         }
      }
      mon::count( "documents with declarations" );
   }
};

// XML replaced: the new text goes to the end
static void setXml( bytes &log, const string &xml, Rng &r, string &d )
{
   log.append( ( 4 - log.size() % 4 ) % 4, 0 );
   const uint64_t at = log.size();
   log += xml;
   ref::wrAt<uint64_t>( log, 24, ref::toPhys( at ) );
   uint64_t len = xml.size();
   if ( r.chance( 1, 20 ) )
   {
      len = r.pick( { uint64_t( 0 ), uint64_t( 1 ), len + 1, len + 5000, UINT64_MAX, uint64_t( INT64_MAX ), len * 1000000, len - 1 } );
      d += fmt( " XML length %" PRIu64, len );
   }
   ref::wrAt<uint64_t>( log, 32, len );
   ref::wrAt<uint64_t>( log, 16, ( log.size() + 1019 ) / 1020 * 1024 );
}
// one field of a binary structure
template <class I> static void field( bytes &o, size_t at, const char *name, Rng &r, string &d )
{
   if ( at + sizeof( I ) > o.size() )
   {
      return;
   }
   const I old = ref::rd<I>( o, at );
   I v;
   switch ( r.below( 5 ) )
   {
      case 0:
         v = I( old + r.pick( { 1, -1, 2, 4, -4, 8, 16, 1024, -1024 } ) );
         break;
      case 1:
         v = I( 0 );
         break;
      case 2:
         v = I( ~I( 0 ) >> r.below( 8 * sizeof( I ) ) );
         break;
      case 3:
         v = I( r.u64() >> r.below( 64 ) );
         break;
      default:
         v = I( old ^ ( I( 1 ) << r.below( 8 * sizeof( I ) ) ) );
   }
   d += fmt( " %s at %zu: %llu -> %llu", name, at, ( unsigned long long )old, ( unsigned long long )v );
   ref::wrAt<I>( o, at, v );
}
struct Pack
{
   size_t at, len;
   unsigned type;
};
// packets of a CompressedVector section, wherever they lead
static vector<Pack> packets( const bytes &o, const ref::Section &s )
{
   vector<Pack> out;
   size_t p = s.start + 32;
   while ( p + 4 <= s.end )
   {
      const size_t len = size_t( ref::rd<uint16_t>( o, p + 2 ) ) + 1;
      out.push_back( { p, len, uint8_t( o[p] ) } );
      p += len;
   }
   return out;
}
static void section( bytes &o, const ref::Section &s, Rng &r, string &d )
{
   const bool isBlob = s.what.find( "lob" ) != string::npos;
   if ( isBlob )
   {
      switch ( r.below( 3 ) )
      {
         case 0:
            field<uint8_t>( o, s.start + r.below( 8 ), "blob id/reserved", r, d );
            break;
         default:
            field<uint64_t>( o, s.start + 8, "blob section length", r, d );
      }
      return;
   }
   const auto pk = packets( o, s );
   switch ( r.below( 9 ) )
   {
      case 0:
         field<uint64_t>( o, s.start + 8, "section length", r, d );
         break;
      case 1:
      {
         field<uint64_t>( o, s.start + 16, "data offset", r, d );
         break;
      }
      case 2:
         field<uint64_t>( o, s.start + 24, "index offset", r, d );
         break;
      case 3:
         if ( !pk.empty() )
         {
            // start somewhere else
            const auto &q = r.pick( pk );
            d += fmt( " data offset to packet type %u", q.type );
            ref::wrAt<uint64_t>( o, s.start + 16, ref::toPhys( q.at + ( r.chance( 1, 3 ) ? 4 * r.below( 8 ) : 0 ) ) );
         }
         break;
      case 4:
         field<uint8_t>( o, s.start + r.below( 8 ), "section id/reserved", r, d );
         break;
      default:
         if ( pk.empty() )
         {
            break;
         }
         {
            const Pack &q = r.pick( pk );
            if ( q.type == 1 )
            {
               const unsigned streams = ref::rd<uint16_t>( o, q.at + 4 );
               switch ( r.below( 8 ) )
               {
                  case 0:
                     field<uint8_t>( o, q.at, "data packet type", r, d );
                     break;
                  case 1:
                     field<uint16_t>( o, q.at + 2, "data packet length", r, d );
                     break;
                  case 2:
                     field<uint16_t>( o, q.at + 4, "bytestream count", r, d );
                     break;
                  case 3:
                  case 4:
                     field<uint16_t>( o, q.at + 6 + 2 * r.below( streams ? streams : 1 ), "bytestream length", r, d );
                     break;
                  case 5:
                     if ( streams > 1 )
                     {
                        // moved from one stream to another: the sum stays right
                        const size_t a = q.at + 6 + 2 * r.below( streams ), b = q.at + 6 + 2 * r.below( streams );
                        const uint16_t la = ref::rd<uint16_t>( o, a );
                        const uint16_t k = uint16_t( r.below( la + 1u ) );
                        ref::wrAt<uint16_t>( o, a, uint16_t( la - k ) );
                        ref::wrAt<uint16_t>( o, b, uint16_t( ref::rd<uint16_t>( o, b ) + k ) );
                        d += fmt( " %u bytes to another stream", k );
                     }
                     break;
                  case 6:
                     if ( streams )
                     {
                        // everything to one stream
                        unsigned sum = 0;
                        for ( unsigned k = 0; k < streams; k++ )
                        {
                           sum += ref::rd<uint16_t>( o, q.at + 6 + 2 * k );
                           ref::wrAt<uint16_t>( o, q.at + 6 + 2 * k, 0 );
                        }
                        ref::wrAt<uint16_t>( o, q.at + 6 + 2 * r.below( streams ), uint16_t( sum ) );
                        d += " all bytes to one stream";
                     }
                     break;
                  default:
                     // contents: string prefixes and the like
                     for ( unsigned k = 0; k < 1 + r.below( 6 ); k++ )
                     {
                        const size_t p = q.at + 6 + 2 * streams + r.below( std::max<size_t>( q.len, 1 ) );
                        if ( p < o.size() )
                        {
                           o[p] = r.chance( 1, 3 ) ? char( 0xff ) : char( r.u64() );
                        }
                     }
                     d += " packet contents";
               }
            }
            else if ( q.type == 0 )
            {
               switch ( r.below( 6 ) )
               {
                  case 0:
                     field<uint8_t>( o, q.at, "index packet type", r, d );
                     break;
                  case 1:
                     field<uint16_t>( o, q.at + 2, "index packet length", r, d );
                     break;
                  case 2:
                     field<uint16_t>( o, q.at + 4, "index entry count", r, d );
                     break;
                  case 3:
                     field<uint8_t>( o, q.at + 6, "index level", r, d );
                     break;
                  default:
                     field<uint64_t>( o, q.at + 16 + 8 * r.below( 4 ), "index entry", r, d );
               }
            }
            else
            {
               r.chance( 1, 2 ) ? field<uint8_t>( o, q.at, "empty packet type", r, d ) : field<uint16_t>( o, q.at + 2, "empty packet length", r, d );
            }
         }
   }
}
static void header( bytes &o, Rng &r, string &d )
{
   switch ( r.below( 8 ) )
   {
      case 0:
         field<uint8_t>( o, r.below( 8 ), "signature", r, d );
         break;
      case 1:
         field<uint32_t>( o, 8, "major version", r, d );
         break;
      case 2:
         field<uint32_t>( o, 12, "minor version", r, d );
         break;
      case 3:
         field<uint64_t>( o, 16, "file length", r, d );
         break;
      case 4:
         field<uint64_t>( o, 24, "XML offset", r, d );
         break;
      case 5:
         field<uint64_t>( o, 32, "XML length", r, d );
         break;
      case 6:
         field<uint64_t>( o, 40, "page size", r, d );
         break;
      default:
         ref::wrAt<uint64_t>( o, 24, ref::toPhys( r.below( o.size() ) ) + ( r.chance( 1, 3 ) ? r.below( 8 ) : 0 ) );
         d += " XML elsewhere";
   }
}

// ------------------------------------------------------------------ case
static bytes seedFile( mon::Ctx &c, string &what )
{
   Rng &r = c.rng;
   const string path = c.path( "seed.e57" );
   if ( r.chance( 1, 2 ) )
   {
      // a file as the simple interface lays it out
      simple::Gen gen( r );
      e57::WriterOptions o;
      o.guid = "g";
      e57::Writer w( path, o );
      const unsigned scans = unsigned( r.below( 3 ) ), images = unsigned( r.below( 3 ) );
      for ( unsigned k = 0; k < scans; k++ )
      {
         simple::Scan s = gen.scan( r.chance( 1, 6 ) ? 500 + r.below( 1500 ) : r.below( 80 ) );
         simple::write( w, s, r );
      }
      for ( unsigned k = 0; k < images; k++ )
      {
         simple::Image im = simple::image( gen );
         simple::writeImage( w, im, r );
      }
      w.Close();
      what = fmt( "simple %u scans %u images", scans, images );
      return mon::slurp( path );
   }
   model::Gen g( r );
   Node root( T::Structure, "" );
   const unsigned nCv = 1 + unsigned( r.below( 3 ) );
   for ( unsigned k = 0; k < nCv; k++ )
   {
      const size_t recs = r.chance( 1, 6 ) ? 2000 + r.below( 3000 ) : r.below( 300 );
      root.kids.push_back( g.compressedVector( fmt( "cv%u", k ), 1 + unsigned( r.below( 6 ) ), r.chance( 1, 3 ), recs, {}, -1 ) );
   }
   for ( unsigned k = 0; k < 1 + r.below( 2 ); k++ )
   {
      Node b( T::Blob, fmt( "blob%u", k ) );
      b.blob = g.binary( r.below( 3000 ) );
      root.kids.push_back( b );
   }
   for ( unsigned k = 0; k < r.below( 10 ); k++ )
   {
      root.kids.push_back( g.leafNode( fmt( "leaf%u", k ) ) );
   }
   if ( r.chance( 1, 3 ) )
   {
      Node v( T::Vector, "vec" );
      v.hetero = true;
      for ( unsigned k = 0; k < 4; k++ )
      {
         v.kids.push_back( g.leafNode( fmt( "%u", k ) ) );
      }
      root.kids.push_back( v );
   }
   ref::Synth syn( r );
   syn.maxPacket = 200 + r.below( r.chance( 1, 2 ) ? 600 : 60000 ) / 4 * 4;
   what = fmt( "foreign layout %u vectors", nCv );
   return syn.file( root );
}

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   Bait bait( c );
   string what;
   const bytes seed = seedFile( c, what );
   ref::File f;
   try
   {
      f = ref::parseFile( seed );
   }
   catch ( const ref::Bad &b )
   {
      mon::fail( "harness", "seed not conformant: " + b.key + " " + b.detail );
   }
   const bytes logical = ref::stripPages( seed, true );
   vector<ref::Section> bin;
   for ( auto &s : f.sections )
   {
      if ( s.what.find( "lob" ) != string::npos || s.what.find( "ector" ) != string::npos )
      {
         bin.push_back( s );
      }
   }
   const unsigned variants = 14;
   for ( unsigned v = 0; v < variants; v++ )
   {
      bytes o = logical;
      string d = what + ":";
      const unsigned kind = unsigned( r.below( 12 ) );
      const char *cls = "";
      bool sealed = true;
      bytes phys;
      switch ( kind )
      {
         case 0:
         case 1:
         case 2:
         case 3:
         case 4:
         {
            cls = "XML";
            Xml x{ f.xml, r, "", bait, {} };
            const unsigned n = r.chance( 2, 3 ) ? 1 : 2 + unsigned( r.below( 3 ) );
            for ( unsigned k = 0; k < n; k++ )
            {
               x.one();
            }
            d += x.log;
            setXml( o, x.t, r, d );
            break;
         }
         case 5:
         case 6:
         case 7:
            if ( !bin.empty() )
            {
               cls = "sections and packets";
               const unsigned n = r.chance( 2, 3 ) ? 1 : 2 + unsigned( r.below( 3 ) );
               for ( unsigned k = 0; k < n; k++ )
               {
                  try
                  {
                     section( o, r.pick( bin ), r, d );
                  }
                  catch ( const ref::Bad & )
                  {
                     // an earlier change left nothing to change here
                  }
               }
               break;
            }
            // fall through
         case 8:
            cls = "file header";
            header( o, r, d );
            break;
         case 9:
         {
            cls = "bytes";
            const unsigned n = 1 + unsigned( r.below( 12 ) );
            for ( unsigned k = 0; k < n; k++ )
            {
               o[r.below( o.size() )] = char( r.u64() );
            }
            d += fmt( " %u bytes", n );
            break;
         }
         case 10:
         {
            cls = "cut or unsealed";
            sealed = false;
            phys = seed;
            if ( r.chance( 1, 2 ) )
            {
               phys.resize( r.chance( 1, 2 ) ? r.below( phys.size() / 1024 + 1 ) * 1024 : r.below( phys.size() + 1 ) );
               if ( phys.size() >= 1024 && r.chance( 1, 2 ) )
               {
                  ref::wrAt<uint64_t>( phys, 16, phys.size() );
                  bytes page = phys.substr( 0, 1020 );
                  phys.replace( 0, 1024, ref::addPages( page ) );
               }
               d += fmt( " cut to %zu", phys.size() );
            }
            else
            {
               for ( unsigned k = 0; k < 1 + r.below( 20 ); k++ )
               {
                  phys[r.below( phys.size() )] = char( r.u64() );
               }
               d += " unsealed bytes";
            }
            break;
         }
         default:
         {
            cls = "random";
            // random contents behind a right header, or nothing right at all
            o.resize( 48 );
            const size_t n = r.below( 6000 );
            for ( size_t k = 0; k < n; k++ )
            {
               o += char( r.chance( 1, 2 ) ? r.u64() : 0 );
            }
            if ( r.chance( 1, 6 ) )
            {
               for ( size_t k = 0; k < 48; k++ )
               {
                  o[k] = char( r.u64() );
               }
            }
            ref::wrAt<uint64_t>( o, 16, ( o.size() + 1019 ) / 1020 * 1024 );
            ref::wrAt<uint64_t>( o, 24, ref::toPhys( r.below( o.size() ) ) );
            ref::wrAt<uint64_t>( o, 32, r.below( o.size() ) );
            d += " random";
            if ( r.chance( 1, 3 ) )
            {
               sealed = false;
               phys.assign( 1024 * r.below( 4 ) + r.below( 3 ), 0 );
               for ( auto &x : phys )
               {
                  x = char( r.u64() );
               }
            }
         }
      }
      if ( sealed )
      {
         phys = ref::addPages( o );
      }
      Hostile h{ c, r, bait, d };
      h.run( phys );
      mon::count( ( string( "hostile: " ) + cls ).c_str() );
      mon::distinct( "case", d );
      if ( v == 0 )
      {
         mon::sample( d + fmt( ": opened %d, %u refusals, %u nodes", h.opened, h.refusals, h.nodes ) );
      }
   }
}

// nesting and width: proportionate work and no exhausted stack
static void nesting( mon::Ctx &c )
{
   Rng &r = c.rng;
   Bait bait( c );
   const unsigned depth = 100u << r.below( 12 );
   const unsigned kind = unsigned( r.below( 3 ) );
   string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\">";
   if ( kind == 2 )
   {
      x += "<c type='CompressedVector' fileOffset='48' recordCount='0'><codecs type='Vector' allowHeterogeneousChildren='1'/><prototype type='Structure'>";
   }
   string z;
   for ( unsigned k = 0; k < depth; k++ )
   {
      x += kind == 1 ? "<a type='Vector'>" : "<a type='Structure'>";
      z += "</a>";
   }
   x += z;
   if ( kind == 2 )
   {
      x += "</prototype></c>";
   }
   x += "</e57Root>";
   bytes o( 48, 0 );
   memcpy( &o[0], "ASTM-E57", 8 );
   ref::wrAt<uint32_t>( o, 8, 1 );
   ref::wrAt<uint64_t>( o, 40, 1024 );
   string d = fmt( "nesting %u kind %u", depth, kind );
   o += x;
   ref::wrAt<uint64_t>( o, 24, 48 );
   ref::wrAt<uint64_t>( o, 32, x.size() );
   ref::wrAt<uint64_t>( o, 16, ( o.size() + 1019 ) / 1020 * 1024 );
   Hostile h{ c, r, bait, d };
   h.run( ref::addPages( o ) );
   mon::count( "nested documents" );
   mon::distinct( "case", d );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C07";
   s.run = []( mon::Ctx &c ) {
      if ( c.caseNo % 40 == 7 )
      {
         nesting( c );
      }
      else
      {
         run( c );
      }
   };
   s.cpuLimit = 40;
   return mon::mainLoop( argc, argv, s );
}
