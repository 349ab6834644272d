// C05: every successfully closed file conforms to the format, as judged by an independent parser,
// and an independent decoder recovers what was written.
#include "E57SimpleWriter.h"
#include "api.h"
#include "ref.h"
using namespace api;

static ref::File conforms( const string &path, const string &history )
{
   const bytes phys = mon::slurp( path );
   try
   {
      ref::File f = ref::parseFile( phys );
      mon::count( "files parsed" );
      mon::count( "pages verified", f.pages );
      mon::count( "data packets decoded", f.dataPackets );
      mon::count( "index packets checked", f.indexPackets );
      mon::count( "sections located", f.sections.size() );
      mon::count( "oracle evaluations" );
      return f;
   }
   catch ( const ref::Bad &b )
   {
      mon::fail( "not-conformant:" + b.key, b.detail + " (" + history + ")" );
   }
}
static void compare( const Node &root, const vector<std::pair<string, string>> &ext, const ref::File &f )
{
   string d = model::diff( root, f.root );
   MON_CHECK( d.empty(), "decoded-differs", d );
   map<string, string> want, got;
   for ( auto &x : ext )
   {
      want[x.first] = x.second;
   }
   for ( auto &x : f.ns )
   {
      MON_CHECK( !got.count( x.first ), "namespace-twice", x.first );
      got[x.first] = x.second;
   }
   got.erase( "" );
   MON_CHECK( want == got, "namespaces-differ", fmt( "%zu declared, %zu in the file", want.size(), got.size() ) );
}
static void tally( const Node &n )
{
   for ( auto &c : n.cols )
   {
      mon::count( "values compared", c.i.size() + c.s.size() );
   }
   mon::count( "blob bytes compared", n.blob.size() );
   mon::count( "elements compared" );
   for ( auto &k : n.kids )
   {
      tally( k );
   }
}

// operations that are refused must leave no trace in the file
static void refused( ImageFile &imf, Rng &r )
{
   switch ( r.below( 6 ) )
   {
      case 0:
         mon::attempt( [&] { imf.root().set( "bad name", e57::IntegerNode( imf, 1 ) ); } );
         break;
      case 1:
         mon::attempt( [&] { e57::IntegerNode( imf, 11, 0, 10 ); } );
         break;
      case 2:
         mon::attempt( [&] { imf.root().get( "/not/there" ); } );
         break;
      case 3:
         mon::attempt( [&] { e57::BlobNode( imf, -1 ); } );
         break;
      case 4:
      {
         // a compressed vector that is never attached cannot be written to
         e57::StructureNode p( imf );
         p.set( "x", e57::IntegerNode( imf, 0 ) );
         e57::CompressedVectorNode cv( imf, p, e57::VectorNode( imf, true ) );
         int64_t x = 0;
         vector<e57::SourceDestBuffer> b{ e57::SourceDestBuffer( imf, "x", &x, 1 ) };
         mon::attempt( [&] { cv.writer( b ); } );
         break;
      }
      default:
         mon::attempt( [&] { e57::FloatNode( imf, 2, e57::PrecisionDouble, 0, 1 ); } );
   }
   mon::count( "refused operations in between" );
}

static void treeCase( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   const int kind = int( r.below( 10 ) );
   auto ext = g.extensions( 3 );
   model::Gen::TreeOpts o;
   for ( auto &x : ext )
   {
      o.prefixes.push_back( x.first );
   }
   Node root( T::Structure, "" );
   if ( kind < 4 )
   {
      o.budget = r.chance( 1, 6 ) ? 200 : 30;
      o.maxBlob = r.chance( 1, 3 ) ? 5000 : 300;
      o.maxRecords = r.chance( 1, 4 ) ? 2000 : 60;
      root = g.tree( o );
   }
   else if ( kind < 8 )
   {
      // record sections of several packets between other sections
      const unsigned n = 1 + unsigned( r.below( 3 ) );
      for ( unsigned k = 0; k < n; k++ )
      {
         size_t recs = r.chance( 1, 3 ) ? r.below( 10 ) : r.chance( 1, 2 ) ? r.below( 400 ) : r.below( r.chance( 1, 6 ) ? 60000 : 8000 );
         unsigned fields = recs > 10000 ? 1 + unsigned( r.below( 2 ) ) : r.chance( 1, 8 ) ? 10 + unsigned( r.below( 40 ) ) : 1 + unsigned( r.below( 6 ) );
         if ( r.chance( 1, 3 ) )
         {
            Node b( T::Blob, fmt( "blob%u", k ) );
            // sizes around the page payload
            b.blob = g.binary( r.chance( 1, 2 ) ? r.below( 50 ) : size_t( 1020 * ( 1 + r.below( 3 ) ) + r.below( 40 ) - 20 ) );
            root.kids.push_back( b );
         }
         if ( r.chance( 1, 12 ) )
         {
            root.kids.push_back( g.packetEdge( fmt( "edge%u", k ) ) );
         }
         root.kids.push_back( g.compressedVector( fmt( "cv%u", k ), fields, r.chance( 1, 3 ), recs, o.prefixes, r.chance( 1, 3 ) ? int( r.below( 5 ) ) : -1 ) );
         if ( r.chance( 1, 6 ) )
         {
            for ( auto &col : root.kids.back().cols )
            {
               for ( size_t j = 0; j < 2 && !col.s.empty(); j++ )
               {
                  col.s[r.below( col.s.size() )] = g.binary( r.below( 150000 ) );
               }
            }
         }
      }
   }
   else
   {
      // text of a length chosen so that the end of the XML falls anywhere in a page
      for ( unsigned k = 0; k < 1 + r.below( 3 ); k++ )
      {
         Node s( T::String, fmt( "s%u", k ) );
         s.sv = r.chance( 1, 2 ) ? string( r.below( 2100 ), 'x' ) : g.text( 2100 );
         root.kids.push_back( s );
      }
      if ( r.chance( 1, 2 ) )
      {
         Node b( T::Blob, "b" );
         b.blob = g.binary( r.below( 2100 ) );
         root.kids.push_back( b );
      }
   }
   const string path = c.path( "c05.e57" );
   // leftovers of an older, longer file must not shine through
   if ( r.chance( 1, 4 ) )
   {
      mon::spew( path, g.binary( 1024 * ( 1 + r.below( 40 ) ) ) );
   }
   string history = fmt( "kind %d", kind );
   {
      ImageFile imf( path, "w" );
      for ( auto &x : ext )
      {
         imf.extensionsAdd( x.first, x.second );
      }
      Builder b( imf, r );
      const bool blobsFirst = r.chance( 1, 2 );
      b.populate( imf.root(), root );
      if ( blobsFirst )
      {
         b.writeBlobs();
      }
      // sections in random order
      for ( size_t k = b.cvs.size(); k > 1; k-- )
      {
         std::swap( b.cvs[k - 1], b.cvs[r.below( k )] );
      }
      for ( auto &p : b.cvs )
      {
         auto *m = const_cast<Node *>( p.m );
         if ( m->records == 0 && r.chance( 1, 2 ) )
         {
            m->unwritten = true;
            continue;
         }
         history += "; " + writeRecords( imf, e57::CompressedVectorNode( p.node ), *p.m, r );
         if ( r.chance( 1, 3 ) )
         {
            refused( imf, r );
         }
         if ( r.chance( 1, 4 ) && p.m->records )
         {
            Node t = describe( p.node ); // reading back in between
         }
      }
      if ( !blobsFirst )
      {
         b.writeBlobs();
      }
      if ( r.chance( 1, 3 ) )
      {
         refused( imf, r );
      }
      mon::note( history );
      imf.close();
      if ( r.chance( 1, 4 ) )
      {
         imf.close(); // again: nothing
      }
   }
   const ref::File f = conforms( path, history );
   compare( root, ext, f );
   tally( root );
   for ( auto &s : f.sections )
   {
      mon::distinct( "section start in page", fmt( "%s:%" PRIu64, s.what.c_str(), s.start % 1020 / 4 ) );
      mon::distinct( "section end in page", fmt( "%s:%" PRIu64, s.what.c_str(), s.end % 1020 / 4 ) );
   }
   mon::distinct( "case", fmt( "%d:%zu:%" PRIu64 ":%" PRIu64, kind, f.sections.size(), f.pages, f.dataPackets ) );
   mon::sample( fmt( "case %ld: %" PRIu64 " pages, %" PRIu64 " data packets, %zu sections; %s", c.caseNo, f.pages, f.dataPackets, f.sections.size(),
                     history.substr( 0, 120 ).c_str() ) );
}

// files of the simple interface: conformance, and the fields of the standard where they belong
static void simpleCase( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   const string path = c.path( "c05s.e57" );
   vector<size_t> counts;
   vector<bytes> pictures;
   vector<vector<double>> xs;
   string history = "simple";
   {
      e57::WriterOptions o;
      o.guid = r.chance( 1, 2 ) ? "{11111111-2222-3333-4444-555555555555}" : "";
      o.coordinateMetadata = r.chance( 1, 2 ) ? "any <text> ]]> & more" : "";
      e57::Writer w( path, o );
      const unsigned scans = unsigned( r.below( 3 ) ), images = unsigned( r.below( 3 ) );
      for ( unsigned s = 0; s < scans; s++ )
      {
         e57::Data3D h;
         h.guid = fmt( "scan %u", s );
         h.name = g.text( 20 );
         const size_t n = 1 + r.below( r.chance( 1, 5 ) ? 9000 : 300 );
         h.pointCount = n;
         h.pointFields.cartesianXField = h.pointFields.cartesianYField = h.pointFields.cartesianZField = true;
         const int how = int( r.below( 3 ) );
         if ( how == 1 )
         {
            h.pointFields.pointRangeNodeType = e57::NumericalNodeType::ScaledInteger;
            h.pointFields.pointRangeScale = 0.001;
         }
         h.pointFields.intensityField = r.chance( 1, 2 );
         if ( h.pointFields.intensityField )
         {
            h.intensityLimits.intensityMaximum = 255;
            h.pointFields.intensityNodeType = e57::NumericalNodeType::Integer;
         }
         h.pointFields.rowIndexField = r.chance( 1, 2 );
         h.pointFields.rowIndexMaximum = 1000;
         history += fmt( " scan %zu how %d", n, how );
         vector<double> x;
         if ( how == 2 )
         {
            e57::Data3DPointsFloat p( h );
            for ( size_t k = 0; k < n; k++ )
            {
               p.cartesianX[k] = float( r.range( -5000, 5000 ) ) / 8;
               p.cartesianY[k] = float( k );
               p.cartesianZ[k] = 1;
               x.push_back( double( p.cartesianX[k] ) );
               if ( p.intensity )
               {
                  p.intensity[k] = float( k % 256 );
               }
               if ( p.rowIndex )
               {
                  p.rowIndex[k] = int32_t( k % 1000 );
               }
            }
            w.WriteData3DData( h, p );
         }
         else
         {
            e57::Data3DPointsDouble p( h );
            for ( size_t k = 0; k < n; k++ )
            {
               p.cartesianX[k] = double( r.range( -5000, 5000 ) ) / 1000;
               p.cartesianY[k] = double( k ) / 1000;
               p.cartesianZ[k] = 1;
               x.push_back( p.cartesianX[k] );
               if ( p.intensity )
               {
                  p.intensity[k] = double( k % 256 );
               }
               if ( p.rowIndex )
               {
                  p.rowIndex[k] = int32_t( k % 1000 );
               }
            }
            w.WriteData3DData( h, p );
         }
         xs.push_back( x );
      }
      for ( unsigned s = 0; s < images; s++ )
      {
         e57::Image2D h;
         h.guid = fmt( "image %u", s );
         bytes data = g.binary( 1 + r.below( 5000 ) );
         pictures.push_back( data );
         h.visualReferenceRepresentation.imageWidth = 10;
         h.visualReferenceRepresentation.imageHeight = 20;
         h.visualReferenceRepresentation.jpegImageSize = data.size();
         w.WriteImage2DData( h, e57::ImageJPEG, e57::ProjectionVisual, 0, &data[0], data.size() );
         history += fmt( " image %zu", data.size() );
      }
      mon::note( history );
      w.Close();
   }
   ref::File f = conforms( path, history );
   auto *fm = f.root.kid( "formatName" );
   MON_CHECK( fm && fm->type == T::String && fm->sv == "ASTM E57 3D Imaging Data File", "formatName", "" );
   auto *guid = f.root.kid( "guid" );
   MON_CHECK( guid && guid->type == T::String && !guid->sv.empty(), "guid", "" );
   auto *maj = f.root.kid( "versionMajor" );
   auto *min = f.root.kid( "versionMinor" );
   MON_CHECK( maj && min && maj->type == T::Integer && maj->iv == 1 && min->iv == 0, "version-elements", "" );
   auto *d3 = f.root.kid( "data3D" );
   MON_CHECK( d3 && d3->type == T::Vector && d3->hetero && d3->kids.size() == xs.size(), "data3D", "" );
   for ( size_t s = 0; s < xs.size(); s++ )
   {
      Node &scan = d3->kids[s];
      auto *p = scan.kid( "points" );
      MON_CHECK( p && p->type == T::CompressedVector && p->records == xs[s].size(), "points", fmt( "scan %zu", s ) );
      auto lv = model::leaves( *p->proto );
      for ( size_t k = 0; k < lv.size(); k++ )
      {
         if ( lv[k].path == "cartesianX" )
         {
            for ( size_t j = 0; j < xs[s].size(); j++ )
            {
               const Node &fd = *lv[k].node;
               const int64_t v = p->cols[k].i[j];
               const double got = fd.type == T::Scaled ? double( scaledOf( fd, v ) ) : fd.single ? double( model::asFloat( v ) ) : model::asDouble( v );
               const double tol = fd.type == T::Scaled ? fd.scale * 0.51 : fd.single ? std::fabs( xs[s][j] ) * 1e-6 : 0;
               MON_CHECK( std::fabs( got - xs[s][j] ) <= tol, "point-differs", fmt( "scan %zu point %zu: %.17g vs %.17g", s, j, got, xs[s][j] ) );
            }
            mon::count( "values compared", xs[s].size() );
         }
      }
   }
   auto *i2 = f.root.kid( "images2D" );
   MON_CHECK( i2 && i2->type == T::Vector && i2->hetero && i2->kids.size() == pictures.size(), "images2D", "" );
   for ( size_t s = 0; s < pictures.size(); s++ )
   {
      auto *v = i2->kids[s].kid( "visualReferenceRepresentation" );
      MON_CHECK( v && v->kid( "jpegImage" ) && v->kid( "jpegImage" )->blob == pictures[s], "picture-differs", fmt( "image %zu", s ) );
      mon::count( "blob bytes compared", pictures[s].size() );
   }
   mon::distinct( "case", history );
}

// a string value with a character that XML cannot represent
static void illegalCharacter( mon::Ctx &c )
{
   const string path = c.path( "c05p.e57" );
   auto o = mon::attempt( [&] {
      ImageFile imf( path, "w" );
      imf.root().set( "s", e57::StringNode( imf, "a\x01z" ) );
      imf.close();
   } );
   if ( !o.threw )
   {
      try
      {
         ref::parseFile( mon::slurp( path ) );
      }
      catch ( const ref::Bad & )
      {
         mon::fail( "unrepresentable-text-stored", "StringNode with U+0001 makes the XML section malformed" );
      }
   }
   mon::count( "oracle evaluations" );
}

static void run( mon::Ctx &c )
{
   if ( c.caseNo % 8 == 7 )
   {
      simpleCase( c );
   }
   else
   {
      treeCase( c );
   }
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C05";
   s.run = run;
   s.probes["illegal-xml-character"] = illegalCharacter;
   return mon::mainLoop( argc, argv, s );
}
