// C15: scans written with the simple interface are read back unchanged.
#include "simple.h"
#include "ref.h"
using namespace simple;

static void rootOf( e57::Reader &rd, const e57::WriterOptions &o, size_t scans, size_t images )
{
   e57::E57Root root;
   MON_CHECK( rd.GetE57Root( root ), "root-not-read", "" );
   MON_CHECK( o.guid.empty() ? !root.guid.empty() : root.guid == o.guid, "file-guid-changed", root.guid );
   if ( o.guid.empty() )
   {
      generated( root.guid, "file" );
   }
   MON_CHECK( root.coordinateMetadata == o.coordinateMetadata, "coordinate-metadata-changed", root.coordinateMetadata );
   MON_CHECK( root.formatName == "ASTM E57 3D Imaging Data File" && root.versionMajor == 1 && root.versionMinor == 0, "root-header", root.formatName );
   MON_CHECK( root.data3DSize == int64_t( scans ) && root.images2DSize == int64_t( images ), "root-counts",
              fmt( "%" PRId64 " scans, %" PRId64 " images", root.data3DSize, root.images2DSize ) );
   MON_CHECK( rd.GetData3DCount() == int64_t( scans ) && rd.GetImage2DCount() == int64_t( images ), "counts",
              fmt( "%" PRId64 " scans, %" PRId64 " images", rd.GetData3DCount(), rd.GetImage2DCount() ) );
}

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   Gen gen( r );
   const string path = c.path( "c15.e57" );
   vector<Scan> scans;
   vector<Image> images;
   e57::WriterOptions o;
   o.guid = r.chance( 1, 2 ) ? gen.g.text( 40 ) : "";
   o.coordinateMetadata = r.chance( 1, 2 ) ? gen.g.text( 300 ) : "";
   const size_t n = r.chance( 1, 20 ) ? 10 + r.below( 10 ) : 1 + r.below( 3 );
   string key;
   {
      // both ways to make one
      std::unique_ptr<e57::Writer> made( o.guid.empty() && r.chance( 1, 2 ) ? new e57::Writer( path, o.coordinateMetadata ) : new e57::Writer( path, o ) );
      e57::Writer &w = *made;
      for ( size_t k = 0; k < n; k++ )
      {
         const size_t pts = r.chance( 1, 12 ) ? 0 : r.chance( 1, 15 ) ? 5000 + r.below( 20000 ) : r.chance( 1, 3 ) ? 1 + r.below( 2000 ) : 1 + r.below( 60 );
         Scan s = gen.scan( pts );
         mon::note( s.shape + fmt( " %zu points", pts ) );
         const int64_t at = write( w, s, r );
         MON_CHECK( at == int64_t( k ), "scan-index", fmt( "%" PRId64 " of %zu", at, k ) );
         key += s.shape + ";";
         mon::distinct( "scan shape", s.shape );
         mon::distinct( "point storage", fmt( "%s %s type %d given %d", s.dbl ? "double" : "float", s.own ? "own" : "library", int( s.point.type ), s.point.given ) );
         mon::count( "scans written" );
         // groups of what has none
         int64_t none[1] = { 0 };
         for ( int64_t bad : { int64_t( k ) + 1, int64_t( -1 ), INT64_MIN, INT64_MAX, int64_t( k ) } )
         {
            if ( bad != int64_t( k ) || s.h.pointGroupingSchemes.groupingByLine.groupsSize == 0 )
            {
               MON_CHECK( !w.WriteData3DGroupsData( bad, 1, none, none, none ), "missing-groups-written", fmt( "%" PRId64, bad ) );
            }
         }
         scans.push_back( std::move( s ) );
         if ( r.chance( 1, 8 ) )
         {
            // in between images
            images.push_back( simple::image( gen ) );
            writeImage( w, images.back(), r );
         }
      }
      MON_CHECK( w.IsOpen(), "writer-open", "" );
      if ( r.chance( 3, 4 ) )
      {
         MON_CHECK( w.Close(), "close-failed", "" );
         MON_CHECK( !w.IsOpen(), "closed-writer-open", "" );
         MON_CHECK( !w.Close(), "closed-twice", "" );
      }
      // otherwise the destructor closes
   }
   // what was stored, seen by an independent reader
   ref::File f = ref::parseFile( mon::slurp( path ) );
   auto *d3 = f.root.kid( "data3D" );
   MON_CHECK( d3 && d3->kids.size() == n, "stored-scans", fmt( "%zu of %zu", d3 ? d3->kids.size() : 0, n ) );
   for ( size_t k = 0; k < n; k++ )
   {
      auto *p = d3->kids[k].kid( "points" );
      MON_CHECK( p && p->records == scans[k].n, "stored-points", fmt( "scan %zu: %zu points", k, scans[k].n ) );
      const auto lv = model::leaves( *p->proto );
      // each field holds the values meant
      eachField( scans[k].h.pointFields, simple::Gen::dummy(), scans[k], [&]( const char *name, bool on, auto *&, auto &vec ) {
         const string q = string( strncmp( name, "normal", 6 ) == 0 ? "nor:" : "" ) + name;
         const model::Node *leaf = nullptr;
         size_t col = 0;
         for ( size_t j = 0; j < lv.size(); j++ )
         {
            if ( lv[j].path == q )
            {
               leaf = lv[j].node;
               col = j;
            }
         }
         MON_CHECK( on == ( leaf != nullptr ), "stored-field", fmt( "scan %zu field %s: %d", k, name, leaf != nullptr ) );
         for ( size_t j = 0; on && j < scans[k].n; j++ )
         {
            double is;
            if ( leaf->type == model::T::Float )
            {
               is = leaf->single ? double( model::asFloat( uint64_t( p->cols[col].i[j] ) ) ) : model::asDouble( uint64_t( p->cols[col].i[j] ) );
            }
            else
            {
               is = double( p->cols[col].i[j] ) * ( leaf->type == model::T::Scaled ? leaf->scale : 1 );
            }
            const double want = double( vec[j] );
            const bool ok = same( is, want ) || is == want || ( std::is_same<decltype( vec ), vector<double> &>::value && !scans[k].dbl && double( float( is ) ) == want );
            if ( !ok )
            {
               mon::fail( "stored-value", fmt( "scan %zu %s of point %zu: %.17g stored as %.17g; %s", k, name, j, want, is, scans[k].shape.c_str() ) );
            }
         }
         mon::count( "stored values checked", on ? scans[k].n : 0 );
      } );
   }
   e57::ReaderOptions ro;
   ro.checksumPolicy = r.pick( vector<e57::ReadChecksumPolicy>{ e57::ChecksumPolicy::ChecksumAll, e57::ChecksumPolicy::ChecksumNone, e57::ChecksumPolicy::ChecksumHalf } );
   std::unique_ptr<e57::Reader> opened( r.chance( 1, 4 ) ? new e57::Reader( path ) : new e57::Reader( path, ro ) );
   e57::Reader &rd = *opened;
   MON_CHECK( rd.IsOpen(), "reader-open", "" );
   rootOf( rd, o, n, images.size() );
   for ( size_t k = 0; k < n + 2; k++ )
   {
      const size_t i = r.below( n );
      readScan( rd, int64_t( k < n ? k : i ), scans[k < n ? k : i], r );
      mon::count( "scans read" );
   }
   for ( size_t k = 0; k < images.size(); k++ )
   {
      readImage( rd, int64_t( k ), images[k], r );
   }
   // what doesn't exist
   e57::Data3D h;
   int64_t a, b, p, gs, cs;
   bool by;
   for ( int64_t bad : { int64_t( n ), int64_t( -1 ), INT64_MAX, INT64_MIN } )
   {
      MON_CHECK( !rd.ReadData3D( bad, h ) && !rd.GetData3DSizes( bad, a, b, p, gs, cs, by ), "missing-scan-read", fmt( "%" PRId64, bad ) );
      int64_t x;
      MON_CHECK( !rd.ReadData3DGroupsData( bad, 1, &x, &x, &x ), "missing-groups-read", fmt( "%" PRId64, bad ) );
   }
   MON_CHECK( rd.Close() && !rd.IsOpen(), "reader-close", "" );
   e57::E57Root root;
   e57::Image2D image;
   MON_CHECK( !rd.Close() && !rd.GetE57Root( root ) && !rd.ReadData3D( 0, h ) && !rd.GetData3DSizes( 0, a, b, p, gs, cs, by ) && !rd.ReadImage2D( 0, image ), "read-after-close", "" );
   mon::distinct( "case", key );
   mon::sample( fmt( "case %ld: %zu scans %s", c.caseNo, n, key.substr( 0, 120 ).c_str() ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C15";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
