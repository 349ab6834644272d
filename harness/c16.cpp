// C16: images written with the simple interface are read back unchanged.
#include "simple.h"
#include "ref.h"
using namespace simple;

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   Gen gen( r );
   const string path = c.path( "c16.e57" );
   vector<Image> images;
   vector<Scan> scans;
   const size_t n = r.chance( 1, 20 ) ? 10 + r.below( 20 ) : 1 + r.below( 4 );
   string key;
   {
      std::unique_ptr<e57::Writer> made( r.chance( 1, 4 ) ? new e57::Writer( path, string() ) : new e57::Writer( path, e57::WriterOptions{} ) );
      e57::Writer &w = *made;
      for ( size_t k = 0; k < n; k++ )
      {
         if ( r.chance( 1, 8 ) )
         {
            Scan s = gen.scan( 1 + r.below( 200 ) );
            write( w, s, r );
            scans.push_back( std::move( s ) );
         }
         Image im = simple::image( gen );
         mon::note( im.shape + fmt( " %zu bytes, mask %zu", im.data.size(), im.mask.size() ) );
         const int64_t at = writeImage( w, im, r );
         MON_CHECK( at == int64_t( k ), "image-index", fmt( "%" PRId64 " of %zu", at, k ) );
         // an image of another kind, or another image, isn't there
         char x[4] = "abc";
         for ( int j = 0; j < 3; j++ )
         {
            const int64_t idx = r.pick( vector<int64_t>{ int64_t( k ), int64_t( n ) + 5, -1, INT64_MIN } );
            const auto proj = e57::Image2DProjection( r.below( 5 ) );
            const auto type = e57::Image2DType( r.below( 4 ) );
            const bool there = idx == int64_t( k ) && proj == im.proj && ( type == im.type || ( type == e57::ImageMaskPNG && !im.mask.empty() ) );
            if ( !there )
            {
               const int64_t put = w.WriteImage2DData( idx, type, proj, x, 0, 3 );
               MON_CHECK( put == 0, "written-elsewhere", fmt( "%" PRId64 " bytes: image %" PRId64 " projection %d type %d; %s", put, idx, int( proj ), int( type ), im.shape.c_str() ) );
            }
         }
         key += im.shape + ";";
         mon::distinct( "image shape", im.shape );
         mon::count( "images written" );
         images.push_back( std::move( im ) );
      }
      if ( r.chance( 3, 4 ) )
      {
         MON_CHECK( w.Close(), "close-failed", "" );
      }
   }
   // what was stored, seen by an independent reader
   static const char *reps[] = { "", "visualReferenceRepresentation", "pinholeRepresentation", "sphericalRepresentation", "cylindricalRepresentation" };
   ref::File f = ref::parseFile( mon::slurp( path ) );
   auto *i2 = f.root.kid( "images2D" );
   MON_CHECK( i2 && i2->kids.size() == n, "stored-images", "" );
   for ( size_t k = 0; k < n; k++ )
   {
      for ( int p = 1; p < 5; p++ )
      {
         auto *rep = i2->kids[k].kid( reps[p] );
         MON_CHECK( ( p == int( images[k].proj ) ) == ( rep != nullptr ), "stored-projection", fmt( "image %zu: %s", k, reps[p] ) );
         if ( rep )
         {
            auto *j = rep->kid( "jpegImage" ), *q = rep->kid( "pngImage" ), *m = rep->kid( "imageMask" );
            const bool jpeg = images[k].type == e57::ImageJPEG;
            MON_CHECK( ( j != nullptr ) == jpeg && ( q != nullptr ) == !jpeg && ( m != nullptr ) == !images[k].mask.empty(), "stored-format", images[k].shape );
            MON_CHECK( ( jpeg ? j : q )->blob == images[k].data, "stored-image", fmt( "image %zu; %s", k, images[k].shape.c_str() ) );
            MON_CHECK( !m || m->blob == images[k].mask, "stored-mask", fmt( "image %zu; %s", k, images[k].shape.c_str() ) );
         }
      }
   }
   e57::ReaderOptions ro;
   ro.checksumPolicy = r.chance( 1, 2 ) ? e57::ChecksumPolicy::ChecksumAll : e57::ChecksumPolicy::ChecksumNone;
   std::unique_ptr<e57::Reader> opened( r.chance( 1, 4 ) ? new e57::Reader( path ) : new e57::Reader( path, ro ) );
   e57::Reader &rd = *opened;
   MON_CHECK( rd.GetImage2DCount() == int64_t( n ) && rd.GetData3DCount() == int64_t( scans.size() ), "counts", "" );
   for ( size_t k = 0; k < n + 2; k++ )
   {
      const size_t i = k < n ? k : r.below( n );
      readImage( rd, int64_t( i ), images[i], r );
      mon::count( "images read" );
      // what isn't there isn't read
      char x[4] = "abc";
      const int64_t idx = r.pick( vector<int64_t>{ int64_t( i ), int64_t( n ), -1, INT64_MAX } );
      const auto proj = e57::Image2DProjection( r.below( 5 ) );
      const auto type = e57::Image2DType( r.below( 4 ) );
      const bool there = idx == int64_t( i ) && proj == images[i].proj && ( type == images[i].type || ( type == e57::ImageMaskPNG && !images[i].mask.empty() ) );
      if ( !there )
      {
         const int64_t got = rd.ReadImage2DData( idx, proj, type, x, 0, 3 );
         MON_CHECK( got == 0 && memcmp( x, "abc", 4 ) == 0, "missing-image-read", fmt( "%" PRId64 " bytes", got ) );
      }
      e57::Image2D h;
      MON_CHECK( idx == int64_t( i ) || !rd.ReadImage2D( idx, h ), "missing-header-read", "" );
   }
   for ( size_t k = 0; k < scans.size(); k++ )
   {
      readScan( rd, int64_t( k ), scans[k], r );
   }
   MON_CHECK( rd.Close() && !rd.IsOpen() && !rd.Close(), "reader-close", "" );
   e57::Image2D none;
   MON_CHECK( !rd.ReadImage2D( 0, none ), "read-after-close", "" );
   mon::distinct( "case", key );
   mon::sample( fmt( "case %ld: %zu images %s", c.caseNo, n, key.substr( 0, 120 ).c_str() ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C16";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
