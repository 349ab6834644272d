#pragma once
// Whole pieces of work: a file with anything in it, written by a repeatable sequence of calls.
#include "ref.h"
#include "simple.h"

namespace work
{
   using namespace api;

   struct Job
   {
      bool simple = false;
      uint64_t seed = 0;
      Node root{ T::Structure, "" };
      vector<std::pair<string, string>> ext;
      vector<simple::Scan> scans;
      vector<simple::Image> images;
      string shape;
   };
   // size: 0 small, 1 some packets, 2 larger than the packet cache
   inline Job make( Rng &r, int size = 0, int onlyKind = -1 )
   {
      Job j;
      j.seed = r.u64();
      j.simple = onlyKind >= 0 ? onlyKind == 1 : r.chance( 1, 3 );
      if ( j.simple )
      {
         simple::Gen g( r );
         const size_t scans = r.below( 3 ), images = scans ? r.below( 3 ) : 1 + r.below( 2 );
         for ( size_t k = 0; k < scans; k++ )
         {
            j.scans.push_back( g.scan( 1 + r.below( size ? 6000 : 150 ) ) );
            j.scans.back().h.guid = fmt( "{scan %zu}", k );
         }
         for ( size_t k = 0; k < images; k++ )
         {
            j.images.push_back( simple::image( g ) );
            j.images.back().h.guid = fmt( "{image %zu}", k );
         }
         j.shape = fmt( "simple: %zu scans, %zu images", scans, images );
         return j;
      }
      model::Gen g( r );
      j.ext = g.extensions( 2 );
      model::Gen::TreeOpts o;
      for ( auto &x : j.ext )
      {
         o.prefixes.push_back( x.first );
      }
      if ( r.chance( 1, 2 ) )
      {
         o.budget = 5 + int( r.below( 20 ) );
         o.maxBlob = 2500;
         o.maxRecords = 60;
         j.root = g.tree( o );
      }
      const unsigned n = 1 + unsigned( r.below( 3 ) );
      for ( unsigned k = 0; k < n; k++ )
      {
         if ( r.chance( 1, 2 ) )
         {
            Node b( T::Blob, fmt( "blob-%u", k ) );
            b.blob = g.binary( r.below( size ? 20000 : 3000 ) );
            j.root.kids.push_back( b );
         }
         else
         {
            j.root.kids.push_back( g.compressedVector( fmt( "cv-%u", k ), 1 + unsigned( r.below( 5 ) ), r.chance( 1, 3 ),
                                                       size == 2 ? 10000 + r.below( 30000 ) : r.below( size ? 3000 : 120 ), o.prefixes, -1 ) );
         }
      }
      j.shape = fmt( "%zu elements", j.root.kids.size() );
      return j;
   }
   // Between sections and calls, `between` may look around.
   inline void write( Job &j, const string &path, const std::function<void( ImageFile & )> &between = {}, bool finish = true )
   {
      Rng r( j.seed, 77 );
      if ( j.simple )
      {
         e57::WriterOptions o;
         o.guid = "{file}";
         e57::Writer w( path, o );
         for ( auto &s : j.scans )
         {
            simple::write( w, s, r );
         }
         for ( auto &i : j.images )
         {
            simple::writeImage( w, i, r );
         }
         if ( finish )
         {
            MON_CHECK( w.Close(), "close-refused", "" );
         }
         return;
      }
      ImageFile imf( path, "w" );
      for ( auto &x : j.ext )
      {
         imf.extensionsAdd( x.first, x.second );
      }
      Builder b( imf, r );
      b.populate( imf.root(), j.root );
      const bool first = r.chance( 1, 2 );
      if ( first )
      {
         b.writeBlobs();
      }
      for ( auto &p : b.cvs )
      {
         writeRecords( imf, e57::CompressedVectorNode( p.node ), *p.m, r );
         if ( between )
         {
            between( imf );
         }
      }
      if ( !first )
      {
         b.writeBlobs();
      }
      if ( finish )
      {
         imf.close();
      }
   }
   // one of many kinds of damage
   inline bytes damaged( bytes phys, Rng &r, string &what )
   {
      bytes b = ref::stripPages( phys, false );
      const uint64_t xmlAt = ref::toLog( ref::rd<uint64_t>( b, 24 ) ), xmlLen = ref::rd<uint64_t>( b, 32 );
      switch ( r.below( 9 ) )
      {
         case 0:
            what = "cut";
            phys.resize( r.below( phys.size() ) );
            return phys;
         case 1:
            what = "cut at a page";
            phys.resize( phys.size() / 1024 * r.below( 1024 ) / 1024 * 1024 );
            return phys;
         case 2:
            what = "bit";
            phys[r.below( phys.size() )] ^= char( 1 << r.below( 8 ) );
            return phys;
         case 3:
            what = "header";
            b[r.below( 48 )] ^= char( 1 << r.below( 8 ) );
            break;
         case 4:
         {
            what = "sections";
            for ( unsigned k = 0; k < 1 + r.below( 4 ); k++ )
            {
               b[48 + r.below( std::max<uint64_t>( 1, xmlAt - 48 ) )] ^= char( 1 + r.below( 255 ) );
            }
            break;
         }
         case 5:
         {
            // numbers and words of the XML
            what = "digits";
            for ( unsigned k = 0; k < 1 + r.below( 3 ); k++ )
            {
               for ( unsigned t = 0; t < 200; t++ )
               {
                  char &ch = b[xmlAt + r.below( xmlLen )];
                  if ( ch >= '0' && ch <= '9' )
                  {
                     ch = "0123456789-.x"[r.below( 13 )];
                     break;
                  }
               }
            }
            break;
         }
         case 6:
            what = "letters";
            b[xmlAt + r.below( xmlLen )] = "abcdefghij<>&\"'= /:"[r.below( 19 )];
            break;
         case 7:
         {
            what = "types";
            static const char *types[] = { "\"Integer\"", "\"Float\"", "\"String\"", "\"Structure\"", "\"Vector\"", "\"CompressedVector\"", "\"Blob\"", "\"ScaledInteger\"", "\"Unheard\"" };
            string x = b.substr( xmlAt, xmlLen );
            for ( unsigned k = 0; k < 8; k++ )
            {
               const string from = types[r.below( 8 )], to = types[r.below( 9 )];
               const size_t p = x.find( from, r.below( x.size() ) );
               if ( p != string::npos )
               {
                  x.replace( p, from.size(), to );
                  break;
               }
            }
            b.resize( xmlAt );
            b += x;
            b.resize( ( b.size() + 1019 ) / 1020 * 1020, ' ' );
            ref::wrAt<uint64_t>( b, 32, x.size() );
            ref::wrAt<uint64_t>( b, 16, b.size() / 1020 * 1024 );
            break;
         }
         default:
         {
            what = "element removed or doubled";
            string x = b.substr( xmlAt, xmlLen );
            const size_t p = x.find( "<", r.below( x.size() ) );
            const size_t q = p == string::npos ? p : x.find( ">", p );
            if ( q != string::npos )
            {
               const string e = x.substr( p, q - p + 1 );
               r.chance( 1, 2 ) ? x.replace( p, e.size(), "" ) : x.insert( p, e );
            }
            b.resize( xmlAt );
            b += x;
            b.resize( ( b.size() + 1019 ) / 1020 * 1020, ' ' );
            ref::wrAt<uint64_t>( b, 32, x.size() );
            ref::wrAt<uint64_t>( b, 16, b.size() / 1020 * 1024 );
         }
      }
      return ref::addPages( b );
   }
   // ---------------------------------------------------------- what was read, as bytes
   inline void put( string &o, int64_t v )
   {
      o.append( reinterpret_cast<const char *>( &v ), 8 );
   }
   inline void put( string &o, const string &s )
   {
      put( o, int64_t( s.size() ) );
      o += s;
   }
   inline void put( string &o, double d )
   {
      put( o, std::isnan( d ) ? int64_t( 0x7ff8 ) : model::bitsOf( d ) );
   }
   inline void put( string &o, const Node &n )
   {
      put( o, int64_t( n.type ) );
      put( o, n.name );
      for ( int64_t v : { n.iv, n.imin, n.imax, int64_t( n.hetero ), int64_t( n.single ), int64_t( n.records ), int64_t( n.kids.size() ), int64_t( n.cols.size() ) } )
      {
         put( o, v );
      }
      for ( double v : { n.scale, n.offset, n.fv, n.fmin, n.fmax } )
      {
         put( o, v );
      }
      put( o, n.sv );
      put( o, n.blob );
      for ( auto &k : n.kids )
      {
         put( o, k );
      }
      if ( n.proto )
      {
         put( o, *n.proto );
      }
      if ( n.codecs )
      {
         put( o, *n.codecs );
      }
      for ( auto &c : n.cols )
      {
         for ( int64_t v : c.i )
         {
            put( o, v );
         }
         for ( auto &s : c.s )
         {
            put( o, s );
         }
      }
   }
   inline string ext( const ImageFile &imf )
   {
      string o;
      for ( size_t k = 0; k < imf.extensionsCount(); k++ )
      {
         o += imf.extensionsPrefix( k ) + "=" + imf.extensionsUri( k ) + ";";
      }
      return o;
   }
   // names and paths as they are told
   inline void names( string &o, const e57::Node &n )
   {
      o += n.pathName() + "|" + n.elementName() + "\n";
      if ( n.type() == e57::TypeStructure )
      {
         e57::StructureNode s( n );
         for ( int64_t k = 0; k < s.childCount(); k++ )
         {
            names( o, s.get( k ) );
         }
      }
      if ( n.type() == e57::TypeVector )
      {
         e57::VectorNode s( n );
         for ( int64_t k = 0; k < s.childCount(); k++ )
         {
            names( o, s.get( k ) );
            // and found by its path
            o += s.get( s.get( k ).elementName() ).pathName() == s.get( k ).pathName() ? "" : "not found";
         }
      }
   }
   inline bytes readAll( const string &path )
   {
      bytes out;
      ImageFile imf( path, "r" );
      put( out, ext( imf ) );
      put( out, describe( imf.root() ) );
      names( out, imf.root() );
      imf.close();
      return out;
   }
   // what a damaged file does: an error or all its contents
   inline bytes outcome( const string &path, int pol, bool simple )
   {
      bytes out;
      try
      {
         auto a = mon::attempt( [&] {
            if ( simple )
            {
               e57::Reader rd( path, e57::ReaderOptions{ e57::ReadChecksumPolicy( pol ) } );
               e57::E57Root root;
               put( out, int64_t( rd.GetE57Root( root ) ) );
               put( out, root.guid );
               put( out, root.coordinateMetadata );
               put( out, int64_t( rd.GetData3DCount() ) );
               put( out, int64_t( rd.GetImage2DCount() ) );
               for ( int64_t i = 0; i < rd.GetData3DCount(); i++ )
               {
                  e57::Data3D h;
                  put( out, int64_t( rd.ReadData3D( i, h ) ) );
                  put( out, h.name );
                  put( out, int64_t( h.pointCount ) );
                  for ( double v : std::initializer_list<double>{ h.cartesianBounds.xMinimum, h.pose.rotation.w, h.pose.translation.x, h.temperature, h.intensityLimits.intensityMaximum, h.pointFields.pointRangeScale,
                                     h.pointFields.angleScale, h.pointFields.intensityScale, h.pointFields.timeScale, h.sphericalBounds.rangeMaximum, h.cartesianBounds.zMaximum, h.sphericalBounds.azimuthStart, h.pose.rotation.z, h.pose.translation.z,
                                     h.relativeHumidity, h.atmosphericPressure, h.acquisitionStart.dateTimeValue, h.acquisitionEnd.dateTimeValue, h.intensityLimits.intensityMinimum,
                                     h.colorLimits.colorRedMaximum, h.colorLimits.colorBlueMinimum, h.pointFields.pointRangeMinimum, h.pointFields.angleMaximum, h.pointFields.timeMinimum } )
                  {
                     put( out, v );
                  }
                  put( out, int64_t( h.pointFields.cartesianXField ) );
                  put( out, double( h.pointFields.timeMaximum ) );
                  int64_t row, col, n, gs, cs;
                  bool by;
                  put( out, int64_t( rd.GetData3DSizes( i, row, col, n, gs, cs, by ) ) );
                  put( out, row );
                  put( out, col );
                  put( out, n );
                  put( out, gs );
                  put( out, cs );
                  put( out, int64_t( by ) );
               }
               for ( int64_t i = 0; i < rd.GetImage2DCount(); i++ )
               {
                  e57::Image2D h;
                  put( out, int64_t( rd.ReadImage2D( i, h ) ) );
                  put( out, h.name );
                  put( out, h.pinholeRepresentation.focalLength );
                  put( out, int64_t( h.sphericalRepresentation.imageWidth ) );
                  e57::Image2DProjection p{}, ap{};
                  e57::Image2DType t{}, m{}, av{};
                  int64_t wd = 0, ht = 0, sz = 0;
                  put( out, int64_t( rd.GetImage2DSizes( i, p, t, wd, ht, sz, m, av ) ) );
                  put( out, wd );
                  put( out, ht );
                  put( out, sz );
               }
               rd.Close();
               return;
            }
            ImageFile imf( path, "r", e57::ReadChecksumPolicy( pol ) );
            put( out, describe( imf.root() ) );
            imf.close();
         } );
         put( out, int64_t( a.threw ) );
         put( out, int64_t( a.code ) );
      }
      catch ( const mon::Violation &v )
      {
         put( out, v.key ); // short of records, say
      }
      return out;
   }
}
