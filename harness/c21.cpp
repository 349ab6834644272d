// C21: the simple reader reports the scans and images of any conformant file as the file holds them.
// Files are synthesised by an independent encoder with any selection of optional items and stored types;
// what the reader must report is derived from the model of the file.
#include "ref.h"
#include "simple.h"
using namespace api;
using simple::same;
using NT = e57::NumericalNodeType;

struct FileGen
{
   Rng &r;
   model::Gen g;
   bool nor = false, dist = false, ext = false;
   explicit FileGen( Rng &rng ) : r( rng ), g( rng )
   {
   }
   void shuffle( Node &n )
   {
      for ( size_t k = n.kids.size(); k > 1; k-- )
      {
         std::swap( n.kids[k - 1], n.kids[r.below( k )] );
      }
   }
   Node str( const string &name, unsigned max )
   {
      Node n( T::String, name );
      n.sv = g.text( max );
      return n;
   }
   Node num( const string &name, double v, bool mayBeSingle = true )
   {
      Node n( T::Float, name );
      n.single = mayBeSingle && r.chance( 1, 4 );
      n.fv = n.single ? double( float( model::clampF( v, true ) ) ) : v;
      if ( n.single )
      {
         n.fmin = -FLT_MAX;
         n.fmax = FLT_MAX;
      }
      if ( r.chance( 1, 5 ) )
      {
         n.fmin = n.fv;
      }
      if ( r.chance( 1, 5 ) )
      {
         n.fmax = n.fv;
      }
      return n;
   }
   Node integer( const string &name, int64_t v )
   {
      Node n( T::Integer, name );
      n.iv = v;
      if ( r.chance( 1, 2 ) )
      {
         n.imin = r.chance( 1, 2 ) ? std::min<int64_t>( v, 0 ) : v;
         n.imax = r.chance( 1, 2 ) ? std::max<int64_t>( v, 65535 ) : v;
      }
      return n;
   }
   Node scaled( const string &name, int64_t raw, double scale, double offset )
   {
      Node n( T::Scaled, name );
      n.iv = raw;
      n.scale = scale;
      n.offset = offset;
      return n;
   }
   double real()
   {
      return r.chance( 1, 5 ) ? g.finiteDouble() : ( r.unit() - 0.5 ) * 200;
   }
   // a number of some type; never zero
   Node number( const string &name, int kind )
   {
      switch ( kind )
      {
         case 0:
            return integer( name, r.chance( 1, 2 ) ? r.range( 1, 70000 ) : -r.range( 1, 500 ) );
         case 1:
            return scaled( name, r.range( 1, 1000000 ), r.pick( vector<double>{ 0.001, 0.5, 2, 1e-6 } ), r.chance( 1, 2 ) ? 0 : r.unit() );
         default:
         {
            Node n = num( name, real() );
            if ( n.fv == 0 )
            {
               n = num( name, 0.75 );
            }
            return n;
         }
      }
   }
   // anything the simple interface doesn't know
   void unknown( Node &n )
   {
      if ( ext && r.chance( 1, 3 ) )
      {
         Node u = g.leafNode( "ext:extra" );
         n.kids.push_back( u );
      }
      if ( ext && r.chance( 1, 8 ) )
      {
         Node u( T::Structure, "ext:more" );
         u.kids.push_back( g.leafNode( "name" ) );
         u.kids.push_back( g.leafNode( "guid" ) );
         n.kids.push_back( u );
      }
   }
   bool opt()
   {
      return r.chance( 1, 2 );
   }
   Node when( const string &name )
   {
      Node n( T::Structure, name );
      n.kids.push_back( num( "dateTimeValue", r.chance( 1, 4 ) ? real() : 1e9 * r.unit() ) );
      if ( opt() )
      {
         n.kids.push_back( integer( "isAtomicClockReferenced", int64_t( r.below( 2 ) ) ) );
      }
      unknown( n );
      shuffle( n );
      return n;
   }
   Node pose()
   {
      Node n( T::Structure, "pose" );
      if ( r.chance( 3, 4 ) )
      {
         Node q( T::Structure, "rotation" );
         for ( const char *a : { "w", "x", "y", "z" } )
         {
            q.kids.push_back( num( a, real() ) );
         }
         shuffle( q );
         n.kids.push_back( q );
      }
      if ( r.chance( 3, 4 ) )
      {
         Node q( T::Structure, "translation" );
         for ( const char *a : { "x", "y", "z" } )
         {
            q.kids.push_back( num( a, real() ) );
         }
         shuffle( q );
         n.kids.push_back( q );
      }
      shuffle( n );
      return n;
   }
   // a field whose values fit the buffer the simple interface has for it
   Node field( const string &name, vector<int> kinds, int64_t lo, int64_t hi )
   {
      const int kind = r.pick( kinds );
      Node n( kind == 0 ? T::Integer : kind == 1 ? T::Scaled : T::Float, name );
      if ( kind <= 1 )
      {
         int64_t a = r.range( lo, hi ), b = r.range( lo, hi );
         if ( r.chance( 1, 3 ) )
         {
            a = lo;
         }
         if ( r.chance( 1, 3 ) )
         {
            b = hi;
         }
         n.imin = std::min( a, b );
         n.imax = std::max( a, b );
         n.iv = n.imin;
         if ( kind == 1 )
         {
            n.scale = r.pick( vector<double>{ 1, 0.001, 0.5, 0.01, 1e-6 } );
            n.offset = r.chance( 1, 2 ) ? 0 : r.pick( vector<double>{ 10, -3.5, 100000 } );
         }
      }
      else
      {
         n.single = kind == 2;
         n.fmax = n.single ? double( FLT_MAX ) : DBL_MAX;
         n.fmin = -n.fmax;
         if ( r.chance( 1, 3 ) )
         {
            n.fmin = -1000;
            n.fmax = 65536;
         }
      }
      return n;
   }
   int64_t fieldValue( const Node &f, double lo, double hi, bool whole )
   {
      if ( f.type == T::Float )
      {
         double v = lo + ( hi - lo ) * r.unit();
         if ( whole )
         {
            v = std::floor( v );
         }
         return f.single ? model::bitsOf( float( v ) ) : model::bitsOf( v );
      }
      return r.chance( 1, 10 ) ? f.imin : r.chance( 1, 10 ) ? f.imax : r.range( f.imin, f.imax );
   }
   Node points( size_t n, bool &colour )
   {
      Node cv( T::CompressedVector, "points" );
      cv.records = n;
      cv.codecs = std::make_shared<Node>( T::Vector, "codecs" );
      cv.codecs->hetero = true;
      Node p( T::Structure, "prototype" );
      auto add = [&]( const Node &f ) { p.kids.push_back( f ); };
      const vector<int> any{ 0, 1, 2, 3 }, real{ 1, 2, 3 }, whole{ 0 };
      const int64_t M = 1000000;
      const bool cart = r.chance( 3, 4 ), sph = !cart || r.chance( 1, 4 );
      if ( cart )
      {
         const vector<int> k{ r.pick( any ) };
         for ( const char *a : { "cartesianX", "cartesianY", "cartesianZ" } )
         {
            if ( r.chance( 9, 10 ) )
            {
               add( field( a, r.chance( 1, 4 ) ? any : k, -M, M ) );
            }
         }
      }
      if ( sph )
      {
         add( field( "sphericalRange", any, 0, M ) );
         if ( r.chance( 9, 10 ) )
         {
            add( field( "sphericalAzimuth", real, -M, M ) ); // the simple interface has no integer azimuths
         }
         if ( r.chance( 9, 10 ) )
         {
            add( field( "sphericalElevation", any, -M, M ) );
         }
      }
      auto coin = [&] { return r.chance( 1, 3 ); };
      if ( coin() )
      {
         add( field( "cartesianInvalidState", whole, 0, 2 ) );
      }
      if ( coin() )
      {
         add( field( "sphericalInvalidState", whole, 0, 2 ) );
      }
      if ( coin() )
      {
         add( field( "intensity", any, r.chance( 1, 2 ) ? 0 : -500, 70000 ) );
      }
      if ( coin() )
      {
         add( field( "isIntensityInvalid", whole, 0, 1 ) );
      }
      colour = coin();
      if ( colour )
      {
         for ( const char *a : { "colorRed", "colorGreen", "colorBlue" } )
         {
            Node f = field( a, any, 0, r.chance( 1, 2 ) ? 255 : 65535 );
            f.scale = f.type == T::Scaled ? r.pick( vector<double>{ 1, 0.5 } ) : f.scale;
            f.offset = f.type == T::Scaled ? double( r.below( 2 ) ) * 0.25 : f.offset;
            add( f );
         }
      }
      if ( coin() )
      {
         add( field( "isColorInvalid", whole, 0, 1 ) );
      }
      if ( coin() )
      {
         add( field( "rowIndex", whole, 0, r.chance( 1, 3 ) ? INT32_MAX : 5000 ) );
      }
      if ( coin() )
      {
         add( field( "columnIndex", whole, 0, r.chance( 1, 3 ) ? INT32_MAX : 5000 ) );
      }
      if ( coin() )
      {
         add( field( "returnIndex", whole, 0, 127 ) );
      }
      if ( coin() )
      {
         add( field( "returnCount", whole, 0, 127 ) );
      }
      if ( coin() )
      {
         add( field( "timeStamp", any, 0, 1LL << 40 ) );
      }
      if ( coin() )
      {
         add( field( "isTimeStampInvalid", whole, 0, 1 ) );
      }
      if ( nor && coin() )
      {
         for ( const char *a : { "nor:normalX", "nor:normalY", "nor:normalZ" } )
         {
            add( field( a, any, -1000, 1000 ) );
         }
      }
      // fields nobody asks for, also nested ones and ones named alike
      while ( ext && r.chance( 1, 3 ) )
      {
         const string name = r.pick( vector<string>{ "ext:cartesianX", "ext:colorRed", "ext:weight", "ext:intensity", "ext:label" } );
         if ( !p.kid( name ) )
         {
            add( g.fieldNode( name ) );
         }
         else
         {
            break;
         }
      }
      if ( ext && r.chance( 1, 6 ) )
      {
         Node s( T::Structure, "ext:inner" );
         s.kids.push_back( g.fieldNode( "cartesianX" ) );
         s.kids.push_back( g.fieldNode( "rowIndex" ) );
         add( s );
      }
      shuffle( p );
      cv.proto = std::make_shared<Node>( p );
      for ( auto &l : model::leaves( *cv.proto ) )
      {
         cv.cols.emplace_back();
         auto &c = cv.cols.back();
         if ( l.path.find( "ext:" ) == 0 )
         {
            g.fillColumn( *l.node, c, n );
            continue;
         }
         const bool col = l.path.find( "color" ) == 0;
         for ( size_t k = 0; k < n; k++ )
         {
            c.i.push_back( fieldValue( *l.node, col ? 0 : -999, col ? 65535 : 9999, col ) );
         }
      }
      return cv;
   }
   Node groups()
   {
      Node s( T::Structure, "pointGroupingSchemes" );
      if ( r.chance( 1, 8 ) )
      {
         return s;
      }
      Node b( T::Structure, "groupingByLine" );
      Node id( T::String, "idElementName" );
      id.sv = r.chance( 1, 2 ) ? "rowIndex" : "columnIndex";
      b.kids.push_back( id );
      Node cv( T::CompressedVector, "groups" );
      cv.codecs = std::make_shared<Node>( T::Vector, "codecs" );
      cv.codecs->hetero = true;
      cv.records = r.chance( 1, 8 ) ? r.below( 3000 ) : r.below( 30 );
      Node p( T::Structure, "prototype" );
      for ( const char *a : { "idElementValue", "startPointIndex", "pointCount" } )
      {
         if ( r.chance( 5, 6 ) || ( p.kids.empty() && string( a ) == "pointCount" ) )
         {
            p.kids.push_back( field( a, { 0 }, 0, r.chance( 1, 5 ) ? INT64_MAX : 5000 ) );
         }
      }
      if ( r.chance( 1, 4 ) )
      {
         Node box( T::Structure, "cartesianBounds" );
         for ( const char *a : { "xMinimum", "xMaximum", "yMinimum", "yMaximum", "zMinimum", "zMaximum" } )
         {
            box.kids.push_back( field( a, { 2, 3 }, 0, 0 ) );
         }
         p.kids.push_back( box );
      }
      if ( ext && r.chance( 1, 4 ) )
      {
         p.kids.push_back( g.fieldNode( "ext:mark" ) );
      }
      shuffle( p );
      cv.proto = std::make_shared<Node>( p );
      for ( auto &l : model::leaves( *cv.proto ) )
      {
         cv.cols.emplace_back();
         g.fillColumn( *l.node, cv.cols.back(), cv.records );
      }
      b.kids.push_back( cv );
      unknown( b );
      shuffle( b );
      s.kids.push_back( b );
      return s;
   }
   Node scan( size_t n )
   {
      Node s( T::Structure, "" );
      bool colour = false;
      s.kids.push_back( points( n, colour ) );
      s.kids.push_back( str( "guid", 40 ) );
      for ( const char *a : { "name", "description", "sensorVendor", "sensorModel", "sensorSerialNumber", "sensorHardwareVersion", "sensorSoftwareVersion",
                              "sensorFirmwareVersion" } )
      {
         if ( opt() )
         {
            s.kids.push_back( str( a, 30 ) );
         }
      }
      if ( r.chance( 1, 3 ) )
      {
         Node v( T::Vector, "originalGuids" );
         for ( size_t k = r.below( 5 ); k > 0; k-- )
         {
            v.kids.push_back( str( "", 30 ) );
         }
         s.kids.push_back( v );
      }
      for ( const char *a : { "temperature", "relativeHumidity", "atmosphericPressure" } )
      {
         if ( opt() )
         {
            Node f = num( a, 0 );
            f.fmin = f.single ? -FLT_MAX : -DBL_MAX;
            f.fmax = -f.fmin;
            f.fv = double( r.chance( 1, 4 ) ? g.finiteFloat() : float( r.unit() * 100 ) );
            s.kids.push_back( f );
         }
      }
      if ( opt() )
      {
         Node b( T::Structure, "indexBounds" );
         for ( const char *a : { "row", "column", "return" } )
         {
            if ( opt() )
            {
               const int64_t top = r.chance( 1, 5 ) ? ( 1LL << 62 ) : 3000;
               const int64_t lo = r.chance( 1, 2 ) ? 0 : r.range( -top, top ), hi = r.range( lo, std::max( lo, top ) );
               b.kids.push_back( integer( string( a ) + "Minimum", lo ) );
               b.kids.push_back( integer( string( a ) + "Maximum", hi ) );
            }
         }
         shuffle( b );
         s.kids.push_back( b );
      }
      auto box = [&]( const string &name, vector<vector<const char *>> sets, vector<int> kinds ) {
         Node b( T::Structure, name );
         for ( auto &set : sets )
         {
            const int kind = r.pick( kinds );
            for ( auto *a : set )
            {
               b.kids.push_back( number( a, kind ) );
            }
         }
         unknown( b );
         shuffle( b );
         s.kids.push_back( b );
      };
      if ( opt() )
      {
         box( "cartesianBounds", { { "xMinimum", "xMaximum", "yMinimum", "yMaximum", "zMinimum", "zMaximum" } }, { 1, 2 } );
      }
      if ( opt() )
      {
         box( "sphericalBounds", { { "rangeMinimum", "rangeMaximum" }, { "elevationMinimum", "elevationMaximum" }, { "azimuthStart", "azimuthEnd" } }, { 1, 2 } );
      }
      if ( opt() )
      {
         box( "intensityLimits", { { "intensityMinimum", "intensityMaximum" } }, { 0, 1, 2 } );
      }
      if ( opt() )
      {
         box( "colorLimits", { { "colorRedMinimum", "colorRedMaximum", "colorGreenMinimum", "colorGreenMaximum", "colorBlueMinimum", "colorBlueMaximum" } }, { 0, 1, 2 } );
      }
      if ( opt() )
      {
         s.kids.push_back( pose() );
      }
      if ( opt() )
      {
         s.kids.push_back( when( "acquisitionStart" ) );
      }
      if ( opt() )
      {
         s.kids.push_back( when( "acquisitionEnd" ) );
      }
      if ( r.chance( 1, 3 ) )
      {
         s.kids.push_back( groups() );
      }
      unknown( s );
      shuffle( s );
      return s;
   }
   Node blob( const string &name )
   {
      Node b( T::Blob, name );
      b.blob = g.binary( 1 + r.below( r.chance( 1, 6 ) ? 9000 : 300 ) );
      return b;
   }
   Node representation( const string &name, vector<const char *> floats )
   {
      Node n( T::Structure, name );
      n.kids.push_back( integer( "imageWidth", r.range( 1, 70000 ) ) );
      n.kids.push_back( integer( "imageHeight", r.range( 1, 70000 ) ) );
      n.kids.push_back( blob( r.chance( 1, 2 ) ? "jpegImage" : "pngImage" ) );
      if ( r.chance( 1, 3 ) )
      {
         n.kids.push_back( blob( "imageMask" ) );
      }
      for ( auto *f : floats )
      {
         n.kids.push_back( num( f, real() ) );
      }
      unknown( n );
      shuffle( n );
      return n;
   }
   Node image()
   {
      Node s( T::Structure, "" );
      s.kids.push_back( str( "guid", 40 ) );
      for ( const char *a : { "name", "description", "sensorVendor", "sensorModel", "sensorSerialNumber", "associatedData3DGuid" } )
      {
         if ( opt() )
         {
            s.kids.push_back( str( a, 30 ) );
         }
      }
      if ( opt() )
      {
         s.kids.push_back( when( "acquisitionDateTime" ) );
      }
      if ( opt() )
      {
         s.kids.push_back( pose() );
      }
      const unsigned proj = unsigned( r.below( 5 ) );
      if ( proj == 0 || r.chance( 1, 4 ) )
      {
         s.kids.push_back( representation( "visualReferenceRepresentation", {} ) );
      }
      if ( proj == 1 )
      {
         s.kids.push_back( representation( "pinholeRepresentation", { "focalLength", "pixelWidth", "pixelHeight", "principalPointX", "principalPointY" } ) );
      }
      if ( proj == 2 )
      {
         s.kids.push_back( representation( "sphericalRepresentation", { "pixelWidth", "pixelHeight" } ) );
      }
      if ( proj == 3 )
      {
         s.kids.push_back( representation( "cylindricalRepresentation", { "pixelWidth", "pixelHeight", "radius", "principalPointY" } ) );
      }
      if ( dist && opt() )
      {
         Node d( T::Structure, "dist:distortion" );
         if ( opt() )
         {
            d.kids.push_back( integer( "dist:CameraNumber", int64_t( r.below( 100 ) ) ) );
         }
         if ( opt() )
         {
            d.kids.push_back( str( "dist:Type", 20 ) );
         }
         for ( const char *f : { "K1", "K2", "K3", "K4", "K5", "K6", "P1", "P2", "CX", "CY", "FX", "FY" } )
         {
            if ( opt() )
            {
               d.kids.push_back( num( string( "dist:CV_" ) + f, real() ) );
            }
         }
         for ( const char *f : { "dist:CV_HEIGHT", "dist:CV_WIDTH" } )
         {
            if ( opt() )
            {
               d.kids.push_back( integer( f, r.range( 1, 70000 ) ) );
            }
         }
         shuffle( d );
         s.kids.push_back( d );
      }
      unknown( s );
      shuffle( s );
      return s;
   }
   Node root( unsigned scans, unsigned images )
   {
      Node n( T::Structure, "" );
      Node f( T::String, "formatName" );
      f.sv = "ASTM E57 3D Imaging Data File";
      n.kids.push_back( f );
      n.kids.push_back( str( "guid", 40 ) );
      n.kids.push_back( integer( "versionMajor", 1 ) );
      n.kids.push_back( integer( "versionMinor", int64_t( r.below( 3 ) ) ) );
      if ( opt() )
      {
         n.kids.push_back( str( "e57LibraryVersion", 30 ) );
      }
      if ( opt() )
      {
         n.kids.push_back( str( "coordinateMetadata", 200 ) );
      }
      if ( opt() )
      {
         n.kids.push_back( when( "creationDateTime" ) );
      }
      if ( scans || opt() )
      {
         Node v( T::Vector, "data3D" );
         v.hetero = true;
         for ( unsigned k = 0; k < scans; k++ )
         {
            v.kids.push_back( scan( r.chance( 1, 6 ) ? r.below( 3 ) : r.chance( 1, 5 ) ? r.below( 3000 ) : r.below( 80 ) ) );
         }
         n.kids.push_back( v );
      }
      if ( images || opt() )
      {
         Node v( T::Vector, "images2D" );
         v.hetero = true;
         for ( unsigned k = 0; k < images; k++ )
         {
            v.kids.push_back( image() );
         }
         n.kids.push_back( v );
      }
      unknown( n );
      shuffle( n );
      return n;
   }
};

// ------------------------------------------------------------ what must be reported
static Node *at( Node *n, std::initializer_list<const char *> path )
{
   for ( auto *p : path )
   {
      n = n ? n->kid( p ) : nullptr;
   }
   return n;
}
static double val( const Node &n )
{
   return n.type == T::Integer ? double( n.iv ) : n.type == T::Scaled ? double( n.iv ) * n.scale + n.offset : n.fv;
}
static double bound( const Node &n, bool upper )
{
   if ( n.type == T::Float )
   {
      return upper ? n.fmax : n.fmin;
   }
   const double v = double( upper ? n.imax : n.imin );
   return n.type == T::Scaled ? v * n.scale + n.offset : v;
}
static NT typeOf( const Node &n )
{
   return n.type == T::Integer ? NT::Integer : n.type == T::Scaled ? NT::ScaledInteger : n.single ? NT::Float : NT::Double;
}
static bool close( double a, double b )
{
   return same( a, b ) || a == b || std::fabs( a - b ) <= 4e-16 * ( std::fabs( a ) + std::fabs( b ) );
}

struct Watch
{
   string where;
   void text( const char *what, const string &want, const string &got )
   {
      MON_CHECK( want == got, "header-differs", fmt( "%s %s: %s reported as %s", where.c_str(), what, mon::quote( want ).c_str(), mon::quote( got ).c_str() ) );
      mon::count( "header items compared" );
   }
   void number( const char *what, double want, double got )
   {
      MON_CHECK( close( want, got ), "header-differs", fmt( "%s %s: %.17g reported as %.17g", where.c_str(), what, want, got ) );
      mon::count( "header items compared" );
   }
   void integer( const char *what, int64_t want, int64_t got )
   {
      MON_CHECK( want == got, "header-differs", fmt( "%s %s: %" PRId64 " reported as %" PRId64, where.c_str(), what, want, got ) );
      mon::count( "header items compared" );
   }
   void text( const char *what, Node *in, const string &got )
   {
      Node *n = at( in, { what } );
      text( what, n ? n->sv : string(), got );
   }
   void number( const char *what, Node *in, double fallback, double got )
   {
      Node *n = at( in, { what } );
      if ( n && n->single )
      {
         // digits beyond the precision of the element don't matter
         number( what, n->fv, double( float( got ) ) );
         return;
      }
      number( what, n ? val( *n ) : fallback, got );
   }
   void when( const char *what, Node *in, const e57::DateTime &got )
   {
      Node *n = at( in, { what } );
      number( "dateTimeValue", n, 0, got.dateTimeValue );
      Node *a = at( n, { "isAtomicClockReferenced" } );
      integer( "isAtomicClockReferenced", a ? a->iv : 0, got.isAtomicClockReferenced );
   }
   void pose( Node *in, const e57::RigidBodyTransform &p )
   {
      Node *q = at( in, { "pose", "rotation" } ), *t = at( in, { "pose", "translation" } );
      number( "w", q, 1, p.rotation.w );
      number( "x", q, 0, p.rotation.x );
      number( "y", q, 0, p.rotation.y );
      number( "z", q, 0, p.rotation.z );
      number( "x", t, 0, p.translation.x );
      number( "y", t, 0, p.translation.y );
      number( "z", t, 0, p.translation.z );
   }
};

static int64_t extent( Node *b, const char *lo, const char *hi )
{
   Node *h = at( b, { hi } );
   return h ? h->iv - at( b, { lo } )->iv + 1 : 0;
}

static int64_t span( int64_t lo, int64_t hi )
{
   const uint64_t n = uint64_t( hi ) - uint64_t( lo );
   return hi < lo ? 0 : n < uint64_t( INT64_MAX ) ? int64_t( n + 1 ) : INT64_MAX;
}

static void checkScanHeader( const e57::Reader &rd, int64_t k, Node *s, e57::Data3D &h )
{
   Watch w{ fmt( "scan %" PRId64, k ) };
   MON_CHECK( rd.ReadData3D( k, h ), "header-refused", w.where );
   Node *pts = at( s, { "points" } );
   Node *p = pts->proto.get();
   w.integer( "pointCount", int64_t( pts->records ), int64_t( h.pointCount ) );
   w.text( "guid", s, h.guid );
   w.text( "name", s, h.name );
   w.text( "description", s, h.description );
   w.text( "sensorVendor", s, h.sensorVendor );
   w.text( "sensorModel", s, h.sensorModel );
   w.text( "sensorSerialNumber", s, h.sensorSerialNumber );
   w.text( "sensorHardwareVersion", s, h.sensorHardwareVersion );
   w.text( "sensorSoftwareVersion", s, h.sensorSoftwareVersion );
   w.text( "sensorFirmwareVersion", s, h.sensorFirmwareVersion );
   Node *og = at( s, { "originalGuids" } );
   w.integer( "originalGuids", og ? int64_t( og->kids.size() ) : 0, int64_t( h.originalGuids.size() ) );
   for ( size_t j = 0; og && j < og->kids.size(); j++ )
   {
      w.text( "originalGuid", og->kids[j].sv, h.originalGuids[j] );
   }
   w.number( "temperature", s, double( e57::FLOAT_MAX ), double( h.temperature ) );
   w.number( "relativeHumidity", s, double( e57::FLOAT_MAX ), double( h.relativeHumidity ) );
   w.number( "atmosphericPressure", s, double( e57::FLOAT_MAX ), double( h.atmosphericPressure ) );
   Node *ib = at( s, { "indexBounds" } );
   w.number( "rowMinimum", ib, 0, double( h.indexBounds.rowMinimum ) );
   w.number( "rowMaximum", ib, 0, double( h.indexBounds.rowMaximum ) );
   w.number( "columnMinimum", ib, 0, double( h.indexBounds.columnMinimum ) );
   w.number( "columnMaximum", ib, 0, double( h.indexBounds.columnMaximum ) );
   w.number( "returnMinimum", ib, 0, double( h.indexBounds.returnMinimum ) );
   w.number( "returnMaximum", ib, 0, double( h.indexBounds.returnMaximum ) );
   const e57::Data3D none;
   Node *cb = at( s, { "cartesianBounds" } );
   w.number( "xMinimum", cb, none.cartesianBounds.xMinimum, h.cartesianBounds.xMinimum );
   w.number( "xMaximum", cb, none.cartesianBounds.xMaximum, h.cartesianBounds.xMaximum );
   w.number( "yMinimum", cb, none.cartesianBounds.yMinimum, h.cartesianBounds.yMinimum );
   w.number( "yMaximum", cb, none.cartesianBounds.yMaximum, h.cartesianBounds.yMaximum );
   w.number( "zMinimum", cb, none.cartesianBounds.zMinimum, h.cartesianBounds.zMinimum );
   w.number( "zMaximum", cb, none.cartesianBounds.zMaximum, h.cartesianBounds.zMaximum );
   Node *sb = at( s, { "sphericalBounds" } );
   w.number( "rangeMinimum", sb, none.sphericalBounds.rangeMinimum, h.sphericalBounds.rangeMinimum );
   w.number( "rangeMaximum", sb, none.sphericalBounds.rangeMaximum, h.sphericalBounds.rangeMaximum );
   w.number( "elevationMinimum", sb, none.sphericalBounds.elevationMinimum, h.sphericalBounds.elevationMinimum );
   w.number( "elevationMaximum", sb, none.sphericalBounds.elevationMaximum, h.sphericalBounds.elevationMaximum );
   w.number( "azimuthStart", sb, none.sphericalBounds.azimuthStart, h.sphericalBounds.azimuthStart );
   w.number( "azimuthEnd", sb, none.sphericalBounds.azimuthEnd, h.sphericalBounds.azimuthEnd );
   w.pose( s, h.pose );
   w.when( "acquisitionStart", s, h.acquisitionStart );
   w.when( "acquisitionEnd", s, h.acquisitionEnd );

   // limits as given, otherwise the range of the field
   auto limits = [&]( Node *box, const string &lo, const string &hi, const char *field, double gotLo, double gotHi ) {
      Node *f = at( p, { field } );
      if ( box )
      {
         w.number( lo.c_str(), box, 0, gotLo );
         w.number( hi.c_str(), box, 0, gotHi );
         return;
      }
      w.number( lo.c_str(), f ? bound( *f, false ) : 0, gotLo );
      w.number( hi.c_str(), f ? bound( *f, true ) : 0, gotHi );
   };
   // (a maximum of zero stands for no limits)
   auto given = [&]( Node *box, const char *hi ) { return box && val( *at( box, { hi } ) ) != 0 ? box : nullptr; };
   Node *il = at( s, { "intensityLimits" } ), *cl = at( s, { "colorLimits" } );
   if ( !il || given( il, "intensityMaximum" ) )
   {
      limits( il, "intensityMinimum", "intensityMaximum", "intensity", h.intensityLimits.intensityMinimum, h.intensityLimits.intensityMaximum );
   }
   limits( cl, "colorRedMinimum", "colorRedMaximum", "colorRed", h.colorLimits.colorRedMinimum, h.colorLimits.colorRedMaximum );
   limits( cl, "colorGreenMinimum", "colorGreenMaximum", "colorGreen", h.colorLimits.colorGreenMinimum, h.colorLimits.colorGreenMaximum );
   limits( cl, "colorBlueMinimum", "colorBlueMaximum", "colorBlue", h.colorLimits.colorBlueMinimum, h.colorLimits.colorBlueMaximum );

   auto &f = h.pointFields;
   struct
   {
      const char *name;
      bool got;
   } flags[] = { { "cartesianX", f.cartesianXField }, { "cartesianY", f.cartesianYField }, { "cartesianZ", f.cartesianZField },
                 { "cartesianInvalidState", f.cartesianInvalidStateField }, { "sphericalRange", f.sphericalRangeField },
                 { "sphericalAzimuth", f.sphericalAzimuthField }, { "sphericalElevation", f.sphericalElevationField },
                 { "sphericalInvalidState", f.sphericalInvalidStateField }, { "rowIndex", f.rowIndexField }, { "columnIndex", f.columnIndexField },
                 { "returnIndex", f.returnIndexField }, { "returnCount", f.returnCountField }, { "timeStamp", f.timeStampField },
                 { "isTimeStampInvalid", f.isTimeStampInvalidField }, { "intensity", f.intensityField }, { "isIntensityInvalid", f.isIntensityInvalidField },
                 { "colorRed", f.colorRedField }, { "colorGreen", f.colorGreenField }, { "colorBlue", f.colorBlueField },
                 { "isColorInvalid", f.isColorInvalidField }, { "nor:normalX", f.normalXField }, { "nor:normalY", f.normalYField }, { "nor:normalZ", f.normalZField } };
   for ( auto &x : flags )
   {
      w.integer( x.name, at( p, { x.name } ) != nullptr, x.got );
   }
   auto axis = [&]( Node *n, const char *what, NT type, double scale, double lo, double hi, bool integers ) {
      if ( !n || ( n->type == T::Integer && !integers ) )
      {
         return;
      }
      w.integer( what, int( typeOf( *n ) ), int( type ) );
      w.number( what, bound( *n, false ), lo );
      w.number( what, bound( *n, true ), hi );
      if ( n->type == T::Scaled )
      {
         w.number( what, n->scale, scale );
      }
   };
   Node *x = at( p, { "cartesianX" } );
   axis( x ? x : at( p, { "sphericalRange" } ), "range of points", f.pointRangeNodeType, f.pointRangeScale, f.pointRangeMinimum, f.pointRangeMaximum, false );
   axis( at( p, { "sphericalAzimuth" } ), "range of angles", f.angleNodeType, f.angleScale, f.angleMinimum, f.angleMaximum, false );
   axis( at( p, { "timeStamp" } ), "range of times", f.timeNodeType, f.timeScale, f.timeMinimum, f.timeMaximum, true );
   if ( Node *i = at( p, { "intensity" } ) )
   {
      w.integer( "type of intensities", int( typeOf( *i ) ), int( f.intensityNodeType ) );
      if ( i->type == T::Scaled )
      {
         w.number( "scale of intensities", i->scale, f.intensityScale );
      }
   }
   auto top = [&]( const char *n, int64_t got ) {
      Node *q = at( p, { n } );
      w.integer( n, q ? q->imax : 0, got );
   };
   top( "rowIndex", f.rowIndexMaximum );
   top( "columnIndex", f.columnIndexMaximum );
   top( "returnIndex", f.returnMaximum );

   // grouping and sizes
   Node *by = at( s, { "pointGroupingSchemes", "groupingByLine" } );
   auto &gl = h.pointGroupingSchemes.groupingByLine;
   w.text( "idElementName", by, gl.idElementName );
   Node *gr = at( by, { "groups" } );
   Node *pc = gr ? at( gr->proto.get(), { "pointCount" } ) : nullptr;
   w.integer( "groupsSize", gr ? int64_t( gr->records ) : 0, gl.groupsSize );
   w.integer( "pointCountSize", pc ? pc->imax : 0, gl.pointCountSize );
   int64_t row = -1, col = -1, n = -1, m = -1, cnt = -1;
   bool byCol = true;
   MON_CHECK( rd.GetData3DSizes( k, row, col, n, m, cnt, byCol ), "sizes-refused", w.where );
   w.integer( "pointsSize", int64_t( pts->records ), n );
   w.integer( "groupsSize", gr ? int64_t( gr->records ) : 0, m );
   w.integer( "by column", by && at( by, { "idElementName" } )->sv == "columnIndex", byCol );
   const int64_t rows = extent( ib, "rowMinimum", "rowMaximum" ), cols = extent( ib, "columnMinimum", "columnMaximum" );
   // What the file doesn't say follows from the rest: a line by column has one point per row and the other way round
   const bool lineIsColumn = by && at( by, { "idElementName" } )->sv == "columnIndex";
   Node *id = gr ? at( gr->proto.get(), { "idElementValue" } ) : nullptr;
   const int64_t perLine = pc ? pc->imax : !by ? 0 : lineIsColumn ? rows : cols;
   const int64_t lines = id ? span( id->imin, id->imax ) : !by ? 0 : lineIsColumn ? cols : rows;
   w.integer( "points per group", perLine, cnt );
   w.integer( "rows", rows ? rows : lineIsColumn ? perLine : lines, row );
   w.integer( "columns", cols ? cols : lineIsColumn ? lines : perLine, col );
   if ( by && !pc )
   {
      mon::count( "line lengths derived" );
   }
   mon::count( "scan headers read" );
}

static void checkGroups( const e57::Reader &rd, int64_t k, Node *s, Rng &r )
{
   Node *gr = at( s, { "pointGroupingSchemes", "groupingByLine", "groups" } );
   if ( !gr )
   {
      int64_t a = 7, b = 7, c = 7;
      MON_CHECK( !rd.ReadData3DGroupsData( k, 1, &a, &b, &c ) && a == 7 && b == 7 && c == 7, "groups-invented", fmt( "scan %" PRId64, k ) );
      return;
   }
   if ( gr->records == 0 )
   {
      return;
   }
   const size_t ask = r.chance( 1, 2 ) ? gr->records : 1 + r.below( gr->records + 5 );
   const int64_t untouched = 0x5A5A5A5A5A5A5A5ALL;
   vector<int64_t> v[3];
   const char *names[] = { "idElementValue", "startPointIndex", "pointCount" };
   auto lv = model::leaves( *gr->proto );
   bool any = false;
   int64_t *ptr[3];
   const Column *want[3] = { nullptr, nullptr, nullptr };
   for ( unsigned j = 0; j < 3; j++ )
   {
      v[j].assign( ask, untouched );
      ptr[j] = r.chance( 7, 8 ) ? v[j].data() : nullptr;
      for ( size_t c = 0; c < lv.size(); c++ )
      {
         if ( lv[c].path == names[j] )
         {
            want[j] = &gr->cols[c];
            any = any || ptr[j];
         }
      }
   }
   if ( !any )
   {
      return;
   }
   MON_CHECK( rd.ReadData3DGroupsData( k, ask, ptr[0], ptr[1], ptr[2] ), "groups-refused", fmt( "scan %" PRId64, k ) );
   for ( unsigned j = 0; j < 3; j++ )
   {
      for ( size_t i = 0; ptr[j] && i < ask; i++ )
      {
         const int64_t exp = want[j] && i < gr->records ? want[j]->i[i] : untouched;
         MON_CHECK( v[j][i] == exp, "groups-differ", fmt( "scan %" PRId64 " %s[%zu]: %" PRId64 " vs %" PRId64, k, names[j], i, exp, v[j][i] ) );
         mon::count( "group values compared" );
      }
   }
}

template <class C> static void checkPoints( e57::Reader &rd, int64_t k, Node *s, e57::Data3D h, Rng &r )
{
   Node *pts = at( s, { "points" } );
   auto lv = model::leaves( *pts->proto );
   const size_t n = pts->records;
   const size_t block = r.chance( 1, 3 ) ? n + 1 + r.below( 10 ) : 1 + r.below( n + 1 );
   const bool subset = r.chance( 1, 3 );
   simple::Scan dummy;
   auto f = h.pointFields;
   if ( subset )
   {
      e57::PointStandardizedFieldsAvailable *q = &f;
      for ( bool *b : { &q->cartesianXField, &q->cartesianYField, &q->cartesianZField, &q->cartesianInvalidStateField, &q->sphericalRangeField, &q->sphericalAzimuthField,
                        &q->sphericalElevationField, &q->sphericalInvalidStateField, &q->rowIndexField, &q->columnIndexField, &q->returnIndexField, &q->returnCountField,
                        &q->timeStampField, &q->isTimeStampInvalidField, &q->intensityField, &q->isIntensityInvalidField, &q->colorRedField, &q->colorGreenField,
                        &q->colorBlueField, &q->isColorInvalidField, &q->normalXField, &q->normalYField, &q->normalZField } )
      {
         *b = *b && r.chance( 1, 2 );
      }
   }
   else if ( r.chance( 1, 4 ) )
   {
      f.cartesianXField = f.sphericalRangeField = f.intensityField = f.colorRedField = f.rowIndexField = f.timeStampField = f.normalXField = true; // buffers for fields that may not be there
   }
   simple::Bufs<C> b( dummy, f, block );
   bool any = false;
   simple::eachField( f, b.p, dummy, [&]( const char *name, bool on, auto *&, auto & ) {
      const string path = string( name ).find( "normal" ) == 0 ? string( "nor:" ) + name : name;
      any = any || ( on && at( pts->proto.get(), { path.c_str() } ) );
   } );
   if ( !any )
   {
      return;
   }
   e57::CompressedVectorReader cr = rd.SetUpData3DPointsData( k, block, b.p );
   size_t done = 0;
   for ( ;; )
   {
      const unsigned got = cr.read();
      MON_CHECK( got == std::min( block, n - done ), "point-count", fmt( "scan %" PRId64 ": read %u of %zu at %zu", k, got, block, done ) );
      if ( got == 0 )
      {
         break;
      }
      simple::eachField( f, b.p, dummy, [&]( const char *name, bool on, auto *&ptr, auto & ) {
         if ( !on )
         {
            return;
         }
         const string path = string( name ).find( "normal" ) == 0 ? string( "nor:" ) + name : name;
         for ( size_t c = 0; c < lv.size(); c++ )
         {
            if ( lv[c].path != path )
            {
               continue;
            }
            const Node &fn = *lv[c].node;
            for ( size_t i = 0; i < got; i++ )
            {
               const int64_t raw = pts->cols[c].i[done + i];
               using E = typename std::remove_reference<decltype( *ptr )>::type;
               bool right;
               double want;
               if ( fn.type == T::Float )
               {
                  want = fn.single ? double( model::asFloat( raw ) ) : model::asDouble( raw );
               }
               else if ( fn.type == T::Scaled )
               {
                  want = double( raw ) * fn.scale + fn.offset;
               }
               else
               {
                  want = double( raw );
               }
               if ( std::is_floating_point<E>::value )
               {
                  right = close( double( E( want ) ), double( ptr[i] ) ) || ( std::is_same<E, float>::value && std::fabs( want - double( ptr[i] ) ) <= 6e-8 * std::fabs( want ) );
               }
               else
               {
                  right = std::fabs( want - double( ptr[i] ) ) <= 0.5;
               }
               MON_CHECK( right, "points-differ", fmt( "scan %" PRId64 " point %zu %s: %.17g delivered as %.17g", k, done + i, path.c_str(), want, double( ptr[i] ) ) );
               mon::count( "point values compared" );
            }
         }
      } );
      done += got;
   }
   cr.close();
   mon::count( "scans read" );
}

static void checkImage( const e57::Reader &rd, int64_t k, Node *s, Rng &r )
{
   Watch w{ fmt( "image %" PRId64, k ) };
   e57::Image2D h;
   MON_CHECK( rd.ReadImage2D( k, h ), "header-refused", w.where );
   w.text( "guid", s, h.guid );
   w.text( "name", s, h.name );
   w.text( "description", s, h.description );
   w.text( "sensorVendor", s, h.sensorVendor );
   w.text( "sensorModel", s, h.sensorModel );
   w.text( "sensorSerialNumber", s, h.sensorSerialNumber );
   w.text( "associatedData3DGuid", s, h.associatedData3DGuid );
   w.when( "acquisitionDateTime", s, h.acquisitionDateTime );
   w.pose( s, h.pose );
   auto size = [&]( Node *rep, const char *blob ) {
      Node *b = at( rep, { blob } );
      return b ? int64_t( b->blob.size() ) : 0;
   };
   auto common = [&]( Node *rep, const auto &got ) {
      w.integer( "jpegImage", size( rep, "jpegImage" ), got.jpegImageSize );
      w.integer( "pngImage", size( rep, "pngImage" ), got.pngImageSize );
      w.integer( "imageMask", size( rep, "imageMask" ), got.imageMaskSize );
      w.integer( "imageWidth", rep ? at( rep, { "imageWidth" } )->iv : 0, got.imageWidth );
      w.integer( "imageHeight", rep ? at( rep, { "imageHeight" } )->iv : 0, got.imageHeight );
   };
   Node *vis = at( s, { "visualReferenceRepresentation" } ), *pin = at( s, { "pinholeRepresentation" } ), *sph = at( s, { "sphericalRepresentation" } ),
        *cyl = at( s, { "cylindricalRepresentation" } );
   common( vis, h.visualReferenceRepresentation );
   common( pin, h.pinholeRepresentation );
   common( sph, h.sphericalRepresentation );
   common( cyl, h.cylindricalRepresentation );
   w.number( "focalLength", pin, 0, h.pinholeRepresentation.focalLength );
   w.number( "pixelWidth", pin, 0, h.pinholeRepresentation.pixelWidth );
   w.number( "pixelHeight", pin, 0, h.pinholeRepresentation.pixelHeight );
   w.number( "principalPointX", pin, 0, h.pinholeRepresentation.principalPointX );
   w.number( "principalPointY", pin, 0, h.pinholeRepresentation.principalPointY );
   w.number( "pixelWidth", sph, 0, h.sphericalRepresentation.pixelWidth );
   w.number( "pixelHeight", sph, 0, h.sphericalRepresentation.pixelHeight );
   w.number( "pixelWidth", cyl, 0, h.cylindricalRepresentation.pixelWidth );
   w.number( "pixelHeight", cyl, 0, h.cylindricalRepresentation.pixelHeight );
   w.number( "radius", cyl, 0, h.cylindricalRepresentation.radius );
   w.number( "principalPointY", cyl, 0, h.cylindricalRepresentation.principalPointY );
   Node *d = at( s, { "dist:distortion" } );
   MON_CHECK( !d == !h.pinholeCameraDistortionExt, "header-differs", w.where + " distortion" );
   if ( d )
   {
      auto &e = *h.pinholeCameraDistortionExt;
      Node *cam = at( d, { "dist:CameraNumber" } );
      w.integer( "CameraNumber", cam ? cam->iv : 0, e.cameraNumber );
      w.text( "dist:Type", d, e.type );
      struct
      {
         const char *n;
         double v;
      } cv[] = { { "dist:CV_K1", e.CV_K1 }, { "dist:CV_K2", e.CV_K2 }, { "dist:CV_K3", e.CV_K3 }, { "dist:CV_K4", e.CV_K4 }, { "dist:CV_K5", e.CV_K5 },
                 { "dist:CV_K6", e.CV_K6 }, { "dist:CV_P1", e.CV_P1 }, { "dist:CV_P2", e.CV_P2 }, { "dist:CV_CX", e.CV_CX }, { "dist:CV_CY", e.CV_CY },
                 { "dist:CV_FX", e.CV_FX }, { "dist:CV_FY", e.CV_FY }, { "dist:CV_HEIGHT", double( e.CV_HEIGHT ) }, { "dist:CV_WIDTH", double( e.CV_WIDTH ) } };
      for ( auto &x : cv )
      {
         w.number( x.n, d, 0, x.v );
      }
   }
   // sizes: of the visual reference or of the projection, where there are both
   e57::Image2DProjection proj;
   e57::Image2DType type, mask, visual;
   int64_t width = -1, height = -1, bytesIn = -1;
   const bool ok = rd.GetImage2DSizes( k, proj, type, width, height, bytesIn, mask, visual );
   Node *other = pin ? pin : sph ? sph : cyl;
   const auto otherProj = pin ? e57::ProjectionPinhole : sph ? e57::ProjectionSpherical : e57::ProjectionCylindrical;
   auto kind = [&]( Node *rep ) { return !rep ? e57::ImageNone : at( rep, { "jpegImage" } ) ? e57::ImageJPEG : e57::ImagePNG; };
   MON_CHECK( ok == ( vis || other ), "image-sizes", fmt( "%s: %d", w.where.c_str(), ok ) );
   if ( ok )
   {
      Node *rep = proj == e57::ProjectionVisual ? vis : other;
      MON_CHECK( rep && ( proj == e57::ProjectionVisual || proj == otherProj ), "image-sizes", fmt( "%s: projection %d", w.where.c_str(), int( proj ) ) );
      w.integer( "image type", int( kind( rep ) ), int( type ) );
      w.integer( "visual type", int( kind( vis ) ), int( visual ) );
      w.integer( "mask type", int( at( rep, { "imageMask" } ) ? e57::ImageMaskPNG : e57::ImageNone ), int( mask ) );
      w.integer( "width", at( rep, { "imageWidth" } )->iv, width );
      w.integer( "height", at( rep, { "imageHeight" } )->iv, height );
      w.integer( "image size", int64_t( at( rep, { kind( rep ) == e57::ImageJPEG ? "jpegImage" : "pngImage" } )->blob.size() ), bytesIn );
   }
   struct
   {
      e57::Image2DProjection p;
      Node *rep;
   } reps[] = { { e57::ProjectionVisual, vis }, { e57::ProjectionPinhole, pin }, { e57::ProjectionSpherical, sph }, { e57::ProjectionCylindrical, cyl } };
   for ( auto &x : reps )
   {
      struct
      {
         e57::Image2DType t;
         const char *n;
      } kinds[] = { { e57::ImageJPEG, "jpegImage" }, { e57::ImagePNG, "pngImage" }, { e57::ImageMaskPNG, "imageMask" } };
      for ( auto &y : kinds )
      {
         Node *b = at( x.rep, { y.n } );
         const size_t len = b ? b->blob.size() : 1 + r.below( 20 );
         const size_t from = b && r.chance( 1, 2 ) ? r.below( len ) : 0;
         const size_t n = b && r.chance( 1, 2 ) ? 1 + r.below( len - from ) : len - from;
         std::unique_ptr<char[]> buf( new char[n] );
         memset( buf.get(), 0x5A, n );
         const int64_t got = rd.ReadImage2DData( k, x.p, y.t, buf.get(), int64_t( from ), int64_t( n ) );
         MON_CHECK( got == ( b ? int64_t( n ) : 0 ), "image-bytes", fmt( "%s %s: %" PRId64 " bytes of %zu", w.where.c_str(), y.n, got, n ) );
         MON_CHECK( bytes( buf.get(), n ) == ( b ? b->blob.substr( from, n ) : bytes( n, 0x5A ) ), "image-bytes", w.where + " " + y.n );
         mon::count( "image bytes compared", b ? n : 0 );
      }
   }
   mon::count( "images read" );
}

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   FileGen b( r );
   b.nor = r.chance( 1, 2 );
   b.dist = r.chance( 1, 2 );
   b.ext = r.chance( 1, 2 );
   const unsigned scans = unsigned( r.below( 4 ) ), images = unsigned( r.below( 4 ) );
   Node root = b.root( scans, images );
   ref::Synth syn( r );
   if ( b.nor )
   {
      syn.ns.emplace_back( "nor", "http://www.libe57.org/E57_EXT_surface_normals.txt" );
   }
   if ( b.dist )
   {
      syn.ns.emplace_back( "dist", "http://www.libe57.org/E57_LEICA_Camera_Distortion.txt" );
   }
   if ( b.ext )
   {
      syn.ns.emplace_back( "ext", "urn:some-extension" );
   }
   if ( r.chance( 1, 2 ) )
   {
      syn.maxPacket = 300 + r.below( 5000 ) / 4 * 4;
   }
   const bytes file = syn.file( root );
   try
   {
      ref::File f = ref::parseFile( file );
      const string d = model::diff( root, f.root );
      if ( !d.empty() )
      {
         mon::fail( "harness", "synthesised file does not encode the model: " + d );
      }
   }
   catch ( const ref::Bad &e )
   {
      mon::fail( "harness", "synthesised file is not conformant: " + e.key + " " + e.detail );
   }
   const string path = c.path( "c21.e57" );
   mon::spew( path, file );
   mon::note( fmt( "%zu bytes, %u scans, %u images", file.size(), scans, images ) );
   e57::ReaderOptions o;
   o.checksumPolicy = r.pick( vector<int>{ 0, 25, 50, 100 } );
   e57::Reader rd( path, o );
   MON_CHECK( rd.IsOpen(), "not-open", path );
   e57::E57Root h;
   MON_CHECK( rd.GetE57Root( h ), "root-refused", path );
   Watch w{ "file" };
   w.text( "formatName", &root, h.formatName );
   w.text( "guid", &root, h.guid );
   w.text( "e57LibraryVersion", &root, h.e57LibraryVersion );
   w.text( "coordinateMetadata", &root, h.coordinateMetadata );
   w.number( "versionMajor", &root, 0, h.versionMajor );
   w.number( "versionMinor", &root, 0, h.versionMinor );
   w.when( "creationDateTime", &root, h.creationDateTime );
   w.integer( "data3DSize", scans, h.data3DSize );
   w.integer( "images2DSize", images, h.images2DSize );
   w.integer( "scans", scans, rd.GetData3DCount() );
   w.integer( "images", images, rd.GetImage2DCount() );
   Node *d3 = at( &root, { "data3D" } ), *im = at( &root, { "images2D" } );
   for ( unsigned k = 0; k < scans; k++ )
   {
      e57::Data3D sh;
      Node *s = &d3->kids[k];
      checkScanHeader( rd, k, s, sh );
      checkGroups( rd, k, s, r );
      if ( r.chance( 1, 2 ) )
      {
         checkPoints<double>( rd, k, s, sh, r );
      }
      else
      {
         checkPoints<float>( rd, k, s, sh, r );
      }
   }
   for ( unsigned k = 0; k < images; k++ )
   {
      checkImage( rd, k, &im->kids[k], r );
   }
   // what isn't there
   for ( int64_t k : { int64_t( -1 ), int64_t( scans ), INT64_MAX, INT64_MIN } )
   {
      e57::Data3D sh;
      int64_t v[5];
      bool by;
      MON_CHECK( !rd.ReadData3D( k, sh ), "scan-invented", fmt( "%" PRId64, k ) );
      MON_CHECK( !rd.GetData3DSizes( k, v[0], v[1], v[2], v[3], v[4], by ), "scan-invented", fmt( "%" PRId64, k ) );
      MON_CHECK( !rd.ReadData3DGroupsData( k, 1, v, v + 1, v + 2 ), "scan-invented", fmt( "%" PRId64, k ) );
   }
   for ( int64_t k : { int64_t( -1 ), int64_t( images ), INT64_MAX, INT64_MIN } )
   {
      e57::Image2D ih;
      e57::Image2DProjection p;
      e57::Image2DType t[3];
      int64_t v[3];
      char byte;
      MON_CHECK( !rd.ReadImage2D( k, ih ), "image-invented", fmt( "%" PRId64, k ) );
      MON_CHECK( !rd.GetImage2DSizes( k, p, t[0], v[0], v[1], v[2], t[1], t[2] ), "image-invented", fmt( "%" PRId64, k ) );
      MON_CHECK( rd.ReadImage2DData( k, e57::ProjectionVisual, e57::ImageJPEG, &byte, 0, 1 ) == 0, "image-invented", fmt( "%" PRId64, k ) );
   }
   MON_CHECK( rd.Close() && !rd.IsOpen() && !rd.Close(), "close", path );
   mon::count( "files read" );
   string shape;
   for ( unsigned k = 0; k < scans; k++ )
   {
      for ( auto &x : d3->kids[k].kids )
      {
         shape += x.name.substr( 0, 6 ) + ( x.kids.empty() ? "" : std::to_string( x.kids.size() ) ) + ",";
      }
      for ( auto &x : at( &d3->kids[k], { "points" } )->proto->kids )
      {
         shape += fmt( "%s:%d;", x.name.c_str(), int( x.type ) );
      }
   }
   for ( unsigned k = 0; k < images; k++ )
   {
      for ( auto &x : im->kids[k].kids )
      {
         shape += x.name.substr( 0, 6 ) + ( x.kids.empty() ? "" : std::to_string( x.kids.size() ) ) + ",";
      }
   }
   mon::distinct( "case", shape );
   mon::sample( fmt( "case %ld: %zu bytes, %u scans, %u images", c.caseNo, file.size(), scans, images ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C21";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
